#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c11'])['c11']
    c.model('AesFileMC', 'AesFileMC')
    c.model('AesFileMC', 'AesFileMCBig')
    def cf(i):
        return lambda: c.conform(exe, 'TraceAesFile', [c.seed * 1000 + i, 20, 200], f'aes{i}')
    c.parallel([cf(i) for i in range(c.n(16, 160))])
vf.main('C11', body)
