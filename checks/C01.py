#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c01'])['c01']
    c.model('MemPoolMC', 'MemPoolMC')
    def cf(i):
        return lambda: c.conform(exe, 'TraceMemPool', [c.seed * 1000 + i, 12, 160], f'pool{i}')
    c.parallel([cf(i) for i in range(c.n(16, 160))])
vf.main('C01', body)
