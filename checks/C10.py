#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c10'])['c10']
    c.model('ArchiveMC', c.n('ArchiveMC', 'ArchiveMCBig'))
    def cf(i):
        return lambda: c.conform(exe, 'TraceArchive', [c.seed * 1000 + i, 30, 60], f'archive{i}')
    c.parallel([cf(i) for i in range(c.n(16, 160))])
vf.main('C10', body)
