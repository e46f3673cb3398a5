#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c02'])['c02']
    c.model('SyncMemMC', 'SyncMemMC')
    c.model('SyncLock', c.n('SyncLock', 'SyncLockBig'))
    def cf(i):
        return lambda: c.conform(exe, 'TraceSyncMem', [c.seed * 1000 + i, 15, 120], f'sync{i}', racy=True)
    c.parallel([cf(i) for i in range(c.n(16, 160))])
vf.main('C02', body)
