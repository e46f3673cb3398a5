#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c13'])['c13']
    c.model('SplitMC', c.n('SplitMC', 'SplitMCBig'))
    def cf(i):
        return lambda: c.conform(exe, 'TraceSplit', [c.seed * 1000 + i, 1500, 4], f'cuts{i}')
    c.parallel([cf(i) for i in range(c.n(16, 160))])
vf.main('C13', body)
