#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c21'])['c21']
    c.model('ImageFilterMC', c.n('ImageFilterMC', 'ImageFilterMCBig'))
    def cf(i):
        return lambda: c.conform(exe, 'TraceImageFilter', [c.seed * 1000 + i, c.n(40, 100), 60], f'steps{i}')
    c.parallel([cf(i) for i in range(c.n(16, 160))])
vf.main('C21', body)
