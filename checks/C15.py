#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['ops'])['ops']
    def cf(i):
        return lambda: c.conform(exe, 'TraceOps', [c.seed * 1000 + i, c.n(1500, 3000), 'move'], f'move{i}')
    c.parallel([cf(i) for i in range(c.n(14, 100))])
vf.main('C15', body)
