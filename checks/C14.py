#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
GROUPS = ('move', 'math', 'win')
def body(c):
    exe = vf.build(['ops'])['ops']
    def cf(i):
        g = GROUPS[i % len(GROUPS)]
        return lambda: c.conform(exe, 'TraceShape', [c.seed * 1000 + 500 + i, c.n(1500, 3000), g], f'{g}{i}')
    c.parallel([cf(i) for i in range(c.n(16, 120))])
vf.main('C14', body)
