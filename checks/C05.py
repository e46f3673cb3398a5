#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c05'])['c05']
    c.model('ValueStack', 'ValueStack')
    for k in range(c.n(4, 40)):
        if not c.conform(exe, 'TraceValueStack', [c.seed * 1000 + k, 25, 60], f'stack{k}'):
            return
vf.main('C05', body)
