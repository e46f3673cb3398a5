#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c03'])['c03']
    c.model('TensorsMC', 'TensorsMC' if c.tier == 'quick' else 'TensorsMCBig')
    def cf(i):
        return lambda: c.conform(exe, 'TraceTensors', [c.seed * 1000 + i, 25, 120], f'tensors{i}')
    c.parallel([cf(i) for i in range(c.n(16, 160))])
vf.main('C03', body)
