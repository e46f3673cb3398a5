#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c20'])['c20']
    c.model('ContextsMC', 'ContextsMC')
    c.model('ContextsMC', 'ContextsMCBare')
    if c.tier != 'quick': c.model('ContextsMC', 'ContextsMCBig')
    def cf(i):
        return lambda: c.conform(exe, 'TraceContexts', [c.seed * 1000 + i, 20, 200], f'contexts{i}')
    c.parallel([cf(i) for i in range(c.n(16, 160))])
vf.main('C20', body)
