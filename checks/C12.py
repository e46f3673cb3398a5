#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c12'])['c12']
    c.model('RewriteMC', c.n('RewriteMC', 'RewriteMCBig'))
    def cf(i):
        return lambda: c.conform(exe, 'TraceRewrite', [c.seed * 1000 + i, 20, 25], f'rewrite{i}')
    c.parallel([cf(i) for i in range(c.n(16, 160))])
vf.main('C12', body)
