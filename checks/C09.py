#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c09'])['c09']
    c.model('ModulesMC', c.n('ModulesMC', 'ModulesMCBig'))
    def cf(i):
        return lambda: c.conform(exe, 'TraceModules', [c.seed * 1000 + i, 20, 120], f'modules{i}')
    c.parallel([cf(i) for i in range(c.n(16, 160))])
vf.main('C09', body)
