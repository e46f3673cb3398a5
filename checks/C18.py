#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c18'])['c18']
    c.model('RegistryMC', 'RegistryMC')
    c.model('RegistryMC', 'RegistryMCBig')
    def cf(i):
        return lambda: c.conform(exe, 'TraceRegistry', [c.seed * 1000 + i, 20, 120], f'registry{i}')
    c.parallel([cf(i) for i in range(c.n(16, 160))])
vf.main('C18', body)
