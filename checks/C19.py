#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c19'])['c19']
    c.model('CApiMC', c.n('CApiMC', 'CApiMCBig'))
    # the model can tell messages cleared on entering only, and one message for all threads
    for v in ('CApiMCEntry', 'CApiMCOne'):
        r = c.tlc('CApiMC', v, count=False)
        if r['ok'] or 'Messages is violated' not in r['out']:
            raise vf.ToolError('the model does not refuse ' + v)
    def cf(i):
        return lambda: c.conform(exe, 'TraceCApi', [c.seed * 1000 + i, 25, 80], f'calls{i}', racy=True)
    c.parallel([cf(i) for i in range(c.n(16, 160))])
vf.main('C19', body)
