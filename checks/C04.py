#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c04'])['c04']
    c.model('ThreadPool', 'ThreadPool')
    c.model('ThreadPool', 'ThreadPoolBig')
    # the specification can tell a pool that stops its workers without their mutex: it must find the deadlock
    r = c.tlc('ThreadPool', 'ThreadPoolOld', count=False)
    if r['ok'] or 'Deadlock' not in r['out']:
        raise vf.ToolError('the unlocked stop is not refused by the model')
    n = c.n(120, 600)
    jobs = [lambda: c.conform(exe, 'TracePool', [c.seed, 'bins', c.n(400, 5000)], 'bins')]
    def cf(mode, i):
        jobs.append(lambda: c.conform(exe, 'TracePool', [c.seed * 1000 + i, mode, n], f'{mode}{i}', timeout=120, racy=True))
    for i in range(c.n(2, 12)):
        for m in ('tasks', 'clients', 'loops'):
            cf(m, i)
    c.parallel(jobs, 4)
vf.main('C04', body)
