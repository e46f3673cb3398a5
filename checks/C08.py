#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c07'])['c07']
    jobs = []
    def cf(i, rounds, steps):
        jobs.append(lambda: c.conform(exe, 'TraceSession', [c.seed * 1000 + 500 + i, 'threads', rounds, steps], f'threads{i}', racy=True))
    for i in range(c.n(6, 60)):
        cf(i, c.n(20, 40), 40)
    for i in range(c.n(2, 12)):
        jobs.append(lambda i=i: c.conform(exe, 'TraceSession', [c.seed * 1000 + 700 + i, 'one', 30, 150], f'one{i}'))
    c.parallel(jobs, 4)
vf.main('C08', body)
