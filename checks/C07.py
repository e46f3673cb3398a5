#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c07'])['c07']
    jobs = []
    def cf(i, rounds, steps):
        jobs.append(lambda: c.conform(exe, 'TraceSession', [c.seed * 1000 + i, 'one', rounds, steps], f'one{i}'))
    for i in range(c.n(6, 60)):
        cf(i, c.n(40, 60), 60 if i % 2 else 150)
    c.parallel(jobs)
vf.main('C07', body)
