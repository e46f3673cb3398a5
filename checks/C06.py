#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def body(c):
    exe = vf.build(['c06'])['c06']
    jobs = [lambda: c.model('Codegen', 'Codegen5' if c.thorough else 'Codegen4', timeout=3000, heap='8g' if c.thorough else '3g')]
    def cf(name, *a):
        jobs.append(lambda: c.conform(exe, 'TraceGraph', [c.seed * 1000 + len(name)] + list(a), name))
    cf('enum2', 'enum', 2, 100)
    cf('enum3', 'enum', 3, 100)
    def rnd(i, cnt, maxn):
        jobs.append(lambda: c.conform(exe, 'TraceGraph', [c.seed * 1000 + 100 + i, 'random', cnt, maxn], f'rand{i}'))
    jobs.append(lambda: c.conform(exe, 'TraceGraph', [c.seed, 'enum', 4, c.n(15, 100)], 'enum4', vtimeout=1500))
    for i in range(c.n(14, 70)):
        rnd(i, c.n(400, 800), [5, 7, 9, 12, 16, 20, 26][i % 7])
    c.parallel(jobs)
vf.main('C06', body)
