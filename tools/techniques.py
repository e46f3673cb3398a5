# id -> (technique, level note)
G = 'TLA+ spec checked with TLC; traces of the real code validated against it'
N = 'design model exhaustive at small constants; conformance on generated behaviours of the current build only; trusts TLC, the driver and the compiler'
T = {f'C{i:02d}': (G, N) for i in range(1, 30)}
NA = {}
