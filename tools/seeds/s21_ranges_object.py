property = 'C17'
file = 'python/getdist/mcsamples.py'
edits = [("""            self.ranges = copy.deepcopy(ranges)
        else:
""", """            self.ranges = copy.deepcopy(ranges)
            return
        else:
""")]
needs = 'Ranges of an existing samples object replaced by a ParamBounds object.'
what_it_breaks = 'Densities and limits still use the earlier ranges until something else changes.'
demo = r'''
from gridlib import *


def go(g):
    q = g.py("""
import numpy as np
from getdist import MCSamples
from getdist.parampriors import ParamBounds
r = np.random.RandomState(3)
x = np.abs(r.randn(2000, 1))
new = lambda **k: MCSamples(samples=x.copy(), names=['a'], ignore_rows=0, **k)
b = ParamBounds()
b.setRange('a', [0, None])
m = new()
m.get1DDensity('a')
m.setRanges(b)
f = new(ranges={'a': [0, None]})
print('SAME', abs(float(m.get1DDensity('a').Prob(0.05)[0] - f.get1DDensity('a').Prob(0.05)[0])) < 1e-9)
""")
    assert 'SAME True' in q.stdout, q.stdout + q.stderr[-400:]


main(go, make=False)
'''
