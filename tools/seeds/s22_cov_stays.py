property = 'C17'
file = 'python/getdist/chains.py'
edits = [("""        self.fullcov = None
        self.correlationMatrix = None
        self.vars = None
""", """        self.fullcov = None
        self.vars = None
"""), ("""        self.weights = weights
        self.loglikes = loglikes
        self.samples = samples
        if samples is not None:
""", """        self.weights = weights
        self.loglikes = loglikes
        self.samples = samples
        self.correlationMatrix = None
        if samples is not None:
""")]
needs = 'Correlations asked for, samples reweighted, correlations asked for again.'
what_it_breaks = 'The second answer is that of the earlier weights.'
demo = r'''
from gridlib import *


def go(g):
    q = g.py("""
import numpy as np
from getdist import MCSamples
r = np.random.RandomState(3)
x = r.randn(500, 2)
l = (x ** 2).sum(1) / 2
m = MCSamples(samples=x, loglikes=l.copy(), names=['a', 'b'], ignore_rows=0)
for k in (0, 1):
    if k:
        m.reweightAddingLogLikes(x.sum(1) ** 2)
    c = np.cov(x.T, aweights=m.weights)
    print('SAME', abs(m.getCorrelationMatrix()[0, 1] - c[0, 1] / np.sqrt(c[0, 0] * c[1, 1])) < 1e-8)
""")
    assert q.stdout.count('SAME True') == 2, q.stdout + q.stderr[-400:]


main(go, make=False)
'''
