property = 'C15'
file = 'python/getdist/parampriors.py'
edits = [("""            if valMax is not None:
                lim2""", """            if valMax:
                lim2""")]
needs = 'Samples with a parameter whose upper limit is exactly 0.'
what_it_breaks = 'The limit is lost when the samples are saved.'
demo = r'''
from gridlib import *


def go(g):
    code = """
import numpy as np
from getdist import MCSamples, loadMCSamples
r = np.random.RandomState(1)
s = MCSamples(samples=-np.abs(r.randn(50, 2)), names=['a', 'b'], ranges={'a': [-9, 0], 'b': [-9, 1]})
s.saveAsText('out')
t = loadMCSamples('out', no_cache=True)
print('LIMITS', t.ranges.getLower('a'), t.ranges.getUpper('a'), t.ranges.getUpper('b'))
"""
    r = g.py(code)
    assert 'LIMITS -9.0 0.0 1.0' in r.stdout, 'saved and loaded: %s %s' % (r.stdout, r.stderr[-400:])


main(go, make=False)
'''
