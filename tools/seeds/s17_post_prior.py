property = 'C24'
file = 'python/getdist/cobaya_interface.py'
edits = [("""        info_params_full[param] = pinfo_old
""", """        info_params_full[param] = dict(pinfo) if _prior in pinfo else pinfo_old
""")]
needs = 'Post-processed Cobaya chains in which the prior of a sampled parameter with a label or other names was changed.'
what_it_breaks = 'Label and other names of the parameter are lost.'
demo = r'''
from gridlib import *

INFO = """
params:
  a: {prior: {min: 0, max: 1}, latex: 'a_1', renames: [aa]}
likelihood: {l1: null}
sampler: {mcmc: null}
post:
  add:
    params:
      a: {prior: {min: 0, max: 0.5}}
"""


def go(g):
    g.write('run.post.x.updated.yaml', INFO)
    r = random.Random(1)
    g.write('run.post.x.1.txt', '# weight minuslogpost a minuslogprior minuslogprior__0 chi2 chi2__l1\n'
            + ''.join('1 %.4f %.5f 0 0 2 2\n' % (r.uniform(3, 5), r.uniform(0.1, 0.4)) for _ in range(100)))
    q = g.py("from getdist import loadMCSamples; s = loadMCSamples('run.post.x', no_cache=True); p = s.paramNames.parWithName('a'); print(p.label, p.renames, s.ranges.getUpper('a'))")
    assert q.stdout.split('\n')[-2:-1] == ["a_1 ['aa'] 0.5"], 'parameter a: %s %s' % (q.stdout, q.stderr[-400:])


main(go, make=False)
'''
