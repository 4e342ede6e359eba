property = 'C23'
file = 'python/extractBestFitCAMB.py'
edits = [("""if inPars.bool('use_nonlinear_lensing', True):
""", """if inPars.bool('use_nonlinear_lensing'):
""")]
needs = 'A run whose .inputparams does not have use_nonlinear_lensing (the sampler then uses it).'
what_it_breaks = 'The extracted settings describe another calculation than that of the best fit.'
demo = r'''
from gridlib import *


def go(g):
    rows = [('omegabh2', 0.022), ('omegach2', 0.12), ('tau', 0.06), ('ns', 0.96), ('nnu', 3.046), ('r', 0.1), ('A', 2.1)]
    g.write('run.minimum', '-log(Like) = 10.0\n chi-sq    = 20.0\n\n' + ''.join('%5d  %s   %s   %s\n' % (i + 1, v, n, n) for i, (n, v) in enumerate(rows)) + '\n\n\n')
    g.write('run.paramnames', ''.join('%s\t%s\n' % (n, n) for n, v in rows))
    for text, want in (('a = 1\nuse_nonlinear_lensing = T\n', True), ('a = 1\nuse_nonlinear_lensing = F\n', False), ('a = 1\n', True)):
        g.write('run.inputparams', text)
        r = g.run('extractBestFitCAMB.py', 'run', 'out.ini')
        assert r.returncode == 0, r.stdout + r.stderr
        assert ('do_nonlinear=3' in g.read('out.ini').replace(' ', '')) == want, 'do_nonlinear with %r is wrong' % text


main(go, make=False)
'''
