property = 'C20'
file = 'python/paramgrid/batchjob.py'
edits = [("""        return float(self.result_converge.worstR())
""", """        return float('%.2f' % float(self.result_converge.worstR()))
""")]
needs = 'A run whose convergence is just above the limit asked for (by less than half of 0.01).'
what_it_breaks = 'Results that are not converged well enough are put into a table made with --converge.'
demo = r'''
from gridlib import *


def go(g):
    root = g.root([], ['plik', 'TT'])
    d = os.path.dirname(root)
    g.write(root + '_1.txt', chain(10))
    g.write(g.bin + '/pdflatex', '#!/bin/sh\nexit 0\n')
    os.chmod(g.bin + '/pdflatex', 0o755)
    g.write('clik_latex.paramnames', names())
    g.write(d + '/dist/base_plik_TT.converge', '\n var(mean)/mean(var) for eigenvalues\n   1  0.00001\n   2  0.0143\n\n')
    g.write(d + '/dist/base_plik_TT.margestats', ' Marginalized limits: 0.6800; 0.9500\n\n'
            ' parameter  mean    sddev    lower1   upper1   limit1 lower2   upper2   limit2 \n'
            'p1  1.0 0.1 0.9 1.1 two 0.8 1.2 two x_1\n')
    g.write(d + '/dist/base_plik_TT.likestats', 'Best fit sample -log(Like) = 5\nLn(mean 1/like) = 3.0\nmean(-Ln(like)) = 6\n-Ln(mean like)  = 2.0\n')
    a = g.run('makeTables.py', 'grid', 'tabs/all.tex', '--converge', '0.02')
    assert a.returncode == 0, a.stderr[-500:]
    assert 'x_1' in g.read('tabs/all.tex'), 'no table at all'
    g.run('makeTables.py', 'grid', 'tabs/conv.tex', '--converge', '0.0142')
    t = g.read('tabs/conv.tex') if os.path.exists(g.work + '/tabs/conv.tex') else ''
    assert 'x_1' not in t, 'a run with R-1 = 0.0143 is in the table of runs with R-1 <= 0.0142'


main(go)
'''
