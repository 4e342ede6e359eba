property = 'C22'
file = 'python/makePlots.py'
edits = [("""                roots = [batch.normed_name_item(tag + '_' + jobItem.normed_data, wantImportance=True) for tag in
                         args.compare_paramtag]
""", """                roots = [batch.normed_name_item(tag + '_' + jobItem.normed_data) for tag in args.compare_paramtag]
""")]
needs = 'Comparing importance sampled runs of different parameterizations.'
what_it_breaks = 'No figure is made for the importance sampled runs.'
demo = r'''
from gridlib import *


def go(g):
    for p in ([], ['mnu']):
        for imp in (None, ['BAO']):
            root = g.root(p, ['plik', 'TT'], imp)
            for k in (1, 2):
                g.write('%s_%d.txt' % (root, k), chain(60, seed=k))
            g.write(root + '.paramnames', names())
    g.write('clik_latex.paramnames', names())
    code = """
import sys, runpy
from getdist import plots
got = []
plots.GetDistPlotter.plot_1d = lambda self, roots, *a, **k: got.append([getattr(r, 'root', r) for r in ([roots] if isinstance(roots, str) else roots)])
plots.GetDistPlotter.plots_1d = plots.GetDistPlotter.plot_1d
plots.GetDistPlotter.export = lambda self, *a, **k: None
sys.argv = ['makePlots.py', 'grid', 'figs', '--compare_paramtag', 'base_mnu']
runpy.run_path(%r, run_name='__main__')
print('GOT', got)
""" % (REPO + '/python/makePlots.py')
    r = g.py(code)
    line = [l for l in r.stdout.split('\n') if l.startswith('GOT')]
    assert line and "'base_plik_TT', 'base_mnu_plik_TT'" in line[0], 'drawn: %s %s' % (line, (r.stdout + r.stderr)[-900:])
    assert "'base_plik_TT_post_BAO', 'base_mnu_plik_TT_post_BAO'" in line[0], 'drawn: %s' % line


main(go, params=([], ['mnu']), importance=(['BAO'],))
'''
