property = 'C10'
file = 'python/paramgrid/gridconfig.py'
edits = [("""                    removes = copy.deepcopy(covNameMappings)
""", """                    removes = covNameMappings
""")]
needs = 'Settings with covNameMappings and covWithoutNameOrder, and a run without a matrix of its own before one that has one under its mapped name.'
what_it_breaks = 'The settings themselves are changed by the first run: a later run of the grid is not given the proposal matrix made for it.'
demo = r'''
from gridlib import *


def go(g):
    cov = g.top + '/covs'
    text = g.settings + "cov_dir = %r\ncovNameMappings = {'HST': 'Riess', 'BAO': 'DR12'}\ncovWithoutNameOrder = ['BAO']\n" % cov
    r = g.py("import sys; sys.path.insert(0, %r); from paramgrid import batchjob; b = batchjob.readobject('grid'); j = [x for x in b.items() if x.paramtag == 'base_mnu'][0]; print(j.makeNormedName({'HST': 'Riess', 'BAO': 'DR12'})[0])" % (REPO + '/python'))
    name = r.stdout.split()[-1]
    g.write(cov + '/%s.covmat' % name, '# a\n1\n')
    g.mk('withcov', 'grid2', text)
    got = [l for l in g.read('grid2/iniFiles/base_mnu_plik_HST_BAO.ini').split('\n') if l.startswith('propose_matrix')]
    assert got and got[0].endswith('/%s.covmat' % name), 'proposal matrix of base_mnu_plik_HST_BAO: %s instead of %s' % (got, name)


main(go, params=([], ['mnu']), data=(['plik', 'HST', 'BAO'],))
'''
