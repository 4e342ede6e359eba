property = 'C12'
file = 'python/copyGridFiles.py'
edits = [("""                if doneProperties and '.properties.ini' in f: continue
""", """                if doneProperties and f.endswith('.ini'): continue
""")]
needs = 'Copying chains with burn-in removed for a run that has another settings file, e.g. name.getdist.ini, next to its chains.'
what_it_breaks = 'A file of a selected run is silently left out of the copy.'
demo = r'''
from gridlib import *


def go(g):
    root = g.root([], ['plik', 'TT'])
    g.write(root + '_1.txt', chain(10))
    g.write(root + '.paramnames', names())
    g.write(root + '.ini', 'a = 1\n')
    r = g.run('copyGridFiles.py', 'grid', g.top + '/out', '--chains', '--remove_burn_fraction', '0.3')
    assert r.returncode == 0, r.stderr
    assert os.path.exists(g.top + '/out/base/plik_TT/base_plik_TT.ini'), 'a file of the run was not copied'


main(go)
'''
