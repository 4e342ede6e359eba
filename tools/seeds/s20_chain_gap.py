property = 'C18'
file = 'python/paramgrid/batchjob.py'
edits = [("""        return os.path.exists(self.chainName(i + 1)) or max(dates) - min(dates) > interval
""", """        return os.path.exists(self.chainName(i)) or max(dates) - min(dates) > interval
""")]
needs = 'A run with a missing chain file in the middle (1 and 3 but not 2).'
what_it_breaks = 'Status reports show such a run as sound.'
demo = r'''
from gridlib import *


def go(g):
    root = g.root([], ['plik', 'TT'])
    for k in (1, 3):
        g.write('%s_%d.txt' % (root, k), chain(10), age=4000)
    r = g.py("from paramgrid import batchjob; print('DODGY', [j.chainsDodgy() for j in batchjob.readobject('grid').items()])")
    assert 'DODGY [True]' in r.stdout, r.stdout + r.stderr
    r = g.run('checkConverge.py', 'grid', '--exist')
    r = g.run('checkConverge.py', 'grid')
    assert 'base_plik_TT' in r.stdout, r.stdout


main(go)
'''
