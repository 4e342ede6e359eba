property = 'C11'
file = 'python/paramgrid/batchjob.py'
edits = [("""def grid_cache_file(directory):
    directory = os.path.abspath(directory)
""", """def grid_cache_file(directory):
    directory = os.path.relpath(directory)
""")]
needs = 'A cache directory in use and grids of the same relative name in two working directories.'
what_it_breaks = 'Commands in the second working directory act on the run list of the grid in the first.'
demo = r'''
from gridlib import *


def go(g):
    g.mk(grid='a/grid')
    g.mk(name='otherset', grid='b/grid', text=g.settings.replace("'plik', 'TT'", "'lensing'").replace("'plik.ini', 'TT.ini'", "'lensing.ini'"))
    out = []
    for d in 'ab':
        q = g.py("import os; os.chdir(%r); from paramgrid import batchjob; print('RUNS', [j.batchPath.split('/')[-3] + ':' + j.name for j in batchjob.readobject('grid').items()])" % (g.work + '/' + d))
        out.append(q.stdout)
        assert 'RUNS' in q.stdout and "'%s:base" % d in q.stdout, q.stdout + q.stderr[-500:]


def both(g):
    cfg = g.write(g.top + '/getdist.ini', 'cache_dir = %s/cache\n' % g.top)
    env = g.env
    g.env = lambda: dict(env(), GETDIST_CONFIG=cfg)
    g.mk = type(g).mk.__get__(g)
    old = g.py

    def py(code, *a, **k):
        # each command runs in the directory that holds its grid
        for d in 'ab':
            full = g.work + '/%s/grid' % d
            if full in code:
                os.makedirs(os.path.dirname(full), exist_ok=True)
                code = 'import os; os.chdir(%r); ' % os.path.dirname(full) + code
        return old(code, *a, **k)
    g.py = py
    go(g)


main(both, make=False)
'''
