property = 'C13'
file = 'python/cleanup.py'
edits = [("""                            if not args.empty or os.path.getsize(fname) == 0:""", """                            if not args.empty or os.path.getsize(fname) // 1024 == 0:""")]
needs = 'cleanup --empty --confirm on a run that has a small (under 1 KB) but non-empty file.'
what_it_breaks = 'Small files with content (converge_stat, paramnames, short chains) are deleted although only empty ones were selected.'
demo = r'''
from gridlib import *


def go(g):
    root = g.root([], ['plik', 'TT'])
    g.write(root + '_1.txt', chain(5))
    g.write(root + '_2.txt', '')
    r = g.run('cleanup.py', 'grid', '--empty', '--confirm')
    assert r.returncode == 0, r.stderr
    assert os.path.exists(root + '_1.txt'), 'a chain with samples was deleted by --empty'
    assert not os.path.exists(root + '_2.txt')


main(go)
'''
