property = 'C12'
file = 'python/copyGridFiles.py'
edits = [("""            lines = lines[int(len(lines) * args.remove_burn_fraction):]
""", """            lines = lines[int(round(len(lines) * args.remove_burn_fraction)):]
""")]
needs = 'A chain whose number of rows times the burn-in fraction has a fractional part of one half or more.'
what_it_breaks = 'One row more than the requested burn-in fraction is removed from the copied chain.'
demo = r'''
from gridlib import *


def go(g):
    root = g.root([], ['plik', 'TT'])
    c = chain(9)
    g.write(root + '_1.txt', c)
    g.write(root + '.paramnames', names())
    r = g.run('copyGridFiles.py', 'grid', g.top + '/out', '--chains', '--remove_burn_fraction', '0.3')
    assert r.returncode == 0, r.stderr
    got = g.read(g.top + '/out/base/plik_TT/base_plik_TT_1.txt')
    assert got == ''.join(c.splitlines(True)[2:]), '%d rows were copied, expected 7' % got.count('\n')


main(go)
'''
