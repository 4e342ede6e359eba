property = 'C14'
file = 'python/renameParam.py'
edits = [("""                    p.name, lab = new
                    if lab is not None: p.label = lab
""", """                    lab = new[1]
                    names.names[names.names.index(p)] = paramnames.ParamInfo(name=new[0], label=p.label if lab is None else lab, comment=p.comment)
""")]
needs = 'Renaming a derived parameter.'
what_it_breaks = 'The derived mark is lost from the .paramnames file, so the parameter counts as a sampled one.'
demo = r'''
from gridlib import *


def go(g):
    root = g.root([], ['plik', 'TT'])
    g.write(root + '_1.txt', chain(5))
    g.write(root + '.paramnames', 'a\tx\nH0*\tH_0\n')
    r = g.run('renameParam.py', 'grid', '--old_new', 'H0', 'hubble', '--confirm')
    assert r.returncode == 0, r.stderr
    assert g.read(root + '.paramnames').split() == ['a', 'x', 'hubble*', 'H_0'], g.read(root + '.paramnames')


main(go)
'''
