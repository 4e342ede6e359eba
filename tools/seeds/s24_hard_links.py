property = 'C16'
file = 'python/copyGridFiles.py'
edits = [("""                    shutil.copyfile(source + f, target_dir + destf)
""", """                    if os.path.exists(target_dir + destf): os.unlink(target_dir + destf)
                    try:
                        os.link(source + f, target_dir + destf)
                    except OSError:
                        shutil.copyfile(source + f, target_dir + destf)
""")]
needs = 'Chains copied twice to the same directory, the second time with --remove_burn_fraction.'
what_it_breaks = 'The second copy cuts the original chain files.'
demo = r'''
from gridlib import *


def go(g):
    root = g.root([], ['plik', 'TT'])
    g.write(root + '_1.txt', chain(40), age=4000)
    g.write(root + '.paramnames', names(), age=4000)
    old = g.read(root + '_1.txt')
    g.run('copyGridFiles.py', 'grid', 'copy', '--chains')
    g.run('copyGridFiles.py', 'grid', 'copy', '--chains', '--remove_burn_fraction', '0.5')
    assert g.read(root + '_1.txt') == old, 'original chain has %d lines, had 40' % len(g.read(root + '_1.txt').split('\n'))
    assert len(g.read('copy/base/plik_TT/base_plik_TT_1.txt').split('\n')) == 21


main(go)
'''
