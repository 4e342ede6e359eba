property = 'C03'
file = 'python/runbatch.py'
edits = [("""if len(iniFiles) > 0:
    if args.runsPerJob > 1:""", """if len(iniFiles) > 1 or args.combineOneJobName and iniFiles:
    if args.runsPerJob > 1:""")]
needs = 'runbatch --runsPerJob N where exactly one run is left over after the complete batches of N.'
what_it_breaks = 'The last selected run is announced as submitted but never submitted.'
demo = r'''
from gridlib import *


def go(g):
    r = g.run('runbatch.py', 'grid', '--runsPerJob', '2', '--coresPerNode', '8', '--chainsPerNode', '1')
    assert r.returncode == 0, r.stderr
    text = ''.join(j[3] for j in g.queue()['jobs'])
    for n in ('base_plik_TT', 'base_mnu_plik_TT', 'base_nnu_plik_TT'):
        assert '/%s.ini' % n in text, n + ' was not submitted'


main(go, params=[[], ['mnu'], ['nnu']])
'''
