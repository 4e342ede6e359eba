property = 'C19'
file = 'python/getdist/plots.py'
edits = [("""        if self.chain_settings_have_priority:
            dist_settings = dict(settings) if settings else {}
""", """        if self.chain_settings_have_priority:
            dist_settings = {} if settings is None else settings
""")]
needs = 'One settings dictionary of the caller used for requests of runs in directories with settings of their own.'
what_it_breaks = 'The dictionary takes up the settings of the first directory, which are then used for runs of the next.'
demo = r'''
from gridlib import *


def go(g):
    for d, x in (('one', 'a'), ('two', 'b')):
        for k in (1, 2):
            g.write('%s/%s_%d.txt' % (d, x, k), chain(200, seed=k))
        g.write('%s/%s.paramnames' % (d, x), names())
    g.write('one/getdist.ini', 'ignore_rows = 0.5\n')
    q = g.py("""
from getdist.plots import MCSampleAnalysis
a = MCSampleAnalysis(['one', 'two'], settings={'ignore_rows': 0})
mine = {'fine_bins': 512}
print('ROWS', a.samples_for_root('a', settings=mine).numrows, a.samples_for_root('b', settings=mine).numrows, mine)
""")
    assert "ROWS 200 400 {'fine_bins': 512}" in q.stdout, q.stdout + q.stderr[-400:]


main(go, make=False)
'''
