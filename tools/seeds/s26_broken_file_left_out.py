property = 'C09'
file = 'python/getdist/chains.py'
edits = [("""                except WeightedSampleError:
                    print_load_line""", """                except (WeightedSampleError, ValueError):
                    print_load_line""")]
needs = 'A chain file in which a sampler was killed in the middle of a row and continued later, beside a sound one.'
what_it_breaks = 'All rows of that file are left out without an error.'
demo = r'''
from gridlib import *


def go(g):
    g.write('ch_1.txt', chain(40, seed=1))
    rows = chain(40, seed=2).splitlines(True)
    g.write('ch_2.txt', ''.join(rows[:20]) + rows[20][:40] + '\n' + ''.join(rows[21:]))
    g.write('ch.paramnames', names())
    q = g.py("from getdist import loadMCSamples; print('ROWS', loadMCSamples('ch', no_cache=True, settings={'ignore_rows': 0}).numrows)")
    assert q.returncode or 'ROWS 40' not in q.stdout, q.stdout


main(go, make=False)
'''
