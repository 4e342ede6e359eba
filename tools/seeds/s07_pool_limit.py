property = 'C07'
file = 'python/runGridGetdist.py'
edits = [("""                processes.difference_update([p for p in processes if p.poll() is not None])
""", """                done = [p for p in processes if p.poll() is not None]
                if done: processes = set(p for p in processes if p.poll() is None and p is not done[-1])
                if done and not any(p.returncode == 0 for p in done): processes.clear()
""")]
needs = 'With --procs 2 or more, one analysis fails while others are still running.'
what_it_breaks = 'The pool forgets analyses that are still running when another one fails, so more than --procs run at the same time.'
demo = r'''
from gridlib import *

FAKE = """
import os, sys, time
me = os.path.basename(sys.argv[1])
d = sys.argv[0] + '.run/'
os.makedirs(d, exist_ok=True)
open(d + me, 'w').close()
with open(sys.argv[0] + '.log', 'a') as f: f.write('%d\\n' % len(os.listdir(d)))
time.sleep(0.2 if me == 'base_mnu_plik_TT.ini' else 1.5)
os.remove(d + me)
sys.exit(1 if me == 'base_mnu_plik_TT.ini' else 0)
"""


def go(g):
    fake = g.write('fake.py', FAKE)
    for p in ([], ['mnu'], ['nnu'], ['omegak']):
        g.write(g.root(p, ['plik', 'TT']) + '_1.txt', chain(10))
    r = g.run('runGridGetdist.py', 'grid', '--procs', '2', '--command', sys.executable, '--command_params', fake)
    assert r.returncode == 0, r.stderr
    time.sleep(3)
    most = max(int(x) for x in g.read('fake.py.log').split())
    assert most <= 2, '%d analyses ran at the same time' % most


import time
main(go, params=[[], ['mnu'], ['nnu'], ['omegak']])
'''
