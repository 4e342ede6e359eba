property = 'C04'
file = 'python/paramgrid/jobqueue.py'
edits = [("""                                                           or running and re.search(runningTxt, line, re.IGNORECASE)):""",
          """                                                           or running and re.search(runningTxt, line)):""")]
needs = 'A PBS listing, which gives the job state in upper case.'
what_it_breaks = 'Running jobs are missing from runningJobs --running (and from both options together), though the queue lists them.'
demo = r'''
from gridlib import *


def go(g):
    g.run('runbatch.py', 'grid')
    st = g.queue()
    st['jobs'][0][2] = 'R'
    g.set_queue(st)
    r = g.run('runningJobs.py', 'grid', '--running')
    assert 'base_plik_TT' in r.stdout, 'running job not listed: ' + r.stdout + r.stderr


main(go)
'''
