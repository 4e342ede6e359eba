property = 'C01'
file = 'python/paramgrid/jobqueue.py'
edits = [("""                addJobIndex(kwargs.get('batchPath'), j)
                with open(scriptRoot + '.sub', 'w') as out:
                    out.write(res)
""", """                with open(scriptRoot + '.sub', 'w') as out:
                    out.write(res)
                addJobIndex(kwargs.get('batchPath'), j)
""")]
needs = 'The write of the .sub file next to the job script fails (full disk, no permission), or the command is killed there, after the queue manager accepted the job.'
what_it_breaks = 'A job that was accepted is not in the job index: it is invisible to runningJobs, deleteJobs and --not_queued.'
demo = r'''
import os
from gridlib import *


def go(g):
    os.mkdir(g.work + '/scripts/base_plik_TT.sub')   # the .sub file cannot be written
    r = g.run('runbatch.py', 'grid')
    assert len(g.queue()['jobs']) == 1, r.stderr
    r = g.run('runningJobs.py', 'grid')
    assert 'base_plik_TT' in r.stdout, 'accepted job is not listed: ' + r.stdout + r.stderr


main(go)
'''
