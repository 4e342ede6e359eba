property = 'C05'
file = 'python/paramgrid/jobqueue.py'
edits = [("""                    subprocess.check_output(qdel + ' ' + str(jobId), shell=True)""",
          """                    subprocess.call(qdel + ' ' + str(jobId), shell=True)""")]
needs = 'The queue manager refuses to cancel a job (server busy, job in transition).'
what_it_breaks = 'deleteJobs reports success and forgets a job that is still live in the queue.'
demo = r'''
import os
from gridlib import *


def go(g):
    g.run('runbatch.py', 'grid')
    with open(g.bin + '/qdel', 'w') as f:
        f.write('#!/bin/sh\necho "qdel: server busy" >&2\nexit 1\n')
    r = g.run('deleteJobs.py', 'grid', '--confirm')
    assert r.returncode != 0, 'failed cancellation reported as success'
    r = g.run('runningJobs.py', 'grid')
    assert 'base_plik_TT' in r.stdout, 'live job was forgotten: ' + r.stdout


main(go)
'''
