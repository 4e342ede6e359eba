property = 'C03'
file = 'python/paramgrid/jobqueue.py'
edits = [("""            if not res:
                print('No qsub output')
            else:
""", """            if res is None:
                print('No qsub output')
            else:
""")]
needs = 'The queue manager command ends without an error but prints nothing (submission silently dropped, e.g. by a site wrapper).'
what_it_breaks = 'A job the queue manager gave no id for is recorded in the job index under an empty id.'
demo = r'''
from gridlib import *


def go(g):
    with open(g.bin + '/qsub', 'w') as f:
        f.write('#!/bin/sh\nexit 0\n')
    r = g.run('runbatch.py', 'grid')
    r = g.py("from paramgrid import jobqueue; print(len(jobqueue.loadJobIndex('grid').jobSettings))")
    assert r.stdout.strip() == '0', 'a job without id was recorded: ' + r.stdout + r.stderr


main(go)
'''
