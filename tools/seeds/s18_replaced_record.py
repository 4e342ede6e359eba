property = 'C02'
file = 'python/paramgrid/jobqueue.py'
edits = [("""        self.jobSettings[j.jobId] = j
        self.jobNames[j.jobName] = j.jobId
""", """        self.delId(self.jobNames.get(j.jobName))  # an earlier job of this name is replaced
        self.jobSettings[j.jobId] = j
        self.jobNames[j.jobName] = j.jobId
""")]
needs = 'A run submitted again while its first job is still queued (two people at the same time, or --not_queued left out).'
what_it_breaks = 'The record of the first job is lost: it can neither be listed nor cancelled, although it still runs.'
demo = r'''
from gridlib import *


def go(g):
    for _ in range(2):
        r = g.run('runbatch.py', 'grid')
    assert len(g.queue()['jobs']) == 2, (r.stdout + r.stderr)[-900:]
    ids = [j[0] for j in g.queue()['jobs']]
    g.run('deleteJobs.py', 'grid', '--confirm')
    q = g.queue()
    assert sorted(q['deleted']) == sorted(ids) or all(j[2] == 'C' for j in q['jobs']), 'jobs %s, cancelled %s' % (ids, q['deleted'])


main(go)
'''
