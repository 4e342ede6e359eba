property = 'C06'
file = 'python/paramgrid/batchjob.py'
edits = [("""        return not done and R > minR""", """        return R > minR or not done and minR > 0""")]
needs = 'A run that has finished ("Done") and was stopped, submitted with --checkpoint_run without a value.'
what_it_breaks = 'Finished chains are resubmitted by --checkpoint_run.'
demo = r'''
from gridlib import *


def go(g):
    root = g.root([], ['plik', 'TT'])
    for k in (1, 2):
        g.write(root + '_%d.txt' % k, chain(10), age=5000)
        g.write(root + '_%d.chk' % k, 'x', age=5000)
    g.write(root + '.converge_stat', ' 0.0098\n Done\n', age=5000)
    r = g.run('runbatch.py', 'grid', '--checkpoint_run')
    assert r.returncode == 0, r.stderr
    assert not g.queue()['jobs'], 'a finished run was resubmitted'


main(go)
'''
