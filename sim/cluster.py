"""Simulated queue manager (PBS, Open Grid Scheduler, MOAB) and the jobs it runs."""
import os
import re

from .core import R


class Job:
    def __init__(self, num, fullid, name, script, user, t, cwd=''):
        self.num, self.id, self.name, self.script, self.user, self.t, self.cwd = num, fullid, name, script, user, t, cwd
        self.state = 'Q'  # Q queued, R running, H held, C complete(gone), D deleted(gone)
        self.foreign = False

    def live(self):
        return self.state in 'QRH'

    def __repr__(self):
        return '<Job %s %s %s>' % (self.id, self.name, self.state)


class Cluster:
    """flavour: pbs | ogs | moab.  Listing columns follow the real tools."""

    def __init__(self, world, flavour='pbs', first=1000, server='head.cluster.local', moab_prefix='Moab', other_users=()):
        self.world, self.flavour, self.server = world, flavour, server
        self.next = first
        self.moab_prefix = moab_prefix
        self.short_ids = False  # showq lists the number only
        self.cancel_with = None  # only command that can cancel here
        self.jobs = []
        self.submissions = []  # every qsub call: dict
        self.cancels = []  # every cancel call: (id text, outcome)
        self.queries = 0
        self.deny = None  # callable(job) -> bool: refuse submission
        self.qdel_error = None  # callable(job) -> bool
        self.install()

    # -- job ids
    def _id(self, n):
        if self.flavour == 'pbs':
            return '%d.%s' % (n, self.server)
        if self.flavour == 'moab':
            return '%s.%d' % (self.moab_prefix, n) if self.moab_prefix else str(n)
        return str(n)

    def install(self):
        w = self.world
        bindir = w.root + '/bin'
        os.makedirs(bindir, exist_ok=True)
        names = {'pbs': ['qsub', 'qstat', 'qdel'], 'ogs': ['qsub', 'qstat', 'qdel'],
                 'moab': ['msub', 'showq', 'canceljob', 'qsub', 'qstat', 'qdel']}[self.flavour] + ['sitedel']
        for n in names + ['mpirun', 'python']:
            with open(bindir + '/' + n, 'w') as f:
                f.write('#!/bin/sh\n')
            os.chmod(bindir + '/' + n, 0o755)
        for n in names:
            w.commands[n] = {'qsub': self.qsub, 'msub': self.qsub, 'qstat': self.qstat, 'showq': self.showq,
                             'qdel': self.qdel, 'canceljob': self.qdel, 'sitedel': self.qdel}[n]

    # -- commands
    def qsub(self, w, p, words):
        script = words[-1]
        path = script if script.startswith('/') else p.cwd + '/' + script
        try:
            with R.open(path) as f:
                text = f.read()
        except OSError:
            return 1, ''
        m = re.search(r'^#(?:PBS|\$) -N +(\S+)', text, re.M)
        name = (m.group(1) if m else os.path.basename(script))
        job = Job(self.next, self._id(self.next), name, text, os.environ['USER'], w.now, p.cwd)
        self.next += 1
        rec = dict(proc=p.name, words=words, script=text, path=path, job=job, t=w.now)
        self.submissions.append(rec)
        if self.deny is not None and self.deny(job):
            rec['refused'] = True
            return 188, ''
        self.jobs.append(job)
        if self.flavour == 'ogs':
            return 0, 'Your job %d ("%s") has been submitted\n' % (job.num, job.name)
        if self.flavour == 'moab':
            return 0, '\n%s\n' % job.id
        return 0, job.id + '\n'

    def visible(self):
        return [j for j in self.jobs if j.live()]

    def qstat(self, w, p, words):
        self.queries += 1
        if '-help' in words:
            if self.flavour == 'ogs':
                return 0, 'OGS/GE 2011.11\nusage: qstat [options]\n'
            return (0, 'usage: qstat [-f] [-J] [-p] [-t] [-x]\n')
        user = words[words.index('-u') + 1] if '-u' in words else None
        jobs = [j for j in self.visible() if user in (None, '*', j.user)]
        if not jobs:
            return 0, ''
        if self.flavour == 'ogs':
            lines = ['job-ID  prior   name       user         state submit/start at     queue                          slots ja-task-ID ',
                     '-' * 113]
            for j in jobs:
                st = {'R': 'r', 'Q': 'qw', 'H': 'hqw'}[j.state]
                lines.append('%7d 0.55500 %-10s %-12s %-5s 02/03/2016 11:22:33 %-30s %5d        ' % (
                    j.num, j.name[:10], j.user[:12], st, 'all.q@node1' if j.state == 'R' else '', 8))
            return 0, '\n'.join(lines) + '\n'
        short = self.server.split('.')[0]
        lines = ['', short + ': ',
                 '                                                            Req\'d  Req\'d   Elap',
                 'Job ID          Username Queue    Jobname    SessID NDS TSK Memory Time  S Time',
                 '--------------- -------- -------- ---------- ------ --- --- ------ ----- - -----']
        for j in jobs:
            st = {'R': 'R', 'Q': 'Q', 'H': 'H'}[j.state]
            lines.append('%-15s %-8s %-8s %-10s %6s %3d %3d %6s %5s %s %5s' % (
                self._id(j.num)[:15], j.user[:8], 'workq', j.name[:10],
                '1234' if j.state == 'R' else '--', 1, 8, '--', '24:00', st, '00:10' if j.state == 'R' else '--'))
        return 0, '\n'.join(lines) + '\n'

    def showq(self, w, p, words):
        self.queries += 1
        user = words[words.index('-U') + 1] if '-U' in words else None
        jobs = [j for j in self.visible() if user in (None, j.user)]
        run = [j for j in jobs if j.state == 'R']
        idle = [j for j in jobs if j.state == 'Q']
        blocked = [j for j in jobs if j.state == 'H']
        L = ['', 'active jobs------------------------', 'JOBID              USERNAME      STATE PROCS   REMAINING            STARTTIME', '']
        sid = (lambda j: str(j.num)) if self.short_ids else (lambda j: j.id)
        for j in run:
            L.append('%-18s %-8s %10s %5d %11s  %s' % (sid(j), j.user, 'Running', 16, '23:10:00', 'Wed Feb  3 11:22:33'))
        L += ['', '%d active job%s      16 of 64 processors in use by local jobs' % (len(run), 's' if len(run) != 1 else ' '), '',
              'eligible jobs----------------------', 'JOBID              USERNAME      STATE PROCS     WCLIMIT            QUEUETIME', '']
        for j in idle:
            L.append('%-18s %-8s %10s %5d %11s  %s' % (sid(j), j.user, 'Idle', 16, '1:00:00:00', 'Wed Feb  3 11:22:33'))
        L += ['', '%d eligible jobs' % len(idle), '', 'blocked jobs-----------------------',
              'JOBID              USERNAME      STATE PROCS     WCLIMIT            QUEUETIME', '']
        for j in blocked:
            L.append('%-18s %-8s %10s %5d %11s  %s' % (sid(j), j.user, 'BatchHold', 16, '1:00:00:00', 'Wed Feb  3 11:22:33'))
        L += ['', '%d blocked jobs' % len(blocked), '', 'Total jobs:  %d' % len(jobs), '']
        return 0, '\n'.join(L) + '\n'

    def find(self, text):
        for j in self.jobs:
            if j.id == text or str(j.num) == text or (self.flavour == 'pbs' and text.split('.')[0] == str(j.num)):
                return j
        return None

    def qdel(self, w, p, words):
        rc = 0
        for text in words[1:]:
            if text.startswith('-'):
                continue
            j = self.find(text)
            if j is not None and os.path.basename(words[0]) != (self.cancel_with or os.path.basename(words[0])):
                j = None  # does not know this scheduler's jobs
            if j is None or not j.live() or j.user != os.environ['USER']:
                self.cancels.append((text, 'unknown', p.name))
                rc = 153
            elif self.qdel_error is not None and self.qdel_error(j):
                self.cancels.append((text, 'refused', p.name))
                rc = 1
            else:
                j.state = 'D'
                self.cancels.append((text, 'ok', p.name))
        return rc, ''

    # -- harness side
    def add_foreign(self, name, user=None, state='Q'):
        j = Job(self.next, self._id(self.next), name, '', user or os.environ['USER'], self.world.now)
        j.state = state
        j.foreign = True
        self.next += 1
        self.jobs.append(j)
        return j
