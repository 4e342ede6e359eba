"""C02: concurrent submit and cancel commands never lose a job record."""
from .jobs_common import *


def generate(rng, tier, i):
    groups = gen_grid(rng)
    items = [x.name for x in model_items('/g', groups)]
    ops = []
    for k in range(rng.choice([2, 2, 3, 3, 4])):
        kind = rng.choice(['submit', 'submit', 'submit', 'delete', 'list', 'again'])
        names = rng.sample(items, rng.randint(1, min(3, len(items))))
        if kind in ('submit', 'again'):
            args = ['grid', '--name'] + names
            r = rng.random()
            if r < 0.2:
                args += ['--runsPerJob', '2']
            elif r < 0.35:
                args += ['--combineOneJobName', 'comb%d' % k]
            elif r < 0.5:
                args += ['--minimize']
            if kind == 'again':
                args += ['--not_queued']
            ops.append(dict(id='s%d' % k, script='runbatch.py', args=args, kind='submit'))
        elif kind == 'list':
            ops.append(dict(id='l%d' % k, script='runningJobs.py', args=['grid'], kind='list'))
        else:
            ops.append(dict(id='d%d' % k, script='deleteJobs.py', args=['grid', '--name'] + names + ['--confirm'], kind='delete'))
    pre = [rng.sample(items, rng.randint(1, min(2, len(items)))) for _ in range(rng.choice([0, 1, 2, 2]))]
    return dict(flavour=rng.choice(['pbs', 'pbs', 'ogs', 'moab']), groups=groups, ops=ops, pre=pre,
                prestates=[rng.choice('QRRC') for _ in range(12)], dirseed=rng.randrange(1 << 20),
                delays=[rng.choice([0, 0, 0, 0.05, 0.3]) for _ in ops])


def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res) as s:
        w = s.world
        for k, names in enumerate(sc['pre']):
            p = s.run_script('p%d' % k, 'runbatch.py', ['grid', '--name'] + names)
            if p.status:
                res.violate('submit-fails', 'a lone submission failed: ' + p.stderr[-300:])
                return
        for j, st in zip(s.cluster.jobs, sc['prestates']):
            j.state = st
        index0 = s.job_index('grid')
        if isinstance(index0, str):
            res.violate('index-unreadable', index0)
            return
        pre_jobs = list(s.cluster.jobs)
        live0 = {j.id for j in pre_jobs if j.live()}
        ps = []
        for op, d in zip(sc['ops'], sc['delays']):
            p = w.script(op['id'], op['script'], op['args'], delay=d)
            p.tag = op
            p.fault_ok = False
            ps.append(p)
        w.run(lambda: all(p.finished for p in ps))
        if w.limit_hit or not all(p.finished for p in ps):
            res.violate('no-end', 'commands did not end: %s' % [p for p in ps if not p.finished])
            return
        got = s.job_index('grid')
        if isinstance(got, str):
            res.violate('index-unreadable', 'after concurrent %s the job index is %s' % ([o['id'] for o in sc['ops']], got))
            return
        cancelled = {s.cluster.find(t).id for t, o, _ in s.cluster.cancels if o == 'ok'}
        all_ok = all(p.status == 0 for p in ps)
        refused = any(o != 'ok' for _, o, _ in s.cluster.cancels)
        for p in ps:
            if p.status != 0 and not (p.tag['kind'] == 'delete' and refused):
                res.violate('command-fails', '%s %s failed while other commands ran: %s' % (
                    p.name, p.tag['args'], p.stderr[-400:]))
                return
        expected = {}
        paths = [x['path'] for x in s.cluster.submissions if x['proc'] in [p.name for p in ps]]
        shared = set()  # same run submitted twice at once: the two commands share one script file, so only ids are compared
        for x in s.cluster.submissions:
            j = x['job']
            if paths.count(x['path']) > 1:
                shared.add(j.id)
            expected[j.id] = tuple(base_name(i) for i in run_commands(j.script)[0])
        names = set()
        for op in sc['ops']:
            if op['kind'] == 'delete':
                names |= set(sum([[n, n + '_minimize'] for n in op['args'][2:-1]], []))
        for jid, runs in expected.items():
            if jid in cancelled:
                if all_ok and jid in got:
                    res.violate('resurrected', 'job %s %s was cancelled but is still recorded' % (jid, runs))
                    return
                continue
            dead_selected = jid in index0 and jid not in live0 and names & set(index0[jid][1])
            if dead_selected:
                if all_ok and jid in got:
                    res.violate('resurrected', 'finished job %s %s was removed but is recorded again' % (jid, runs))
                    return
                continue
            if jid not in got:
                res.violate('record-lost', 'job %s %s was submitted by %s, not cancelled, and is not recorded after %s ended' % (
                    jid, runs, [x['proc'] for x in s.cluster.submissions if x['job'].id == jid], [o['id'] for o in sc['ops']]))
                return
            if got[jid][1] != runs and jid not in shared:
                res.violate('record-wrong', 'job %s records runs %s, its script runs %s' % (jid, got[jid][1], runs))
                return
        extra = set(got) - set(expected)
        if extra:
            res.violate('record-wrong', 'records for jobs that were never accepted: %s' % sorted(extra))
            return
        # concurrent listings see every job that was there throughout
        for p in ps:
            if p.tag['kind'] == 'list':
                for j in pre_jobs:
                    if j.id in live0 and j.id not in cancelled and j.id in index0 and index0[j.id][0] not in p.stdout:
                        res.violate('listing-misses', 'runningJobs, run while others update the index, misses live job %s %s' % (
                            j.id, index0[j.id]))
                        return
        res.note('accepted', len(expected))
        res.note('cancelled', len(cancelled))
        res.state = repr(sorted(got.items()))
        res.nontrivial = len(ps) > 1


def shrink(sc):
    ops = sc['ops']
    for j in range(len(ops)):
        if len(ops) > 1:
            yield dict(sc, ops=ops[:j] + ops[j + 1:], delays=sc['delays'][:j] + sc['delays'][j + 1:])
    for j in range(len(sc['pre'])):
        yield dict(sc, pre=sc['pre'][:j] + sc['pre'][j + 1:])
