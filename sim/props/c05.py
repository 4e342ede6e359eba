"""C05: deleteJobs cancels exactly the selected live jobs and forgets nothing else."""
from .jobs_common import *

CONCURRENT = False


def generate(rng, tier, i):
    groups = gen_grid(rng, importance=rng.random() < 0.3)
    items = model_items('/g', groups)
    opts = cluster_opts(rng)
    ops = []
    f = opts['first_id']
    sums = [sum(opts['gaps'][:n]) for n in range(5)]
    num = lambda: f + rng.choice([0] + sums) + rng.randrange(-1, 5)
    for k in range(rng.choice([1, 2, 2, 3])):
        kind = rng.choice(['ids', 'range', 'min', 'filter', 'filter', 'filter', 'api_names', 'api_ids', 'api_roots', 'drop_names'])
        a = num()
        op = dict(kind=kind, mode=rng.choice([None, None, 'running', 'queued']), confirm=rng.random() < 0.8)
        if kind in ('ids', 'api_ids'):
            op['ids'] = sorted({num() for _ in range(rng.choice([1, 2, 3]))})
        elif kind == 'range':
            op['lo'], op['hi'] = a, a + rng.choice([0, 1, 2, 5])
        elif kind == 'min':
            op['lo'] = a
        elif kind == 'filter':
            op['filters'] = gen_filters(rng, items, p=0.9)
        else:
            op['names'] = [x.name + rng.choice(['', '', '_minimize']) for x in rng.sample(items, rng.choice([1, 1, 2]) if len(items) > 1 else 1)]
        ops.append(op)
    return dict(groups=groups, pre=gen_queue(rng, items, rng.choice([2, 3, 4])), foreign=foreign_jobs(rng), ops=ops,
                refuse=rng.choice([None] * 4 + [0, 1]), **opts)


def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res, max_steps=40000) as s:
        w = s.world
        if not build_queue(s, sc, res):
            return
        for k, op in enumerate(sc['ops']):
            index = s.job_index('grid')
            if isinstance(index, str):
                res.violate('index-unreadable', index)
                return
            num = {j.id: j.num for j in s.cluster.jobs}
            state = {j.id: j.state for j in s.cluster.jobs}
            kind = op['kind']
            if kind in ('ids', 'api_ids'):
                sel = [j for j in index if num[j] in op['ids']]
            elif kind in ('range', 'min'):
                sel = [j for j in index if num[j] >= op['lo'] and num[j] <= op.get('hi', 1 << 40)]
            elif kind == 'filter':
                names = {n for i in select(s.items, op['filters']) for n in (i.name, i.name + '_minimize')}
                sel = [j for j in index if names & set(index[j][1])]
            elif kind == 'api_roots':
                sel = [j for j in index if set(op['names']) & set(index[j][1])]
            else:
                sel = [j for j in index if index[j][0] in op['names']]
            live = [j for j in index if state[j] in 'QRH']
            mode = op['mode'] if kind != 'drop_names' else None
            cand = [j for j in sel if j in live and (mode is None or (state[j] == 'R') == (mode == 'running'))]
            args = ['grid'] + (['--' + mode] if mode else []) + (['--confirm'] if op['confirm'] else [])
            pname = 'd%d' % k
            if sc['refuse'] is not None:
                cnt = [0]

                def refuse(job):
                    cnt[0] += 1
                    return cnt[0] - 1 == sc['refuse']
                s.cluster.qdel_error = refuse
            kw = dict(confirm=op['confirm'], running=mode == 'running', queued=mode == 'queued')
            if kind == 'drop_names':
                # forgets records by job name, cancels nothing
                def go():
                    from paramgrid import jobqueue
                    jobqueue.deleteJobNames('grid', op['names'])
                p = w.spawn(pname, go)
            elif kind.startswith('api'):
                def go():
                    from paramgrid import jobqueue
                    if kind == 'api_ids':
                        jobqueue.deleteJobs('grid', [j.id for j in s.cluster.jobs if j.num in op['ids']], **kw)
                    elif kind == 'api_names':
                        jobqueue.deleteJobs('grid', jobNames=op['names'], **kw)
                    else:
                        jobqueue.deleteJobs('grid', rootNames=op['names'], **kw)
                p = w.spawn(pname, go)
            else:
                if kind == 'ids':
                    args += ['--delete_ids'] + [str(x) for x in op['ids']]
                elif kind == 'range':
                    args += ['--delete_id_range', str(op['lo']), str(op['hi'])]
                elif kind == 'min':
                    args += ['--delete_id_min', str(op['lo'])]
                else:
                    args += filter_args(op['filters'])
                p = w.script(pname, 'deleteJobs.py', args)
            p.fault_ok = True
            what = '%s %s' % (kind, args if not kind.startswith(('api', 'drop')) else dict(op))
            nf = sum(w.faults_fired.values())
            nc = len(s.cluster.cancels)
            w.run(lambda: p.finished)
            if w.limit_hit:
                res.violate('no-end', 'deleteJobs did not end')
                return
            fired = sum(w.faults_fired.values()) > nf
            after = s.job_index('grid')
            if isinstance(after, str):
                res.violate('index-unreadable', '%s left an index that is %s' % (what, after))
                return
            calls = s.cluster.cancels[nc:]
            done = [s.cluster.find(t).id for t, o, _ in calls if o == 'ok']
            bad = [t for t, o, _ in calls if o == 'unknown' or s.cluster.find(t).id not in cand]
            refused = any(o == 'refused' for _, o, _ in calls)
            if kind == 'drop_names':
                if calls or set(index) - set(after) - set(sel):
                    res.violate('drop-wrong', 'deleteJobNames %s removed %s' % (op['names'], set(index) - set(after)))
                    return
                continue
            if bad:
                res.violate('cancelled-wrong', '%s cancelled %s, selects %s' % (what, calls, [(j, index[j], state[j]) for j in cand]))
                return
            if not op['confirm']:
                if calls or after != index:
                    res.violate('unconfirmed', '%s without --confirm cancelled %s, index %s -> %s' % (what, done, sorted(index), sorted(after)))
                    return
                if not fired and p.status:
                    res.violate('command-fails', what + ' failed: ' + p.stderr[-300:])
                    return
                continue
            gone = set(index) - set(after)
            if any(after.get(j) != index.get(j) for j in after):
                res.violate('record-changed', '%s changed records' % what)
                return
            if gone - set(sel):
                res.violate('forgot-unselected', '%s removed the records of jobs it did not select: %s' % (what, [(j, index[j]) for j in gone - set(sel)]))
                return
            now_live = {j.id for j in s.cluster.visible()}
            if gone & now_live:
                res.violate('forgot-live', '%s (status %s) removed the records of live jobs %s' % (what, p.status, sorted(gone & now_live)))
                return
            if refused and p.status == 0:
                res.violate('refusal-hidden', '%s: cancelling was refused (%s) but the command ended normally' % (what, calls))
                return
            if p.status == 0 and not (fired and 'eio' not in w.faults_fired and 'cmdfail' not in w.faults_fired and 'enospc' not in w.faults_fired):
                missed = set(cand) - set(done)
                if missed:
                    res.violate('not-cancelled', '%s ended normally but did not cancel %s' % (what, [(j, index[j], state[j]) for j in missed]))
                    return
                if set(done) - gone:
                    res.violate('still-recorded', '%s cancelled %s but kept the records' % (what, sorted(set(done) - gone)))
                    return
            if not fired and not refused and p.status:
                res.violate('command-fails', what + ' failed: ' + p.stderr[-300:])
                return
            res.note('cancelled', len(done))
            res.note('forgotten', len(gone))
            if fired:
                res.note('faulted')
                s.cluster.qdel_error = None
        res.nontrivial = True
        res.state = repr(sorted(s.job_index('grid').items()))


def faults(rng, sc, base, tier):
    pts = [x for x in base.points if x[0].startswith('d')]
    plans = []
    q = [x for x in pts if x[2] in ('cmd', 'cmd-out')]
    for n, st, kind, rel in rng.sample(q, min(len(q), 4 if tier == 'quick' else 30)):
        plans.append({'%s:%d' % (n, st): dict(kind='cmdfail')})
    ix = [x for x in pts if 'jobIndex' in x[3] or x[2] in ('cmd', 'cmd-out')]
    for n, st, kind, rel in rng.sample(ix, min(len(ix), 6 if tier == 'quick' else 60)):
        if rng.random() < 0.5 or kind.startswith('cmd') or kind not in ('write', 'close-w', 'open-w', 'rename', 'read', 'open-r'):
            f = dict(kind='crash')
        else:
            f = dict(kind=rng.choice({'write': ['enospc', 'eio'], 'close-w': ['eio'], 'open-w': ['enospc'], 'rename': ['eio']}.get(kind, ['eio'])))
        plans.append({'%s:%d' % (n, st): f})
    return plans


def shrink(sc):
    for k in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            yield dict(sc, ops=sc['ops'][:k] + sc['ops'][k + 1:])
    for k in range(len(sc['pre'])):
        yield dict(sc, pre=sc['pre'][:k] + sc['pre'][k + 1:])
    for k in range(len(sc['foreign'])):
        yield dict(sc, foreign=sc['foreign'][:k] + sc['foreign'][k + 1:])
