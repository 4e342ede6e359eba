"""C01: the job index survives a crash or a failed disk write."""
from .jobs_common import *

CONCURRENT = False


def generate(rng, tier, i):
    groups = gen_grid(rng)
    items = model_items('/g', groups)
    ops = []
    nops = rng.choice([2, 3, 3, 4])
    for k in range(nops):
        kind = rng.choice(['submit', 'submit', 'submit', 'delete', 'mpi']) if k else 'submit'
        names = rng.sample([x.name for x in items], rng.randint(1, min(3, len(items))))
        if kind == 'submit':
            args = ['grid', '--name'] + names
            r = rng.random()
            if r < 0.25:
                args += ['--runsPerJob', '2']
            elif r < 0.4:
                args += ['--combineOneJobName', 'comb%d' % k]
            elif r < 0.55:
                args += ['--minimize']
            ops.append(dict(id='s%d' % k, script='runbatch.py', args=args, kind='submit'))
        elif kind == 'mpi':
            ops.append(dict(id='m%d' % k, script='runMPI.py', args=['grid/iniFiles/%s.ini' % n for n in names[:2]], kind='mpi'))
        else:
            ops.append(dict(id='d%d' % k, script='deleteJobs.py', args=['grid', '--name'] + names + ['--confirm'], kind='delete'))
    return dict(flavour=rng.choice(['pbs', 'pbs', 'ogs', 'moab']), groups=groups, ops=ops, victim=rng.randrange(nops),
                dirseed=rng.randrange(1 << 20), diskfull=rng.choice([None, None, None, 0, 40, 200, 700, 1500]))


def index_path(op):
    return './scripts/' if op['kind'] == 'mpi' else 'grid'


def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res) as s:
        w = s.world
        model = {'grid': {}, './scripts/': {}}
        for k, op in enumerate(sc['ops']):
            where = index_path(op)
            pre = dict(model[where])
            live = {j.id for j in s.cluster.visible()}
            victim = k == sc['victim']
            if victim and sc.get('diskfull') is not None and choices.faults.get('diskfull'):
                w.disk_limit = sc['diskfull']
            p = s.command(op, faults=victim)
            w.run(lambda: p.finished)
            w.disk_limit = None
            if w.limit_hit:
                res.violate('no-end', '%s did not end' % op['id'])
                return
            faulted = victim and bool(w.faults_fired)
            got = s.job_index(where)
            if isinstance(got, str):
                res.violate('index-unreadable', 'after %s (status %s) the job index is %s' % (op['id'], p.status, got))
                return
            acc = [(x['job'].id, x['job']) for x in s.subs_of(p.name)]
            if op['kind'] in ('submit', 'mpi'):
                full = dict(pre)
                for jid, job in acc:
                    inis, _ = run_commands(job.script)
                    full[jid] = tuple(base_name(x) for x in inis)
                gotn = {a: b[1] for a, b in got.items()}
                pren = dict(pre)
                lost = [a for a in pren if a not in gotn]
                if lost:
                    res.violate('record-lost', '%s (status %s, faults %s) lost the records of earlier jobs %s' % (
                        op['id'], p.status, w.faults_fired, lost))
                    return
                if any(pren[a] != gotn[a] for a in pren):
                    res.violate('record-changed', '%s changed records of earlier jobs: %s -> %s' % (op['id'], pren, gotn))
                    return
                extra = [a for a in gotn if a not in full or gotn[a] != full[a]]
                if extra:
                    res.violate('record-wrong', '%s recorded %s; accepted jobs were %s' % (
                        op['id'], {a: gotn[a] for a in extra}, {a: full[a] for a in full if a not in pren}))
                    return
                missing = [a for a, _ in acc if a not in gotn]
                if p.status == 0 and missing:
                    res.violate('silent-loss', '%s ended normally (faults %s) but accepted jobs %s are not recorded' % (
                        op['id'], w.faults_fired, missing))
                    return
                if missing and p.status != -9 and w.fault_paths and all(
                        x.startswith('work/scripts/') and 'jobIndex' not in x for x in w.fault_paths):
                    res.violate('unrelated-write', '%s: writing %s failed, and the accepted job %s is not recorded' % (op['id'], w.fault_paths, missing))
                    return
                if any(a != acc[-1][0] for a in missing):
                    res.violate('completed-lost', '%s went on after job %s, which is not recorded' % (op['id'], missing))
                    return
                if not faulted and p.status != 0:
                    res.violate('later-fails', '%s fails on what an earlier command left: %s' % (op['id'], p.stderr[-300:]))
                    return
                model[where] = {a: gotn[a] for a in gotn}
                res.note('submitted', len(acc))
            else:
                gotn = {a: b[1] for a, b in got.items()}
                sel = set(sum([[n, n + '_minimize'] for n in op['args'][2:-1]], []))
                selected = [a for a in pre if sel & set(pre[a])]
                bad = [a for a in pre if a not in gotn and a not in selected]
                if bad:
                    res.violate('record-lost', '%s (status %s, faults %s) lost the records of jobs it did not select: %s' % (
                        op['id'], p.status, w.faults_fired, bad))
                    return
                if any(a not in pre or gotn[a] != pre[a] for a in gotn):
                    res.violate('record-wrong', '%s made up records: %s' % (op['id'], gotn))
                    return
                forgot = [j.id for j in s.cluster.visible() if j.id in pre and j.id not in gotn]
                if forgot:
                    res.violate('live-forgotten', '%s (status %s) forgot live jobs %s' % (op['id'], p.status, forgot))
                    return
                if not faulted and p.status != 0:
                    res.violate('later-fails', '%s fails on what an earlier command left: %s' % (op['id'], p.stderr[-300:]))
                    return
                model[where] = gotn
                res.note('deleted', len(pre) - len(gotn))
            if victim and p.status == -9:
                res.note('killed')
            elif victim and faulted and p.status:
                res.note('failed-with-error')
        res.nontrivial = True
        res.state = repr(sorted(model['grid'].items()))


def faults(rng, sc, base, tier):
    v = sc['ops'][sc['victim']]['id']
    pts = [(n, st, kind, rel) for n, st, kind, rel in base.points if n == v]
    plans = []
    core = [x for x in pts if 'jobIndex' in x[3] or x[2] in ('cmd', 'cmd-out', 'close-w', 'write', 'rename', 'remove')]
    rest = [x for x in pts if x not in core]
    pick = core + rng.sample(rest, min(len(rest), 6))
    lim = 26 if tier == 'quick' else 400
    ix = [x for x in core if 'jobIndex' in x[3]]
    for n, st, kind, rel in (ix + rng.sample([x for x in pick if x not in ix], max(0, min(len(pick) - len(ix), lim - len(ix)))))[:max(lim, 40)]:
        plans.append({'%s:%d' % (n, st): dict(kind='crash')})
    wr = [x for x in pts if x[2] in ('write', 'close-w', 'rename', 'open-w', 'remove')]
    for n, st, kind, rel in rng.sample(wr, min(len(wr), 12 if tier == 'quick' else 200)):
        fk = {'write': ['enospc', 'torn', 'eio', 'short'], 'close-w': ['eio'], 'rename': ['eio'], 'remove': ['eio'],
              'open-w': ['enospc', 'eacces']}[kind]
        f = dict(kind=rng.choice(fk))
        if f['kind'] in ('torn', 'short'):
            f['frac'] = round(rng.random(), 2)
        plans.append({'%s:%d' % (n, st): f})
    rd = [x for x in pts if x[2] in ('read', 'open-r') and 'jobIndex' in x[3]]
    for n, st, kind, rel in rng.sample(rd, min(len(rd), 3)):
        plans.append({'%s:%d' % (n, st): dict(kind='eio')})
    if sc.get('diskfull') is not None:
        plans.append({'diskfull': dict(kind='diskfull')})
    return plans


def shrink(sc):
    ops = sc['ops']
    for j in range(len(ops)):
        if j != sc['victim'] and len(ops) > 1:
            yield dict(sc, ops=ops[:j] + ops[j + 1:], victim=sc['victim'] - (j < sc['victim']))
    for j, op in enumerate(ops):
        if op['kind'] == 'submit' and len(op['args']) > 3 and not any(a.startswith('--') for a in op['args'][3:]):
            yield dict(sc, ops=ops[:j] + [dict(op, args=op['args'][:-1])] + ops[j + 1:])
