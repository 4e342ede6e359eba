"""C04: job listings match the queue manager exactly."""
import re

from .jobs_common import *

CONCURRENT = False


def generate(rng, tier, i):
    groups = gen_grid(rng, importance=rng.random() < 0.4)
    items = model_items('/g', groups)
    qs = []
    for _ in range(2):
        o = gen_filters(rng, items, p=0.35)
        qs.append(dict(filters=o, mode=rng.choice([None, None, 'running', 'queued'])))
    return dict(groups=groups, pre=gen_queue(rng, items), foreign=foreign_jobs(rng), queries=qs, other=rng.random() < 0.4, **cluster_opts(rng))


def expected(s, index, mode):
    out = []
    for j in s.cluster.visible():
        if j.user != 'simuser' or j.id not in index:
            continue
        if mode == 'running' and j.state != 'R' or mode == 'queued' and j.state == 'R':
            continue
        out.append(j.id)
    return out


def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res) as s:
        w = s.world
        if not build_queue(s, sc, res):
            return
        if sc['other']:
            # another grid with the same run names: its jobs are not this grid's
            s.make_grid(s.work + '/grid2', settings_text(sc['groups']), name='gridset2', pname='mk2')
            p = s.run_script('o1', 'runbatch.py', ['grid2', '--name'] + [i.name for i in s.main][:2])
            if p.status:
                res.violate('submit-fails', 'a plain submission failed: ' + p.stderr[-400:])
                return
        index = s.job_index('grid')
        index2 = s.job_index('grid2') if sc['other'] else {}
        if isinstance(index, str) or isinstance(index2, str):
            res.violate('index-unreadable', str(index))
            return
        if set(index) & set(index2):
            res.violate('grids-mix', 'a job of one grid is recorded in another: %s' % (set(index) & set(index2)))
            return
        for k, q in enumerate(sc['queries']):
            want = expected(s, index, q['mode'])
            sel = {n for i in select(s.items, q['filters']) for n in (i.name, i.name + '_minimize')}
            shown = [j for j in want if sel & set(index[j][1])]
            args = ['grid'] + filter_args(q['filters']) + (['--' + q['mode']] if q['mode'] else [])
            p = w.script('q%d' % k, 'runningJobs.py', args)
            p.fault_ok = True
            w.run(lambda: p.finished)
            if w.limit_hit:
                res.violate('no-end', 'runningJobs did not end')
                return
            if any(f in w.faults_fired for f in ('cmdfail', 'eio')):
                res.note('query-failed')
                if p.status == 0:
                    res.violate('failed-query-hidden', 'the queue query failed (%s) but runningJobs ended normally, listing:\n%s' % (
                        w.faults_fired, p.stdout[-300:]))
                return
            if p.status:
                res.violate('command-fails', 'runningJobs %s failed: %s' % (args, p.stderr[-400:]))
                return
            lines = [x for x in p.stdout.split('\n') if 'not in this batch' not in x]
            got = []
            for x in lines:
                toks = re.split(r'[\s|]+', x.strip())
                if not toks[0] or '|' not in x:
                    continue
                # (PBS cuts long ids short)
                m = [j.id for j in s.cluster.jobs if toks[0] in (j.id, str(j.num)) or sc['flavour'] == 'pbs' and len(toks[0]) == 15 and j.id.startswith(toks[0])]
                if m:
                    got.append((m[0], toks[-1]))
            if sorted(x[0] for x in got) != sorted(shown):
                res.violate('listing-wrong', 'runningJobs %s lists %s; jobs of this grid in the queue are %s\n%s' % (
                    args, sorted(got), [(j, index[j], s.cluster.find(j).state) for j in shown], p.stdout[-500:]))
                return
            for jid, name in got:
                if name != index[jid][0]:
                    res.violate('listing-wrong', 'job %s listed as %s, is %s' % (jid, name, index[jid][0]))
                    return
            runs = [re.split(r'\s+', x.strip())[-1] for x in lines if '>>' in x]
            wruns = [n for j in shown if len(index[j][1]) > 1 for n in index[j][1]]
            if sorted(runs) != sorted(wruns):
                res.violate('listing-wrong', 'runs listed under combined jobs: %s, expected %s' % (sorted(runs), sorted(wruns)))
                return
            res.note('listed', len(shown))
            res.note('in-queue', len(s.cluster.visible()))

        # the query behind --not_queued and deleteJobs
        def api():
            from paramgrid import jobqueue
            out = {}
            for mode, kw in (('running', dict(running=True, queued=False)), ('queued', dict(running=False, queued=True)), (None, dict(running=True, queued=True))):
                out[mode] = sorted(jobqueue.queue_job_names('grid', **kw)), [list(x) for x in jobqueue.queue_job_details('grid', **kw)[:3]]
            return out

        r, p = s.call(api)
        if p is not None:
            res.violate('query-fails', p.stderr[-300:])
            return
        for mode, (names, det) in r.items():
            want = expected(s, index, mode)
            if sorted(det[0]) != sorted(want) or names != sorted(n for j in want for n in index[j][1]) or \
                    any((a, tuple(c)) != index[j] for j, a, c in zip(*det)):
                res.violate('query-wrong', 'queue query (%s) gives %s %s, the queue has %s' % (mode or 'all', det, names, [(j, index[j]) for j in want]))
                return
        res.nontrivial = bool(s.cluster.visible())
        res.state = repr(sorted(index.items()))


def faults(rng, sc, base, tier):
    pts = [x for x in base.points if x[0].startswith('q') and (x[2] in ('cmd', 'cmd-out') or x[2] in ('open-r', 'read') and 'jobIndex' in x[3])]
    return [{'%s:%d' % (n, st): dict(kind='cmdfail' if k.startswith('cmd') else 'eio')} for n, st, k, rel in rng.sample(pts, min(len(pts), 3))]


def shrink(sc):
    for k in range(len(sc['pre'])):
        yield dict(sc, pre=sc['pre'][:k] + sc['pre'][k + 1:])
    for k in range(len(sc['foreign'])):
        yield dict(sc, foreign=sc['foreign'][:k] + sc['foreign'][k + 1:])
    for k in range(len(sc['queries'])):
        yield dict(sc, queries=sc['queries'][:k] + sc['queries'][k + 1:])
    if sc['other']:
        yield dict(sc, other=False)
