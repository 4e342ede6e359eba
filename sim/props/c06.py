"""C06: run selection follows the chains' actual state."""
from .jobs_common import *

AGES = [2, 30, 100, 280, 294, 306, 320, 600, 3600, 86400, 40 * 86400]


def gen_state(rng, item, parent=None):
    n = rng.choice([0, 1, 2, 4, 4, 4])
    base = rng.choice(AGES)
    ages = [base if rng.random() < 0.6 else rng.choice(AGES) for _ in range(n)]
    if parent and parent['ages'] and n and rng.random() < 0.5:
        a = min(parent['ages'])
        ages = [max(1, a - 5 - k) for k in range(n)] if a > 20 else ages
        if rng.random() < 0.5:
            ages[rng.randrange(n)] = max(parent['ages']) + 500
    holes = {}
    if n and rng.random() < 0.2:  # chains that have no rows yet, or whose files are missing
        k = rng.choice([n - 1, n - 1, rng.randrange(n)])
        holes[str(k)] = rng.choice(['empty', 'missing'])
        for j in range(k, n):
            ages[j] = max(ages) + 50
    # not too close to the 300 s after which a chain counts as stopped
    ages = [a - 30 if 294 < a < 306 else a for a in ages]
    st = dict(ages=ages, holes=holes, chk=rng.random() < 0.7, old=[rng.choice(AGES) for _ in range(4)],
              conv=rng.choice([None, [0.005, True], [0.005, False], [0.03, False], [0.4, False], [0.03, True], [12.0, False]]),
              dist=rng.choice([None, None, 0.004, 0.05, 0.3, 12.5, 'bad']), mini=rng.choice([None, None, 'ok', 'failed', 'empty']))
    return st


FILTER_CLASS = '''
class cutFilter(batchjob.importanceFilter):
    def filter(self, batch, jobItem):
        with open(jobItem.chainRoot + '.filtered', 'a') as f:
            f.write(jobItem.parent.name + ' ')

importance_filters = [cutFilter(%r)]
'''


# importance sampled runs without a best fit of their own
NO_MINIMUM = '''
for x in groups:
    x.importanceRuns = [batchjob.importanceSetting(r[0], r[1], minimize=False) if isinstance(r, list) and r[0] in %r else r for r in x.importanceRuns]
'''


def with_filters(grid, groups, names):
    out = []
    for it in model_items(grid, groups):
        it.filter = False
        out.append(it)
    res = []
    for it in out:
        if it.parent:
            continue
        imps = [x for x in out if x.parent is it]
        subs = []
        for x in [it] + imps:
            f = Item(grid, it.params, x.data + names, names, x, group=it.group)
            f.filter = True
            subs.append(f)
        res += [it] + imps + subs
    return res


def generate(rng, tier, i):
    groups = gen_grid(rng, importance=rng.random() < 0.6)
    items = model_items('/g', groups)
    filt = rng.choice([['zcut'], ['zcut', 'hcut']]) if rng.random() < 0.15 else None
    if filt:
        items = with_filters('/g', groups, filt)
    states = {}
    for it in items:
        states[it.name] = gen_state(rng, it, states.get(it.parent.name) if it.parent else None)
    opts = {}
    kind = rng.choice(['plain', 'plain', 'checkpoint', 'checkpoint', 'importance', 'importance', 'minimize', 'impmin'])
    if rng.random() < (0.2 if kind == 'checkpoint' else 0.4):
        opts['notexist'] = True
    if rng.random() < 0.3:
        opts['notall'] = rng.choice([1, 2, 4, 5])
    if rng.random() < 0.3:
        opts['converge'] = rng.choice([0.01, 0.1, 0.05])
    if rng.random() < 0.15:
        opts['chain_exists'] = True
    if kind == 'checkpoint':
        opts['checkpoint_run'] = rng.choice([None, None, 0.01, 0.1, 0.03])
    if kind == 'importance':
        opts['importance'] = True
    if kind == 'checkpoint' and rng.random() < 0.25:
        opts['importance'] = True
    if kind == 'importance':
        r = rng.random()
        if r < 0.35:
            opts['importance_ready'] = True
        if 0.2 < r < 0.6:
            opts['importance_changed'] = True
        if rng.random() < 0.3:
            opts['parent_converge'] = rng.choice([0.01, 0.1])
        if rng.random() < 0.3:
            opts['parent_stopped'] = True
    if kind == 'minimize':
        opts['minimize'] = True
    if kind == 'impmin':
        opts['importance_minimize'] = True
    if kind in ('minimize', 'impmin') and rng.random() < 0.5 or rng.random() < 0.05:
        opts['minimize_failed'] = True
    if filt and kind in ('plain', 'importance') and rng.random() < 0.8:
        opts['filters'] = True
        if kind == 'plain' and rng.random() < 0.5:
            opts['importance_ready'] = True
    imp_filter = {}
    if (kind in ('importance', 'impmin') or opts.get('filters') or opts.get('importance')) and rng.random() < 0.35:
        for _ in range(20):
            imp_filter = {k: v for k, v in gen_filters(rng, items, p=0).items() if k in ('importance', 'importancetag') and v}
            if imp_filter:
                break
    live = rng.random() < 0.5
    imps = [n for g in groups for n in g.get('importance', [])]
    nomin = [n for k, n in enumerate(imps) if n not in imps[:k] and rng.random() < 0.3]
    return dict(groups=groups, states=states, opts=opts, imp_filter=imp_filter, filters=gen_filters(rng, items, importance=False, p=0.2), flavour='pbs', cpu=8,
                filt=filt, nomin=nomin, settings_extra=(FILTER_CLASS % filt if filt else '') + (NO_MINIMUM % (nomin,) if nomin else ''), live=live, writes=rng.choice([2, 4]), implicit=rng.random() < 0.4, dirseed=rng.randrange(1 << 20))


def put_files(s, it, st):
    now = s.world.now
    for k, a in enumerate(st['ages']):
        hole = st['holes'].get(str(k))
        if hole != 'missing':
            s.write('%s_%d.txt' % (it.root, k + 1), '' if hole else '  1.0  2.0  3.0\n', t=now - a)
    if st['chk']:
        s.write(it.root + '_1.chk', 'chk', t=now - st['old'][0])
    if st['conv']:
        s.write(it.root + '.converge_stat', '%s\n%s' % (st['conv'][0], 'Done\n' if st['conv'][1] else ''), t=now - st['old'][1])
    d = os.path.dirname(it.root) + '/dist/' + it.name
    if st['dist'] == 'bad':
        s.write(d + '.converge', 'nothing here\n', t=now - st['old'][2])
    elif st['dist']:
        s.write(d + '.margestats', 'Marginalized limits\n', t=now - st['old'][2])
        s.write(d + '.converge', '\n var(mean)/mean(var) for eigenvalues\n  1%13.5f\n  2%13.5f\n\n' % (min(st['dist'] / 2, 9.5), st['dist']), t=now - st['old'][2])
    if st['mini'] == 'empty':
        s.write(it.root + '.minimum', '')
    elif st['mini']:
        s.write(it.root + '.minimum', ' -log(Like) = %s\n chi-sq    = 12\n\n    1  2.2E-02   omegabh2   \\Omega_b\n\n' % ('1.0E+30' if st['mini'] == 'failed' else '6.0'), t=now - st['old'][3])


class Model:
    def __init__(self, st):
        self.st = st
        self.full = min([len(st['ages'])] + [int(k) for k in st['holes']])  # leading chains with rows
        self.ages = st['ages'][:self.full]

    exists = property(lambda self: self.full > 0)
    stopped = property(lambda self: self.exists and min(self.ages) > 300)

    def better(self, r, missing):
        d = self.st['dist']
        return missing if d in (None, 'bad') else d <= r

    def finished(self, it, sc):
        """The run of it is complete and (importance runs) up to date and not running."""
        if not it.parent:
            return self.done
        p = Model(sc['states'][it.parent.name])
        return p.done and self.stopped and max(self.ages) <= min(p.ages)

    @property
    def done(self):
        return bool(self.st['conv'] and self.st['conv'][1])


def wanted(it, sc):
    """Whether the run qualifies under the given options (already selected by the filters)."""
    o = sc['opts']
    m = Model(sc['states'][it.name])
    par = Model(sc['states'][it.parent.name]) if it.parent else None
    mini = bool(o.get('minimize') or o.get('importance_minimize'))
    if mini and it.parent and (it.imp in sc.get('nomin', []) or getattr(it, 'filter', False)):
        return False
    if o.get('notexist'):
        if (m.st['mini'] in ('ok', 'failed')) if mini else m.exists:
            return False
    if o.get('minimize_failed') and m.st['mini'] == 'ok':
        return False
    if not mini and o.get('notall') and m.full >= o['notall']:
        return False
    if it.parent and o.get('parent_converge') and not par.better(o['parent_converge'], False):
        return False
    if o.get('converge') and m.better(o['converge'], True):
        return False
    if 'checkpoint_run' in o:
        if not m.st['conv'] or m.done or not m.st['conv'][0] > (o['checkpoint_run'] or 0) or not m.st['chk'] or not m.stopped:
            return False
    if it.parent and not mini:
        if o.get('importance_ready'):
            if not par.finished(it.parent, sc):
                return False
        elif not par.exists:
            return False
        if o.get('importance_changed') and par.exists and not (not m.exists or max(m.ages) > min(par.ages)):
            return False
        if o.get('parent_stopped') and not par.stopped:
            return False
    if o.get('chain_exists') and not m.exists:
        return False
    return True


def ancestors(it):
    out = []
    while it.parent:
        it = it.parent
        out.append(it)
    return out


def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res) as s:
        w = s.world
        o = sc['opts']
        if sc.get('filt'):
            s.items = with_filters(s.grid, sc['groups'], sc['filt'])
            s.main = [i for i in s.items if not i.parent]
        sc = dict(sc, states=dict(sc['states']))
        for it in s.items:  # comparing with a parent needs parent chains
            if it.parent and (o.get('importance_changed') or sc.get('filt')) and not Model(sc['states'][it.parent.name]).exists:
                sc['states'][it.parent.name] = dict(sc['states'][it.parent.name], ages=[400], holes={})
        for it in s.items:
            put_files(s, it, sc['states'][it.name])
        args = ['grid'] + filter_args(sc['filters'])
        f = dict(sc['filters'])
        part = sc.get('imp_filter') or {}
        for k, v in part.items():
            args += ['--' + k] + v
        for k, v in o.items():
            if k == 'importance':
                if 'importance' not in part and not (sc['implicit'] and (o.get('importance_ready') or o.get('importance_changed'))):
                    args.append('--importance')
            elif v is True or v is None:
                args.append('--' + k)
            else:
                args += ['--' + k, str(v)]
        if o.get('minimize'):
            f['noimportance'] = True
        elif o.get('importance') or o.get('importance_minimize') or o.get('filters') or o.get('importance_ready'):
            f['importance'] = []
        else:
            f['noimportance'] = True
        if 'importance' in part:
            # asked for by name: importance runs only
            f['importance'] = part['importance']
            if not o.get('minimize'):
                f.pop('noimportance', None)
        if 'importancetag' in part:
            f['importancetag'] = part['importancetag']
        variant = '_minimize' if o.get('minimize') or o.get('importance_minimize') else ''
        sel = [i for i in select(s.items, f) if wanted(i, sc)]
        filtered = [i.name for i in sel if getattr(i, 'filter', False) and o.get('filters') and Model(sc['states'][i.parent.name]).exists]
        sel = [] if o.get('filters') else [i for i in sel if not getattr(i, 'filter', False)]
        # samplers at work while the command runs: recent chains get rows, the statistics file is rewritten
        busy = []
        if sc['live']:
            for it in s.main:
                m = Model(sc['states'][it.name])
                if m.exists and min(m.ages) < 200 and not m.done:
                    busy.append(it)
            busy = busy[:2]

        def sampler(it):
            for k in range(sc['writes']):
                for c in range(Model(sc['states'][it.name]).full):
                    with open('%s_%d.txt' % (it.root, c + 1), 'a') as fh:
                        fh.write('  1.0  2.%d  3.0\n' % k)
                with open(it.root + '.converge_stat', 'w') as fh:
                    fh.write('%s\n' % (0.5 / (k + 1)))
                import time
                time.sleep(0.2)

        ps = []
        for k, it in enumerate(busy):
            q = w.spawn('sam%d' % k, sampler, it)
            q.fault_ok = False
            ps.append(q)
        p = w.script('cmd', 'runbatch.py', args)
        p.fault_ok = False
        w.run(lambda: p.finished and all(q.finished for q in ps))
        if w.limit_hit:
            res.violate('no-end', 'runbatch did not end')
            return
        if p.status:
            res.violate('command-fails', 'runbatch %s failed: %s' % (args, p.stderr[-500:]))
            return
        got = []
        for x in s.cluster.submissions:
            got += run_commands(x['script'])[0]
        want = [i.ini(variant) for i in sel]
        below = [i for i in s.items if any(j in busy for j in ancestors(i))]
        loose = {i.ini(variant) for i in busy + below}
        if 'checkpoint_run' in o:
            hot = [g for g in got if g in {i.ini(variant) for i in busy}]
            if hot:
                res.violate('running-resubmitted', 'runbatch %s submitted %s, whose chains are being written' % (args, hot))
                return
            loose = {i.ini(variant) for i in below}
        a, b = [x for x in got if x not in loose], [x for x in want if x not in loose]
        if a != b:
            more = [base_name(x) for x in a if x not in b]
            less = [base_name(x) for x in b if x not in a]
            show = {n.replace('_minimize', ''): sc['states'].get(n.replace('_minimize', '')) for n in more + less}
            for n in list(show):
                if '_post_' in n:
                    show[n.split('_post_')[0]] = sc['states'].get(n.split('_post_')[0])
            res.violate('selection-wrong', 'runbatch %s: submitted but does not qualify: %s; qualifies but not submitted: %s; states %s' % (
                args, more, less, show))
            return
        marks = {i.name: R.open(i.root + '.filtered').read().split() for i in s.items if os.path.exists(i.root + '.filtered')}
        hot = {i.name for i in below}
        a = {k: v for k, v in marks.items() if k not in hot}
        b = {i.name: [i.parent.name] for i in s.items if i.name in filtered and i.name not in hot}
        if a != b:
            res.violate('filters-wrong', 'runbatch %s applied the filters to %s; runs that qualify are %s; states %s' % (
                args, a, sorted(b), {n: sc['states'][n] for n in set(a) ^ set(b)}))
            return
        res.note('submitted', len(got))
        res.note('filtered', len(marks))
        res.note('not-qualified', len(s.items) - len(got))
        if busy:
            res.note('with-samplers-writing')
        res.nontrivial = True
        res.state = repr(got)


def shrink(sc):
    for k in list(sc['opts']):
        if k != 'importance':
            yield dict(sc, opts={a: b for a, b in sc['opts'].items() if a != k})
    if sc.get('imp_filter'):
        yield dict(sc, imp_filter={})
    if sc['filters']:
        yield dict(sc, filters={})
    if sc['live']:
        yield dict(sc, live=False)
    g = sc['groups'][0]
    for k in ('params', 'datasets', 'importance'):
        for j in range(len(g.get(k, []))):
            if len(g[k]) > 1:
                g2 = dict(g)
                g2[k] = g[k][:j] + g[k][j + 1:]
                yield dict(sc, groups=[g2])
