"""C08: cached sample loading is indistinguishable from loading the files."""
import os

from ..core import R
from ..site import Site
from .samples_common import *

P_SWITCH = [0.02, 0.1, 0.3]
ROOTS = ['chains/ch', 'chains/ch_b', 'other/ch']

SETTINGS = [None, None, {}, {'ignore_rows': 0}, {'ignore_rows': 0.3}, {'ignore_rows': 5}, {'contours': '0.5 0.9'}, {'contours': '0.68 0.95 0.99'}, {'limits[aa]': '0 N'},
            {'limits[bb]': 'N 1.5'}, {'marker[aa]': '0.5'}, {'num_bins': 50, 'smooth_scale_1D': 0.3}, {'max_frac_twotail1': 0.4, 'max_frac_twotail2': 0.5},
            {'credible_interval_threshold': 0.3}, {'min_weight_ratio': 0.2}, {'all_limits': '-1 2'}, {'boundary_correction_order': 0}, {'force_twotail': True},
            {'converge_test_limit': 0.9, 'corr_length_thin': 2}, {'range_confidence': 0.01}]
INIS = ['ignore_rows = 0.5\n', 'num_bins = 30\ncontours = 0.3 0.6\n', 'limits[aa] = 0 1\nmarker[bb] = 1\n', 'ignore_rows = 2\nfine_bins = 256\n', 'smooth_scale_1D = 0.4\n']


def gen_load(rng, own='run'):
    kw = {}
    s = rng.choice(SETTINGS)
    if s is not None:
        kw['settings'] = s
    if rng.random() < 0.25:
        kw['ini'] = rng.randrange(len(INIS))
        if rng.random() < 0.3:
            kw['ini_object'] = True
    if rng.random() < 0.1:
        kw['no_cache'] = True
    if rng.random() < 0.2:
        kw['item'] = rng.choice([own, own, 'importance'])
    if rng.random() < 0.1:
        kw['relative'] = True
    return kw


def gen_env(rng):
    k = rng.choice(['append', 'append', 'rewrite', 'rewrite', 'restore', 'restore', 'add', 'add_old', 'remove', 'remove', 'ranges', 'ranges', 'properties', 'properties', 'names',
                    'rename', 'clock', 'pause', 'cachecut', 'cachejunk', 'cachegone', 'swap', 'samestamp'])
    return [k, rng.randrange(1 << 30)]


def focused(rng):
    """One thing changes between two loads."""
    nr = rng.choice([1, 1, 2])
    files = {r: dict(n=rng.choice([1, 2]), rows=rng.choice([8, 20, 60]), ranges=rng.random() < 0.6, props=rng.choice([None, None, 'burn_removed = T\n', 'ignore_rows = 3\n', 'label = lab\n']),
                     sub=False) for r in ROOTS[:nr]}
    own = rng.choice(['run', 'run', 'removed'])  # (whether burn-in was removed is a property of the files)
    kw = gen_load(rng, own)
    kw.pop('no_cache', None)
    ops = [['load', 0, kw]]
    k = rng.random()
    if k < 0.2:
        ops = [['during', 0, kw, [rng.choice(['properties', 'ranges', 'names', 'append', 'rewrite', 'restore']), rng.randrange(1 << 30)]]]
        kw2 = kw
    elif k < 0.7:
        ops.append(['env', 0] + gen_env(rng))
        ops[-1][2] = rng.choice(['properties', 'properties', 'properties', 'ranges', 'ranges', 'names', 'samestamp', 'samestamp', ops[-1][2]])
        kw2 = kw
    elif k < 0.85:
        kinds = [None, own, 'importance']
        rng.shuffle(kinds)
        if rng.random() < 0.7:
            kw['settings'] = {'ignore_rows': 0.3}
        kw2 = dict(kw)
        for q, v in ((kw, kinds[0]), (kw2, kinds[1])):
            q.pop('item', None)
            if v:
                q['item'] = v
    else:
        kw2 = gen_load(rng, own)
    ops.append(['load', 0 if nr == 1 or rng.random() < 0.7 else 1, kw2])
    if rng.random() < 0.3:
        ops.append(['load', 0, kw])
    return dict(files=files, ops=ops, victim=-1, seed=rng.randrange(1 << 30), dirseed=rng.randrange(1 << 20), granularity=rng.choice([0.0, 0.0, 1.0]), deep=False)


def generate(rng, tier, i):
    if rng.random() < 0.5:
        return focused(rng)
    nr = rng.choice([1, 1, 1, 2, 3])
    files = {}
    for r in ROOTS[:nr]:
        files[r] = dict(n=rng.choice([1, 2, 2, 3]), rows=rng.choice([8, 20, 20, 60, 60, 300]) if rng.random() < 0.96 else 2500, ranges=rng.random() < 0.5, props=rng.choice([None, None, 'burn_removed = T\n', 'ignore_rows = 3\n', 'label = lab\n']),
                        sub=rng.random() < 0.2)
    ops = []
    own = rng.choice(['run', 'run', 'removed'])
    last = None
    for k in range(rng.randint(2, 8)):
        r = rng.random()
        if r < 0.45 or not ops:
            kw = gen_load(rng, own)
            if last and rng.random() < 0.5:
                kw = last
            last = kw
            ops.append(['load', rng.randrange(nr), kw])
        elif r < 0.55:
            ops.append(['loads', rng.randrange(nr), [gen_load(rng, own) if rng.random() < 0.5 or not last else last for _ in range(rng.choice([2, 2, 3]))]])
        elif r < 0.65:
            ops.append(['during', rng.randrange(nr), last or gen_load(rng, own), gen_env(rng)])
        else:
            ops.append(['env', rng.randrange(nr)] + gen_env(rng))
    ops.append(['load', rng.randrange(nr), last or {}])
    vic = [k for k, o in enumerate(ops[:-1]) if o[0].startswith('load')]
    return dict(files=files, ops=ops, victim=rng.choice(vic) if vic else -1, seed=rng.randrange(1 << 30), dirseed=rng.randrange(1 << 20), granularity=rng.choice([0.0, 0.0, 1.0]),
                deep=rng.random() < 0.12)


class Env:
    """The files of the chains, with the rows the model expects in them."""

    def __init__(self, s, sc):
        import random
        self.s, self.w = s, s.world
        self.rng = random.Random(sc['seed'])
        self.rows = {}
        self.names = {}
        for r, f in sc['files'].items():
            self.names[r] = ['aa', 'bb', 'cc*']
            for k in range(f['n']):
                self.rows[r, k + 1] = make_rows(self.rng, f['rows'], 3)
                self.put(r, k + 1, age=self.rng.choice([2, 500, 9000]))
            self.write_names(r)
            if f['ranges']:
                self.aux(r, '.ranges', 'aa 0 N\nbb -1 3\n', age=500)
            if f['props']:
                self.aux(r, '.properties.ini', f['props'], age=500)

    def path(self, r, k):
        return '%s/work/%s_%d.txt' % (self.s.root, r, k)

    def put(self, r, k, age=0):
        self.s.write(self.path(r, k), rows_text(self.rows[r, k]), t=self.now() - age)

    def now(self):
        t = self.w.now
        g = self.w.granularity
        return (t // g) * g if g else t

    def aux(self, r, ext, text, age=0):
        p = '%s/work/%s%s' % (self.s.root, r, ext)
        if text is None:
            if os.path.exists(p):
                os.remove(p)
        else:
            self.s.write(p, text, t=self.now() - age)

    def write_names(self, r, age=0):
        self.aux(r, '.paramnames', ''.join('%s\t\\%s\n' % (n, n[:1]) for n in self.names[r]), age=age)

    def do(self, r, kind, seed):
        import random
        rng = random.Random(seed)
        ks = sorted(k for a, k in self.rows if a == r)
        w = self.w
        w.now += rng.choice([0.05, 0.05, 2, 400])
        old = rng.choice([300, 3000, 100000])
        if kind == 'append' and ks:
            k = rng.choice(ks)
            self.rows[r, k] = self.rows[r, k] + make_rows(rng, rng.choice([1, 5]), 3)
            self.put(r, k)
        elif kind in ('rewrite', 'restore') and ks:  # same size, other values; restore: an earlier modification time (as cp -p, rsync -t, tar do)
            k = rng.choice(ks)
            self.rows[r, k] = make_rows(rng, len(self.rows[r, k]) if rng.random() < 0.7 else 12, 3)
            self.put(r, k, age=old + rng.random() if kind == 'restore' else 0)
        elif kind in ('add', 'add_old'):
            k = max(ks or [0]) + 1
            self.rows[r, k] = make_rows(rng, rng.choice([4, 20]), 3)
            self.put(r, k, age=old if kind == 'add_old' else 0)
        elif kind == 'samestamp' and ks:  # other contents of the same date (as unpacked archives may have)
            k = rng.choice(ks)
            t = os.stat(self.path(r, k)).st_mtime
            self.rows[r, k] = make_rows(rng, len(self.rows[r, k]) + rng.choice([-3, 2, 5]), 3)
            self.s.write(self.path(r, k), rows_text(self.rows[r, k]), t=t)
        elif kind == 'remove' and len(ks) > 1:
            k = rng.choice(ks)
            os.remove(self.path(r, k))
            del self.rows[r, k]
        elif kind == 'swap' and len(ks) > 1:
            a, b = rng.sample(ks, 2)
            if len(self.rows[r, a]) == len(self.rows[r, b]):
                return
            self.rows[r, a], self.rows[r, b] = self.rows[r, b], self.rows[r, a]
            self.put(r, a, age=old)
            self.put(r, b, age=old)
        elif kind == 'ranges':
            self.aux(r, '.ranges', rng.choice([None, 'aa 0 N\nbb -1 3\n', 'aa N 2\nbb -1 3\n', 'cc 0 5\nbb 0 N\n']), age=rng.choice([0, old + rng.random()]))
        elif kind == 'properties':
            self.aux(r, '.properties.ini', rng.choice([None, 'burn_removed = T\n', 'ignore_rows = 3\n', 'ignore_rows = 4\n', 'label = lab\n', 'sampler = nested\nburn_removed = T\n']), age=rng.choice([0, old + rng.random()]))
        elif kind == 'names':
            self.names[r] = rng.choice([['aa', 'bb', 'cc*'], ['bb', 'aa', 'cc*'], ['aa', 'bb*', 'cc*'], ['aa', 'bb', 'dd']])
            self.write_names(r, age=rng.choice([0, old + rng.random()]))
        elif kind == 'clock':
            d = rng.choice([-5000, -50, 5000])
            w.now += d
            w.jumps += d
        elif kind == 'pause':
            w.now += 100
        elif kind.startswith('cache'):
            d = self.s.root + '/cache'
            for dp, dn, fn in os.walk(self.s.root):
                if dp.startswith(self.s.root + '/work/python'):
                    continue
                for f in sorted(fn):
                    if f.endswith('.py_mcsamples'):
                        p = os.path.join(dp, f)
                        if kind == 'cachegone':
                            os.remove(p)
                        else:
                            data = R.open(p, 'rb').read()
                            data = data[:rng.randrange(len(data) + 1)] if kind == 'cachecut' else bytes(rng.randrange(256) for _ in range(200))
                            with R.open(p, 'wb') as h:
                                h.write(data)
                            self.s.stamp(p, None)


class Item:
    """What a grid item has that loading uses."""

    def __init__(self, root, kind):
        self.chainRoot = root
        self.batchPath = os.path.dirname(root)
        self.isImportanceJob = kind == 'importance'
        self.kind = kind

    def isBurnRemoved(self):
        return self.kind == 'removed'


def load_args(s, root, kw, item):
    from getdist import IniFile
    a = dict()
    if 'settings' in kw:
        a['settings'] = dict(kw['settings'])
    if 'ini' in kw:
        a['ini'] = s.root + '/work/set%d.ini' % kw['ini']
        if kw.get('ini_object'):
            a['ini'] = IniFile(a['ini'])
    if item:
        a['jobItem'] = Item(s.root + '/work/' + root, kw['item'])
    return a


def cached_load(s, root, kw, deep):
    from getdist import loadMCSamples
    path = root if kw.get('relative') else s.root + '/work/' + root
    a = load_args(s, root, kw, kw.get('item'))
    m = loadMCSamples(path, no_cache=bool(kw.get('no_cache')), **a)
    import getdist.chains
    from ..core import cur
    p = cur()
    p.noyield += 1
    try:
        return dict(summary(m, deep), item=m.jobItem is a.get('jobItem'))
    finally:
        p.noyield -= 1


def plain_load(s, root, kw, deep):
    from getdist.mcsamples import MCSamples
    from getdist.chains import chainFiles
    path = root if kw.get('relative') else s.root + '/work/' + root
    a = load_args(s, root, kw, kw.get('item'))
    m = MCSamples(path, **a)
    m.readChains(chainFiles(path))
    return dict(summary(m, deep), item=m.jobItem is a.get('jobItem'))


def execute(sc, choices, tag, res):
    with Site(tag, choices, flavour=None, scenario=sc, max_steps=60000) as s:
        res.worlds.append(s.world)
        w = s.world
        roots = list(sc['files'])
        for k, t in enumerate(INIS):
            s.write('work/set%d.ini' % k, t)
        env = Env(s, sc)
        for n, op in enumerate(sc['ops']):
            kind, r = op[0], roots[op[1]]
            victim = n == sc['victim']
            res.note('op:' + kind)
            if kind == 'env':
                env.do(r, op[2], op[3])
                continue
            kws = op[2] if kind == 'loads' else [op[2]]
            ps = []
            for j, kw in enumerate(kws):
                p = w.spawn('load%d.%d' % (n, j), cached_load, s, r, kw, sc['deep'])
                p.fault_ok = victim and j == 0
                ps.append(p)
            if kind == 'during':
                ch = w.spawn('env%d' % n, during, env, r, op[3])
                ch.fault_ok = False
            w.run(lambda: all(p.finished for p in w.procs))
            if w.limit_hit:
                res.violate('no-end', 'load did not end')
                return
            if kind == 'during':
                res.note('overlapping changes')
                if ch.status:
                    raise Exception('environment failed: ' + ch.stderr)
                continue
            for kw, p in zip(kws, ps):
                if victim and w.faults_fired and p is ps[0] and p.status:
                    res.note('load failed or killed by a fault')
                    continue
                ref, bad = s.call(plain_load, s, r, kw, sc['deep'])
                if bad is not None:
                    last = bad.stderr.strip().split('\n')[-1]
                    if p.status == 0:
                        res.violate('load-hides-error', 'loading %s with %s gives samples although reading the files fails: %s' % (r, kw, last))
                        return
                    res.note('unreadable as files')
                    continue
                if p.status:
                    res.violate('load-fails', 'loading %s with %s fails (%s) although the files can be read; after %s' % (r, kw, p.stderr.strip().split('\n')[-1], sc['ops'][:n]))
                    return
                d = difference(ref, p.result)
                if d:
                    res.violate('differs', 'loading %s with %s gives %s; operations before: %s, faults %s' % (r, kw, d, sc['ops'][:n], w.faults_fired))
                    return
                m = model(env, r, kw, ref)
                if m:
                    res.violate('rows-wrong', 'loading %s with %s: %s' % (r, kw, m))
                    return
                res.note('loads compared')
                if not kw.get('no_cache'):
                    res.nontrivial = True
        if w.escapes:
            res.violate('escape', str(w.escapes[:2]))
        res.state = repr(sorted((r, k, len(v)) for (r, k), v in env.rows.items()))


def during(env, r, e):
    import time
    from ..core import cur
    p = cur()
    time.sleep(0.02 + (e[1] % 50) * 0.004)
    p.noyield += 1
    try:
        env.do(r, *e)
    finally:
        p.noyield -= 1


def model(env, r, kw, got):
    """Expected rows from what was written to the files (settings that select rows by weight are left to the comparison with a plain load)."""
    st = dict(kw.get('settings') or {})
    if 'min_weight_ratio' in st or len(got['names']) != 3:
        return
    if 'ignore_rows' in st:
        ign = float(st['ignore_rows'])
    elif 'ini' in kw:
        ign = {0: 0.5, 3: 2.}.get(kw['ini'], 0.)
    else:
        ign = float(got['attrs']['default_ignore'])
    p = '%s/work/%s.properties.ini' % (env.s.root, r)
    if os.path.exists(p):
        t = R.open(p).read()
        if 'burn_removed' in t:
            ign = 0
        elif 'ignore_rows' in t:
            ign = float(t.split('=')[1])
    if ign < 1 and kw.get('item') in ('importance', 'removed'):
        ign = 0
    rows = []
    for (a, k), v in env.rows.items():
        if a == r:
            n = int(ign) if ign >= 1 else int(round(len(v) * ign))
            rows += [tuple(float('%16.7E' % x) for x in row) for row in v[n:]]
    rows.sort()
    have = [tuple(x) for x in got['rows']]
    if len(rows) != len(have):
        return '%d rows, %d expected' % (len(have), len(rows))
    for a, b in zip(rows, have):
        if any(abs(x - y) > 1e-6 * (1 + abs(x)) for x, y in zip(a, b)):
            return 'row %s, expected %s' % (b, a)


def faults(rng, sc, base, tier):
    v = 'load%d.0' % sc['victim']
    pts = [x for x in base.points if x[0] == v]
    plans = []
    for n, st, kind, rel in rng.sample(pts, min(len(pts), 2)):
        plans.append({'%s:%d' % (n, st): dict(kind='crash')})
    wr = [x for x in pts if x[2] in ('write', 'close-w', 'open-w', 'rename')]
    for n, st, kind, rel in rng.sample(wr, min(len(wr), 3)):
        f = dict(kind=rng.choice({'write': ['enospc', 'torn', 'torn', 'eio', 'crash', 'crash'], 'close-w': ['eio', 'crash'], 'open-w': ['enospc', 'eacces', 'crash'], 'rename': ['eio', 'crash']}[kind]))
        if f['kind'] == 'torn':
            f['frac'] = round(rng.random(), 2)
        plans.append({'%s:%d' % (n, st): f})
    rd = [x for x in pts if x[2] in ('read', 'open-r')]
    for n, st, kind, rel in rng.sample(rd, min(len(rd), 2)):
        plans.append({'%s:%d' % (n, st): dict(kind=rng.choice(['eio', 'short', 'stall'] if kind == 'read' else ['eio', 'stall', 'eacces']))})
    return plans


def shrink(sc):
    o = sc['ops']
    for j in range(len(o)):
        if len(o) > 1 and j != sc['victim']:
            yield dict(sc, ops=o[:j] + o[j + 1:], victim=sc['victim'] - (1 if j < sc['victim'] else 0))
    for r in list(sc['files']):
        if len(sc['files']) > 1 and r == list(sc['files'])[-1] and all(x[1] < len(sc['files']) - 1 for x in o):
            yield dict(sc, files={a: b for a, b in sc['files'].items() if a != r})
    for j, x in enumerate(o):
        if x[0] == 'loads' and len(x[2]) > 1:
            for q in range(len(x[2])):
                yield dict(sc, ops=o[:j] + [[x[0], x[1], x[2][:q] + x[2][q + 1:]]] + o[j + 1:])
        if x[0] == 'load' and x[2]:
            for k in x[2]:
                yield dict(sc, ops=o[:j] + [[x[0], x[1], {a: b for a, b in x[2].items() if a != k}]] + o[j + 1:])
