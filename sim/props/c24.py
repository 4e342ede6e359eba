"""C24: chains of Cobaya are read as their own description of the run says."""
import copy
import math
import os
import random

from ..core import R, cur
from ..site import Site
from .samples_common import plain

P_SWITCH = [0.05, 0.2, 0.4]
ROOTS = ['run', 'run_b2', 'run2', 'run.post.a', 'run_post_b', 'my.chain', 'DES_shear']
LATEX = [r'\Omega_b h^2', 'H_0', r'100\theta_{MC}', r'\log(10^{10} A_s)', "n_s'", 'x: y', 'S_8 [z]']
LIKES = ['planck', 'des_y1.shear', 'bao_6df', 'one']
PRIORS = ['SZ', 'my_prior']


def preload():
    import pandas
    import scipy.stats
    import yaml
    import getdist.mcsamples
    import getdist.plots


# -- descriptions ----------------------------------------------------------------------------------------------------
def some_prior(rng):
    a = round(rng.uniform(-5, 3), 3)
    b = round(a + rng.uniform(20, 40), 3)
    x = round(rng.uniform(0.5, 4), 2)
    return rng.choice([[a, b], [a, b], dict(min=a, max=b), dict(min=a, max=b), dict(dist='uniform', min=a, max=b), dict(dist='uniform', loc=a, scale=x + 30), dict(loc=a, scale=x + 30),
                       dict(dist='norm', loc=a, scale=x), dict(dist='norm', loc=a, scale=x), dict(dist='norm'), dict(dist='norm', scale=x), dict(dist='halfnorm', loc=a, scale=x), dict(dist='expon', loc=a),
                       dict(dist='beta', a=2., b=3., loc=a, scale=x + 30), dict(dist='truncnorm', a=-2., b=15., loc=a, scale=x), [int(a) - 1, int(b)], [-1e2, 1e5], dict(dist='halfnorm')])


def prior_range(p):
    """Where a prior density does not vanish."""
    if isinstance(p, list):
        return list(p)
    if 'min' in p or 'max' in p:
        return [p.get('min'), p.get('max')]
    loc, sc, d = p.get('loc', 0), p.get('scale', 1), p.get('dist', 'uniform')
    if d in ('uniform', 'beta'):
        return [loc, loc + sc]
    if d == 'truncnorm':
        return [loc + p['a'] * sc, loc + p['b'] * sc]
    return [loc, None] if d in ('halfnorm', 'expon') else [None, None]


def gen_info(rng):
    params = []
    names = ['omegabh2', 'H0', 'logA', 'As', 'ns', 'tau', 'mnu', 'sigma8', 'omk', 'DES_b1', 'w', 'A', 'S8', 'rdrag']
    rng.shuffle(names)
    for k in range(rng.choice([3, 4, 5, 7])):
        kind = 's' if k == 0 else rng.choice(['s', 's', 's', 'd', 'd', 'fix', 'fun', 'fun0'])
        p = {}
        if kind == 's':
            p['prior'] = some_prior(rng)
            if rng.random() < 0.3:
                p['ref'] = dict(dist='norm', loc=1., scale=0.5)
            if rng.random() < 0.3:
                p['proposal'] = 0.01
            if rng.random() < 0.2:
                p['drop'] = True
        elif kind == 'd':
            p['derived'] = rng.choice([True, True, 'lambda H0: H0*2'])
        elif kind == 'fix':
            p['value'] = rng.choice([0.06, 1, 0, -1.0, 1e2, 1e-5, 3.046])
        else:
            p['value'] = 'lambda %s: %s*1e-2' % (names[0], names[0])
            if kind == 'fun0':
                p['derived'] = False
            elif rng.random() < 0.5:
                p['derived'] = True
        if kind in ('d', 'fun') and rng.random() < 0.6:
            for lim, v in (('min', rng.choice([-90, -300.5, -1e3])), ('max', rng.choice([500, 80.25, 1e3]))):
                if rng.random() < 0.6:
                    p[lim] = v
        if rng.random() < 0.7:
            p['latex'] = rng.choice(LATEX)
        if rng.random() < 0.3:
            p['renames'] = rng.choice(['other_' + names[k], ['old' + names[k], 'x' + names[k]]])
        params.append([names[k], p])
    info = dict(params=params, likelihood=rng.sample(LIKES, rng.choice([1, 1, 2, 3])), prior=rng.sample(PRIORS, rng.choice([0, 0, 0, 1, 2])), sampler=rng.choice(['mcmc', 'mcmc', 'mcmc', 'polychord', None]),
                label=rng.choice([None, None, 'My run', 'Planck: TT']))
    if rng.random() < 0.4:
        post = dict(skip=rng.choice([None, 0, 0.3, 0.3, 100]), suffix='a')
        rem, add = {}, {}
        d = [n for n, p in params if kind_of(p) == 'der']
        if d and rng.random() < 0.5:
            rem['params'] = rng.sample(d, 1)
        if rng.random() < 0.4:
            x = rng.sample(info['likelihood'], 1)
            rem['likelihood'] = x[0] if rng.random() < 0.4 else x
        if info['prior'] and rng.random() < 0.4:
            x = rng.sample(info['prior'], 1)
            rem['prior'] = x[0] if rng.random() < 0.4 else x
        if rng.random() < 0.6:
            add['params'] = [['new1', rng.choice([dict(derived=True, latex='N_1', min=-50), dict(derived=True), dict(derived=True, renames=['nn'])])]]
            old = [n for n, p in params if n not in rem.get('params', [])]
            for n, p in [x for x in params if x[0] in old]:
                if rng.random() > 0.2:
                    continue
                k = kind_of(p)
                c = dict(latex='R_{new}') if rng.random() < 0.4 else {}
                if k == 'sam' and (not c or rng.random() < 0.5):
                    c['prior'] = some_prior(rng)
                if k == 'der' and rng.random() < 0.3:
                    c['min'] = -2000.5
                if rng.random() < 0.2:
                    c['renames'] = ['post_' + n]
                if c:
                    add['params'].append([n, c])
        if rng.random() < 0.5:
            add['likelihood'] = ['lensing']
        if rng.random() < 0.3:
            add['prior'] = ['extra']
        if rem or rng.random() < 0.2:
            post['remove'] = rem
        if add or rng.random() < 0.2:
            post['add'] = add
        info['post'] = post
    return info


def kind_of(p):
    if 'prior' in p:
        return 'sam'
    if isinstance(p.get('value'), str):
        return 'der' if p.get('derived', True) else 'fun'
    if 'value' in p:
        return 'fix'
    return 'der' if p.get('derived', True) else 'none'


class Spec:
    """What a description says, by the rules of Cobaya."""

    def __init__(self, info):
        post = info.get('post') or {}
        rem, add = post.get('remove') or {}, post.get('add') or {}
        aslist = lambda x: [x] if isinstance(x, str) else list(x or [])
        pars = [[n, dict(p)] for n, p in info['params'] if n not in (rem.get('params') or [])]
        for n, p in add.get('params') or []:
            old = [q for q in pars if q[0] == n]
            if old:
                old[0][1].update(p)
            else:
                pars.append([n, dict(p)])
        priors = [x for x in ['0'] + info['prior'] if x not in aslist(rem.get('prior'))] + list(add.get('prior') or [])
        likes = [x for x in info['likelihood'] if x not in aslist(rem.get('likelihood'))] + list(add.get('likelihood') or [])
        esc = lambda x: x.replace('_', '\\ ')
        self.sampled, self.derived, self.ranges, self.fixed = [], [], {}, {}
        for n, p in pars:
            k = kind_of(p)
            e = (n, p.get('latex', n), sorted(([p['renames']] if isinstance(p['renames'], str) else p['renames']) if 'renames' in p else []))
            if k == 'sam':
                self.sampled.append(e)
                self.ranges[n] = prior_range(p['prior'])
            elif k == 'der':
                self.derived.append(e)
                self.ranges[n] = [p.get('min'), p.get('max')]
            elif k == 'fix':
                self.ranges[n] = [p['value']] * 2
                self.fixed[n] = p['value']
        auto = [('minuslogprior', r'-\log\pi')] + [('minuslogprior__' + x, r'-\log\pi_\mathrm{%s}' % esc(x)) for x in priors]
        auto += [('chi2', r'\chi^2')] + [('chi2__' + x, r'\chi^2_\mathrm{%s}' % esc(x)) for x in likes]
        for n, l in auto:
            self.derived.append((n, l, []))
            self.ranges[n] = [None, None]
        self.names = [(n, l, False, r) for n, l, r in self.sampled] + [(n, l, True, r) for n, l, r in self.derived]
        self.sampler = {'polychord': 'nested'}.get(info['sampler'], 'mcmc')
        self.label = info['label']
        self.skipped = bool(post.get('skip'))


def info_dict(info, form):
    """The description as a Python object (as in Cobaya's own output)."""
    d = {}
    d['theory'] = {'camb': {'speed': 0.4, 'path': None}}
    val = (lambda x: eval(x)) if form & 1 else (lambda x: x)
    prior = lambda: (lambda a: a) if form & 2 else 'lambda a: a'
    like = lambda: {'speed': 1, 'path': None}
    d['likelihood'] = {x: like() for x in info['likelihood']}
    if info['prior']:
        d['prior'] = {x: prior() for x in info['prior']}
    d['params'] = {}
    for n, p in info['params']:
        p = copy.deepcopy(p)
        for k in ('value', 'derived'):
            if isinstance(p.get(k), str):
                p[k] = val(p[k])
        d['params'][n] = p
    if info['sampler']:
        d['sampler'] = {info['sampler']: {'max_samples': 10, 'Rminus1_stop': 0.01}}
    if info['label']:
        d['label'] = info['label']
    d['output'] = 'chains/run'
    if info.get('post'):
        post = {k: v for k, v in info['post'].items() if k in ('suffix', 'skip') and v is not None}
        if 'remove' in info['post']:
            post['remove'] = copy.deepcopy(info['post']['remove'])
        if 'add' in info['post']:
            a = info['post']['add']
            post['add'] = {}
            if a.get('params'):
                post['add']['params'] = {n: copy.deepcopy(p) for n, p in a['params']}
            if a.get('likelihood'):
                post['add']['likelihood'] = {x: like() for x in a['likelihood']}
            if a.get('prior'):
                post['add']['prior'] = {x: prior() for x in a['prior']}
        d['post'] = post
    return d


def yaml_text(v, rng, ind=0):
    """Block form with the number and text styles that occur in such files."""
    pad = '  ' * ind
    out = []
    for k, x in v.items():
        if isinstance(x, dict):
            out.append('%s%s: {}' % (pad, k) if not x else '%s%s:\n%s' % (pad, k, yaml_text(x, rng, ind + 1)))
        else:
            out.append('%s%s: %s' % (pad, k, scalar(x, rng, ind)))
    return '\n'.join(out)


def scalar(x, rng, ind=0):
    if x is None:
        return rng.choice(['null', '', '~'])
    if isinstance(x, bool):
        return str(x).lower()
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        t = [repr(x)]
        if x == int(x) and x and abs(x) >= 100:
            t += ['%de2' % (x / 100), '%d.' % x]
        elif x and abs(x) < 1e-3:
            t += ['1e-5', '1.e-5', '0.00001'] if x == 1e-5 else []
        return rng.choice(t)
    if isinstance(x, list):
        return '[%s]' % ', '.join(scalar(y, rng) for y in x) if rng.random() < 0.8 or not x else '\n' + '\n'.join('  ' * (ind + 1) + '- ' + scalar(y, rng) for y in x)
    return "'%s'" % x.replace("'", "''")


def to_text(info, seed):
    rng = random.Random(seed)
    t = yaml_text(info_dict(info, 0), rng)
    if rng.random() < 0.4:
        t = 'packages:\n  external: !!python/name:my_likelihoods.shear \'\'\n' + t
    if rng.random() < 0.3:
        t = '# made by cobaya\n' + t
    return ('\ufeff' if rng.random() < 0.1 else '') + t + '\n'


# -- chains ----------------------------------------------------------------------------------------------------------
def row(rng, spec, k):
    w = float(rng.choice([1, 1, 2, 3, 7]))
    v = []
    for j, n in enumerate(spec.names):
        lo, hi = spec.ranges[n[0]]
        u = rng.random()
        x = 1 + u + 3 * j if lo is None and hi is None else lo + 1 + u if hi is None else hi - 1 - u if lo is None else lo + (hi - lo) * (0.3 + 0.4 * u)
        v.append(float('%.7g' % x))
    return [w, round(rng.random() * 9 + k * 1e-3 + 3, 6)] + v


def row_text(r):
    return ' '.join('%14.7g' % x for x in r) + '\n'


def header(spec):
    return '#' + ' '.join('%14s' % n for n in ['weight', 'minuslogpost'] + [x[0] for x in spec.names]) + '\n'


# -- scenarios -------------------------------------------------------------------------------------------------------
def generate(rng, tier, i):
    runs = {}
    spots = ['chains/%s' % r for r in rng.sample(ROOTS, rng.choice([1, 2, 3]))]
    if rng.random() < 0.4:
        spots.append('dirs/%s/' % rng.choice(['d1', 'run']))
    if rng.random() < 0.3:
        spots.append('deep/x/%s' % rng.choice(ROOTS))
    if rng.random() < 0.2:
        spots.append('deep/y/sub/%s' % rng.choice(ROOTS))
    for root in spots:
        n = rng.choice([1, 1, 2, 3])
        form = rng.choice(['updated'] * 4 + ['full'])
        runs[root] = dict(info=gen_info(rng), form=form, sep=rng.choice(['.', '.', '_']) if form == 'updated' else rng.choice(['_', '.']), rows=[rng.choice([45, 45, 60]) for _ in range(n)], plain=n == 1 and rng.random() < 0.2,
                          head=rng.random() < 0.8, seed=rng.randrange(1 << 30), yseed=rng.randrange(1 << 30), none=rng.random() < 0.06)
    ops = []
    names = list(runs)
    for _ in range(rng.choice([2, 3, 4, 6])):
        root = rng.choice(names)
        kind = rng.choice(['load', 'load', 'load', 'cached', 'cached', 'plot', 'plot', 'cmd', 'glob', 'coll', 'coll', 'coll', 'save', 'names', 'roots'])
        st = rng.choice([None, None, {'ignore_rows': 0.3}, {'ignore_rows': 0.5}, {'ignore_rows': 3}])
        if runs[root]['info']['sampler'] == 'polychord' and kind != 'coll':
            st = None
        o = dict(kind=kind, root=root, settings=st, rel=rng.random() < 0.4)
        if kind == 'coll':
            o.update(times=rng.choice([1, 2, 2, 3]), form=rng.randrange(4), one=rng.random() < 0.3, ignore=rng.choice([0, 0, 0, 0.3, 4]), tag=rng.choice([None, 'tag']))
            if runs[root]['info']['sampler'] == 'polychord':
                o['ignore'] = 0
        if kind == 'glob':
            o['pattern'] = rng.choice(['*', 'run*', 'r?n*'])
        ops.append(o)
    actors = []
    for root in rng.sample(names, min(len(names), rng.choice([0, 0, 1, 1, 2]))):
        info2 = gen_info(rng)
        old = runs[root]['info']
        info2 = dict(old, label=rng.choice([None, 'Other']), params=[[n, dict(p, **rng.choice([{}, {'latex': 'Q_%d' % k}]))] for k, (n, p) in enumerate(old['params'])])
        for n, p in info2['params']:
            if 'prior' in p and rng.random() < 0.4:
                p['prior'] = [-500000, 900000]
        actors.append(dict(root=root, what=rng.choice(['sample', 'sample', 'sample', 'info']), info=info2, n=rng.choice([1, 3, 6]), nap=rng.choice([0, 0.01, 0.05]), before=rng.choice([0, 0.02, 0.1]), seed=rng.randrange(1 << 30)))
    return dict(runs=runs, ops=ops, actors=actors, two=rng.random() < 0.25, dirseed=rng.randrange(1 << 20), granularity=rng.choice([0.0, 0.0, 1.0]) if not actors else 0.0)


class Run:
    """What a run's files say and have said."""

    def __init__(self, s, root, d):
        self.w, self.root, self.d = s.world, root, d
        self.base = s.work + '/' + root
        self.infos = [[0, None, Spec(d['info'])]]
        self.rng = random.Random(d['seed'])
        self.yaml = self.base + (('' if root.endswith('/') else '.') + 'updated.yaml' if d['form'] == 'updated' else ('' if root.endswith('/') else '__') + 'full.yaml')
        s.write(self.yaml, to_text(d['info'], d['yseed']), t=s.world.now - 3000)
        self.rows, self.files = [], []
        spec = self.infos[0][2]
        for k, n in enumerate(d['rows'] if not d['none'] else []):
            rows = [row(self.rng, spec, j) for j in range(n)]
            f = self.base + ('' if root.endswith('/') and not d['plain'] else '' if d['plain'] else d['sep']) + ('' if d['plain'] else str(k + 1)) + '.txt'
            s.write(f, (header(spec) if d['head'] else '') + ''.join(map(row_text, rows)), t=s.world.now - 1000)
            self.files.append(f)
            # rows, and [first moment at which n rows may be seen] by n
            self.rows.append([rows, [0] * (n + 1), [None] * (n + 1)])

    def versions(self, t0, t1):
        return [v for a, b, v in self.infos if a <= t1 and (b is None or b >= t0)]

    def counts(self, k, t0, t1):
        rows, seen, gone = self.rows[k]
        return [n for n in range(len(seen)) if (seen[n] <= t1 and (gone[n] is None or gone[n] >= t0)) and n >= self.d['rows'][k]]


def actor(s, run, a):
    import time
    time.sleep(a['before'])
    if a['what'] == 'info':
        t = to_text(a['info'], a['seed'])
        with open(run.yaml + '.tmp', 'w') as f:
            f.write(t)
        run.infos.append([s.world.now, None, Spec(a['info'])])
        os.replace(run.yaml + '.tmp', run.yaml)
        run.infos[-2][1] = s.world.now
        return
    for j in range(a['n']):
        if not run.files:
            return
        k = j % len(run.files)
        rows, seen, gone = run.rows[k]
        r = row(run.rng, run.infos[0][2], len(rows))
        x = row_text(r)
        cut = run.rng.randrange(1, len(x))
        n = len(rows) + 1
        rows.append(r)
        seen.append(s.world.now)
        gone.append(None)
        with open(run.files[k], 'a') as f:
            f.write(x[:cut])
            f.flush()
            if run.rng.random() < 0.5:
                time.sleep(a['nap'])
            f.write(x[cut:])
        gone[n - 1] = s.world.now
        time.sleep(a['nap'])


def view(m):
    import numpy as np
    chains = m.getSeparateChains() if m.chain_offsets is not None and len(m.chain_offsets) > 2 else [m]
    return dict(chains=[np.c_[c.weights, c.loglikes, c.samples].tolist() for c in chains], names=[(p.name, p.label, bool(p.isDerived), sorted(p.renames)) for p in m.paramNames.names],
                ranges={n: (m.ranges.getLower(n), m.ranges.getUpper(n)) for n in m.ranges.names}, label=m.label, sampler=m.sampler,
                row={k: plain(v) for k, v in m.getParamSampleDict(m.numrows - 1).items()}, tag=m.name_tag)


class Coll:
    """Samples as Cobaya holds them."""

    def __init__(self, cols, rows):
        import pandas
        self.data = pandas.DataFrame(rows, columns=cols)

    def __getitem__(self, k):
        return self.data[k]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or a == b


def client(s, sc, runs, ops):
    p = cur()
    for k, o in enumerate(ops):
        run = runs[o['root']]
        rec = dict(k=k, o=o, t0=s.world.now, f0=len(p.fired_here()), got=[], err=None)
        p.log.append(rec)
        base = o['root'] if o['rel'] else run.base
        kw = dict(settings=o['settings']) if o['settings'] else {}
        try:
            if o['kind'] in ('load', 'cached'):
                from getdist import loadMCSamples
                rec['got'].append(view(loadMCSamples(base, no_cache=o['kind'] == 'load', **kw)))
            elif o['kind'] == 'names':
                from getdist import MCSamples
                m = MCSamples(base)
                rec['got'].append(dict(names=[(q.name, q.label, bool(q.isDerived), sorted(q.renames)) for q in m.paramNames.names], ranges={n: (m.ranges.getLower(n), m.ranges.getUpper(n)) for n in m.ranges.names},
                                       label=m.label, sampler=m.sampler))
            elif o['kind'] == 'plot':
                from getdist import plots
                parts = o['root'].split('/')
                an = plots.MCSampleAnalysis(parts[0] if o['rel'] else s.work + '/' + parts[0], o['settings'])
                name = '/'.join(parts[2:] if parts[0] == 'deep' else parts[1:])
                name = name[4:] if name.startswith('sub/') else name
                rec['name'] = name
                m = an.samples_for_root(name)
                rec['got'].append(view(m))
                rec['where'] = os.path.join(s.work, m.root)
            elif o['kind'] == 'save':
                from getdist import loadMCSamples
                m = loadMCSamples(base, no_cache=True, **kw)
                rec['got'].append(view(m))
                new = '%s/saved/%s_%d' % (s.work, p.name, k)
                (m.saveChainsAsText if k % 2 else m.saveAsText)(new, make_dirs=True)
                m2 = loadMCSamples(new, no_cache=True, settings={'ignore_rows': 0.4})
                rec['got'].append(view(m2))
            elif o['kind'] == 'roots':
                from getdist.chain_grid import get_chain_root_files
                d = os.path.dirname(o['root'].rstrip('/')) if not o['root'].endswith('/') else o['root'][:-1]
                rec['dir'] = d
                rec['roots'] = [os.path.join(s.work, x) for x in get_chain_root_files(d if o['rel'] else s.work + '/' + d)]
            elif o['kind'] == 'coll' and run.files:
                from getdist.mcsamples import MCSamplesFromCobaya
                info = info_dict(run.d['info'], o['form'])
                before = copy.deepcopy(info)
                spec = run.infos[0][2]
                rr = random.Random(run.d['seed'] + 1)
                cols = ['weight', 'minuslogpost'] + [x[0] for x in spec.names]
                rec['rows'] = [[row(rr, spec, j) for j in range(n)] for n in (run.d['rows'][:1] if o['one'] else run.d['rows'])]
                colls = [Coll(cols, r) for r in rec['rows']]
                for _ in range(o['times']):
                    m = MCSamplesFromCobaya(info, colls[0] if o['one'] else colls, name_tag=o['tag'], ignore_rows=o['ignore'])
                    rec['got'].append(view(m))
                    if not same(info, before):
                        rec['changed'] = [(a, info.get(a), before.get(a)) for a in before if not same(info.get(a), before.get(a))]
        except Exception as e:
            import traceback
            rec['err'] = '%s: %s' % (type(e).__name__, e)
            rec['tb'] = traceback.format_exc()[-500:]
        rec['t1'] = s.world.now
        rec['faulted'] = len(p.fired_here()) > rec['f0']


# -- judging ---------------------------------------------------------------------------------------------------------
def near(a, b):
    if a is None or b is None:
        return a is None and b is None
    return a == b or abs(a - b) <= 2e-6 * max(abs(a), abs(b)) + 1e-12


def rows_near(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(near(p, q) for p, q in zip(x, y)) for x, y in zip(a, b))


def keep(rows, ignore, head):
    """The rows left after burn-in (an integer may count the line with the names)."""
    if not ignore:
        return [rows]
    if ignore < 1:
        return [rows[int(round(len(rows) * ignore)):]]
    return [rows[int(ignore):]] + ([rows[int(ignore) - 1:]] if head else [])


def burn(v, o):
    """The burn-in to be removed (nested samples have none: whether the general default is used for them is left open)."""
    if v.skipped:
        return [0]
    if o['settings']:
        return [o['settings']['ignore_rows']]
    return [0.3, 0] if v.sampler == 'nested' else [0.3]


def check_meta(got, specs, rspecs):
    """First thing that none of the descriptions the files had explains."""
    bad = None
    for v in specs:
        bad = None
        if got['names'] != v.names:
            d = [(x, y) for x, y in zip(got['names'] + [None], v.names + [None]) if x != y]
            bad = 'parameters %s, expected %s' % (d[0][0] if d else len(got['names']), d[0][1] if d else len(v.names))
        elif (got['label'] or None) != v.label:
            bad = 'label %r, expected %r' % (got['label'], v.label)
        elif got['sampler'] != v.sampler:
            bad = 'sampler %s, expected %s' % (got['sampler'], v.sampler)
        else:
            break
    if bad:
        return bad
    for v in rspecs:
        bad = None
        for n in sorted(set(v.ranges) | set(got['ranges'])):
            if n not in v.ranges:
                if list(got['ranges'][n]) != [None, None]:
                    bad = 'a range %s of %s, which has none' % (got['ranges'][n], n)
                    break
            elif n not in got['ranges'] and v.ranges[n] != [None, None] or n in got['ranges'] and not all(near(x, y) for x, y in zip(got['ranges'][n], v.ranges[n])):
                bad = 'range of %s is %s, expected %s' % (n, got['ranges'].get(n), v.ranges[n])
                break
        if not bad:
            return None
    return bad


def check_chains(got, sets):
    """got: rows of each chain in some order; sets: for each chain the possible row lists."""
    left = list(range(len(sets)))
    for c in got:
        hit = next((j for j in left if any(rows_near(c, x) for x in sets[j])), None)
        if hit is None:
            return 'a chain of %d rows (first %s) where the files give %s rows' % (len(c), c[0][:3] if c else None, [sorted({len(x) for x in y}) for y in sets])
        left.remove(hit)
    if any([] not in sets[j] for j in left):
        return '%d chains where there are %d' % (len(got), len(sets))
    return None


def judge(s, sc, runs, p, r, res):
    o = r['o']
    run = runs[o['root']]
    what = '%s (operation %d of %s)' % ({k: v for k, v in o.items() if v is not None}, r['k'], p.name)
    if 't1' not in r:
        return
    if r['err'] and r['faulted']:
        res.note('failed by a fault')
        return
    specs = run.versions(r['t0'], r['t1'])
    if o['kind'] == 'roots':
        if r['err']:
            res.violate('roots-fail', '%s failed: %s' % (what, r['err'] + r['tb']))
            return
        want = {x.base for x in runs.values() if (x.root[:-1] if x.root.endswith('/') else os.path.dirname(x.root)) == r['dir'] and x.files}
        got = set(r['roots'])
        ok = {x.base for x in runs.values() if x.d['form'] == 'full'}
        if got != want and not (got <= want and want - got <= ok):
            res.violate('roots-wrong', '%s found %s, the directory has %s' % (what, sorted(got), sorted(want)))
        return
    if r.get('changed'):
        res.violate('info-changed', '%s changed the info of the caller: %s' % (what, r['changed'][0]))
        return
    if o['kind'] == 'plot':
        others = [x for x in runs.values() if x.files and x.root != run.root and x.root.split('/')[0] == o['root'].split('/')[0]]
        norm = lambda x: sorted(x.replace('__', '_').replace('_post', '').split('_'))
        base = lambda x: x.root.rstrip('/').split('/')[-1]
        if o['root'].startswith('deep') and any(norm(base(x)) == norm(base(run)) for x in others):
            return  # not unique
    if not run.files and o['kind'] not in ('names', 'coll'):
        if r['got']:
            res.violate('made-up', '%s gave samples, there are none' % what)
        return
    if o['kind'] == 'plot' and run.d['form'] == 'full':
        if r['err']:
            return  # old form of the file: only found by its path
    if r['err']:
        res.violate('load-fails', '%s failed: %s' % (what, r['err'] + r.get('tb', '')))
        return
    if 'where' in r and r['where'] != run.base:
        res.violate('wrong-run', '%s gave %s' % (what, r['where']))
        return
    if o['kind'] == 'coll':
        specs = [run.infos[0][2]]
    for j, got in enumerate(r['got']):
        saved = o['kind'] == 'save' and j == 1
        if saved:
            first = r['got'][0]
            specs2 = copy.copy(specs[0])
            if [x[:3] for x in got['names']] != [x[:3] for x in first['names']] or (got['label'], got['sampler']) != (first['label'], first['sampler']):
                res.violate('saved-differs', '%s: saved %s %s %s, read back %s %s %s' % (what, first['names'], first['label'], first['sampler'], got['names'], got['label'], got['sampler']))
                return
            for n in first['ranges']:
                if not all(near(a, b) for a, b in zip(first['ranges'][n], got['ranges'].get(n, (None, None)))):
                    res.violate('saved-differs', '%s: range of %s saved %s, read back %s' % (what, n, first['ranges'][n], got['ranges'].get(n)))
                    return
            flat = lambda g: sorted(x for c in g['chains'] for x in c)
            full = flat(first)
            # burn-in removed before, or said to be, is not removed again
            burnt = o['settings'] or any(v.skipped for v in specs)
            if burnt and not rows_near(flat(got), full):
                res.violate('saved-differs', '%s: %d rows saved, %d read back' % (what, len(full), len(flat(got))))
                return
            continue
        bad = check_meta(got, specs, specs)
        if bad:
            res.violate('wrong-description', '%s: %s' % (what, bad))
            return
        if o['kind'] == 'names':
            continue
        last = dict(zip(['weight', 'loglike'] + [x[0] for x in got['names']], got['chains'][-1][-1]))
        for n, x in last.items():
            if not near(got['row'].get(n), x):
                res.violate('wrong-values', '%s: value of %s in the last row is %s, the row has %s' % (what, n, got['row'].get(n), x))
                return
        if not any(set(got['row']) == set(last) | set(v.fixed) and all(got['row'][n] == v.fixed[n] for n in v.fixed) for v in specs):
            res.violate('wrong-values', '%s: fixed parameters of a row %s, expected %s' % (what, {n: v for n, v in got['row'].items() if n not in last}, [v.fixed for v in specs]))
            return
        if o['kind'] == 'coll':
            ig = o['ignore']
            sets = [keep(x, ig, False) for x in r['rows']]
            if o['tag'] is not None and got['tag'] != o['tag']:
                res.violate('wrong-description', '%s: name tag %s' % (what, got['tag']))
                return
            bad = check_chains(got['chains'], sets)
        else:
            bad = None
            for v, ig in [(v, ig) for v in specs for ig in burn(v, o)]:
                sets = [[y for n in run.counts(k, r['t0'], r['t1']) for y in keep(rows[0][:n], ig, run.d['head'])] for k, rows in enumerate(run.rows)]
                bad = check_chains(got['chains'], sets)
                if not bad:
                    break
        if bad:
            res.violate('wrong-samples', '%s: %s' % (what, bad))
            return
        res.note('loads checked')


def judge_cmd(s, sc, runs, o, p, out, t0, res):
    """GetDist run on the chains: the statistics of every parameter."""
    what = 'GetDist.py %s' % (p.line,)
    if o['kind'] == 'glob':
        import fnmatch
        d = os.path.dirname(o['root'])
        todo = [x for x in runs.values() if not x.root.endswith('/') and os.path.dirname(x.root) == d and fnmatch.fnmatchcase(os.path.basename(x.root) + '.updated.yaml', o['pattern'] + 'updated.yaml') and x.d['form'] == 'updated']
    else:
        todo = [runs[o['root']]]
    if p.status and any(not x.files for x in todo):
        return
    if p.status:
        res.violate('command-fails', '%s failed: %s' % (what, p.stderr[-500:]))
        return
    for run in todo:
        if not run.files:
            continue
        f = out + '/' + os.path.basename(run.root) + '.margestats'
        if not os.path.exists(f):
            res.violate('no-output', '%s ended normally without results of %s: %s %s %s' % (what, run.root, sorted(os.listdir(out)), p.status, p.stdout[-1500:]))
            return
        with R.open(f) as h:
            lines = [x.split() for x in h.read().split('\n')[3:] if x.strip()]
        specs = run.versions(t0, s.world.now)
        got = [x[0] for x in lines]
        if not any(got == [n + ('*' if d else '') for n, _, d, _ in v.names] for v in specs):
            res.violate('wrong-results', '%s: parameters %s, expected %s' % (what, got, [x[0] for x in specs[0].names]))
            return
        res.note('analyses checked')
        if any(len(run.counts(k, t0, s.world.now)) > 1 for k in range(len(run.rows))):
            continue
        ok = False
        for v in specs:
            for one in (0, 1):
                ig = 0 if v.skipped else o['ignore']
                rows = []
                for k, x in enumerate(run.rows):
                    kk = keep(x[0][:run.counts(k, t0, s.world.now)[0]], ig, run.d['head'])
                    rows += kk[min(one, len(kk) - 1)]
                W = sum(x[0] for x in rows)
                mean = [sum(x[0] * x[j + 2] for x in rows) / W for j in range(len(v.names))]
                ok = ok or all(abs(float(l[1]) - m) < 1e-5 * max(1, abs(m)) for l, m in zip(lines, mean))
        if not ok:
            res.violate('wrong-results', '%s: means %s, expected %s' % (what, [x[1] for x in lines][:4], mean[:4]))
            return


def execute(sc, choices, tag, res):
    with Site(tag, choices, flavour=None, scenario=sc, max_steps=60000) as s:
        res.worlds.append(s.world)
        w = s.world
        runs = {root: Run(s, root, d) for root, d in sc['runs'].items()}
        for d in ('chains', 'dirs', 'deep'):
            os.makedirs(s.work + '/' + d, exist_ok=True)
        lib = [o for o in sc['ops'] if o['kind'] not in ('cmd', 'glob')]
        cmds = [o for o in sc['ops'] if o['kind'] in ('cmd', 'glob') and not o['root'].endswith('/')]
        groups = [lib[:len(lib) // 2], lib[len(lib) // 2:]] if sc['two'] else [lib]
        ps, cs = [], []

        def launch(name, ops):
            p = w.spawn(name, client, s, sc, runs, ops)
            p.fault_ok = name != 'after'
            p.log = []
            p.fired_here = lambda: [x for x in choices.fired if x.startswith(p.name + ':')]
            ps.append(p)
            return p

        for k, g in enumerate(groups):
            launch('c%d' % k, g)
        for k, o in enumerate(cmds):
            out = '%s/out%d' % (s.work, k)
            os.makedirs(out)
            root = o['root'] if o['kind'] == 'cmd' else os.path.dirname(o['root']) + '/' + o['pattern']
            o = dict(o, ignore=(o['settings'] or {}).get('ignore_rows', 0))
            args = ([] if o['kind'] == 'cmd' and k % 2 else []) + (['--ignore_rows', str(o['ignore'])] if False else [])
            s.write('work/an%d.ini' % k, 'file_root = %s\nout_dir = %s\nignore_rows = %s\n' % (s.work + '/' + root, out, o['ignore']))
            args = ['an%d.ini' % k, s.work + '/' + root]
            p = w.script('g%d' % k, 'GetDist.py', args)
            p.fault_ok = True
            p.line = args
            cs.append((p, o, out, w.now))
        acts = []
        for k, a in enumerate(sc['actors']):
            p = w.spawn('a%d' % k, actor, s, runs[a['root']], a)
            p.fault_ok = False
            acts.append(p)
        w.run(lambda: all(p.finished for p in w.procs))
        if w.limit_hit:
            res.violate('no-end', 'the commands did not end')
            return
        bad = [p for p in acts if p.status]
        if bad:
            raise AssertionError('harness: ' + bad[0].stderr)
        # everything quiet: each run as it now is
        after = launch('after', [dict(kind=kd, root=root, settings=None, rel=False) for root in sc['runs'] for kd in ('cached', 'load')])
        w.run(lambda: after.finished)
        for p in ps:
            if p.status and p.status != -9:
                raise AssertionError('harness: ' + p.stderr)
            for r in p.log:
                judge(s, sc, runs, p, r, res)
                if res.violations:
                    return
        for p, o, out, t0 in cs:
            if p.status == -9 or any(x.startswith(p.name + ':') for x in choices.fired) and p.status:
                continue
            judge_cmd(s, sc, runs, o, p, out, t0, res)
            if res.violations:
                return
        res.nontrivial = True
        res.state = repr([[(r['o']['kind'], r['err'], str(r['got'])[:200]) for r in p.log] for p in ps])


def faults(rng, sc, base, tier):
    pts = [x for x in base.points if x[0][0] in 'cg']
    n = 2 if tier == 'quick' else 6
    plans = []
    rd = [x for x in pts if x[2] in ('open-r', 'read', 'listdir', 'scandir') and ('/chains' in '/' + x[3] or '/dirs' in '/' + x[3] or 'deep' in x[3])]
    wr = [x for x in pts if x[2] in ('open-w', 'write', 'rename')]
    for nm, st, k, rel in rng.sample(rd, min(len(rd), n)):
        plans.append({'%s:%d' % (nm, st): dict(kind='eio')})
    for nm, st, k, rel in rng.sample(wr, min(len(wr), n)):
        plans.append({'%s:%d' % (nm, st): dict(kind='eio' if k == 'rename' else rng.choice(['enospc', 'eio']))})
    for nm, st, k, rel in rng.sample(wr or pts, min(len(wr or pts), 1)):
        plans.append({'%s:%d' % (nm, st): dict(kind='crash')})
    return plans


def shrink(sc):
    for k in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            yield dict(sc, ops=sc['ops'][:k] + sc['ops'][k + 1:])
    for k in range(len(sc['actors'])):
        yield dict(sc, actors=sc['actors'][:k] + sc['actors'][k + 1:])
    if sc['two']:
        yield dict(sc, two=False)
    used = {o['root'] for o in sc['ops']} | {a['root'] for a in sc['actors']}
    for r in sc['runs']:
        if r not in used:
            yield dict(sc, runs={k: v for k, v in sc['runs'].items() if k != r})
    for r, d in sc['runs'].items():
        if d['info'].get('post'):
            yield dict(sc, runs=dict(sc['runs'], **{r: dict(d, info={k: v for k, v in d['info'].items() if k != 'post'})}))
        if len(d['rows']) > 1:
            yield dict(sc, runs=dict(sc['runs'], **{r: dict(d, rows=d['rows'][:1])}))
        for k in range(1, len(d['info']['params'])):
            yield dict(sc, runs=dict(sc['runs'], **{r: dict(d, info=dict(d['info'], params=d['info']['params'][:k] + d['info']['params'][k + 1:]))}))
