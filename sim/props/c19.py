"""C19: a plotting session shows the samples of the run it was asked for, analysed with that run's settings."""
import os
import random

from ..core import R, cur
from .jobs_common import *
from .samples_common import make_rows, rows_text, plain, difference

P_SWITCH = [0.02, 0.1, 0.3]
KEYS = ['rows', 'names', 'ranges', 'bounds', 'attrs', 'density']
SET = [('ignore_rows', [0, 0.3, 0.5, 4]), ('smooth_scale_1D', [-1, 0.3, 0.7]), ('limits[aa]', ['-3 12', '-2.5 N', 'N 11']), ('num_bins', [40, 70]), ('contours', ['0.5 0.9', '0.68 0.95 0.99'])]


def preload():
    import getdist.plots
    import getdist.mcsamples


def some_settings(rng, p=0.5, n=2):
    if rng.random() > p:
        return None
    return {k: rng.choice(v) for k, v in rng.sample(SET, rng.randint(1, n))}


def generate(rng, tier, i):
    data = rng.sample(DATA, rng.choice([1, 2]))
    params = rng.sample(PARAMS, rng.choice([1, 2]))
    ds = []
    for d in data:
        o = some_settings(rng, 0.4)
        ds.append(dict(names=d, inis=[x + '.ini' for x in d], dist_settings=o) if o else d)
    g = dict(name='main', params=params, datasets=ds)
    iopts = None
    if rng.random() < 0.5:
        g['importance'] = [['zre']]
        iopts = some_settings(rng, 0.4)
    groups = [g]
    items = model_items('/g', groups)
    opts = some_settings(rng, 0.4)
    names = [it.name for it in items]
    runs = ['runa', 'run_b', 'zz_1x', 'base_x']
    chains = {}  # file root (relative to work) -> description

    def chain(root):
        chains[root] = dict(n=rng.choice([1, 1, 1, 2, 3]) if rng.random() < 0.9 else 0, rows=rng.choice([20, 25, 40]), seed=rng.randrange(1 << 30), ranges=rng.random() < 0.4, extra=rng.random() < 0.3,
                            props=rng.choice([None] * 6 + ['burn_removed = T\n', 'ignore_rows = 0.2\n']))

    for it in items:
        if rng.random() < 0.8:
            chain('grid' + it.root[2:])
    for d in ('d1', 'd1x'):
        for r in rng.sample(runs + names[:2], rng.choice([1, 2, 3])):
            chain('%s/%s' % (d, r))
        if rng.random() < 0.3:
            chain('%s/sub/%s' % (d, rng.choice(['deep1', 'runa'])))
    for _ in range(rng.choice([1, 2, 3, 4])):
        chain('tree/%s/%s' % (rng.choice(['p', 'q', 'p/x', 'q/x', 'r/x', 'x']), rng.choice(runs[:2] + names[:1])))
    inis = {d: some_settings(rng, 0.5) for d in ('d1', 'd1x', 'tree')}
    locs = ['grid', 'd1', 'd1x', 'tree']
    pool = sorted({os.path.basename(c) for c in chains}) + ['nosuch']
    paths = sorted(c for c in chains if chains[c]['n'])
    if not paths:
        chain('d1/runa')
        chains['d1/runa']['n'] = 1
        paths = ['d1/runa']

    def session():
        def settings():
            s = some_settings(rng, 0.6, 3)
            return dict(kind=rng.choice(['dict', 'dict', 'ini', 'file']), vals=s) if s else None

        ops = [dict(op='new', locs=rng.sample(locs, rng.choice([1, 1, 2, 2, 3, 4])), settings=settings(), one=rng.random() < 0.5)]
        for _ in range(rng.choice([2, 4, 6, 9])):
            k = rng.choice(['samples'] * 8 + ['path', 'path', 'add_root', 'add_root', 'info', 'reset', 'reset', 'remove', 'adddir', 'density', 'density', 'grow', 'again', 'inplace'])
            o = dict(op=k)
            if k in ('samples', 'density', 'remove', 'inplace'):
                r = rng.choice(paths) if rng.random() < 0.5 else rng.choice(pool)
                o['name'] = os.path.basename(r)
                if r.startswith('tree/') and rng.random() < 0.6:
                    o['name'] = '/'.join(r.split('/')[-rng.choice([2, 3]):])
                if rng.random() < 0.1:
                    w = o['name'].split('_')
                    rng.shuffle(w)
                    o['name'] = '_'.join(w)
                if rng.random() < 0.12:
                    # shown, the chain goes on, loaded again or another one of that name, shown again
                    q = rng.choice(paths)
                    o['name'] = os.path.basename(q)
                    ops += [dict(op='density', name=o['name']), dict(op='grow', root=q, settings=None)]
                    ops.append(rng.choice([dict(op='samples', name=o['name'], settings=None, cache=False), dict(op='add_root', root=q, settings=None), dict(op='remove', name=o['name'])]))
                if k == 'samples':
                    o['settings'] = some_settings(rng, 0.25)
                    o['cache'] = rng.random() < 0.85
            elif k in ('path', 'add_root', 'info', 'grow'):
                o['root'] = rng.choice(paths)
                o['settings'] = some_settings(rng, 0.2) if k == 'path' else None
            elif k == 'reset':
                o['settings'] = settings()
                o['priority'] = rng.random() < 0.6
            elif k == 'adddir':
                o['loc'] = rng.choice(locs)
            ops.append(o)
        return ops

    two = rng.random() < 0.3
    sessions = [session()] + ([session()] if two else [])
    if two:
        sessions = [[o for o in s if o['op'] != 'grow'] for s in sessions]
    rel = rng.random() < 0.35
    if rel:  # (whether another spelling of the path of a loaded run is another run is left open)
        sessions = [[dict(o, op='path') if o['op'] in ('add_root', 'info') else o for o in s] for s in sessions]
    return dict(groups=groups, chains=chains, inis=inis, sessions=sessions, settings_extra=('getdist_options = %r\n' % opts if opts else '') + (
        "groups[0].importanceRuns = [batchjob.importanceSetting(['zre'], ['zre.ini'], dist_settings=%r)]\n" % iopts if iopts else ''), gopts=opts, iopts=iopts, flavour=None,
                dirseed=rng.randrange(1 << 20), rel=rel)


def aux(c):
    names = ['aa\ta', 'bb\tb', 'cc\tc'] + (['dd\td'] if c['extra'] else [])
    out = {'.paramnames': '\n'.join(names) + '\n'}
    if c['ranges']:
        out['.ranges'] = 'aa -20 20\nbb -20 N\n'
    if c['props']:
        out['.properties.ini'] = c['props']
    return out


def put_chain(s, root, c):
    rng = random.Random(c['seed'])
    base = '%s/%s' % (s.work, root)
    for k in range(c['n']):
        rows = make_rows(rng, c['rows'], 4 if c['extra'] else 3)
        for r in rows:
            r[2] = r[2] + c['seed'] % 7  # tells the runs apart
        s.write('%s_%d.txt' % (base, k + 1), rows_text(rows), t=s.world.now - 1000)
    for e, t in aux(c).items():
        s.write(base + e, t, t=s.world.now - 2000)


def grow(s, root, c):
    rng = random.Random(c['seed'] + 1)
    fname = '%s/%s_1.txt' % (s.work, root)
    with R.open(fname, 'a') as f:
        f.write(rows_text(make_rows(rng, 5, 4 if c['extra'] else 3)))
    s.world.now += 5
    s.stamp(fname)


def view(m):
    """What the session shows of some samples."""
    import numpy as np
    out = dict(rows=sorted(np.c_[m.weights, m.loglikes, m.samples].tolist()), names=[(p.name, p.label) for p in m.paramNames.names],
               ranges={n: (m.ranges.getLower(n), m.ranges.getUpper(n)) for n in m.ranges.names}, bounds=[(p.limmin, p.limmax) for p in m.paramNames.names],
               attrs={k: plain(getattr(m, k)) for k in ('ignore_rows', 'smooth_scale_1D', 'contours', 'num_bins')})
    return out


def density_of(d):
    return plain(d.P)[::23] + plain(d.x)[::41]


class Missing(Exception):
    """The run cannot be had: the session has to say so."""


class Maybe(Missing):
    """The run is listed by one location without chains, or its name is ambiguous there: an error, or the run of a later location."""

    def __init__(self, spec):
        self.spec = spec


class Model:
    """Where each name leads, by the documented rules."""

    def __init__(self, s, sc):
        self.s, self.sc = s, sc
        self.items = s.items
        self.locs, self.ini, self.priority, self.loaded = [], None, True, {}

    def has(self, root):
        return root in self.sc['chains'] and self.sc['chains'][root]['n'] > 0

    def session_ini(self, st):
        if st and st['kind'] != 'dict':
            return dict(vals=dict(st['vals']), default=False)
        return dict(vals=dict(st['vals']) if st else {}, default=True)

    def tree(self):
        """{name: file root} of the directory tree, and file roots by base name."""
        by = {}
        for r in self.sc['chains']:
            if r.startswith('tree/') and self.has(r):
                by.setdefault(os.path.basename(r), []).append(r)
        names = {}
        for b, rs in by.items():
            if len(rs) == 1:
                names[b] = rs[0]
                continue
            n = 2
            while len({tuple(r.split('/')[-n:]) for r in rs}) < len(rs):
                n += 1
            for r in rs:
                names['/'.join(r.split('/')[-n:])] = r
        return names, by

    def find(self, name):
        """(file root, settings of its place, item) in the first location that has it."""
        norm = lambda x: '_'.join(sorted(x.replace('__', '_').replace('_post', '').split('_')))
        maybe = False
        for loc in self.locs:
            hit = None
            if loc == 'grid':
                it = next((i for i in self.items if i.name == name), None)
                if not it:
                    it = next((i for i in self.items if '_'.join(['base'] + sorted(i.params) + ['_'.join(sorted(i.data))]) == name), None)
                if it:
                    d = it if not it.parent else it.parent
                    ds = d.dataset.get('dist_settings') or {} if isinstance(d.dataset, dict) else {}
                    hit = (it.root[len(self.s.work) + 1:], dict(self.sc['gopts'] or {}, **ds), it)
                    if it.parent:
                        hit[1].update(self.sc['iopts'] or {})
                    if not self.has(hit[0]):
                        hit = None
                        maybe = True
            elif loc == 'tree':
                names, by = self.tree()
                if name in names:
                    hit = (names[name], dict(self.sc['inis']['tree'] or {}), 'tree')
                else:
                    rs = [r for b in by for r in by[b] if norm(b) == norm(name)]
                    if len(rs) == 1:
                        hit = (rs[0], dict(self.sc['inis']['tree'] or {}), 'tree')
                    elif rs:
                        maybe = True
            else:
                for r in ('%s/%s' % (loc, name), '%s/sub/%s' % (loc, name)):
                    if self.has(r):
                        hit = (r, dict(self.sc['inis'][loc] or {}), None)
                        break
            if hit:
                return hit, maybe
        if maybe:
            raise Maybe(None)
        raise Missing()

    def spec(self, root, place, item, call):
        over = dict(call or {}) if self.priority else {}
        over.update(place)
        if not self.priority:
            over.update(self.full_ini())
            over.update(call or {})
        files = {}
        k = 1
        while os.path.exists('%s/%s_%d.txt' % (self.s.work, root, k)):
            with R.open('%s/%s_%d.txt' % (self.s.work, root, k)) as f:
                files['_%d.txt' % k] = f.read()
            k += 1
        return dict(root=root, ini=dict(self.ini), over=over, imp=bool(getattr(item, 'parent', None)), item=item is not None and item != 'tree', files=files)

    def full_ini(self):
        out = {}
        if self.ini['default']:
            import getdist
            out.update(getdist.IniFile(getdist.default_getdist_settings).params)
        out.update(self.ini['vals'])
        return out

    def load(self, key, root, place, item, call, cache=True, other=False):
        if key in self.loaded and cache and not (other and self.loaded[key]['root'] != root):
            return self.loaded[key]
        sp = self.spec(root, place, item, call)
        self.loaded[key] = sp
        return sp

    def name(self, name, call=None, cache=True):
        if name in self.loaded and cache:
            return self.loaded[name]
        (root, place, item), maybe = self.find(name)
        if maybe:
            raise Maybe((name, root, place, item, call))
        return self.load(name, root, place, item, call, cache)


def session(s, sc, ops, me):
    """The session: its operations on the real code, with what the rules say for each."""
    import getdist
    from getdist import plots
    from getdist.inifile import IniFile
    p = cur()
    mod = Model(s, sc)
    an = None
    given = []
    place = lambda x: x if sc['rel'] else s.work + '/' + x

    def make(st):
        if not st:
            return None
        if st['kind'] == 'dict':
            d = dict(st['vals'])
        elif st['kind'] == 'ini':
            d = IniFile(dict(st['vals']))
        else:
            d = '%s/my%d_%d.ini' % (s.work, me, len(given))
            s.write(d, ''.join('%s = %s\n' % kv for kv in st['vals'].items()))
        given.append((d, dict(st['vals']) if st['kind'] != 'file' else None))
        return d

    def mine(vals):
        """The dictionary the caller uses for these settings (the same one each time)."""
        if not vals:
            return None
        for d, was in given:
            if isinstance(d, dict) and was == vals:
                return d
        given.append((dict(vals), dict(vals)))
        return given[-1][0]

    for k, o in enumerate(ops):
        rec = dict(k=k, o=o, want=None, got=None, err=None, exp='none', f0=len(p.fired_here()))
        p.log.append(rec)
        act = None
        op = o['op']
        dens = False
        try:
            if op == 'new':
                mod = Model(s, sc)
                mod.locs = list(o['locs'])
                mod.ini = mod.session_ini(o['settings'])
                locs = [place(x) for x in o['locs']]
                st = make(o['settings'])
                act = lambda: plots.MCSampleAnalysis(locs[0] if o['one'] and len(locs) == 1 else locs, st)
            elif op == 'samples':
                st = mine(o['settings'])
                act = lambda: an.samples_for_root(o['name'], cache=o['cache'], **({'settings': st} if st is not None else {}))
                rec['want'] = mod.name(o['name'], o['settings'], o['cache'])
            elif op == 'density':
                dens = True
                act = lambda: (an.get_density(o['name'], 'aa'), an.samples_for_root(o['name']))
                rec['want'] = mod.name(o['name'])
            elif op == 'path':
                root = s.work + '/' + o['root']
                st = mine(o['settings'])
                act = lambda: an.samples_for_root(root, **({'settings': st} if st is not None else {}))
                rec['want'] = mod.load(root, o['root'], {}, None, o['settings'])
            elif op in ('add_root', 'info'):
                root = s.work + '/' + o['root']
                act = (lambda: an.add_root(root)) if op == 'add_root' else (lambda: an.add_root(plots.RootInfo(os.path.basename(root), os.path.dirname(root))))
                rec['want'] = mod.load(os.path.basename(root), o['root'], {}, None, None, other=True)
            elif op == 'reset':
                mod.loaded = {}
                mod.ini = mod.session_ini(o['settings'])
                mod.priority = o['priority']
                st = make(o['settings'])
                act = lambda: an.reset(st, chain_settings_have_priority=o['priority'])
            elif op == 'remove':
                mod.loaded.pop(o['name'], None)
                act = lambda: an.remove_root(o['name'])
            elif op == 'adddir':
                if o['loc'] not in mod.locs:
                    mod.locs.append(o['loc'])
                act = lambda: an.add_chain_dir(place(o['loc']))
            elif op == 'grow':
                grow(s, o['root'], sc['chains'][o['root']])
            elif op == 'again':
                # everything loaded so far is still there
                for key in sorted(mod.loaded):
                    r2 = dict(rec, want=mod.loaded[key], exp='samples', o=dict(op='again', name=key))
                    p.log.append(r2)
                    try:
                        r2['got'] = view(an.samples_for_root(key))
                        r2['root'] = an.samples_for_root(key).root
                    except Exception as e:
                        r2['err'] = '%s: %s' % (type(e).__name__, e)
            elif op == 'inplace':
                pass
            if rec['want'] is not None:
                rec['exp'] = 'samples'
        except Maybe as e:
            rec['exp'] = 'maybe'
            rec['maybe'] = e.spec
        except Missing:
            rec['exp'] = 'missing'
        if act is None:
            continue
        before = dict(mod.loaded)
        try:
            r = act()
            if op == 'new':
                an = r
            elif op not in ('reset', 'remove', 'adddir'):
                if dens:
                    rec['density'] = density_of(r[0])
                    r = r[1]
                rec['got'] = view(r)
                rec['root'] = r.root
        except Exception as e:
            import traceback
            rec['err'] = '%s: %s' % (type(e).__name__, e)
            rec['tb'] = traceback.format_exc()[-600:]
        rec['faulted'] = len(p.fired_here()) > rec['f0']
        if rec['exp'] == 'maybe':
            # whichever it is, the session goes on from there
            if rec['err'] is None and rec['maybe']:
                rec['want'] = mod.load(*rec['maybe'], cache=False)
                rec['exp'] = 'samples'
            elif rec['err'] is None:
                rec['exp'] = 'missing'
            else:
                continue
        if rec['err'] is not None and rec['want'] is not None:
            # not loaded: what was there before stays
            key = {'path': s.work + '/' + o.get('root', ''), 'add_root': os.path.basename(o.get('root', '')), 'info': os.path.basename(o.get('root', ''))}.get(op, o.get('name'))
            mod.loaded.pop(key, None)
            an.remove_root(key)
        if rec['err'] is not None and (op in ('new', 'reset', 'adddir')):
            return
        for d, was in given:
            if was is not None and (d if isinstance(d, dict) else d.params) != was:
                rec['changed'] = (was, dict(d) if isinstance(d, dict) else dict(d.params))
                return


def oracle(s, sc, specs):
    """Each load done afresh from a copy of the files, in a process that has done nothing else."""
    import getdist
    from getdist import loadMCSamples
    from getdist.inifile import IniFile
    out = []
    for k, sp in enumerate(specs):
        base = '%s/oracle/o%d/%s' % (s.root, k, os.path.basename(sp['root']))
        for e, t in list(sp['files'].items()) + list(aux(sc['chains'][sp['root']]).items()):
            s.write(base + e, t)
        ini = IniFile(getdist.default_getdist_settings) if sp['ini']['default'] else IniFile()
        ini.params.update(sp['ini']['vals'])

        burnt = 'burn_removed' in (sc['chains'][sp['root']]['props'] or '')

        class Item:
            batchPath = ''
            isImportanceJob = sp['imp']
            chainRoot = base
            isBurnRemoved = lambda self: burnt

        try:
            m = loadMCSamples(base, ini, Item() if sp['item'] else None, no_cache=True, settings=sp['over'])
            v = view(m)
            if len(sp['files']) == 1:  # (with several files it depends slightly on their order in the directory)
                try:
                    v['density'] = density_of(m.get1DDensityGridData('aa'))
                except Exception as e:
                    v['no density'] = '%s: %s' % (type(e).__name__, e)  # too few samples for one
            out.append(v)
        except Exception as e:
            import traceback
            out.append('%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-500:]))
    return out


def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res, max_steps=60000) as s:
        w = s.world
        for root, c in sc['chains'].items():
            put_chain(s, root, c)
        for d, st in sc['inis'].items():
            os.makedirs(s.work + '/' + d, exist_ok=True)
            if st:
                s.write('%s/%s/getdist.ini' % (s.work, d), ''.join('%s = %s\n' % kv for kv in st.items()))
        ps = []
        for k, ops in enumerate(sc['sessions']):
            p = w.spawn('ses%d' % k, session, s, sc, ops, k)
            p.fault_ok = True
            p.log = []
            p.fired_here = lambda p=p: [x for x in choices.fired if x.startswith(p.name + ':')]
            ps.append(p)
        w.run(lambda: all(p.finished for p in ps))
        if w.limit_hit:
            res.violate('no-end', 'the session did not end')
            return
        killed = [p for p in ps if (p.status == -9)]
        if killed and 'grow' not in {o['op'] for ops in sc['sessions'] for o in ops}:
            # a new session after the kill, on whatever that left
            k = ps.index(killed[0])
            p = w.spawn('next', session, s, sc, sc['sessions'][k], 7)
            p.fault_ok = False
            p.log = []
            p.fired_here = lambda: []
            w.run(lambda: p.finished)
            ps.append(p)
            res.note('sessions after a kill')
        for p in ps:
            if p.status and not (p.status == -9):
                raise AssertionError('harness: ' + p.stderr)
        recs = [(p, r) for p in ps for r in p.log if r['exp'] == 'samples']
        specs = []
        for _, r in recs:
            if r['want'] not in specs:
                specs.append(r['want'])
        for p in ps:
            p.fault_ok = False
        want, bad = s.call(oracle, s, sc, specs)
        if bad:
            raise AssertionError('harness: ' + bad.stderr)
        for p in ps:
            for r in p.log:
                judge(s, sc, p, r, specs, want, res)
                if res.violations:
                    return
        res.nontrivial = bool(recs)
        res.state = repr([[(r['o']['op'], r['err'], str(r['got'])[:300]) for r in p.log] for p in ps])


def judge(s, sc, p, r, specs, want, res):
    o = r['o']
    what = '%s (operation %d of %s)' % ({k: v for k, v in o.items() if v is not None}, r['k'], p.name)
    if r.get('changed'):
        res.violate('settings-changed', '%s changed the settings object of the caller: %s became %s' % ((what,) + r['changed']))
        return
    if r['err'] and r.get('faulted'):
        res.note('failed by a fault')
        return
    if r['exp'] == 'missing':
        if not r['err'] and not (p.status == -9) and r['got'] is not None:
            res.violate('made-up', '%s gave samples of %s, though there is no such run' % (what, r.get('root')))
        res.note('missing')
        return
    if r['exp'] != 'samples':
        if r['err'] and r['exp'] == 'none':
            res.violate('session-fails', '%s failed: %s' % (what, r['err'] + r.get('tb', '')))
        return
    ref = want[specs.index(r['want'])]
    if r['got'] is None and r['err'] is None:
        return  # killed in the middle
    if isinstance(ref, str):
        if not r['err']:
            res.violate('error-lost', '%s gave samples; loading %s afresh fails: %s' % (what, r['want']['root'], ref))
        return
    if r['err'] and o['op'] == 'density' and 'density' not in ref:
        return
    if r['err']:
        res.violate('load-fails', '%s failed: %s; it is %s' % (what, r['err'], r['want']['root']))
        return
    if os.path.normpath(os.path.join(s.work, r['root'])) != s.work + '/' + r['want']['root']:
        res.violate('wrong-run', '%s gave the samples of %s instead of %s' % (what, r['root'], r['want']['root']))
        return
    got = dict(r['got'])
    if 'density' in r and 'density' in ref:
        got['density'] = r['density']
    d = difference({k: ref[k] for k in got}, got)
    if d:
        res.violate('wrong-samples', '%s, from %s with settings %s and %s of its place: %s' % (
            what, r['want']['root'], r['want']['ini'], {k: v for k, v in r['want']['over'].items() if k in dict(SET)}, d))
        return
    res.note('loads checked')
    if 'density' in r:
        res.note('densities checked')


def faults(rng, sc, base, tier):
    pts = [x for x in base.points if x[0].startswith('ses')]
    plans = []
    rd = [x for x in pts if x[2] in ('open-r', 'read') and (x[3].endswith('.txt') or x[3].endswith('.paramnames') or 'mcsamples' in x[3] or x[3].endswith('.ini'))]
    wr = [x for x in pts if x[2] in ('open-w', 'write', 'rename') and 'cache' in x[3]]
    for n, st, k, rel in rng.sample(rd, min(len(rd), 1 if tier == 'quick' else 4)):
        plans.append({'%s:%d' % (n, st): dict(kind='eio')})
    for n, st, k, rel in rng.sample(wr, min(len(wr), 1 if tier == 'quick' else 4)):
        plans.append({'%s:%d' % (n, st): dict(kind=rng.choice(['enospc', 'eio'] if k != 'rename' else ['eio']))})
    for n, st, k, rel in rng.sample(wr or pts, min(len(wr or pts), 1 if tier == 'quick' else 4)):
        plans.append({'%s:%d' % (n, st): dict(kind='crash')})
    return plans


def shrink(sc):
    if len(sc['sessions']) > 1:
        for k in range(len(sc['sessions'])):
            yield dict(sc, sessions=sc['sessions'][:k] + sc['sessions'][k + 1:])
    if sc['rel']:
        yield dict(sc, rel=False)
    for q, ops in enumerate(sc['sessions']):
        for k in range(len(ops) - 1, 0, -1):
            yield dict(sc, sessions=sc['sessions'][:q] + [ops[:k] + ops[k + 1:]] + sc['sessions'][q + 1:])
        for k, o in enumerate(ops):
            if o.get('settings'):
                yield dict(sc, sessions=sc['sessions'][:q] + [ops[:k] + [dict(o, settings=None)] + ops[k + 1:]] + sc['sessions'][q + 1:])
            if len(o.get('locs', [])) > 1:
                for j in range(len(o['locs'])):
                    yield dict(sc, sessions=sc['sessions'][:q] + [ops[:k] + [dict(o, locs=o['locs'][:j] + o['locs'][j + 1:])] + ops[k + 1:]] + sc['sessions'][q + 1:])
    used = {o.get('root') for ops in sc['sessions'] for o in ops}
    for c in sc['chains']:
        if c not in used:
            yield dict(sc, chains={k: v for k, v in sc['chains'].items() if k != c})
    for d in sc['inis']:
        if sc['inis'][d]:
            yield dict(sc, inis=dict(sc['inis'], **{d: None}))
