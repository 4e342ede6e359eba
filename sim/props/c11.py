"""C11: the stored grid description never misleads later commands."""
import sys

from .c10 import runs_of, text_of, gen_settings
from .grid_common import *

DIRS = ['ga', 'gb', 'deep/ga']
DAMAGE = ['remove', 'empty', 'cut', 'garbage', 'unreadable', 'nocache', 'olddata']


def gen(rng):
    S = gen_settings(rng)
    for k in ('covs', 'covmat', 'covNameMappings', 'covrenames', 'covWithoutNameOrder', 'fallback', 'start_at_bestfit', 'override_defaults', 'newCovmats',
              'params', 'param_extra_opts', 'filters'):
        S.pop(k, None)
    S['covs'] = []
    for g in S['groups']:
        for i in g['importance']:
            if i['kind'] == 'filter':  # (the stored description would depend on the settings module)
                i['kind'] = 'class'
    return S


def generate(rng, tier, i):
    n = rng.choice([1, 2, 2, 3])
    same = rng.random() < 0.7
    grids = [dict(dir=DIRS[k], name='gridset' if same or k == 0 else 'set%d' % k, versions=[gen(rng) for _ in range(2)]) for k in range(n)]
    ops = [dict(op='mk', g=k, v=0) for k in range(n)] + [dict(op='chains', g=k, seed=rng.randrange(1 << 20)) for k in range(n)]
    if rng.random() < 0.15:
        ops = ops[:rng.randrange(len(ops) + 1)]

    def one(inner=False):
        r = rng.random()
        g = rng.randrange(n)
        if r < 0.3 and not inner:
            how = rng.choice(DAMAGE)
            return dict(op='damage', g=g, how=how, frac=round(rng.random(), 3))
        if r < 0.4:
            return dict(op='mk', g=g, v=rng.randrange(2))
        if r < 0.5 and n > 1:
            return dict(op='add', g=g, sub=rng.choice([k for k in range(n) if k != g]))
        if r < 0.6 and not inner:
            return dict(op='chains', g=g, seed=rng.randrange(1 << 20))
        if r < 0.75:
            return dict(op='list', gs=[g], script=True, style=rng.randrange(4))
        gs = list(range(n))
        rng.shuffle(gs)
        return dict(op='list', gs=gs[:rng.randint(1, n)], script=False, style=rng.randrange(4))

    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.25:
            sub, used = [], set()
            for o in [one(True) for _ in range(rng.choice([2, 2, 3]))]:
                if o['op'] in ('mk', 'add'):
                    if o['g'] in used or o['op'] == 'add':
                        continue
                    used.add(o['g'])
                sub.append(o)
            ops.append(dict(op='par', ops=sub))
        else:
            ops.append(one())
    vict = [k for k, o in enumerate(ops) if o['op'] in ('mk', 'add', 'list')]
    if vict and rng.random() < 0.6:
        k = rng.choice(vict)
        extra = []
        if rng.random() < 0.6:
            extra.append(dict(op='damage', g=rng.randrange(n), how=rng.choice(DAMAGE), frac=round(rng.random(), 3)))
        extra.append(dict(op='list', gs=list(range(n)), script=False, style=0))
        ops[k + 1:k + 1] = extra
    else:
        k = rng.choice(vict) if vict else None
    ops.append(dict(op='list', gs=list(range(n)), script=False, style=0))
    return dict(grids=grids, ops=ops, victim=k, dirseed=rng.randrange(1 << 20), flavour=None)


def path_arg(s, g, style):
    d = g['dir']
    return [d, s.work + '/' + d, './' + d + '/', s.work + '/../work/' + d][style]


def top(x):
    while x['parent'] is not None:
        x = x['parent']
    return x


class State:
    """What is on disk for one grid, as far as commands may legitimately see it."""

    def __init__(self, grid):
        self.grid = grid
        self.desc = {None}  # possible stored descriptions: tuples of (name, root), or None: missing or unusable
        self.conf = {None}  # possible settings versions in config/
        self.chains = set()
        self.stale = set()  # what a rebuild that overlapped a makeGrid may store over the new description (known finding)

    def runs(self, v):
        return tuple(sorted((x['name'], x['root']) for x in runs_of(self.versions[v], self.grid)))

    def rebuilt(self, v):
        return tuple(sorted((x['name'], x['root']) for x in runs_of(self.versions[v], self.grid) if top(x)['root'] in self.chains))

    def readable(self):
        """Outcomes a reader may get: run lists, and 'error'."""
        out = {d for d in self.desc if d is not None}
        if None in self.desc:
            out.add('error')
            out |= {self.rebuilt(c) for c in self.conf if c is not None}
        return out


def execute(sc, choices, tag, res):
    with Site(tag, choices, flavour=None, scenario=sc, max_steps=60000) as s:
        res.worlds.append(s.world)
        w = s.world
        sts = []
        for g in sc['grids']:
            st = State(s.work + '/' + g['dir'])
            st.versions = g['versions']
            sts.append(st)
        os.makedirs(s.work + '/deep', exist_ok=True)
        n = [0]

        def start(o, faults=False):
            n[0] += 1
            nm = '%s%s%d' % ('v-' if faults else '', o['op'], n[0])
            if o['op'] == 'mk':
                g = sc['grids'][o['g']]
                sdir = '%s/settings%d_%d' % (s.root, o['g'], o['v'])
                s.write('%s/%s.py' % (sdir, g['name']), text_of(g['versions'][o['v']], s.root + '/covs', s.work + '/' + g['dir']))
                p = w.script(nm, 'makeGrid.py', [g['dir'], g['name']], setup=lambda: sys.path.insert(0, sdir))
            elif o['op'] == 'add':
                p = w.script(nm, 'addGridBatch.py', [sc['grids'][o['g']]['dir'], sc['grids'][o['sub']]['dir']])
            elif o['script']:
                p = w.script(nm, 'listGrid.py', [path_arg(s, sc['grids'][o['gs'][0]], o['style'])])
            else:
                dirs = [path_arg(s, sc['grids'][k], (o['style'] + j) % 4) for j, k in enumerate(o['gs'])]
                p = w.spawn(nm, read_many, dirs)
            p.fault_ok = faults
            p.tag = o
            return p

        def seen(p):
            """{grid number: outcome} of a listing process (names only for the listing command)"""
            o = p.tag
            if o['script']:
                if p.status == -9:
                    return {}
                if p.status:
                    return {o['gs'][0]: 'error'}
                return {o['gs'][0]: tuple(sorted(l.split(' ')[0] for l in p.stdout.split('\n') if l.startswith('base')))}
            if p.status:
                return {}
            out = {}
            for k, (a, b) in zip(o['gs'], p.result):
                if a != b:
                    res.violate('mixed', 'grid %s listed %s when loaded and %s after other grids were loaded' % (sc['grids'][k]['dir'], short(a), short(b)))
                out[k] = a if isinstance(a, str) else tuple(sorted(map(tuple, a)))
            return out

        def judge(p, allowed, why):
            for k, got in seen(p).items():
                ok = allowed[k]
                if p.tag['script']:
                    ok = {x if isinstance(x, str) else tuple(sorted(y[0] for y in x)) for x in ok}
                if got not in ok and got in {tuple(sorted(y[0] for y in x)) if p.tag['script'] else x for x in sts[k].stale}:
                    res.violate('stale-rebuild', '%s on %s gives %s: a description rebuilt from the earlier settings replaced the one makeGrid stored meanwhile' % (
                        p.name, w.rel(sts[k].grid), short(got)))
                    return False
                if got not in ok:
                    others = [sts[j].grid for j in range(len(sts)) if j != k and not isinstance(got, str) and got and
                              any(got == sts[j].runs(v) or got == sts[j].rebuilt(v) for v in (0, 1))]
                    sig = 'error' if got == 'error' else 'other-grid' if others or any(isinstance(x, tuple) and not x[1].startswith(sts[k].grid) for x in got) else 'wrong-list'
                    res.violate(sig, '%s on %s gives %s; the grid on disk is %s (%s) %s' % (p.name, w.rel(sts[k].grid), short(got), ' or '.join(short(x) for x in sorted(ok, key=repr)),
                                                                                           why, p.stderr[-300:]))
                    return False
                res.note('lists')
                if got not in ('error',) and None in sts[k].desc:
                    res.note('rebuilt')
            return not res.violations

        for k, o in enumerate(sc['ops']):
            victim = k == sc['victim']
            if o['op'] == 'chains':
                import random as _r
                rr = _r.Random(o['seed'])
                st = sts[o['g']]
                for v in (0, 1):
                    for x in runs_of(st.versions[v], st.grid):
                        if x['parent'] is None and rr.random() < 0.4:
                            s.write(x['root'] + '_1.txt', '1 2 3\n')
                            st.chains.add(x['root'])
                        elif x['parent'] is None and x['root'] not in st.chains and rr.random() < 0.1:
                            s.write(x['root'] + '_1.txt', '')
                        elif x['parent'] is None and rr.random() < 0.15:  # prepared, or only minimized
                            for suf in rr.sample(['.paramnames', '.minimum', '.log', '_2.txt', '.covmat', '_1.chk'], 3):
                                s.write(x['root'] + suf, 'a\tb\n')
                continue
            if o['op'] == 'damage':
                damage(s, sts, o, sc)
                res.note('damage')
                continue
            group = o['ops'] if o['op'] == 'par' else [o]
            fired0 = dict(w.faults_fired)
            allowed = {j: sts[j].readable() for j in range(len(sts))}
            before = {j: (set(sts[j].desc), set(sts[j].conf)) for j in range(len(sts))}
            # what the commands of this step will have written
            if o['op'] == 'par':
                for q in group:
                    st = sts[q['g']] if q['op'] == 'mk' else None
                    if st:
                        if None in st.desc:
                            st.stale |= {st.rebuilt(c) for c in st.conf - {None}}
                        st.conf.add(q['v'])
                        for c in st.conf - {None}:
                            if None in st.desc:
                                allowed[q['g']].add(st.rebuilt(c))
                        st.desc.add(st.runs(q['v']))
                        allowed[q['g']].add(st.runs(q['v']))
            if o['op'] == 'add':
                for j in (o['g'], o['sub']):  # fix which description they start from
                    p = start(dict(op='list', gs=[j], script=False, style=0))
                    w.run(lambda: p.finished)
                    if not judge(p, {j: sts[j].readable()}, 'before addGridBatch'):
                        return
                    got = seen(p)[j]
                    if got != 'error':
                        sts[j].desc = {got}
                a, b = [list(sts[j].desc)[0] if len(sts[j].desc) == 1 else None for j in (o['g'], o['sub'])]
            ps = [start(q, victim) for q in group]
            w.run(lambda: all(p.finished for p in ps))
            if w.limit_hit:
                res.violate('no-end', 'commands did not end')
                return
            fired = {x: v - fired0.get(x, 0) for x, v in w.faults_fired.items() if v != fired0.get(x, 0)}
            why = 'faults %s' % fired if fired else 'concurrent' if len(ps) > 1 else 'no fault'
            for p in ps:
                q = p.tag
                if q['op'] == 'list':
                    al = allowed
                    if fired:
                        al = {j: {'error'} | {y for y in x} | {sts[j].rebuilt(c) for c in sts[j].conf - {None}} for j, x in allowed.items()}
                    if not judge(p, al, why):
                        return
                    for j, got in seen(p).items():
                        st = sts[j]
                        if len(ps) > 1 or fired:
                            st.desc |= {st.rebuilt(c) for c in st.conf - {None}} | {None} if None in st.desc or fired else set()
                        elif got != 'error' and not q['script']:
                            st.desc = {got}
                        elif got != 'error' and q['script']:
                            st.desc = {d for d in st.readable() if d != 'error' and tuple(sorted(y[0] for y in d)) == got}
                elif q['op'] == 'mk':
                    st = sts[q['g']]
                    if p.status and not fired and len(ps) == 1:
                        res.violate('command-fails', 'makeGrid failed: ' + p.stderr[-400:])
                        return
                    if p.status == 0 and len(ps) == 1 and not fired:
                        st.desc, st.conf = {st.runs(q['v'])}, {q['v']}
                    else:
                        st.desc.add(st.runs(q['v']))
                        st.conf.add(q['v'])
                        if p.status == 0:
                            st.conf = {q['v']}
                        elif len(ps) > 1 and not fired:
                            if None not in before[q['g']][0]:
                                res.violate('command-fails', 'makeGrid failed beside other commands: ' + p.stderr[-400:])
                                return
                        if fired and any(f in fired for f in ('eio', 'eacces', 'enospc')):
                            st.desc |= {None} | {st.rebuilt(c) for c in st.conf - {None}}
                elif q['op'] == 'add':
                    st, sub = sts[q['g']], sts[q['sub']]
                    if fired:
                        for x in (st, sub):
                            x.desc |= {None} | {x.rebuilt(c) for c in x.conf - {None}}
                        A = [d for d in st.desc if d is not None]
                        B = [d for d in sub.desc if d is not None]
                        st.desc |= {combine(x, y) for x in A for y in B}
                        continue
                    if p.status:
                        if a is not None and b is not None:
                            res.violate('command-fails', 'addGridBatch failed: ' + p.stderr[-400:])
                            return
                        continue
                    if a is None or b is None:
                        st.desc |= {combine(x, y) for x in st.desc if x is not None for y in sub.desc if y is not None}
                    else:
                        st.desc = {combine(a, b)}
                        res.note('added')
        res.note('ops', len(sc['ops']))
        res.nontrivial = True
        res.state = repr([sorted(map(repr, st.desc)) for st in sts])


def combine(a, b):
    both = list(a) + list(b)
    full = {x[0] for x in both if '_post_' not in x[0]}
    return tuple(sorted(x for x in both if '_post_' not in x[0] or x[0].replace('_post', '') not in full))


def short(x):
    if isinstance(x, str):
        return x
    return str([y if isinstance(y, str) else y[0] for y in x])


def read_many(dirs):
    from paramgrid import batchjob
    loaded, first = [], []
    for d in dirs:
        try:
            b = batchjob.readobject(d)
        except Exception as e:
            b = None
            sys.stderr.write('%s: %r\n' % (d, e))
        loaded.append(b)
        first.append(listed(b))
    return [(a, listed(b)) for a, b in zip(first, loaded)]


def listed(b):
    return 'error' if b is None else [[i.name, i.chainRoot] for i in b.items(wantImportance=True)]


def damage(s, sts, o, sc):
    import glob
    import hashlib
    cache = s.root + '/cache/getdist_cache'
    if o['how'] == 'nocache':
        for f in glob.glob(cache + '/*'):
            os.remove(f)
        for st in sts:
            st.desc = {None}
        return
    st = sts[o['g']]
    # find the stored description by what it stores, not by its name
    for f in sorted(glob.glob(cache + '/*') + glob.glob(st.grid + '/*.pyobj')):
        mode = os.stat(f).st_mode & 0o777
        os.chmod(f, 0o644)
        with R.open(f, 'rb') as fh:
            data = fh.read()
        os.chmod(f, mode)
        if (st.grid + '/').encode() in data and not any((x.grid + '/').encode() in data for x in sts if x is not st and x.grid != st.grid) or \
                hashlib.md5(st.grid.encode()).hexdigest()[:10] in f:
            os.chmod(f, 0o644)
            if o['how'] == 'remove':
                os.remove(f)
            elif o['how'] == 'unreadable':
                os.chmod(f, 0)
                if os.access(f, os.R_OK):
                    with R.open(f, 'wb'):
                        pass
            else:
                cut = int(o['frac'] * max(0, len(data) - 1))
                new = dict(empty=b'', cut=data[:cut], garbage=b'\x80\x04garbage' + data[20:], olddata=b'(dp0\nVold\np1\nI1\ns.')[o['how']]
                with R.open(f, 'wb') as fh:
                    fh.write(new)
    st.desc = {None}


def faults(rng, sc, base, tier):
    if sc['victim'] is None:
        return []
    o = sc['ops'][sc['victim']]
    pts = [x for x in base.points if x[0].startswith('v-') and not x[3].startswith('settings')]
    k = 4 if tier == 'quick' else 25
    plans = write_faults(rng, pts, k, reads=True, crash=True)
    rd = [x for x in pts if x[2] in ('read', 'open-r') and x[3].startswith('cache')]
    for nm, st, kind, rel in rng.sample(rd, min(2, len(rd))):
        plans.append({'%s:%d' % (nm, st): dict(kind=rng.choice(['eio', 'eacces'] if kind == 'open-r' else ['eio']))})
    cf = [x for x in pts if x[2] == 'write' and '/config/' in x[3]]
    for nm, st, kind, rel in cf:
        for _ in range(2):
            plans.append({'%s:%d' % (nm, st): dict(kind='torn', frac=round(rng.random(), 2))})
        if o['op'] == 'mk' and rel.endswith('.py'):  # cut between two statements
            text = text_of(sc['grids'][o['g']]['versions'][o['v']], base.worlds[0].root + '/covs', base.worlds[0].root + '/work/' + sc['grids'][o['g']]['dir'])
            ends = [j + 1 for j, c in enumerate(text) if c == '\n' and j > len(text) // 3]
            plans.append({'%s:%d' % (nm, st): dict(kind='torn', frac=(rng.choice(ends) + 0.5) / len(text))})
    return plans


def shrink(sc):
    ops = sc['ops']
    for j in range(len(ops)):
        if j != sc['victim']:
            v = sc['victim']
            yield dict(sc, ops=ops[:j] + ops[j + 1:], victim=None if v is None else v - (j < v))
    for j, o in enumerate(ops):
        if o['op'] == 'par':
            for e in range(len(o['ops'])):
                if len(o['ops']) > 1:
                    yield dict(sc, ops=ops[:j] + [dict(o, ops=o['ops'][:e] + o['ops'][e + 1:])] + ops[j + 1:])
        if o['op'] == 'list' and len(o['gs']) > 1:
            for e in range(len(o['gs'])):
                yield dict(sc, ops=ops[:j] + [dict(o, gs=o['gs'][:e] + o['gs'][e + 1:])] + ops[j + 1:])
    for gi, g in enumerate(sc['grids']):
        for v, S in enumerate(g['versions']):
            def put(S2):
                vs = list(g['versions'])
                vs[v] = S2
                return dict(sc, grids=sc['grids'][:gi] + [dict(g, versions=vs)] + sc['grids'][gi + 1:])
            for k in list(S):
                if k not in ('groups', 'defaults', 'importanceDefaults', 'covs'):
                    yield put({a: b for a, b in S.items() if a != k})
            for i2, gg in enumerate(S['groups']):
                if len(S['groups']) > 1:
                    yield put(dict(S, groups=S['groups'][:i2] + S['groups'][i2 + 1:]))
                for k in ('params', 'datasets', 'importance'):
                    for e in range(len(gg[k])):
                        if len(gg[k]) > (k != 'importance'):
                            yield put(dict(S, groups=S['groups'][:i2] + [dict(gg, **{k: gg[k][:e] + gg[k][e + 1:]})] + S['groups'][i2 + 1:]))
