"""C09: reading chains that are still being written yields only complete rows."""
import os
import re

from ..core import R, cur
from ..site import Site
from .samples_common import *

P_SWITCH = [0.05, 0.15, 0.35]


def generate(rng, tier, i):
    big = rng.random() < 0.35
    nch = rng.choice([1, 1, 2, 2, 3, 4])
    chains = []
    ign = rng.choice([0, 0, 0.3, 0.3, 0.5, 1, 3])
    nohead = ign < 1  # (a header counts among the lines to leave out)
    for k in range(nch):
        n = rng.choice([30, 40, 60]) if big or rng.random() < 0.3 else rng.choice([3, 6, 12, 25])
        if nch > 1 and rng.random() < 0.35:
            n = rng.choice([0, 1, 2])  # just started
        chains.append(dict(n=n, cut=round(rng.random(), 3) if rng.random() < 0.6 else 0, grow=rng.choice([0, 2, 5, 9]), head=rng.random() < 0.1 and nohead,
                           flush=rng.choice([7, 30, 48, 80, 96, 500]), nap=rng.choice([0, 0.01, 0.05]), resume=rng.choice([None] * 12 + ['join', 'newline'])))
    mode = rng.choice(['load', 'load', 'cached', 'command', 'command'])
    return dict(chains=chains, mode=mode, ignore=ign, cli=rng.random() < 0.3, props=rng.choice([None] * 5 + ['burn_removed = T\n', 'ignore_rows = 0.2\n']),
                seed=rng.randrange(1 << 30), dirseed=rng.randrange(1 << 20), fixed=rng.random() < 0.4, fmt=rng.choice(['fortran', 'fortran', 'short']), loads=rng.choice([1, 1, 2]),
                nan=rng.random() < 0.05, tests=rng.random() < 0.3, wait=rng.choice([0, 0.02, 0.1]),
                root=rng.choice(['ch', 'ch', 'ch.b', 'a+b', 'c(1)', 'ch_2x']), decoys=rng.random() < 0.4, near=rng.random() < 0.3)


def near(sc):
    return bool(sc.get('near')) and not sc['fixed'] and sc['fmt'] == 'fortran'


def rname(sc):
    return sc.get('root', 'ch')


def decoys(s, sc):
    """Other files beside the chains whose names are similar."""
    r = rname(sc)
    bad = ''.join(' 1.0 9999999.0 1.0 2.0 3.0 4.0\n' for _ in range(8))
    for n in ('%s_1.txt.bak', '%s_2.txt~', 'x%s_1.txt', '%s_a_1.txt', '%s_x.txt', '%s_1_2.txt', '%s_1_txt', '%s_post_1.txt', '%s_1.txt_old'):
        s.write('work/' + n % r, bad)
    alt = {'ch.b': 'chxb', 'a+b': 'aab', 'c(1)': 'c1'}.get(r)
    if alt:
        s.write('work/%s_1.txt' % alt, bad)
        s.write('work/%s_2.txt' % alt, bad)


class Chain:
    def __init__(self, s, sc, k, rng):
        c = sc['chains'][k]
        self.path = '%s/work/%s_%d.txt' % (s.root, rname(sc), k + 1)
        self.c = c
        n = c['n'] + c['grow']
        rows = make_rows(rng, n, 4)
        for j, r in enumerate(rows):
            r[1] = 10 + k * 1000 + j + rng.random() * 0.5  # tells the rows apart
            if sc['fixed']:
                r[5] = 2.5
            elif near(sc):
                r[5] = 2.5 + 1e-6 * (j % 3)
            if sc['nan'] and rng.random() < 0.3:
                r[4] = float('nan')
        f = (lambda v: '%16.7E' % v) if sc['fmt'] == 'fortran' else (lambda v: ' %.4g' % v)
        self.lines = [''.join(f(v) for v in r) + '\n' for r in rows]
        self.rows = [[float(x) for x in line.split()] for line in self.lines]
        head = '#        weight    minuslogpost    aa bb cc dd\n' if c['head'] else ''
        done = head + ''.join(self.lines[:c['n']])
        rest = ''.join(self.lines[c['n']:])
        cut = int(c['cut'] * len(self.lines[c['n']])) if c['grow'] else 0
        self.torn = False
        if c['resume'] and c['grow'] >= 2 and cut > 1 and rest[:cut].strip() and len(rest[:cut].split()) < 6:
            # killed in the middle of a row and continued later
            self.torn = True
            nl = '' if c['resume'] == 'join' else '\n'
            text, rest = done + rest[:cut] + nl, ''.join(self.lines[c['n'] + 1:])
        else:
            text, rest = done + rest[:cut], rest[cut:]
        self.head = head
        self.text, self.rest = text, rest
        s.write(self.path, text, t=s.world.now - 100)

    def complete(self):
        with R.open(self.path) as f:
            return max(0, f.read().count('\n') - self.head.count('\n'))

    def sampler(self):
        import time
        rest = self.rest
        f = open(self.path, 'ab', buffering=0)
        while rest:
            k = self.c['flush']
            rest = rest[f.write(rest[:k].encode()):]
            if self.c['nap']:
                time.sleep(self.c['nap'])
        f.close()


def load(s, sc, cached, wait):
    import time
    import getdist
    from getdist import loadMCSamples
    from getdist.mcsamples import MCSamples
    if wait:
        time.sleep(wait)
    p = cur()
    p.before = [c.complete() for c in s.chains]
    root = s.work + '/' + rname(sc)
    m = loadMCSamples(root, settings={'ignore_rows': sc['ignore']}, no_cache=not cached)
    p.after = [c.complete() for c in s.chains]
    import numpy as np
    return np.c_[m.weights, m.loglikes, m.samples].tolist(), [x.name for x in m.paramNames.names]


def command(s, sc, wait, k):
    import time
    from getdist.command_line import getdist_command
    if wait:
        time.sleep(wait)
    p = cur()
    p.before = [c.complete() for c in s.chains]
    ini = s.work + '/an%d.ini' % k
    args = [ini, s.work + '/' + rname(sc)]
    if sc['cli']:
        args += ['--ignore_rows', str(sc['ignore'])]
    getdist_command(args)
    p.after = [c.complete() for c in s.chains]


def execute(sc, choices, tag, res):
    import random
    with Site(tag, choices, flavour=None, scenario=sc, max_steps=30000) as s:
        res.worlds.append(s.world)
        w = s.world
        rng = random.Random(sc['seed'])
        s.chains = [Chain(s, sc, k, rng) for k in range(len(sc['chains']))]
        s.write('work/%s.paramnames' % rname(sc), 'aa\ta\nbb\tb\ncc\tc\ndd*\td\n', t=w.now - 200)
        if sc['props']:
            s.write('work/%s.properties.ini' % rname(sc), sc['props'], t=w.now - 200)
        if sc.get('decoys'):
            decoys(s, sc)
        for k in range(sc['loads']):
            s.write('work/an%d.ini' % k, 'out_dir = %s/out%d/\nno_plots = T\nno_tests = %s\n' % (s.work, k, 'F' if sc['tests'] else 'T') + ('' if sc['cli'] else 'ignore_rows = %s\n' % sc['ignore']))
        ws = [w.spawn('sampler%d' % (k + 1), c.sampler) for k, c in enumerate(s.chains)]
        for p in ws:
            p.fault_ok = True
        for k in range(sc['loads']):
            if sc['mode'] == 'command':
                p = w.spawn('reader%d' % k, command, s, sc, sc['wait'], k)
            else:
                p = w.spawn('reader%d' % k, load, s, sc, sc['mode'] == 'cached', sc['wait'])
            p.fault_ok = True
            w.run(lambda: p.finished)
            if w.limit_hit or not p.finished:
                res.violate('no-end', 'reading did not end')
                return
            if not judge(s, sc, p, k, res, any(x.startswith('reader') for x in choices.fired)):
                return
        w.run(lambda: all(x.finished for x in w.procs))
        if w.escapes:
            res.violate('escape', str(w.escapes[:2]))
        res.nontrivial = True


def burn(n, ign):
    return min(n, int(ign)) if ign >= 1 else int(round(n * ign))


def judge(s, sc, p, k, res, faulted):
    ign = sc['ignore']
    props = sc['props'] or ''
    if sc['mode'] != 'command' or not sc['cli']:
        if 'burn_removed' in props:
            ign = 0
        elif 'ignore_rows' in props:
            ign = float(props.split('=')[1])
    lo = getattr(p, 'before', None)
    hi = getattr(p, 'after', None) or [c.complete() for c in s.chains]
    torn = [c.path for c in s.chains if c.torn]
    if p.status:
        if faulted:
            res.note('failed by a fault')
            return True
        n = sum(x - burn(x, ign) for x in lo)
        few = n < (25 if sc['mode'] == 'command' else 12) or (sc['mode'] == 'command' and sc['tests'] and min(x - burn(x, ign) for x in lo) < 20)
        if torn:
            res.note('torn row in the file reported')
            return True
        if few or sc['nan']:
            res.note('too few rows')
            return True
        res.violate('load-fails', 'reading chains with %s complete rows (%s unfinished) fails: %s' % (
            lo, [c.path[-8:] for c in s.chains if not R.open(c.path).read().endswith('\n')], p.stderr.strip().split('\n')[-1]))
        return False
    res.note('reads')
    if hi != lo:
        res.note('reads overlapping writes')
    if sc['mode'] == 'command':
        return judge_command(s, sc, p, k, res, lo, hi, ign)
    rows, names = p.result
    nrows = []
    for q, c in enumerate(s.chains):
        mine = [r for r in rows if q * 1000 + 10 <= r[1] < q * 1000 + 1010]
        nrows.append(mine)
    if sum(map(len, nrows)) != len(rows):
        bad = [r for r in rows if not any(q * 1000 + 10 <= r[1] < q * 1000 + 1010 for q in range(len(s.chains)))]
        res.violate('made-up', 'rows that nobody wrote: %s (torn: %s)' % (bad[:2], torn))
        return False
    keep = [j for j, n in enumerate(['aa', 'bb', 'cc', 'dd']) if n in names]
    for q, c in enumerate(s.chains):
        good = False
        have = [[x for x in r] for r in nrows[q]]
        for n in range(lo[q], hi[q] + 1):
            want = [r[:2] + [r[2 + j] for j in keep] for r in c.rows[burn(n, ign):n]]
            if len(want) == len(have) and all(same(a, b) for a, b in zip(want, have)):
                good = True
                break
        if c.torn:
            # every value that is reported as a row has to be one
            ok = all(any(same(r[:2] + [r[2 + j] for j in keep], h) for r in c.rows) for h in have)
            if not ok:
                res.violate('made-up', 'chain with a torn row gives %s' % [h for h in have if not any(same(r[:2] + [r[2 + j] for j in keep], h) for r in c.rows)][:2])
                return False
            # (a torn row can take the next one with it)
            if len(have) < lo[q] - burn(hi[q], ign) - 3:
                res.violate('rows-wrong', 'chain %d with a torn row had %d complete lines, burn-in %s, but gives %d rows without an error' % (q + 1, lo[q], ign, len(have)))
                return False
            continue
        if not good:
            res.violate('rows-wrong', 'chain %d had %d complete rows when the load started and %d when it ended, burn-in %s; loaded %d rows: first %s last %s; file rows there: %s' % (
                q + 1, lo[q], hi[q], ign, len(have), have[:1], have[-1:], c.rows[burn(hi[q], ign):hi[q]][-1:]))
            return False
    if sum(map(len, nrows)) >= 4 and not sc['nan'] and not torn:
        allr = [r for rr in s.chains for r in rr.rows]
        vary = [n for j, n in enumerate(['aa', 'bb', 'cc', 'dd']) if not (sc['fixed'] and j == 3)]
        few = near(sc) and max(map(len, nrows)) < 3  # nothing may vary in the last one
        if names != vary and not (few and names == vary[:3]):
            res.violate('parameters-lost', 'parameters %s, but %s vary in the loaded rows (%s rows per chain)' % (names, vary, [len(x) for x in nrows]))
            return False
    return True


def same(a, b):
    return len(a) == len(b) and all((x != x and y != y) or abs(x - y) <= 1e-9 * (1 + abs(x)) for x, y in zip(a, b))


def judge_command(s, sc, p, k, res, lo, hi, ign):
    """The statistics written are those of prefixes of the files."""
    import itertools
    import numpy as np
    if sc['nan']:
        return True
    path = '%s/out%d/%s.margestats' % (s.work, k, rname(sc))
    if not os.path.exists(path):
        res.violate('no-results', 'the analysis ended normally without results')
        return False
    got = {}
    for line in R.open(path).read().split('\n')[3:]:
        f = line.split()
        if len(f) > 3:
            got[f[0].rstrip('*')] = (float(f[1]), float(f[2]))
    if any(c.torn and c.c['n'] < ign for c in s.chains):
        res.note('torn row among the lines left out')
        return True
    if any(c.torn and a <= c.c['n'] < b for c, a, b in zip(s.chains, lo, hi)):
        return True
    if any(c.torn and a > c.c['n'] for c, a in zip(s.chains, lo)):
        res.violate('made-up', 'a chain with a torn row in it is analysed without an error: %s' % got)
        return False
    combos = 1
    for a, b in zip(lo, hi):
        combos *= b - a + 1
    if combos > 3000:
        return True
    for ns in itertools.product(*[range(a, b + 1) for a, b in zip(lo, hi)]):
        parts = [np.array(c.rows[burn(n, ign):n]).reshape(-1, 6) for c, n in zip(s.chains, ns)]
        a = np.vstack(parts)
        if not len(a):
            continue
        wt = a[:, 0]
        ok = True
        for j, nme in enumerate(['aa', 'bb', 'cc', 'dd']):
            x = a[:, 2 + j]
            if j == 3 and x.max() == x.min():
                if nme in got:
                    ok = False
                continue
            mean = wt.dot(x) / wt.sum()
            sd = np.sqrt(wt.dot((x - mean) ** 2) / wt.sum())
            if nme not in got or abs(got[nme][0] - mean) > 2e-6 * (abs(mean) + 1e-3) or abs(got[nme][1] - sd) > 2e-6 * (sd + 1e-3):
                ok = False
                break
        if ok:
            return True
    res.violate('statistics-wrong', 'chains had %s complete rows when the analysis started and %s when it ended, burn-in %s: statistics %s belong to no such rows' % (lo, hi, ign, got))
    return False


def faults(rng, sc, base, tier):
    plans = []
    pts = [x for x in base.points if x[0].startswith('sampler')]
    for n, st, kind, rel in rng.sample(pts, min(len(pts), 3)):
        k = rng.choice(['crash', 'crash', 'torn', 'short', 'stall'] if kind == 'write' else ['crash', 'stall'])
        f = dict(kind=k)
        if k in ('torn', 'short'):
            f['frac'] = round(rng.random(), 2)
        plans.append({'%s:%d' % (n, st): f})
    rd = [x for x in base.points if x[0].startswith('reader') and x[2] in ('read', 'open-r') and x[3].startswith('work/%s_' % rname(sc))]
    for n, st, kind, rel in rng.sample(rd, min(len(rd), 2)):
        k = rng.choice(['eio', 'short', 'short', 'stall'] if kind == 'read' else ['eio', 'eacces', 'stall'])
        plans.append({'%s:%d' % (n, st): dict(kind=k, frac=round(rng.random(), 2), s=0.1)})
    return plans


def shrink(sc):
    for k in range(len(sc['chains'])):
        if len(sc['chains']) > 1:
            yield dict(sc, chains=sc['chains'][:k] + sc['chains'][k + 1:])
    for k, c in enumerate(sc['chains']):
        for f, v in (('grow', 0), ('n', 3), ('n', 1), ('head', False), ('resume', None), ('nap', 0)):
            if c[f] != v:
                c2 = dict(c)
                c2[f] = v
                yield dict(sc, chains=sc['chains'][:k] + [c2] + sc['chains'][k + 1:])
    for f, v in (('props', None), ('ignore', 0), ('fixed', False), ('loads', 1), ('cli', False), ('tests', False), ('wait', 0), ('root', 'ch'), ('decoys', False), ('near', False)):
        if sc[f] != v:
            yield dict(sc, **{f: v})
