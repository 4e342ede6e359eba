"""C23: the commands that show single results give the asked values."""
import os
import random
import re

from ..core import R
from ..site import read_ini
from .jobs_common import *
from .grid_common import PNAMES, write_faults
from .c20 import padded, History, EMPTY, value_ok, marge_text, result

P_SWITCH = [0.05, 0.2, 0.4]
# parameters of a minimization as CosmoMC writes them: name, fixed, derived
BEST = [('omegabh2', 0, 0), ('omegach2', 0, 0), ('theta', 0, 0), ('tau', 0, 0), ('ns', 0, 0), ('logA', 0, 0), ('calPlanck', 0, 0), ('mnu', 1, 0), ('w', 1, 0), ('nnu', 1, 0),
        ('deltazrei', 1, 0), ('nrun', 1, 0), ('r', 1, 0), ('H0', 0, 1), ('omegam', 0, 1), ('omeganuh2', 0, 1), ('A', 0, 1), ('yheused', 0, 1)]
CAMB = {'ombh2': 'omegabh2', 'omch2': 'omegach2', 'omnuh2': 'omeganuh2', 'hubble': 'H0', 'w': 'w', 'helium_fraction': 'yheused', 'scalar_spectral_index(1)': 'ns', 'scalar_nrun(1)': 'nrun',
        'initial_ratio(1)': 'r', 're_optical_depth': 'tau', 're_delta_redshift': 'deltazrei'}


def preload():
    import getdist.types


# -- files -----------------------------------------------------------------------------------------------------------
def best(seed, vary):
    """Best-fit values: [(name, fixed, derived, text)] in file order of each block."""
    r = random.Random(seed)
    return [(n, bool(f) and n not in vary, bool(d), '%.7E' % (10.0 ** r.choice([-3, -1, 0, 1]) * r.uniform(1, 9) * (-1 if n in ('w', 'nrun') else 1))) for n, f, d in BEST]


def best_text(seed, vals):
    r = random.Random(seed)
    out = [' -log(Like) =    %.6f' % r.uniform(5, 900), '  chi-sq    =    %.6f' % r.uniform(5, 900), ' ']
    num = {v[0]: k + 1 for k, v in enumerate([v for v in vals if not v[2]] + [v for v in vals if v[2]])}
    for block in (0, 1, 2):
        for n, f, d, x in vals:
            if (block == 2) == d and (d or f == (block == 1)):
                out.append('%5d %14s   %-22s%s' % (num[n], x, n, 'L_{%s}' % n))
        out.append(' ')
    out += [' -log(Like)     chi-sq   data', '   1.234   2.468   CMB: plik = TT', '   1.234   2.468   prior: cal']
    return '\n'.join(out) + '\n'


def row(base, k, npar):
    return '%16.7E%16.7E' % (1 + k % 3, 500 + k) + ''.join('%16.7E' % (base + 20 * j + 1e-3 * k) for j in range(npar)) + '\n'


# -- scenarios -------------------------------------------------------------------------------------------------------
def generate(rng, tier, i):
    groups = gen_grid(rng, importance=rng.random() < 0.4)
    items = model_items('/g', groups)
    states = {}
    for it in items:
        n = rng.choice([1, 2, 3, 11])
        states[it.name] = dict(np=rng.randint(2, 7), rows=[rng.choice([0, 1, 1, 2, 5, 40, 1200]) for _ in range(n)], seed=rng.randrange(1 << 30), nonlin=rng.choice([None, None, True, False]),
                               vary=rng.sample(['mnu', 'w', 'nnu', 'r'], rng.choice([0, 0, 1, 2])), nlim=rng.choice([2, 3]), chi2=rng.random() < 0.2, inputs=rng.random() < 0.9)
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        it = rng.choice(items)
        st = states[it.name]
        kind = rng.choice(['peek', 'peek', 'peek', 'best', 'camb', 'latex', 'latex'])
        o = dict(kind=kind, run=it.name, abs=rng.random() < 0.4, again=rng.random() < 0.3)
        names = [p[0] for p in PNAMES[:st['np']]]
        if kind == 'peek':
            o['par'] = rng.choice(names) if rng.random() < 0.88 else rng.choice(['nosuch', 'omega', 'omegabh2x', 'weight'])
            o['index'] = rng.choice([None, None, 1, rng.randint(1, len(st['rows'])), len(st['rows']), len(st['rows']) + 1])
        elif kind == 'latex':
            o['pars'] = None if rng.random() < 0.4 else rng.sample(names, rng.randint(1, len(names))) + (['nosuch'] if rng.random() < 0.12 else [])
            o['limit'] = rng.choice([None, 1, 2, st['nlim']])
            o['form'] = rng.choice(['plain', 'plain', 'tabular', 'snippets', 'snippets'])
            o['suffix'] = rng.random() < 0.3
            o['labels'] = rng.random() < 0.3
        elif kind == 'camb':
            o['out'] = rng.choice(['camb.ini', 'out/camb.ini'])
        ops.append(o)
    actors = []
    for o in rng.sample(ops, min(len(ops), rng.choice([0, 1, 1, 2]))):
        actors.append(dict(run=o['run'], what={'peek': 'chain', 'best': 'mini', 'camb': 'mini', 'latex': 'marge'}[o['kind']], seed=rng.randrange(1 << 30), chain=(o.get('index') or 1) if o['kind'] == 'peek' else 0,
                           cuts=[round(rng.random(), 2) for _ in range(rng.choice([1, 2, 4]))], nap=rng.choice([0, 0.01]), before=rng.choice([0, 0.01, 0.03])))
    actors = list({(a['run'], a['what'], a['chain']): a for a in actors}.values())
    return dict(groups=groups, states=states, ops=ops, actors=actors, deflabels=[(n, 'D_{%s}' % n) for n, _, _ in PNAMES[:rng.choice([0, 0, 3])]], flavour='pbs', dirseed=rng.randrange(1 << 20))


# -- concurrent writers ----------------------------------------------------------------------------------------------
def sampler(s, h, it, st, a):
    """A running chain: lines arrive in pieces."""
    import time
    k = a['chain']
    if k > len(st['rows']):
        return
    time.sleep(a['before'])
    n = s.rows[it.name, k]
    for c in a['cuts']:
        x = row(s.base[it.name] + 1000 * k, n, st['np'])
        j = max(1, int(c * len(x)))
        for piece in (x[:j], x[j:]):
            if not piece:
                continue
            with open('%s_%d.txt' % (it.root, k), 'a') as f:
                f.write(piece)
            time.sleep(a['nap'])
        n += 1
        s.rows[it.name, k] = n


def rewriter(s, h, it, st, a):
    import time
    time.sleep(a['before'])
    v, t, path = version(s, it, st, a['what'], a['seed'])
    key = (it.name, a['what'])
    h.begin(key, EMPTY)
    f = open(path, 'w')
    h.end(key)
    time.sleep(a['nap'])
    f.write(padded(t))
    h.begin(key, v)
    f.close()
    h.end(key)


def version(s, it, st, what, seed):
    if what == 'mini':
        v = best(seed, st['vary'])
        return v, best_text(seed, v), it.root + '.minimum'
    v = result(seed, dict(st, dist=True, mini=False, like=False))['marge']
    return v, marge_text(dict(marge=v), st['nlim']), os.path.dirname(it.root) + '/dist/' + it.name + '.margestats'


# -- judging ---------------------------------------------------------------------------------------------------------
class Bad(Exception):
    pass


def judge_peek(s, o, it, st, out, had):
    """had: complete rows (before, after)."""
    k = o['index'] or 1
    if 'index' in o and k > len(st['rows']) or o['par'] not in [p[0] for p in PNAMES[:st['np']]]:
        raise Bad('values of a chain or parameter that is not there')
    m = re.fullmatch(r'\[(.*)\]', ' '.join(out.split()))
    if not m:
        raise Bad('no list of values')
    toks = m.group(1).split()
    b = s.base[it.name] + 1000 * k + 20 * [p[0] for p in PNAMES].index(o['par'])
    for n in range(had[0], had[1] + 1):
        want = [float('%16.7E' % (b + 1e-3 * j)) for j in range(n)]
        if '...' in toks:
            want = want[:3] + ['...'] + want[-3:]
        if len(toks) == len(want) and all(a == x if x == '...' else a != '...' and abs(float(a) - x) < 2e-5 * max(1, abs(x) * 1e-2) for a, x in zip(toks, want)):
            return
    raise Bad('does not give the %s to %s values of %s in chain %s (first %s)' % (had[0], had[1], o['par'], k, b))


def judge_best(out, v):
    want = [(n, x) for n, f, d, x in v if not f and not d]
    got = []
    for line in out.split('\n'):
        if line.strip():
            m = re.fullmatch(r'param\[([^\s\]]+)\]\s*=\s*(-?[\d.]+(?:E[-+]\d+)?)', line.strip())
            if not m:
                raise Bad('line %r' % line)
            got.append((m.group(1), float(m.group(2))))
    if got != [(n, float(x)) for n, x in want]:
        raise Bad('best fit is %s, shown %s' % (want, got))


def judge_camb(path, v, st):
    try:
        vals, own, inc, dfl = read_ini(path)
    except OSError:
        raise Bad('no file was made')
    x = {n: float(t) for n, f, d, t in v}
    want = {k: x[p] for k, p in CAMB.items()}
    want['scalar_amp(1)'] = x['A'] / 1e9
    want['massless_neutrinos'] = x['nnu'] - 3.046 / 3
    want['massive_neutrinos'] = 1
    want['nu_mass_degeneracies'] = 3.046 / 3
    want['tensor_spectral_index(1)'] = -x['r'] / 8
    want['temp_cmb'] = 2.7255
    if st['nonlin'] is not False:
        want['do_nonlinear'] = 3
    elif 'do_nonlinear' in own:
        raise Bad('do_nonlinear = %s' % own['do_nonlinear'])
    for k, y in want.items():
        if k not in own:
            raise Bad('%s is not set' % k)
        if abs(float(own[k]) - y) > 1e-9 * abs(y):
            raise Bad('%s = %s, should be %s' % (k, own[k], y))
    for k, y in (('re_use_optical_depth', 'T'), ('share_delta_neff', 'F')):
        if own.get(k, '')[:1] != y:
            raise Bad('%s = %s' % (k, own.get(k)))
    more = set(own) - set(want) - {'re_use_optical_depth', 'share_delta_neff', 'CMB_outputscale'}
    if more:
        raise Bad('sets %s' % sorted(more))
    if dfl != ['params.ini']:
        raise Bad('defaults are %s' % dfl)


def judge_latex(s, o, it, v, out, d):
    rows = {x[0]: x for x in v}
    pars = o['pars'] or [x[0] for x in v]
    limit = o['limit'] or 1
    if any(p not in rows for p in pars) or limit > len(v[0][5]):
        raise Bad('values of a parameter or limit that is not there')
    if o['form'] == 'snippets':
        want = {'%s-%s_sig%d.tex' % (it.name, p, limit): p for p in pars}
        got = sorted(f for f in os.listdir(d)) if os.path.isdir(d) else []
        if got != sorted(want):
            raise Bad('files %s instead of %s' % (got, sorted(want)))
        for f, p in want.items():
            with R.open(d + '/' + f, encoding='utf-8') as fh:
                t = fh.read()
            if not value_ok(t.strip(), rows[p], limit):
                raise Bad('%s holds %r; result %s' % (f, t, rows[p]))
        return
    lines = [x for x in out.split('\n') if x.strip()]
    if len(lines) != len(pars):
        raise Bad('%d lines for %s' % (len(lines), pars))
    for line, p in zip(lines, pars):
        lab = (s.labels if o['labels'] else s.deflabels).get(p, rows[p][1])
        t = line.strip()
        if o['form'] == 'tabular':
            m = re.fullmatch(r'\$(.*?)\$\s*&(.*)\\\\', t)
            if not m:
                raise Bad('row %r' % line)
            l, x = m.group(1).strip(), m.group(2).strip()
            if x[:1] == '$':
                x = x[1:-1].strip()
            elif x != '---':
                raise Bad('value %r is not in math' % x)
        else:
            if not t.startswith(lab + ' '):
                raise Bad('line %r of %s (%s)' % (line, p, lab))
            l, x = lab, t[len(lab):].strip()
        if l != lab:
            raise Bad('label %r of %s' % (l, p))
        if not value_ok(x, rows[p], limit):
            raise Bad('%s is shown as %r; result %s' % (p, x, rows[p]))


# -- running ---------------------------------------------------------------------------------------------------------
def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res) as s:
        w = s.world
        h = History(w)
        s.labels = {n: 'M_{%s}' % n for n, _, _ in PNAMES[:5]}
        s.deflabels = dict(sc.get('deflabels', []))
        s.write(s.work + '/clik_latex.paramnames', ''.join('%s\t%s\n' % tuple(x) for x in sc.get('deflabels', [])))
        s.write(s.work + '/labels.paramnames', ''.join('%s\t%s\n' % x for x in s.labels.items()))
        s.base, s.rows = {}, {}
        byname = {}
        for k, it in enumerate(s.items):
            st = sc['states'][it.name]
            byname[it.name] = it
            s.base[it.name] = 20000 * (k + 1)
            for c, n in enumerate(st['rows']):
                s.write('%s_%d.txt' % (it.root, c + 1), ''.join(row(s.base[it.name] + 1000 * (c + 1), j, st['np']) for j in range(n)))
                s.rows[it.name, c + 1] = n
            s.write(it.root + '.paramnames', ''.join('%s%s\t%s\n' % (n, '*' if d else '', l) for n, l, d in PNAMES[:st['np']]))
            for what in ('mini', 'marge'):
                v, t, path = version(s, it, st, what, st['seed'])
                h.start((it.name, what), v)
                s.write(path, padded(t))
            if st['inputs']:
                s.write(it.root + '.inputparams', 'a = 1\n' + ('' if st['nonlin'] is None else 'use_nonlinear_lensing = %s\n' % 'FT'[st['nonlin']]))
        acts = []
        for k, a in enumerate(sc['actors']):
            if a['run'] in byname:
                it = byname[a['run']]
                q = w.spawn('act%d' % k, sampler if a['what'] == 'chain' else rewriter, s, h, it, sc['states'][it.name], a)
                q.fault_ok = False
                acts.append(q)
        for k, o in enumerate(sc['ops']):
            if o['run'] not in byname:
                continue
            it = byname[o['run']]
            st = sc['states'][it.name]
            root = it.root[len(s.work) + 1:] if not o['abs'] else it.root
            d = s.work + '/snip%d' % k
            if o['kind'] == 'peek':
                script, args = 'chainPeek.py', [root, o['par']] + ([str(o['index'])] if o['index'] else [])
            elif o['kind'] == 'best':
                script, args = 'extractBestFitParams.py', [root + '.minimum']
            elif o['kind'] == 'camb':
                os.makedirs(s.work + '/out', exist_ok=True)
                script, args = 'extractBestFitCAMB.py', [root, o['out']]
            else:
                script = 'makeLatex.py'
                args = [os.path.dirname(root) + '/dist/' + it.name + ('.margestats' if o['suffix'] else '')]
                if o['pars']:
                    args += ['--params'] + o['pars']
                if o['limit']:
                    args += ['--limit', str(o['limit'])]
                if o['form'] == 'tabular':
                    args += ['--tabular']
                elif o['form'] == 'snippets':
                    args += ['--tex_snippet_dir', 'snip%d' % k]
                if o['labels']:
                    args += ['--paramNameFile', 'labels.paramnames']
            if o['kind'] == 'latex' and o['form'] == 'snippets' and o.get('again'):
                for q in o['pars'] or []:
                    s.write(d + '/%s-%s_sig%d.tex' % (it.name, q, o['limit'] or 1), 'old')
            if o['kind'] == 'camb' and o.get('again'):
                s.write(s.work + '/' + o['out'], 'ombh2 = 7\nold = 1\n')
            choices.fired.clear()
            chain = o.get('index') or 1
            n0 = s.rows.get((it.name, chain), 0)
            p = w.script('cmd%d' % k, script, args)
            p.fault_ok = True
            t0 = w.now
            w.run(lambda: p.finished)
            if w.limit_hit:
                res.violate('no-end', '%s did not end' % script)
                return
            n1 = s.rows.get((it.name, chain), 0)
            # (the last row may be complete before the writer has counted it)
            n1 += any(not q.finished for q in acts)
            if p.status == -9:
                res.note('killed')
                continue
            what = {'peek': None, 'best': 'mini', 'camb': 'mini', 'latex': 'marge'}[o['kind']]
            vs = h.during((it.name, what), t0, w.now) if what else [None]
            # requests that cannot be met, or that meet a file just being written, end with an error
            may = bool(choices.fired) or EMPTY in vs
            if o['kind'] == 'peek':
                must = chain > len(st['rows']) or o['par'] not in [q[0] for q in PNAMES[:st['np']]]
                may = may or n0 == 0
            elif o['kind'] == 'latex':
                must = 'nosuch' in (o['pars'] or []) or (o['limit'] or 1) > st['nlim']
            else:
                must = False
                may = may or o['kind'] == 'camb' and not st['inputs']
            if p.status and not (may or must):
                res.violate('show-fails', '%s %s failed: %s' % (script, args, p.stderr[-500:]))
                return
            if p.status:
                res.note('failure reported')
                continue
            if must:
                res.violate('show-wrong', '%s %s ended normally, but there is no such parameter, chain or limit: %s' % (script, args, p.stdout[-300:]))
                return
            fail = None
            for v in vs:
                try:
                    if v == EMPTY:
                        if o['kind'] == 'best':
                            # (a file that is complete only after its first lines were looked for shows nothing useful)
                            fail = None
                            break
                        continue
                    if o['kind'] == 'peek':
                        judge_peek(s, o, it, st, p.stdout, (n0, n1))
                    elif o['kind'] == 'best':
                        judge_best(p.stdout, v)
                    elif o['kind'] == 'camb':
                        judge_camb(s.work + '/' + o['out'], v, st)
                    else:
                        judge_latex(s, o, it, v, p.stdout, d)
                    fail = None
                    break
                except Bad as e:
                    fail = fail or e
            if fail:
                res.violate('show-wrong', '%s %s ended normally but %s; output %s' % (script, args, fail, p.stdout[:300]))
                return
            res.note(o['kind'])
        for q in acts:
            if q.finished and q.status:
                raise AssertionError('harness: ' + q.stderr)
        res.nontrivial = True
        res.state = repr([q.stdout for q in w.procs if q.name.startswith('cmd')])


def faults(rng, sc, base, tier):
    pts = [x for x in base.points if x[0].startswith('cmd') and not x[3].startswith('cache')]
    plans = write_faults(rng, pts, 3 if tier == 'quick' else 8)
    for nm, st, kind, rel in rng.sample(pts, min(len(pts), 1)):
        plans.append({'%s:%d' % (nm, st): dict(kind='crash')})
    return plans


def shrink(sc):
    if len(sc['ops']) > 1:
        for k in range(len(sc['ops'])):
            yield dict(sc, ops=sc['ops'][:k] + sc['ops'][k + 1:])
    for k in range(len(sc['actors'])):
        yield dict(sc, actors=sc['actors'][:k] + sc['actors'][k + 1:])
    g = sc['groups'][0]
    for k in ('params', 'datasets', 'importance'):
        for j in range(len(g.get(k, []))):
            if len(g[k]) > 1:
                g2 = dict(g)
                g2[k] = g[k][:j] + g[k][j + 1:]
                yield dict(sc, groups=[g2] + sc['groups'][1:])
