"""A grid full of files: chains, auxiliary files, results. Shared by the grid-file properties."""
import random

from .jobs_common import *

PNAMES = [('omegabh2', '\\Omega_b h^2', False), ('omegach2', '\\Omega_c h^2', False), ('theta', '100\\theta_{MC}', False),
          ('tau', '\\tau', False), ('mnu', '\\Sigma m_\\nu', False), ('H0', 'H_0', True), ('omegam', '\\Omega_m', True)]


def gen_files(rng, items, rows=None):
    st = {}
    for it in items:
        n = rng.choice([0, 1, 2, 3, 4])
        st[it.name] = dict(rows=[rng.choice(rows or [0, 1, 3, 7, 10, 20]) if k else rng.choice([x for x in rows or [1, 3, 10, 20] if x]) for k in range(n)],
                           np=rng.randint(2, 7), age=rng.choice([100, 3600, 90000, 10 * 86400]), seed=rng.randrange(1 << 20),
                           chk=rng.random() < 0.5, mini=rng.random() < 0.6, dist=rng.random() < 0.6, conv=rng.choice([None, 0.004, 0.05, 0.3]),
                           props=rng.random() < 0.2, cov=rng.random() < 0.4, ini=rng.random() < 0.4, junk=rng.random() < 0.4,
                           pburn=rng.random() < 0.3, tiny=rng.random() < 0.5, dempty=rng.random() < 0.2,
                           extra=rng.choice([None, None, '.ini', '.bestfit', '.yaml', '.paramnames_old', '.txt', '.properties', '_old.txt', '_3.txt_bak']))
    return st


def chain_text(seed, rows, npar):
    r = random.Random(seed)
    return ''.join('%16.7E' % r.choice([1, 2, 3]) + '%16.7E' % r.uniform(5, 9) + ''.join('%16.7E' % r.gauss(0, 1) for _ in range(npar)) + '\n'
                   for _ in range(rows))


def minimum_text(seed, npar, nder=2):
    r = random.Random(seed)
    out = [' -log(Like) =   %.6f' % r.uniform(5, 9), '  chi-sq    =   %.6f' % r.uniform(10, 18), '']
    k = 0
    for n, lab, der in PNAMES[:npar]:
        if not der:
            k += 1
            out.append('%5d  %.7E   %-22s%s' % (k, r.gauss(0, 1), n, lab))
    out.append('')
    for n, lab in (('fixa', 'f_a'), ('fixb', 'f_b')):
        k += 1
        out.append('%5d  %.7E   %-22s%s' % (k, r.gauss(0, 1), n, lab))
    out.append('')
    for n, lab, der in PNAMES[:npar]:
        if der:
            k += 1
            out.append('%5d  %.7E   %-22s%s' % (k, r.gauss(0, 1), n, lab))
    out += ['', ' -log(Like)     chi-sq   data', '     1.234      2.468   CMB: plik = TT', '']
    return '\n'.join(out)


def names_text(npar):
    return ''.join('%s%s\t%s\n' % (n, '*' if d else '', l) for n, l, d in PNAMES[:npar])


def files_of(it, st, now):
    """{path: (text, mtime)} of one run."""
    out = {}
    t = now - st['age']
    d = os.path.dirname(it.root) + '/'
    for k, rows in enumerate(st['rows']):
        out['%s_%d.txt' % (it.root, k + 1)] = chain_text(st['seed'] + k, rows, st['np']), t
    if st['rows']:
        out[it.root + '.paramnames'] = names_text(st['np']), t
        out[it.root + '.ranges'] = ''.join('%-20s %s N\n' % (n, '0.01') for n, _, _ in PNAMES[:st['np']]), t
    if st['chk']:
        for k in range(len(st['rows'])):
            out['%s_%d.chk' % (it.root, k + 1)] = 'checkpoint%d' % k, t
    if st['mini']:
        x = minimum_text(st['seed'], st['np'])
        if st.get('minifail'):  # a failed minimization
            x = ' -log(Like) =   1.0E+30\n' + x.split('\n', 1)[1]
        out[it.root + '.minimum'] = x, t
    if st['ini']:
        out[it.root + '.inputparams'] = 'a = %d\n' % st['seed'], t
    if st['conv'] is not None:
        out[it.root + '.converge_stat'] = '%s\n' % st['conv'], t
    if st['cov']:
        out[it.root + '.covmat'] = '# a b\n 1 %d\n' % st['seed'], t
    if st['props']:
        out[it.root + '.properties.ini'] = 'note = x%d\n' % st['seed'] + ('burn_removed = T\n' if st.get('pburn') else ''), t
    if st['junk']:
        out[it.root + '.log'] = 'log\n', t
        out[it.root + '.data'] = '\n' if st.get('tiny') else '', t
        out[it.root + '.likelihoods'] = '', t - 500
    if st.get('extra'):
        out[it.root + st['extra']] = 'extra %d\n' % st['seed'], t
    if st['dist']:
        dr = d + 'dist/' + it.name
        out[dr + '.margestats'] = 'marge %d\n' % st['seed'], t + 50
        out[dr + '.likestats'] = 'like %d\n' % st['seed'], t + 50
        out[dr + '.covmat'] = '# cov %d\n' % st['seed'], t + 50
        out[dr + '.corr'] = 'corr\n', t + 50
        if st.get('dempty'):
            out[dr + '.tex'] = '', t + 50
        out[dr + '.py'] = 'plot\n', t + 50
        out[dr + '_2D.py'] = 'plot\n', t + 50
        if st['conv'] is not None:
            out[dr + '.converge'] = '\n var(mean)/mean(var) for eigenvalues\n   1  0.0001\n   2  %s\n\n' % st['conv'], t + 50
    return out


def populate(s, sc):
    for it in s.items:
        st = sc['files'][it.name]
        for path, (text, t) in files_of(it, st, s.world.now).items():
            s.write(path, text, t=t)


def better(st, r, missing):
    if not st['dist'] or st['conv'] is None:
        return missing
    return st['conv'] <= r


def drop_runs(sc):
    g = sc['groups'][0]
    for k in ('params', 'datasets', 'importance'):
        for j in range(len(g.get(k, []))):
            if len(g[k]) > 1:
                g2 = dict(g)
                g2[k] = g[k][:j] + g[k][j + 1:]
                yield dict(sc, groups=[g2])


def write_faults(rng, pts, n, reads=True, crash=False):
    plans = []
    wr = [x for x in pts if x[2] in ('write', 'close-w', 'open-w', 'rename', 'mkdir')]
    for nm, st, kind, rel in rng.sample(wr, min(len(wr), n)):
        f = dict(kind=rng.choice({'write': ['enospc', 'torn', 'eio', 'short'], 'close-w': ['eio'], 'open-w': ['enospc', 'eacces'],
                                  'rename': ['eio'], 'mkdir': ['enospc']}[kind]))
        if f['kind'] in ('torn', 'short'):
            f['frac'] = round(rng.random(), 2)
        plans.append({'%s:%d' % (nm, st): f})
    if reads:
        rd = [x for x in pts if x[2] in ('read', 'open-r') and not x[3].startswith('cache')]
        for nm, st, kind, rel in rng.sample(rd, min(len(rd), max(1, n // 3))):
            plans.append({'%s:%d' % (nm, st): dict(kind='eio')})
    if crash:
        for nm, st, kind, rel in rng.sample(pts, min(len(pts), n)):
            plans.append({'%s:%d' % (nm, st): dict(kind='crash')})
    return plans
