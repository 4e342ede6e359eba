"""C15: saves are complete or the failure is reported, and what is saved loads back."""
import os

from ..core import R, cur
from ..site import Site
from .grid_common import write_faults
from .samples_common import *

CONCURRENT = False

LIB = ['text', 'text', 'chains', 'chains', 'pickle', 'covmat', 'covmat', 'corr', 'single', 'thin', 'thin', 'names', 'ranges', 'marge', 'marge', 'like', 'converge', 'pca', 'table', 'ini', 'ini', 'cov2',
       'template', 'arrays']
CMD = ['getdist', 'getdist', 'covcomb', 'covscale', 'latex', 'param_file']
LABELS = ['x', r'\Omega_b h^2', 'H_0', r'100\theta_{MC}', r'\sigma_8 \Omega_m^{0.5}', 'n_s ', 'a b c', r'{\rm{ln}}(10^{10} A_s)']


def generate(rng, tier, i):
    op = rng.choice(LIB) if rng.random() < 0.75 else rng.choice(CMD)
    npar = rng.choice([1, 2, 2, 3, 4, 6])
    pars = []
    nder = rng.choice([0, 0, 1, 2]) if npar > 1 else 0
    for k in range(npar):
        name = rng.choice(['p%d', 'omega_b%d', 'a_rather_long_parameter_name_%d', 'A%d']) % k
        scale = rng.choice([1, 1, 1e-5, 3e4, 1e-9] if op in ('text', 'chains', 'pickle', 'arrays', 'single', 'thin', 'names', 'ranges') else [1, 1, 1e-3, 50])
        off = rng.choice([0, 0.5, -3, 70]) if scale >= 1 else 0
        pars.append(dict(name=name, label=rng.choice(LABELS + [name]).strip(), der=k >= npar - min(nder, npar - 1), comment=rng.choice(['', '', 'some remark']),
                         scale=scale, off=off, fixed=rng.random() < 0.06 and op in ('text', 'chains', 'pickle', 'names', 'getdist', 'latex'), range=rng.choice([None, None, (off - 50 * scale, None), (None, off + 40.123 * scale), (off - 30 * scale, off + 50 * scale)])))
        if op in ('text', 'chains', 'pickle', 'ranges', 'names') and rng.random() < 0.25:
            pars[-1]['range'] = rng.choice([(0, None), (None, 0), (0, 50 * scale), (-scale, 0), (0.0, 0.0)])
    if op == 'names' or op == 'marge' and rng.random() < 0.2:
        for p in pars:
            p['der'] = rng.random() < 0.4
    return dict(op=op, pars=pars, nch=rng.choice([1, 1, 2, 3]), rows=rng.choice([40, 60, 150, 400]), seed=rng.randrange(1 << 30), unit=rng.random() < 0.3, realw=rng.random() < 0.3,
                like=rng.random() < 0.85, label=rng.choice([None, 'my chains', r'$\Lambda$CDM']), contours=rng.choice([None, None, [0.68, 0.95], [0.5, 0.8], [0.68, 0.95, 0.99]]),
                over=rng.random() < 0.4, form=rng.randrange(6) if op == 'text' else rng.randrange(4), cool=rng.choice([1, 1, 1.3, 2]), thin=rng.choice([1, 2, 3, 7]), props=rng.choice([None, None, 0, 1, 2]), cmd=rng.randrange(1024), ccool=rng.choice([1, 1, 1, 1.2, 0.5]), loff=rng.choice([0, 0, 0, -25, 640]),
                diskfull=round(rng.random(), 3), dirseed=rng.randrange(1 << 20))


class Data:
    """The samples of one scenario, and what is expected of them, computed here."""

    def __init__(self, sc, big=False):
        import random
        import numpy as np
        rng = random.Random(sc['seed'] + big)
        n = sc['rows'] + (37 if big else 0)
        self.pars = sc['pars']
        self.chains = []
        for k in range(sc['nch']):
            rows = make_rows(rng, n + 11 * k, len(self.pars))
            a = np.array(rows)
            for j, p in enumerate(self.pars):
                a[:, j + 2] = a[:, j + 2] * p['scale'] + p['off']
                if p['fixed']:
                    a[:, j + 2] = p['off'] + 0.25 * p['scale']
            a[:, 1] += sc['loff']
            if sc['unit']:
                a[:, 0] = 1
            elif sc['realw']:
                a[:, 0] *= 0.37
            self.chains.append(a)
        self.all = np.vstack(self.chains)
        self.names = [p['name'] for p in self.pars]
        self.labels = [p['label'] for p in self.pars]
        self.ranges = {p['name']: p['range'] for p in self.pars if p['range']}

    def make(self, sc, single=False, **kw):
        from getdist import MCSamples
        settings = {'ignore_rows': 0}
        if sc['contours']:
            settings['contours'] = sc['contours']
        ch = [self.all] if single else self.chains
        m = MCSamples(samples=[c[:, 2:] for c in ch], weights=[c[:, 0] for c in ch], loglikes=[c[:, 1] for c in ch] if sc['like'] else None,
                      names=[p['name'] + ('*' if p['der'] else '') for p in self.pars], labels=self.labels, ranges={k: list(v) for k, v in self.ranges.items()} or None, settings=settings,
                      label=sc['label'], **kw)
        for p in self.pars:
            q = m.paramNames.parWithName(p['name'])
            if q is not None:
                q.comment = p['comment']
        return m

    def mean(self, j, rows=None):
        a = self.all if rows is None else rows
        return float((a[:, 0] * a[:, j + 2]).sum() / a[:, 0].sum())

    def cov(self, i, j, rows=None):
        a = self.all if rows is None else rows
        x, y = a[:, i + 2] - self.mean(i, a), a[:, j + 2] - self.mean(j, a)
        return float((a[:, 0] * x * y).sum() / a[:, 0].sum())


def near(a, b, rtol=2e-6, atol=1e-12):
    import math
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(near(x, y, rtol, atol) for x, y in zip(a, b))
    if a is None or b is None:
        return a is None and b is None
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + atol


# ---- one save operation each: returns a function that reads back and gives the first difference (or None) -----------------
def op_text(s, sc, d, get):
    m = d.make(sc, single=True)
    form = sc['form']
    root = s.work + ('/new/sub/ch' if form == 2 else '/ch')
    if form == 3:
        os.chdir(s.work)
        m.saveAsText('ch', make_dirs=True)
    elif form >= 4:
        m.saveAsText(root, chain_index=0)
        if form == 5:  # another one of the same set
            d2 = Data(dict(sc, seed=sc['seed'] + 5, nch=1, rows=sc['rows'] + 3))
            d2.make(sc, single=True).saveAsText(root, chain_index=1)
            return lambda: back(sc, d, root, [d.all, d2.all], get)
    else:
        m.saveAsText(root + ('.txt' if form == 1 else ''), make_dirs=form == 2)
    return lambda: back(sc, d, root, [d.all], get)


def op_chains(s, sc, d, get):
    m = d.make(sc)
    root = s.work + ('/new/sub/ch' if sc['form'] == 2 else '/ch')
    props = {None: None, 0: {'burn_removed': True}, 1: {'burn_removed': False, 'some_list': [1.5, 2.25, 3]}, 2: {'flags': [True, False], 'note': 'a b', 'num': 7}, 3: {'burn_removed': not sc['seed'] & 1, 'some_list': [8., 9.], 'num': 70, 'note': 'older'}}[sc['props']]
    m.saveChainsAsText(root, make_dirs=sc['form'] == 2, properties=props)
    return lambda: back(sc, d, root, d.chains, get, props)


def back(sc, d, root, chains, get, props=None):
    import numpy as np
    from getdist import loadMCSamples, IniFile
    m = loadMCSamples(root, settings={'ignore_rows': 0}, no_cache=True)
    left = [x.name for x in m.paramNames.names]
    a = np.vstack(chains)
    want = [(p['name'], p['label'], p['der'], p['comment']) for j, p in enumerate(d.pars) if p['name'] in left]
    got = [(p.name, p.label, bool(p.isDerived), p.comment) for p in m.paramNames.names]
    if want != got:
        return 'parameters %s, expected %s' % (got, want)
    for p in d.pars:
        if p['name'] not in left and not p['fixed']:
            return 'parameter %s is gone' % p['name']
    cols = [j for j, p in enumerate(d.pars) if p['name'] in left]
    if m.samples.shape != (len(a), len(cols)):
        return '%s values, expected %s' % (m.samples.shape, (len(a), len(cols)))
    got = m.getSeparateChains() if len(chains) > 1 else [m]
    if sorted(c.numrows for c in got) != sorted(len(c) for c in chains):
        return 'chains of %s rows, saved %s' % (sorted(c.numrows for c in got), sorted(len(c) for c in chains))
    by = {c.numrows: c for c in got}  # (they come in the order in which the directory lists them)
    for c in chains:
        g = by[len(c)]
        like = c[:, 1] if sc['like'] else np.zeros(len(c))
        for nm, x, y in [('weights', g.weights, c[:, 0]), ('likelihoods', g.loglikes, like)] + [(d.names[j], g.samples[:, k], c[:, 2 + j]) for k, j in enumerate(cols)]:
            if not near(x.tolist(), y.tolist(), 1e-7):
                return '%s differ: %s, saved %s' % (nm, x[:4], y[:4])
    for p in d.pars:
        r = p['range'] or (None, None)
        if p['name'] in left and not near([m.ranges.getLower(p['name']), m.ranges.getUpper(p['name'])], list(r)):
            return 'range of %s is %s, saved %s' % (p['name'], (m.ranges.getLower(p['name']), m.ranges.getUpper(p['name'])), r)
    if (m.label or None) != sc['label']:
        return 'label %r, saved %r' % (m.label, sc['label'])
    if props:
        diff = ini_back(IniFile(root + '.properties.ini'), props)
        if diff:
            return diff
    return None


def op_pickle(s, sc, d, get):
    m = d.make(sc)
    get['before'] = summary(m, deep=True)
    f = s.work + '/ch.pickle'
    m.savePickle(f)

    def read():
        import pickle
        with open(f, 'rb') as inp:
            m2 = pickle.load(inp)
        return difference(get['before'], summary(m2, deep=True))
    return read


def cov_back(f, d, idx, rows=None, scale=None):
    from getdist import covmat
    c = covmat.CovMat(f)
    if c.paramNames != [d.names[j] for j in idx]:
        return 'parameters %s' % c.paramNames
    if c.matrix.shape != (len(idx), len(idx)) or c.size != len(idx):
        return 'matrix of %s for %d parameters' % (c.matrix.shape, len(idx))
    for a, i in enumerate(idx):
        for b, j in enumerate(idx):
            want = d.cov(i, j, rows)
            for nm, fac in scale or []:
                want *= fac ** ((d.names[i] == nm) + (d.names[j] == nm))
            tol = 1e-6 * (d.cov(i, i, rows) * d.cov(j, j, rows)) ** 0.5
            if not near(float(c.matrix[a, b]), want, 1e-6, tol * (max([abs(f) for _, f in scale]) ** 2 if scale else 1)):
                return 'covariance of %s and %s is %s, should be %s' % (d.names[i], d.names[j], c.matrix[a, b], want)
    full = c.correlation()
    if full.shape != (len(idx), len(idx)):
        return 'correlation of %s' % (full.shape,)
    return None


def op_covmat(s, sc, d, get):
    m = d.make(sc, root=s.work + '/ch') if sc['form'] == 1 else d.make(sc)
    f = s.work + '/out.covmat'
    if sc['form'] == 0:
        m.getCovMat().saveToFile(f)
    else:
        m.writeCovMatrix(f)
    return lambda: cov_back(f, d, [j for j, p in enumerate(d.pars) if not p['der']])


def op_cov2(s, sc, d, get):
    import numpy as np
    from getdist import covmat
    f = s.work + '/out.covmat'
    n = len(d.pars)
    c = covmat.CovMat(matrix=np.array([[d.cov(i, j) for j in range(n)] for i in range(n)]), paramNames=d.names)
    c.saveToFile(f)
    return lambda: cov_back(f, d, list(range(n)))


def op_corr(s, sc, d, get):
    import numpy as np
    m = d.make(sc)
    f = s.work + '/out.corr'
    m.writeCorrelationMatrix(f)

    def read():
        a = np.loadtxt(f, ndmin=2)
        n = len(d.pars)
        if a.shape != (n, n):
            return 'correlation matrix of %s for %d parameters' % (a.shape, n)
        for i in range(n):
            for j in range(n):
                if d.pars[i]['fixed'] or d.pars[j]['fixed']:
                    continue
                want = d.cov(i, j) / (d.cov(i, i) * d.cov(j, j)) ** 0.5
                if not near(float(a[i, j]), want, 1e-5, 1e-6):
                    return 'correlation %d %d is %s, should be %s' % (i, j, a[i, j], want)
    return read


def op_single(s, sc, d, get):
    import numpy as np
    m = d.make(sc)
    if not sc['like']:
        return None
    f = s.work + '/out_single.txt'
    want = m.makeSingleSamples(random_state=sc['seed'], single_thin=sc['thin'] if sc['form'] else None)
    m.makeSingleSamples(f, random_state=sc['seed'], single_thin=sc['thin'] if sc['form'] else None)
    rows = np.c_[d.all[:, 1], d.all[:, 2:]]

    def read():
        a = np.loadtxt(f, ndmin=2)
        if not len(want):
            return 'samples where there are none' if a.size else None
        if a.shape != (len(want), len(d.pars) + 2):
            return '%s values for %d samples' % (a.shape, len(want))
        if not (a[:, 0] == 1).all():
            return 'weights %s' % a[:, 0]
        if not np.allclose(a[:, 2:], want, rtol=1e-6, atol=1e-12):
            return 'not the selected samples'
        k = 0
        for r in a:  # a subset of the rows, in order, each with its own likelihood
            while k < len(rows) and not np.allclose(rows[k], r[1:], rtol=1e-6, atol=1e-13):
                k += 1
            if k == len(rows):
                return 'row %s is not one of the samples' % r
            k += 1
    return read


def op_thin(s, sc, d, get):
    import numpy as np
    if not sc['like']:
        return None
    m = d.make(sc)
    if sc['realw']:
        ix = np.arange(sc['thin'] - 1, len(d.all), sc['thin'])
    else:
        ix = m.thin_indices(max(1, sc['thin']) * (1 if sc['unit'] else 3))
    f = s.work + '/out_thin.txt'
    m.writeThinData(f, ix, cool=sc['cool'])
    ix = [int(x) for x in ix]
    return lambda: thin_back(f, d.all, ix, sc['cool'])


def thin_back(f, rows, ix, cool):
    import numpy as np
    with open(f) as fl:
        lines = [x for x in fl.read().split('\n') if x.strip()]
    if len(lines) != len(ix):
        return '%d lines for %d samples' % (len(lines), len(ix))
    for line, k in zip(lines, ix):
        v = [float(x) for x in line.split()]
        r = rows[k]
        if len(v) != len(r):
            return '%d values for %d: %s' % (len(v), len(r), line[:200])
        w, L = 1., r[1]
        if cool != 1:
            L = r[1] * cool
            w = np.exp(-(L - r[1]) - rows[:, 1].max() * (1 - cool))
        if not near(v, [float(w), float(L)] + r[2:].tolist(), 2e-6, 1e-6 if cool == 1 else 1e-12):
            return 'sample %s, should be %s' % (v, [w, L] + r[2:].tolist())


def op_names(s, sc, d, get):
    from getdist.paramnames import ParamNames, ParamInfo
    f = s.work + '/out.paramnames'
    p = ParamNames()
    p.names = [ParamInfo(name=x['name'], label=x['label'], derived=x['der'], comment=x['comment']) for x in d.pars]
    p.saveAsText(f)

    def read():
        want = [(x['name'], x['label'], x['der'], x['comment']) for x in d.pars]
        got = [(x.name, x.label, bool(x.isDerived), x.comment) for x in ParamNames(f).names]
        if want != got:
            return 'parameters %s, saved %s' % (got, want)
    return read


def op_ranges(s, sc, d, get):
    from getdist.parampriors import ParamBounds
    f = s.work + '/out.ranges'
    b = ParamBounds()
    for p in d.pars:
        r = p['range']
        if r:
            b.setRange(p['name'], r)
    b.saveToFile(f)

    def read():
        b = ParamBounds(f)
        want = {p['name']: list(p['range']) for p in d.pars if p['range']}
        if sorted(b.names) != sorted(want):
            return 'ranges of %s, saved %s' % (b.names, sorted(want))
        for n, r in want.items():
            if not near([b.getLower(n), b.getUpper(n)], r):
                return 'range of %s is %s, saved %s' % (n, (b.getLower(n), b.getUpper(n)), r)
    return read


def marge_back(f, want):
    from getdist.types import MargeStats
    m = MargeStats(f)
    if m.limits != want[0]:
        return 'limits %s, saved %s' % (m.limits, want[0])
    got = [(p.name, bool(p.isDerived), p.label, p.mean, p.err, [(x.lower, x.upper, x.limitTag()) for x in p.limits]) for p in m.names]
    if [x[:3] for x in got] != [x[:3] for x in want[1]]:
        return 'parameters %s, saved %s' % ([x[:3] for x in got], [x[:3] for x in want[1]])
    for a, b in zip(got, want[1]):
        if not near(a[3:5], b[3:5]) or [x[2] for x in a[5]] != [x[2] for x in b[5]] or not near([x[:2] for x in a[5]], [x[:2] for x in b[5]]):
            return 'values %s, saved %s' % (a, b)


def marge_values(st):
    return [list(map(float, st.limits)), [(p.name, bool(p.isDerived), p.label, float(p.mean), float(p.err), [(float(x.lower), float(x.upper), x.limitTag()) for x in p.limits]) for p in st.names]]


def op_marge(s, sc, d, get):
    if any(p['fixed'] for p in d.pars):
        return None
    m = d.make(sc)
    st = m.getMargeStats()
    want = marge_values(st)
    for j, p in enumerate(d.pars):
        if not near(want[1][j][3:5], [d.mean(j), d.cov(j, j) ** 0.5], 1e-6):
            get['wrong'] = 'mean and deviation of %s given as %s' % (p['name'], want[1][j][3:5])
    f = s.work + '/out.margestats'
    st.saveAsText(f)
    return lambda: marge_back(f, want)


def op_like(s, sc, d, get):
    if not sc['like'] or any(p['fixed'] for p in d.pars):
        return None
    m = d.make(sc)
    st = m.getLikeStats()
    f = s.work + '/out.likestats'
    st.saveAsText(f)
    want = [st.logLike_sample, st.logMeanInvLike, st.meanLogLike, st.logMeanLike]
    pars = [(p.name, p.bestfit_sample, list(p.ND_limit_bot), list(p.ND_limit_top), p.label) for p in st.names]
    return lambda: like_back(f, want, pars)


def like_back(f, want, pars):
    from getdist.types import LikeStats
    st = LikeStats(f)
    got = [st.logLike_sample, st.logMeanInvLike, st.meanLogLike, st.logMeanLike]
    if not near([x or 0 for x in got], [float(x or 0) for x in want], 1e-6, 2e-6):
        return 'values %s, saved %s' % (got, want)
    with open(f) as fl:
        text = fl.read()
    if '\n\n' not in text:
        return 'no limits'
    lines = text.split('\n\n', 1)[1].split('\n')[1:]
    lines = [x for x in lines if x.strip()]
    if len(lines) != len(pars):
        return '%d parameters, saved %d' % (len(lines), len(pars))
    for line, p in zip(lines, pars):
        v = line.split()
        want = [p[1]]
        for k in range(min(2, len(p[2]))):
            want += [p[2][k], p[3][k]]
        if v[0].strip('*') != p[0] or not near([float(x) for x in v[1:1 + len(want)]], [float(x) for x in want]) or not line.rstrip().endswith(p[4]):
            return 'line %s for %s' % (line, p)


def op_converge(s, sc, d, get):
    if any(p['fixed'] for p in d.pars):
        return None
    m = d.make(sc)
    f = s.work + '/out.converge'
    text = m.getConvergeTests(0.95, writeDataToFile=True, filename=f)
    R_ = m.GelmanRubin if sc['nch'] > 1 else None
    eig = m.getGelmanRubinEigenvalues() if sc['nch'] > 1 else None

    def read():
        from getdist.types import ConvergeStats
        with open(f, encoding='utf-8') as fl:
            t = fl.read()
        if t != text:
            return 'differs from the result: %d characters of %d' % (len(t), len(text or ''))
        c = ConvergeStats(f)
        if eig is not None:
            if len(c.R_eigs) != len(eig):
                return '%d R-1 values for %d' % (len(c.R_eigs), len(eig))
            if not near([float(x) for x in c.R_eigs], sorted(float(x) for x in eig), 1e-3, 2e-5) and not near([float(x) for x in c.R_eigs], [float(x) for x in eig], 1e-3, 2e-5):
                return 'R-1 %s, should be %s' % (c.R_eigs, eig)
            if not near(float(c.worstR()), float(R_), 1e-3, 2e-5):
                return 'worst R-1 %s, should be %s' % (c.worstR(), R_)
    return read


def op_pca(s, sc, d, get):
    if len(d.pars) < 2 or any(p['fixed'] for p in d.pars):
        return None
    m = d.make(sc)
    f = s.work + '/out.PCA'
    text = m.PCA(d.names[:2], param_map='NN', writeDataToFile=True, filename=f)

    def read():
        with open(f, encoding='utf-8') as fl:
            if fl.read() != text:
                return 'differs from the result'
    return read


def op_table(s, sc, d, get):
    if any(p['fixed'] for p in d.pars):
        return None
    m = d.make(sc)
    t = m.getTable(limit=1) if sc['form'] else m.getTable(limit=1, columns=2)
    f = s.work + '/out.tex'
    t.write(f, document=sc['form'] == 2)
    text = t.tableTex(document=sc['form'] == 2)

    def read():
        with open(f, encoding='utf-8') as fl:
            got = fl.read()
        if got.rstrip('\n') != text.rstrip('\n'):
            return 'differs from the table'
        for p in d.pars:
            if p['label'] not in got:
                return 'no row for %s' % p['label']
    return read


VALUES = [('an_int', 12), ('a_float', 0.1234567890123), ('small', 1.5e-12), ('yes', True), ('no', False), ('text', 'some text'), ('lst', [1.5, 2.5, -3e-5]), ('ints', [3, 1, 2]), ('words', ['a', 'bb']),
          ('flags', [True, False, True]), ('tup', (0.68, 0.95)), ('eq', 'a=b'), ('empty', ''), ('uni', 'Λ β'), ('path', '/a b/c.txt'), ('long', 'x ' * 400 + 'x'), ('one', [7.5])]


def ini_back(ini, want):
    import numpy as np
    for k, v in want.items():
        if not ini.hasKey(k):
            return '%s is not there' % k
        if isinstance(v, bool):
            got = ini.bool(k)
        elif isinstance(v, int):
            got = ini.int(k)
        elif isinstance(v, float):
            got = ini.float(k)
        elif isinstance(v, str):
            got = ini.string(k)
        else:
            v = list(v)
            got = ini.bool_list(k) if isinstance(v[0], bool) else ini.int_list(k) if isinstance(v[0], int) else ini.float_list(k) if isinstance(v[0], float) else ini.list(k)
        if got != v:
            return '%s = %r, saved %r' % (k, got, v)


def op_ini(s, sc, d, get):
    import random
    from getdist import IniFile
    rng = random.Random(sc['seed'])
    want = dict(rng.sample(VALUES, rng.randrange(1, len(VALUES) + 1)))
    f = s.work + '/out.ini'
    ini = IniFile()
    form = sc['form']
    if form == 0:
        ini.params.update(want)
    elif form == 1:
        class A:
            pass
        a = A()
        for k, v in want.items():
            setattr(a, k, v)
            ini.getAttr(a, k)
    else:
        s.write('work/base.ini', '# remark\nan_int = 3\n\nother=5\nINCLUDE(more.ini)\nDEFAULT(def.ini)\n')
        s.write('work/more.ini', 'more1 = x\n')
        s.write('work/def.ini', 'other = 6\ndef1 = y z\n')
        ini = IniFile(s.work + '/base.ini', keep_includes=form == 3)
        ini.params.update(want)
        want = dict(want, other='5', more1='x', def1='y z')
    ini.saveFile(f)

    def read():
        ini = IniFile(f)
        x = ini_back(ini, want)
        if not x and set(ini.params) - set(want) - {'an_int'}:
            x = 'additional %s' % (set(ini.params) - set(want))
        return x
    return read


def op_template(s, sc, d, get):
    from getdist.command_line import make_param_file
    f = s.work + '/out.ini'
    make_param_file(f, feedback=False)
    return lambda: template_back(f)


def template_back(f):
    import getdist
    from getdist import IniFile
    ini = IniFile(f)
    ref = IniFile(getdist.default_getdist_settings)
    for k, v in ref.params.items():
        if ini.params.get(k) != v:
            return '%s = %s, default %s' % (k, ini.params.get(k), v)
    if 'file_root' not in ini.params or 'out_dir' not in ini.params:
        return 'settings missing'


def op_arrays(s, sc, d, get):
    """Weighted samples without names."""
    import numpy as np
    from getdist.chains import WeightedSamples, loadNumpyTxt
    a = d.chains[0]
    m = WeightedSamples(samples=a[:, 2:], weights=a[:, 0], loglikes=a[:, 1] if sc['like'] else None)
    f = s.work + '/arr'
    ix = sc['form'] if sc['form'] < 2 else None
    m.saveAsText(f + ('.txt' if sc['form'] == 3 else ''), chain_index=ix)

    def read():
        b = loadNumpyTxt(f + ('' if ix is None else '_%d' % (ix + 1)) + '.txt')
        ref = a.copy()
        if not sc['like']:
            ref[:, 1] = 0
        if b.shape != ref.shape or not np.allclose(b, ref, rtol=1e-7, atol=1e-14):
            return 'values differ'
    return read


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}


def saver(s, sc, d, get):
    return OPS[sc['op']](s, sc, d, get)


# ---- commands ------------------------------------------------------------------------------------------------------------
def write_chains(s, sc, d, name='ch', names=True):
    for k, c in enumerate(d.chains):
        s.write('work/%s_%d.txt' % (name, k + 1), ''.join(''.join('%20.11E' % v for v in r) + '\n' for r in c))
    s.write('work/%s.paramnames' % name, ''.join('%s%s\t%s\n' % (p['name'], '*' if p['der'] else '', p['label']) for p in d.pars))
    s.write('work/%s.ranges' % name, ''.join('%s %s %s\n' % ((p['name'],) + tuple('N' if x is None else x for x in p['range'])) for p in d.pars if p['range']))


def getdist_run(s, sc, out, ini):
    from getdist.command_line import getdist_command
    b = sc['cmd']
    getdist_command([ini, s.work + '/ch'] + (['--ignore_rows', '0.3'] if b & 1 else []))


def getdist_ini(s, sc, out):
    b = sc['cmd']
    t = 'out_dir = %s\nno_plots = %s\nno_tests = %s\nignore_rows = 0.3\n' % (out, 'F' if b & 2 else 'T', 'T' if b & 4 else 'F')
    if sc['thin'] > 1 and not sc['realw'] and sc['ccool'] == 1:
        t += 'thin_factor = %d\nthin_cool = %s\n' % (sc['thin'] * 3, sc['cool'])
    if b & 8 and len(sc['pars']) > 1:
        t += 'PCA_params = %s\nPCA_func = NNNNNN\n' % ' '.join(p['name'] for p in sc['pars'][:2])
    n = [p['name'] for p in sc['pars']]
    if b & 16:
        t += 'triangle_plot = T\ntriangle_params = %s\n' % ('' if b & 64 else ' '.join(n[::-1][:3]))
        if b & 128:
            t += 'plot_2D_param = %s\n' % [p['name'] for p in sc['pars'] if not p['fixed']][0]
        else:
            t += 'plot_2D_num = 2\nplot1 = %s %s\nplot2 = %s %s\n' % (n[0], n[-1], n[-1], 'nosuch' if b & 64 else n[len(n) // 2])
        t += 'num_3D_plots = 1\n3D_plot1 = %s\n' % ' '.join(n[:3])
    if b & 64:
        t += 'plot_params = %s nosuch %s*\n' % (n[-1], n[0][:2])
    if b & 256 and sc['nch'] > 1:
        t += ('exclude_chain = 1\n', 'first_chain = 2\n', 'chain_num = 1\n')[b % 3]
    if sc['ccool'] != 1:
        t += 'cool = %s\n' % sc['ccool']
    if b & 512:
        t += 'plot_output = png\n'
    if b & 32:
        t += 'out_root = other\n'
    t += 'contours = %s\n' % ' '.join(map(str, sc['contours'] or [0.68, 0.95, 0.99]))
    return t


def script(s, name, file, args):
    return s.world.script(name, os.path.join(s.repo, 'python', file), args, cwd=s.work)


def execute(sc, choices, tag, res):
    with Site(tag, choices, flavour=None, scenario=sc, max_steps=60000) as s:
        res.worlds.append(s.world)
        w = s.world
        s.write('work/.keep', '')
        res.note('op:' + sc['op'])
        d = Data(sc)
        if sc['op'] in OPS:
            library(s, sc, d, choices, res)
        else:
            commands(s, sc, d, choices, res)
        if w.escapes:
            res.violate('escape', str(w.escapes[:2]))


def library(s, sc, d, choices, res):
    w = s.world
    get = {}
    if sc['over']:  # over an earlier, longer save
        p = w.spawn('earlier', saver, s, dict(sc, props=sc['props'] if sc['props'] is None else 3, form=sc['form'] if sc['form'] != 5 else 4, label='old' if sc['label'] or sc['props'] is None else None), Data(sc, True), {})
        w.run(lambda: p.finished)
        if p.status != 0:
            res.violate('save-fails', '%s fails: %s' % (sc['op'], p.stderr[-300:]))
            return
    full(w, sc, choices)
    p = w.spawn('victim', saver, s, sc, d, get)
    w.run(lambda: p.finished)
    w.disk_limit = None
    hit = any(x['kind'] != 'short' for x in choices.fired.values())  # (a short write is not a failure)
    if p.status != 0:
        if not hit:
            res.violate('save-fails', '%s fails: %s' % (sc['op'], p.stderr[-300:]))
        res.note('reported failures')
        res.nontrivial = True
        return
    if p.result is None:
        return
    if get.get('wrong'):
        res.violate('wrong', '%s: %s' % (sc['op'], get['wrong']))
        return
    res.nontrivial = True
    diff = called(s, p.result)
    res.note('read back')
    if diff:
        res.violate('not-as-saved:' + sc['op'], '%s reported success but on reading back: %s' % (sc['op'], diff))


def called(s, fn, *args):
    r, p = s.call(fn, *args)
    if p is not None:
        return 'reading fails: ' + p.stderr[-300:]
    return r


def full(w, sc, choices):
    if 'diskfull' in choices.faults:
        w.disk_limit = int(choices.faults['diskfull'].get('size', 2000) * sc['diskfull'])
        choices.fired['diskfull'] = dict(kind='diskfull')


def commands(s, sc, d, choices, res):
    w = s.world
    op = sc['op']
    if len([p for p in sc['pars'] if not p['fixed'] and not p['der']]) < 1:
        return
    if op == 'param_file':
        def run():
            from getdist.command_line import getdist_command
            getdist_command(['--make_param_file', s.work + '/out.ini'])
        runs = [run]
        outs = [s.work + '/out.ini']

        def judge():
            return template_back(s.work + '/out.ini')
    elif op in ('getdist', 'latex'):
        for k in ('ref', 'out'):
            s.write('work/%s/.keep' % k, '')
            s.write('work/%s.ini' % k, getdist_ini(s, sc, s.work + '/%s/' % k))
        if sc['over'] and op == 'getdist':  # over the results of an earlier run
            write_chains(s, sc, Data(sc, True))
            p = w.spawn('earlier', getdist_run, s, sc, 'out', s.work + '/out.ini')
            w.run(lambda: p.finished)
        write_chains(s, sc, d)
        p = w.spawn('first', getdist_run, s, sc, 'ref', s.work + '/ref.ini')
        w.run(lambda: p.finished)
        if p.status != 0:
            res.violate('save-fails', 'getdist fails: %s' % p.stderr[-300:])
            return
        diff = called(s, getdist_back, s, sc, d, 'ref')
        if diff:
            res.violate('not-as-saved', 'getdist reported success but %s' % diff)
            return
        if op == 'getdist':
            def run():
                getdist_run(s, sc, 'out', s.work + '/out.ini')

            def judge():
                a, b = files(s, s.work + '/ref'), files(s, s.work + '/out')
                if a.keys() != b.keys():
                    return 'files %s, expected %s' % (sorted(b), sorted(a))
                for k in a:
                    if a[k].replace(b'/work/ref/', b'/work/out/') != b[k]:
                        return '%s is not complete (%d bytes of %d)' % (k, len(b[k]), len(a[k]))
        else:
            root = 'other' if sc['cmd'] & 32 else 'ch'
            args = ['%s/ref/%s' % (s.work, root), '--tex_snippet_dir', s.work + '/snip', '--paramNameFile', s.work + '/ch.paramnames']
            run = ('makeLatex.py', args)

            def judge():
                from getdist.types import MargeStats
                b = files(s, s.work + '/snip')
                names = [x for x in MargeStats('%s/ref/%s.margestats' % (s.work, root)).list()]
                if sorted(b) != sorted('%s-%s_sig1.tex' % (root, x) for x in names):
                    return 'files %s for parameters %s' % (sorted(b), names)
                empty = [k for k in b if not b[k]]
                if empty:
                    return '%s is empty' % empty[0]
                ref = s.snippets = getattr(s, 'snippets', None)
                from makeLatex import margeParamTex
                _, _, texs = margeParamTex('%s/ref/%s' % (s.work, root), None, 1, s.work + '/ch.paramnames')
                for x, t in zip(names, texs):
                    if b['%s-%s_sig1.tex' % (root, x)].decode() != t:
                        return 'constraint for %s is %r, should be %r' % (x, b['%s-%s_sig1.tex' % (root, x)], t)
    else:
        n = len(d.pars)

        def write_cov(name, idx, fac=1.):
            t = '# ' + ' '.join(d.names[j] for j in idx) + '\n'
            s.write(name, t + ''.join(''.join(' %20.11E' % (fac * d.cov(i, j)) for j in idx) + '\n' for i in idx))
        if op == 'covcomb':
            k = max(1, n - 1)
            write_cov('work/in1.covmat', list(range(k)))
            write_cov('work/in2.covmat', list(range(n))[::-1][:2] if n > 1 else [0], 5.)
            run = ('getdist/covcomb.py', [s.work + '/out.covmat', s.work + '/in1.covmat', s.work + '/in2.covmat'])

            def judge():
                from getdist import covmat
                c = covmat.CovMat(s.work + '/out.covmat')
                if sorted(c.paramNames) != sorted(d.names) or c.matrix.shape != (n, n):
                    return 'covariance of %s, %s' % (c.paramNames, c.matrix.shape)
                for a, x in enumerate(c.paramNames):
                    for b, y in enumerate(c.paramNames):
                        i, j = d.names.index(x), d.names.index(y)
                        want = d.cov(i, j) if i < k and j < k else 5 * d.cov(i, j) if n > 1 and i >= n - 2 and j >= n - 2 else 0
                        if not near(float(c.matrix[a, b]), want, 1e-6, 1e-6 * (d.cov(i, i) * d.cov(j, j)) ** 0.5):
                            return 'covariance of %s and %s is %s, should be %s' % (x, y, c.matrix[a, b], want)
        else:
            s.write('work/in/.keep', '')
            for k in range(2):
                write_cov('work/in/c%d.covmat' % k, list(range(n))[:max(1, n - k)])
            sc2 = [(d.names[0], 100.), (d.names[-1], 0.5)]
            run = ('getdist/covscale.py', [s.work + '/in', s.work + '/outdir', ':'.join(x for x, _ in sc2), ':'.join(str(f) for _, f in sc2)])

            def judge():
                for k in range(2):
                    x = cov_back(s.work + '/outdir/c%d.covmat' % k, d, list(range(n))[:max(1, n - k)], scale=sc2)
                    if x:
                        return x
    full(w, sc, choices)
    if isinstance(run, tuple):
        p = w.script('victim', run[0], run[1], cwd=s.work)
    else:
        p = w.spawn('victim', run)
    w.run(lambda: p.finished)
    w.disk_limit = None
    hit = any(x['kind'] != 'short' for x in choices.fired.values())  # (a short write is not a failure)
    res.nontrivial = True
    if p.status != 0:
        if not hit:
            res.violate('save-fails', '%s fails: %s' % (op, p.stderr[-300:]))
        res.note('reported failures')
        return
    diff = called(s, judge)
    res.note('read back')
    if diff:
        res.violate('not-as-saved:' + op, '%s reported success but %s' % (op, diff))


def files(s, top):
    out = {}
    for f in sorted(os.listdir(top)):
        if f == '.keep':
            continue
        with R.open(top + '/' + f, 'rb') as fl:
            out[f] = fl.read()
    return out


def getdist_back(s, sc, d, where):
    """What the command wrote on a healthy disk, against values computed here."""
    import numpy as np
    b = sc['cmd']
    root = s.work + '/%s/%s' % (where, 'other' if b & 32 else 'ch')
    parts = [c[int(round(len(c) * 0.3)):] for c in d.chains]
    if b & 256 and sc['nch'] > 1:
        parts = parts[:1] if b % 3 == 2 else parts[1:]
    if sc['ccool'] != 1:
        top, f = max(c[:, 1].max() for c in parts), sc['ccool']
        parts = [c.copy() for c in parts]
        for c in parts:
            new = c[:, 1] * f
            c[:, 0] *= np.exp(-(new - c[:, 1]) - top * (1 - f))
            c[:, 1] = new
    rows = np.vstack(parts)
    idx = [j for j, p in enumerate(d.pars) if not p['fixed']]
    x = cov_back(root + '.covmat', d, [j for j in idx if not d.pars[j]['der']], rows)
    if x:
        return 'covmat: ' + x
    from getdist.types import MargeStats, LikeStats, ConvergeStats
    m = MargeStats(root + '.margestats')
    if m.list() != [d.names[j] for j in idx]:
        return 'margestats of %s' % m.list()
    lims = sc['contours'] or [0.68, 0.95, 0.99]
    if m.limits != lims:
        return 'margestats for limits %s, expected %s' % (m.limits, lims)
    for j in idx:
        p = m.parWithName(d.names[j])
        if not near([p.mean, p.err], [d.mean(j, rows), d.cov(j, j, rows) ** 0.5], 2e-6):
            return 'mean and deviation of %s %s, should be %s' % (p.name, (p.mean, p.err), (d.mean(j, rows), d.cov(j, j, rows) ** 0.5))
        if p.label != d.labels[j] or bool(p.isDerived) != d.pars[j]['der'] or len(p.limits) != len(lims):
            return 'entry of %s' % p.name
    k = LikeStats(root + '.likestats')
    if not near([k.logLike_sample, k.meanLogLike], [float(rows[:, 1].min()), float((rows[:, 0] * rows[:, 1]).sum() / rows[:, 0].sum())], 1e-6, 2e-6):
        return 'likelihood statistics %s' % [k.logLike_sample, k.meanLogLike]
    if not b & 4:
        c = ConvergeStats(root + '.converge')
        if len(parts) > 1 and len(c.R_eigs) < 1:
            return 'no R-1'
    if sc['thin'] > 1 and not sc['realw'] and sc['ccool'] == 1:
        import itertools
        from getdist.chains import WeightedSamples
        for perm in itertools.permutations(parts):  # (in the order in which the directory lists them)
            q = np.vstack(perm)
            ix = WeightedSamples(samples=q[:, 2:], weights=q[:, 0], loglikes=q[:, 1]).thin_indices(sc['thin'] * 3)
            x = thin_back(root + '_thin.txt', q[:, [0, 1] + [2 + j for j in idx]], [int(k) for k in ix], sc['cool'])
            if not x:
                break
        if x:
            return 'thinned samples: ' + x
    if b & 2:
        return scripts_back(s, sc, d, where, idx)
    return None


def scripts_back(s, sc, d, where, idx):
    """The plot scripts ask for the plots that were wanted, of this chain."""
    import fnmatch
    b = sc['cmd']
    out = 'other' if b & 32 else 'ch'
    names = [d.names[j] for j in idx]
    everything = [p['name'] for p in sc['pars']]
    want = {'': ('plots_1d', None)}
    if b & 64:
        want[''] = ('plots_1d', [x for x in [everything[-1]] if x in names] + [x for x in names if fnmatch.fnmatchcase(x, everything[0][:2] + '*')])
    if b & 16:
        if b & 128:
            one = [p['name'] for p in sc['pars'] if not p['fixed']][0]
            want['_2D'] = ('plots_2d', sorted([x, one] for x in names if x != one))
        else:
            pairs = [[everything[0], everything[-1]]] + ([] if b & 64 else [[everything[-1], everything[len(everything) // 2]]])
            pairs = [p for p in pairs if p[0] in names and p[1] in names]
            if pairs:
                want['_2D'] = ('plots_2d', sorted(set(map(tuple, pairs))))
        tri = names if b & 64 else [x for x in everything[::-1][:3] if x in names]
        if len(tri) > 1:
            want['_tri'] = ('triangle_plot', tri)
        if len(everything) > 2 and all(x in names for x in everything[:3]):
            want['_3D'] = ('plots_3d', [everything[:3]])
    top = s.work + '/' + where
    got = sorted(f[len(out):-3] for f in os.listdir(top) if f.endswith('.py'))
    if got != sorted(want):
        return 'plot scripts %s, expected %s' % (got, sorted(want))
    for tag, (kind, pars) in want.items():
        calls = run_plot_script(top + '/' + out + tag + '.py')
        drawn = [c for c in calls if c[0] in ('plots_1d', 'plots_2d', 'plots_3d', 'triangle_plot', 'plot_1d', 'plot_2d')]
        if len(drawn) != 1 or drawn[0][0] != kind:
            return 'script for %s plots asks for %s' % (tag or '1D', drawn)
        args, kw = list(drawn[0][1]), drawn[0][2]
        roots = kw.get('roots', args[0] if args else None)
        if [roots] if isinstance(roots, str) else list(roots) != ['ch']:
            return 'script plots %s, not the chain (ch)' % (roots,)
        v = args[1] if len(args) > 1 else next((kw[k] for k in ('params', 'param_pairs', 'sets', 'plots') if k in kw), None)
        if kind == 'plots_2d':
            v = sorted(map(tuple, v)) if v else v
            pars = sorted(map(tuple, pars))
        elif kind == 'plots_3d':
            v = [list(x) for x in v]
        elif v is not None:
            v = list(v)
        if v != pars and not (pars is None and v == names):
            return 'script for %s plots has parameters %s, asked for %s' % (tag or '1D', v, pars)
        made = [c for c in calls if c[0] == 'GetDistPlotter']
        if len(made) != 1 or os.path.abspath(str(made[0][2].get('chain_dir'))) != s.work:
            return 'script makes %s' % made
        exp = [c for c in calls if c[0] == 'export']
        if len(exp) != 1 or os.path.abspath(str(exp[0][1][0])) != top + '/' + out + tag + ('.png' if b & 512 else '.pdf'):
            return 'script exports %s' % [c[1] for c in exp]


def run_plot_script(f):
    """The calls a generated script makes to the plotting library."""
    import builtins
    calls = []

    class Settings:
        def __getattr__(self, k):
            return lambda *a, **kw: None

    class Plotter:
        def __init__(self, *a, **kw):
            calls.append(('GetDistPlotter', a, kw))
            self.settings = Settings()

        def __getattr__(self, k):
            return lambda *a, **kw: calls.append((k, a, kw))

    class Mod:
        GetDistPlotter = Plotter

        @staticmethod
        def get_subplot_plotter(*a, **kw):
            return Plotter(*a, **kw)
        get_single_plotter = get_subplot_plotter
    Mod.plots = Mod

    def imp(name, *a, **kw):
        return Mod if name.split('.')[0] == 'getdist' else builtins.__import__(name, *a, **kw)
    with open(f, encoding='utf-8') as fl:
        code = compile(fl.read(), f, 'exec')
    exec(code, {'__builtins__': dict(vars(builtins), __import__=imp), '__name__': '__main__'})
    return calls


def faults(rng, sc, base, tier):
    pts = [x for x in base.points if x[0] == 'victim' and not x[3].startswith('cache')]
    plans = write_faults(rng, pts, 6 if tier == 'quick' else 30)
    n = len([x for x in pts if x[2] == 'write'])
    if n:
        plans.append({'diskfull': dict(kind='diskfull', size=rng.choice([50, 600, 3000, 20000]))})
    return plans


def shrink(sc):
    if sc['over']:
        yield dict(sc, over=False)
    if sc['nch'] > 1:
        yield dict(sc, nch=sc['nch'] - 1)
    for j in range(len(sc['pars'])):
        if len(sc['pars']) > 1:
            yield dict(sc, pars=sc['pars'][:j] + sc['pars'][j + 1:])
    for j, p in enumerate(sc['pars']):
        for k, v in (('range', None), ('scale', 1), ('off', 0), ('comment', ''), ('label', 'x'), ('fixed', False), ('der', False)):
            if p[k] != v:
                yield dict(sc, pars=sc['pars'][:j] + [dict(p, **{k: v})] + sc['pars'][j + 1:])
    if sc['rows'] > 40:
        yield dict(sc, rows=40)
    for k, v in (('contours', None), ('label', None), ('props', None), ('cmd', 0), ('cool', 1), ('realw', False), ('ccool', 1), ('loff', 0), ('form', 0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})


def preload():
    import getdist.command_line, getdist.covmat, getdist.types
