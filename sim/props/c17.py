"""C17: results never depend on earlier queries or on changes already made."""
import hashlib
import math
import os
import random
import re
import sys

from ..core import R, cur
from ..site import Site

CONCURRENT = False

QUERIES = ['means', 'vars', 'cov', 'corr', 'limits', 'marge', 'marge', 'marge', 'like', 'like', 'den1', 'den1', 'den1', 'den1kw', 'den1likes', 'den2', 'den2', 'den2c', 'bounds', 'lims', 'gr', 'converge', 'converge', 'gr', 'summary',
           'neff', 'latex', 'covmat', 'covmat', 'pca', 'row', 'best', 'col', 'single', 'corrplots', 'plotden', 'plotden', 'plotgrid', 'kde', 'std', 'table', 'singles', 'fixed', 'uncorr', 'mix', 'den1ml', 'names', 'converge', 'summary']
CHANGES = ['reweight', 'reweight', 'cool', 'filter', 'filter', 'filterix', 'thin', 'wthin', 'burn', 'burnfrac', 'derived', 'derived', 'range', 'range', 'settings', 'settings', 'settings', 'nosettings', 'fixed',
           'copy', 'combine', 'change', 'zeros', 'minw', 'reread', 'sampler', 'sepchange', 'pickle', 'restart', 'second', 'plotnorm', 'plotnorm', 'rename', 'limits', 'setdiffs', 'setdiffs', 'nolike', 'sameini']
BAD = ['badname', 'badname2', 'badlen', 'dup', 'badfilter', 'badthin', 'badreweight', 'badranges', 'unknown', 'badsettings', 'badsettings2', 'badderrange', 'badpca', 'badcombine']
SETTINGS = [{'num_bins': 30}, {'fine_bins': 300}, {'smooth_scale_1D': 0.3}, {'smooth_scale_1D': -0.7}, {'smooth_scale_2D': 0.4}, {'smooth_scale_2D': -1.2}, {'contours': '0.5 0.9'},
            {'contours': '0.68 0.95 0.99'}, {'mult_bias_correction_order': 0}, {'boundary_correction_order': 0}, {'range_confidence': 0.02}, {'credible_interval_threshold': 0.3}, {'force_twotail': True},
            {'force_twotail': False}, {'max_frac_twotail1': 0.3, 'max_frac_twotail2': 0.4}, {'converge_test_limit': 0.8}, {'fine_bins_2D': 80}, {'range_ND_contour': 0}, {'range_ND_contour': -1},
            {'max_corr_2D': 0.5}, {'limits[p0]': '-1 2'}, {'limits[p1]': '0 N'}, {'limits[p1]': 'N 0.9'}]
LABELS = [r'\Omega_b', 'x', 'H_0']


def generate(rng, tier, i):
    npar = rng.choice([2, 3, 3, 4])
    steps = []
    # the same few things are asked again and again in between the changes
    often = [rng.choice(sorted(set(QUERIES))) for _ in range(2)]
    pick = lambda: rng.choice(often if rng.random() < 0.4 else QUERIES)
    for k in range(rng.randint(3, 9)):
        r = rng.random()
        kind = rng.choice(BAD) if r < 0.15 else 'query' if r < 0.25 else rng.choice(CHANGES)
        st = dict(op=kind, r=rng.randrange(1 << 30), obj=rng.randrange(4), q=[[pick(), rng.randrange(1 << 16)] for _ in range(rng.choice([0, 1, 1, 2, 3]))])
        if rng.random() < 0.3 and tier == 'thorough':
            st['cut'] = [rng.choice(QUERIES), rng.randrange(1 << 16), round(rng.random(), 5), 'KeyboardInterrupt']
        steps.append(st)
    return dict(npar=npar, nder=rng.choice([0, 0, 1]), nch=rng.choice([0, 1, 2, 3, 4]), rows=rng.choice([50, 80, 140]), like=rng.random() < 0.85, intw=rng.random() < 0.7, intdtype=rng.random() < 0.2,
                sampler=rng.choice([None, None, None, 'nested', 'uncorrelated']), seed=rng.randrange(1 << 30), ranges=[rng.choice([None, None, 'lo', 'hi', 'both', 'far']) for _ in range(npar)],
                ignore=rng.choice([0, 0, 0.2, 5]), share=rng.random() < 0.5, pre=[[pick(), rng.randrange(1 << 16)] for _ in range(rng.choice([0, 1, 3]))], steps=steps,
                end=[[q, rng.randrange(1 << 16)] for q in often + rng.sample(sorted(set(QUERIES)), 8)])


# ---- the reference: plain arrays and dictionaries ---------------------------------------------------------------------------
class Model:
    def __init__(self):
        self.single = False  # not made from separate chains
        self.ch = None  # chain number of each row
        self.W = self.L = self.X = None
        self.names = []  # (name, label, derived)
        self.ranges = {}
        self.settings = {}
        self.sampler = None

    def clone(self):
        import copy
        return copy.deepcopy(self)

    def fresh(self):
        """A newly made samples object with the same samples, weights, names, ranges and settings."""
        from getdist import MCSamples
        from getdist.paramnames import ParamNames, ParamInfo
        import numpy as np
        names = ParamNames()
        names.names = [ParamInfo(name=a, label=b, derived=c) for a, b, c in self.names]
        kw = dict(paramNamesFile=names, ranges={k: list(v) for k, v in self.ranges.items()} or None, settings=dict(self.settings, ignore_rows=0))
        if self.sampler:
            kw['sampler'] = self.sampler
        if self.single:
            return MCSamples(samples=self.X.copy(), weights=self.W.copy(), loglikes=None if self.L is None else self.L.copy(), **kw)
        ids = list(dict.fromkeys(self.ch.tolist()))
        sel = [self.ch == c for c in ids]
        return MCSamples(samples=[self.X[s] for s in sel], weights=[self.W[s] for s in sel], loglikes=None if self.L is None else [self.L[s] for s in sel], **kw)

    def keep(self, ix):
        self.W, self.X, self.ch = self.W[ix], self.X[ix], self.ch[ix]
        if self.L is not None:
            self.L = self.L[ix]

    def names_free(self):
        return [n for n, _, _ in self.names]


BASE = {'ignore_rows': 0, 'fine_bins': 256, 'num_bins': 40, 'fine_bins_2D': 64, 'num_bins_2D': 16}


def build(sc):
    """Arrays of the scenario, the arguments for making the object, and the model."""
    import numpy as np
    rng = random.Random(sc['seed'])
    g = np.random.RandomState(sc['seed'] % (1 << 31))
    m = Model()
    m.single = sc['nch'] == 0
    X, W, L, ch = [], [], [], []
    A = g.normal(size=(sc['npar'], sc['npar'])) * 0.4 + np.eye(sc['npar'])
    for c in range(max(1, sc['nch'])):
        n = sc['rows'] + 13 * c
        z = np.empty((n, sc['npar']))
        v = g.normal(size=sc['npar'])
        for k in range(n):
            v = 0.5 * v + 0.85 * g.normal(size=sc['npar'])
            z[k] = v
        x = z.dot(A.T)
        x[:, 1] = np.abs(x[:, 1])
        W.append(g.choice([1, 1, 1, 2, 3, 5], size=n).astype(int if sc['intdtype'] and sc['intw'] else float) * (1 if sc['intw'] else 0.37))
        L.append(0.5 * (z ** 2).sum(1) + 0.1 * g.rand(n) + 10)
        X.append(x)
        ch += [c] * n
    for j in range(sc['npar']):
        m.names.append(('p%d' % j, rng.choice(LABELS + ['p%d' % j]), j >= sc['npar'] - sc['nder']))
    allx = np.vstack(X)
    for j, r in enumerate(sc['ranges']):
        lo, hi = float(allx[:, j].min()) - 1e-3, float(allx[:, j].max()) + 1e-3
        if r:
            m.ranges['p%d' % j] = dict(lo=[lo, None], hi=[None, hi], both=[lo, hi], far=[lo - 30, hi + 30])[r]
    m.settings = dict(BASE)
    m.sampler = sc['sampler']
    from getdist.paramnames import ParamNames, ParamInfo
    names = ParamNames()
    names.names = [ParamInfo(name=a, label=b, derived=c) for a, b, c in m.names]
    args = dict(samples=X[0] if m.single else X, weights=W[0] if m.single else W, loglikes=None if not sc['like'] else L[0] if m.single else L, settings=dict(BASE), ranges={k: list(v) for k, v in m.ranges.items()} or None,
                paramNamesFile=names)
    if sc['sampler']:
        args['sampler'] = sc['sampler']
    ign = 0 if sc['sampler'] == 'nested' else sc['ignore']
    keep = []
    for c in range(max(1, sc['nch'])):
        n = len(W[c])
        # (for a single array given directly, a fraction is of the rows too)
        keep += [i >= (ign if ign >= 1 else int(round(n * ign))) for i in range(n)]
    m.W, m.X, m.L, m.ch = np.hstack(W).astype(float), allx.copy(), np.hstack(L) if sc['like'] else None, np.array(ch)
    plain = m.clone()
    m.keep(np.array(keep))
    return args, ign, m, plain


# ---- queries --------------------------------------------------------------------------------------------------------------
def P(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [P(x) for x in v]
    if isinstance(v, dict):
        return {str(k): P(x) for k, x in v.items()}
    return v


def par(m, r):
    return m.paramNames.names[r % len(m.paramNames.names)].name


def two(m, r):
    n = len(m.paramNames.names)
    return par(m, r), par(m, (r % n) + 1 + (r // n) % (n - 1))


def den(d):
    return [P(d.x[[0, -1]]), P(d.P), P(d.view_ranges), P(d.Prob(0.5 * (d.x[0] + d.x[-1])))]


def den2(d):
    return [P(d.x[[0, -1]]), P(d.y[[0, -1]]), P(d.P[::3, ::3]), P(d.view_ranges)]


def query(x, q, r, plotter=None):
    """One query of samples object x -> plain data."""
    import numpy as np
    if q == 'means':
        return [P(x.getMeans()), P(x.mean(par(x, r)))]
    if q == 'vars':
        return [P(x.getVars()), P(x.var(par(x, r)))]
    if q == 'std':
        return [P(x.std(par(x, r))), P(x.get_norm() / x.numrows), x.numrows, x.n]
    if q == 'cov':
        return [P(x.getCov()), P(x.cov([0, 1]))]
    if q == 'corr':
        return P(x.getCorrelationMatrix())
    if q == 'limits':
        return [P(x.confidence(par(x, r), 0.13, upper=bool(r & 64))), P(x.twoTailLimits(par(x, r), 0.8))]
    if q == 'marge':
        s = x.getMargeStats()
        return [[p.name, P(p.mean), P(p.err), [[P(l.lower), P(l.upper), l.onetail_upper, l.onetail_lower, l.twotail] for l in p.limits]] for p in s.names]
    if q == 'like':
        s = x.getLikeStats()
        if s is None:
            return None
        return [P(s.logLike_sample), P(s.logMeanInvLike), P(s.meanLogLike), P(s.logMeanLike), P(s.complexity), P(s.ND_cont1), P(s.ND_cont2),
                [[p.name, P(p.ND_limit_bot), P(p.ND_limit_top), P(p.bestfit_sample)] for p in s.names]]
    if q == 'den1':
        return den(x.get1DDensity(par(x, r)))
    if q == 'den1kw':
        return den(x.get1DDensity(par(x, r), **[{'num_bins': 25}, {'smooth_scale_1D': 0.5}, {'fine_bins': 200}, {'mult_bias_correction_order': 0}][r // 16 % 4]))
    if q == 'den1likes':
        if x.loglikes is None:
            return None
        d = x.get1DDensityGridData(par(x, r), meanlikes=True)
        return den(d) + [P(d.likes)]
    if q == 'den1ml':
        if x.loglikes is None:
            return None
        d = x.get1DDensity(par(x, r), meanlikes=True)
        return den(d) + [P(d.likes)]
    if q == 'names':
        out = {}
        for n in ['p0', 'p1', 'p2', 'p3', 'r0', 'r1', 'r2', 'd1', 'd2', 'f1', 'f2']:
            try:
                out[n] = P(x.mean(n))
            except Exception:
                out[n] = 'none'
            d = x.get1DDensity(n) if r & 64 and n[1] == str(r % 4) else None
            out['density ' + n] = d is not None
        return out
    if q == 'den2':
        a, b = two(x, r)
        return den2(x.get2DDensity(a, b, normalized=bool(r & 256)))
    if q == 'den2c':
        a, b = two(x, r)
        d = x.get2DDensityGridData(a, b, num_plot_contours=2, meanlikes=x.loglikes is not None)
        return den2(d) + [P(d.contours), None if d.likes is None else P(d.likes[::3, ::3])]
    if q == 'bounds':
        b = x.getBounds()
        return [b.names, {k: P(v) for k, v in b.lower.items()}, {k: P(v) for k, v in b.upper.items()}]
    if q == 'lims':
        return [[P(x.getUpper(p.name)), P(x.getLower(p.name))] for p in x.paramNames.names]
    if q == 'gr':
        return P(x.getGelmanRubin()), P(x.getGelmanRubinEigenvalues(nparam=2))
    if q == 'converge':
        return x.getConvergeTests([0.95, 0.9][r % 2], **(dict(what=['CorrLengths', 'CorrSteps', 'MeanVar', 'SplitTest']) if r & 4 else {}))
    if q == 'summary':
        # (the number of independent samples is only known once the convergence tests were made)
        return [line for line in x.getNumSampleSummaryText().split('\n') if not line.startswith('Approx indep')]
    if q == 'neff':
        return [P(x.getEffectiveSamples(r % x.n)), P(x.getCorrelationLength(r % x.n))]
    if q == 'kde':
        return [P(x.getEffectiveSamplesGaussianKDE(r % x.n)), P(x.getEffectiveSamplesGaussianKDE_2d(0, 1))]
    if q == 'uncorr':
        return P(x.getAutocorrelation(par(x, r), 5))
    if q == 'latex':
        return [x.getInlineLatex(par(x, r), limit=1 + r // 8 % 2), P(x.getLatex(limit=1))]
    if q == 'table':
        return x.getTable(limit=1).tableTex()
    if q == 'covmat':
        c = x.getCovMat()
        return [c.paramNames, P(c.matrix)]
    if q == 'pca':
        a, b = two(x, r)
        return signless(x.PCA([a, b], param_map='NN' if r & 512 else None))
    if q == 'row':
        return P(x.getParamSampleDict(r % x.numrows)) if x.loglikes is not None else None
    if q == 'best':
        return P(x.getParamBestFitDict(best_sample=True)) if x.loglikes is not None else None
    if q == 'col':
        return [P(x[par(x, r)]), P(getattr(x.getParams(), par(x, r)))]
    if q == 'single':
        return P(x.makeSingleSamples(random_state=r)) if r & 16 else P(x.random_single_samples_indices(random_state=r))
    if q == 'singles':
        return P(x.makeSingleSamples(random_state=r, single_thin=1.5))
    if q == 'corrplots':
        return x.getCorrelatedVariable2DPlots(num_plots=3)
    if q == 'fixed':
        return P(x.ranges.fixedValueDict())
    if q == 'mix':
        return [P(x.getSignalToNoise([0, 1], noise=np.eye(2), eigs_only=True)), [c.numrows for c in x.getSeparateChains()]]
    if q == 'plotden':
        d = analyser(plotter).get_density(x, par(x, r), likes=bool(r & 32) and x.loglikes is not None)
        return den(d)
    if q == 'plotgrid':
        a, b = two(x, r)
        d = analyser(plotter).get_density_grid(x, x.paramNames.parWithName(a), x.paramNames.parWithName(b), conts=2)
        return den2(d) + [P(d.contours)]
    raise KeyError(q)


def basic(m, q):
    """The simplest statistics, from the samples themselves."""
    import numpy as np
    if q not in ('means', 'vars', 'cov', 'corr') or len(m.X) < 5:
        return None
    mean = m.W.dot(m.X) / m.W.sum()
    cov = (m.X - mean).T.dot((m.X - mean) * m.W[:, None]) / m.W.sum()
    if q == 'means':
        return P(mean)
    if q == 'vars':
        return P(np.diag(cov))
    if q == 'cov':
        return P(cov)
    sd = np.sqrt(np.diag(cov))
    return None if sd.min() <= 1e-9 * np.abs(mean).max() else P(cov / np.outer(sd, sd))


def signless(text):
    """Eigenvectors are defined up to their sign."""
    return re.sub(r'(?<=[\s\d^{(])-(?=[\d.])', ' ', text)


def analyser(plotter):
    from getdist import plots
    if plotter is None:
        return plots.MCSampleAnalysis(None)
    if 'a' not in plotter:
        plotter['a'] = plots.MCSampleAnalysis(None)
    return plotter['a']


def ask(x, q, r, plotter=None):
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return query(x, q, r, plotter)
    except Exception as e:
        import traceback
        return 'raises %s' % type(e).__name__, '%s %s' % (e, traceback.format_exc()[-400:])


SCALE = [1e-3]
NUM = re.compile(r'[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?')


def same(a, b, rtol=2e-5):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and str(a[0]).startswith('raises'):
        return a[0] == b[0]
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return True
        if NUM.sub('#', a).split() != NUM.sub('#', b).split():
            return False
        for u, v in zip(NUM.findall(a), NUM.findall(b)):
            if abs(float(u) - float(v)) <= rtol * abs(float(u)):
                continue
            last = 10.0 ** -(len(u.split('e')[0].split('E')[0].partition('.')[2]))
            if 'e' in u.lower():
                last *= 10.0 ** int(re.split('[eE]', u)[1])
            if abs(float(u) - float(v)) > 1.01 * last + 1e-4 * abs(float(u)):
                return False
        return True
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= rtol * (SCALE[0] + max(abs(a), abs(b)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], rtol) for k in a)
    return a == b


# kernel bandwidths come from an iterative optimization, which magnifies rounding differences
TOL = dict(den1=3e-3, den1kw=3e-3, den1likes=1e-2, den1ml=1e-2, den2=5e-3, den2c=1e-2, plotden=3e-3, plotgrid=5e-3, marge=2e-3, latex=5e-3, table=5e-3, gr=1e-4)


def cut_query(x, q, r, frac, exc, plotter, note):
    """Runs a query that is interrupted part way (at a line chosen among those it would execute)."""
    import copy
    import getdist
    base = os.path.dirname(getdist.__file__) + os.sep
    count = [0, None]
    E = KeyboardInterrupt  # (a failing allocation may be taken as a failed bandwidth estimate)

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[1] is not None and count[0] == count[1]:
                raise E()
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(base) else None

    y = copy.deepcopy(x)
    p2 = {} if plotter is not None else None
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        ask(y, q, r, p2)
    finally:
        sys.settrace(old)
    n = count[0]
    if n < 1:
        return
    count[0], count[1] = 0, 1 + int(frac * n) % n
    sys.settrace(trace)
    try:
        ask(x, q, r, plotter)
    except E:
        note('interrupted queries')
    finally:
        sys.settrace(old)


# ---- changes --------------------------------------------------------------------------------------------------------------
class Bad(Exception):
    pass


def scaled(w):
    return w / w.max()


class History:
    def __init__(self, sc, res):
        self.sc, self.res = sc, res
        self.objs = []  # [samples object, model]
        self.log = []
        self.plotter = {}
        self.extra = 0

    def violate(self, sig, text):
        if not self.res.violations:
            self.res.violate(sig, text + '  [history: %s]' % ', '.join(self.log[-12:]))

    def start(self):
        from getdist import MCSamples
        args, ign, m, plain = build(self.sc)
        kw = dict(args)
        if ign:
            kw['ignore_rows'] = ign
        a = MCSamples(**kw)
        self.objs.append([a, m])
        if self.sc['share']:  # another one made from the same arrays and the same settings
            b = MCSamples(**args)
            self.objs.append([b, plain])
        for o, mm in self.objs:
            self.arrays(o, mm, 'made')

    def arrays(self, x, m, what):
        """The samples held are those the reference says; then the reference takes the exact values."""
        import numpy as np
        if x.samples is None or x.samples.shape != m.X.shape or len(x.weights) != len(m.W) or (x.loglikes is None) != (m.L is None) or (m.L is not None and len(x.loglikes) != len(m.L)):
            return self.violate('wrong-samples', 'after %s: %s values, expected %s' % (what, None if x.samples is None else x.samples.shape, m.X.shape))
        if not np.allclose(x.samples, m.X, rtol=1e-9, atol=0):
            return self.violate('wrong-samples', 'after %s: samples differ' % what)
        if not np.allclose(scaled(x.weights), scaled(m.W), rtol=1e-7, atol=0):
            return self.violate('wrong-samples', 'after %s: weights differ' % what)
        if m.L is not None and not np.allclose(x.loglikes, m.L, rtol=1e-9):
            return self.violate('wrong-samples', 'after %s: likelihoods differ' % what)
        if x.paramNames.list() != m.names_free():
            return self.violate('wrong-samples', 'after %s: parameters %s, expected %s' % (what, x.paramNames.list(), m.names_free()))
        m.X, m.W = np.array(x.samples), np.array(x.weights)
        if m.L is not None:
            m.L = np.array(x.loglikes)

    def compare(self, x, m, q, r):
        got = ask(x, q, r, self.plotter)
        SCALE[0] = 1. if q.startswith(('den', 'plot')) else 1e-3
        want = ask(m.fresh(), q, r, None)
        self.res.note('comparisons')
        ref = basic(m, q)
        if ref is not None and not same(ref, got if q == 'corr' or isinstance(got, tuple) else got[0], 1e-6):
            self.violate('depends-on-history', '%s gives %s, the samples have %s' % (q, str(got)[:200], str(ref)[:200]))
        if q == 'summary' and not isinstance(got, tuple):
            line = [a for a in x.getNumSampleSummaryText().split('\n') if a.startswith('Approx indep')]
            if line:
                y = m.fresh()
                y.getConvergeTests(what=['CorrLengths'])
                ref = [a for a in y.getNumSampleSummaryText().split('\n') if a.startswith('Approx indep')]
                if not ref or abs(int(ref[0].split()[-1]) - int(line[0].split()[-1])) > 1:
                    self.violate('depends-on-history', 'summary gives %s, a newly made object %s' % (line, ref))
        if not same(want, got, TOL.get(q, 2e-5)):
            self.violate('depends-on-history', '%s(%d) gives %s, a newly made object %s' % (q, r, *first(got, want, TOL.get(q, 2e-5))))

    def step(self, st):
        k = st['obj'] % len(self.objs)
        x, m = self.objs[k]
        op = st['op']
        self.log.append(op)
        if 'cut' in st:
            q, r, frac, exc = st['cut']
            cut_query(x, q, r, frac, exc, self.plotter, lambda k: self.res.inject('interrupt'))
            self.log.append('interrupted ' + q)
        if op != 'query':
            self.res.note('op:' + op)
            if op in BAD:
                self.res.inject('failing call')
            try:
                with_quiet(self.change, op, random.Random(st['r']), k)
            except Bad as e:
                return self.violate('op-fails', str(e))
        x, m = self.objs[k] if k < len(self.objs) else self.objs[-1]
        self.arrays(x, m, op)
        if self.res.violations:
            return
        for q, r in st['q']:
            kk = k if r % 3 else r % len(self.objs)
            self.compare(self.objs[kk][0], self.objs[kk][1], q, r)
            if self.res.violations:
                return

    def change(self, op, rng, k):
        import numpy as np
        import pickle
        from getdist import MCSamples
        x, m = self.objs[k]
        n = len(m.W)

        def do(fn, *a, **kw):
            try:
                return fn(*a, **kw)
            except Exception as e:
                import traceback
                raise Bad('%s raises %s: %s %s' % (op, type(e).__name__, e, traceback.format_exc()[-500:]))

        def must_raise(fn, *a, **kw):
            try:
                fn(*a, **kw)
            except Exception:
                return
            raise Bad('%s does not raise' % op)

        g = np.random.RandomState(rng.randrange(1 << 30))
        integer = np.all(np.abs(m.W - np.round(m.W)) < 1e-9)
        if op == 'reweight':
            ll = 0.5 * (m.X[:, 0] - m.X[:, 0].mean()) ** 2 / (m.X[:, 0].var() * rng.choice([2., 6.])) + 0.2 * g.rand(n)
            keep = ll.copy()
            do(x.reweightAddingLogLikes, ll)
            if not np.array_equal(ll, keep):
                raise Bad('reweighting changes the likelihoods given')
            m.W = m.W * np.exp(-ll)
            if m.L is not None:
                m.L = m.L + ll
        elif op == 'cool':
            if m.L is None:
                return
            c = rng.choice([0.8, 1.2, 1.5])
            do(x.cool, c)
            m.W = m.W * np.exp(-(c - 1) * (m.L - m.L.min()))
            m.L = m.L * c
        elif op in ('filter', 'filterix'):
            if n < 60:
                return
            where = g.rand(n) < rng.choice([0.6, 0.8, 0.95])
            if not enough(m, where):
                return
            arg = where if op == 'filter' else np.nonzero(where)[0]
            if rng.random() < 0.3:
                arg = arg.tolist()
            do(x.filter, arg)
            m.keep(where)
        elif op in ('thin', 'wthin', 'badthin'):
            f = rng.choice([1, 2, 2, 3])
            if not integer or op == 'badthin':
                if op == 'badthin' and integer:
                    must_raise(x.thin, 2.5)
                elif abs(m.W.sum() - m.W.astype(int).sum()) > 1e-3:
                    must_raise(x.thin if op == 'thin' else x.weighted_thin, f)
                return
            if n < 80 or m.W.sum() / f < 60:
                return
            old = m.clone()
            do(x.thin if op == 'thin' else x.weighted_thin, f)
            self.thinned(x, m, old, f, op)
        elif op in ('burn', 'burnfrac'):
            if n < 70:
                return
            f = rng.choice([0.1, 0.25, 7, 0.45]) if op == 'burn' else rng.choice([0.1, 0.3, 0.5])
            ix = int(f) if f >= 1 else int(round(n * f))
            if not enough(m, np.arange(n) >= ix, whole=True):
                return
            do(x.removeBurn if op == 'burn' else x.removeBurnFraction, f)
            m.keep(np.arange(n) >= ix)
        elif op == 'derived':
            self.extra += 1
            name = 'd%d' % self.extra
            v = [lambda: m.X[:, 0] * 2 + m.X[:, 1], lambda: m.X[:, 1] ** 2, lambda: np.abs(m.X[:, 0])][rng.randrange(3)]()
            kw = {}
            if rng.random() < 0.5:
                kw['range'] = rng.choice([[float(v.min()) - 1e-3, None], [None, float(v.max()) + 1e-3], (float(v.min()) - 1e-3, float(v.max()) + 5)])
            p = do(x.addDerived, v, name, label='L' + name, **kw)
            if p.name != name:
                raise Bad('addDerived returns %s' % p.name)
            m.X = np.c_[m.X, v]
            m.names.append((name, 'L' + name, True))
            if kw:
                m.ranges[name] = list(kw['range'])
        elif op in ('range', 'limits'):
            j = rng.randrange(len(m.names))
            name = m.names[j][0]
            lo, hi = float(m.X[:, j].min()), float(m.X[:, j].max())
            val = rng.choice([[lo - 1e-3, hi + 1e-3], [lo - 40, hi + 1e-3], [lo - 1e-3, hi + 9]])
            if op == 'limits':
                do(x.updateSettings, {'limits[%s]' % name: '%r %r' % tuple(val)})
                m.settings['limits[%s]' % name] = '%r %r' % tuple(val)
            else:
                form = rng.randrange(3)
                if form == 1:
                    import copy
                    b = copy.deepcopy(x.ranges)
                    b.setRange(name, val)
                    do(x.setRanges, b)
                else:
                    do(x.setRanges, [val] if form == 2 and j == 0 else {name: val})
                if 'limits[%s]' % name in m.settings:
                    old = m.settings['limits[%s]' % name].split()
                    val = [val[i] if old[i] == 'N' else float(old[i]) for i in (0, 1)]
            m.ranges[name] = val
        elif op in ('settings', 'nosettings'):
            s = rng.choice(SETTINGS)
            for key in s:
                if key.startswith('limits['):
                    name = key[7:-1]
                    if name not in m.names_free():
                        return
                    j = m.names_free().index(name)
                    a = s[key].split()
                    if a[0] != 'N' and float(a[0]) > m.X[:, j].min() or a[1] != 'N' and float(a[1]) < m.X[:, j].max():
                        return
                    old = m.ranges.get(name, [None, None])
                    m.ranges[name] = [old[0] if a[0] == 'N' else float(a[0]), old[1] if a[1] == 'N' else float(a[1])]
            given = dict(s)
            do(x.updateSettings, given, **({} if op == 'settings' else dict(doUpdate=False)))
            if given != s:
                raise Bad('updateSettings changes the settings given')
            m.settings.update(s)
        elif op == 'fixed':
            self.extra += 1
            name = 'f%d' % self.extra
            do(x.addDerived, np.full(n, 0.75), name)
            do(x.deleteFixedParams)
            m.ranges[name] = [0.75, 0.75]
        elif op == 'setdiffs':
            do(x.setDiffs)
            self.compare(x, m, 'cov', 0)
        elif op == 'nolike':
            do(x.setSamples, np.array(m.X), np.array(m.W))
            m.L = None
        elif op == 'sameini':
            import getdist
            ini = getdist.IniFile(getdist.default_getdist_settings)
            ini.params.update({a: b for a, b in m.settings.items()})
            before = dict(ini.params)
            kw = dict(settings={'num_bins': 37}) if rng.random() < 0.5 else {}
            do(x.updateSettings, ini=ini, **kw)
            if dict(ini.params) != before:
                raise Bad('updateSettings changes the settings object given')
            m.settings.update(kw.get('settings', {}))
            m2 = m.clone()
            m2.settings = {a: b for a, b in before.items()}
            y = m2.fresh()
            do(y.updateSettings, ini=ini)
            self.add(y, m2)
        elif op == 'copy':
            s = rng.choice([None, None, {'num_bins': 33}, {'contours': '0.3 0.7'}])
            y = do(x.copy, settings=s) if s else do(x.copy)
            m2 = m.clone()
            m2.settings.update(s or {})
            self.add(y, m2)
        elif op == 'combine':
            k2 = rng.randrange(len(self.objs))
            y, m2 = self.objs[k2]
            if n + len(m2.W) > 900:
                return
            sw = rng.choice([(1, 1), (2, 1), None])
            z = do(x.getCombinedSamplesWithSamples, y, sample_weights=sw)
            new = Model()
            new.single = True
            common = [nm for nm in m2.names if nm[0] in m.names_free()]
            new.names = common
            f1, f2 = (1, 1) if sw is None else (sw[0], sw[1] * m.W.sum() / m2.W.sum())
            new.W = np.r_[m.W * f1, m2.W * f2]
            if m.L is not None and m2.L is not None:
                new.L = np.r_[m.L, m2.L]
            i1 = [m.names_free().index(nm[0]) for nm in common]
            i2 = [m2.names_free().index(nm[0]) for nm in common]
            new.X = np.r_[m.X[:, i1], m2.X[:, i2]]
            new.ch = np.zeros(len(new.W), int)
            new.ranges = {a: list(b) for a, b in m.ranges.items()}
            new.settings = dict(m.settings)
            self.arrays(z, new, 'combining')
            self.add(z, new)
        elif op == 'change':
            a = np.array(m.X)
            a[:, 1] = a[:, 1] * 1.5 + 0.01
            do(x.changeSamples, a.copy())
            m.X = a
            lim = m.ranges.get(m.names[1][0])
            if lim and (lim[0] is not None and lim[0] > a[:, 1].min() or lim[1] is not None and lim[1] < a[:, 1].max()):
                self.widen(x, m, 1)
        elif op == 'zeros':
            do(x.deleteZeros)
        elif op == 'minw':
            r = 0.25
            where = m.W > m.W.max() * r
            if not enough(m, where) or np.any(np.abs(m.W / m.W.max() - r) < 1e-9):
                return
            do(x.setMinWeightRatio, r)
            if not where.all():
                m.keep(where)
        elif op == 'reread':
            single = rng.random() < 0.4
            new = Model()
            n1 = 90
            sets = [m.X[g.permutation(n)[:n1 // 2 + 5 * c + 10]] for c in range(1 if single else rng.choice([1, 2, 3]))]
            if any(len(s) < 40 for s in sets):
                return
            sets = [s * (1 + 1e-4 * g.rand(*s.shape)) for s in sets]
            W = [g.choice([1., 2., 3.], size=len(s)) for s in sets]
            L = [g.rand(len(s)) * 4 + 5 for s in sets]
            for j in range(m.X.shape[1]):
                self.widen(x, m, j, np.vstack(sets)[:, j])
            x.updateSettings({'ignore_rows': 0}, doUpdate=False)
            do(x.readChains, sets[0].copy() if single else [s.copy() for s in sets], W[0].copy() if single else [w.copy() for w in W], L[0].copy() if single else [v.copy() for v in L])
            m.single = single
            m.X, m.W, m.L = np.vstack(sets), np.hstack(W), np.hstack(L)
            m.ch = np.hstack([[c] * len(s) for c, s in enumerate(sets)])
        elif op == 'sampler':
            s = rng.choice(['mcmc', 'nested', 'uncorrelated'])
            do(x.setSampler, s)
            m.sampler = s
        elif op == 'sepchange':
            if m.single:
                return
            c = do(x.getSeparateChains)
            if m.L is not None:
                c[0].cool(1.4)
            c[-1].reweightAddingLogLikes(g.rand(c[-1].numrows))
            c[0].removeBurn(0.3)
        elif op == 'pickle':
            path = cur().world.root + '/work/x.pkl'
            do(x.savePickle, path)
            with open(path, 'rb') as f:
                y = pickle.load(f)
            self.objs[k] = [y, m]
        elif op == 'second':
            y = m.fresh()
            self.add(y, m.clone())
        elif op == 'plotnorm':
            import matplotlib
            matplotlib.use('Agg')
            from getdist import plots
            if 'p' not in self.plotter:
                self.plotter['p'] = plots.get_single_plotter(chain_dir=cur().world.root + '/work', width_inch=3)
            pl = self.plotter['p']
            self.plotter['a'] = pl.sample_analyser
            pl.settings.plot_meanlikes = False
            norm = rng.random() < 0.7
            name = par(x, rng.randrange(1 << 16))
            pl.make_figure(1)
            do(pl.add_1d, x, name, normalized=norm)
            line = pl.get_axes().get_lines()[-1]
            d = m.fresh().get1DDensity(name)
            if norm:
                d.normalize()
            SCALE[0] = 1.
            if not same([P(d.x), P(d.P)], [P(line.get_xdata()), P(line.get_ydata())], 3e-3):
                self.violate('depends-on-history', 'the %s density line drawn for %s peaks at %s, for a newly made object at %s' % ('normalized' if norm else '', name, max(line.get_ydata()), max(d.P)))
        elif op == 'labels':
            from getdist.paramnames import ParamNames
            f = cur().world.root + '/work/labels.paramnames'
            with open(f, 'w') as h:
                for a, b, c in m.names:
                    h.write('%s%s  other %s\n' % (a, '' if c else '*', a))
            names = do(analyser(self.plotter).params_for_root, x, label_params=f)
            if names.parWithName(m.names[0][0]).label != 'other ' + m.names[0][0]:
                raise Bad('label not taken from the file')
        elif op == 'rename':
            new = [(a.replace('p', 'r') if a.startswith('p') and rng.random() < 0.3 else a, b, c) for a, b, c in m.names]
            if any(a[0] in m.ranges or 'limits[%s]' % a[0] in m.settings or b[0] in m.ranges for a, b in zip(m.names, new) if a[0] != b[0]):
                return
            from getdist.paramnames import ParamNames, ParamInfo
            names = ParamNames()
            names.names = [ParamInfo(name=a, label=b, derived=c) for a, b, c in new]
            do(x.setParamNames, names)
            m.names = new
        elif op == 'badname':
            must_raise(x.addDerived, m.X[:, 0] * 2, rng.choice(['a b', 'a*', 'x?']))
        elif op == 'badname2':
            must_raise(x.addDerived, m.X[:, 0] * 2, 'zz', rng.choice(['l']), 'c', ['a', 'b'])
        elif op == 'badlen':
            must_raise(x.addDerived, m.X[:-3, 0], 'zz', range=[-100, 100])
        elif op == 'dup':
            must_raise(x.addDerived, m.X[:, 0], m.names[rng.randrange(len(m.names))][0], range=[-3, 3])
        elif op == 'badfilter':
            must_raise(x.filter, rng.choice([np.ones(n - 5, bool), [0, 1, n + 7], np.ones(n + 4, bool)]))
        elif op == 'badreweight':
            must_raise(x.reweightAddingLogLikes, g.rand(n - 4))
        elif op == 'badranges':
            must_raise(x.setRanges, 7)
        elif op == 'badderrange':
            must_raise(x.addDerived, m.X[:, 0], 'zz', range=[1])
        elif op == 'unknown':
            def f():
                z = x.get1DDensity('nosuch')
                if z is None:
                    raise KeyError()
            must_raise(f)
            must_raise(x.getInlineLatex, 'nosuch')
            must_raise(x.mean, 'nosuch')
        elif op in ('badsettings', 'badsettings2'):
            key, bad, good = [('contours', '0.68', '0.4 0.8'), ('range_ND_contour', 5, 1), ('boundary_correction_order', 7, 0), ('max_corr_2D', 2.5, 0.9), ('num_bins', 'many', 44)][rng.randrange(5)]
            try:
                x.updateSettings({key: bad})
            except Exception:
                pass
            for q in ('marge', 'den2', 'like')[:rng.choice([0, 1, 3])]:
                ask(x, q, 5, self.plotter)
            do(x.updateSettings, {key: good}, **({} if op == 'badsettings' else dict(doUpdate=False)))
            m.settings[key] = good
        elif op == 'badpca':
            must_raise(x.PCA, [m.names[0][0], m.names[1][0]], conditional_params=['nosuch'])
        elif op == 'badcombine':
            must_raise(x.getCombinedSamplesWithSamples, None)
        else:
            raise KeyError(op)

    def widen(self, x, m, j, values=None):
        name = m.names[j][0]
        v = m.X[:, j] if values is None else values
        lim = m.ranges.get(name)
        if lim:
            lo, hi = float(v.min()) - 1, float(v.max()) + 1
            val = [None if lim[0] is None else min(lim[0], lo), None if lim[1] is None else max(lim[1], hi)]
            if 'limits[%s]' % name in m.settings:
                text = ' '.join('N' if a is None else repr(a) for a in val)
                x.updateSettings({'limits[%s]' % name: text}, doUpdate=False)
                m.settings['limits[%s]' % name] = text
            x.setRanges({name: val})
            m.ranges[name] = val

    def thinned(self, x, m, old, f, op):
        import numpy as np
        key, mult, where = {}, {}, {}
        for i, v in enumerate(old.X[:, 0].tolist()):
            # (a sample repeated by earlier thinning counts as one)
            r = key[v] if v in key and i > 0 and old.X[i - 1, 0] == v else i
            key[v] = r
            mult[r] = mult.get(r, 0) + old.W[i]
            if r == i:
                where.setdefault(v, []).append(i)
        rows, last = [], 0
        for v in x.samples[:, 0].tolist():
            rows.append(next((r for r in where.get(v, []) if r >= last), None))
            last = rows[-1] or last
        if None in rows or sorted(rows) != rows:
            raise Bad('%s does not give a selection of the samples in their order' % op)
        w = np.asarray(x.weights, dtype=float)
        if op == 'thin':
            if not np.all(w == 1):
                raise Bad('thinned samples do not have unit weight')
            total = {0: old.W.sum()}
            got = {0: w.sum()}
        else:
            total, got = {}, {}
            for i, c in enumerate(old.ch.tolist() if not old.single else [0] * len(old.W)):
                total[c] = total.get(c, 0) + old.W[i]
            for i, r in enumerate(rows):
                c = 0 if old.single else old.ch[r]
                got[c] = got.get(c, 0) + w[i]
        for c in total:
            if abs(got.get(c, 0) - total[c] / f) > 1.01:
                raise Bad('thinning weight %s by %d gives %s' % (total[c], f, got.get(c, 0)))
        use = {}
        for i, r in enumerate(rows):
            use[r] = use.get(r, 0) + w[i]
        for r, u in use.items():
            if u > (mult[r] + f - 1) // f + 1:
                raise Bad('a sample of weight %s is used %s times' % (mult[r], u))
        m.keep(rows)
        m.W = w

    def add(self, y, m):
        if len(self.objs) < 4:
            self.objs.append([y, m])
        else:
            self.objs[3] = [y, m]


def first(a, b, tol):
    """The parts in which two results first differ."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and not (a and str(a[0]).startswith('raises')):
        for u, v in zip(a, b):
            if not same(v, u, tol):
                x, y = first(u, v, tol)
                return ('[%s] ' % show(a[0]) if isinstance(a[0], str) and len(a) > 1 else '') + x, y
    return show(a), show(b)


def show(v):
    s = str(v)
    return s if len(s) < 260 else s[:260] + '..'


def enough(m, where, whole=False):
    """Rows enough in every chain for the statistics to be defined (whole: chains may go entirely)."""
    import numpy as np
    where = np.asarray(where)
    for c in set(m.ch.tolist()):
        k = int(where[m.ch == c].sum())
        if k < 25 and not (whole and k == 0):
            return False
    return int(where.sum()) >= 45 and (m.single or not whole or len(set(m.ch[where].tolist())) > 1 or len(set(m.ch.tolist())) == 1)


def with_quiet(fn, *a):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a)


def preload():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot
    import scipy.interpolate
    import numpy


def execute(sc, choices, tag, res):
    with Site(tag, choices, flavour=None, scenario=sc, max_steps=60000) as s:
        res.worlds.append(s.world)
        s.write('work/.keep', '')
        h = History(sc, res)
        steps = [dict(st) for st in sc['steps']]
        parts = [[]]
        for st in steps:
            if st['op'] == 'restart':
                parts.append([])
            else:
                parts[-1].append(st)
        path = s.work + '/%d.pkl'

        def part(i):
            import logging
            import pickle
            logging.disable(logging.CRITICAL)
            if i == 0:
                h.start()
                for q, r in sc['pre']:
                    x, m = h.objs[r % len(h.objs)]
                    h.compare(x, m, q, r)
                    h.log.append(q)
            else:
                for k, o in enumerate(h.objs):
                    with open(path % k, 'rb') as f:
                        o[0] = pickle.load(f)
                h.log.append('restart')
                res.inject('process restart')
            for st in parts[i]:
                if res.violations:
                    return
                h.step(st)
            if res.violations:
                return
            if i + 1 < len(parts):
                for k, o in enumerate(h.objs):
                    o[0].savePickle(path % k)
                    o[0] = None
                h.plotter.clear()
            else:
                for j, (q, r) in enumerate(sc['end']):
                    x, m = h.objs[j % len(h.objs)]
                    h.arrays(x, m, 'the end')
                    h.compare(x, m, q, r)
                    if res.violations:
                        return

        for i in range(len(parts)):
            _, p = s.call(part, i)
            if p is not None:
                res.harness.append(p.stderr[-3000:])
                return
            if res.violations:
                return
        res.nontrivial = True
        res.state = hashlib.md5(repr([(st['op'], st['obj'], [q for q, _ in st['q']], st.get('cut', [''])[0]) for st in steps]).encode()).hexdigest()[:12]


def shrink(sc):
    for i in range(len(sc['steps'])):
        yield dict(sc, steps=sc['steps'][:i] + sc['steps'][i + 1:])
    for i, st in enumerate(sc['steps']):
        if 'cut' in st:
            yield dict(sc, steps=sc['steps'][:i] + [{k: v for k, v in st.items() if k != 'cut'}] + sc['steps'][i + 1:])
        for j in range(len(st['q'])):
            yield dict(sc, steps=sc['steps'][:i] + [dict(st, q=st['q'][:j] + st['q'][j + 1:])] + sc['steps'][i + 1:])
    for j in range(len(sc['pre'])):
        yield dict(sc, pre=sc['pre'][:j] + sc['pre'][j + 1:])
    for j in range(len(sc['end'])):
        yield dict(sc, end=sc['end'][:j] + sc['end'][j + 1:])
    if sc['share']:
        yield dict(sc, share=False)
    if sc['ignore']:
        yield dict(sc, ignore=0)
