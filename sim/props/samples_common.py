"""Sample files and comparisons of sample objects."""
import math

ATTRS = ['ignore_rows', 'min_weight_ratio', 'range_ND_contour', 'range_confidence', 'num_bins', 'fine_bins', 'num_bins_2D', 'fine_bins_2D', 'smooth_scale_1D', 'smooth_scale_2D',
         'boundary_correction_order', 'mult_bias_correction_order', 'num_bins_ND', 'max_scatter_points', 'credible_interval_threshold', 'plot_output', 'force_twotail', 'max_corr_2D', 'contours',
         'max_frac_twotail', 'converge_test_limit', 'corr_length_thin', 'corr_length_steps', 'no_warning_params', 'no_warning_chi2_params', 'label', 'sampler', 'root', 'rootname', 'name_tag',
         'batch_path', 'markers', 'numrows', 'n']


def make_rows(rng, n, p):
    """n rows of weight, likelihood and p parameter values (correlated enough to look like a chain)."""
    rows = []
    x = [rng.gauss(0.5, 0.3) for _ in range(p)]
    for _ in range(n):
        x = [0.6 * a + 0.4 * rng.gauss(0.5, 0.4) for a in x]
        rows.append([float(rng.choice([1, 1, 1, 2, 3, 7])), sum(a * a for a in x) * 3 + rng.random()] + list(x))
    return rows


def row_text(row):
    return ''.join('%16.7E' % v for v in row) + '\n'


def rows_text(rows):
    return ''.join(row_text(r) for r in rows)


def plain(v):
    """Value as simple Python types."""
    import numpy as np
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, np.generic):
        return v.item()
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return str(v)


def summary(m, deep=False):
    """Everything about a samples object that its user can see and that loading determines."""
    import numpy as np
    import getdist
    out = {}
    ll = m.loglikes if m.loglikes is not None else np.zeros(m.numrows)
    out['rows'] = sorted(np.c_[m.weights, ll, m.samples].tolist())
    out['names'] = [(p.name, p.label, bool(p.isDerived)) for p in m.paramNames.names]
    out['ranges'] = {n: (m.ranges.getLower(n), m.ranges.getUpper(n)) for n in m.ranges.names}
    a = {k: plain(getattr(m, k, None)) for k in ATTRS}
    out['settings'] = {k: str(v) for k, v in m.ini.params.items()}
    out['properties'] = {k: str(v) for k, v in m.properties.params.items()}
    ini = getdist.IniFile(getdist.default_getdist_settings)
    a['default_ignore'] = ini.float('ignore_rows', 0.)
    out['attrs'] = a
    out['means'] = plain(m.getMeans())
    out['vars'] = plain(m.getVars())
    out['cov'] = plain(m.getCov())
    out['limits'] = plain([m.confidence(p.name, 0.1, upper=u) for p in m.paramNames.names for u in (0, 1)])
    out['bounds'] = [(p.limmin, p.limmax) for p in m.paramNames.names]
    if deep:
        try:
            out['marge'] = str(m.getMargeStats())
            out['like'] = str(m.getLikeStats())
            d = m.get1DDensity(m.paramNames.names[0].name)
            out['density'] = plain(d.P)[::37]
        except Exception as e:
            out['deep-error'] = '%s: %s' % (type(e).__name__, e)
    return out


def close(a, b, rtol=1e-7):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= rtol * (1e-5 + max(abs(a), abs(b)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], rtol) for k in a)
    return a == b


def difference(ref, got, rtol=1e-7):
    """First part in which two summaries differ (text), or None."""
    for k in ref:
        if k not in got:
            return 'no %s' % k
        if not close(ref[k], got[k], rtol):
            if isinstance(ref[k], dict):
                d = {x for x in set(ref[k]) | set(got[k]) if not close(ref[k].get(x, 'absent'), got[k].get(x, 'absent'), rtol)}
                x = sorted(d)[0]
                return '%s %s = %s, expected %s' % (k, x, got[k].get(x, 'absent'), ref[k].get(x, 'absent'))
            if k == 'rows' and len(ref[k]) != len(got[k]):
                return '%d rows, expected %d' % (len(got[k]), len(ref[k]))
            return '%s %s, expected %s' % (k, str(got[k])[:300], str(ref[k])[:300])
    for k in got:
        if k not in ref:
            return 'additional %s %s' % (k, got[k])
    return None
