"""C20: result tables show each run's own current results."""
import ast
import itertools
import os
import random
import re

from ..core import R
from .jobs_common import *
from .grid_common import PNAMES

P_SWITCH = [0.05, 0.2, 0.4]
LIMITS = [0.68, 0.95, 0.99]
KINDS = [('CMB', 'TT'), ('CMB', 'low_l'), ('BAO', 'sdss'), ('prior', 'cal'), ('lensing', 'TT'), ('prior', 'TT')]
EMPTY = 'empty'


def preload():
    import getdist.mcsamples
    import getdist.types


# -- results of a run ------------------------------------------------------------------------------------------------
def result(seed, st):
    """One version of the results of a run, from a seed: values by file."""
    r = random.Random(seed)
    v = dict(marge=None, mini=None, like=None, conv=None)
    names = PNAMES[:st['np']] + ([('chi2_TT', '\\chi^2_{TT}', True)] if st['chi2'] else [])
    if st['dist']:
        rows = []
        for n, lab, der in names:
            scale = 10.0 ** r.choice([-6, -3, -2, -1, 0, 0, 1, 2])
            mean = scale * r.uniform(1, 9) * r.choice([1, 1, -1])
            err = abs(mean) * r.choice([0.003, 0.02, 0.1, 0.4]) * r.uniform(0.8, 1.2)
            if n.startswith('chi2'):
                mean, err = abs(mean) + 5, r.uniform(1, 6)
            lims = []
            kind = r.choice(['two', 'two', 'two', '>', '<', 'none', 'mix'])
            for k in range(st['nlim']):
                t = kind if kind != 'mix' else r.choice(['two', '>', '<', 'none'])
                a, b = r.choice([1, 1.02, 1.5]), 1
                lims.append(('%.7E' % (mean - (k + 1) * a * err), '%.7E' % (mean + (k + 1) * b * err), t))
            rows.append((n, lab, der, '%.7E' % mean, '%.7E' % err, lims))
        v['marge'] = rows
        v['like'] = round(r.uniform(5, 900), 4) if st['like'] else None
        v['conv'] = '%.5f' % r.choice([0.004, 0.0104, 0.03, 0.1032, 0.2]) if r.random() < 2 else None
    if st['mini']:
        v['mini'] = dict(loglike=round(r.uniform(5, 900), 4), pars=[(n, lab, der, '%.7E' % (10.0 ** r.choice([-3, -1, 0, 1]) * r.uniform(1, 9))) for n, lab, der in names[:st['npm']]],
                         parts=[(k, n, round(r.uniform(0, 300), 3)) for k, n in r.sample(KINDS, r.choice([0, 1, 3, 5]))])
    return v


def marge_text(v, nlim):
    out = ['Marginalized limits: ' + '; '.join(str(x) for x in LIMITS[:nlim]), '', 'parameter  mean sddev ...']
    for n, lab, der, mean, err, lims in v['marge']:
        out.append('%-20s %s %s %s   %s' % (n + ('*' if der else ''), mean, err, ' '.join('%s %s  %-5s' % x for x in lims), lab))
    return '\n'.join(out) + '\n'


def mini_text(m):
    out = [' -log(Like) =   %.6f' % m['loglike'], '  chi-sq    =   %.6f' % (2 * m['loglike']), '']
    k = 0
    for block in (0, 1, 2):
        if block == 1:
            out.append('%5d  %.7E   %-22s%s' % (k + 1, 1.5, 'fixa', 'f_a'))
            k += 1
        else:
            for n, lab, der, x in m['pars']:
                if der == (block == 2):
                    k += 1
                    out.append('%5d  %s   %-22s%s' % (k, x, n, lab))
        out.append('')
    out += [' -log(Like)     chi-sq   data'] + ['   %.3f   %.3f   %s: tag = %s' % (c / 2, c, kd, n) for kd, n, c in m['parts']]
    return '\n'.join(out) + '\n'


def text_of(what, v, st):
    if v[what] is None:
        return None
    if what == 'marge':
        return marge_text(v, st['nlim'])
    if what == 'mini':
        return mini_text(v['mini'])
    if what == 'like':
        return 'Best fit sample -log(Like) = %f\nLn(mean 1/like) = 3.0\nmean(-Ln(like)) = %f\n-Ln(mean like)  = 2.0\n' % (v['like'] - 1, v['like'])
    return '\n var(mean)/mean(var) for eigenvalues\n   1  0.00001\n   2  %s\n\n' % v['conv']


def padded(t):
    """The text with its first line filled up: all versions of a file have one length, so that a reader who meets a rewrite sees old or new rows, not the end of the
    new text after all of the old one."""
    a, b = t.split('\n', 1)
    return a + ' ' * (4000 - len(t)) + '\n' + b


def path_of(it, what):
    d = os.path.dirname(it.root) + '/'
    return it.root + '.minimum' if what == 'mini' else d + 'dist/' + it.name + {'marge': '.margestats', 'like': '.likestats', 'conv': '.converge'}[what]


# -- scenarios -------------------------------------------------------------------------------------------------------
def generate(rng, tier, i):
    groups = gen_grid(rng, importance=rng.random() < 0.5)
    items = model_items('/g', groups)
    nlim = rng.choice([2, 2, 3])
    states = {}
    for it in items:
        np_ = rng.randint(2, 7)
        chains = rng.random() < 0.85
        states[it.name] = dict(chains=chains, np=np_, npm=rng.choice([np_, np_, max(1, np_ - 2)]), chi2=rng.random() < 0.2, nlim=nlim, dist=chains and rng.random() < 0.85,
                               distdir=rng.random() < 0.5, like=rng.random() < 0.94, mini=rng.random() < 0.6, seed=rng.randrange(1 << 30))
    reports = []
    for _ in range(rng.choice([1, 2, 2])):
        reports.append(dict(gen_report(rng, items, nlim), filters=gen_filters(rng, items, p=0.25), wait=rng.choice([0, 0, 0.02])))
    actors = []
    for it in rng.sample(items, min(len(items), rng.choice([0, 0, 1, 2]))):
        actors.append(dict(name=it.name, seed=rng.randrange(1 << 30), order=rng.sample(['marge', 'mini', 'like', 'conv'], 4), nap=rng.choice([0, 0.01, 0.05]), before=rng.choice([0, 0.01])))
    return dict(groups=groups, states=states, reports=reports, actors=actors, flavour='pbs', dirseed=rng.randrange(1 << 20), between=rng.random() < 0.6)


def gen_report(rng, items, nlim):
    o = {}
    data = sorted({x for it in items for x in it.data})
    ptags = sorted({it.paramtag for it in items})
    dtags = sorted({it.datatag for it in items})
    out = rng.choice(['tab', 'tab.tex', 'out/tab', 'out/sub/tab.tex'])
    if rng.random() < 0.25:
        o['params'] = rng.sample([p[0] for p in PNAMES], rng.choice([1, 1, 2, 3]))
        o['limit'] = rng.randint(1, nlim)
        if rng.random() < 0.6:
            o['latex_filename'] = out
            o['params'] = o['params'][:1] if rng.random() < 0.7 else o['params']
        if rng.random() < 0.3:
            o['compare'] = [shuffled(rng, x) for x in rng.sample(dtags, min(len(dtags), rng.choice([1, 2])))]
        for k, p in (('nobestfits', 0.3), ('mathColumns', 0.3)):
            if rng.random() < p:
                o[k] = True
        return dict(cmd='compare', opts=o, out=o.get('latex_filename'))
    if rng.random() < 0.5:
        o['limit'] = rng.randint(1, nlim)
    elif rng.random() < 0.3 and nlim == 3:
        o['all_limits'] = True
    if rng.random() < 0.4:
        o['columns'] = rng.choice([1, 2, 3, 4])
    for k, p in (('bestfitonly', 0.12), ('nobestfit', 0.2), ('separate_tex', 0.25)):
        if rng.random() < p:
            o[k] = True
    if rng.random() < 0.3:
        o['converge'] = rng.choice([0.01, 0.1])
    if rng.random() < 0.2:
        o['paramList'] = rng.sample([p[0] for p in PNAMES], 3)
    mode = rng.choice(['plain', 'plain', 'plain', 'none', 'ptag', 'cdata', 'cptag', 'adding', 'replacing', 'replacing', 'compare', 'compare'])
    if mode == 'none':
        o['no_delta_chisq'] = True
    elif mode == 'ptag':
        o['delta_chisq_paramtag'] = rng.choice(ptags)
    elif mode == 'cdata':
        o['changes_from_datatag'] = rng.choice(dtags)
    elif mode == 'cptag':
        o['changes_from_paramtag'] = rng.choice(ptags)
    elif mode == 'adding':
        o['changes_adding_data'] = rng.sample(data, rng.choice([1, 1, 2]) if len(data) > 1 else 1)
    elif mode == 'replacing':
        pairs = sorted({(x, y) for a in items for b in items for x in a.data for y in b.data if x not in b.data and y not in a.data
                        and sorted(y if q == x else q for q in a.data) == sorted(b.data)})
        if pairs and rng.random() < 0.8:
            x, y = rng.choice(pairs)
            rest = [z for z in data if z not in (x, y)]
            o['changes_replacing'] = [x] + rng.sample([y] + rest, min(1 + len(rest), rng.choice([1, 2, 2])))
        else:
            o['changes_replacing'] = rng.sample(data + ['WMAP'], min(len(data), rng.choice([2, 3])))
    elif mode == 'compare':
        o['compare'] = [shuffled(rng, x) for x in rng.sample(dtags, min(len(dtags), rng.choice([1, 2, 2])))]
        if rng.random() < 0.5:
            o['titles'] = ';'.join('Title%d' % k for k in range(len(o['compare'])))
        o.pop('bestfitonly', None)
    if mode in ('adding', 'replacing') and rng.random() < 0.45:
        o['changes_only'] = True
    if mode in ('cdata', 'cptag', 'adding', 'replacing'):
        for k in ('shift_sigma_indep', 'shift_sigma_subset'):
            if rng.random() < 0.25:
                o[k] = True
    if mode in ('plain', 'cptag') and rng.random() < 0.2:
        o['changes_data_ignore'] = rng.sample(data, 1)
    return dict(cmd='tables', opts=o, out=out)


def shuffled(rng, tag):
    x = tag.replace('_post', '').split('_')
    if rng.random() < 0.4:
        rng.shuffle(x)
        return '_'.join(x)
    return tag


def arg_list(rep):
    o = rep['opts']
    args = []
    for k, v in o.items():
        if k == 'paramList':
            args += ['--paramList', 'list.paramnames']
        elif v is True:
            args.append('--' + k)
        elif isinstance(v, list):
            args += ['--' + k] + v
        else:
            args += ['--' + k, str(v)]
    return args


# -- reading the tables ----------------------------------------------------------------------------------------------
class Bad(Exception):
    pass


def cells(line):
    if not line.endswith('\\\\'):
        raise Bad('table row without end: %r' % line)
    return [x.strip() for x in line[:-2].split('&')]


def unmath(x):
    bold = x.startswith('{\\boldmath')
    if bold:
        x = x[len('{\\boldmath'):-1]
    if x.startswith('$') and x.endswith('$'):
        x = x[1:-1]
    return x.strip(), bold


def read_table(lines, ncol):
    """rows [(label, bold, [values])], headers, titles of one tabular."""
    if not lines[0].startswith('\\begin{tabular}') or lines[-1] != '\\end{tabular}':
        raise Bad('not a table: %r' % lines[:1])
    body = [x for x in lines[1:-1] if x.endswith('\\\\')]
    titles = None
    if body and '\\multicolumn' in body[0]:
        titles = [t.strip() for t in re.findall(r'\{\\bf ([^}]*)\}', body[0].replace('{\\textunderscore}', '_'))[1:]]
        body = body[1:]
    head = cells(body[0])
    if len(head) % ncol:
        raise Bad('header does not repeat %d times: %s' % (ncol, head))
    per = len(head) // ncol
    if head[:per] * ncol != head or head[0] != 'Parameter':
        raise Bad('header is %s' % head)
    cols = [[] for _ in range(ncol)]
    for line in body[1:]:
        c = cells(line)
        if len(c) != per * ncol:
            raise Bad('row has %d cells, header %d: %r' % (len(c), per * ncol, line))
        for k in range(ncol):
            part = c[k * per:(k + 1) * per]
            if part[0]:
                lab, bold = unmath(part[0])
                cols[k].append((lab, bold, [unmath(x)[0] for x in part[1:]]))
            elif any(part):
                raise Bad('values without a parameter: %r' % line)
    return [x for c in cols for x in c], head[1:per], titles


def close(shown, true, power=0, loose=0.06):
    try:
        x = float(shown) * 10.0 ** power
    except ValueError:
        return False
    dp = len(shown.split('.')[1]) if '.' in shown else 0
    tol = 0.51 * 10.0 ** (power - dp)
    if not dp:
        tol += loose * abs(true)
    return abs(x - true) <= tol + 1e-12 * abs(true)


NUM = r'([-+]?[0-9.]+)'


def value_ok(tex, row, limit):
    """Whether the table entry is that of the marginalized result."""
    n, lab, der, mean, err, lims = row
    mean, err = float(mean), float(err)
    lo, up, tag = lims[limit - 1]
    lo, up = float(lo), float(up)
    p = 0
    if n.startswith('chi2'):
        if limit == 1:
            m = re.fullmatch(NUM + r'\\pm ' + NUM, tex)
            return bool(m) and close(m.group(1), mean) and close(m.group(2), err, loose=0.5)
        m = re.fullmatch(NUM + r'\\,\(\{\\nu\\rm\{:\}\\,' + NUM + r'\}\)', tex)
        return bool(m) and close(m.group(1), mean) and close(m.group(2), err ** 2 / 2)
    if tag == 'none':
        return tex == '---'
    m = re.fullmatch(r'\\left\(\\,(.*)\\,\\right\)\\cdot 10\^\{(-?\d+)\}', tex) or re.fullmatch(r'([<>] .*?)\\cdot 10\^\{(-?\d+)\}', tex)
    if m:
        tex, p = m.group(1), int(m.group(2))
    if tag == '>':
        m = re.fullmatch('< ' + NUM, tex)
        return bool(m) and close(m.group(1), up, p)
    if tag == '<':
        m = re.fullmatch('> ' + NUM, tex)
        return bool(m) and close(m.group(1), lo, p)
    m = re.fullmatch(NUM + r'\\pm ' + NUM, tex)
    if m:
        return limit == 1 and close(m.group(1), mean, p) and close(m.group(2), err, p, loose=0.5)
    m = re.fullmatch(NUM + r'\^\{' + NUM + r'\}_\{' + NUM + r'\}', tex)
    return bool(m) and close(m.group(1), mean, p) and close(m.group(2), up - mean, p, loose=0.5) and close(m.group(3), lo - mean, p, loose=0.5)


def bestfit_ok(tex, x):
    p = 0
    m = re.fullmatch(NUM + r'\\cdot 10\^\{(-?\d+)\}', tex)
    if m:
        tex, p = m.group(1), int(m.group(2))
    x = float(x)
    # given to a precision set by the width of the limits
    return re.fullmatch(NUM, tex) is not None and close(tex, x, p, loose=0.5)


def shift_ok(tex, row, ref, o):
    """Shift of the mean relative to the reference's error, as text after the value."""
    r = [x for x in ref if x[0] == row[0]] if ref else []
    if not r or row[5][o['limit'] - 1][2] == 'none' and not row[0].startswith('chi2'):
        return tex == ''
    mean, err, rmean, rerr = float(row[3]), float(row[4]), float(r[0][3]), float(r[0][4])
    d = mean - rmean
    want = []
    if o.get('shift_sigma_subset'):
        want.append((d / max(abs(err ** 2 - rerr ** 2) ** 0.5, rerr / 20), r'\sigma_s'))
    if o.get('shift_sigma_indep'):
        want.append((d / (err ** 2 + rerr ** 2) ** 0.5, r'\sigma_i'))
    if not want:
        want.append((d / rerr, r'\sigma'))
    m = re.fullmatch(r'\\quad\((.*)\)', tex)
    if not m:
        return False
    parts = [x.strip() for x in m.group(1).split(',') if x.strip()]
    if len(parts) != len(want):
        return False
    for p, (x, s) in zip(parts, want):
        a = p.split(' ')
        if len(a) != 2 or a[1] != s or abs(float(a[0]) - x) > 0.051 + 1e-9 * abs(x):
            return False
    return True


def check_rows(rows, head, results, o, labels, ref=None, refbest=None):
    """results: [(marge rows, best-fit dict or None)] side by side."""
    n = o['limit']
    if not results:
        raise Bad('there are no results')
    marge, mini = results[0]
    bfs = {q[0]: q for q in mini['pars']} if mini else None
    want = [x for x in marge if bfs is None or x[0] in bfs]
    if o.get('paramList'):
        want = [x for x in want if x[0] in o['paramList']]
    whead = []
    for m, b in results:
        whead += (['Best fit'] if b else []) + ['%d\\%% limits' % round(100 * LIMITS[n - 1])]
    if head != whead:
        raise Bad('column headings %s instead of %s' % (head, whead))
    if [r[0] for r in rows] != [labels.get(x[0], x[1]) for x in want]:
        raise Bad('parameters %s instead of %s' % ([r[0] for r in rows], [labels.get(x[0], x[1]) for x in want]))
    for (lab, bold, vals), w in zip(rows, want):
        der = bfs[w[0]][2] if bfs else w[2]
        if bold == der:
            raise Bad('%s is shown as %s parameter' % (w[0], 'base' if bold else 'derived'))
        k = 0
        for m, b in results:
            mine = [x for x in m if x[0] == w[0] and (b is None or x[0] in [q[0] for q in b['pars']])]
            if b:
                x = [q for q in b['pars'] if q[0] == w[0]]
                if not (vals[k] == '' if not mine else bestfit_ok(vals[k], x[0][3])):
                    raise Bad('best fit of %s is shown as %r, is %s' % (w[0], vals[k], x))
                k += 1
            tex = vals[k]
            k += 1
            if not mine:
                if tex:
                    raise Bad('%s has no result but %r is shown' % (w[0], tex))
                continue
            val, _, shift = tex.partition('\\quad(')
            shift = '\\quad(' + shift if shift else ''
            if not value_ok(val, mine[0], n):
                raise Bad('%s is shown as %r, its results are %s' % (w[0], val, mine[0][3:5] + tuple(mine[0][5])))
            if not shift and refbest and w[0] not in [q[0] for q in refbest['pars']]:
                continue  # not a parameter of the reference's best fit
            if not shift_ok(shift, mine[0], ref, o):
                raise Bad('shift of %s is shown as %r; result %s, reference %s' % (w[0], shift, mine[0][3:5], [x[3:5] for x in ref or [] if x[0] == w[0]]))


# -- what belongs in a table -----------------------------------------------------------------------------------------
class Seen:
    """One combination of file versions that may have been read: value by (run, what)."""

    def __init__(self, pick):
        self.pick = pick

    def get(self, it, what):
        if what in ('marge', 'like', 'conv') and self.pick[it.name, 'marge'] in (None,):
            return None
        v = self.pick[it.name, what]
        return None if v == EMPTY else v


def normed(it):
    return '_'.join(sorted(it.data))


def subsection(s, sel, it, o, seen, labels, block):
    """Checks the text of one run."""
    dq, data_ref = references(s, sel, it, o, seen)
    mini = seen.get(it, 'mini')
    marge = seen.get(it, 'marge')
    lines = list(block)
    table = None
    if lines and lines[0].startswith('\\begin{tabular}'):
        k = lines.index('\\end{tabular}')
        table, lines = lines[:k + 1], lines[k + 1:]
    if o.get('bestfitonly'):
        if bool(table) != bool(mini):
            raise Bad('best-fit table is %s' % ('missing' if mini else 'shown without a best fit'))
        if table:
            rows, head, _ = read_table(table, o['columns'])
            # in file order: base parameters, then derived
            want = [x for x in mini['pars'] if not x[2]] + [x for x in mini['pars'] if x[2]]
            want = [x for x in want if not o.get('paramList') or x[0] in o['paramList']]
            if head != ['Best fit'] or [r[0] for r in rows] != [labels.get(x[0], x[1]) for x in want]:
                raise Bad('best-fit table has %s %s' % (head, [r[0] for r in rows]))
            for r, w in zip(rows, want):
                if not close(r[2][0], float(w[3])):
                    raise Bad('best fit of %s is shown as %r, is %s' % (w[0], r[2], w[3]))
    else:
        if bool(table) != bool(marge):
            raise Bad('table is %s' % ('missing' if marge else 'shown without results'))
        if table:
            rows, head, _ = read_table(table, o['columns'])
            check_rows(rows, head, [(marge, mini if mini and not o.get('nobestfit') else None)], o, labels, seen.get(data_ref, 'marge') if data_ref else None, seen.get(data_ref, 'mini') if data_ref else None)
    want = []
    if mini:
        want.append(' Best-fit $\\chi^2_{\\rm eff} = %.2f$' % (2 * mini['loglike']))
        if dq and seen.get(dq, 'mini'):
            want.append('$\\Delta \\chi^2_{\\rm eff} = %.2f$' % (2 * (mini['loglike'] - seen.get(dq, 'mini')['loglike'])))
    if not o.get('bestfitonly') and marge:
        like = seen.get(it, 'like')
        if like is not None:
            want.append('$\\bar{\\chi}^2_{\\rm eff} = %.2f$' % (2 * like))
            if dq and seen.get(dq, 'like') is not None:
                want.append('$\\Delta\\bar{\\chi}^2_{\\rm eff} = %.2f$' % (2 * (like - seen.get(dq, 'like'))))
        want.append('$R-1 =' + str(seen.get(it, 'conv')) + '$')
    text = [x for x in lines if x]
    caption = text.pop(0) if want and text else ''
    if not same_caption(caption, '; '.join(want)):
        raise Bad('caption is %r, should be %r' % (caption, '; '.join(want)))
    parts = []
    if mini:
        if not text or text.pop(0) != '$\\chi^2_{\\rm eff}$:':
            raise Bad('no likelihood parts')
        ref = seen.get(dq, 'mini') if dq else None
        for kind in sorted({k for k, n, c in mini['parts']}):
            parts.append(kind + ' - ')
            for k, n, c in mini['parts']:
                if k == kind:
                    line = '  %s: %.2f ' % (n.replace('_', '{\\textunderscore}'), c)
                    comp = [x for x in ref['parts'] if x[:2] == (k, n)] if ref else []
                    if comp:
                        line += '($\\Delta$ %.2f) ' % (c - comp[0][2])
                    parts.append(line)
    if len(parts) != len(text) or not all(same_caption(a, b) for a, b in zip(text, parts)):
        raise Bad('likelihood parts are %s, should be %s' % (text, parts))


def same_caption(a, b):
    """Equal up to the rounding of the last digit."""
    x, y = re.split(r'(-?\d+\.\d+)', a), re.split(r'(-?\d+\.\d+)', b)
    if len(x) != len(y) or x[::2] != y[::2]:
        return False
    return all(abs(float(p) - float(q)) < 0.0101 and len(p.split('.')[1]) == len(q.split('.')[1]) for p, q in zip(x[1::2], y[1::2]))


def listed(s, group, o, seen):
    out = []
    for it in group:
        if not (s.distdirs[os.path.dirname(it.root)] or o.get('bestfitonly')):
            continue
        if o.get('converge'):
            if s.leave_out and it.name in s.flagged:
                continue
            c = seen.get(it, 'conv')
            if c is None or float(c) > o['converge']:
                continue
        out.append(it)
    return out


def references(s, sel, it, o, seen):
    """(run for chi-square differences, run for shifts) by the documented options."""
    group = [x for x in sel if x.paramtag == it.paramtag]
    these = listed(s, group, o, seen)
    ptag = o.get('changes_from_paramtag') or o.get('delta_chisq_paramtag')
    data_ref = None
    if o.get('changes_adding_data'):
        a = set(o['changes_adding_data'])
        if a & set(it.data):
            key = '_'.join(sorted(x for x in it.data if x not in a))
            data_ref = ([x for x in these if normed(x) == key] or [None])[-1]
        dq = data_ref
    elif o.get('changes_replacing'):
        x0, rest = o['changes_replacing'][0], o['changes_replacing'][1:]
        for y in rest:
            if y in it.data:
                key = '_'.join(sorted(x0 if x == y else x for x in it.data))
                data_ref = ([x for x in these if normed(x) == key and x0 in x.data] or [None])[-1]
                break
        dq = data_ref
    else:
        if o.get('changes_from_datatag'):
            t = o['changes_from_datatag']
            data_ref = ([x for x in these if t in (x.datatag, normed(x))] or [None])[-1]
        dq = None
        if not o.get('no_delta_chisq'):
            ign = set(o.get('changes_data_ignore', []))
            key = '_'.join(sorted(x for x in it.data if x not in ign))
            dq = ([x for x in sel if (x.paramtag == ptag if ptag else not x.params) and normed(x) == key] or [None])[-1]
    if o.get('changes_from_paramtag'):
        data_ref = dq
        if data_ref and data_ref.name == it.name:
            data_ref = None
    elif data_ref and normed(data_ref) == normed(it):
        data_ref = None
    if dq and dq.name == it.name:
        dq = None
    return dq, data_ref


def split_sections(lines):
    """[(section, [(subsection, lines)], loose lines)] of the document."""
    out = []
    cur = None
    for line in lines:
        if line.startswith('\\newpage\\section{ '):
            cur = (line[len('\\newpage\\section{ '):-1].replace('{\\textunderscore}', '_'), [], [])
            out.append(cur)
        elif cur is None:
            continue
        elif line.startswith('\\subsection{ '):
            cur[1].append((line[len('\\subsection{ '):-1].replace('{\\textunderscore}', '_'), []))
        elif line == '\\end{document}':
            continue
        elif cur[1]:
            cur[1][-1][1].append(line)
        else:
            cur[2].append(line)
    return out


def versions(h, s, names, a, b):
    """Choices of file versions for the given runs."""
    keys = [(n, w) for n in names for w in ('marge', 'mini', 'like', 'conv')]
    opts = [h.during(k, a, b) for k in keys]
    uniq = []
    for o in opts:
        u = []
        for x in o:
            if x not in u:
                u.append(x)
        uniq.append(u)
    for c in itertools.islice(itertools.product(*uniq), 7000):
        yield Seen(dict(zip(keys, c)))


class History:
    def __init__(self, w):
        self.w, self.h = w, {}

    def start(self, key, val):
        self.h[key] = [[0, 0, val]]

    def begin(self, key, val):
        self.h[key].append([self.w.now, None, val])

    def end(self, key):
        self.h[key][-1][1] = self.w.now

    def during(self, key, a, b):
        out = []
        seq = self.h[key]
        for k, (t0, t1, v) in enumerate(seq):
            gone = seq[k + 1][1] if k + 1 < len(seq) else None
            if t0 <= b and (gone is None or gone >= a):
                out.append(v)
        return out


def judge_tables(s, sc, h, p, rep, res, text, limit, out):
    o = dict(rep['opts'])
    o['columns'] = o.get('columns', 3)
    o['limit'] = limit
    sel = select(s.items, s.filters(rep))
    if not o.get('bestfitonly'):
        sel = [it for it in sel if sc['states'][it.name]['chains']]
    tags = sorted({it.paramtag for it in sel})
    lines = text.split('\n')
    if lines[0] != '\\documentclass[10pt]{article}' or lines[-1] != '\\end{document}':
        raise Bad('the document is not complete')
    secs = split_sections(lines)
    want = []
    for t in tags:
        group = [it for it in sel if it.paramtag == t]
        name = '+'.join(group[0].params) or 'Baseline model'
        if o.get('compare'):
            c = compared(group, o['compare'])
            if len(c) != len(o['compare']):
                continue
            want.append((name, group, c))
        else:
            want.append((name, group, None))
    if [x[0] for x in secs] != [x[0] for x in want]:
        raise Bad('sections %s instead of %s' % ([x[0] for x in secs], [x[0] for x in want]))
    for (name, subs, loose), (_, group, comp) in zip(secs, want):
        if comp is not None:
            fail = None
            for seen in versions(h, s, [it.name for it in comp], p.began, p.ended):
                try:
                    runs = [it for it in comp if seen.get(it, 'marge')]
                    titles = o['titles'].split(';') if o.get('titles') else [it.datatag for it in runs]
                    rows, head, got = read_table([x for x in loose if x], 1)
                    if got != titles:
                        raise Bad('titles %s instead of %s' % (got, titles))
                    check_rows(rows, head, [(seen.get(it, 'marge'), seen.get(it, 'mini') if not o.get('nobestfit') else None) for it in runs], o, s.labels)
                    fail = None
                    break
                except Bad as e:
                    fail = fail or e
            if fail:
                raise Bad('section %s: %s' % (name, fail))
            res.note('compare tables')
            continue
        # which runs are listed may depend on what was read
        names = [n for n, _ in subs]
        fail = None
        for seen in versions(h, s, [it.name for it in group], p.began, p.ended) if o.get('converge') else [Seen({(it.name, w): h.h[it.name, w][-1][2] for it in group for w in ('marge', 'mini', 'like', 'conv')})]:
            these = listed(s, group, o, seen)
            if o.get('changes_only') and not o.get('compare'):
                these = [it for it in these if raw_ref(s, sel, it, o, seen)]
            w = [it.name for it in these]
            if names == w or [n for n in names if n not in s.flagged] == [n for n in w if n not in s.flagged]:
                fail = None
                break
            fail = 'runs %s instead of %s' % (names, w)
        if fail:
            raise Bad('section %s: %s' % (name, fail))
        for n, block in subs:
            it = [x for x in s.items if x.name == n][0]
            if n in s.errors:
                res.note('run reported as error')
                continue
            fail = None
            near = {it.name}
            for seen in versions(h, s, [x.name for x in group], p.began, p.ended):
                for q in references(s, sel, it, o, seen):
                    if q:
                        near.add(q.name)
            near |= {x.name for x in group if o.get('converge') and len(group) < 4}
            # references of other parameter sets
            cand = list(near)
            tried = 0
            for seen in versions(h, s, cand, p.began, p.ended):
                tried += 1
                s.leave_out = False
                try:
                    full = Seen(dict({(x.name, w): h.h[x.name, w][-1][2] for x in s.items for w in ('marge', 'mini', 'like', 'conv')}, **{}))
                    full.pick.update(seen.pick)
                    try:
                        subsection(s, sel, it, o, full, s.labels, block)
                    except Bad:
                        if not s.flagged:
                            raise
                        s.leave_out = True  # (runs whose convergence could not be read)
                        subsection(s, sel, it, o, full, s.labels, block)
                    fail = None
                    break
                except Bad as e:
                    fail = fail or e
                finally:
                    s.leave_out = False
            if fail:
                raise Bad('%s: %s' % (n, fail))
            if tried > 1:
                res.note('changed while tabulated')
            res.note('run tables')
            if o.get('separate_tex'):
                try:
                    with R.open(os.path.dirname(it.root) + '/dist/' + n + '.tex') as f:
                        sep = f.read()
                except OSError:
                    raise Bad('%s: no separate table file' % n)
                if not o.get('all_limits') and sep != '\n'.join(block):
                    raise Bad('%s: the separate table file differs: %r' % (n, sep[:300]))


def raw_ref(s, sel, it, o, seen):
    """Reference run before leaving out the run itself (for --changes_only)."""
    group = [x for x in sel if x.paramtag == it.paramtag]
    these = listed(s, group, o, seen)
    if o.get('changes_adding_data'):
        a = set(o['changes_adding_data'])
        if not a & set(it.data):
            return False
        key = '_'.join(sorted(x for x in it.data if x not in a))
        return any(normed(x) == key for x in these)
    if o.get('changes_replacing'):
        x0 = o['changes_replacing'][0]
        for y in o['changes_replacing'][1:]:
            if y in it.data:
                key = '_'.join(sorted(x0 if x == y else x for x in it.data))
                return any(normed(x) == key and x0 in x.data for x in these)
        return False
    return True


def compared(group, tags):
    out = []
    for t in tags:
        key = '_'.join(sorted(t.replace('_post', '').split('_')))
        out += [it for it in group if it.datatag == t or normed(it) == key]
    return out


def judge_compare(s, sc, h, p, rep, res, text):
    o = dict(rep['opts'])
    sel = select(s.items, rep['filters'])
    if o.get('compare'):
        keys = ['_'.join(sorted(t.replace('_post', '').split('_'))) for t in o['compare']]
        sel = [it for it in sel if normed(it) in keys]
    fail = None
    for seen in versions(h, s, [it.name for it in sel], p.began, p.ended):
        try:
            entries = {}
            tags = {q: [] for q in o['params']}
            for it in sel:
                marge = seen.get(it, 'marge')
                mini = seen.get(it, 'mini') if not o.get('nobestfits') else None
                if not marge:
                    continue
                for q in o['params']:
                    row = [x for x in marge if x[0] == q and (not mini or q in [z[0] for z in mini['pars']])]
                    if row:
                        if it.paramtag not in tags[q]:
                            tags[q].append(it.paramtag)
                        bf = [z for z in mini['pars'] if z[0] == q][0] if mini else None
                        entries.setdefault(it.paramtag, {}).setdefault(normed(it), {})[q] = (row[0], bf)
            want = []
            for q in o['params']:
                for t in tags[q]:
                    ds = list(entries[t])
                    if o.get('compare'):
                        ds = [k for k in keys if k in ds]
                    want.append((q, t, ds))
            check_compare(s, o, want, entries, text, p.stdout)
            fail = None
            break
        except Bad as e:
            fail = fail or e
    if fail:
        raise Bad(str(fail))
    res.note('parameter comparisons')


def entry_ok(vals, e, o):
    row, bf = e
    if len(vals) != (2 if bf else 1):
        return False
    if not value_ok(vals[0], row, o['limit']):
        return False
    return not bf or bestfit_ok(vals[1], bf[3])


def check_compare(s, o, want, entries, text, stdout):
    if text is not None:
        lines = text.split('\n') if text else []
        if len(lines) != len(want):
            raise Bad('%d lines instead of %d: %s' % (len(lines), len(want), lines[:4]))
        for line, (q, t, ds) in zip(lines, want):
            if not line.endswith('\\cr'):
                raise Bad('line %r is not complete' % line)
            c = line[:-3].split(' & ')
            label, vals = c[0], c[1:]
            lab = s.labels[q]
            if label != ('$' + lab + '$' if o.get('mathColumns') else lab):
                raise Bad('label %r of %s' % (label, q))
            k = 0
            for d in ds:
                for q2 in o['params']:
                    if q2 not in entries[t][d]:
                        continue
                    e = entries[t][d][q2]
                    n = 2 if e[1] else 1
                    got = [unmath(x)[0] for x in vals[k:k + n]][::-1]
                    if o.get('mathColumns') and any(x[:1] != '$' and x != '---' for x in vals[k:k + n]):
                        raise Bad('not in math: %s' % vals[k:k + n])
                    if not entry_ok(got, e, o):
                        raise Bad('%s of %s with %s is given as %s, is %s' % (q2, t, d, got, e))
                    k += n
            if k != len(vals):
                raise Bad('too many values: %r' % line)
        return
    got = []
    for line in stdout.split('\n'):
        m = re.fullmatch(r'  (\{.*\}) (\S+)', line)
        if m:
            got.append((ast.literal_eval(m.group(1)), m.group(2)))
    flat = [(t, d) for q, t, ds in want for d in ds]
    if [d for _, d in got] != [d for t, d in flat]:
        raise Bad('data sets %s instead of %s' % ([d for _, d in got], [d for t, d in flat]))
    for (vals, d), (t, _) in zip(got, flat):
        if sorted(vals) != sorted(entries[t][d]):
            raise Bad('parameters %s instead of %s for %s %s' % (sorted(vals), sorted(entries[t][d]), t, d))
        for q2, v in vals.items():
            if not entry_ok(v, entries[t][d][q2], o):
                raise Bad('%s of %s with %s is given as %s, is %s' % (q2, t, d, v, entries[t][d][q2]))


# -- running ---------------------------------------------------------------------------------------------------------
class TableSite(JobSite):
    leave_out = False

    def filters(self, rep):
        f = dict(rep['filters'])
        if rep['opts'].get('changes_replacing') and f.get('data') is not None:
            f['data'] = f['data'] + rep['opts']['changes_replacing']
        return f


def rewrite(s, h, it, st, seed, order, nap, before):
    """An analysis (and minimization) run again: all result files of the run are replaced one after the other."""
    import time
    time.sleep(before)
    v = result(seed, st)
    for what in order:
        t = text_of(what, v, st)
        if t is None:
            continue
        key = (it.name, what)
        h.begin(key, EMPTY)
        f = open(path_of(it, what), 'w')
        h.end(key)
        time.sleep(nap)
        f.write(padded(t))
        h.begin(key, v[what])
        f.close()
        h.end(key)
        time.sleep(nap)


def execute(sc, choices, tag, res):
    with TableSite(tag, choices, sc, res) as s:
        w = s.world
        pdf = []

        def pdflatex(w, p, words):
            path = words[-1] if words[-1].startswith('/') else p.cwd + '/' + words[-1]
            pdf.append(R.path_exists(path) if hasattr(R, 'path_exists') else os.path.exists(path))
            return 0, ''

        w.commands['pdflatex'] = pdflatex
        s.labels = {n: 'L_{%s}' % n for n, _, _ in PNAMES}
        s.write(s.work + '/clik_latex.paramnames', ''.join('%s\t%s\n' % (n, l) for n, l in s.labels.items()))
        h = History(w)
        s.distdirs = {}
        for it in s.items:
            st = sc['states'][it.name]
            d = os.path.dirname(it.root)
            s.distdirs.setdefault(d, False)
            if st['chains']:
                s.write(it.root + '_1.txt', '  1.0 2.0 3.0\n')
            v = result(st['seed'], st)
            for what in ('marge', 'mini', 'like', 'conv'):
                t = text_of(what, v, st)
                h.start((it.name, what), v[what] if t is not None else None)
                if t is not None:
                    s.write(path_of(it, what), padded(t))
            if st['dist'] or st['distdir']:
                os.makedirs(d + '/dist', exist_ok=True)
                s.distdirs[d] = True
        # a file that is not there for analysed runs: no mean likelihood
        byname = {i.name: i for i in s.items}
        acts = []
        for k, a in enumerate(sc['actors']):
            if a['name'] in byname:
                q = w.spawn('act%d' % k, rewrite, s, h, byname[a['name']], sc['states'][a['name']], a['seed'], a['order'], a['nap'], a['before'])
                q.fault_ok = False
                acts.append(q)
        reports = list(sc['reports'])
        if sc['between']:
            reports.append(dict(sc['reports'][0], quiet=True))
        for k, rep in enumerate(reports):
            if rep.get('quiet'):
                w.run(lambda: all(q.finished for q in acts))
                for q in acts:
                    if q.status:
                        raise AssertionError('harness: ' + q.stderr)
            o = rep['opts']
            if o.get('paramList'):
                s.write(s.work + '/list.paramnames', ''.join(n + '\n' for n in o['paramList']))
            tables = rep['cmd'] == 'tables'
            args = ['grid'] + ([rep['out']] if tables else []) + arg_list(rep) + filter_args(rep['filters'])
            choices.fired.clear()
            p = w.script('cmd%d' % k, 'makeTables.py' if tables else 'makeParamCompare.py', args)
            p.fault_ok = True
            p.began = w.now
            pdf.clear()
            w.run(lambda: p.finished)
            p.ended = w.now
            if w.limit_hit:
                res.violate('no-end', 'the command did not end')
                return
            failed = {os.path.basename(f['path']) for f in choices.fired.values() if f.get('path')}
            if p.status == -9:
                res.note('killed')
                continue
            s.errors = set(re.findall(r'^ERROR: (\S+)$', p.stdout, re.M))
            s.flagged = s.errors | set(re.findall(r'^WARNING: Bad .converge for (\S+)$', p.stdout, re.M))
            # runs with files that were caught empty, that are incomplete or that could not be read may be reported as errors
            may = set()
            for it in s.items:
                if any(EMPTY in h.during((it.name, x), p.began, p.ended) for x in ('marge', 'mini', 'like', 'conv')):
                    may.add(it.name)
                if any(f.startswith(it.name + '.') for f in failed):
                    may.add(it.name)
                if o.get('separate_tex') and not s.distdirs[os.path.dirname(it.root)]:
                    may.add(it.name)  # nowhere to write its file
                if h.h[it.name, 'marge'][-1][2] and h.h[it.name, 'like'][-1][2] is None:
                    may.add(it.name)
            if o.get('paramList'):
                may |= set(byname)  # nothing left to show is an error
            if p.status and (failed or may or o.get('compare')):
                # reported
                res.note('failure reported')
                if not failed and not may:
                    # a comparison of runs without any results
                    sel = [it for it in select(s.items, s.filters(rep)) if sc['states'][it.name]['chains']]
                    groups = [compared([x for x in sel if x.paramtag == t], o['compare']) for t in {x.paramtag for x in sel}]
                    if all(any(h.h[it.name, 'marge'][-1][2] for it in g) for g in groups if len(g) == len(o['compare'])):
                        res.violate('table-fails', '%s %s failed: %s' % (rep['cmd'], args, p.stderr[-600:]))
                        return
                continue
            if p.status:
                res.violate('table-fails', '%s %s failed: %s' % (rep['cmd'], args, p.stderr[-600:]))
                return
            bad = s.errors - may
            if bad:
                res.violate('table-error', 'makeTables %s has no table for %s, whose results are complete: %s' % (args, sorted(bad), p.stdout[-400:]))
                return
            try:
                if tables:
                    for limit in ([1, 2, 3] if o.get('all_limits') else [o.get('limit', 2)]):
                        name = rep['out'] + ('_limit%d' % limit if o.get('all_limits') else '')
                        if not name.endswith('.tex'):
                            name += '.tex'
                        try:
                            with R.open(s.work + '/' + name, encoding='utf-8') as f:
                                text = f.read()
                        except OSError:
                            raise Bad('no file %s was made' % name)
                        judge_tables(s, sc, h, p, rep, res, text, limit, name)
                    if not pdf or not all(pdf):
                        raise Bad('the table was not given to pdflatex: %s' % pdf)
                else:
                    text = None
                    if o.get('latex_filename'):
                        name = o['latex_filename'] + ('.tex' if '.' not in o['latex_filename'] else '')
                        try:
                            with R.open(s.work + '/' + name, encoding='utf-8') as f:
                                text = f.read()
                        except OSError:
                            raise Bad('no file %s was made' % name)
                    judge_compare(s, sc, h, p, rep, res, text)
            except Bad as e:
                res.violate('table-wrong', '%s %s ended normally but %s' % (rep['cmd'], args, e))
                return
        res.nontrivial = True
        res.state = repr([q.stdout for q in w.procs if q.name.startswith('cmd')])


def faults(rng, sc, base, tier):
    n = 1 if tier == 'quick' else 8
    pts = [x for x in base.points if x[0].startswith('cmd')]
    rd = [x for x in pts if x[2] in ('open-r', 'read') and x[3].endswith(('.margestats', '.minimum', '.likestats', '.converge'))]
    wr = [x for x in pts if x[2] in ('open-w', 'write', 'close-w', 'mkdir') and not x[3].startswith('cache')]
    plans = []
    for nm, st, kind, rel in rng.sample(rd, min(len(rd), n)):
        plans.append({'%s:%d' % (nm, st): dict(kind='eio')})
    for nm, st, kind, rel in rng.sample(wr, min(len(wr), n)):
        f = dict(kind=rng.choice({'write': ['enospc', 'torn', 'eio', 'short'], 'close-w': ['eio'], 'open-w': ['enospc', 'eacces'], 'mkdir': ['enospc']}[kind]))
        if f['kind'] in ('torn', 'short'):
            f['frac'] = round(rng.random(), 2)
        plans.append({'%s:%d' % (nm, st): f})
    for nm, st, kind, rel in rng.sample(pts, min(len(pts), 1)):
        plans.append({'%s:%d' % (nm, st): dict(kind='crash')})
    return plans


def shrink(sc):
    if len(sc['reports']) > 1:
        for k in range(len(sc['reports'])):
            yield dict(sc, reports=sc['reports'][:k] + sc['reports'][k + 1:])
    if sc['between']:
        yield dict(sc, between=False)
    for k in range(len(sc['actors'])):
        yield dict(sc, actors=sc['actors'][:k] + sc['actors'][k + 1:])
    for k, r in enumerate(sc['reports']):
        if r['filters']:
            yield dict(sc, reports=sc['reports'][:k] + [dict(r, filters={})] + sc['reports'][k + 1:])
        for x in r['opts']:
            if x not in ('params', 'limit', 'compare'):
                yield dict(sc, reports=sc['reports'][:k] + [dict(r, opts={a: b for a, b in r['opts'].items() if a != x})] + sc['reports'][k + 1:])
    g = sc['groups'][0]
    for k in ('params', 'datasets', 'importance'):
        for j in range(len(g.get(k, []))):
            if len(g[k]) > 1:
                g2 = dict(g)
                g2[k] = g[k][:j] + g[k][j + 1:]
                yield dict(sc, groups=[g2] + sc['groups'][1:])
