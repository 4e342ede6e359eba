"""C22: grid plots show exactly the selected runs."""
import json
import os
import random

from ..core import R
from .jobs_common import *
from .grid_common import PNAMES, write_faults
from .c20 import compared, normed, shuffled

P_SWITCH = [0.05, 0.2, 0.4]


def preload():
    import getdist.plots
    import getdist.mcsamples


# -- a plotter that records what is drawn; choice of runs and parameters, and reading of the samples, stay the real ones ---------------
def recording():
    """Puts the recording plotter in place (in the process that calls this)."""
    import getdist.plots as plots

    class Axes:
        pass

    class Recorder(plots.GetDistPlotter):
        drawn = None

        def make_figure(self, nplot=1, nx=None, ny=None, xstretch=1.0, ystretch=1.0, sharex=False, sharey=False):
            self.new_plot()
            self.plot_col, self.plot_row = self.default_col_row(nplot, nx=nx, ny=ny)
            self.drawn = dict(panels=[], nx=self.plot_col, size=self.settings.subplot_size_inch, labels=None, ncol=None)
            return self.plot_col, self.plot_row

        def new_plot(self, close_existing=None):
            super().new_plot(close_existing)
            self.drawn = None

        def _subplot_number(self, i, pars=None, **kwargs):
            return Axes()

        def stamp(self, root, par):
            """Which run's samples these are: the values of a parameter tell."""
            m = self.sample_analyser.samples_for_root(root)
            v = m.samples[:, m.paramNames.numberOfName(par.name)]
            return [int(v.min() // 1), int(v.max() // 1)]

        def plot_1d(self, roots, param, param_renames=None, **kwargs):
            lines = []
            for root in plots.makeList(roots):
                p = self._check_param(root, param, param_renames)
                if p:
                    lines.append([root, [self.stamp(root, p)]])
            if not lines:
                raise plots.GetDistPlotError('No roots have parameter: ' + str(param))
            self.drawn['panels'].append([[param.name], lines])

        def plot_2d(self, roots, param1=None, param2=None, param_pair=None, filled=False, **kwargs):
            roots = plots.makeList(roots)
            pair = self.get_param_array(roots[0], param_pair or [param1, param2])
            lines = []
            for root in roots:
                ps = self.get_param_array(root, pair)
                if all(self.param_names_for_root(root).parWithName(p.name) for p in ps):
                    lines.append([root, [self.stamp(root, p) for p in ps]])
            self.drawn['panels'].append([[p.name for p in pair], lines])
            self.drawn['filled'] = bool(filled)

        def triangle_plot(self, roots, params=None, legend_labels=None, plot_3d_with_param=None, filled=False, shaded=False, legend_ncol=None, **kwargs):
            roots = plots.makeList(roots)
            params = self.get_param_array(roots[0], params)
            self.make_figure(nx=len(params), ny=len(params))
            f = bool(kwargs.pop('filled_compare', False) or filled)
            for i, p in enumerate(params):
                self.plot_1d(roots, p)
                for q in params[i + 1:]:
                    self.plot_2d(roots, param_pair=[p, q])
            self.finish_plot(self._default_legend_labels(legend_labels, roots), legend_ncol=legend_ncol)
            self.drawn['filled'] = f
            self.drawn['nx'] = None

        def finish_plot(self, legend_labels=None, legend_loc=None, line_offset=0, legend_ncol=None, **kwargs):
            self.drawn['labels'] = list(legend_labels) if legend_labels else []
            self.drawn['ncol'] = legend_ncol

        def export(self, fname=None, adir=None, watermark=None, tag=None):
            if self.drawn is None:
                raise AttributeError('no figure')
            assert fname and not adir and not tag
            os.makedirs(os.path.dirname(fname), exist_ok=True)
            with open(fname, 'w') as f:
                f.write(json.dumps(self.drawn))

    plots.GetDistPlotter = Recorder


# -- scenarios -------------------------------------------------------------------------------------------------------
def generate(rng, tier, i):
    groups = gen_grid(rng, importance=rng.random() < 0.6, big=rng.random() < 0.3)
    similar = False
    if rng.random() < 0.3 and len(groups) == 1:
        similar = True
        groups[0] = dict(groups[0], datasets=rng.choice([[['plik', 'TT'], ['BAO', 'plik'], ['WMAP', 'TT']][:rng.choice([2, 3])],
                                                     # (one name being the start of another)
                                                     [['plik', 'TT'], ['plik', 'TTEE'], ['plik', 'EE']], [['TT', 'TTEE'], ['EE', 'TTEE'], ['TT', 'EE']], [['TT', 'TTEE'], ['EE', 'TTEE']], [['BAO', 'TTEE'], ['TT', 'BAO'], ['plik', 'TTEE']]]))
    items = model_items('/g', groups)
    states = {}
    for it in items:
        states[it.name] = dict(np=rng.randint(2, 7), chains=rng.choice([0, 1, 1, 1, 2, 2]), rows=rng.choice([12, 25]), first=rng.random() < 0.95, seed=rng.randrange(1 << 20))
    cmds = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        cmds.append(gen_cmd(rng, items, 'repl' if similar and rng.random() < 0.6 else None))
    return dict(groups=groups, states=states, cmds=cmds, together=rng.random() < 0.3, rerun=rng.sample([it.name for it in items], min(len(items), rng.choice([0, 1, 2]))),
                flavour='pbs', dirseed=rng.randrange(1 << 20))


def gen_cmd(rng, items, mode=None):
    o = {}
    data = sorted({x for it in items for x in it.data})
    ptags = sorted({it.paramtag for it in items})
    dtags = sorted({it.datatag for it in items})
    mode = mode or rng.choice(['plain', 'plain', 'cdata', 'alldata', 'imp', 'imp', 'cptag', 'cptag', 'repl', 'repl'])
    f = gen_filters(rng, items, p=0.3)
    if mode == 'cdata':
        o['compare_data'] = [shuffled(rng, x) for x in rng.sample(dtags, rng.randint(1, min(3, len(dtags))))]
    elif mode == 'alldata':
        o['compare_alldata'] = True
    elif mode == 'imp':
        tags = sorted({'_'.join(it.imp) for it in items if it.imp})
        o['compare_importance'] = rng.sample(tags, rng.randint(0, len(tags)))
        f = {k: v for k, v in f.items() if k not in ('noimportance', 'importance', 'importancetag')}
    elif mode == 'cptag':
        o['compare_paramtag'] = rng.sample(ptags, rng.randint(1, min(2, len(ptags))))
        if rng.random() < 0.15:
            o['compare_paramtag'].append('base_w')
    elif mode == 'repl':
        pairs = sorted({(x, y) for a in items for b in items for x in a.data for y in b.data if x not in b.data and y not in a.data
                        and sorted(y if q == x else q for q in a.data) == sorted(b.data)})
        if pairs and rng.random() < 0.85:
            x, y = rng.choice(pairs)
            rest = [z for z in data if z not in (x, y)]
            o['compare_replacing'] = [x] + rng.sample([y] + rest, min(1 + len(rest), rng.choice([1, 2, 2])))
        else:
            o['compare_replacing'] = rng.sample(data + ['WMAPx', 'T', 'li'], min(len(data) + 1, rng.choice([2, 3])))
        if rng.random() < 0.25:
            f = dict(datatag=rng.sample(dtags, min(len(dtags), rng.choice([2, 3]))))
        elif rng.random() < 0.3:
            f = {}
        if 'compare_replacing' in o and f.get('data') is not None:
            f['data'] = [d for d in f['data'] if d not in o['compare_replacing']] or f.pop('data') and []
            if not f.get('data'):
                f.pop('data', None)
    if mode in ('cdata', 'repl', 'alldata') and rng.random() < 0.25:
        o['allhave'] = True
    pars = [p[0] for p in PNAMES]
    kind = rng.choice(['1d', '1d', '2d', 'tri'])
    if kind == '2d':
        o['D2_param'] = rng.choice(pars[:3])
        if rng.random() < 0.6:
            o['D2_y_params'] = rng.sample([p for p in pars[:4] if p != o['D2_param']], rng.choice([1, 2]))
    elif kind == 'tri':
        o['tri_params'] = rng.sample(pars[:3], rng.choice([2, 2, 3])) if rng.random() < 0.8 else rng.sample(pars, 2)
    elif rng.random() < 0.4:
        o['param_list'] = rng.sample(pars, rng.choice([1, 2, 3]))
    if kind != '1d' and rng.random() < 0.4:
        o['filled'] = True
    if kind != 'tri' and rng.random() < 0.3:
        o['nx'] = rng.choice([1, 2, 3])
    if kind != 'tri' and rng.random() < 0.3:
        o['legend_ncol'] = rng.choice([1, 2, 3])
    if rng.random() < 0.3:
        o['legend_labels'] = ['run %d' % k for k in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.3:
        o['size_inch'] = rng.choice([1.5, 3.0, 4.25])
    if rng.random() < 0.3:
        o['outputs'] = rng.choice([['png'], ['pdf', 'png'], ['png', 'eps']])
    if rng.random() < 0.3:
        o['outtag'] = rng.choice(['mytag', 'v2'])
    return dict(opts=o, filters=f, out=rng.choice(['plots', 'plots', 'plots/sub', 'grid/plots/']))


def arg_list(o):
    args = []
    for k, v in o.items():
        if k == 'param_list':
            args += ['--param_list', 'list.paramnames']
        elif v is True:
            args.append('--' + k)
        elif isinstance(v, list):
            args += ['--' + k] + v
        else:
            args += ['--' + k, str(v)]
    return args


def chain_text(seed, base, rows, npar):
    r = random.Random(seed)
    return ''.join('%16.7E%16.7E' % (r.choice([1, 2, 3]), r.uniform(5, 9)) + ''.join('%16.7E' % (base + 10 * k + r.uniform(0.05, 0.95)) for k in range(npar)) + '\n' for _ in range(rows))


# -- model -----------------------------------------------------------------------------------------------------------
def wanted_figures(s, cmd):
    """[(start of the file name, [runs])] in any order."""
    o = cmd['opts']
    f = dict(cmd['filters'])
    if o.get('compare_replacing'):
        f['data'] = (f.get('data') or []) + o['compare_replacing']
    have = s.have
    sel = [it for it in select(s.items, f) if have(it)]
    out = []
    for t in sorted({it.paramtag for it in sel}):
        group = [it for it in sel if it.paramtag == t]
        if o.get('compare_replacing'):
            x, ys = o['compare_replacing'][0], o['compare_replacing'][1:]
            for it in group:
                if x not in it.data:
                    continue
                runs = [q for q in group if normed(q) == normed(it)]
                for y in ys:
                    key = '_'.join(sorted(y if q == x else q for q in it.data))
                    runs += [q for q in group if normed(q) == key]
                if len(runs) == 1 or o.get('allhave') and len(runs) != len(ys) + 1:
                    continue
                out.append((it.name + '-vs-' + '-'.join(ys), runs))
        elif o.get('compare_alldata'):
            out.append((t, group))
        elif o.get('compare_data'):
            runs = compared(group, o['compare_data'])
            if runs and not (o.get('allhave') and len(runs) != len(o['compare_data'])):
                out.append((t, runs))
        elif o.get('compare_importance') is not None:
            for it in group:
                if not it.parent:
                    out.append((it.name, [it] + [q for q in s.items if q.parent is it and have(q) and
                                                 (not o['compare_importance'] or '_'.join(q.imp) in o['compare_importance'])]))
        elif o.get('compare_paramtag'):
            for it in group:
                if it.paramtag in o['compare_paramtag']:
                    continue
                runs = [it]
                for q in o['compare_paramtag']:
                    runs += [z for z in s.items if z.paramtag == q and normed(z) == normed(it) and have(z)][:1]
                if len(runs) > 1:
                    out.append((it.name + '-vs-' + '-'.join(o['compare_paramtag']), runs))
        else:
            out += [(it.name, [it]) for it in group]
    return out


class Impossible(Exception):
    """The figure cannot be made: parameters that the first run does not have."""


def figure(s, sc, o, runs):
    """Panels that the figure must have, as recorded."""
    names = {it.name: [p[0] for p in PNAMES[:sc['states'][it.name]['np']]] for it in runs}
    first = names[runs[0].name]

    def line(it, pars):
        b = s.base[it.name]
        return [it.name, [[b + 10 * [q[0] for q in PNAMES].index(p)] * 2 for p in pars]]

    def panel(pars):
        return [list(pars), [line(it, pars) for it in runs if all(p in names[it.name] for p in pars)]]

    if o.get('D2_param'):
        if o['D2_param'] not in first or any(p not in first for p in o.get('D2_y_params', [])):
            raise Impossible()
        return [panel([o['D2_param'], p]) for p in o.get('D2_y_params') or first if p != o['D2_param']]
    if o.get('tri_params'):
        if any(p not in first for p in o['tri_params']):
            raise Impossible()
        out = []
        t = o['tri_params']
        for k, p in enumerate(t):
            out.append(panel([p]))
            out += [panel([p, q]) for q in t[k + 1:]]
        return out
    pars = [p for p in first if not o.get('param_list') or p in o['param_list']]
    return [panel([p]) for p in pars]


def compare(s, sc, o, runs, drawn):
    """What is wrong with a recorded figure, or None."""
    want = figure(s, sc, o, runs)
    if drawn['panels'] != want:
        for a, b in zip(drawn['panels'], want):
            if a != b:
                return 'panel %s shows %s, should be %s with %s' % (a[0], a[1], b[0], b[1])
        return 'panels %s instead of %s' % ([p[0] for p in drawn['panels']], [p[0] for p in want])
    labels = o.get('legend_labels') or ([it.name for it in runs] if len(runs) > 1 else [])
    if o.get('legend_labels') is None:
        # names of runs with underscores escaped or without them
        got = [x.replace('\\_', '_').replace('{\\textunderscore}', '_') for x in drawn['labels']]
    else:
        got = drawn['labels']
    if got != labels:
        return 'legend is %s instead of %s' % (drawn['labels'], labels)
    if o.get('legend_ncol') and drawn['ncol'] != o['legend_ncol']:
        return 'legend has %s columns instead of %s' % (drawn['ncol'], o['legend_ncol'])
    if o.get('nx') and drawn['nx'] != o['nx']:
        return '%s plots per row instead of %s' % (drawn['nx'], o['nx'])
    if o.get('size_inch') and abs(drawn['size'] - o['size_inch']) > 1e-9:
        return 'size is %s instead of %s' % (drawn['size'], o['size_inch'])
    if (o.get('D2_param') or o.get('tri_params')) and drawn.get('filled') != bool(o.get('filled')):
        return 'filled is %s' % drawn.get('filled')
    return None


def judge(s, sc, cmd, files, new, complete, res):
    """files: {name: text} in the output directory, new: those written by this command."""
    o = cmd['opts']
    want = []
    for stem, runs in wanted_figures(s, cmd):
        want += [(stem, runs, ext) for ext in o.get('outputs', ['pdf'])]
    tags = [o[k] for k in ('outtag', 'D2_param') if o.get(k)] + (['tri'] if o.get('tri_params') else [])
    left = dict(new)
    missing = []
    for stem, runs, ext in sorted(want, key=lambda x: -len(x[0])):
        ok = None
        why = 'there is no such file'
        for nm in sorted(left, key=len):
            if not nm.startswith(stem) or not nm.endswith('.' + ext) or any(t not in nm[len(stem):] for t in tags):
                continue
            try:
                d = json.loads(left[nm])
            except ValueError:
                if not complete:
                    ok = nm
                    break
                why = '%s is not complete' % nm
                continue
            bad = compare(s, sc, o, runs, d)
            if not bad:
                ok = nm
                break
            why = '%s: %s' % (nm, bad)
        if ok:
            left.pop(ok)
            res.note('figures')
        else:
            missing.append((stem, ext, [it.name for it in runs], why))
    if complete and missing:
        return 'no plot %s*.%s of %s: %s' % missing[0]
    if left:
        return 'plots %s were not asked for or are wrong (%s): %s' % (sorted(left), missing[:2], [left[k][:300] for k in sorted(left)][:1])
    return None


# -- running ---------------------------------------------------------------------------------------------------------
class PlotSite(JobSite):
    def have(self, it):
        return self.exist[it.name]


def put_chains(s, sc, it, k, again=False):
    st = sc['states'][it.name]
    s.base[it.name] = 1000 * (k + 1) + (100000 if again else 0)
    for c in range(st['chains']):
        if c == 0 and not st['first']:
            s.write('%s_1.txt' % it.root, '')
            continue
        s.write('%s_%d.txt' % (it.root, c + 1), chain_text(st['seed'] + c + (7 if again else 0), s.base[it.name], st['rows'], st['np']))
    s.exist[it.name] = st['chains'] > 0 and st['first']
    if st['chains']:
        s.write(it.root + '.paramnames', ''.join('%s%s\t%s\n' % (n, '*' if d else '', l) for n, l, d in PNAMES[:st['np']]))


def listing(s, d):
    out = {}
    if os.path.isdir(d):
        for f in os.listdir(d):
            if os.path.isfile(d + '/' + f):
                with R.open(d + '/' + f) as fh:
                    out[f] = fh.read(), os.stat(d + '/' + f).st_mtime_ns
    return out


def execute(sc, choices, tag, res):
    with PlotSite(tag, choices, sc, res) as s:
        w = s.world
        s.base, s.exist = {}, {}
        for k, it in enumerate(s.items):
            put_chains(s, sc, it, k)
        cmds = list(sc['cmds'])
        if sc['rerun']:
            cmds.append(dict(cmds[0], again=True))
        batches = [[c] for c in cmds]
        if sc['together'] and len(sc['cmds']) > 1:
            # two commands at the same time, to directories of their own
            a, b = cmds[0], dict(cmds[1], out='plots2/x')
            if a['out'] == 'plots':
                a = dict(a, out='plots2/y')
            batches[:2] = [[a, b]]
        n = 0
        for batch in batches:
            run = []
            for cmd in batch:
                if cmd.get('again'):
                    for k, it in enumerate(s.items):
                        if it.name in sc['rerun']:
                            put_chains(s, sc, it, k, True)
                o = cmd['opts']
                if o.get('param_list'):
                    s.write(s.work + '/list.paramnames' if n % 2 == 0 or len(batch) == 1 else s.work + '/list2.paramnames', ''.join(x + '\n' for x in o['param_list']))
                args = ['grid', cmd['out']] + arg_list(o) + filter_args(cmd['filters'])
                if o.get('param_list') and not (n % 2 == 0 or len(batch) == 1):
                    args = ['list2.paramnames' if x == 'list.paramnames' else x for x in args]
                out = s.work + '/' + cmd['out'].rstrip('/')
                for f in listing(s, out):
                    os.remove(out + '/' + f)
                p = w.script('cmd%d' % n, 'makePlots.py', args, setup=recording)
                p.fault_ok = True
                n += 1
                run.append((cmd, p, out, args))
            choices.fired.clear()
            w.run(lambda: all(p.finished for _, p, _, _ in run))
            if w.limit_hit:
                res.violate('no-end', 'makePlots did not end')
                return
            for cmd, p, out, args in run:
                fired = [f for k, f in choices.fired.items() if k.split(':')[0] == p.name or k == 'diskfull']
                o = cmd['opts']
                impossible, empty = False, False
                for stem, runs in wanted_figures(s, cmd):
                    try:
                        empty = empty or not figure(s, sc, o, runs)
                    except Impossible:
                        impossible = True
                if p.status == -9:
                    res.note('killed')
                elif p.status and not (fired or impossible or empty):
                    res.violate('plot-fails', 'makePlots %s failed: %s' % (args, p.stderr[-600:]))
                    return
                elif p.status == 0 and impossible:
                    res.violate('plot-lost', 'makePlots %s ended normally without plots that cannot be made' % args)
                    return
                if impossible:
                    res.note('impossible')
                    continue
                files = {f: t for f, (t, _) in listing(s, out).items()}
                bad = judge(s, sc, cmd, files, files, p.status == 0, res)
                if bad:
                    res.violate('plot-wrong', 'makePlots %s ended with status %s but %s' % (args, p.status, bad))
                    return
                if p.status == 0:
                    res.note('checked')
        res.nontrivial = True
        res.state = repr([q.stdout for q in w.procs if q.name.startswith('cmd')])


def faults(rng, sc, base, tier):
    pts = [x for x in base.points if x[0].startswith('cmd') and not x[3].startswith('cache')]
    plans = write_faults(rng, pts, 2 if tier == 'quick' else 8, crash=False)
    for nm, st, kind, rel in rng.sample(pts, min(len(pts), 1)):
        plans.append({'%s:%d' % (nm, st): dict(kind='crash')})
    return plans


def shrink(sc):
    if len(sc['cmds']) > 1:
        for k in range(len(sc['cmds'])):
            yield dict(sc, cmds=sc['cmds'][:k] + sc['cmds'][k + 1:])
    if sc['together']:
        yield dict(sc, together=False)
    if sc['rerun']:
        yield dict(sc, rerun=[])
    for k, c in enumerate(sc['cmds']):
        if c['filters']:
            yield dict(sc, cmds=sc['cmds'][:k] + [dict(c, filters={})] + sc['cmds'][k + 1:])
        for x in c['opts']:
            yield dict(sc, cmds=sc['cmds'][:k] + [dict(c, opts={a: b for a, b in c['opts'].items() if a != x})] + sc['cmds'][k + 1:])
    g = sc['groups'][0]
    for k in ('params', 'datasets', 'importance'):
        for j in range(len(g.get(k, []))):
            if len(g[k]) > 1:
                g2 = dict(g)
                g2[k] = g[k][:j] + g[k][j + 1:]
                yield dict(sc, groups=[g2] + sc['groups'][1:])
