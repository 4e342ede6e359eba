"""C10: building a grid is restartable and never touches existing chains."""
import sys

from .grid_common import *
from ..site import read_ini
from ..core import REPO, PYDIR

CONCURRENT = False
DEFAULT_PARAMS = {'mnu': '0.02 0 5 0.1 0.03', 'omegak': '-0.0008 -0.3 0.3 0.001 0.001', 'nnu': '3.046 0.05 10 0.05 0.05', 'r': '0 0 3 0.03 0.03',
                  'w': '-0.995 -3 -0.3 0.02 0.02', 'yhe': '0.245 0.1 0.5 0.006 0.006', 'meffsterile': '0.1 0 3 0.1 0.03', 'nt': '0 -3 3 0.2 0.02'}
DEFAULT_EXTRA = {'mnu': {'num_massive_neutrinos': 3, 'neutrino_hierarchy': 'degenerate'},
                 'meffsterile': {'param[mnu]': '0.06', 'param[nnu]': '3.1 3.046 10 0.05 0.05', 'num_massive_neutrinos': 1, 'accuracy_level': 1.2},
                 'yhe': {'bbn_consistency': False}, 'r': {'compute_tensors': True}, 'nt': {'inflation_consistency': False, 'lmax_tensor': 1000}}
PSETS = [[], ['mnu'], ['nnu'], ['mnu', 'nnu'], ['omegak'], ['r'], ['w'], ['yhe'], ['meffsterile'], ['nnu', 'mnu'], ['r', 'nt'], ['omegak', 'meffsterile']]
DSETS = [['plik', 'TT'], ['plik', 'TT', 'lensing'], ['plik'], ['BAO'], ['lowTEB', 'plik'], ['plik', 'BAO']]
IMPS = [['zre'], ['HST'], ['JLA', 'HST'], ['lensing'], ['BAO'], ['TT'], ['HST', 'lensing'], ['BAO', 'JLA']]
GIVEN = 'planck_covmats/base_TTTEEE_plikHM.covmat'  # in the repository
DICTS = [{'use_nonlinear_lensing': True}, {'param[calPlik]': '1 0.9 1.1 0.02 0.02'}, {'accuracy_level': 1.3, 'num_massive_neutrinos': 1}, {'checkpoint': False},
         {'use_nonlinear_lensing': False, 'checkpoint': True}, {'accuracy_level': 1.4, 'checkpoint': 'F'}]


def gen_settings(rng):
    S = dict(groups=[], defaults=rng.choice([['common.ini'], ['common.ini', 'extra.ini'], []]), importanceDefaults=rng.choice([['importance_sampling.ini'], []]))
    for gi in range(rng.choice([1, 1, 2])):
        ds = []
        for d in rng.sample(DSETS, rng.choice([1, 1, 2])):
            x = dict(names=d, params=[n + '.ini' for n in d])
            if rng.random() < 0.3:
                x['params'] = x['params'] + [rng.choice(DICTS)]
            if rng.random() < 0.15:
                x['params'] = [x['params'][:1], x['params'][1:]]
            if rng.random() < 0.3:
                x['covmat'] = rng.choice(['given.covmat', 'planck_covmats/none.covmat', GIVEN])
            if rng.random() < 0.3:
                # built up with add and addEnd
                x.update(names0=x['names'], params0=rng.choice([x['params'], None, [n[:-4] if isinstance(n, str) else n for n in x['params']]]), adds=[], tup=False)
                if x['params0'] is None:
                    x['params'] = [n + '.ini' for n in d]
                for n in rng.sample(['SZ', 'DES', None, None], rng.choice([1, 1, 2])):
                    end = rng.random() < 0.5
                    ps = rng.choice([None, [n + '.ini']] if n and not end else [[n + '.ini'] if n else ['more.ini']]) if rng.random() < 0.6 else rng.choice([['more'], ['more.ini', dict(rng.choice(DICTS))], [dict(rng.choice(DICTS))]])
                    x['adds'].append([n, ps, end])
                    new = [y + '.ini' if isinstance(y, str) and '.ini' not in y else y for y in ([n] if ps is None else ps)]
                    x['params'] = x['params'] + new if end else new + x['params']
                    if n:
                        x['names'] = x['names'] + [n]
            elif any(isinstance(y, list) for y in x['params']):
                x['tup'] = rng.random() < 0.5
            ds.append(x)
        g = dict(name='g%d' % gi, params=rng.sample(PSETS, rng.choice([1, 2, 3])), datasets=ds,
                 importance=[dict(names=n, minimize=rng.random() < 0.7, cond=rng.choice([None, None, None, 'mnu', 'nnu']),
                                  kind=rng.choice(['list', 'list', 'class', 'filter']), dict=rng.random() < 0.2) for n in rng.sample(IMPS, rng.choice([0, 0, 1, 2, 3]))], ctor=rng.random() < 0.3)
        if rng.random() < 0.25:
            g['extra_opts'] = rng.choice(DICTS)
        if rng.random() < 0.2:
            g['param_extra_opts'] = {'mnu': {'num_massive_neutrinos': 2}, 'nnu': {'accuracy_level': 1.1}}
        S['groups'].append(g)
    if rng.random() < 0.2:
        S['importance'] = [dict(names=rng.choice(IMPS), minimize=True, cond=None, kind='list', dict=False)]
    if rng.random() < 0.12:
        S['jobitems'] = [dict(params=rng.choice(PSETS), ds=dict(names=['WMAP'] + rng.choice([[], ['lensing']]), params=['WMAP.ini']))]
    if rng.random() < 0.12:
        S['filters'] = [dict(names=[rng.choice(['zre9', 'H070'])], minimize=False, cond=rng.choice([None, 'mnu']), kind='filter', dict=False)]
    if rng.random() < 0.2:
        S['params'] = dict(DEFAULT_PARAMS, mnu='0.06 0 3 0.1 0.03', nnu='3.1 3 4 0.1 0.1')
    if rng.random() < 0.2:
        S['param_extra_opts'] = {'mnu': {'num_massive_neutrinos': 1}, 'omegak': {'accuracy_level': 1.15}}
    if rng.random() < 0.3:
        S['extra_opts'] = rng.choice(DICTS)
    if rng.random() < 0.2:
        S['start_at_bestfit'] = rng.random() < 0.7
    if rng.random() < 0.2:
        S['override_defaults'] = ['over.ini']
    if rng.random() < 0.2:
        S['newCovmats'] = False
    if rng.random() < 0.3:
        S['covmat'] = rng.choice(['set.covmat', 'planck_covmats/none.covmat', GIVEN])
    if rng.random() < 0.3:
        S['covNameMappings'] = rng.choice([{'lensing': '', 'BAO': 'bao', 'TT': 'TTTEEE'}] * 3 + [{'TT': 'plik', 'lowTEB': 'plik', 'BAO': 'lensing'}])
    if rng.random() < 0.3:
        S['covrenames'] = rng.choice([[['BAO', 'lensing'], ['plik', 'camspec'], ['_mnu', '']]] * 2 + [[['T', 'E'], ['E', 'T'], ['lensing', 'BAO']], [['plik', 'TT'], ['plik', 'BAO'], ['TT', 'BAO']]])
    if rng.random() < (0.6 if 'covNameMappings' in S else 0.2):
        S['covWithoutNameOrder'] = ['lensing', 'BAO']
    if rng.random() < 0.2:
        S['fallback'] = True
    runs = [n for n in names_of(S) if '_post_' not in n]
    norm = [x['normed'] for x in runs_of(S, '/g') if x['parent'] is None]
    if rng.random() < 0.15:
        S['skip'] = [rng.choice(names_of(S))]
    covs = []
    pool = []
    for x in runs_of(S, '/g'):
        if x['parent'] is None:
            first, second = candidates(S, x)
            pool += sorted(set(first)) + rng.choice([1, 3]) * sorted(set(second)) + [x['normed']]
    pool = [x for x in pool if '/' not in x]
    if S.get('fallback'):
        S['covs2'] = sorted(set(rng.sample(pool, min(len(pool), rng.randint(0, 4)))))
    if rng.random() < 0.8:
        covs = rng.sample(pool, min(len(pool), rng.randint(0, 4)))
    S['covs'] = sorted(set(covs))
    return S


def names_of(S):
    return [i['name'] for i in runs_of(S, '/g')]


def lit(ds):
    ps = ds.get('params0', ds['params'])
    if ds.get('tup'):
        ps = [tuple(x) if isinstance(x, list) else x for x in ps]
    t = 'batchjob.dataSet(%r%s%s)' % (ds.get('names0', ds['names']), '' if ps is None else ', %r' % ps, ', covmat=%r' % ds['covmat'] if 'covmat' in ds else '')
    for n, p, end in ds.get('adds', []):
        t += '.addEnd(%r, %r)' % (n, p) if end else '.add(%r%s)' % (n, '' if p is None else ', %r' % p)
    return t


def text_of(S, covdir, grid):
    L = ['from paramgrid import batchjob', '', "ini_dir = 'batch3/'", 'defaults = %r' % S['defaults'], 'importanceDefaults = %r' % S['importanceDefaults'],
         'cov_dir = %r' % covdir]
    if S.get('fallback'):
        L.append('cov_dir_fallback = %r' % (covdir + '2'))
    L += ['', 'class OnlyWith(object):', '    def __init__(self, p): self.p = p', '    def wantImportance(self, jobItem): return self.p in jobItem.param_set', '',
          'class Setting(batchjob.importanceSetting):', '    only = None', '    def wantImportance(self, jobItem): return self.only is None or self.only in jobItem.param_set', '',
          'class Cut(batchjob.importanceFilter):', '    only = None', '    def wantImportance(self, jobItem): return self.only is None or self.only in jobItem.param_set', '',
          'def only(x, p):', '    x.only = p', '    return x', '']

    def imps(lst):
        out = []
        for i in lst:
            inis = imp_inis(i)
            if i['kind'] == 'filter':
                out.append('only(Cut(%r), %r)' % (i['names'], i['cond']))
            elif i['kind'] == 'class' or not i['minimize']:
                out.append('only(Setting(%r, %r, minimize=%r), %r)' % (i['names'], inis, i['minimize'], i['cond']))
            elif i['cond']:
                out.append('[%r, %r, OnlyWith(%r)]' % (i['names'], inis, i['cond']))
            else:
                out.append('[%r, %r]' % (i['names'], inis))
        return '[%s]' % ', '.join(out)

    L.append('groups = []')
    for g in S['groups']:
        p, d, m = repr(g['params']), '[%s]' % ', '.join(lit(d) for d in g['datasets']), imps(g['importance'])
        if g['ctor']:
            L.append('g = batchjob.jobGroup(%r, %s, %s, %s)' % (g['name'], p, m, d))
        else:
            L += ['g = batchjob.jobGroup(%r)' % g['name'], 'g.params = ' + p, 'g.datasets = ' + d, 'g.importanceRuns = ' + m]
        for k in ('extra_opts', 'param_extra_opts'):
            if k in g:
                L.append('g.%s = %r' % (k, g[k]))
        L.append('groups.append(g)')
    if S.get('jobitems'):
        L.append('jobItems = [%s]' % ', '.join('batchjob.jobItem(%r, %r, %s)' % (grid + '/', x['params'], lit(x['ds'])) for x in S['jobitems']))
    if S.get('filters'):
        L.append('importance_filters = ' + imps(S['filters']))
    if S.get('importance'):
        L.append('importanceRuns = ' + imps(S['importance']))
    for k in ('skip', 'params', 'param_extra_opts', 'extra_opts', 'start_at_bestfit', 'override_defaults', 'newCovmats', 'covmat', 'covNameMappings', 'covrenames',
              'covWithoutNameOrder'):
        if k in S:
            L.append('%s = %r' % (k, S[k]))
    return '\n'.join(L) + '\n'


def imp_inis(i):
    return [x + '.ini' for x in i['names']] + ([{'redo_likes': True, 'param[calPlik]': '1'}] if i['dict'] else [])


def normed(params, data):
    return '_'.join(['base'] + sorted(params) + sorted(data))


def runs_of(S, grid):
    """The runs the settings prescribe, in order, importance runs after their parent."""
    items = []

    def make(d, ps, g):
        name = '_'.join(['base'] + ps + d['names'])
        return dict(name=name, params=ps, data=list(d['names']), ds=d, group=g, root='%s/%s/%s/' % (grid, '_'.join(['base'] + ps), '_'.join(d['names'])) + name, imps=[],
                    normed=normed(ps, d['names']), parent=None)

    def importance(it, lst):
        for i in lst:
            if i['cond'] and i['cond'] not in it['params'] or set(i['names']) & set(it['data']):
                continue
            tag = ('_' if '_post_' in it['name'] else '_post_') + '_'.join(i['names'])
            it['imps'].append(dict(name=it['name'] + tag, params=it['params'], data=it['data'] + i['names'], imp=i, parent=it, root=it['root'] + tag, group=it['group'], imps=[],
                                   normed=normed(it['params'], it['data'] + i['names'])))

    for g in S['groups']:
        for d in g['datasets']:
            for ps in g['params']:
                it = make(d, ps, g)
                if it['name'] in S.get('skip', []):
                    continue
                importance(it, g['importance'])
                importance(it, S.get('importance', []))
                items.append(it)
    for x in S.get('jobitems', []):
        it = make(x['ds'], x['params'], {})
        items.append(it)
        importance(it, S.get('importance', []))
    for it in items:
        if S.get('filters'):
            for b in it['imps']:
                importance(b, S['filters'])
            importance(it, S['filters'])

    def below(a):
        return a['imps'] + [y for x in a['imps'] for y in below(x)]

    def everything():
        for a in items:
            yield a
            for b in below(a):
                if b['name'] not in S.get('skip', []):
                    yield b

    def drop(a, b):
        if any(x is b for x in a['imps']):
            a['imps'] = [x for x in a['imps'] if x is not b]
        else:
            for x in a['imps']:
                drop(x, b)

    full = {a['normed'] for a in items}
    for a in items:
        for b in below(a):
            if b['normed'] in full:
                drop(a, b)
    for a in items:
        for b in below(a):
            if any(x['normed'] == b['normed'] and x is not b for x in everything()):
                drop(a, b)
    return list(everything())


def ini_text(v):
    return ('T' if v else 'F') if isinstance(v, bool) else str(v)


def flat(params):
    for x in params:
        if isinstance(x, list):
            yield from flat(x)
        else:
            yield x


def candidates(S, it):
    """The covariance matrices a run may use, in order: those for it, and those for similar runs."""
    m = S.get('covNameMappings')
    mp = lambda names, mm: [x for x in ((mm or {}).get(n, n) for n in names) if x]
    mnorm = normed(it['params'], mp(it['data'], m))
    first = [it['name']] + ([mnorm] if mp(it['data'], m) else [])
    if m:
        first.append('_'.join(m.get(x, x) for x in it['name'].split('_')))
    if 'covmat' in it['ds']:
        first.append(it['ds']['covmat'][:-7])
    if 'covmat' in S:
        first.append(S['covmat'][:-7])
    second = []
    for a in (it['name'], mnorm):
        rn = S.get('covrenames', [])
        second += [a.replace(x, y, 1) for x, y in rn if x in a]
        for y1, x1 in rn:
            if x1 in a:
                b = a.replace(x1, y1, 1)
                second += [b.replace(x, y, 1) for x, y in rn if x in b]
    rem = dict(m or {})
    for n in S.get('covWithoutNameOrder', []):
        if n in it['data']:
            rem[n] = ''
            # (without any data set left there is no such run)
            second += [normed(it['params'], d) for d in (mp(it['data'], {n: ''}), mp(it['data'], rem)) if d]
    return first, second


def expected(S, grid, covdir):
    """{ini path: (own settings, default files)}"""
    out = {}
    common = REPO + '/batch3/'
    exists = lambda n: n in S['covs'] or n + '.covmat' == GIVEN
    covfile = lambda n, dup='': '%s%s/%s.covmat' % (covdir, dup, n)
    for it in runs_of(S, grid):
        own, dfl = {}, []
        if it['parent'] is None:
            for p in it['params']:
                own['param[%s]' % p] = S.get('params', DEFAULT_PARAMS)[p]
                own.update(S.get('param_extra_opts', DEFAULT_EXTRA).get(p, {}))
                own.update(it['group'].get('param_extra_opts', {}).get(p, {}))
            own.update(S.get('extra_opts', {}))
            own.update(it['group'].get('extra_opts', {}))
            own['file_root'] = it['root']
            first, second = candidates(S, it)
            hit = [c for c in first if exists(c)][:1]
            if hit:
                own['propose_matrix'] = REPO + '/' + GIVEN if hit[0] + '.covmat' == GIVEN else covfile(hit[0])
                if S.get('newCovmats', True):
                    own['MPI_Max_R_ProposeUpdate'] = 20
            else:
                own['MPI_Max_R_ProposeUpdate'] = 20
                if S.get('fallback'):
                    hit = [c for c in second if c in S.get('covs2', [])][:1]
                else:
                    hit = [c for c in second if exists(c)][:1]
                if hit:
                    own['propose_matrix'] = covfile(hit[0], '2' if S.get('fallback') else '')
            own['start_at_bestfit'] = S.get('start_at_bestfit', False)
            for x in flat(it['ds']['params']):
                if isinstance(x, dict):
                    own.update(x)
                else:
                    dfl.append(common + x)
            dfl += [common + x for x in S['defaults']]
            dfl = [common + x for x in S.get('override_defaults', [])] + dfl
            base = dict(own, action=0)
            out['%s/iniFiles/%s.ini' % (grid, it['name'])] = base, dfl
            if not S.get('start_at_bestfit'):
                out['%s/iniFiles/%s_minimize.ini' % (grid, it['name'])] = minimize(it, own), dfl
        else:
            i = it['imp']
            if i['kind'] == 'filter':
                continue  # done in python
            par = '%s/iniFiles/%s.ini' % (grid, it['parent']['name'])
            inis = [common + x for x in imp_inis(i) if not isinstance(x, dict)]
            opts = {k: v for x in imp_inis(i) if isinstance(x, dict) for k, v in x.items()}
            out['%s/postIniFiles/%s.ini' % (grid, it['name'])] = dict(opts, redo_outroot=it['root'], action=1), inis + [common + x for x in S['importanceDefaults']] + [par]
            if i['minimize']:
                out['%s/postIniFiles/%s_minimize.ini' % (grid, it['name'])] = minimize(it, dict(opts, file_root=it['root'])), inis + [par]
    return {f: ({k: ini_text(v) for k, v in a.items()}, b) for f, (a, b) in out.items()}


def minimize(it, own):
    own = dict(own, action=2, lmin_store_all_cmb=2500)
    if 'omegak' in it['params']:
        own['accuracy_level'] = 1.2
    if 'meffsterile' in it['params']:
        own['sterile_mphys_max'] = 10000
    return own


def generate(rng, tier, i):
    steps = []
    S = gen_settings(rng)
    for k in range(rng.choice([1, 2, 2, 3])):
        st = dict(settings=S, name=rng.choice(['gridset', 'gridset', 'other']), chains=rng.random() < 0.7, jobs=rng.random() < 0.3)
        steps.append(st)
        if rng.random() < 0.7:
            S = gen_settings(rng)
    return dict(steps=steps, victim=rng.randrange(len(steps)), files_seed=rng.randrange(1 << 20), sub=gen_settings(rng) if rng.random() < 0.2 else None,
                dirseed=rng.randrange(1 << 20), flavour=None, diskfull=rng.choice([None, 0, 50, 2000]), label=rng.random() < 0.3)


def run_grid(s, S, name, pname, faults, grid='grid'):
    sdir = s.root + '/settings_' + grid
    s.write(sdir + '/' + name + '.py', text_of(S, s.root + '/covs', s.work + '/' + grid))
    R_rm(s.root + '/covs')
    for c in S['covs']:
        s.write(s.root + '/covs/%s.covmat' % c, '# x\n1\n')
    R_rm(s.root + '/covs2')
    for c in S.get('covs2', []):
        s.write(s.root + '/covs2/%s.covmat' % c, '# x\n1\n')
    p = s.world.script(pname, 'makeGrid.py', [grid, name], setup=lambda: sys.path.insert(0, sdir))
    p.fault_ok = faults
    s.world.run(lambda: p.finished)
    return p


def R_rm(d):
    import shutil
    shutil.rmtree(d, ignore_errors=True)


def compare(want):
    for f, (own, dfl) in want.items():
        try:
            vals, got, inc, gd = read_ini(f)
        except OSError as e:
            return '%s is not there' % os.path.basename(f)
        if inc:
            return '%s has INCLUDE %s' % (os.path.basename(f), inc)
        if got != own:
            d = {k: (got.get(k), own.get(k)) for k in set(got) | set(own) if got.get(k) != own.get(k)}
            return '%s: %s (found, prescribed)' % (os.path.basename(f), d)
        if gd != dfl:
            return '%s: default files %s, prescribed %s' % (os.path.basename(f), gd, dfl)
    return None


def listing(s, grid='grid', args=()):
    n = s.listed = getattr(s, 'listed', 0) + 1
    p = s.run_script('list%d' % n, 'listGrid.py', [grid] + list(args))
    return p, [l.split(' ')[0] for l in p.stdout.split('\n') if l.startswith('base')]


def execute(sc, choices, tag, res):
    with Site(tag, choices, flavour=None, scenario=sc, max_steps=60000) as s:
        res.worlds.append(s.world)
        w = s.world
        grid = s.work + '/grid'
        protected = {}
        bad = []

        written = set()

        def hook(p, kind, path):
            if path in protected:
                bad.append((p.name, kind, w.rel(path)))
            if path.endswith('.ini') and os.path.dirname(path) in (grid + '/iniFiles', grid + '/postIniFiles'):
                written.add(path)
        w.mut_hooks.append(hook)
        for k, st in enumerate(sc['steps']):
            S = st['settings']
            victim = k == sc['victim']
            if sc['label'] and k:
                f = grid + '/config/config.ini'
                s.write(f, open(f).read() + '\nlabel = my grid\n' if 'label' not in open(f).read() else open(f).read())
            want = expected(S, grid, s.root + '/covs')
            for attempt in (1, 2):
                if attempt == 1 and victim and sc.get('diskfull') is not None and choices.faults.get('diskfull'):
                    w.disk_limit = sc['diskfull']
                p = run_grid(s, S, st['name'], 'mk%d' % k if attempt == 1 else 'again%d' % k, victim and attempt == 1)
                w.disk_limit = None
                if w.limit_hit:
                    res.violate('no-end', 'makeGrid did not end')
                    return
                fired = dict(w.faults_fired) if victim else {}
                extra = sorted(w.rel(f) for f in written - set(want) if not any(os.path.basename(f).startswith(x) for x in S.get('skip', [])))
                if extra:
                    res.violate('wrong-ini', 'makeGrid wrote %s, which the settings do not prescribe' % extra)
                    return
                written.clear()
                if bad:
                    res.violate('chains-touched', 'makeGrid: %s of %s' % bad[0][1:])
                    return
                err = check_protected(protected)
                if err:
                    res.violate('chains-touched', err)
                    return
                if not p.status:
                    d = compare(want)
                    if d:
                        res.violate('silent-failure' if fired and attempt == 1 else 'wrong-ini', 'makeGrid ended normally (faults %s, attempt %d) but %s' % (fired, attempt, d))
                        return
                    break
                if not fired:
                    res.violate('command-fails', 'makeGrid failed: ' + p.stderr[-500:])
                    return
                if attempt == 2:
                    res.violate('not-restartable', 'makeGrid fails again after an interrupted run (%s): %s' % (fired, p.stderr[-400:]))
                    return
                res.note('restarted')
            # configuration kept with the grid
            for f in os.listdir(s.root + '/settings_grid'):
                if f.startswith(st['name'] + '.py'):
                    with R.open(s.root + '/settings_grid/' + f) as a, R.open(grid + '/config/' + f) as b:
                        if a.read() != b.read():
                            res.violate('wrong-config', 'config/%s is not the settings file used' % f)
                            return
            cfg = read_ini(grid + '/config/config.ini')[1]
            if cfg.get('setting_file') != st['name'] + '.py' or (sc['label'] and k and cfg.get('label') != 'my grid'):
                res.violate('wrong-config', 'config.ini has %s after building from %s' % (cfg, st['name']))
                return
            runs = runs_of(S, grid)
            p, got = listing(s)
            wantl = sorted(x['name'] for x in runs)
            if p.status or sorted(got) != wantl:
                res.violate('wrong-list', 'listGrid after makeGrid lists %s, settings prescribe %s; %s' % (sorted(got), wantl, p.stderr[-300:]))
                return
            res.note('inis', len(want))
            res.note('runs', len(runs))
            if st['chains']:
                import random as _r
                rr = _r.Random(sc['files_seed'] + k)
                for x in runs:
                    if rr.random() < 0.6:
                        for suf, text in (('_1.txt', '1 2 3\n'), ('_2.txt', '1 2 4\n'), ('.paramnames', 'a\tb\n'), ('_1.chk', 'c'), ('.converge_stat', '0.1\n'), ('.ranges', 'a 0 1\n'),
                                          ('.minimum', 'm'), ('.covmat', '# a\n1\n'), ('.properties.ini', 'label = z\n')):
                            f = x['root'] + suf
                            if f not in protected and (suf[:2] == '_1' or rr.random() < 0.7):
                                s.write(f, text + x['name'], t=w.now - 4000)
                                protected[f] = (text + x['name']).encode(), int(round((w.now - 4000) * 1e9))
                        f = os.path.dirname(x['root']) + '/dist/' + x['name'] + '.margestats'
                        if f not in protected:
                            s.write(f, 'm', t=w.now - 3000)
                            protected[f] = b'm', int(round((w.now - 3000) * 1e9))
            if st['jobs']:
                f = grid + '/jobIndex.pyobj'
                if f not in protected:
                    s.write(f, 'jobs', t=w.now - 3000)
                    protected[f] = b'jobs', int(round((w.now - 3000) * 1e9))
        if sc['sub']:
            p = run_grid(s, sc['sub'], 'subset', 'mksub', False, grid='grid2')
            if p.status:
                res.violate('command-fails', 'makeGrid of a second grid failed: ' + p.stderr[-400:])
                return
            p = s.run_script('add', 'addGridBatch.py', ['grid', 'grid2'])
            if p.status:
                res.violate('command-fails', 'addGridBatch failed: ' + p.stderr[-400:])
                return
            S = sc['steps'][-1]['settings']
            a, b = runs_of(S, grid), runs_of(sc['sub'], s.work + '/grid2')
            full = {x['name'] for x in a + b if x['parent'] is None}
            wantl = sorted(x['name'] for x in a + b if x['parent'] is None or x['name'].replace('_post', '') not in full)
            p, got = listing(s)
            if sorted(got) != wantl and "No module named 'subset'" in p.stdout and (sc['sub'].get('filters') or any(y['kind'] == 'filter' for x in sc['sub']['groups'] for y in x['importance'])):
                # the added grid's filters are classes of its own settings module
                res.violate('subgrid-filter', 'after addGridBatch of a grid with filters listGrid gives %s, expected %s' % (sorted(got), wantl))
                return
            if p.status or sorted(got) != wantl:
                res.violate('wrong-list', 'after addGridBatch listGrid gives %s, expected %s; %s' % (sorted(got), wantl, p.stderr[-300:]))
                return
            p, got = listing(s, 'grid2')
            if p.status or sorted(got) != sorted(x['name'] for x in b):
                res.violate('wrong-list', 'addGridBatch changed the added grid: listGrid gives %s' % sorted(got))
                return
            res.note('subgrids')
        if bad or check_protected(protected):
            res.violate('chains-touched', str(bad[:1] or check_protected(protected)))
            return
        res.note('protected-files', len(protected))
        res.nontrivial = True
        res.state = repr(sorted(want))


def check_protected(protected):
    for f, (b, t) in protected.items():
        try:
            with R.open(f, 'rb') as fh:
                if fh.read() != b:
                    return '%s was changed' % f
            if os.stat(f).st_mtime_ns != t:
                return '%s was touched' % f
        except OSError as e:
            return '%s is gone' % f
    return None


def faults(rng, sc, base, tier):
    pts = [x for x in base.points if x[0] == 'mk%d' % sc['victim'] and not x[3].startswith('settings') and not (x[2] == 'mkdir' and x[3].startswith('cache'))]
    # (with no cache directory the description goes elsewhere by design: C11)
    plans = write_faults(rng, pts, 5 if tier == 'quick' else 40, reads=False, crash=True)
    if sc.get('diskfull') is not None:
        plans.append({'diskfull': dict(kind='diskfull')})
    return plans


def shrink(sc):
    st = sc['steps']
    for j in range(len(st)):
        if len(st) > 1 and j != sc['victim']:
            yield dict(sc, steps=st[:j] + st[j + 1:], victim=sc['victim'] - (j < sc['victim']))
    if sc['sub']:
        yield dict(sc, sub=None)
    if sc['label']:
        yield dict(sc, label=False)
    for j, x in enumerate(st):
        S = x['settings']

        def put(S2):
            return dict(sc, steps=st[:j] + [dict(x, settings=S2)] + st[j + 1:])
        for k in list(S):
            if k not in ('groups', 'defaults', 'importanceDefaults', 'covs'):
                yield put({a: b for a, b in S.items() if a != k})
        if S['covs']:
            yield put(dict(S, covs=S['covs'][1:]))
        for gi, g in enumerate(S['groups']):
            if len(S['groups']) > 1:
                yield put(dict(S, groups=S['groups'][:gi] + S['groups'][gi + 1:]))
            for k in ('params', 'datasets', 'importance'):
                for e in range(len(g[k])):
                    if len(g[k]) > (k != 'importance'):
                        yield put(dict(S, groups=S['groups'][:gi] + [dict(g, **{k: g[k][:e] + g[k][e + 1:]})] + S['groups'][gi + 1:]))
            for k in ('extra_opts', 'param_extra_opts'):
                if k in g:
                    yield put(dict(S, groups=S['groups'][:gi] + [{a: b for a, b in g.items() if a != k}] + S['groups'][gi + 1:]))
