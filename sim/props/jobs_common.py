"""Scenario pieces shared by the job-queue properties: a small grid, a queue manager, commands, and the reference model."""
import fnmatch
import os
import re

from ..core import R
from ..site import Site, settings_text

PARAMS = [[], ['mnu'], ['nnu'], ['mnu', 'nnu'], ['omegak'], ['r']]
DATA = [['plik', 'TT'], ['plik', 'TT', 'lensing'], ['plik'], ['BAO'], ['lowTEB', 'plik']]
LONG = [['plikHM', 'TTTEEE', 'lowTEB', 'lensing', 'galaxyclustering', 'weaklensing'],
        ['plikHM', 'TTTEEE', 'lowTEB', 'lensing', 'galaxyclustering', 'supernovae']]


def gen_grid(rng, big=False, importance=False, long_names=False):
    pool = DATA + (LONG if long_names else [])
    params = rng.sample(PARAMS, rng.choice([1, 2, 2, 3] if not big else [2, 3, 4]))
    data = rng.sample(pool, rng.choice([1, 2, 2] if not big else [2, 3]))
    if long_names and rng.random() < 0.6:
        data = LONG[:rng.choice([1, 2])]
    g = dict(name='main', params=params, datasets=data)
    if importance:
        g['importance'] = rng.sample([['zre'], ['HST'], ['JLA', 'HST']], rng.choice([1, 2]))
    if len(params) > 1 and rng.random() < 0.3:
        k = rng.randint(1, len(params) - 1)
        g2 = dict(g, name='extra', params=params[k:])
        g['params'] = params[:k]
        if rng.random() < 0.5:
            g2.pop('importance', None)
        return [g, g2]
    return [g]


class Item:
    """Reference model of one grid run."""

    def __init__(self, grid, base_params, names, imp=None, parent=None, group='main'):
        self.params, self.data, self.imp, self.parent, self.group = list(base_params), list(names), imp, parent, group
        ptag = '_'.join(['base'] + list(base_params))
        if parent is None:
            self.datatag = '_'.join(names)
            self.name = ptag + '_' + self.datatag
        else:
            tag = ('_' if '_post_' in parent.name else '_post_') + '_'.join(imp)
            self.name = parent.name + tag
            self.datatag = parent.datatag + tag
        self.paramtag = ptag
        top = self
        while top.parent:
            top = top.parent
        self.rel = ptag + '/' + top.datatag + '/'
        self.root = grid + '/' + self.rel + self.name
        self.grid = grid

    def ini(self, variant=''):
        return '%s/%s/%s%s.ini' % (self.grid, 'postIniFiles' if self.parent else 'iniFiles', self.name, variant)


def model_items(grid, groups, importance=True):
    """Items in the documented order: groups, then data sets, then parameter sets, importance runs after each run."""
    out = []
    for g in groups:
        for d in g['datasets']:
            dd, d = d, d['names'] if isinstance(d, dict) else d
            for ps in g['params']:
                it = Item(grid, ps, d, group=g.get('name'))
                it.dataset = dd
                out.append(it)
                if importance:
                    for imp in g.get('importance', []):
                        out.append(Item(grid, ps, d + imp, imp, it, group=g.get('name')))
    return out


class JobSite(Site):
    def __init__(self, tag, choices, sc, res, max_steps=20000):
        super().__init__(tag, choices, flavour=sc.get('flavour', 'pbs'), scenario=sc, max_steps=max_steps)
        res.worlds.append(self.world)
        self.sc = sc
        self.grid = self.work + '/grid'
        self.world.cpu = sc.get('cpu', 8)
        self.make_grid(self.grid, settings_text(sc['groups'], extra=sc.get('settings_extra', '')))
        self.items = model_items(self.grid, sc['groups'])
        self.main = [i for i in self.items if not i.parent]

    # ids under which the queue manager announced a job
    def jid(self, job):
        return job.id

    def live_names(self, index, states='QRH'):
        """Run names of jobs that are both recorded in index and in the queue in one of the states."""
        out = []
        for j in self.cluster.jobs:
            if j.live() and j.state in states and j.id in index and j.user == 'simuser':
                out += list(index[j.id][1])
        return out

    def command(self, op, faults=False, parent=None):
        """Starts the command of one op (dict with id, script, args)."""
        p = self.world.script(op['id'], op['script'], op['args'])
        p.fault_ok = faults
        p.tag = op
        return p

    def subs_of(self, pname):
        return [s for s in self.cluster.submissions if s['proc'] == pname and not s.get('refused')]


def run_commands(script):
    """(ini files run, run command lines) of a job script, as a shell would execute it."""
    inis, lines = [], []
    for line in script.split('\n'):
        s = line.strip()
        if s.startswith('#'):
            continue
        ws = [w for w in s.split() if w.endswith('.ini')]
        if ws:
            lines.append(s)
            inis += ws
    return inis, lines


def base_name(ini):
    return os.path.basename(ini)[:-4]


# -- run filters -----------------------------------------------------------------------------------------------------
def gen_filters(rng, items, importance=True, p=0.5):
    """Command-line run filters and the same as a dict."""
    o = {}

    def some(vals, junk):
        vals = sorted(set(vals)) or [junk]
        v = rng.sample(vals, rng.randint(1, min(2, len(vals))))
        if rng.random() < 0.15:
            v.append(junk)
        if rng.random() < 0.25:  # only part of a name
            x = rng.choice(vals)
            parts = x.split('_')
            a = rng.randrange(len(parts))
            v[rng.randrange(len(v))] = rng.choice(['_'.join(parts[a:rng.randint(a, len(parts)) + 1]), x[1:], x[:-1], x + '_' + x]) or junk
        return v

    if rng.random() < p:
        for k in rng.sample(['name', 'param', 'paramtag', 'data', 'datatag', 'musthave_data', 'skip_data', 'skip_param', 'group', 'skip_group'],
                            rng.choice([1, 1, 1, 2, 2, 3])):
            if k == 'name':
                v = some([i.name for i in items], 'nosuch')
                if rng.random() < 0.3:
                    v = [rng.choice(['*plik*', 'base_*', '*_post_*', 'base_mnu*', '*TT'])]
            elif k in ('param', 'skip_param'):
                v = some([x for i in items for x in i.params], 'w')
            elif k == 'paramtag':
                v = some([i.paramtag for i in items], 'base_w')
            elif k in ('data', 'skip_data', 'musthave_data'):
                v = some([x for i in items for x in i.data], 'WMAP')
            elif k == 'datatag':
                v = some([i.datatag for i in items], 'WMAP')
            else:
                v = some([i.group for i in items], 'other')
            o[k] = v
    if importance and rng.random() < 0.4:
        tags = [i for i in items if i.imp]
        r = rng.random()
        if r < 0.25:
            o['noimportance'] = True
        elif r < 0.5:
            o['importance'] = []
        elif r < 0.8:
            o['importance'] = some([x for i in tags for x in i.imp], 'zzz')
        else:
            o['importancetag'] = some(['_'.join(i.imp) for i in tags], 'zzz')
    return o


def filter_args(o):
    out = []
    for k, v in o.items():
        if v is True:
            out.append('--' + k)
        else:
            out += ['--' + k] + list(v)
    return out


def select(items, o):
    """Runs that the documented filters select, in grid order."""
    out = []
    for i in items:
        if i.parent:
            if o.get('noimportance'):
                continue
            if o.get('importancetag') and '_'.join(i.imp) not in o['importancetag']:
                continue
            if o.get('importance') and not set(o['importance']) & set(i.imp):
                continue
        elif o.get('importance') is not None:
            continue
        if o.get('name') is not None and not any(fnmatch.fnmatch(i.name, x) for x in o['name']):
            continue
        if o.get('paramtag') is not None:
            if i.paramtag not in o['paramtag']:
                continue
        else:
            if o.get('param') is not None and not set(o['param']) & set(i.params):
                continue
            if o.get('skip_param') and set(o['skip_param']) & set(i.params):
                continue
        if o.get('musthave_data') is not None and not set(o['musthave_data']) <= set(i.data):
            continue
        if o.get('datatag') is not None:
            if i.datatag not in o['datatag']:
                continue
        else:
            if o.get('skip_data') is not None and set(o['skip_data']) & set(i.data):
                continue
            if o.get('data') is not None and not set(o['data']) & set(i.data):
                continue
        if o.get('group') is not None and i.group not in o['group']:
            continue
        if o.get('skip_group') is not None and i.group in o['skip_group']:
            continue
        out.append(i)
    return out


# -- a queue with jobs in all states ---------------------------------------------------------------------------------
def gen_queue(rng, items, n=None):
    """Earlier submissions: list of dict(names, minimize, combine, runs, states)."""
    pre = []
    for _ in range(n or rng.choice([1, 2, 2, 3, 4])):
        pre.append(dict(names=[x.name for x in rng.sample(items, rng.randint(1, min(3, len(items))))], minimize=rng.random() < 0.25,
                        combine=rng.random() < 0.25, runs=rng.choice([1, 1, 2]), states=[rng.choice('QRRQHC') for _ in range(3)]))
    return pre


def cluster_opts(rng):
    return dict(flavour=rng.choice(['pbs', 'pbs', 'ogs', 'moab', 'moab']), server=rng.choice(['head', 'head', 'head.cluster.local']),
                moab_prefix=rng.choice(['Moab', 'Moab', '']), short_ids=rng.random() < 0.3, first_id=rng.choice([1, 1, 2, 8, 98, 1000, 123456]),
                sitedel=rng.random() < 0.15, gaps=[rng.choice([0, 0, 0, 0] if k == 0 else [0, 0, 0, 8, 9, 10, 18, 98, 100, 990]) for k in range(4)],
                dirseed=rng.randrange(1 << 20))


def foreign_jobs(rng):
    return [dict(user=rng.choice(['simuser', 'simuser', 'simuser', 'other', 'simuser2', 'xsimuser']), state=rng.choice('QRH'), pos=rng.choice([0, 0, 1, 2, 3, 4, 5]),
                 name=rng.choice(['base_plik', 'job1', 'STDIN', 'base_mnu_plik_TT'])) for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def build_queue(s, sc, res, grid='grid', tag='p', pre='pre'):
    """Runs the earlier submissions for real; False if one failed."""
    names = {i.name for i in s.items}
    if sc.get('chains', True):
        for it in s.main:
            s.write(it.root + '_1.txt', '  1.0 2.0 3.0\n')
    foreign = list(sc.get('foreign', []))
    if sc.get('sitedel'):
        # only the command the job template names can cancel here
        name = 'job_script_MOAB' if s.cluster.flavour == 'moab' else 'job_script'
        s.cluster.cancel_with = 'canceljob' if s.cluster.flavour == 'moab' else 'sitedel'
        with R.open(s.work + '/' + name) as f:
            text = f.read()
        s.write('work/job_script_site', re.sub(r'##DEFAULT_qdel:.*?##', '##DEFAULT_qdel: %s ##' % (
            'canceljob' if s.cluster.flavour == 'moab' else 'sitedel -f'), text))
        os.environ['COSMOMC_job_template'] = 'job_script_site'
    try:
        return _build_queue(s, sc, res, grid, tag, pre, names, foreign)
    finally:
        os.environ.pop('COSMOMC_job_template', None)


def _build_queue(s, sc, res, grid, tag, pre, names, foreign):
    for k, pr in enumerate(sc[pre]):
        s.cluster.next += (sc.get('gaps') or [0])[k % len(sc.get('gaps') or [0])]
        for f in [f for f in foreign if f['pos'] == k]:
            s.cluster.add_foreign(f['name'], f['user'], f['state'])
        for imp in (False, True):
            sel = [n for n in pr['names'] if ('_post_' in n) == imp and n in names]
            if not sel:
                continue
            args = [grid, '--name'] + sel + (['--importance'] if imp else [])
            if pr['minimize']:
                args += ['--importance_minimize' if imp else '--minimize']
            if pr['combine']:
                args += ['--combineOneJobName', 'comb%s%d%d' % (tag, k, imp)]
            elif pr['runs'] > 1:
                args += ['--runsPerJob', str(pr['runs'])]
            n0 = len(s.cluster.jobs)
            p = s.run_script('%s%d%d' % (tag, k, imp), 'runbatch.py', args)
            if p.status:
                res.violate('submit-fails', 'a plain submission failed: ' + p.stderr[-400:])
                return False
            for j, st in zip(s.cluster.jobs[n0:], pr['states']):
                j.state = st
    for f in foreign:
        if f['pos'] >= len(sc[pre]):
            s.cluster.add_foreign(f['name'], f['user'], f['state'])
    return True
