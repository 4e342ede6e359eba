"""C07: parallel grid analysis: every chain analysed once, within the process limit."""
from .jobs_common import *
from ..site import read_ini

P_SWITCH = [0.02, 0.1, 0.3]


# settings that are common to the runs of the grid are kept in its own directory
COMMON_DIR = '''
import os
ini_dir = os.path.relpath(os.getcwd() + '/common', batchjob.getCodeRootPath()) + '/'
'''


def generate(rng, tier, i):
    groups = gen_grid(rng, big=rng.random() < 0.5, importance=rng.random() < 0.5)
    g = groups[0]
    for k, d in enumerate(g['datasets']):
        if rng.random() < 0.2:
            g['datasets'][k] = dict(names=d, inis=[x + '.ini' for x in d], dist_settings=rng.choice([{'ignore_rows': 0.5}, {'limits[r02]': '0 N'}]))
    items = model_items('/g', groups)
    extra = rng.choice(['', '', "getdist_options = {'marker[nrun]': '0'}", "getdist_options = {'ignore_rows': 0.1}"])
    st = {}
    for it in items:
        n = rng.choice([0, 1, 2, 4, 4])
        base = rng.choice([50, 500, 5000])
        st[it.name] = dict(ages=[base if rng.random() < 0.6 else rng.choice([50, 500, 5000]) for _ in range(n)],
                           marge=rng.choice([None, None, 20, 200, 2000, 20000]), burn=rng.random() < 0.15)
    opts = {}
    for k, p in (('notexist', 0.2), ('update_only', 0.3), ('norun', 0.05), ('exist', 0.3), ('no_plots', 0.2), ('burn_removed', 0.15)):
        if rng.random() < p:
            opts[k] = True
    if rng.random() < 0.2:
        opts['burn_remove'] = rng.choice([0.2, 0.4, 0.0])
    if rng.random() < 0.1:
        opts['plot_data'] = 'pdata'
    if rng.random() < 0.1:
        opts['delay'] = rng.choice([3, 100])
    if rng.random() < 0.1:
        opts['base_ini'] = rng.choice(['plot_base.ini', 'common_base.ini'])
    if rng.random() < 0.85:
        opts['procs'] = rng.choice([1, 2, 2, 3, 4, 8])
    jobs = [dict(t=rng.choice([0.01, 0.05, 0.5, 2, 2, 5, 15]), end=rng.choice(['ok'] * 5 + ['fail', 'crash'])) for _ in range(24)]
    custom = [x for it in items for x in (it.name, it.paramtag) if rng.random() < 0.3] if rng.random() < 0.2 else []
    if custom or opts.get('base_ini') == 'common_base.ini':
        extra += COMMON_DIR
    return dict(groups=groups, states=st, custom=sorted(set(custom)), opts=opts, filters=gen_filters(rng, items, p=0.3), jobs=jobs, flavour='pbs', settings_extra=extra,
                dirseed=rng.randrange(1 << 20), real=rng.random() < 0.02)


CHAIN = ''.join('%16.7E%16.7E%16.7E%16.7E\n' % (1 + k % 3, 2 + (k * 7 % 13) / 10., (k * 5 % 11) / 11., (k * 3 % 17) / 17.) for k in range(120))


def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res, max_steps=60000) as s:
        w = s.world
        o = sc['opts']
        for it in s.items:
            st = sc['states'][it.name]
            for k, a in enumerate(st['ages']):
                s.write('%s_%d.txt' % (it.root, k + 1), CHAIN if sc['real'] else ' 1 2 3 4\n', t=w.now - a)
            if st['ages'] and sc['real']:
                s.write(it.root + '.paramnames', 'aa\\t a\nbb\\t b\n'.replace('\\t', '\t'))
            if st['marge']:
                s.write(dist_root(it) + '.margestats', 'x', t=w.now - st['marge'])
            if st['burn']:
                s.write(it.root + '.properties.ini', 'burn_removed = T\n')
        s.write('work/plot_base.ini', 'ignore_rows = 0.25\n')
        s.write('work/common/plot_base.ini', 'ignore_rows = 0.35\n')
        s.write('work/common/common_base.ini', 'ignore_rows = 0.45\n')
        for n in sc.get('custom', []):
            s.write('work/common/plots/%s.ini' % n, 'custom_mark = %s\n' % n)
        started = []
        over = []
        probs = []
        sel = select(s.items, sc['filters'])
        procs = o.get('procs', 1)

        def child(w, p, words, h):
            k = len(started)
            ini = words[-1]
            ini = ini if ini.startswith('/') else p.cwd + '/' + ini
            job = dict(sc['jobs'][k % len(sc['jobs'])])
            try:
                vals, own, inc, dfl = read_ini(ini)
            except OSError as e:
                vals, own, inc, dfl = {'file_root': 'unreadable: %s' % e}, {}, [], []
            rec = dict(ini=ini, vals=vals, own=own, job=job, words=words, t=w.now)

            def body():
                import time
                if sc['real'] and job['end'] == 'ok':
                    import sys
                    from getdist.command_line import getdist_command
                    getdist_command([ini])
                else:
                    time.sleep(job['t'])
                    if job['end'] == 'crash':
                        raise SystemExit(139)
                    if job['end'] == 'fail':
                        raise Exception('analysis failed')
                    root = vals.get('out_dir', '') + os.path.basename(vals.get('file_root', ''))
                    with open(root + '.margestats', 'w') as f:
                        f.write('done\n')

            q = w.spawn('an%d' % k, body, parent=None)
            q.fault_ok = True
            q.cwd = p.cwd
            rec['proc'] = q
            started.append(rec)
            n = sum(not r['proc'].finished for r in started)
            if n > procs:
                over.append((n, [r['vals'].get('file_root') for r in started if not r['proc'].finished]))
            return q

        w.commands['python'] = child
        args = ['grid'] + filter_args(sc['filters'])
        for k, v in o.items():
            args += ['--' + k] if v is True else ['--' + k, str(v)]
        p = w.script('cmd', 'runGridGetdist.py', args)
        p.fault_ok = True
        w.run(lambda: p.finished)
        if w.limit_hit or not p.finished:
            live = [r['vals'].get('file_root') for r in started if not r['proc'].finished]
            res.violate('no-end', 'runGridGetdist %s did not end (%d analyses started, still running: %s)' % (args, len(started), live))
            return
        w.run(lambda: all(r['proc'].finished for r in started))
        fired = bool(w.faults_fired)
        want = []
        for it in sel:
            st = sc['states'][it.name]
            if not st['ages'] or o.get('norun'):
                continue
            if o.get('notexist') and st['marge']:
                continue
            if o.get('update_only') and st['marge'] and min(st['ages']) > st['marge']:
                continue
            want.append(it)
        # (a run whose results appear while the command is still at work is only started once)
        got = [r['vals'].get('file_root') for r in started]
        if over:
            res.violate('too-many', 'with --procs %d, %d analyses ran at once: %s' % (procs, over[0][0], over[0][1]))
            return
        if fired:
            res.note('faulted')
            if len(got) != len(set(got)) or set(got) - {i.root for i in want}:
                res.violate('analysed-wrong', 'analysed %s, wanted %s' % (got, [i.root for i in want]))
                return
            if p.status == 0 and got != [i.root for i in want]:
                res.violate('failure-hidden', 'runGridGetdist ended normally (faults %s) but analysed only %s of %s' % (
                    w.faults_fired, got, [i.root for i in want]))
                return
        else:
            if p.status:
                res.violate('command-fails', 'runGridGetdist %s failed: %s' % (args, p.stderr[-500:]))
                return
            if sorted(got) != sorted(i.root for i in want):
                more = [os.path.basename(x) for x in got if x not in [i.root for i in want] or got.count(x) > 1]
                less = [i.name for i in want if i.root not in got]
                res.violate('analysed-wrong', 'runGridGetdist %s: analysed wrongly %s, not analysed %s; states %s' % (
                    args, more, less, {n: sc['states'].get(n) for n in more + less}))
                return
        if len({r['ini'] for r in started}) != len(started):
            res.violate('settings-shared', 'analyses share a settings file: %s' % [r['ini'] for r in started])
            return
        for r in started:
            it = [i for i in want if i.root == r['vals']['file_root']][0]
            e = {'file_root': it.root, 'out_dir': os.path.dirname(it.root) + '/dist/'}
            base = {None: '0.3', 'plot_base.ini': '0.25', 'common_base.ini': '0.45'}[o.get('base_ini')]
            mark = [n for n in (it.name, it.paramtag) if n in sc.get('custom', [])][:1]
            if r['vals'].get('custom_mark') != (mark[0] if mark else None):
                res.violate('settings-wrong', 'settings file of %s includes the settings of %s, should be %s' % (it.name, r['vals'].get('custom_mark'), mark))
                return
            v = base
            if 'ignore_rows' in sc['settings_extra']:
                v = '0.1'
            if it.parent or o.get('burn_removed') or sc['states'][it.name]['burn']:
                v = '0'
            elif o.get('burn_remove') is not None:
                v = str(o['burn_remove'])
            ds = (it.parent or it).dataset
            if isinstance(ds, dict):
                for k, x in ds['dist_settings'].items():
                    e[k] = str(x)
                v = str(ds['dist_settings'].get('ignore_rows', v))
            e['ignore_rows'] = v
            if it.parent:
                e['compare1'] = it.parent.root
            if o.get('no_plots'):
                e['no_plots'] = 'T'
            if o.get('plot_data'):
                e['plot_data_dir'] = s.work + '/pdata/'
            if 'nrun' in sc['settings_extra']:
                e['marker[nrun]'] = '0'
            for k, x in e.items():
                y = r['vals'].get(k)
                same = y == x
                if not same and k == 'ignore_rows':
                    same = y is not None and float(y) == float(x)
                if not same and k in ('out_dir', 'plot_data_dir'):
                    same = y is not None and os.path.normpath(y) == os.path.normpath(x)
                if not same:
                    res.violate('settings-wrong', 'settings file of %s has %s = %s, expected %s (options %s)' % (it.name, k, y, x, args))
                    return
            if sc['real'] and r['job']['end'] == 'ok':
                res.note('real-analyses')
                if r['proc'].status:
                    res.violate('analysis-fails', 'analysis of %s failed: %s' % (it.name, r['proc'].stderr[-400:]))
                    return
                if not os.path.exists(dist_root(it) + '.margestats') or os.path.getmtime(dist_root(it) + '.margestats') < w.start:
                    res.violate('no-results', 'analysis of %s left no results' % it.name)
                    return
        res.note('analyses', len(started))
        res.note('max-procs-%d' % procs)
        res.note('ended-badly', sum(r['job']['end'] != 'ok' for r in started))
        res.nontrivial = bool(started)
        res.state = repr([(os.path.basename(a), r['proc'].status) for a, r in zip(got, started)])


def dist_root(it):
    return os.path.dirname(it.root) + '/dist/' + it.name


def faults(rng, sc, base, tier):
    if sc['real']:
        return []
    pts = [x for x in base.points if x[0] == 'cmd']
    plans = []
    wr = [x for x in pts if x[2] in ('write', 'close-w', 'open-w') and x[3].endswith('.ini')] + [x for x in pts if x[2] == 'cmd']
    for n, st, kind, rel in rng.sample(wr, min(len(wr), 3)):
        f = dict(kind=rng.choice({'write': ['enospc', 'torn', 'eio'], 'close-w': ['eio'], 'open-w': ['enospc', 'eacces'], 'cmd': ['cmdfail']}[kind]))
        if f['kind'] == 'torn':
            f['frac'] = round(rng.random(), 2)
        plans.append({'%s:%d' % (n, st): f})
    an = [x for x in base.points if x[0].startswith('an')]
    for n, st, kind, rel in rng.sample(an, min(len(an), 1)):
        plans.append({'%s:%d' % (n, st): dict(kind='stall', s=30.0)})
    return plans


def shrink(sc):
    for k in list(sc['opts']):
        yield dict(sc, opts={a: b for a, b in sc['opts'].items() if a != k})
    if sc['filters']:
        yield dict(sc, filters={})
    g = sc['groups'][0]
    for k in ('params', 'datasets', 'importance'):
        for j in range(len(g.get(k, []))):
            if len(g[k]) > 1:
                g2 = dict(g)
                g2[k] = g[k][:j] + g[k][j + 1:]
                yield dict(sc, groups=[g2])
