"""C16: commands never modify or remove the chains they work on."""
import sys

from .grid_common import *

P_SWITCH = [0.02, 0.1, 0.3]


def gen_cmd(rng, items, made):
    """One command line; made: copies made so far (targets)."""
    f = filter_args(gen_filters(rng, items, p=0.3))
    names = [i.name for i in items]
    g = rng.choice(['ga', 'ga', 'gb'])
    k = rng.choice(['list', 'run', 'run', 'jobs', 'del', 'analyse', 'copy', 'copy', 'copy', 'extract', 'converge', 'mk', 'add', 'clean', 'rename', 'load', 'load', 'getdist', 'peek', 'best',
                    'cleancopy', 'tables', 'tables', 'compare', 'latex'])
    if k == 'list':
        return ['listGrid.py', g] + f + rng.choice([[], ['--exists'], ['--normed']])
    if k == 'run':
        a = rng.choice([[], ['--dryrun'], ['--checkpoint_run'], ['--checkpoint_run', '0.02'], ['--minimize'], ['--importance'], ['--importance_minimize'], ['--notexist'],
                        ['--notall', '4'], ['--converge', '0.01'], ['--minimize', '--minimize_failed'], ['--combineOneJobName', 'comb'], ['--runsPerJob', '3'],
                        ['--importance', '--importance_changed'], ['--importance', '--importance_ready']])
        if '--importance' in f:
            f = []
        return ['runbatch.py', g] + a + f
    if k == 'jobs':
        return ['runningJobs.py', g]
    if k == 'del':
        return ['deleteJobs.py', g] + rng.choice([['--queued'], ['--running'], ['--delete_id_min', '0'], ['--confirm'], ['--queued', '--confirm']])
    if k == 'analyse':
        return ['runGridGetdist.py', g] + f + rng.choice([[], ['--procs', '2'], ['--update_only'], ['--notexist'], ['--burn_removed'], ['--burn_remove', '0.4'], ['--norun']])
    if k == 'copy':
        o = []
        for x, p in (('dist', 0.5), ('chains', 0.8), ('no_config', 0.3), ('dryrun', 0.05), ('verbose', 0.1)):
            if rng.random() < p:
                o.append('--' + x)
        r = rng.random()
        t = rng.choice(['t1', 't1', 't1', 't2'])
        if r < 0.1:
            t += '.zip'
        elif r < 0.45:
            o.append('--sym_link')
        elif r < 0.55:
            t = rng.choice(['work/', 'lnk/']) + g  # onto itself: to be refused
        if rng.random() < 0.5 and '--sym_link' not in o:
            o += ['--remove_burn_fraction', rng.choice(['0.1', '0.5'])]
        if rng.random() < 0.2:
            o += ['--skip_extensions', '.log']
        if '.zip' not in t and '/' not in t:
            made.append(t)
        return ['copyGridFiles.py', g, '../' + t] + o + f
    if k == 'extract':
        return ['extractDistFiles.py', g, '../' + rng.choice(['t1', 't3']), rng.choice(['margestats', '.covmat', '.*'])] + f
    if k == 'converge':
        return ['checkConverge.py', g] + rng.choice([[], ['--stuck'], ['--checkpoint'], ['--running'], ['--converge', '0.1']]) + f
    if k == 'mk':
        return ['makeGrid.py', g] + rng.choice([[], ['gridset'], ['gridset'], ['--readOnly']])
    if k == 'add':
        return ['addGridBatch.py', g, 'gb' if g == 'ga' else 'ga']
    if k == 'clean':
        return ['cleanup.py', g] + rng.choice([[], ['--dist'], ['--empty'], ['--ext', 'txt'], ['--ext', 'chk', 'minimum'], ['--chainnum', '1'], ['--converge', '0.01']]) + f
    if k == 'rename':
        return ['renameParam.py', g, '--old_new'] + rng.choice([['tau', 'tt'], ['H0', 'hubble', 'mnu', 'm']])
    if k == 'cleancopy' and made:
        return ['cleanup.py', '../' + rng.choice(made), '--confirm'] + rng.choice([[], ['--dist'], ['--ext', 'txt']])
    if k == 'getdist':
        return ['GetDist.py', rng.choice(['analysis.ini', 'ga/@' + rng.choice(names)])]
    if k == 'tables':
        return ['makeTables.py', g, '../' + rng.choice(['tab', 'tab', 'work/' + g + '/dist/tab'])] + rng.choice([[], ['--bestfitonly'], ['--bestfit'], ['--nobestfit'], ['--separate_tex'], ['--changes_from', 'plik'],
                                                                                       ['--no_titles', '--paramNameFile', g + '/nosuch.paramnames']]) + f
    if k == 'compare':
        return ['makeParamCompare.py', g, '--params', 'tau', 'H0', '--latex_filename', '../' + rng.choice(['cmp', 'cmp2/x'])] + f
    if k == 'latex':
        return ['makeLatex.py', 'ga/@' + rng.choice(names), '--tex_snippet_dir', '../snip']
    if k == 'peek':
        return ['chainPeek.py', 'ga/@' + rng.choice(names), 'tau']
    if k == 'best':
        return ['extractBestFitParams.py', 'ga/@' + rng.choice(names) + '.minimum']
    return ['load', g, rng.choice(names), rng.choice([{}, {}, {'no_cache': True}, {'settings': {'ignore_rows': 0.3}}])]


def generate(rng, tier, i):
    groups = gen_grid(rng, importance=rng.random() < 0.5)
    items = model_items('/g', groups)
    made, ops = [], []
    for k in range(rng.randint(2, 7)):
        ops.append([gen_cmd(rng, items, made)])
        if rng.random() < 0.15:
            ops[-1].append(gen_cmd(rng, items, made))
    if rng.random() < 0.3:  # a linked copy that later commands work on or write over
        a = ['copyGridFiles.py', rng.choice(['ga', 'gb']), '../t1', '--sym_link', '--chains'] + rng.choice([[], ['--dist'], ['--no_config']])
        b = rng.choice([['copyGridFiles.py', rng.choice(['ga', 'gb']), '../t1', '--chains'] + rng.choice([[], ['--remove_burn_fraction', '0.5']]) + rng.choice([[], ['--dist'], ['--no_config']]),
                        ['cleanup.py', '../t1', '--confirm'], ['renameParam.py', '../t1', '--old_new', 'tau', 'tt', '--confirm'], ['runGridGetdist.py', '../t1'], ['listGrid.py', '../t1']])
        k = rng.randrange(len(ops) + 1)
        ops[k:k] = [[a], [b]]
    files = [gen_files(rng, items, rows=[0, 1, 3, 10, 40]) for _ in range(2)]
    for st in [x for f in files for x in f.values()]:
        st['minifail'] = rng.random() < 0.3
    return dict(groups=groups, files=files, ops=ops, victim=rng.randrange(len(ops)), flavour=rng.choice(['pbs', 'ogs', 'moab']),
                dirseed=rng.randrange(1 << 20), real=rng.random() < 0.3, anini=rng.choice(['', '', 'out_root = %s\n' % rng.choice(['other', items[0].name])]), cpu=8, diskfull=rng.choice([None, 0, 500]))


def execute(sc, choices, tag, res):
    with Site(tag, choices, flavour=sc['flavour'], scenario=sc, max_steps=60000) as s:
        res.worlds.append(s.world)
        w = s.world
        w.cpu = 8
        w.commands['python'] = child(sc, s)
        protected, roots = {}, {}
        for g, files in zip(('ga', 'gb'), sc['files']):
            grid = s.work + '/' + g
            s.make_grid(grid, settings_text(sc['groups']), pname='mk' + g)
            s.items = model_items(grid, sc['groups'])
            populate(s, dict(files=files))
            for it in s.items:
                roots[g, it.name] = it.root
                for path, (text, t) in files_of(it, files[it.name], w.now).items():
                    if '/dist/' not in path and not path.endswith('.properties.ini'):
                        protected[path] = text.encode(), path
        first = [x for x in sorted(protected) if x.endswith('_1.txt')]
        s.write('work/analysis.ini', sc['anini'] + 'file_root = %s\nout_dir = %s/an/\nignore_rows = 0.3\n' % (first[0][:-6] if first else 'nothing', s.work))
        s.write(s.root + '/lnk/.keep', '')
        for g in ('ga', 'gb'):
            os.symlink(s.work + '/' + g, s.root + '/lnk/' + g)
        bad = []

        def hook(p, kind, path):
            if kind in ('utime', 'chmod'):
                return
            real = path
            d = R.realpath(os.path.dirname(path)) + '/' + os.path.basename(path)
            if kind.startswith(('remove', 'rename', 'rmdir', 'symlink', 'link')):
                real = d
            else:
                real = R.realpath(path)
            if real in protected:
                bad.append((p.name, kind, w.rel(real)))
        w.mut_hooks.append(hook)

        def start(n, cmd, victim):
            nm = ('v-' if victim else 'c-') + str(n)
            if cmd[0] == 'load':
                p = w.spawn(nm, load, roots[cmd[1], cmd[2]], cmd[3])
            else:
                args = []
                for a in cmd[1:]:
                    if '/@' in a:
                        g, nme = a.split('/@')
                        ext = '.minimum' if nme.endswith('.minimum') else ''
                        a = roots[g, nme[:len(nme) - len(ext)]] + ext
                    args.append(a)
                sdir = s.root + '/settings'
                p = w.script(nm, cmd[0], args, setup=(lambda: sys.path.insert(0, sdir)) if cmd[0] == 'makeGrid.py' else None)
            p.fault_ok = victim
            p.tag = cmd
            return p

        n = 0
        for k, grp in enumerate(sc['ops']):
            victim = k == sc['victim']
            ps = []
            for cmd in grp:
                n += 1
                ps.append(start(n, cmd, victim))
            if victim and choices.faults.get('diskfull') and sc['diskfull'] is not None:
                w.disk_limit = sc['diskfull']
            w.run(lambda: all(p.finished for p in w.procs))
            w.disk_limit = None
            for p in ps:
                res.note('cmd:' + p.tag[0].replace('.py', ''))
            if w.limit_hit:
                res.violate('no-end', 'commands %s did not end' % grp)
                return
            if bad:
                p = [x for x in ps if x.name == bad[0][0]]
                res.violate('modified', '%s: %s of %s (faults %s)' % (p[0].tag if p else grp, bad[0][1], bad[0][2], w.faults_fired))
                return
            for path, (text, _) in protected.items():
                try:
                    with R.open(path, 'rb') as f:
                        ok = f.read() == text and not os.path.islink(path)
                except OSError:
                    ok = False
                if not ok:
                    res.violate('modified', '%s changed or removed %s (faults %s)' % (grp, w.rel(path), w.faults_fired))
                    return
        if w.escapes:
            res.violate('escape', str(w.escapes[:2]))
            return
        res.note('protected-files', len(protected))
        res.nontrivial = bool(protected)


def load(root, kw):
    from getdist import loadMCSamples
    m = loadMCSamples(root, **kw)
    m.getMargeStats()
    m.getLikeStats()


def child(sc, s):
    def go(w, p, words, h):
        ini = words[-1] if words[-1].startswith('/') else p.cwd + '/' + words[-1]

        def body():
            if sc['real']:
                from getdist.command_line import getdist_command
                getdist_command([ini])
        q = w.spawn('an', body)
        q.fault_ok = False
        q.cwd = p.cwd
        return q
    return go


def faults(rng, sc, base, tier):
    pts = [x for x in base.points if x[0].startswith('v-')]
    plans = write_faults(rng, pts, 3 if tier == 'quick' else 20, reads=True, crash=True)
    if sc['diskfull'] is not None:
        plans.append({'diskfull': dict(kind='diskfull')})
    return plans


def shrink(sc):
    ops = sc['ops']
    for j in range(len(ops)):
        if len(ops) > 1 and j != sc['victim']:
            yield dict(sc, ops=ops[:j] + ops[j + 1:], victim=sc['victim'] - (j < sc['victim']))
        if len(ops[j]) > 1:
            for e in range(len(ops[j])):
                yield dict(sc, ops=ops[:j] + [ops[j][:e] + ops[j][e + 1:]] + ops[j + 1:])
