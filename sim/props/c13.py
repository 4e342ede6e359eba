"""C13: cleanup deletes only what was selected."""
from .grid_common import *

CONCURRENT = False
EXTS = ['*', 'txt', 'chk', 'minimum', 'margestats', 'py', 'converge*', 'p*', '*stats', 'log', 'data', 'nosuch', 'ini', 'txt_bak']


def generate(rng, tier, i):
    groups = gen_grid(rng, importance=False)
    if rng.random() < 0.6:
        groups[0]['importance'] = rng.sample([['zre'], ['HST'], ['JLA'], ['JLA', 'HST'], ['HST', 'zre']], rng.choice([1, 2, 3]))
    if rng.random() < 0.15:
        groups[0]['datasets'] = [['plik'], ['plik', '1']]
    items = model_items('/g', groups)
    o = {}
    if rng.random() < 0.75:
        o['ext'] = rng.sample(EXTS, rng.choice([1, 1, 2, 3]))
    if rng.random() < 0.3:
        o['dist'] = True
    if rng.random() < 0.25:
        o['empty'] = True
    if rng.random() < 0.2:
        o['chainnum'] = rng.choice(['1', '2', '7'])
    if rng.random() < 0.3:
        o['converge'] = rng.choice([0.01, 0.1])
    if rng.random() < 0.85:
        o['confirm'] = True
    return dict(groups=groups, files=gen_files(rng, items, rows=[0, 1, 3, 20]), opts=o, filters=gen_filters(rng, items, p=0.6), flavour='pbs',
                dirseed=rng.randrange(1 << 20), stray=rng.random() < 0.4)


def expected(s, sc, files):
    """(must be deleted, may be deleted): files of selected runs; and of importance runs of selected runs."""
    o = sc['opts']
    sel = []
    for it in select(s.items, sc['filters']):
        st = sc['files'][it.name]
        if not o.get('converge') or not better(st, o['converge'], True):
            sel.append(it)
    must, may = set(), set()
    for path, text in files.items():
        d, b = os.path.split(path)
        own = [it for it in s.items if d in (os.path.dirname(it.root), os.path.dirname(it.root) + '/dist')
               and (b.startswith(it.name + '.') or b.startswith(it.name + '_'))]
        if not own:
            continue
        owner = max(own, key=lambda x: len(x.name))
        if o.get('dist') and not d.endswith('/dist'):
            continue
        if o.get('empty') and text:
            continue

        def matches(it):
            for e in o.get('ext', ['*']):
                pats = ['_%s.%s' % (o['chainnum'], e)] if 'chainnum' in o else ['.' + e, '_*.' + e]
                if any(fnmatch.fnmatchcase(b, it.name + p) for p in pats):
                    return True
            return False

        if owner in sel and matches(owner):
            must.add(path)
        elif owner.parent in sel and matches(owner.parent):
            may.add(path)
    return must, may


def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res, max_steps=60000) as s:
        w = s.world
        o = sc['opts']
        populate(s, sc)
        if sc['stray']:
            it = s.items[0]
            s.write(os.path.dirname(it.root) + '/other.txt', 'x')
            s.write(os.path.dirname(it.root) + '/base.txt', '')
            s.write(s.work + '/%s_1.txt' % it.name, 'x')
            s.write(s.grid + '/%s.txt' % it.name, '')
        before = s.tree(s.root, skip=['cache'])
        files = {os.path.join(s.root, k): v for k, v in before.items()}
        must, may = expected(s, sc, files)
        if not o.get('confirm'):
            must, may = set(), set()
        removed = []

        def hook(p, kind, path):
            if path.startswith(s.root + '/cache'):
                return
            if kind != 'remove' or path not in must | may:
                removed.append((kind, w.rel(path)))
        w.mut_hooks.append(hook)
        args = ['grid']
        for k, v in o.items():
            args += ['--' + k] if v is True else ['--' + k] + [str(x) for x in (v if isinstance(v, list) else [v])]
        args += filter_args(sc['filters'])
        for attempt in (1, 2):
            p = w.script('cmd' if attempt == 1 else 'again', 'cleanup.py', args)
            p.fault_ok = attempt == 1
            w.run(lambda: p.finished)
            if w.limit_hit:
                res.violate('no-end', 'cleanup did not end')
                return
            fired = dict(w.faults_fired)
            if removed:
                res.violate('wrong-file', 'cleanup %s: %s of %s, which was not selected' % (args[1:], removed[0][0], removed[0][1]))
                return
            after = s.tree(s.root, skip=['cache'])
            gone = {os.path.join(s.root, k) for k in before if k not in after}
            if gone - must - may:
                res.violate('wrong-file', 'cleanup %s deleted %s' % (args[1:], [w.rel(x) for x in sorted(gone - must - may)][:4]))
                return
            if any(before.get(k) != v for k, v in after.items()):
                res.violate('changed-file', 'cleanup %s changed %s' % (args[1:], [k for k, v in after.items() if before.get(k) != v][:4]))
                return
            if p.status:
                if not fired:
                    res.violate('command-fails', 'cleanup %s failed: %s' % (args[1:], p.stderr[-400:]))
                    return
                res.note('failed-with-error')
                continue
            if must - gone and not (attempt == 2 and o.get('converge')):  # convergence files that were deleted no longer select
                res.violate('not-deleted', 'cleanup %s ended normally (faults %s) but left %s' % (args[1:], fired, [w.rel(x) for x in sorted(must - gone)][:4]))
                return
            if not o.get('confirm') and p.stdout.count('\n') < 2:
                res.violate('no-listing', 'cleanup without --confirm printed nothing')
                return
            break
        res.note('deleted', len(must))
        res.note('kept', len(before) - len(gone))
        res.nontrivial = bool(must)
        res.state = repr(sorted(w.rel(x) for x in gone))


def faults(rng, sc, base, tier):
    n = 5 if tier == 'quick' else 40
    pts = [x for x in base.points if x[0] == 'cmd' and not x[3].startswith('cache') and not x[3].endswith('.converge')]
    plans = []
    rm = [x for x in pts if x[2] == 'remove']
    for nm, st, kind, rel in rng.sample(rm, min(len(rm), n)):
        plans.append({'%s:%d' % (nm, st): dict(kind=rng.choice(['eio', 'eacces', 'crash']))})
    rd = [x for x in pts if x[2] in ('stat', 'listdir', 'scandir')]
    for nm, st, kind, rel in rng.sample(rd, min(len(rd), 2)):
        plans.append({'%s:%d' % (nm, st): dict(kind='crash')})
    return plans


def shrink(sc):
    for k in list(sc['opts']):
        if k != 'confirm':
            yield dict(sc, opts={a: b for a, b in sc['opts'].items() if a != k})
    if isinstance(sc['opts'].get('ext'), list) and len(sc['opts']['ext']) > 1:
        for j in range(len(sc['opts']['ext'])):
            yield dict(sc, opts=dict(sc['opts'], ext=sc['opts']['ext'][:j] + sc['opts']['ext'][j + 1:]))
    if sc['filters']:
        yield dict(sc, filters={})
        for k in sc['filters']:
            yield dict(sc, filters={a: b for a, b in sc['filters'].items() if a != k})
    if sc['stray']:
        yield dict(sc, stray=False)
    yield from drop_runs(sc)
