"""C14: renaming parameters changes only names and labels."""
from .grid_common import *

CONCURRENT = False
NEW = ['ombh2', 'omch2', 'thetaMC', 'reion', 'summnu', 'hubble', 'matter', 'averyveryverylongname', 'x']
LABELS = ['\\Omega_b', 'z', 'long label with spaces', 'H_0/{\\rm km}', '\\tau_{\\rm reio}']


def generate(rng, tier, i):
    groups = gen_grid(rng, importance=rng.random() < 0.5)
    items = model_items('/g', groups)
    old = [p[0] for p in PNAMES] + ['fixa', 'fixb', 'nosuch']
    o = dict(old_new=[], map=[], labels=[])
    new = list(NEW)
    rng.shuffle(new)
    rng.shuffle(old)
    if rng.random() < 0.6:
        o['old_new'] = [[old.pop(), new.pop()] for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.5 or not o['old_new']:
        o['map'] = [[old.pop(), new.pop(), rng.choice(LABELS)] for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.2 and o['map'] and not o['old_new']:
        o['map'][0][1] = o['map'][0][0]  # only a new label
    if rng.random() < 0.2 and o['map'] and o['old_new']:
        o['map'][-1][0] = o['old_new'][0][0]  # the pairs given come after the file
    if rng.random() < 0.5:
        pool = [x[1] for x in o['old_new'] + o['map']] + [p[0] for p in PNAMES]
        o['labels'] = [[n, rng.choice(LABELS + [n])] for n in sorted(set(rng.sample(pool, min(len(pool), rng.randint(1, 3)))))]
    chain = rng.random() < 0.15
    if chain:  # names exchanged, or passed on: every parameter is renamed once
        a = rng.sample([p[0] for p in PNAMES] + ['fixa'], 3)
        pairs = rng.choice([[(0, 1), (1, 0)], [(0, 1), (1, 2), (2, 0)], [(1, 2), (0, 1), (2, None)], [(2, None), (1, 2), (0, 1)]])
        pairs = [[a[x], 'passedon' if y is None else a[y]] for x, y in pairs]
        o['old_new'], o['map'] = [], []
        if rng.random() < 0.5:
            o['old_new'] = pairs
        else:
            o['map'] = [p + [rng.choice(LABELS)] for p in pairs]
    elif rng.random() < 0.08:
        o['old_new'], o['map'] = [], []
        o['labels'] = o['labels'] or [['tau', 'x']]
    return dict(groups=groups, files=gen_files(rng, items, rows=[1, 3]), opts=o, filters=gen_filters(rng, items, p=0.5), flavour='pbs',
                confirm=rng.random() < 0.85, comments=rng.random() < 0.4, chain=chain, names_only=rng.random() < 0.5, dirseed=rng.randrange(1 << 20))


def apply(o, name, label):
    m = {a: (b, c) for a, b, c in o['map']}
    m.update({a: (b, None) for a, b in o['old_new']})
    if name in m:
        name, l = m[name]
        label = label if l is None else l
    return name, dict(map(tuple, o['labels'])).get(name, label)


def parse_names(text):
    out = []
    for line in text.split('\n'):
        if line.strip():
            n, l = (line.split(None, 1) + [''])[:2]
            l, _, c = l.partition('#')
            out.append((n.rstrip('*'), n.endswith('*'), l.strip(), c.strip()))
    return out


def parse_minimum(text):
    out, head = [], True
    for i, line in enumerate(text.split('\n')):
        if line.strip().startswith('-log(Like)') and i > 2:
            head = False
        t = line.split(None, 3)
        if i > 2 and head and len(t) > 2:
            out.append((t[0], t[1], t[2], t[3].strip() if len(t) > 3 else ''))
        else:
            out.append(line.rstrip())
    return out


def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res, max_steps=60000) as s:
        w = s.world
        o = sc['opts']
        populate(s, sc)
        if sc['names_only']:
            for it in s.items:
                st = sc['files'][it.name]
                if not st['rows'] and st['mini']:  # minimized, but no chains
                    s.write(it.root + '.paramnames', names_text(st['np']), t=w.now - 600)
        if sc['comments']:
            for it in s.items:
                f = it.root + '.paramnames'
                if os.path.exists(f):
                    text = R.open(f).read()
                    s.write(f, ''.join(l + ('\t#note %d' % k if k % 2 else '') + '\n' for k, l in enumerate(text.splitlines())), t=w.now - 500)
        args = ['grid']
        if o['old_new']:
            args += ['--old_new'] + [x for y in o['old_new'] for x in y]
        if o['map']:
            s.write(s.work + '/map.txt', '\n'.join('%s   %s %s' % tuple(x) for x in o['map']) + '\n')
            args += ['--map_file', 'map.txt']
        if o['labels']:
            s.write(s.work + '/labels.paramnames', ''.join('%s\t%s\n' % tuple(x) for x in o['labels']))
            args += ['--labelNames', 'labels.paramnames']
        if sc['confirm']:
            args.append('--confirm')
        args += filter_args(sc['filters'])
        before = s.tree(s.work)
        st0 = s.stats(s.work)
        want, optional = {}, set()
        if sc['confirm']:
            for it in select(s.items, sc['filters']):
                rel = os.path.relpath(it.root, s.work)
                f = rel + '.paramnames'
                if f in before:
                    want[f] = [(lambda nl: (nl[0], d, nl[1], c))(apply(o, n, l)) for n, d, l, c in parse_names(before[f].decode())]
                g = rel + '.minimum'
                if g in before:
                    want[g] = [x if isinstance(x, str) else x[:2] + apply(o, x[2], x[3]) for x in parse_minimum(before[g].decode())]
                    if f not in before:
                        optional.add(g)  # no parameter names yet: may be left alone
        changes = 0
        for attempt in (1, 2):
            p = w.script('cmd' if attempt == 1 else 'again', 'renameParam.py', args)
            p.fault_ok = attempt == 1
            w.run(lambda: p.finished)
            if w.limit_hit:
                res.violate('no-end', 'renameParam did not end')
                return
            fired = dict(w.faults_fired)
            after = s.tree(s.work)
            # at any moment and whatever failed: each file is the old or the new one
            for f, b in before.items():
                if f not in after:
                    res.violate('file-lost', 'renameParam %s (faults %s): %s is gone' % (args[1:], fired, f))
                    return
                if after[f] == b:
                    continue
                if f not in want:
                    res.violate('other-file', 'renameParam %s changed %s' % (args[1:], f))
                    return
                try:
                    got = (parse_names if f.endswith('.paramnames') else parse_minimum)(after[f].decode())
                except Exception as e:
                    got = repr(e)
                if got != want[f]:
                    bad = [(a, b) for a, b in zip(got, want[f]) if a != b][:2] or 'length %d, should be %d' % (len(got), len(want[f]))
                    res.violate('torn-file' if fired else 'wrong-rename', 'renameParam %s (faults %s): %s has %s' % (args[1:], fired, f, bad))
                    return
            if p.status:
                if not fired:
                    res.violate('command-fails', 'renameParam %s failed: %s' % (args[1:], p.stderr[-400:]))
                    return
                res.note('failed-with-error')
                continue
            for f in want:
                got = (parse_names if f.endswith('.paramnames') else parse_minimum)(after[f].decode())
                if got != want[f] and not (f in optional and after[f] == before[f]):
                    res.violate('not-renamed', 'renameParam %s ended normally (faults %s) but %s has %s' % (
                        args[1:], fired, f, [(a, b) for a, b in zip(got, want[f]) if a != b][:2]))
                    return
                changes += after[f] != before[f]
            if not sc['confirm']:
                if set(after) != set(before) or s.stats(s.work) != st0:
                    res.violate('not-dry', 'renameParam without --confirm changed files')
                    return
            break
        res.note('renamed-files', changes)
        res.nontrivial = bool(changes)
        res.state = repr(sorted(want))


def faults(rng, sc, base, tier):
    if sc['chain']:
        return []  # (renaming again would not give the same)
    pts = [x for x in base.points if x[0] == 'cmd' and not x[3].startswith('cache')]
    return write_faults(rng, pts, 4 if tier == 'quick' else 40, crash=True)


def shrink(sc):
    o = sc['opts']
    for k in ('old_new', 'map', 'labels'):
        for j in range(len(o[k])):
            yield dict(sc, opts=dict(o, **{k: o[k][:j] + o[k][j + 1:]}))
    if sc['filters']:
        yield dict(sc, filters={})
    for k in ('comments', 'names_only'):
        if sc[k]:
            yield dict(sc, **{k: False})
    yield from drop_runs(sc)
