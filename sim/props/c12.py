"""C12: grid copies are faithful and failures are reported."""
import zipfile

from .grid_common import *

CONCURRENT = False


def generate(rng, tier, i):
    groups = gen_grid(rng, importance=rng.random() < 0.5)
    items = model_items('/g', groups)
    o = dict(cmd='copy' if rng.random() < 0.8 else 'extract')
    if o['cmd'] == 'copy':
        for k, p in (('dist', 0.6), ('chains', 0.75), ('no_config', 0.25), ('dryrun', 0.1), ('verbose', 0.1)):
            if rng.random() < p:
                o[k] = True
        r = rng.random()
        if r < 0.35:
            o['zip'] = True
        elif r < 0.5:
            o['sym_link'] = True
        if rng.random() < 0.5 and not o.get('sym_link'):
            o['remove_burn_fraction'] = rng.choice([0.1, 0.3, 0.5])
        if rng.random() < 0.2:
            o['file_extensions'] = rng.choice([['.paramnames'], ['.margestats', '.minimum'], ['.*'], ['.c*']])
        if rng.random() < 0.15:
            o['skip_extensions'] = rng.choice([['.minimum'], ['.log', '.covmat'], ['.c*'], ['_1.txt', '.[lm]*']])
        if rng.random() < 0.15:
            o['max_age_days'] = rng.choice([0.5, 2])
        if rng.random() < 0.15:
            o['converge'] = rng.choice([0.01, 0.1])
    else:
        o['ext'] = rng.choice([['margestats'], ['.covmat', 'likestats'], ['.*stats'], ['_2D.py'], ['converge', '_?D.py']])
        if rng.random() < 0.2:
            o['converge'] = rng.choice([0.01, 0.1])
        if rng.random() < 0.2:
            o['normalize_names'] = True
            if rng.random() < 0.6:
                o['tag_replacements'] = rng.choice([['plik', 'camspec'], ['lensing', 'phi', 'BAO', 'bao'], ['TT', 'TTTEEE', 'HST', 'zz']])
    sc = dict(groups=groups, files=gen_files(rng, items, rows=[0, 1, 3, 10, 20, 300]), opts=o, filters=gen_filters(rng, items, p=0.3), flavour='pbs',
                existing=rng.random() < 0.2, prelink=o['cmd'] == 'copy' and not o.get('zip') and not o.get('dryrun') and rng.random() < 0.15, pycache=rng.random() < 0.3, dirseed=rng.randrange(1 << 20), diskfull=rng.choice([None, 100, 3000, 20000]))
    if sc['prelink'] and rng.random() < 0.6 and not o.get('sym_link'):
        o['chains'], o['remove_burn_fraction'] = True, rng.choice([0.1, 0.3, 0.5])
        for st in sc['files'].values():
            st['props'] = st['props'] or rng.random() < 0.5
    return sc


def expected(s, sc, now):
    """{relative path: text or ('burn', text) or ('props', text)}"""
    o = sc['opts']
    out = {}
    sel = select(s.items, sc['filters'])
    if o['cmd'] == 'extract':
        t = o.get('tag_replacements', [])
        rep = dict(zip(t[::2], t[1::2]))
        for it in sel:
            st = sc['files'][it.name]
            if o.get('converge') and not better(st, o['converge'], False):
                continue
            for path, (text, t) in files_of(it, st, now).items():
                b = os.path.basename(path)
                if '/dist/' in path:
                    for e in o['ext']:
                        if fnmatch.fnmatchcase(b, it.name + (e if '.' in e else '.' + e)):
                            if o.get('normalize_names'):
                                b = '_'.join(['base'] + sorted(it.params) + sorted(rep.get(x, x) for x in it.data)) + os.path.splitext(b)[1]
                            out.setdefault(b, set()).add(text)
        return out
    if not o.get('no_config'):
        for f in os.listdir(s.grid + '/config'):
            if os.path.isfile(s.grid + '/config/' + f):
                with R.open(s.grid + '/config/' + f) as fh:
                    out['config/' + f] = fh.read()
    frac = o.get('remove_burn_fraction', 0)
    age = o.get('max_age_days')
    exts = o.get('file_extensions', ['.*'])
    skip = o.get('skip_extensions', ['.data', '.chk', '.chk_tmp', '.log', '.corr', '.py', '.m', '.py_mcsamples', '.pysamples'])
    for it in sel:
        st = sc['files'][it.name]
        if o.get('converge') and not better(st, o['converge'], False):
            continue
        fs = files_of(it, st, now)
        young = lambda t: not age or now - t < age * 86400
        props = False
        if o.get('chains') and st['rows'] and young(now - st['age']):
            for k in range(len(st['rows'])):
                text = fs['%s_%d.txt' % (it.root, k + 1)][0]
                if frac and not it.parent:
                    lines = text.splitlines(True)
                    text = ''.join(lines[int(len(lines) * frac):])
                out[it.rel + '%s_%d.txt' % (it.name, k + 1)] = text
            if frac and not it.parent:
                old = {}
                if st['props']:
                    old['note'] = 'x%d' % st['seed']
                old['burn_removed'] = 'T'
                out[it.rel + it.name + '.properties.ini'] = old
                props = True
        for path, (text, t) in fs.items():
            b = os.path.basename(path)
            isd = '/dist/' in path
            if isd and not o.get('dist') or props and b.endswith('.properties.ini'):
                continue
            if any(fnmatch.fnmatchcase(b, it.name + e) for e in exts) and not any(fnmatch.fnmatchcase(b, it.name + e) for e in skip) and young(t):
                out[it.rel + ('dist/' if isd else '') + b] = text
    return out


def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res, max_steps=60000) as s:
        w = s.world
        o = sc['opts']
        populate(s, sc)
        if sc['pycache']:
            s.write(s.grid + '/config/__pycache__/gridset.cpython-312.pyc', 'x')
        target = s.root + '/' + ('out.zip' if o.get('zip') else 'target')
        if sc['existing']:
            if o.get('zip'):
                with zipfile.ZipFile(R.open(target, 'wb'), 'w') as z:
                    z.writestr('old', 'old')
            else:
                s.write(target + '/keep/old.txt', 'old')
        if sc.get('prelink'):  # an earlier copy made of links lies in the target
            p = s.run_script('prelink', 'copyGridFiles.py', ['grid', target, '--sym_link', '--chains', '--dist'])
            if p.status:
                res.violate('command-fails', 'copyGridFiles --sym_link failed: ' + p.stderr[-400:])
                return
            linked = {n for n, b in s.tree(target).items() if b.startswith(b'link:')}
        want = expected(s, sc, w.now)
        src0, st0 = s.tree(s.grid), s.stats(s.grid)
        tgt0 = s.tree(s.root, skip=['cache', 'home', 'bin', 'work'])
        touched = []

        def hook(p, kind, path):
            if path.startswith(s.grid + '/'):
                touched.append((kind, path))
        w.mut_hooks.append(hook)
        if o['cmd'] == 'extract':
            args = ['grid', target] + o['ext']
            script = 'extractDistFiles.py'
        else:
            args = ['grid', target]
            script = 'copyGridFiles.py'
        tail = []
        for k, v in o.items():
            if k in ('cmd', 'ext'):
                continue
            tail += ['--' + k] if v is True else ['--' + k] + [str(x) for x in (v if isinstance(v, list) else [v])]
        args += tail + filter_args(sc['filters'])
        if sc.get('diskfull') is not None and choices.faults.get('diskfull'):
            w.disk_limit = sc['diskfull']
        for attempt in (1, 2):
            p = w.script('cmd' if attempt == 1 else 'again', script, args)
            p.fault_ok = attempt == 1
            w.run(lambda: p.finished)
            w.disk_limit = None
            if w.limit_hit:
                res.violate('no-end', '%s did not end' % script)
                return
            fired = dict(w.faults_fired)
            if s.tree(s.grid) != src0 or s.stats(s.grid) != st0 or touched:
                res.violate('source-modified', '%s %s modified the source grid: %s' % (script, args[2:], touched[:3]))
                return
            if p.status:
                if not fired:
                    res.violate('command-fails', '%s %s failed: %s' % (script, args[2:], p.stderr[-400:]))
                    return
                res.note('failed-with-error')
                continue
            if o.get('dryrun'):
                now = s.tree(s.root, skip=['cache', 'home', 'bin', 'work'])
                if now != tgt0:
                    res.violate('dryrun-writes', '--dryrun changed the target: %s' % [k for k in set(now) | set(tgt0) if now.get(k) != tgt0.get(k)])
                    return
                if not sc['existing'] and os.path.lexists(target):
                    res.violate('dryrun-writes', '--dryrun created %s' % w.rel(target))
                    return
                break
            if o.get('zip'):
                try:
                    with zipfile.ZipFile(R.open(target, 'rb')) as z:
                        names = [n for n in z.namelist() if not n.endswith('/')]
                        got = {n: z.read(n) for n in names}
                        if len(names) != len(got):
                            res.violate('copy-wrong', 'zip holds some files twice: %s' % [n for n in got if names.count(n) > 1])
                            return
                except Exception as e:
                    res.violate('silent-truncation', 'the command succeeded (faults %s) but the zip file is unreadable: %s' % (fired, e))
                    return
            else:
                got = {}
                for n, b in s.tree(target).items():
                    if b.startswith(b'link:'):
                        if sc.get('prelink') and n in linked and n not in want:
                            continue  # not part of this copy
                        if not o.get('sym_link'):
                            res.violate('copy-wrong', 'symbolic link made without --sym_link')
                            return
                        try:
                            with R.open(b[5:].decode(), 'rb') as f:
                                b = f.read()
                        except OSError as e:
                            res.violate('copy-wrong', 'dangling link %s' % n)
                            return
                    got[n] = b
                if sc['existing']:
                    if got.pop('keep/old.txt', None) != b'old':
                        res.violate('target-damaged', 'another file in the target was changed')
                        return
            sig = 'silent-truncation' if fired else 'copy-wrong'
            if set(got) != set(want):
                res.violate(sig, '%s %s ended normally (faults %s): missing %s, unexpected %s' % (
                    script, args[2:], fired, sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4]))
                return
            for n, x in want.items():
                b = got[n].decode()
                if isinstance(x, dict):
                    d = dict(tuple(y.strip() for y in l.split('=', 1)) for l in b.split('\n') if '=' in l)
                    ok = d == x
                elif isinstance(x, set):
                    ok = b in x
                else:
                    ok = b == x
                if not ok:
                    res.violate(sig, '%s %s ended normally (faults %s) but %s differs: %d bytes, expected %s' % (
                        script, args[2:], fired, n, len(b), x if not isinstance(x, str) else '%d bytes' % len(x)))
                    return
            res.note('files', len(got))
            if fired:
                res.note('recovered')
            break
        res.nontrivial = bool(want)
        res.state = repr(sorted(want))


def faults(rng, sc, base, tier):
    # an unreadable convergence file is reported by a warning and leaves that run out: not a copying failure
    pts = [x for x in base.points if x[0] == 'cmd' and not x[3].startswith('cache') and not x[3].endswith('.converge')]
    plans = write_faults(rng, pts, 5 if tier == 'quick' else 40)
    for nm, st, kind, rel in rng.sample(pts, min(len(pts), 2)):
        plans.append({'%s:%d' % (nm, st): dict(kind='crash')})
    if sc.get('diskfull') is not None:
        plans.append({'diskfull': dict(kind='diskfull')})
    return plans


def shrink(sc):
    for k in list(sc['opts']):
        if k not in ('cmd', 'ext'):
            yield dict(sc, opts={a: b for a, b in sc['opts'].items() if a != k})
    if sc['filters']:
        yield dict(sc, filters={})
    if sc['existing']:
        yield dict(sc, existing=False)
    if sc['pycache']:
        yield dict(sc, pycache=False)
    if sc.get('prelink'):
        yield dict(sc, prelink=False)
    yield from drop_runs(sc)
