"""C21: settings files mean what they say, whatever refers to what, and survive being changed and saved."""
import os

from ..core import R, cur
from ..site import Site

CONCURRENT = False
PATHS = ['main.ini', 'b.ini', 'sub/c.ini', 'sub/d.ini', 'sub/deep/e.ini', 'other/f.ini', 'g.ini', 'other/h(2).ini']
KEYS = ['action', 'file_root', 'use_CMB', 'samples', 'param[omegabh2]', 'scalar_amp(1)', 'scalar_amp(2)', 'propose_matrix', 'MPI_Converge_Stop', 'contour1', 'labels', 'lmax(1)', 'flags', 'flag(2)',
        'name with space', 'dataset[X]', 'use', 'rootdir']
ENV = {'SIMC_A': 'alpha', 'SIMC_DIR': '/data/x', 'SIMC_EMPTY': ''}
TEXTS = ['4', '-17', '0', '0.0224', '2.1e-9', '-3.5E+02', 'T', 'F', 'True', 'False', 'T F T', '1 2 3', '0.1 -2.5e3 7', 'chains/test', 'name', 'a=b', 'x = y = z', 'has # inside', '', 'two  words', '%DATASETDIR%x.dat',
         '0.02 0.01 0.03 0.001 0.001', 'tag_XX_end', 'XX_XX']
ENVTEXTS = ['$(SIMC_A)', 'pre/$(SIMC_DIR)/post', '$(SIMC_A)$(SIMC_DIR)', '$(SIMC_UNSET)x', 'a$$b$(SIMC_A)', '[$(SIMC_EMPTY)]', '$(SIMC_A) $(SIMC_A)', '$$$(SIMC_A)', '$$(SIMC_A)', 'cost $5', '$HOME/x']


def preload():
    import getdist.inifile


# -- scenarios -------------------------------------------------------------------------------------------------------
def generate(rng, tier, i):
    n = rng.choice([1, 1, 2, 3, 4, 6, 8])
    paths = ['main.ini'] + rng.sample(PATHS[1:], n - 1)
    keys = list(KEYS)
    rng.shuffle(keys)
    files = {}
    dupes = rng.random() < 0.15
    for k, p in enumerate(paths):
        lines = []
        mine = [keys.pop() for _ in range(min(len(keys), rng.choice([0, 1, 2, 4])))]
        if k:
            mine += rng.sample(KEYS, rng.choice([0, 1, 3])) if rng.random() < (1 if dupes else 0.5) else []
        for key in dict.fromkeys(mine):
            v = rng.choice(TEXTS) if rng.random() < 0.85 else rng.choice(ENVTEXTS)
            lines.append(['set', key, v, rng.choice(['%s = %s', '%s=%s', '  %s  =  %s  ', '%s= %s'])])
        later = paths[k + 1:]
        for t in rng.sample(later, min(len(later), rng.choice([0, 1, 1, 2, 2]))):
            lines.append([rng.choice(['INCLUDE', 'DEFAULT', 'DEFAULT']), t, rng.random() < 0.2])
            if rng.random() < 0.03:
                lines.append(list(lines[-1]))
        if rng.random() < 0.03:
            lines.append([rng.choice(['INCLUDE', 'DEFAULT']), 'missing.ini', False])
        for _ in range(rng.choice([0, 0, 1, 3])):
            lines.append(['text', rng.choice(['', '#', '# about it', '#more of = it', '   # indented', '#INCLUDE(none.ini)', '##'])])
        rng.shuffle(lines)
        if rng.random() < 0.08:
            lines.insert(rng.randint(0, len(lines)), ['text', 'END'])
        files[p] = dict(lines=lines, bom=rng.random() < 0.08, eol=rng.choice(['\n', '\n', '\n', '\r\n']), last=rng.random() < 0.8)
    if rng.random() < 0.04 and n > 1:
        p = rng.choice(paths)
        sets = [x for x in files[p]['lines'] if x[0] == 'set']
        if sets:
            files[p]['lines'].append(list(rng.choice(sets)))
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        ops += session(rng, paths)
    return dict(files=files, ops=ops, dirseed=rng.randrange(1 << 20), rel=rng.random() < 0.3)


def session(rng, paths):
    keep = rng.random() < 0.3
    exp = rng.random() < 0.8
    if rng.random() < 0.15:
        ops = [['new', {k: rng.choice(TEXTS) for k in rng.sample(KEYS, rng.choice([0, 2, 4]))}]]
    else:
        ops = [['read', rng.choice([paths[0]] * 3 + paths), keep, exp]]
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        r = rng.random()
        k = rng.choice(KEYS)
        if r < 0.22:
            ops.append(['set', k, rng.choice([True, False, 3, -0.25, 1e-9, 'word', '', [1, 2, 3], [True, False], [0.5, 'x'], 1e30, ['T', 'F']])])
        elif r < 0.32:
            ops.append(['delete', rng.sample(KEYS, rng.choice([1, 2, 5]))])
        elif r < 0.4:
            ops.append(['replace', 'XX', rng.choice(['new', '', 'XXX'])])
        elif r < 0.47:
            ops.append(['more', rng.choice(paths), keep])
        elif r < 0.7:
            ops.append(['get'])
        elif r < 0.78:
            ops.append(['default', rng.choice(paths)])
        else:
            ops.append(['save', rng.choice([None, None, 'out.ini', 'sub/out.ini', rng.choice(paths)])])
            if rng.random() < 0.8:
                ops.append(['again', rng.random() < 0.5])
    if rng.random() < 0.6:
        ops += [['save', rng.choice([None, 'out.ini'])], ['again', keep]]
    return ops


# -- reference -------------------------------------------------------------------------------------------------------
class Bad(Exception):
    pass


def parse(text):
    """Own lines of one file: settings [(key, value, comments)], includes, defaults."""
    own, inc, dfl, com = [], [], [], []
    for line in text.replace('\r\n', '\n').split('\n'):
        s = line.strip()
        if s == 'END':
            break
        if s[:1] == '#':
            com.append(s[1:].rstrip())
            continue
        if s.startswith('INCLUDE('):
            inc.append(s[8:].rpartition(')')[0])
        elif s.startswith('DEFAULT('):
            dfl.append(s[8:].rpartition(')')[0])
        elif '=' in s:
            a, _, b = s.partition('=')
            own.append((a.strip(), b.strip(), com))
        com = []
    return own, inc, dfl


def expanded(v):
    if '$(' not in v:
        return v
    out = ''
    while v:
        if v.startswith('$('):
            name, _, v = v[2:].partition(')')
            out += ENV.get(name, '')
        elif v.startswith('$$'):
            out, v = out + '$', v[2:]
        else:
            out, v = out + v[0], v[1:]
    return out


class Cycle(Exception):
    pass


def collect(path, deflt, out, depth=0):
    """Settings in reading order: (key, value, comments, whether only a default)."""
    if depth > 20:
        raise Cycle
    if not R.exists(path):
        raise Bad('missing ' + path)
    with R.open(path, encoding='utf-8-sig', newline='') as f:
        own, inc, dfl = parse(f.read())
    out += [x + (deflt,) for x in own]
    for names, d in ((inc, deflt), (dfl, True)):
        for x in names:
            collect(os.path.join(os.path.dirname(path), x), d, out, depth + 1)
    return inc, dfl


class Model:
    def __init__(self):
        self.params, self.comments, self.order = {}, {}, []
        self.includes, self.defaults = [], []
        self.file = None
        self.either = False  # a default was met before the setting that overrides it: an error, or the setting
        self.exp = True
        self.deleted = set()

    def read(self, path, keep, exp, all_default=False):
        out = []
        if keep:
            if not R.exists(path):
                raise Bad('missing ' + path)
            with R.open(path, encoding='utf-8-sig', newline='') as f:
                own, inc, dfl = parse(f.read())
            out = [x + (all_default,) for x in own]
            self.includes += inc
            self.defaults += dfl
        else:
            collect(path, all_default, out)
        self.file = path
        soft = set()
        for key, v, com, d in out:
            if key in self.params:
                if d:
                    continue
                if key not in soft:
                    raise Bad('duplicate ' + key)
                self.either = True
            if d:
                soft.add(key)
            else:
                soft.discard(key)
            if key not in self.order:
                self.order.append(key)
            self.params[key] = expanded(v) if exp else v
            self.comments.pop(key, None)
            if com:
                self.comments[key] = com


def text(v):
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return 'T' if v else 'F'
    if isinstance(v, list):
        return ' '.join(text(x) for x in v)
    return str(v)


def number(tp, s):
    try:
        return tp(s)
    except (ValueError, TypeError):
        return Bad


def wanted(m, what, k, default):
    """Value an accessor has to give, or Bad for an error."""
    v = m.params.get(k)
    have = k in m.params
    if what == 'string':
        return text(v) if have and isinstance(v, str) else str(v) if have else default if default is not None else Bad
    if what in ('int', 'float'):
        if not have or v == '':
            return default if default is not None else Bad
        return number({'int': int, 'float': float}[what], v)
    if what == 'bool':
        if not have or v == '':
            return default if default is not None else False
        if isinstance(v, bool):
            return v
        return True if v[:1] == 'T' else False if v[:1] == 'F' else Bad
    items = (v if isinstance(v, list) else v.split()) if have else (default or [])
    if what == 'list':
        return list(items)
    if what == 'bool_list':
        return [x[0] == 'T' if isinstance(x, str) else bool(x) for x in items]
    vals = [number({'int_list': int, 'float_list': float}[what], x) for x in items]
    return Bad if Bad in vals else vals


# -- running ---------------------------------------------------------------------------------------------------------
def program(s, sc, res, choices):
    import getdist.inifile as I
    os.environ.update(ENV)
    base = s.work + '/ini/'
    name = (lambda p: 'ini/' + p) if sc['rel'] else (lambda p: base + p)
    p = cur()
    ini, m = None, None
    p.doing = None

    def fired():
        return len(choices.fired)

    def snapshot():
        return s.tree(base)

    for nop, op in enumerate(sc['ops']):
        what = '%d %s' % (nop, ' '.join(str(x) for x in op))
        n0, before = fired(), snapshot()
        p.doing = (op, before, m)
        err = None
        touched = None
        if op[0] in ('new', 'read'):
            m = Model()
        elif ini is None:
            continue
        want_err = None
        if op[0] == 'new':
            ini = I.IniFile(dict(op[1]))
            m.params.update(op[1])
        elif op[0] in ('read', 'more', 'default'):
            try:
                if op[0] == 'read':
                    m.exp = op[3]
                m.read(base + op[1], op[2] if op[0] != 'default' else False, m.exp, op[0] == 'default')
            except Bad as e:
                want_err = str(e)
            except Cycle:
                ini = None
                continue
            try:
                if op[0] == 'read':
                    ini = I.IniFile(name(op[1]), keep_includes=op[2], expand_environment_variables=op[3])
                elif op[0] == 'more':
                    ini.readFile(name(op[1]), keep_includes=op[2])
                else:
                    ini.readFile(name(op[1]), if_not_defined=True)
            except Exception as e:
                err = e
            faulted = fired() > n0
            if err is not None:
                ini = None
                if not (faulted or want_err or m.either):
                    res.violate('read-fails', '%s: %s: %s' % (what, type(err).__name__, err))
                    return
                res.note('failed by a fault' if faulted else 'settings error reported')
            elif want_err:
                res.violate('error-missed', '%s: accepted, although %s' % (what, want_err))
                return
            elif m.either:
                ini = None  # what follows depends on the order
                continue
            else:
                res.note('reads')
        elif op[0] == 'set':
            ini.params[op[1]] = op[2]
            m.params[op[1]] = op[2]
        elif op[0] == 'delete':
            ini.delete_keys(op[1])
            for k in op[1]:
                m.params.pop(k, None)
                m.deleted.add(k)
        elif op[0] == 'replace':
            if all(isinstance(v, str) for v in m.params.values()):
                ini.replaceTags(op[1], op[2])
                m.params = {k: v.replace(op[1], op[2]) for k, v in m.params.items()}
        elif op[0] == 'save':
            target = base + op[1] if op[1] else m.file
            if m.includes + m.defaults and op[1] and os.path.dirname(target) != os.path.dirname(m.file or target):
                continue
            if any(k.startswith('#') for k in m.params):
                continue
            try:
                ini.saveFile(name(op[1]) if op[1] else None)
            except Exception as e:
                err = e
            faulted = fired() > n0
            if err is not None and faulted and target is not None:
                n0, err, faulted = fired(), None, False
                res.note('saves repeated after a failure')
                try:
                    ini.saveFile(name(op[1]) if op[1] else None)
                except Exception as e:
                    err = e
                    if fired() > n0:
                        return
            if err is not None:
                if target is not None and not faulted:
                    res.violate('save-fails', '%s: %s: %s' % (what, type(err).__name__, err))
                    return
            elif target is None:
                res.violate('error-missed', '%s: settings that came from no file saved to nowhere' % what)
                return
            touched = target
            if err is None:
                if not R.exists(target):
                    res.violate('save-lost', '%s: reported success, no file' % what)
                    return
                with R.open(target, encoding='utf-8') as f:
                    own, inc, dfl = parse(f.read())
                bad = difference(m, [(a, b) for a, b, c in own], inc, dfl)
                if bad:
                    res.violate('save-wrong', '%s: %s' % (what, bad))
                    return
                res.note('saves')
                m.saved = target
        elif op[0] == 'again':
            t = getattr(m, 'saved', None)
            if t is None or not R.exists(t) or err is not None:
                continue
            m2 = Model()
            try:
                m2.read(t, op[1], False)
            except Bad:
                m2 = None
            except Cycle:
                continue
            try:
                i2 = I.IniFile(t, keep_includes=op[1], expand_environment_variables=False)
            except Exception as e:
                if m2 and not m2.either and fired() == n0:
                    res.violate('read-fails', '%s: %s: %s' % (what, type(e).__name__, e))
                    return
            else:
                if m2 is None:
                    res.violate('error-missed', '%s: accepted' % what)
                    return
                if not m2.either and not agree(i2, m2, what, res):
                    return
        if ini is not None and not m.either and not agree(ini, m, what, res):
            return
        if op[0] == 'get' and not accessors(ini, m, what, res, I, base, sc):
            return
        after = snapshot()
        for f in sorted(set(before) | set(after)):
            if before.get(f) != after.get(f) and base + f != touched:
                res.violate('other-file', '%s: changed %s' % (what, f))
                return
    p.doing = None


def difference(m, own, inc, dfl):
    want = {k: text(v).strip() for k, v in m.params.items()}
    if dict(own) != want or len(own) != len(want):
        k = [x for x in list(want) + [a for a, b in own] if dict(own).get(x) != want.get(x)] or [a for a, b in own if [c for c, d in own].count(a) > 1]
        return 'setting %s: %r saved, %r wanted' % (k[0], [b for a, b in own if a == k[0]], want.get(k[0]))
    order = [k for k in m.order if k in want]
    if [a for a, b in own][:len(order)] != order:
        return 'order %s, read in order %s' % ([a for a, b in own], order)
    if (inc, dfl) != (m.includes, m.defaults):
        return 'includes %s and defaults %s, wanted %s and %s' % (inc, dfl, m.includes, m.defaults)


def agree(ini, m, what, res):
    have = dict(ini.params)
    if have != m.params or any(type(have[k]) != type(m.params[k]) for k in have):
        k = [x for x in list(m.params) + list(have) if have.get(x, 'absent') != m.params.get(x, 'absent') or type(have.get(x)) != type(m.params.get(x))][0]
        res.violate('settings-wrong', '%s: %s is %r, should be %r' % (what, k, have.get(k, 'absent'), m.params.get(k, 'absent')))
        return False
    if (list(ini.includes), list(ini.defaults)) != (m.includes, m.defaults):
        res.violate('references-wrong', '%s: includes %s defaults %s, should be %s and %s' % (what, ini.includes, ini.defaults, m.includes, m.defaults))
        return False
    com = {k: list(v) for k, v in ini.comments.items() if k in m.params and k not in m.deleted}
    if com != {k: v for k, v in m.comments.items() if k in m.params and k not in m.deleted}:
        res.violate('comments-wrong', '%s: comments %s, should be %s' % (what, com, m.comments))
        return False
    return True


class Holder:
    pass


def accessors(ini, m, what, res, I, base, sc):
    for k in KEYS + ['absent_one']:
        v = m.params.get(k)
        if ini.hasKey(k) != (k in m.params) or ini.isSet(k) != (k in m.params and v != '') or ini.isSet(k, allowEmpty=True) != (k in m.params):
            res.violate('accessor-wrong', '%s: hasKey/isSet of %s = %r' % (what, k, v))
            return False
        simple = not isinstance(v, list)
        for name, defaults in (('string', [None, 'dd']), ('int', [None, 7]), ('float', [None, 2.5]), ('bool', [None, True, False]), ('list', [None, ['q']]), ('int_list', [None, [4]]),
                               ('float_list', [None, [0.5]]), ('bool_list', [None, [True]])):
            if not simple and not name.endswith('list') or (simple and name.endswith('list') and k in m.params and not isinstance(v, str)) or (name == 'bool' and not isinstance(v, (str, bool)) and k in m.params):
                continue
            if name in ('int', 'float') and isinstance(v, (bool, float)):
                continue
            for d in defaults:
                want = wanted(m, name, k, d)
                if name == 'bool' and d is None and (k not in m.params or v == ''):
                    got = attempt(lambda: ini.bool(k))
                    want = False
                else:
                    got = attempt(lambda: getattr(ini, name)(k, d) if d is not None else getattr(ini, name)(k))
                if got != want or type(got) != type(want):
                    res.violate('accessor-wrong', '%s: %s(%s%s) = %r for the text %r, should be %r' % (what, name, k, '' if d is None else ', %r' % d, got, v, want))
                    return False
        if k.endswith(')') and simple:
            b, ix = k[:-1].split('(')
            for name, base_name in (('array_string', 'string'), ('array_int', 'int'), ('array_float', 'float'), ('array_bool', 'bool')):
                if isinstance(v, (bool, float)) or (base_name == 'bool' and not isinstance(v, str)):
                    continue
                d = {'string': 'd', 'int': 3, 'float': 1.5, 'bool': True}[base_name]
                got, want = attempt(lambda: getattr(ini, name)(b, int(ix), d)), wanted(m, base_name, k, d)
                if got != want:
                    res.violate('accessor-wrong', '%s: %s(%s, %s) = %r, should be %r' % (what, name, b, ix, got, want))
                    return False
        if isinstance(v, str):
            for d, name in ((5, 'int'), (0.5, 'float'), (True, 'bool'), ('z', 'string')):
                h = Holder()
                setattr(h, k, d)
                want = wanted(m, name, k, d) if v != '' else d
                got = attempt(lambda: (ini.setAttr(k, h), getattr(h, k))[1])
                if got != want:
                    res.violate('accessor-wrong', '%s: setAttr(%s) over %r gives %r for the text %r, should be %r' % (what, k, d, got, v, want))
                    return False
            if v and m.file:
                got = attempt(lambda: os.path.abspath(ini.relativeFileName(k)))
                if got != os.path.normpath(os.path.join(os.path.dirname(m.file), v)):
                    res.violate('accessor-wrong', '%s: relativeFileName(%s) = %s for %r in %s' % (what, k, got, v, m.file))
                    return False
    return True


def attempt(f):
    try:
        return f()
    except Exception:
        return Bad


def execute(sc, choices, tag, res):
    with Site(tag, choices, flavour=None, scenario=sc, max_steps=20000) as s:
        res.worlds.append(s.world)
        base = s.work + '/ini/'
        for d in ('sub/deep', 'other'):
            os.makedirs(base + d)
        s.write('work/name', '')  # of no relevance: relative names refer to the settings file
        for p, f in sc['files'].items():
            out = []
            for x in f['lines']:
                if x[0] == 'set':
                    out.append(x[3] % (x[1], x[2]))
                elif x[0] == 'text':
                    out.append(x[1])
                else:
                    to = base + x[1] if x[2] else os.path.relpath(base + x[1], os.path.dirname(base + p))
                    out.append('%s(%s)' % (x[0], to))
            t = f['eol'].join(out) + (f['eol'] if f['last'] else '')
            with R.open(base + p, 'w', encoding='utf-8-sig' if f['bom'] else 'utf-8', newline='') as h:
                h.write(t)
        try:
            p = s.world.spawn('prog', program, s, sc, res, choices)
            p.fault_ok = True
            s.world.run(lambda: p.finished)
        finally:
            for k in ENV:
                os.environ.pop(k, None)
        if s.world.limit_hit or not p.finished:
            res.violate('no-end', 'the program did not end')
            return
        if res.violations:
            return
        if p.status == -9 and p.doing:
            op, before, m = p.doing
            after = s.tree(base)
            t = (base + op[1] if op[1] else m.file) if op[0] == 'save' else None
            for f in sorted(set(before) | set(after)):
                if before.get(f) != after.get(f) and base + f != t:
                    res.violate('other-file', 'killed in %s: changed %s' % (op, f))
                    return
        elif p.status:
            res.harness.append(p.stderr)
        if s.world.escapes:
            res.violate('escape', str(s.world.escapes[:2]))
        res.nontrivial = True


def faults(rng, sc, base, tier):
    plans = []
    pts = [x for x in base.points if x[0] == 'prog' and x[3].startswith('work/ini/')]
    wr = [x for x in pts if x[2] in ('write', 'open-w', 'close-w')]
    rd = [x for x in pts if x[2] in ('read', 'open-r')]
    for n, st, kind, rel in rng.sample(wr, min(len(wr), 3)):
        k = rng.choice(['enospc', 'eio', 'torn', 'short', 'crash'] if kind == 'write' else ['eio', 'crash'])
        plans.append({'%s:%d' % (n, st): dict(kind=k, frac=round(rng.random(), 2))})
    for n, st, kind, rel in rng.sample(rd, min(len(rd), 3)):
        k = rng.choice(['eio', 'short'] if kind == 'read' else ['eio', 'eacces'])
        plans.append({'%s:%d' % (n, st): dict(kind=k, frac=round(rng.random(), 2))})
    return plans


def shrink(sc):
    for k in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            yield dict(sc, ops=sc['ops'][:k] + sc['ops'][k + 1:])
    for p, f in sc['files'].items():
        for k in range(len(f['lines'])):
            yield dict(sc, files=dict(sc['files'], **{p: dict(f, lines=f['lines'][:k] + f['lines'][k + 1:])}))
        if f['bom'] or f['eol'] != '\n':
            yield dict(sc, files=dict(sc['files'], **{p: dict(f, bom=False, eol='\n')}))
    for p in list(sc['files'])[1:]:
        if not any(x[0] in ('INCLUDE', 'DEFAULT') and x[1] == p for f in sc['files'].values() for x in f['lines']) and not any(p in x[1:2] for x in sc['ops']):
            yield dict(sc, files={k: v for k, v in sc['files'].items() if k != p})
    if sc['rel']:
        yield dict(sc, rel=False)
