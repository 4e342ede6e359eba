"""C18: status reports show the grid as it is on disk, while samplers and analyses go on."""
import os

from .jobs_common import *
from .c06 import AGES, gen_state, put_files

P_SWITCH = [0.1, 0.3, 0.5]

TORN = 'torn'


def generate(rng, tier, i):
    groups = gen_grid(rng, importance=rng.random() < 0.5)
    items = model_items('/g', groups)
    states = {}
    for it in items:
        st = gen_state(rng, it, states.get(it.parent.name) if it.parent else None)
        if rng.random() < 0.25 and len(st['ages']) > 1:  # one chain left behind, or its file missing
            k = rng.randrange(len(st['ages']))
            st['ages'][k] = st['ages'][k - 1] + rng.choice([550, 650, 5000])
        if rng.random() < 0.1:
            st['torn'] = rng.choice(['', '\n var(mean)/mean(var) for eigen', '\n var(mean)/mean(var) for eigenvalues\n', '\n var(mean)/mean(var) for eigenvalues\n   1'])
        states[it.name] = st
    actors = []
    for it in rng.sample(items, min(len(items), rng.choice([0, 1, 1, 2, 3]))):
        st = states[it.name]
        what = rng.choice(['start', 'sample', 'sample', 'analyse', 'analyse', 'finish'])
        if what == 'start':
            st.update(ages=[], holes={}, conv=None)
        elif what in ('sample', 'finish'):
            a = rng.choice([2, 30, 100, 280])
            st.update(ages=[a] * rng.choice([1, 2, 4]), holes={})
            if what == 'finish' or rng.random() < 0.7:
                st['conv'] = [rng.choice([0.4, 0.03]), False]
        actors.append(dict(name=it.name, what=what, n=rng.choice([1, 2, 4]), nap=rng.choice([0, 0.02, 0.2]), split=rng.random() < 0.7))
    reports = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = dict(cmd=rng.choice(['check', 'check', 'check', 'check', 'list']))
        if o['cmd'] == 'check':
            kind = rng.choice(['plain', 'plain', 'checkpoint', 'checkpoint', 'stuck'])
            for k, p in (('exist', 0.3 if kind == 'plain' else 0.05), ('not_running', 0.3), ('running', 0.5 if kind == 'checkpoint' else 0.0)):
                if rng.random() < p and not (k == 'running' and 'not_running' in o):
                    o[k] = True
            if kind != 'plain' and not (o.get('running') and rng.random() < 0.5):
                o[kind] = True
            if rng.random() < (0.5 if kind == 'plain' else 0.1):
                o['converge'] = rng.choice([0.01, 0.1, 0.05])
        else:
            for k, p in (('exists', 0.4), ('normed', 0.3)):
                if rng.random() < p:
                    o[k] = True
            if 'exists' not in o and rng.random() < 0.3:
                o['notexist'] = True
        reports.append(dict(opts=o, filters=gen_filters(rng, items, p=0.3), wait=rng.choice([0, 0, 0.05, 0.3])))
    return dict(groups=groups, states=states, actors=actors, reports=reports, flavour='pbs', dirseed=rng.randrange(1 << 20))


class History:
    """What each file of a run said, and when it may have been seen."""

    def __init__(self, w):
        self.w = w
        self.h = {}

    def start(self, key, val):
        self.h[key] = [[0, 0, val]]

    def begin(self, key, val):
        self.h[key].append([self.w.now, None, val])

    def end(self, key):
        self.h[key][-1][1] = self.w.now

    def during(self, key, a, b):
        out = []
        seq = self.h[key]
        for k, (t0, t1, v) in enumerate(seq):
            gone = seq[k + 1][1] if k + 1 < len(seq) else None
            if t0 <= b and (gone is None or gone >= a):
                out.append(v)
        return out


def facts(s, sc):
    h = History(s.world)
    for it in s.items:
        st = sc['states'][it.name]
        now = s.world.now
        chains = []
        for k, a in enumerate(st['ages']):
            hole = st['holes'].get(str(k))
            chains.append(None if hole == 'missing' else (0 if hole else 1, now - a))
        h.start((it.name, 'chains'), chains)
        h.start((it.name, 'stat'), tuple(st['conv']) if st['conv'] else None)
        h.start((it.name, 'conv'), TORN if 'torn' in st or st['dist'] == 'bad' else st['dist'])
    return h


def actor(s, h, it, a):
    import time
    name = it.name
    n = max(1, len(h.h[name, 'chains'][-1][2]))
    for j in range(a['n']):
        if a['what'] == 'analyse':
            r = [11.2, 0.07, 0.02, 0.006][j]
            text = '\n var(mean)/mean(var) for eigenvalues\n  1%13.5f\n  2%13.5f\n\n Parameter and the rest\n' % (min(r / 2, 9.5), r)
            d = os.path.dirname(it.root) + '/dist/'
            os.makedirs(d, exist_ok=True)
            h.begin((name, 'conv'), TORN)
            f = open(d + name + '.converge', 'w')
            h.end((name, 'conv'))
            if a['split']:
                f.write(text[:30 + 12 * j])
                f.flush()
                time.sleep(a['nap'])
                f.write(text[30 + 12 * j:])
            else:
                f.write(text)
            h.begin((name, 'conv'), r)
            f.close()
            h.end((name, 'conv'))
        else:
            for c in range(n):
                prev = h.h[name, 'chains'][-1][2]
                ch = list(prev) + [None] * max(0, c + 1 - len(prev))
                ch[c] = (1, s.world.now)
                h.begin((name, 'chains'), ch)
                with open('%s_%d.txt' % (it.root, c + 1), 'a') as f:
                    f.write('  1.0  2.%d  3.0\n' % j)
                ch[c] = (1, s.world.now)
                h.end((name, 'chains'))
            done = a['what'] == 'finish' and j == a['n'] - 1
            h.begin((name, 'stat'), None)
            f = open(it.root + '.converge_stat', 'w')
            h.end((name, 'stat'))
            R1 = 0.5 / (j + 1)
            f.write('%s\n' % R1 + ('Done\n' if done else ''))
            h.begin((name, 'stat'), (R1, done))
            f.close()
            h.end((name, 'stat'))
        time.sleep(a['nap'])


class View:
    """One possible state of a run."""

    def __init__(self, chains, stat, conv, now):
        self.chains, self.stat, self.conv, self.now = chains, stat, conv, now
        self.dates = []
        for c in chains:
            if not c or not c[0]:
                break
            self.dates.append(c[1])

    exists = property(lambda self: bool(self.chains and self.chains[0] and self.chains[0][0]))
    not_running = property(lambda self: self.exists and max(self.dates) < self.now - 300)

    @property
    def stuck(self):
        dates, k = [], 0
        while k < len(self.chains) and self.chains[k]:
            dates.append(self.chains[k][1])
            k += 1
        gap = len(self.chains) > k + 1 and self.chains[k + 1] is not None
        return gap or max(dates) - min(dates) > 600


def lines(it, v, o):
    """(section, text) lines that belong in the report for this state."""
    if o.get('stuck'):
        return [('', 'Chain stuck?...' + it.name)] if v.exists and v.stuck else []
    if o.get('checkpoint') or o.get('running'):
        out = []
        if v.stat and not v.stat[1]:
            if (not o.get('not_running') or v.not_running) and (not o.get('running') or not v.not_running):
                out.append(('', '... %s %s' % (it.root, v.stat[0])))
            if o.get('running') and v.exists and v.stuck:
                out.append(('', 'Chain stuck?...' + it.name))
        return out
    if not v.exists:
        return [] if o.get('exist') else [('Not exist...', '... ' + it.root)]
    if o.get('converge') and (v.conv is None or v.conv <= o['converge']):
        return []
    if o.get('not_running') and not v.not_running:
        return []
    return [('Converge check...', '... %s %s' % (it.root, v.conv))]


def parse_check(text):
    sec, out = '', []
    for line in text.split('\n'):
        if line in ('Not exist...', 'Converge check...'):
            sec = line
        elif line.startswith('... ') or line.startswith('Chain stuck?'):
            out.append((sec, line.rstrip()))
    return out


def owner(items, line):
    """The run a report line is about (longest name first)."""
    body = line[1][len('... '):].split() if line[1].startswith('... ') else [line[1][len('Chain stuck?...'):]]
    for it in items:
        if body[0] in (it.root, it.name):
            return it
    return None


def views(h, it, a, b):
    out = []
    for ch in h.during((it.name, 'chains'), a, b):
        for st in h.during((it.name, 'stat'), a, b):
            for cv in h.during((it.name, 'conv'), a, b):
                out.append((ch, st, cv))
    return out


def flagged(s, p, it):
    """A file of the run could not be read, and the report says so."""
    for path in p.failed:
        if os.path.basename(path).startswith(it.name + '.') and ('WARNING: Bad .converge for ' + it.name + '\n' in p.stdout or 'Error reading: ' in p.stdout):
            return True
    return False


def judge_check(s, sc, h, p, rep, res):
    o = rep['opts']
    sel = select(s.items, rep['filters'])
    got = parse_check(p.stdout)
    mine = {}
    for g in got:
        it = owner(s.items, g)
        if it is None or it not in sel:
            res.violate('report-wrong', 'checkConverge %s reports %r, which is about no selected run' % (p.tag, g[1]))
            return
        mine.setdefault(it.name, []).append(g)
    order = []
    for g in got:
        order.append((['', 'Not exist...', 'Converge check...'].index(g[0]), s.items.index(owner(s.items, g))))
    if order != sorted(order):
        res.violate('report-order', 'checkConverge %s: runs are not in grid order: %s' % (p.tag, got))
        return
    for it in sel:
        have = mine.get(it.name, [])
        want = []
        vs = views(h, it, p.began, p.ended)
        loose = False
        changed = len(h.during((it.name, 'chains'), p.began, p.ended)) > 1
        for ch, st, cv in vs:
            v = View(ch, st, None if cv == TORN else cv, p.began)
            if cv == TORN:
                # half a file: nothing can be said about its value, but the run itself belongs in the list
                plain = not (o.get('stuck') or o.get('checkpoint') or o.get('running'))
                if plain and v.exists and (not o.get('not_running') or v.not_running):
                    if all(x[0] == 'Converge check...' and x[1].split()[1] == it.root for x in have) and len(have) <= 1 and (have or o.get('converge')):
                        loose = True
                    continue
            want.append(lines(it, v, o))
        if changed and (o.get('running') or o.get('stuck')):
            # its chains were being written: which of them are behind depends on the moment each was looked at
            have = [x for x in have if not x[1].startswith('Chain stuck')]
            want = [[x for x in y if not x[1].startswith('Chain stuck')] for y in want]
        if changed and (o.get('running') or o.get('not_running')):
            want.append([])
        if not loose and have not in want and not flagged(s, p, it):
            show = want[0] if len({repr(x) for x in want}) == 1 else want
            res.violate('report-wrong', 'checkConverge %s says %s about %s; the files said %s, so it should say %s' % (p.tag, have, it.name, vs[:3], show))
            return
        if len({repr(x) for x in want}) > 1:
            res.note('changed while reported')
    res.note('reports')
    res.note('lines', len(got))


def judge_list(s, sc, h, p, rep, res):
    o = rep['opts']
    sel = select(s.items, rep['filters'])
    rows = []
    for it in sel:
        ex = {View(v[0], v[1], None, p.began).exists for v in views(h, it, p.began, p.ended)}
        want = {not (o.get('exists') and not e or o.get('notexist') and e) for e in ex}
        name = it.name
        if o.get('normed'):
            name = '_'.join(['base'] + sorted(it.params) + ['_'.join(sorted(it.data))])
        rows.append((it.paramtag, s.items.index(it), '%s (%s)' % (name, it.group), want))
    rows.sort(key=lambda r: r[:2])
    got = [x.rstrip() for x in p.stdout.split('\n') if x.strip()]
    k = 0
    for tag, _, text, want in rows:
        if k < len(got) and got[k] == text and True in want:
            k += 1
        elif False not in want:
            res.violate('list-wrong', 'listGrid %s does not list %r in its place; it says %s' % (p.tag, text, got))
            return
    if k < len(got):
        res.violate('list-wrong', 'listGrid %s lists %r; files on disk say it should list %s' % (p.tag, got[k], [r[2] for r in rows if True in r[3]]))
        return
    res.note('lists')


def execute(sc, choices, tag, res):
    with JobSite(tag, choices, sc, res) as s:
        w = s.world
        w.now += 10
        for it in s.items:
            st = sc['states'][it.name]
            put_files(s, it, st)
            if 'torn' in st:
                s.write(os.path.dirname(it.root) + '/dist/' + it.name + '.converge', st['torn'])
        h = facts(s, sc)
        byname = {i.name: i for i in s.items}
        ps = []
        for k, a in enumerate(sc['actors']):
            if a['name'] in byname:
                if a['what'] != 'analyse':
                    os.makedirs(os.path.dirname(byname[a['name']].root), exist_ok=True)
                q = w.spawn('act%d' % k, actor, s, h, byname[a['name']], a)
                q.fault_ok = False
                ps.append(q)
        for k, rep in enumerate(sc['reports'] + [dict(r, wait=0) for r in sc['reports'][:1]]):
            if k == len(sc['reports']):  # once more when everything is done
                w.run(lambda: all(q.finished for q in ps))
                for q in ps:
                    if q.status:
                        raise AssertionError('harness: ' + q.stderr)
            elif rep['wait']:
                t = w.spawn('wait%d' % k, lambda d: __import__('time').sleep(d), rep['wait'])
                w.run(lambda: t.finished)
            args = ['grid'] + filter_args(rep['filters'])
            for o, v in rep['opts'].items():
                if o != 'cmd':
                    args += ['--' + o] + ([] if v is True else [str(v)])
            choices.fired.clear()
            p = w.script('cmd%d' % k, 'checkConverge.py' if rep['opts']['cmd'] == 'check' else 'listGrid.py', args)
            p.fault_ok = True
            p.tag = args
            p.began = w.now
            w.run(lambda: p.finished)
            p.ended = w.now
            if w.limit_hit:
                res.violate('no-end', 'the report did not end')
                return
            p.failed = {f['path'] for f in choices.fired.values()}
            if p.status and p.failed:
                res.note('read error reported')
                continue
            if p.status:
                res.violate('report-fails', '%s %s failed: %s' % (rep['opts']['cmd'], args, p.stderr[-600:]))
                return
            (judge_check if rep['opts']['cmd'] == 'check' else judge_list)(s, sc, h, p, rep, res)
            if res.violations:
                return
        res.nontrivial = True
        res.state = repr([q.stdout for q in w.procs if q.name.startswith('cmd')])


def faults(rng, sc, base, tier):
    pts = [x for x in base.points if x[0].startswith('cmd') and x[2] in ('open-r', 'read') and (x[3].endswith('.converge_stat') or x[3].endswith('.converge'))]
    return [{'%s:%d' % (n, st): dict(kind=rng.choice(['eio', 'eio', 'eacces'] if k == 'open-r' else ['eio']))} for n, st, k, rel in rng.sample(pts, min(len(pts), 2 if tier == 'quick' else 8))]


def shrink(sc):
    if len(sc['reports']) > 1:
        for k in range(len(sc['reports'])):
            yield dict(sc, reports=sc['reports'][:k] + sc['reports'][k + 1:])
    for k in range(len(sc['actors'])):
        yield dict(sc, actors=sc['actors'][:k] + sc['actors'][k + 1:])
    for k, r in enumerate(sc['reports']):
        if r['filters']:
            yield dict(sc, reports=sc['reports'][:k] + [dict(r, filters={})] + sc['reports'][k + 1:])
    g = sc['groups'][0]
    for k in ('params', 'datasets', 'importance'):
        for j in range(len(g.get(k, []))):
            if len(g[k]) > 1:
                g2 = dict(g)
                g2[k] = g[k][:j] + g[k][j + 1:]
                yield dict(sc, groups=[g2] + sc['groups'][1:])
