"""python -m sim.check <PROPERTY> [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE] [--workers N]"""
import argparse
import hashlib
import json
import os
import selectors
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG = float(os.environ.get('SIM_HANG', '150'))  # s without a finished run (runs take at most a few s)
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def worker_env(hashseed):
    env = {k: v for k, v in os.environ.items() if not k.startswith('COSMOMC') and k not in ('GETDIST_CONFIG', 'TRAVIS_BUILD_DIR')}
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONPATH=VERIF, MPLBACKEND='Agg', LC_ALL='C.UTF-8', PYTHONNOUSERSITE='1', MPLCONFIGDIR='/tmp/simmpl',
               PYTHONWARNINGS='ignore')
    return env


def start(job, hashseed):
    p = subprocess.Popen([PY, '-m', 'sim.worker'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=worker_env(hashseed), cwd=VERIF)
    p.stdin.write((json.dumps(job) + '\n').encode())
    p.stdin.close()
    os.set_blocking(p.stdout.fileno(), False)
    os.set_blocking(p.stderr.fileno(), False)
    return p


def one(job, hashseed, timeout=300):
    p = subprocess.Popen([PY, '-m', 'sim.worker'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=worker_env(hashseed), cwd=VERIF)
    try:
        out, err = p.communicate((json.dumps(job) + '\n').encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(t='timeout', violations=[], digest=None)
    for line in out.decode().splitlines():
        r = json.loads(line)
        if r['t'] in ('min', 'replayed'):
            return r
    sys.stderr.write(err.decode()[-2000:])
    return None


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    return {'findings': [], 'fixed': []}


def clean_scratch():
    for d in ('/dev/shm', '/tmp'):
        try:
            for f in os.listdir(d):
                if f.startswith('cosim-'):
                    path = os.path.join(d, f)
                    if time.time() - os.lstat(path).st_mtime > 3600:
                        shutil.rmtree(path, ignore_errors=True)
        except OSError:
            pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('SIM_WORKERS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--keep-going', action='store_true', help='collect all violation signatures (development)')
    args = ap.parse_args()
    if args.replay:
        return replay(args)
    sys.path.insert(0, VERIF)
    conf = json.load(open(os.path.join(VERIF, 'sim', 'budgets.json')))
    b = dict(conf['default'], **conf.get(args.prop, {}))[args.tier]
    count = args.runs or b['scenarios']
    budget = args.budget or b['seconds']
    t0 = time.time()
    clean_scratch()
    n = max(1, args.workers)
    agg = dict(runs=0, scenarios=0, steps=0, switches=0, simtime=0.0, faults={}, digests=set(), nontrivial=set(), notes={},
               samples=[], harness=[], selftest=[0, 0], states=set(), workers=n)
    known = load_known()
    known_sigs = {f['sig']: f for f in known['findings'] if f['property'] == args.prop}
    found, known_seen = {}, {}
    deadline = t0 + budget
    workers = []
    sel = selectors.DefaultSelector()
    for k in range(n):
        hs = (args.seed * 101 + k * 7) % 1000
        p = start(dict(mode='search', prop=args.prop, seed=args.seed, k=k, n=n, count=count, tier=args.tier, deadline=deadline), hs)
        st = dict(p=p, buf=b'', last=time.time(), run=None, hs=hs, err=b'', done=False, k=k)
        workers.append(st)
        sel.register(p.stdout, selectors.EVENT_READ, ('o', st))
        sel.register(p.stderr, selectors.EVENT_READ, ('e', st))
    open_fds = 2 * n
    stop = False
    hang = []
    while open_fds and not stop:
        for key, _ in sel.select(timeout=1.0):
            what, st = key.data
            data = os.read(key.fd, 1 << 20)
            if not data:
                sel.unregister(key.fileobj)
                open_fds -= 1
                continue
            if what == 'e':
                st['err'] = (st['err'] + data)[-4000:]
                continue
            st['last'] = time.time()
            st['buf'] += data
            *lines, st['buf'] = st['buf'].split(b'\n')
            for line in lines:
                rec = json.loads(line)
                if rec['t'] == 'start':
                    st['run'] = (rec['i'], rec.get('k', 0), rec['replay'])
                elif rec['t'] == 'done':
                    st['done'] = True
                elif rec['t'] == 'selftest':
                    agg['selftest'][0] += 1
                    agg['selftest'][1] += rec['same']
                elif rec['t'] == 'run':
                    absorb(agg, rec)
                    for sig, text in rec.get('violations', []):
                        if sig in known_sigs:
                            known_seen[sig] = text
                        elif sig not in found:
                            found[sig] = dict(text=text, replay=rec['replay'], hs=st['hs'], i=rec['i'])
                            if not args.keep_going:
                                stop = True
        now = time.time()
        for st in workers:
            if not st['done'] and st['p'].poll() is None and st['run'] and now - st['last'] > HANG:
                hang.append((st['k'], st['run'], st['hs']))
                st['p'].kill()
                st['last'] = now
    for st in workers:
        if st['p'].poll() is None:
            if stop:
                kill(st['p'])
            else:
                try:
                    st['p'].wait(20)
                except subprocess.TimeoutExpired:
                    kill(st['p'])
        if not stop and not st['done'] and not any(h[0] == st['k'] for h in hang):
            agg['harness'].append('worker %d ended early: %s' % (st['k'], st['err'].decode(errors='replace')[-1500:]))
    clean_own(args.prop)
    code = 0
    outdir = os.environ.get('SIM_OUT') or os.path.join(VERIF, 'out')
    for sig in sorted(known_sigs):
        print('KNOWN-FINDING: property=%s %s%s' % (args.prop, known_sigs[sig]['what'],
                                                    '' if sig in known_seen else ' (not reached in this run)'))
    nviol = 0
    for sig, v in list(found.items())[:3 if not args.keep_going else 20]:
        os.makedirs(outdir, exist_ok=True)
        rep = dict(v['replay'])
        m = one(dict(mode='minimise', prop=args.prop, replay=rep, sig=sig, budget=60 if args.tier == 'quick' else 240), v['hs'])
        if m and m.get('replay'):
            rep = m['replay']
        path = os.path.join(outdir, '%s-%s.json' % (args.prop, hashlib.md5(sig.encode()).hexdigest()[:8]))
        confirm = [one(dict(mode='replay', prop=args.prop, replay=rep), v['hs']) for _ in range(2)]
        ok = all(c and any(x[0] == sig for x in c['violations']) for c in confirm) and \
            confirm[0]['digest'] == confirm[1]['digest']
        if not ok:  # fall back to the run as found
            rep = dict(v['replay'])
            confirm = [one(dict(mode='replay', prop=args.prop, replay=rep), v['hs']) for _ in range(2)]
            ok = all(c and any(x[0] == sig for x in c['violations']) for c in confirm)
        rep.update(property=args.prop, seed=args.seed, run=v['i'], hashseed=v['hs'], sig=sig, text=v['text'])
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        if ok:
            txt = [x[1] for x in confirm[0]['violations'] if x[0] == sig][0]
            print('%s\n  seed=%d run=%d signature=%s' % (txt, args.seed, v['i'], sig))
            print('VIOLATION property=%s replay=%s' % (args.prop, path))
            nviol += 1
            code = 1
        else:
            agg['harness'].append('violation did not replay: %s: %s' % (sig, v['text']))
    if hang and not code:
        k, run, hs = hang[0]
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, '%s-hang.json' % args.prop)
        rep = dict(run[2], property=args.prop, seed=args.seed, run=run[0], hashseed=hs, sig='no-end',
                   text='the commands of this run do not end')
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        if (one(dict(mode='replay', prop=args.prop, replay=rep), hs, HANG) or {}).get('t') == 'timeout':
            print('%s (no step within %d s)\n  seed=%d run=%d signature=no-end' % (rep['text'], HANG, args.seed, run[0]))
            print('VIOLATION property=%s replay=%s' % (args.prop, path))
            nviol += 1
            code = 1
        else:
            agg['harness'].append('run %s made no progress (see %s)' % (run[:2], path))
    evidence(args, agg, conf, time.time() - t0, nviol, known_seen)
    ran = agg['runs']
    print('%s: %d simulated runs of %d scenarios, %d distinct executions, %d steps, %.0f s simulated, faults %s, %.1f s'
          % (args.prop, ran, agg['scenarios'], len(agg['digests']), agg['steps'], agg['simtime'], agg['faults'], time.time() - t0))
    if agg['notes']:
        print('  notes: ' + ', '.join('%s=%d' % kv for kv in sorted(agg['notes'].items())))
    if agg['harness']:
        print('  HARNESS: %d problems, first: %s' % (len(agg['harness']), agg['harness'][0][-1800:]))
        if code == 0 and (ran == 0 or len(agg['harness']) > max(3, 0.02 * ran)):
            code = 3
    sys.stdout.flush()
    return code


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        p.kill()
    p.wait()


def clean_own(prop):
    # scratch directories of workers that were stopped (names depend on the run only, so age is the guard)
    for d in ('/dev/shm', '/tmp'):
        try:
            for f in os.listdir(d):
                if f.startswith('cosim-' + prop + '-'):
                    shutil.rmtree(os.path.join(d, f), ignore_errors=True)
        except OSError:
            pass


def absorb(agg, rec):
    agg['runs'] += 1
    agg['scenarios'] += rec['k'] == 0
    for k in ('steps', 'switches', 'simtime'):
        agg[k] += rec[k]
    for k, v in rec['faults'].items():
        agg['faults'][k] = agg['faults'].get(k, 0) + v
    for k, v in rec['notes'].items():
        agg['notes'][k] = agg['notes'].get(k, 0) + v
    agg['digests'].add(rec['digest'])
    if rec['nontrivial']:
        agg['nontrivial'].add(rec['digest'])
    if rec.get('state'):
        agg['states'].add(rec['state'])
    if 'sample' in rec and len(agg['samples']) < 3:
        agg['samples'].append(rec['sample'])
    if 'harness' in rec:
        agg['harness'].append('%s\nscenario %s faults %s' % (rec['harness'][0], json.dumps(rec.get('scenario'))[:600], rec.get('fl')))


def evidence(args, agg, conf, wall, nviol, known_seen):
    d = os.environ.get('SIM_OUT') or os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    import importlib.util
    meta = json.load(open(os.path.join(VERIF, 'sim', 'meta.json')))
    m = meta.get(args.prop, {})
    ev = dict(property=args.prop, tier=args.tier, seed=args.seed, level='exploration', wall_s=round(wall, 2), violations=nviol,
              coverage=dict(
                  evaluations=agg['runs'], distinct_nontrivial=len(agg['nontrivial']),
                  rule='one evaluation is one simulated execution (a generated scenario under one schedule and one fault '
                       'sequence); distinct by the hash of its full event trace (process, step, call, path, injected fault, '
                       'exit status) and of the final state the property compared; non-trivial when a fault fired, a context switch was taken, or the scenario did real '
                       'work by the property\'s own rule: ' + m.get('nontrivial', 'it ran at least one command under test'),
                  samples=agg['samples'] or [{}],
                  scenarios=agg['scenarios'], runs_per_hour=int(agg['runs'] / max(wall, 1e-3) * 3600),
                  seeds_per_hour=int(agg['scenarios'] / max(wall, 1e-3) * 3600),
                  simulated_seconds=round(agg['simtime'], 1), scheduling_points=agg['steps'], context_switches=agg['switches'],
                  faults_injected=agg['faults'], distinct_executions=len(agg['digests']), distinct_end_states=len(agg['states']),
                  property_counters=agg['notes'], determinism_selftests=dict(run=agg['selftest'][0], identical=agg['selftest'][1]),
                  real_components=m.get('real', []), stubbed_components=m.get('stub', []), harness_problems=len(agg['harness']),
                  known_findings_seen=sorted(known_seen), workers=agg['workers']),
              assumptions=m.get('assumptions', []) + [
                  'a crash is the kill of one process: bytes already handed to the kernel survive, buffered bytes are lost; '
                  'power loss is not simulated',
                  'file operations of one call are atomic steps; interleaving happens between calls'])
    with open(os.path.join(d, args.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def replay(args):
    rep = json.load(open(args.replay))
    r = one(dict(mode='replay', prop=rep['property'], replay=rep, trace=args.trace), rep['hashseed'])
    if r is None or r['t'] == 'timeout':
        print('replay did not finish')
        if rep['sig'] == 'no-end':
            print('VIOLATION property=%s replay=%s' % (rep['property'], args.replay))
            return 1
        return 3
    if args.trace:
        for x in r['trace']:
            print('  %-10s %4d %-9s %s' % tuple(x))
    for sig, text in r['violations']:
        print('[%s] %s' % (sig, text))
    for h in r['harness']:
        print('HARNESS', h)
    print('digest', r['digest'])
    if any(x[0] == rep['sig'] for x in r['violations']):
        print('VIOLATION property=%s replay=%s' % (rep['property'], args.replay))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
