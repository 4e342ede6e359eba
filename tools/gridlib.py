"""Helpers of a demonstration: a scratch site with a small grid and a fake PBS queue. Everything stays in a temporary directory."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()
QUEUE = r'''#!%(py)s
import json, os, sys, time
f = %(state)r
st = json.load(open(f))
me = os.path.basename(sys.argv[0])
if me == 'qsub':
    st['n'] += 1
    jid = '%%d.head' %% st['n']
    st['jobs'].append([jid, os.path.basename(sys.argv[-1])[:15], 'Q', open(sys.argv[-1]).read()])
    json.dump(st, open(f, 'w'))
    print(jid)
elif me == 'qstat':
    if '-help' in sys.argv:
        sys.exit(0)
    print('Job ID Username Queue Jobname')
    print('------')
    for j in st['jobs']:
        if j[2] in 'QRH':
            print('%%-15s simuser  batch  %%-16s  1 1 1gb 24:00 %%s  --' %% (j[0], j[1], j[2]))
elif me == 'qdel':
    for a in sys.argv[1:]:
        st['deleted'].append(a)
        for j in st['jobs']:
            if j[0] == a or j[0].split('.')[0] == a:
                j[2] = 'C'
    json.dump(st, open(f, 'w'))
'''


class Grid:
    def __init__(self, settings=None, params=([],), data=(['plik', 'TT'],), importance=(), make=True):
        self.top = tempfile.mkdtemp(prefix='demo-')
        self.work = self.top + '/work'
        self.bin = self.top + '/bin'
        self.state = self.top + '/queue.json'
        for d in ('work/scripts', 'bin', 'home', 'cache', 'settings'):
            os.makedirs(self.top + '/' + d)
        for f in os.listdir(REPO):
            if f.startswith('job_script'):
                shutil.copy(REPO + '/' + f, self.work)
        os.symlink(REPO + '/python', self.work + '/python')
        os.symlink(REPO + '/batch3', self.work + '/batch3')
        json.dump(dict(n=1000, jobs=[], deleted=[]), open(self.state, 'w'))
        for c in ('qsub', 'qstat', 'qdel'):
            with open(self.bin + '/' + c, 'w') as f:
                f.write(QUEUE % dict(py=sys.executable, state=self.state))
            os.chmod(self.bin + '/' + c, 0o755)
        self.grid = self.work + '/grid'
        if settings is None:
            L = ['from paramgrid import batchjob', "ini_dir='batch3/'", "defaults=['common.ini']", "importanceDefaults=['importance_sampling.ini']",
                 "g = batchjob.jobGroup('main')", 'g.params = %r' % ([list(p) for p in params],), 'g.datasets = []']
            for d in data:
                L.append('g.datasets.append(batchjob.dataSet(%r, %r))' % (list(d), [x + '.ini' for x in d]))
            L.append('g.importanceRuns = %r' % ([[list(n), [x + '.ini' for x in n]] for n in importance],))
            L.append('groups = [g]')
            settings = '\n'.join(L) + '\n'
        self.settings = settings
        if make:
            self.mk()

    def mk(self, name='gridset', grid='grid', text=None):
        with open(self.top + '/settings/%s.py' % name, 'w') as f:
            f.write(text or self.settings)
        r = self.py("import sys; sys.path.insert(0, %r); from paramgrid import gridconfig; gridconfig.makeGrid(%r, %r)" % (
            self.top + '/settings', self.work + '/' + grid, name))
        if r.returncode:
            raise Exception(r.stdout + r.stderr)

    def env(self):
        e = {k: v for k, v in os.environ.items() if not k.startswith('COSMOMC') and k != 'GETDIST_CONFIG'}
        e.update(PYTHONPATH=REPO + '/python', USER='simuser', HOME=self.top + '/home', XDG_CACHE_HOME=self.top + '/cache',
                 PATH=self.bin + ':/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', MPLBACKEND='Agg')
        return e

    def py(self, code, *args, timeout=120):
        return subprocess.run([sys.executable, '-c', code] + list(args), cwd=self.work, env=self.env(), capture_output=True, text=True, timeout=timeout)

    def run(self, script, *args, timeout=120):
        return subprocess.run([sys.executable, REPO + '/python/' + script] + [str(a) for a in args], cwd=self.work, env=self.env(),
                              capture_output=True, text=True, timeout=timeout)

    def queue(self):
        return json.load(open(self.state))

    def set_queue(self, st):
        json.dump(st, open(self.state, 'w'))

    def root(self, params, data, imp=None):
        p = '_'.join(['base'] + list(params))
        d = '_'.join(data)
        return '%s/%s/%s/%s_%s%s' % (self.grid, p, d, p, d, '_post_' + '_'.join(imp) if imp else '')

    def write(self, path, text, age=None):
        if not path.startswith('/'):
            path = self.work + '/' + path
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(text)
        if age is not None:
            import time
            t = time.time() - age
            os.utime(path, (t, t))
        return path

    def read(self, path):
        with open(path if path.startswith('/') else self.work + '/' + path) as f:
            return f.read()

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


def chain(rows, npar=3, seed=1):
    r = random.Random(seed)
    return ''.join('%16.7E' % r.choice([1, 2, 3]) + '%16.7E' % r.uniform(5, 9) + ''.join('%16.7E' % r.gauss(0, 1) for _ in range(npar)) + '\n' for _ in range(rows))


def names(npar=3):
    return ''.join('p%d\tx_%d\n' % (i + 1, i + 1) for i in range(npar))


def main(fn, **kw):
    """Runs fn(grid); exit 1 with the reason if an assertion fails."""
    g = Grid(**kw)
    try:
        fn(g)
    except AssertionError as e:
        print('FAILED: %s' % e)
        sys.exit(1)
    finally:
        g.close()
    print('ok')
