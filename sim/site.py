"""Builds the simulated site's files: work directory, job templates, grid settings, chains."""
import os
import pickle
import random
import shutil

from . import core
from .core import R, REPO, PYDIR, World, Choices
from .cluster import Cluster

TEMPLATES = ['job_script', 'job_script_MOAB', 'job_script_UGE', 'job_script_SLURM', 'job_script_DARWIN']


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    raise RuntimeError('no scratch directory')


def make_root(tag):
    """A scratch directory whose name depends only on the run (unless that name is taken)."""
    base = scratch_base()
    for k in range(200):
        root = '%s/cosim-%s%s' % (base, tag, '' if k == 0 else '-%d' % k)
        try:
            os.mkdir(root, 0o755)
            return root
        except FileExistsError:
            continue
    raise RuntimeError('no scratch directory')


class Site:
    """A world plus the usual directories. Use as a context manager."""

    def __init__(self, tag, choices, flavour='pbs', scenario=None, **kw):
        self.tag = tag
        sc = scenario or {}
        self.root = make_root(tag)
        kw.setdefault('dirseed', sc.get('dirseed', 0))
        kw.setdefault('granularity', sc.get('granularity', 0.0))
        self.world = w = World(self.root, choices, **kw)
        self.work = self.root + '/work'
        for d in ('home', 'bin', 'cache', 'tmp', 'work', 'work/scripts'):
            os.makedirs(self.root + '/' + d)
        os.symlink(REPO + '/python', self.work + '/python')
        for t in TEMPLATES:
            if os.path.exists(REPO + '/' + t):
                shutil.copyfile(REPO + '/' + t, self.work + '/' + t)
        w.cwd = self.work
        self.cluster = None
        if flavour:
            self.cluster = Cluster(w, flavour, first=sc.get('first_id', 1000), server=sc.get('server', 'head'), moab_prefix=sc.get('moab_prefix', 'Moab'))
            self.cluster.short_ids = bool(sc.get('short_ids'))
        self.observers = 0
        core.activate(w)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        try:
            self.world.shutdown()
        finally:
            core.deactivate()
            shutil.rmtree(self.root, ignore_errors=True)

    # ---------------------------------------------------------------------------------------------------------------
    def run_script(self, name, script, args, faults=False, **kw):
        """Runs one command to its end."""
        p = self.world.script(name, script, args, **kw)
        p.fault_ok = faults
        self.world.run(lambda: p.finished)
        return p

    def call(self, fn, *args, cwd=None):
        """Runs fn(*args) as a process of its own (never faulted), returns (result, exc)."""
        self.observers += 1
        p = self.world.spawn('obs%d' % self.observers, fn, *args)
        p.fault_ok = False
        if cwd:
            p.cwd = cwd
        self.world.run(lambda: p.finished)
        if p.status != 0:
            return None, p
        return p.result, None

    def job_index(self, grid):
        """Job records as the code itself reads them: {id: (jobName, (run names))} or an error text."""

        def read():
            from paramgrid import jobqueue
            ix = jobqueue.loadJobIndex(grid)
            if ix is None:
                return {}
            return {str(k): (j.jobName, tuple(j.names)) for k, j in ix.jobSettings.items()}

        res, p = self.call(read)
        if p is not None:
            return 'unreadable: ' + p.stderr.strip().split('\n')[-1]
        return res

    def index_ok(self, grid):
        """Internal agreement of the index's views (name -> id, sequence) as seen through lookups the commands use."""

    # ---------------------------------------------------------------------------------------------------------------
    def write(self, rel, text, t=None):
        """Harness-side file creation (no scheduling point)."""
        path = rel if rel.startswith('/') else self.root + '/' + rel
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with R.open(path, 'w') as f:
            f.write(text)
        self.stamp(path, t)
        return path

    def stamp(self, path, t=None):
        ns = self.world.stamp() if t is None else int(round(t * 1e9))
        R.utime(path, ns=(ns, ns))

    def make_grid(self, grid, settings_text, name='gridset', faults=False, pname='mk'):
        """Writes a settings module next to the grid and runs the real makeGrid on it."""
        sdir = self.root + '/settings'
        self.write(sdir + '/' + name + '.py', settings_text)

        def go():
            import sys
            sys.path.insert(0, sdir)
            from paramgrid import gridconfig
            gridconfig.makeGrid(grid, name)

        p = self.world.spawn(pname, go)
        p.fault_ok = faults
        self.world.run(lambda: p.finished)
        if not faults and p.status != 0:
            raise core.SimError('makeGrid failed in setup: ' + p.stderr)
        return p

    def tree(self, top, skip=()):
        """{relative path: bytes} of a directory tree (symbolic links as 'link:target')."""
        out = {}
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for f in files:
                path = os.path.join(d, f)
                rel = os.path.relpath(path, top)
                if any(rel == s or rel.startswith(s) for s in skip):
                    continue
                if os.path.islink(path):
                    out[rel] = b'link:' + os.readlink(path).encode()
                else:
                    with R.open(path, 'rb') as fh:
                        out[rel] = fh.read()
        return out

    def stats(self, top):
        out = {}
        for d, dirs, files in os.walk(top):
            for f in files:
                path = os.path.join(d, f)
                st = os.lstat(path)
                out[os.path.relpath(path, top)] = (st.st_size, st.st_mtime_ns)
        return out


# --------------------------------------------------------------------------------------------------------------------
def settings_text(groups, importance=None, skip=None, extra=''):
    """groups: list of dict(name, params=[[..]], datasets=[[names],...], importance=[[names]...])"""
    L = ['from paramgrid import batchjob', "ini_dir = 'batch3/'", "defaults = ['common.ini']",
         "importanceDefaults = ['importance_sampling.ini']", 'groups = []']
    for i, g in enumerate(groups):
        L.append('g = batchjob.jobGroup(%r)' % g.get('name', 'g%d' % i))
        L.append('g.params = %r' % (g['params'],))
        L.append('g.datasets = []')
        for d in g['datasets']:
            if isinstance(d, dict):
                L.append('g.datasets.append(batchjob.dataSet(%r, %r%s))' % (
                    d['names'], d['inis'], ''.join(', %s=%r' % (k, v) for k, v in sorted(d.items()) if k not in ('names', 'inis'))))
            else:
                L.append('g.datasets.append(batchjob.dataSet(%r, %r))' % (d, [x + '.ini' for x in d]))
        L.append('g.importanceRuns = %r' % ([[n, [x + '.ini' for x in n]] for n in g.get('importance', [])],))
        L.append('groups.append(g)')
    if skip:
        L.append('skip = %r' % (skip,))
    if extra:
        L.append(extra)
    return '\n'.join(L) + '\n'


def read_ini(path, top=True):
    """Reference reader of settings files: {key: text} with INCLUDE and DEFAULT followed; 'DEFAULTS' lists the default files."""
    vals, inc, dfl = {}, [], []
    with R.open(path, encoding='utf-8-sig') as f:
        for line in f.read().split('\n'):
            t = line.strip()
            if t == 'END':
                break
            if t.startswith('#') or not t:
                continue
            if t.startswith('INCLUDE('):
                inc.append(t[8:t.rindex(')')])
            elif t.startswith('DEFAULT('):
                dfl.append(t[8:t.rindex(')')])
            elif '=' in t:
                k, v = t.split('=', 1)
                vals[k.strip()] = v.strip()
    own = dict(vals)
    for f in inc + dfl:
        f2 = f if os.path.isabs(f) else os.path.join(os.path.dirname(path), f)
        if os.path.exists(f2):
            for k, v in read_ini(f2, False).items():
                vals.setdefault(k, v)
    if top:
        return vals, own, inc, dfl
    return vals
