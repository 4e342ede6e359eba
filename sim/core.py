"""Deterministic simulator core.

One operating-system process runs a whole simulated site: every simulated process (a CosmoMC command, a GetDist analysis,
a sampler) is a thread that runs only while the scheduler lets it, hands control back at every intercepted call, and has its
own modules, argv, stdout and exit status.  Files live in a scratch directory that only this world uses; every call that
reads or changes it passes through here, where the seeded scheduler decides who runs next and which fault is injected.
"""
import builtins
import datetime as _datetime_mod
import errno
import fcntl
import gc
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import io
import os
import random
import shutil
import stat as _stat
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import types
from _thread import get_ident, allocate_lock

REPO = os.environ.get('SIM_REPO', '/repo')
PYDIR = REPO + '/python'

R = types.SimpleNamespace()  # the real functions


class SimCrash(BaseException):
    """The simulated process has been killed."""


class SimError(Exception):
    """The harness met something it does not support (never a verdict about the code)."""


class StepLimit(BaseException):
    pass


WORLD = None  # the one active world of this interpreter


def cur():
    w = WORLD
    if w is None:
        return None
    return w.by_thread.get(get_ident())


# --------------------------------------------------------------------------------------------------------------------
# code images: every simulated process gets fresh modules; compiled code is cached per interpreter

_code_cache = {}


class _Loader(importlib.abc.SourceLoader):
    def __init__(self, fullname, path):
        self.fullname, self.path = fullname, path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with R.open(path, 'rb') as f:
            return f.read()

    def get_code(self, fullname):
        c = _code_cache.get(self.path)
        if c is None:
            c = _code_cache[self.path] = compile(self.get_data(self.path), self.path, 'exec', dont_inherit=True)
        return c


class _RepoFinder(importlib.abc.MetaPathFinder):
    """Finds modules under REPO/python (only while a simulated process runs)."""

    def find_spec(self, fullname, path=None, target=None):
        p = cur()
        if p is None:
            return None
        if path is None:
            if PYDIR not in sys.path and p.script_dir not in sys.path:
                return None
            # modules next to scratch settings take precedence through sys.path order
            for d in sys.path:
                if d == PYDIR:
                    break
                if d.startswith(WORLD.root) and R.exists(os.path.join(d, fullname + '.py')):
                    return None
            base = os.path.join(PYDIR, fullname)
        else:
            base = None
            for d in path:
                if d.startswith(PYDIR):
                    base = os.path.join(d, fullname.rpartition('.')[2])
                    break
            if base is None:
                return None
        key = ('f', base)
        r = _code_cache.get(key)
        if r is None:
            if R.exists(base + '.py'):
                r = (base + '.py', None)
            elif R.exists(base + '/__init__.py'):
                r = (base + '/__init__.py', [base])
            else:
                r = ()
            _code_cache[key] = r
        if not r:
            return None
        spec = importlib.machinery.ModuleSpec(fullname, _Loader(fullname, r[0]), origin=r[0], is_package=r[1] is not None)
        spec.has_location = True
        if r[1]:
            spec.submodule_search_locations = list(r[1])
        return spec


_base_modules = None


# --------------------------------------------------------------------------------------------------------------------
class Proc:
    def __init__(self, world, name, fn, args=(), argv=None, parent=None):
        self.world, self.name, self.fn, self.args = world, name, fn, args
        self.argv = argv or [name]
        self.parent = parent
        self.cwd = parent.cwd if parent else world.cwd
        self.step = 0
        self.alive = True
        self.dead = False  # killed
        self.finished = False
        self.status = None  # exit status
        self.exc = None
        self.result = None
        self.wait = None  # None or callable -> ready
        self.wake = None  # virtual time at which a sleeping process wakes
        self.modules = {}
        self.syspath = list(world.syspath)
        self.script_dir = PYDIR
        self.out = io.StringIO()
        self.err = io.StringIO()
        self.lock = allocate_lock()
        self.lock.acquire()
        self.noyield = 0
        self.fds = {}
        self.pid = world.next_pid()
        self.started = world.now
        self.ended = None
        self.nice = False
        self.fault_ok = True  # eligible for injected faults
        self.thread = None
        self.unraisable = []
        self.tag = None

    @property
    def stdout(self):
        return self.out.getvalue()

    @property
    def stderr(self):
        return self.err.getvalue()

    def runnable(self):
        if self.finished:
            return False
        if self.dead:
            return True
        if self.wake is not None:
            if self.world.now >= self.wake:
                self.wake = None
            else:
                return False
        if self.wait is not None:
            if self.wait():
                self.wait = None
            else:
                return False
        return True

    def __repr__(self):
        return '<%s step %d%s>' % (self.name, self.step, ' dead' if self.dead else ' done' if self.finished else '')


class World:
    """One simulated execution."""

    def __init__(self, root, choices, start=1.6e9, max_steps=20000, granularity=0.0, dirseed=0, tick=0.004, trace=True):
        self.root = root
        self.choices = choices  # Choices object
        self.now = start
        self.jumps = 0.0  # clock changes, which are not time passing
        self.start = start
        self.max_steps = max_steps
        self.granularity = granularity
        self.server_skew = 0.0  # file server clock minus host clock
        self.dirseed = dirseed
        self.tick = tick
        self.steps = 0
        self.procs = []
        self.by_thread = {}
        self.current = None
        self.main_lock = allocate_lock()
        self.main_lock.acquire()
        self.cwd = root
        self.syspath = [PYDIR] + [p for p in _saved_syspath if p != PYDIR]
        self._pid = 1000
        self.escapes = []
        self.trace = []  # (proc, step, kind, detail)
        self.tracehash = hashlib.blake2b(digest_size=12)
        self.keep_trace = trace
        self.faults_fired = {}
        self.fault_paths = []
        self.switches = 0
        self.commands = {}  # name -> handler(world, proc, argv, stdin) -> (rc, out)
        self.locks = {}
        self.mut_hooks = []  # called as hook(proc, kind, path) before each mutating file operation
        self.harness_errors = []
        self.limit_hit = False
        self.disk_limit = None  # bytes of new data that still fit (None: plenty)
        self.unraisable = []
        self.until = None
        self.real_escapes_ok = set()
        self.cpu = 8
        self.on_start = None
        self.popens = 0

    # -- helpers -----------------------------------------------------------------------------------------------------
    def next_pid(self):
        self._pid += 1
        return self._pid

    def rel(self, path):
        if path.startswith(self.root):
            return path[len(self.root):].lstrip('/') or '.'
        return path

    def stamp(self):
        t = self.now + self.server_skew
        if self.granularity:
            t = (t // self.granularity) * self.granularity
        return int(round(t * 1e9))

    def time(self):
        return self.now

    # -- processes ---------------------------------------------------------------------------------------------------
    def spawn(self, name, fn, *args, argv=None, parent=None, delay=0):
        base, k = name, 1
        names = {p.name for p in self.procs}
        while name in names:
            k += 1
            name = '%s#%d' % (base, k)
        p = Proc(self, name, fn, args, argv, parent)
        if delay:
            p.wake = self.now + delay
        self.procs.append(p)
        t = threading.Thread(target=self._body, args=(p,), daemon=True)
        p.thread = t
        p.lock_started = False
        t.start()
        return p

    def script(self, name, script, args, cwd=None, parent=None, delay=0, setup=None):
        """Runs REPO/python/<script> as a command of its own."""
        path = script if script.startswith('/') else os.path.join(PYDIR, script)

        def run():
            if setup:
                setup()
            code = _code_cache.get(path)
            if code is None:
                with R.open(path, 'rb') as f:
                    code = _code_cache[path] = compile(f.read(), path, 'exec', dont_inherit=True)
            m = types.ModuleType('__main__')
            m.__file__ = path
            sys.modules['__main__'] = m
            sys.path[0:0] = [os.path.dirname(path)]
            try:
                exec(code, m.__dict__)
            finally:
                # interpreter exit: module globals are torn down while the process still lives
                d = m.__dict__
                for k in list(d):
                    if k != '__builtins__':
                        d[k] = None

        p = self.spawn(name, run, argv=[path] + list(args), parent=parent, delay=delay)
        if cwd:
            p.cwd = cwd
        return p

    def _body(self, p):
        p.lock.acquire()
        self.by_thread[get_ident()] = p
        status = 0
        try:
            if p.dead:
                raise SimCrash()
            p.result = p.fn(*p.args)
        except SimCrash:
            status = -9
        except SystemExit as e:
            c = e.code
            if c is None:
                status = 0
            elif isinstance(c, int):
                status = c
            else:
                p.err.write(str(c) + '\n')
                status = 1
        except BaseException as e:
            if p.dead:
                status = -9
            else:
                p.exc = e
                p.noyield += 1  # reporting looks source files up: not part of the program
                text = traceback.format_exc()
                p.noyield -= 1
                p.err.write(text)
                status = 1
                if isinstance(e, SimError):
                    self.harness_errors.append(text)
        try:
            if p.exc is not None:
                # drop frames so that destructors run while the process lives
                p.exc = p.exc.with_traceback(None)
                p.exc.__context__ = p.exc.__cause__ = None
            p.fn = p.args = None
            if p.modules is not None and p.gc:
                gc.collect()
        except BaseException:
            pass
        if p.dead:
            status = -9
        # close what is left open without flushing it (kernel closes descriptors)
        for fd, raw in list(p.fds.items()):
            try:
                if isinstance(raw, SimRaw):
                    raw.sim_gone = True
                    io.FileIO.close(raw)
                else:
                    R.os_close(fd)
            except OSError:
                pass
        p.fds.clear()
        self._release_locks(p)
        p.status = status
        p.finished = True
        p.alive = False
        p.ended = self.now
        self.tracehash.update(('end %s %s' % (p.name, status)).encode())
        self.by_thread.pop(get_ident(), None)
        self._leave(p)
        p.modules = None
        self._dispatch(None)

    # -- context of a process ----------------------------------------------------------------------------------------
    def _enter(self, p):
        self.current = p
        m = sys.modules
        m.update(p.modules)
        sys.argv = p.argv
        sys.path[:] = p.syspath
        sys.stdout, sys.stderr = p.out, p.err
        try:
            R.chdir(p.cwd)
        except OSError:
            pass

    def _leave(self, p):
        m = sys.modules
        base = _base_modules
        if len(m) != len(base) or p.modules or '__main__' in m:
            loc = {k: v for k, v in m.items() if k not in base or base[k] is not v}
            for k in loc:
                if k in base:
                    m[k] = base[k]
                else:
                    del m[k]
            p.modules = loc
        p.argv = sys.argv
        p.syspath = list(sys.path)
        sys.argv = _saved_argv
        sys.path[:] = _saved_syspath
        sys.stdout, sys.stderr = _saved_std
        self.current = None

    # -- scheduling --------------------------------------------------------------------------------------------------
    def _pick(self, me):
        """Next process to run (me: the one that has just yielded, or None)."""
        while True:
            ready = [p for p in self.procs if not p.finished and p.runnable()]
            if ready:
                break
            sleepers = [p.wake for p in self.procs if not p.finished and p.wake is not None]
            if not sleepers:
                return None
            self.now = max(self.now, min(sleepers))
        if me is not None and me in ready:
            if len(ready) == 1:
                return me
            t = self.choices.switch(me, ready, self)
            if t is not None and t is not me:
                return t
            return me
        if len(ready) == 1:
            return ready[0]
        t = self.choices.switch(None, ready, self)
        return t if t is not None else ready[0]

    def _dispatch(self, me):
        """Gives control to the next process (called by the thread that runs)."""
        if self.until is not None and self.until():
            nxt = None
        else:
            nxt = self._pick(me)
        if nxt is me and me is not None:
            return
        if me is not None:
            self.switches += 1
            self._leave(me)
        if nxt is None:
            self.main_lock.release()
        else:
            self._enter(nxt)
            nxt.lock.release()
        if me is not None:
            me.lock.acquire()

    def run(self, until=None):
        """Runs until every process has ended or sleeps forever, or until() holds."""
        assert cur() is None
        self.until = until
        if until is not None and until():
            return
        nxt = self._pick(None)
        if nxt is None:
            return
        self._enter(nxt)
        nxt.lock.release()
        self.main_lock.acquire()
        R.chdir(self.root)

    def kill(self, p):
        p.dead = True
        p.wait = p.wake = None

    def shutdown(self):
        """Ends every process that is still there."""
        self.max_steps = 1 << 60
        for p in self.procs:
            if not p.finished:
                self.kill(p)
        self.until = None
        self.run()
        for p in self.procs:
            if p.thread:
                p.thread.join(20)

    # -- the seam: every intercepted call comes here first -----------------------------------------------------------
    def point(self, p, kind, detail=''):
        """Scheduling and fault point. Returns an injected fault specification or None."""
        if p.dead:
            raise SimCrash()
        if p.noyield:
            return None
        p.step += 1
        self.steps += 1
        self.now += self.tick
        if self.steps > self.max_steps:
            self.limit_hit = True
            for q in self.procs:
                if not q.finished:
                    self.kill(q)
            raise SimCrash()
        if len(self.procs) > 1 or self.until is not None:
            self._dispatch(p)
            if p.dead:
                raise SimCrash()
        rel = self.rel(detail)
        if self.keep_trace:
            self.trace.append((p.name, p.step, kind, rel))
        self.tracehash.update(('%s %d %s %s\n' % (p.name, p.step, kind, rel)).encode('utf-8', 'surrogateescape'))
        f = self.choices.fault(p, kind, rel, self) if p.fault_ok else None
        if f is not None:
            k = f['kind']
            self.faults_fired[k] = self.faults_fired.get(k, 0) + 1
            self.fault_paths.append(rel)
            self.tracehash.update(('F%s' % sorted(f.items())).encode())
            if k == 'crash':
                self.kill(p)
                raise SimCrash()
            if k == 'stall':  # slow node: nothing happens here for a while
                p.wake = self.now + f.get('s', 60)
                self._dispatch(p)
                if p.dead:
                    raise SimCrash()
                return None
            if k == 'clock':
                self.now += f.get('s', 0)
                self.jumps += f.get('s', 0)
                return None
        return f

    def sleep(self, p, s):
        if p.dead:
            raise SimCrash()
        p.wake = self.now + max(float(s), 0.0)
        self.point(p, 'sleep')
        while p.wake is not None and self.now < p.wake:
            # nobody else was runnable: time passes
            self._dispatch(p)
            if p.wake is not None and self.now < p.wake:
                self.now = p.wake
        p.wake = None

    def block(self, p, ready, kind, detail=''):
        p.wait = ready
        self.point(p, kind, detail)
        while not ready():
            p.wait = ready
            self._dispatch(p)
            if p.dead:
                raise SimCrash()
        p.wait = None

    def _release_locks(self, p):
        for k in list(self.locks):
            self.locks[k] = [e for e in self.locks[k] if e[0] is not p]
            if not self.locks[k]:
                del self.locks[k]

    def digest(self):
        return self.tracehash.hexdigest()


Proc.gc = True


# --------------------------------------------------------------------------------------------------------------------
class Choices:
    """All nondeterminism of one run.

    schedule: {"proc:step": "other proc"}  sparse context switches (default: keep running)
    faults:   {"proc:step": {kind:..}}     sparse faults (default: none)
    With rng given, switches are drawn from it (probability p_switch) and recorded, so that the record replays the run.
    """

    def __init__(self, schedule=None, faults=None, rng=None, p_switch=0.0, kinds=None):
        self.schedule = dict(schedule or {})
        self.faults = dict(faults or {})
        self.rng = rng
        self.p_switch = p_switch
        self.kinds = kinds
        self.recorded = {}
        self.fired = {}

    def switch(self, me, ready, world):
        key = '%s:%d' % (me.name, me.step) if me is not None else '-:%d' % world.steps
        if self.rng is None:
            t = self.schedule.get(key)
            if t is None:
                return None
            for p in ready:
                if p.name == t:
                    self.recorded[key] = t
                    return p
            return None
        if me is None:
            t = self.rng.choice(ready)
            if t is not ready[0]:
                self.recorded[key] = t.name
            return t
        if self.rng.random() < self.p_switch:
            t = self.rng.choice([p for p in ready if p is not me])
            self.recorded[key] = t.name
            return t
        return None

    def fault(self, p, kind, rel, world):
        f = self.faults.get('%s:%d' % (p.name, p.step))
        if f is None:
            return None
        if not applicable(f['kind'], kind):
            return None
        self.fired['%s:%d' % (p.name, p.step)] = dict(f, at=kind, path=rel)
        return f


_APPL = {
    'enospc': ('write', 'open-w', 'mkdir', 'copyrange', 'symlink'),
    'eio': ('write', 'read', 'open-w', 'open-r', 'rename', 'remove', 'mkdir', 'close-w', 'fsync'),
    'eacces': ('open-w', 'open-r', 'rename', 'remove', 'mkdir'),
    'short': ('write', 'read'),
    'torn': ('write',),
    'cmdfail': ('cmd', 'cmd-out'),
    'cmdempty': ('cmd-out',),
    'eintr': ('write', 'read'),
}


def applicable(fk, kind):
    return fk in ('crash', 'stall', 'clock') or kind in _APPL.get(fk, ())


def oserr(f, path=None):
    code = {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'eacces': errno.EACCES, 'torn': errno.ENOSPC}[f['kind']]
    return OSError(code, os.strerror(code), path)


# --------------------------------------------------------------------------------------------------------------------
# files

def _abs(p, path):
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith('/'):
        path = p.cwd + '/' + path
    if '/.' in path or '//' in path:
        path = os.path.normpath(path)
    return path


def _norm(path):
    return os.path.normpath(path)


def _in_root(w, path):
    """Does the operation stay inside the scratch directory (symbolic links of the directory part resolved)?"""
    n = _norm(path)
    if not (n == w.root or n.startswith(w.root + '/')):
        return False
    return True


def _real_in_root(w, path):
    d = R.realpath(os.path.dirname(path)) if '/' in path else path
    return d == w.root_real or d.startswith(w.root_real + '/')


def _check_mut(w, p, kind, path):
    """path is absolute. Refuses (and records) any change outside the scratch directory."""
    if not _in_root(w, path) or not _real_in_root(w, path):
        if path == '/dev/null':
            return
        if kind == 'mkdir' and os.path.lexists(path):
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        if p.noyield and not path.startswith(REPO):
            pass
        w.escapes.append((p.name, kind, path))
        raise PermissionError(errno.EACCES, 'outside the simulated site', path)
    for h in w.mut_hooks:
        h(p, kind, path)


class SimRaw(io.FileIO):
    """Raw file whose reads, writes and closes are scheduling and fault points."""

    sim_gone = False
    sim_bad = None
    sim_w = False
    sim_failed_close = False

    def _sim_init(self, p, path, writing):
        self.sim_p, self.sim_path, self.sim_w = p, path, writing
        self.sim_fd = self.fileno()
        p.fds[self.sim_fd] = self
        return self

    def write(self, b):
        p = self.sim_p
        w = p.world
        if self.sim_gone or p.dead or w is not WORLD:
            raise SimCrash()
        q = cur()
        f = w.point(q or p, 'write', self.sim_path) if q is not None else None
        mv = memoryview(b).cast('B') if not isinstance(b, bytes) else b
        n = len(mv)
        for h in w.mut_hooks:
            h(p, 'write', self.sim_path)
        if self.sim_bad is not None:  # the condition lasts: later writes to this file fail as well
            raise oserr(self.sim_bad)
        if f is not None:
            k = f['kind']
            if k in ('enospc', 'eio'):
                self.sim_bad = f
                raise oserr(f)
            if k == 'torn':  # part of the data reaches the file, then the disk is full
                self.sim_bad = f
                m = int(n * f.get('frac', 0.5))
                if m:
                    return self._put(mv[:m])
                raise oserr(f)
            if k == 'short' and n > 1:
                m = max(1, int(n * f.get('frac', 0.5)))
                return self._put(mv[:m])
        if w.disk_limit is not None:
            if n > w.disk_limit:
                m = w.disk_limit
                w.disk_limit = 0
                if m > 0:
                    return self._put(mv[:m])
                w.faults_fired['diskfull'] = w.faults_fired.get('diskfull', 0) + 1
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            w.disk_limit -= n
        return self._put(mv)

    def _put(self, b):
        n = io.FileIO.write(self, b)
        t = self.sim_p.world.stamp()
        R.utime(self.sim_fd, ns=(t, t))
        return n

    def _rd(self):
        p = self.sim_p
        if self.sim_gone or p.dead or p.world is not WORLD:
            raise SimCrash()
        if cur() is not None:
            f = p.world.point(cur(), 'read', self.sim_path)
            if f is not None:
                if f['kind'] == 'eio':
                    raise oserr(f)
                return f
        return None

    def readinto(self, b):
        f = self._rd()
        if f is not None and f['kind'] == 'short':
            mv = memoryview(b).cast('B')
            m = max(1, int(len(mv) * f.get('frac', 0.01)))
            return io.FileIO.readinto(self, mv[:m])
        return io.FileIO.readinto(self, b)

    def read(self, n=-1):
        self._rd()
        return io.FileIO.read(self, n)

    def readall(self):
        self._rd()
        return io.FileIO.readall(self)

    def truncate(self, pos=None):
        p = self.sim_p
        if self.sim_gone or p.dead:
            raise SimCrash()
        p.world.point(cur() or p, 'write', self.sim_path)
        for h in p.world.mut_hooks:
            h(p, 'write', self.sim_path)
        r = io.FileIO.truncate(self, pos)
        t = p.world.stamp()
        R.utime(self.sim_fd, ns=(t, t))
        return r

    def close(self):
        if self.closed:
            return
        if not hasattr(self, 'sim_p'):
            return io.FileIO.close(self)
        p = self.sim_p
        f = None
        crashed = None
        if self.sim_w and not p.dead and p.world is WORLD and cur() is not None:
            try:
                f = p.world.point(cur(), 'close-w', self.sim_path)
            except SimCrash as e:
                crashed = e
        if not self.sim_gone:
            p.fds.pop(self.sim_fd, None)
            _drop_flock(p, self.sim_fd)
            try:
                io.FileIO.close(self)
            except OSError:
                pass
        if crashed:
            raise crashed
        if f is not None and f['kind'] == 'eio':
            raise oserr(f)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = cur()
    if p is None:
        return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    w = p.world
    if p.dead:
        raise SimCrash()
    writing = any(c in mode for c in 'wax+')
    if isinstance(file, int):
        raw0 = p.fds.get(file)
        if raw0 is None:
            return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = raw0.sim_path if isinstance(raw0, SimRaw) else raw0
        arg = file
    else:
        try:
            path = _abs(p, file)
        except TypeError:
            return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not _in_root(w, path):
            if writing and path != '/dev/null':
                _check_mut(w, p, 'open-w', path)
            return R.open(path, mode, buffering, encoding, errors, newline, closefd, opener)
        arg = path
        f = w.point(p, 'open-w' if writing else 'open-r', path)
        if f is not None and f['kind'] in ('enospc', 'eio', 'eacces'):
            raise oserr(f, path)
        if writing:
            _check_mut(w, p, 'open-w', path)
            if w.disk_limit is not None and w.disk_limit <= 0 and not R.exists(path) and 'r' not in mode:
                w.faults_fired['diskfull'] = w.faults_fired.get('diskfull', 0) + 1
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
    text = 'b' not in mode
    if 'U' in mode:
        raise ValueError('invalid mode: %r' % mode)
    rawmode = mode.replace('t', '').replace('b', '')
    if not text and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding argument")
    if text and buffering == 0:
        raise ValueError("can't have unbuffered text I/O")
    existed = writing and not isinstance(arg, int) and R.exists(path)
    if opener is not None and not isinstance(arg, int):
        raw = SimRaw(arg, rawmode, closefd, opener)
    else:
        raw = SimRaw(arg, rawmode, closefd)
    try:
        raw._sim_init(p, path, writing)
        if writing and not isinstance(arg, int) and ('w' in mode or 'x' in mode or not existed):
            t = w.stamp()
            R.utime(raw.sim_fd, ns=(t, t))
        if buffering == 0:
            return raw
        line_buffering = False
        if buffering == 1 and text:
            buffering = -1
            line_buffering = True
        if buffering < 0:
            buffering = 4096 if w.granularity is None else io.DEFAULT_BUFFER_SIZE
        if '+' in mode:
            buf = io.BufferedRandom(raw, buffering)
        elif writing:
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        if not text:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


def _wrap_path(name, kind, mutating=False, two=False, after=None):
    """Wraps os.<name>(path, ...)."""
    orig = getattr(os, name)
    setattr(R, 'os_' + name, orig)

    def f(path, *a, **k):
        p = cur()
        if p is None:
            return orig(path, *a, **k)
        if p.dead:
            raise SimCrash()
        if isinstance(path, int) or k.get('dir_fd') is not None or k.get('src_dir_fd') is not None:
            return orig(path, *a, **k)
        w = p.world
        ap = _abs(p, path)
        inside = _in_root(w, ap)
        if two:
            a0 = _abs(p, a[0] if a else k.get('dst'))
        if not inside and not mutating:
            return orig(path, *a, **k)
        if inside:
            ft = w.point(p, kind, ap)
            if ft is not None and ft['kind'] in ('enospc', 'eio', 'eacces'):
                raise oserr(ft, ap)
        if mutating:
            if name == 'symlink':
                _check_mut(w, p, kind, a0)
            else:
                _check_mut(w, p, kind, ap)
                if two:
                    _check_mut(w, p, kind + '-to', a0)
        r = orig(path, *a, **k)
        if after is not None:
            after(w, p, a0 if two else ap)
        return r

    f.__name__ = name
    return f


def _stamp_new(w, p, path):
    t = w.stamp()
    try:
        R.utime(path, ns=(t, t), follow_symlinks=False)
    except OSError:
        pass


def _order(w, d, names):
    names = sorted(names)
    if w.dirseed:
        h = {n: hashlib.md5(('%d|%s|%s' % (w.dirseed, w.rel(d), n)).encode('utf-8', 'surrogateescape')).digest() for n in names}
        names.sort(key=h.get)
    return names


def _listdir(path='.'):
    p = cur()
    if p is None:
        return R.os_listdir(path)
    if isinstance(path, int) or isinstance(path, bytes):
        return R.os_listdir(path)
    ap = _abs(p, path)
    if not _in_root(p.world, ap):
        return sorted(R.os_listdir(path))
    p.world.point(p, 'listdir', ap)
    return _order(p.world, _norm(ap), R.os_listdir(ap))


class _ScanIter:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        self.it = iter(())


def _scandir(path='.'):
    p = cur()
    if p is None or isinstance(path, (int, bytes)):
        return R.os_scandir(path)
    ap = _abs(p, path)
    if not _in_root(p.world, ap):
        return R.os_scandir(path)
    p.world.point(p, 'listdir', ap)
    with R.os_scandir(path) as it:
        ent = {e.name: e for e in it}
    return _ScanIter([ent[n] for n in _order(p.world, _norm(ap), ent)])


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = cur()
    if p is None or dir_fd is not None:
        return R.os_open(path, flags, mode, dir_fd=dir_fd)
    ap = _abs(p, path)
    w = p.world
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    if not _in_root(w, ap):
        if writing and ap != '/dev/null':
            _check_mut(w, p, 'open-w', ap)
        return R.os_open(path, flags, mode)
    f = w.point(p, 'open-w' if writing else 'open-r', ap)
    if f is not None and f['kind'] in ('enospc', 'eio', 'eacces'):
        raise oserr(f, ap)
    if writing:
        _check_mut(w, p, 'open-w', ap)
    existed = R.exists(ap)
    fd = R.os_open(path, flags, mode)
    p.fds[fd] = ap
    if writing and (not existed or flags & os.O_TRUNC):
        t = w.stamp()
        R.utime(fd, ns=(t, t))
    return fd


def _os_close(fd):
    p = cur()
    if p is None:
        return R.os_close(fd)
    if fd in p.fds:
        if not p.dead:
            p.world.point(p, 'close-w', p.fds[fd] if isinstance(p.fds[fd], str) else p.fds[fd].sim_path)
        _drop_flock(p, fd)
        p.fds.pop(fd, None)
    if p.dead:
        return None
    return R.os_close(fd)


def _os_write(fd, data):
    p = cur()
    if p is None or fd not in p.fds:
        if p is not None and p.dead:
            raise SimCrash()
        return R.os_write(fd, data)
    path = p.fds[fd]
    if isinstance(path, SimRaw):
        path = path.sim_path
    w = p.world
    f = w.point(p, 'write', path)
    for h in w.mut_hooks:
        h(p, 'write', path)
    if f is not None:
        if f['kind'] in ('enospc', 'eio'):
            raise oserr(f)
        if f['kind'] == 'torn':
            w.disk_limit = int(len(data) * f.get('frac', 0.5))
        if f['kind'] == 'short' and len(data) > 1:
            data = data[:max(1, int(len(data) * f.get('frac', 0.5)))]
    if w.disk_limit is not None:
        if len(data) > w.disk_limit:
            if w.disk_limit <= 0:
                w.faults_fired['diskfull'] = w.faults_fired.get('diskfull', 0) + 1
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            data = data[:w.disk_limit]
        w.disk_limit -= len(data)
    n = R.os_write(fd, data)
    t = w.stamp()
    R.utime(fd, ns=(t, t))
    return n


def _os_read(fd, n):
    p = cur()
    if p is not None and fd in p.fds:
        path = p.fds[fd]
        f = p.world.point(p, 'read', path.sim_path if isinstance(path, SimRaw) else path)
        if f is not None and f['kind'] == 'eio':
            raise oserr(f)
    return R.os_read(fd, n)


def _utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    p = cur()
    if p is None:
        return R.utime(path, times, dir_fd=dir_fd, follow_symlinks=follow_symlinks) if ns is None else \
            R.utime(path, ns=ns, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    if not isinstance(path, int):
        ap = _abs(p, path)
        p.world.point(p, 'utime', ap)
        _check_mut(p.world, p, 'utime', ap)
    if times is None and ns is None:
        t = p.world.stamp()
        ns = (t, t)
    if ns is not None:
        return R.utime(path, ns=ns, follow_symlinks=follow_symlinks)
    return R.utime(path, times, follow_symlinks=follow_symlinks)


def _getcwd():
    p = cur()
    return R.getcwd() if p is None else p.cwd


def _chdir(path):
    p = cur()
    if p is None:
        return R.chdir(path)
    ap = _norm(_abs(p, path))
    R.chdir(ap)
    p.cwd = ap


def _fsync(fd):
    p = cur()
    if p is not None:
        fd = fd if isinstance(fd, int) else fd.fileno()
        path = p.fds.get(fd, '')
        f = p.world.point(p, 'fsync', path.sim_path if isinstance(path, SimRaw) else path)
        if f is not None and f['kind'] == 'eio':
            raise oserr(f)
        return None
    return R.os_fsync(fd)


# advisory locks ------------------------------------------------------------------------------------------------------
def _lock_key(fd):
    st = os.fstat(fd)
    return st.st_dev, st.st_ino


def _drop_flock(p, fd):
    w = p.world
    for k in list(w.locks):
        w.locks[k] = [e for e in w.locks[k] if not (e[0] is p and e[1] == fd)]
        if not w.locks[k]:
            del w.locks[k]


def _flock_like(posix):
    def flock(fd, op, *a):
        p = cur()
        if p is None:
            return (R.lockf if posix else R.flock)(fd, op, *a)
        if not isinstance(fd, int):
            fd = fd.fileno()
        w = p.world
        key = (_lock_key(fd), posix)
        me = (p, None if posix else fd)

        def conflict():
            for (q, qfd, ex) in w.locks.get(key, []):
                if (q, None if posix else qfd) == me:
                    continue
                if ex or op & fcntl.LOCK_EX:
                    return True
            return False

        def mine_removed():
            w.locks[key] = [e for e in w.locks.get(key, []) if (e[0], None if posix else e[1]) != me]
            if not w.locks[key]:
                del w.locks[key]

        if op & fcntl.LOCK_UN:
            w.point(p, 'unlock')
            mine_removed()
            return None
        w.point(p, 'lock')
        if conflict():
            if op & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EWOULDBLOCK, os.strerror(errno.EWOULDBLOCK))
            w.block(p, lambda: not conflict(), 'lockwait')
        mine_removed()
        w.locks.setdefault(key, []).append((p, fd, bool(op & fcntl.LOCK_EX)))
        return None

    return flock


# --------------------------------------------------------------------------------------------------------------------
# time

class _SimDateMeta(type(_datetime_mod.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, R.datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, R.datetime)


def _make_datetime():
    class datetime(R.datetime, metaclass=_SimDateMeta):
        @classmethod
        def now(cls, tz=None):
            p = cur()
            return R.datetime.now(tz) if p is None else R.datetime.fromtimestamp(p.world.time(), tz)

        @classmethod
        def utcnow(cls):
            p = cur()
            return R.datetime.utcnow() if p is None else R.datetime.utcfromtimestamp(p.world.time())

        @classmethod
        def today(cls):
            return cls.now()

    datetime.__module__ = 'datetime'
    datetime.__qualname__ = 'datetime'
    return datetime


def _time():
    p = cur()
    return R.time() if p is None else p.world.time()


def _time_ns():
    p = cur()
    return R.time_ns() if p is None else int(p.world.time() * 1e9)


def _monotonic():
    p = cur()
    return R.monotonic() if p is None else p.world.now - p.world.start + 1000.0


def _localtime(secs=None):
    p = cur()
    if secs is None and p is not None:
        secs = p.world.time()
    return R.localtime(secs) if secs is not None else R.localtime()


def _sleep(s):
    p = cur()
    if p is None:
        return R.sleep(s)
    p.world.sleep(p, s)


# --------------------------------------------------------------------------------------------------------------------
# child processes

class SimPopen:
    """Stands for subprocess.Popen: commands are run by the simulated site."""

    _child_created = True

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None,
                 extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        p = cur()
        if p is None:
            raise SimError('child process started by the harness')
        self.args = args
        self.text = bool(universal_newlines or text or encoding or errors)
        self.encoding = encoding or 'utf-8'
        self.returncode = None
        self.pid = p.world.next_pid()
        self.stdin = self.stdout = self.stderr = None
        self._err2out = stderr == subprocess.STDOUT
        self._capt, self._capterr = stdout == subprocess.PIPE, stderr == subprocess.PIPE
        self._outfile = stdout if hasattr(stdout, 'write') else None
        self._out = self._errtxt = ''
        self._proc = None
        self._p = p
        p.world.popens += 1
        if stdin == subprocess.PIPE:
            self.stdin = io.StringIO() if self.text else io.BytesIO()
        if isinstance(args, (str, bytes)):
            words = None
            cmdline = os.fsdecode(args)
        else:
            words = [os.fsdecode(os.fspath(a)) for a in args]
            cmdline = None
        if shell and words is not None:
            cmdline, words = words[0], None
        if not shell and cmdline is not None:
            words, cmdline = [cmdline], None
        run_command(self, p, words, cmdline, cwd)

    # used by command handlers
    def _done(self, rc, out='', err=''):
        self.returncode, self._out, self._errtxt = rc, out, err
        self._finish_streams()

    def _finish_streams(self):
        out = self._out
        if self._err2out:
            out += self._errtxt
        if self._outfile is not None:
            try:
                self._outfile.write(out)
            except TypeError:
                self._outfile.write(out.encode())
        if self._capt:
            self.stdout = io.StringIO(out) if self.text else io.BytesIO(out.encode())
        if self._capterr:
            self.stderr = io.StringIO(self._errtxt) if self.text else io.BytesIO(self._errtxt.encode())

    def poll(self):
        if self.returncode is None and self._proc is not None:
            self._p.world.point(self._p, 'poll')
            if self._proc.finished:
                self.returncode = self._proc.status
                self._out, self._errtxt = self._proc.stdout, self._proc.stderr
                self._finish_streams()
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            w = self._p.world
            if timeout is not None:
                end = w.now + timeout
                while not self._proc.finished:
                    if w.now >= end:
                        raise subprocess.TimeoutExpired(self.args, timeout)
                    w.sleep(self._p, min(0.05, max(0.0, end - w.now)))
            elif not self._proc.finished:
                w.block(self._p, lambda: self._proc.finished, 'waitpid')
            self.poll()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        return (self.stdout.getvalue() if self._capt else None), (self.stderr.getvalue() if self._capterr else None)

    def kill(self):
        if self._proc is not None and not self._proc.finished:
            self._p.world.kill(self._proc)

    terminate = kill

    def send_signal(self, sig):
        if sig in (2, 9, 15):
            self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def __repr__(self):
        return '<Popen %r>' % (self.args,)


def _expand(p, s):
    import re
    return re.sub(r'\$\{?(\w+)\}?', lambda m: os.environ.get(m.group(1), ''), s)


def run_command(h, p, words, cmdline, cwd):
    import shlex
    w = p.world
    if p.dead:
        raise SimCrash()
    if words is None:
        try:
            words = shlex.split(_expand(p, cmdline))
        except ValueError:
            raise SimError('cannot parse shell command %r' % cmdline)
        redir = [x for x in words if x in ('|', '&&', ';', '||', '>', '<', '&', '2>&1', '2>/dev/null', '>/dev/null')]
        if redir:
            keep = [x for x in words if x not in ('2>&1', '2>/dev/null')]
            if any(x in ('|', '&&', ';', '||', '>', '<', '&') for x in keep):
                raise SimError('unsupported shell syntax %r' % cmdline)
            words = keep
    shell = cmdline is not None
    if not words:
        return h._done(0)
    name = os.path.basename(words[0])
    if name in ('python', 'python3') or name.startswith('python'):
        f = w.point(p, 'cmd', 'python')
        if f is not None and f['kind'] == 'cmdfail':
            return _cmd_missing(h, words, shell)
        handler = w.commands.get('python')
        if handler is None:
            raise SimError('python child not expected here: %r' % words)
        h._proc = handler(w, p, words, h)
        return
    handler = w.commands.get(name)
    f = w.point(p, 'cmd', name)
    if handler is None:
        return _cmd_missing(h, words, shell)
    if f is not None and f['kind'] == 'cmdfail':
        return h._done(f.get('rc', 1), '', name + ': cannot connect to server\n')
    rc, out = handler(w, p, words)
    f = w.point(p, 'cmd-out', name)
    if f is not None:
        if f['kind'] == 'cmdfail':
            return h._done(f.get('rc', 1), '', name + ': connection lost\n')
        if f['kind'] == 'cmdempty':
            return h._done(0, '')
    h._done(rc, out)


def _cmd_missing(h, words, shell):
    if shell:
        return h._done(127, '', '%s: command not found\n' % words[0])
    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), words[0])


def _system(cmd):
    if cur() is None:
        return R.os_system(cmd)
    return SimPopen(cmd, shell=True).wait()


# --------------------------------------------------------------------------------------------------------------------
_installed = False
_saved_argv = sys.argv
_saved_syspath = list(sys.path)
_saved_std = (sys.stdout, sys.stderr)


class _Names:
    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 'simtmp%04d' % self.n


def install():
    """Puts the seams in place (once per interpreter)."""
    global _installed, _base_modules, _saved_argv, _saved_syspath, _saved_std
    if _installed:
        return
    _installed = True
    # what every process image shares: interpreter, standard library and third-party packages
    import argparse, copy, csv, ctypes, fnmatch, glob, json, logging, multiprocessing, pathlib, pickle, platform, pprint, socket, string, textwrap, uuid, warnings, zipfile, zlib, queue, concurrent.futures, contextlib, collections, inspect, decimal, fractions, statistics, secrets, signal, getpass, email, html, http, urllib, urllib.request, xml, bz2, lzma, gzip, tarfile, unittest, doctest, difflib, cProfile, profile, timeit, atexit, weakref, codecs, locale, operator, functools, itertools, heapq, bisect, array, struct, hashlib, hmac, base64, binascii, shlex, configparser, optparse, getopt, filecmp, linecache, tokenize, ast, dis, typing, dataclasses, enum, numbers, abc, errno as _e, select, asyncio
    import numpy, numpy.random, numpy.linalg, numpy.lib._datasource as ds, numpy.fft, numpy.polynomial, numpy.testing
    import scipy, scipy.stats, scipy.signal, scipy.optimize, scipy.fftpack, scipy.special, scipy.linalg, scipy.interpolate, scipy.integrate, scipy.ndimage
    import pandas
    import six, six.moves
    import yaml
    warnings.simplefilter('ignore')
    try:
        from distutils import spawn  # noqa
    except ImportError:
        pass
    logging.disable(logging.CRITICAL)
    R.open = builtins.open
    R.exists = os.path.exists
    R.realpath = os.path.realpath
    R.utime = os.utime
    R.getcwd, R.chdir = os.getcwd, os.chdir
    R.time, R.sleep, R.time_ns, R.monotonic, R.localtime = time.time, time.sleep, time.time_ns, time.monotonic, time.localtime
    R.datetime = _datetime_mod.datetime
    R.flock, R.lockf = fcntl.flock, fcntl.lockf
    R.Popen = subprocess.Popen
    R.os_open, R.os_close, R.os_write, R.os_read = os.open, os.close, os.write, os.read
    R.os_listdir, R.os_scandir, R.os_fsync, R.os_system = os.listdir, os.scandir, os.fsync, os.system
    R.getpid, R.urandom = os.getpid, os.urandom
    # genericpath.exists etc. look os.stat up at call time; keep harness-side helpers on the originals
    real_stat = os.stat

    def exists(path):
        try:
            real_stat(path)
        except (OSError, ValueError):
            return False
        return True

    R.exists = exists
    R.stat = real_stat

    import posixpath
    real_lstat, real_readlink = os.lstat, os.readlink

    def realpath(path):
        # resolve through the saved calls so that the seam itself causes no scheduling points
        p = cur()
        if p is None:
            return posixpath.realpath(path)
        p.noyield += 1
        try:
            return posixpath.realpath(path)
        finally:
            p.noyield -= 1

    R.realpath = realpath

    for name, kind in [('stat', 'stat'), ('lstat', 'stat'), ('access', 'stat'), ('readlink', 'readlink')]:
        setattr(os, name, _wrap_path(name, kind))
    for name, kind in [('remove', 'remove'), ('unlink', 'remove'), ('rmdir', 'rmdir'), ('truncate', 'write'),
                       ('chmod', 'chmod'), ('chown', 'chmod')]:
        setattr(os, name, _wrap_path(name, kind, True))
    os.mkdir = _wrap_path('mkdir', 'mkdir', True, after=_stamp_new)
    for name in ('rename', 'replace'):
        setattr(os, name, _wrap_path(name, 'rename', True, two=True))
    os.link = _wrap_path('link', 'link', True, two=True)
    os.symlink = _wrap_symlink()
    os.listdir, os.scandir = _listdir, _scandir
    os.open, os.close, os.write, os.read = _os_open, _os_close, _os_write, _os_read
    os.utime, os.getcwd, os.chdir, os.fsync, os.system = _utime, _getcwd, _chdir, _fsync, _system
    os.fdatasync = _fsync
    os.getpid = lambda: (cur().pid if cur() is not None else R.getpid())
    for n in ('kill', 'killpg', 'fork', 'execv', 'execve', 'execvp', 'forkpty', 'posix_spawn', 'posix_spawnp', 'chroot',
              'mkfifo', 'mknod', 'setuid', 'setgid', '_exit', 'abort'):
        if hasattr(os, n):
            setattr(os, n, _forbidden(n, getattr(os, n)))
    builtins.open = sim_open
    io.open = sim_open
    if hasattr(ds, '_file_openers'):
        ds._file_openers._load()
        ds._file_openers._file_openers[None] = sim_open
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    shutil.rmtree.avoids_symlink_attacks = False
    os.supports_dir_fd = set()
    os.supports_fd = {os.listdir, os.scandir} if False else os.supports_fd
    time.time, time.sleep, time.time_ns, time.monotonic, time.localtime = _time, _sleep, _time_ns, _monotonic, _localtime
    _datetime_mod.datetime = _make_datetime()
    fcntl.flock, fcntl.lockf = _flock_like(False), _flock_like(True)
    subprocess.Popen = SimPopen
    import multiprocessing
    multiprocessing.cpu_count = lambda: (cur().world.cpu if cur() is not None else os.cpu_count())
    tempfile._get_candidate_names = lambda: _tmpnames()
    sys.meta_path.insert(0, _RepoFinder())
    real_import = builtins.__import__

    def sim_import(name, globals=None, locals=None, fromlist=(), level=0):
        p = cur()
        if p is None or (level == 0 and name in sys.modules and not fromlist):
            return real_import(name, globals, locals, fromlist, level)
        if p.dead:
            raise SimCrash()
        p.noyield += 1
        try:
            if level == 0 and name not in sys.modules:
                importlib.invalidate_caches()
            return real_import(name, globals, locals, fromlist, level)
        finally:
            p.noyield -= 1

    builtins.__import__ = sim_import
    R.import_module = importlib.import_module

    def sim_import_module(name, package=None):
        p = cur()
        if p is None:
            return R.import_module(name, package)
        p.noyield += 1
        try:
            importlib.invalidate_caches()
            return R.import_module(name, package)
        finally:
            p.noyield -= 1

    importlib.import_module = sim_import_module

    def hook(u):
        p = cur()
        if p is not None:
            if not isinstance(u.exc_value, SimCrash) and not p.dead:
                p.err.write('Exception ignored: %r\n' % (u.exc_value,))
                p.unraisable.append(repr(u.exc_value))
        elif not isinstance(u.exc_value, SimCrash) and WORLD is None:
            sys.__unraisablehook__(u)

    sys.unraisablehook = hook
    sys.dont_write_bytecode = True
    _saved_argv, _saved_syspath = ['sim'], [x for x in sys.path if x and not x.startswith(REPO)]
    sys.path[:] = _saved_syspath
    for m in list(sys.modules):
        if m.split('.')[0] in ('getdist', 'paramgrid', 'planck'):
            del sys.modules[m]
    _saved_std = (sys.stdout, sys.stderr)
    sys.modules.setdefault('__main__', types.ModuleType('__main__'))
    _base_modules = dict(sys.modules)
    gc.collect()
    gc.freeze()


_names = [None]


def _tmpnames():
    if _names[0] is None:
        _names[0] = _Names()
    return _names[0]


def _forbidden(name, orig):
    def f(*a, **k):
        p = cur()
        if p is None:
            return orig(*a, **k)
        if p.dead:
            raise SimCrash()
        p.world.escapes.append((p.name, name, repr(a)))
        raise PermissionError(errno.EPERM, 'os.%s is not simulated' % name)

    return f


def _wrap_symlink():
    orig = os.symlink

    def symlink(src, dst, target_is_directory=False, *, dir_fd=None):
        p = cur()
        if p is None:
            return orig(src, dst)
        ap = _abs(p, dst)
        f = p.world.point(p, 'symlink', ap)
        if f is not None and f['kind'] in ('enospc', 'eio', 'eacces'):
            raise oserr(f, ap)
        _check_mut(p.world, p, 'symlink', ap)
        r = orig(src, dst)
        _stamp_new(p.world, p, ap)
        return r

    return symlink


ENV = {}


def activate(world):
    """Makes world the active world: environment, scratch directories."""
    global WORLD
    install_env(world)
    WORLD = world


def install_env(world):
    import numpy as np
    for k in list(os.environ):
        if k.startswith('COSMOMC') or k in ('GETDIST_CONFIG', 'TMPSMALL', 'SGE_CLUSTER_NAME', 'HOSTNAME'):
            del os.environ[k]
    os.environ.update(USER='simuser', LOGNAME='simuser', HOME=world.root + '/home', PATH=world.root + '/bin',
                      XDG_CACHE_HOME=world.root + '/cache', TMPDIR=world.root + '/tmp', LANG='C.UTF-8', TZ='UTC')
    world.root_real = R.realpath(world.root)
    tempfile.tempdir = None
    _names[0] = None
    tempfile._name_sequence = None
    random.seed(12345)
    np.random.seed(12345)


def deactivate():
    global WORLD
    WORLD = None
    R.chdir('/')
