"""Worker interpreter: python -m sim.worker <mode> ... (started by sim.check with a fixed PYTHONHASHSEED)."""
import faulthandler
import json
import os
import sys


def drop_privileges():
    """Code under test runs unprivileged where that is possible: an escaped call reaches nothing real."""
    if os.getuid() != 0 or os.environ.get('SIM_KEEP_ROOT'):
        return
    uid = 65534
    pid = os.fork()
    if pid == 0:
        try:
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
            ok = os.access(os.environ.get('SIM_REPO', '/repo') + '/python/getdist/chains.py', os.R_OK) and \
                os.access('/verif/sim/core.py' if os.path.exists('/verif/sim/core.py') else __file__, os.R_OK) and \
                os.access(sys.executable, os.X_OK)
            os._exit(0 if ok else 1)
        except BaseException:
            os._exit(1)
    _, st = os.waitpid(pid, 0)
    if st == 0:
        os.setgroups([])
        os.setgid(uid)
        os.setuid(uid)


def main():
    faulthandler.enable()
    job = json.loads(sys.stdin.readline())
    out = os.fdopen(os.dup(1), 'w', buffering=1)

    os.setpgrp()
    drop_privileges()
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from sim import core, engine
    mod = engine.load(job['prop'])
    if hasattr(mod, 'preload'):
        mod.preload()
    core.install()
    for m in list(core._base_modules):
        pass
    write = out.write

    def emit(rec):
        write(json.dumps(rec) + '\n')

    if job['mode'] == 'search':
        engine.search(mod, job['prop'], job['seed'], range(job['k'], job['count'], job['n']), job['tier'], job['deadline'], emit)
        emit(dict(t='done'))
    elif job['mode'] == 'minimise':
        rep = engine.minimise(mod, job['replay'], job['sig'], job.get('budget', 60))
        emit(dict(t='min', replay=rep))
    elif job['mode'] == 'replay':
        r = job['replay']
        if r.get('rng') is not None:  # a run that did not end: its schedule is known only by the generator's state
            import random
            ch = core.Choices(rng=random.Random(r['rng']), p_switch=r['p_switch'])
        else:
            ch = core.Choices(schedule=r['schedule'], faults=r['faults'])
        res = engine.run_once(mod, r['scenario'], ch, r['tag'])
        emit(dict(t='replayed', violations=res.violations, digest=res.digest, harness=res.harness, steps=res.steps,
                  switches=res.switches, faults=res.faults, notes=res.notes, simtime=res.simtime,
                  trace=[list(x) for x in res.points] if job.get('trace') else None))
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
