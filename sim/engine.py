"""Runs one property's simulated executions: search, fault variants, minimisation, replay."""
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback

from . import core
from .core import Choices, R


class Result:
    def __init__(self):
        self.violations = []  # (sig, text)
        self.harness = []
        self.notes = {}  # counters a property wants in its evidence
        self.nontrivial = False
        self.state = None  # extra digest of the final state
        self.ran = None
        self.injected = {}  # faults injected by the property itself (not at a file or process step)

    def violate(self, sig, text):
        self.violations.append((sig, text))

    def inject(self, k):
        self.injected[k] = self.injected.get(k, 0) + 1

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n


def load(prop):
    return importlib.import_module('sim.props.' + prop.lower())


def run_once(mod, scenario, choices, tag, keep_trace=True):
    """One simulated execution -> Result with world figures attached."""
    res = Result()
    t0 = R.time()
    res.worlds = []
    try:
        mod.execute(scenario, choices, tag, res)
    except core.SimError:
        res.harness.append(traceback.format_exc())
    except Exception:
        res.harness.append(traceback.format_exc())
    finally:
        if core.WORLD is not None:
            try:
                core.deactivate()
            except Exception:
                pass
    h = hashlib.blake2b(digest_size=12)
    res.steps = res.switches = 0
    res.simtime = 0.0
    res.faults = dict(res.injected)
    res.points = []
    for w in res.worlds:
        h.update(w.digest().encode())
        res.steps += w.steps
        res.switches += w.switches
        res.simtime += w.now - w.start - w.jumps
        for k, v in w.faults_fired.items():
            res.faults[k] = res.faults.get(k, 0) + v
        res.harness += w.harness_errors
        if keep_trace:
            res.points += w.trace
    h.update(repr(res.state).encode())
    res.digest = h.hexdigest()
    res.recorded = dict(choices.recorded)
    res.wall = R.time() - t0
    return res


def track(res, world):
    res.worlds.append(world)
    return world


def tag_for(prop, seed, i):
    return prop + '-' + hashlib.md5(('%s/%s/%s' % (prop, seed, i)).encode()).hexdigest()[:8]


def rng_for(*parts):
    return random.Random(int.from_bytes(hashlib.blake2b('/'.join(map(str, parts)).encode(), digest_size=8).digest(), 'big'))


def search(mod, prop, seed, indices, tier, deadline, emit):
    """Runs scenario i for each index; emits one record per execution."""
    for i in indices:
        if R.time() > deadline:
            break
        rng = rng_for(prop, seed, i)
        scenario = json.loads(json.dumps(mod.generate(rng, tier, i)))  # (as it is replayed)
        p_switch = rng.choice(getattr(mod, 'P_SWITCH', [0.05, 0.15, 0.35, 0.6]))
        base_rng = getattr(mod, 'CONCURRENT', True)
        tag = tag_for(prop, seed, i)
        bseed = rng.random()
        emit(dict(t='start', i=i, replay=dict(scenario=scenario, schedule={}, faults={}, tag=tag, rng=bseed if base_rng else None, p_switch=p_switch)))
        ch = Choices(rng=random.Random(bseed) if base_rng else None, p_switch=p_switch)
        res = run_once(mod, scenario, ch, tag)
        record(emit, i, 0, scenario, {}, res, tag)
        if i < 16 and getattr(mod, 'SELFTEST', True):
            r2 = run_once(mod, scenario, Choices(schedule=res.recorded), tag)
            emit(dict(t='selftest', i=i, same=(r2.digest == res.digest and [v[0] for v in r2.violations] == [v[0] for v in res.violations])))
        if res.violations or res.harness or not hasattr(mod, 'faults'):
            continue
        plans = mod.faults(rng, scenario, res, tier)
        for k, plan in enumerate(plans):
            if R.time() > deadline:
                break
            emit(dict(t='start', i=i, k=k + 1, replay=dict(scenario=scenario, schedule=res.recorded, faults=plan, tag=tag)))
            ch = Choices(schedule=res.recorded, faults=plan)
            r = run_once(mod, scenario, ch, tag, keep_trace=False)
            record(emit, i, k + 1, scenario, plan, r, tag)
            if r.violations:
                break


def record(emit, i, k, scenario, faults, res, tag):
    rec = dict(t='run', i=i, k=k, steps=res.steps, switches=res.switches, simtime=res.simtime, faults=res.faults,
               digest=res.digest, nontrivial=bool(res.nontrivial or res.switches or res.faults), notes=res.notes, wall=res.wall,
               state=res.state)
    if res.harness:
        rec['harness'] = res.harness[:2]
        rec['scenario'] = scenario
        rec['fl'] = faults
    if res.violations:
        rec['violations'] = res.violations[:8]
        rec['replay'] = dict(scenario=scenario, schedule=res.recorded, faults=faults, tag=tag)
    elif i < 2 and k <= 1:
        rec['sample'] = dict(scenario=scenario, switches=res.recorded, faults=faults)
    emit(rec)


# --------------------------------------------------------------------------------------------------------------------
def minimise(mod, rep, sig, budget_s=60, max_runs=300):
    """Delta debugging over scenario, faults and schedule; keeps the same violation signature."""
    end = R.time() + budget_s
    n = [0]

    def fails(c):
        if n[0] >= max_runs or R.time() > end:
            return False
        n[0] += 1
        r = run_once(mod, c['scenario'], Choices(schedule=c['schedule'], faults=c['faults']), c['tag'], keep_trace=False)
        return any(v[0] == sig for v in r.violations) and not r.harness

    cur = json.loads(json.dumps(rep))
    changed = True
    while changed and R.time() < end and n[0] < max_runs:
        changed = False
        for k in list(cur['faults']):
            c = dict(cur, faults={a: b for a, b in cur['faults'].items() if a != k})
            if fails(c):
                cur, changed = c, True
        keys = list(cur['schedule'])
        size = max(1, len(keys))
        while size >= 1 and keys:
            j = 0
            while j < len(keys):
                drop = set(keys[j:j + size])
                c = dict(cur, schedule={a: b for a, b in cur['schedule'].items() if a not in drop})
                if fails(c):
                    cur, changed = c, True
                    keys = [k for k in keys if k not in drop]
                else:
                    j += size
            if size == 1:
                break
            size //= 2
        if hasattr(mod, 'shrink'):
            progress = True
            while progress and R.time() < end and n[0] < max_runs:
                progress = False
                for s in mod.shrink(cur['scenario']):
                    c = dict(cur, scenario=json.loads(json.dumps(s)))
                    if fails(c):
                        cur, changed, progress = c, True, True
                        break
    cur['minimise_runs'] = n[0]
    return cur


def drop_each(seq):
    for j in range(len(seq)):
        yield seq[:j] + seq[j + 1:]
