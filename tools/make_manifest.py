"""Writes MANIFEST.json from the list of claimed properties (those with a module in sim/props)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
meta = json.load(open(V + '/sim/meta.json'))
NA = {
    'C30': 'Accuracy of density estimates is a numerical property of pure functions of one sample set: it depends on no schedule, clock, '
           'I/O, crash or other party, so simulating faults cannot decide it.',
    'C31': 'The sampler is Fortran and needs a Fortran compiler, MPI and CAMB, none of which is in this sandbox; it cannot be run under a '
           'simulator here, and no Python code implements it.',
    'C32': 'Rendering of figures and tables is a pure function of results already in memory; no concurrency, time, I/O fault or other '
           'party is involved (writing the rendered text to disk is part of C15).',
    'C33': 'The GUI needs PySide/Qt, which is not installed, so its event loop cannot be run or put under a simulated scheduler here.',
}
PENDING = 'No check has been built for it yet.'
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/sim/props/%s.py' % (V, i.lower())):
        m = meta.get(i, {})
        checks.append(dict(
            property=i, quick_cmd='/opt/venv/bin/python -m sim.check %s --tier quick' % i,
            thorough_cmd='/opt/venv/bin/python -m sim.check %s --tier thorough' % i,
            technique='deterministic simulation with fault injection: ' + m.get('technique', 'seeded search over schedules and faults against a reference model'),
            level='exploration', level_note=m.get('level_note', 'Seeded search; no claim beyond the runs explored. See DESIGN.md.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the simulator replaces the Python and operating-system interfaces the code already uses.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
