"""setup_cmd: checks that the interpreter, the code under test and the simulator are usable; nothing has to be built."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import numpy, scipy, six  # noqa
import sim.core, sim.engine  # noqa

for d in ('evidence', 'out'):
    os.makedirs(os.path.join(V, d), exist_ok=True)
repo = os.environ.get('SIM_REPO', '/repo')
assert os.path.exists(repo + '/python/getdist/mcsamples.py'), 'no code under test in ' + repo
print('ready: python %s, numpy %s, scipy %s' % (sys.version.split()[0], numpy.__version__, scipy.__version__))
