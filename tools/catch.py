"""Development tool: runs the checks on scratch copies with a planted change. catch.py [ID...] [--budget S]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
budget = '60'
if '--budget' in args:
    k = args.index('--budget')
    budget = args[k + 1]
    del args[k:k + 2]
other = None
if '--prop' in args:
    k = args.index('--prop')
    other = args[k + 1].split(',')
    del args[k:k + 2]
ids = args or sorted(os.listdir(V + '/seeded'))
tmp = tempfile.mkdtemp(prefix='catch-')
repo = tmp + '/repo'
subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
os.chmod(tmp, 0o755)
missed = []
for sid in ids:
    meta = json.load(open(V + '/seeded/%s/meta.json' % sid))
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
    subprocess.run(['git', '-C', repo, 'apply', V + '/seeded/%s/patch.diff' % sid], check=True)
    for prop in other or [meta['property']]:
        t = time.time()
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'sim.check', prop, '--budget', budget], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, SIM_REPO=repo, SIM_OUT=tmp + '/out'))
        hit = 'VIOLATION property=%s ' % prop in r.stdout and r.returncode == 1
        print('%-28s %s %s %5.1fs  %s' % (sid, prop, 'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode, time.time() - t,
                                          (r.stdout.strip().split('\n') or [''])[0][:170]), flush=True)
        if not hit:
            missed.append(sid)
            print((r.stdout[-300:] + r.stderr[-300:]))
shutil.rmtree(tmp)
print('missed:', missed)
