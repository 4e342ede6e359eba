"""Development tool: (re)generates and verifies seeded/<id>/ from tools/seeds/<id>.py. Usage: seeds.py [ID...] [--tests] [--check]
Each description has: property, file, edits [(old, new)], needs, what_it_breaks, demo (python text using gridlib)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = HERE + '/../seeded'
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def make(sid, scratch):
    d = runpy.run_path(HERE + '/seeds/%s.py' % sid)
    sh(['git', '-C', scratch, 'checkout', '-q', '--', '.'])
    out = os.path.join(OUT, sid)
    os.makedirs(out, exist_ok=True)
    shutil.copy(HERE + '/gridlib.py', out)
    with open(out + '/demo.py', 'w') as f:
        f.write(d['demo'].lstrip('\n'))
    with open(out + '/demo.sh', 'w') as f:
        f.write(SH)
    os.chmod(out + '/demo.sh', 0o755)
    with open(out + '/meta.json', 'w') as f:
        json.dump({k: d[k].strip() for k in ('property', 'needs', 'what_it_breaks')}, f, indent=1)
    r0 = sh(['bash', out + '/demo.sh'], cwd=scratch)
    edits = d['edits'] if isinstance(d['edits'], dict) else {d['file']: d['edits']}
    for file, es in edits.items():
        p = scratch + '/' + file
        s = open(p).read()
        for old, new in es:
            if s.count(old) != 1:
                print(sid, 'EDIT MATCHES %d TIMES: %r' % (s.count(old), old))
                return False
            s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = sh(['git', '-C', scratch, 'diff']).stdout
    open(out + '/patch.diff', 'w').write(diff)
    r1 = sh(['bash', out + '/demo.sh'], cwd=scratch)
    ok = r0.returncode == 0 and r1.returncode not in (0, None)
    # the patch must change original lines
    print('%s %s: clean %d, patched %d%s' % (sid, d['property'], r0.returncode, r1.returncode, '' if ok else '   <<<<<< BAD'))
    if not ok or '-v' in sys.argv:
        print('  clean:', (r0.stdout + r0.stderr)[-1500:])
        print('  patched:', (r1.stdout + r1.stderr)[-1500:])
    elif r1.stdout.strip().startswith('FAILED') is False:
        print('   patched says:', (r1.stdout + r1.stderr)[-300:])
    return ok


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(f[:-3] for f in os.listdir(HERE + '/seeds') if f.endswith('.py'))
    tmp = tempfile.mkdtemp(prefix='seedcopy-')
    scratch = tmp + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', scratch], check=True)
    bad = []
    try:
        for sid in ids:
            if not make(sid, scratch):
                bad.append(sid)
    finally:
        shutil.rmtree(tmp)
    print('bad:', bad)


main()
