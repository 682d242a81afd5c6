#!/usr/bin/env python3
"""tools/seeds.py [id ...]: (re)creates planted bugs from tools/seedlist.py and confirms them
in scratch copies of /repo: demo passes without and fails with the change, and the
stable tests still pass.  Nothing here is used by the checks."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seedlist import SEEDS
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
export OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def one(s):
    sid, pid, fn, subs, demo, needs, breaks = s
    d = os.path.join(HERE, 'seeded', sid)
    w = f'/tmp/seedwork/{sid}'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w)
    p = os.path.join(w, 'src/sparse_ir', fn)
    text = open(p).read()
    for old, new in subs:
        if text.count(old) != 1:
            return sid, f'pattern occurs {text.count(old)} times: {old!r}'
        text = text.replace(old, new)
    open(p, 'w').write(text)
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    json.dump(dict(property=pid, needs=needs, what_it_breaks=breaks),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    a = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', env=env,
                       capture_output=True, text=True)
    env['PYTHONPATH'] = os.path.join(w, 'src')
    b = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=w, env=env,
                       capture_output=True, text=True)
    r = f"clean={a.returncode} bug={b.returncode}"
    if a.returncode:
        r += ' CLEAN FAILS: ' + a.stderr[-300:]
    if not b.returncode:
        r += ' NOT DETECTED BY DEMO'
    elif 'AssertionError' not in b.stderr:
        r += ' (' + b.stderr.strip().splitlines()[-1][:100] + ')'
    if a.returncode == 0 and b.returncode:
        t = subprocess.run([PY, '-m', 'pytest', 'test', '-q', '-p', 'no:cacheprovider', '-x'],
                           cwd=w, env=env, capture_output=True, text=True)
        r += f" tests={t.returncode} {t.stdout.strip().splitlines()[-1][:90]}"
        if t.returncode:
            r += ' TESTS FAIL: ' + ' '.join(x for x in t.stdout.splitlines()
                                          if x.startswith('FAILED'))[:200]
    shutil.rmtree(w, ignore_errors=True)
    if 'FAIL' in r or 'NOT DET' in r:
        shutil.rmtree(d)
    return sid, r


want = sys.argv[1:]
todo = [s for s in SEEDS if not want or s[0] in want]
with ThreadPoolExecutor(6) as ex:
    for sid, r in ex.map(one, todo):
        print(sid, r, flush=True)
