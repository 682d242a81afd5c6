#!/usr/bin/env python3
"""tools/runseeds.py [seed ...]: applies each planted bug to /repo, runs the check of its
property, undoes the change."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, 'seeded')
for sid in sys.argv[1:] or sorted(os.listdir(S)):
    d = os.path.join(S, sid)
    pid = json.load(open(os.path.join(d, 'meta.json')))['property']
    if not os.path.exists(os.path.join(HERE, 'contracts', pid.lower() + '.py')):
        print(sid, pid, 'no contracts yet')
        continue
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'])
    subprocess.check_call(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')])
    t = time.time()
    try:
        r = subprocess.run(['python3-vt', 'check.py', pid], cwd=HERE, capture_output=True, text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    lines = r.stdout.splitlines()
    v = [x for x in lines if x.startswith('VIOLATION')]
    nf = sum(x.startswith('FAILED OBL') for x in lines)
    ni = sum(x.startswith('FAILING INP') for x in lines)
    un = sum(x.startswith(('UNDEC', 'UNKNOWN')) for x in lines)
    print(f"{sid:22s} {pid} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'}"
          f" obligations={nf} inputs={ni} undecided={un} {time.time()-t:.0f}s"
          f" {'no-input' if v and v[-1].endswith('found') else ''}", flush=True)
