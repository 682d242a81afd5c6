#!/usr/bin/env python3
"""Runs one battery on the real code: run.py c06 [--json] [--only CASE]"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.dont_write_bytecode = True

ap = argparse.ArgumentParser()
ap.add_argument('battery')
ap.add_argument('--json', action='store_true')
ap.add_argument('--only')
a = ap.parse_args()

import harness                                           # noqa
try:
    import sparse_ir                                     # noqa
    assert os.path.realpath(sparse_ir.__file__).startswith(os.path.realpath(REPO)), \
        sparse_ir.__file__
except BaseException:
    print(json.dumps(dict(error=traceback.format_exc(), code_broken=True, cases=0, evals=0,
                          failures=[], samples=[])))
    sys.exit(2)
mod = importlib.import_module(a.battery)
res = harness.run(mod, a.only)
if a.json:
    print(json.dumps(res))
else:
    for f in res['failures']:
        print('FAIL', f['case'], f['key'], f['msg'])
    for c, s in res['times'].items():
        print(f"{s:7.2f} s  {c}")
    print({k: v for k, v in res.items() if k not in ('failures', 'samples', 'times')})
sys.exit(1 if res['failures'] else 0)
