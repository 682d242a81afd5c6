#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]: decides one property.

1. deductive part: loads /repo's current source, runs the contracts of
   contracts/cxx.py through the symbolic execution engine and discharges every
   obligation (z3 / ring normaliser);
2. runtime part: runs the battery rt/cxx.py on the real code (bounded
   cross-check, and source of failing inputs for failed obligations).
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = '/opt/venv/bin/python'
NPROC = 8


def scenario_worker(pid, name, tier, deadline, q, scale=1):
    os.environ['OMP_NUM_THREADS'] = '1'
    sys.setrecursionlimit(20000)
    t = time.time()
    try:
        from engine import load, scenario, prover, symnp, terms, runtime
        prover.SCALE = scale
        mod = importlib.import_module('contracts.' + pid.lower())
        sc = [s for s in mod.SCENARIOS if s.name == name][0]
        keys = [lc.key for lc in sc.loops]
        L = load.Loader(keys)
        for m in load.MODULES:
            L.load(m)
        tmo = sc.timeout or 10000
        pr = prover.Prover(tmo if tier == 'quick' else 3 * tmo)
        if tier == 'thorough':
            from engine import crosscheck
            pr.crosscheck = crosscheck.Cross()
        res = scenario.Result()
        scenario.run_scenario(sc, L, pr, res, deadline)
        missing = [k for k in keys if k not in L.seen_loops]
        if missing:
            res.undecided.append((name, f"loop contract without loop: {missing}"))
        obls = [dict(label=o.label, auto=o.auto, status=o.status, backend=o.backend,
                     secs=round(o.secs, 3), detail=str(o.detail)[:1500]) for o in pr.obls]
        q.put(dict(name=name, obls=obls, undecided=res.undecided, paths=res.paths,
                   solver=pr.solver_time, queries=pr.queries, secs=time.time() - t,
                   trusted=sorted(symnp.TRUSTED), functions=sc.functions,
                   loops=[list(map(str, k)) for k in keys],
                   cross=pr.crosscheck.summary() if pr.crosscheck else None))
    except BaseException as e:                   # noqa
        import traceback
        q.put(dict(name=name, obls=[], undecided=[(name, f"{type(e).__name__}: {e}"[:500])],
                   paths=0, solver=0, queries=0, secs=time.time() - t, trusted=[],
                   functions=[], loops=[], cross=None,
                   trace=traceback.format_exc()[-1500:]))


def run_scenarios(pid, tier, budget, only=None, scale=1, nproc=NPROC - 1):
    try:
        mod = importlib.import_module('contracts.' + pid.lower())
    except ModuleNotFoundError as e:
        if 'contracts.' not in str(e):
            raise
        return [], None
    ctxm = mp.get_context('fork')
    deadline = time.time() + budget
    todo = [s.name for s in mod.SCENARIOS if only is None or s.name in only]
    running, out = {}, []
    while todo or running:
        while todo and len(running) < nproc:
            n = todo.pop(0)
            q = ctxm.Queue()
            p = ctxm.Process(target=scenario_worker, args=(pid, n, tier, deadline, q, scale))
            p.start()
            running[n] = (p, q)
        time.sleep(0.05)
        for n, (p, q) in list(running.items()):
            r = None
            if not q.empty():
                r = q.get()
            elif not p.is_alive():
                time.sleep(0.1)
                r = q.get() if not q.empty() else dict(
                    name=n, obls=[], undecided=[(n, 'verifier process died')], paths=0, solver=0,
                    queries=0, secs=0, trusted=[], functions=[], loops=[], cross=None)
            elif time.time() > deadline + 60:
                p.kill()
                r = dict(name=n, obls=[], undecided=[(n, 'time limit')], paths=0, solver=0,
                         queries=0, secs=0, trusted=[], functions=[], loops=[], cross=None)
            if r is not None:
                out.append(r)
                p.join(1)
                if p.is_alive():
                    p.kill()
                del running[n]
    return out, mod


def start_battery(pid, tier, seed):
    f = os.path.join(HERE, 'rt', pid.lower() + '.py')
    if not os.path.exists(f):
        return None
    env = dict(os.environ)
    env.update(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1', VERIF_TIER=tier, VERIF_SEED=str(seed))
    return subprocess.Popen([VENV, os.path.join(HERE, 'rt', 'run.py'), pid.lower(), '--json'],
                            cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                            text=True, start_new_session=True)


def end_battery(p, limit):
    if p is None:
        return None
    try:
        o, e = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return dict(error='battery timed out', cases=0, evals=0, failures=[], samples=[])
    for line in reversed(o.splitlines()):
        if line.startswith('{'):
            try:
                return json.loads(line)
            except ValueError:
                break
    return dict(error=(e or o)[-1500:], rc=p.returncode, cases=0, evals=0, failures=[], samples=[])


def known():
    f = os.path.join(HERE, 'known_findings.json')
    return json.load(open(f))['findings'] if os.path.exists(f) else []


def settled(s):
    return not s['undecided'] and all(o['status'] == 'proved' for o in s['obls'])


def better(s, r):
    """the second attempt, unless it was cut short where the first was not"""
    if r is None or (r['undecided'] and not s['undecided']):
        return s
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 200 if tier == 'quick' else 2400
    bat = start_battery(pid, tier, seed)
    scs, mod = run_scenarios(pid, tier, budget)
    b = end_battery(bat, max(30, (420 if tier == 'quick' else 3000) - (time.time() - t0)))

    # what was not discharged is tried once more, fewer at a time and with
    # longer limits, so that a loaded machine does not decide the outcome
    again = [s['name'] for s in scs if not settled(s)]
    if again and not (b and (b['failures'] or b.get('code_broken'))):
        redo, _ = run_scenarios(pid, tier, budget, again, 4, 4)
        redo = {s['name']: s for s in redo}
        scs = [better(s, redo.get(s['name'])) for s in scs]

    obls = [dict(o, scenario=s['name']) for s in scs for o in s['obls']]
    undec = [u for s in scs for u in s['undecided']]
    failed = [o for o in obls if o['status'] == 'refuted' or
              (o['status'] == 'unknown' and ('normal forms differ' in o['detail'] or
                                             'countermodel modulo sums' in o['detail']))]
    unknown = [o for o in obls if o['status'] == 'unknown' and o not in failed]
    disch = [o for o in obls if o['status'] == 'proved']
    kf = [k for k in known() if k['property'] == pid and k['status'] == 'known']

    fails, knownhit = [], []
    if b:
        for f in b['failures']:
            hit = [k for k in kf if k['key'] == f['key']]
            (knownhit if hit else fails).append(f)
    kfo = {k['key'] for k in kf}
    ofail = [o for o in failed if o['label'] not in kfo]
    knowno = [o for o in failed if o['label'] in kfo]

    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, f"{pid}.json")
    viol = None
    broken = bool(b and b.get('error'))
    if fails or (broken and b.get('code_broken')):
        viol = f"VIOLATION property={pid} replay={replay}"
    elif ofail:
        viol = f"VIOLATION property={pid} replay={replay} no-failing-input-found"
    with open(replay, 'w') as f:
        json.dump(dict(property=pid, failing_inputs=fails[:20], failed_obligations=ofail[:40],
                       undecided=undec[:20], battery_error=b.get('error') if b else None,
                       replay_command=f"OPENBLAS_NUM_THREADS=1 {VENV} {HERE}/rt/run.py "
                       f"{pid.lower()} " + (f"--only {fails[0]['case']}" if fails else '')),
                  f, indent=1)

    # ---- evidence
    backs = {}
    for o in disch:
        backs[o['backend']] = backs.get(o['backend'], 0) + 1
    funcs = sorted({x for s in scs for x in s['functions']})
    trusted = sorted({x for s in scs for x in s['trusted']})
    try:
        from engine.load import SRC
        srchash = {m: hashlib.sha256(open(os.path.join(SRC, m + '.py'), 'rb').read())
                   .hexdigest()[:16] for m in sorted({f.split('.')[0] for f in funcs})}
    except OSError as e:
        srchash = {'error': str(e)}
    level = getattr(mod, 'LEVEL', 'proof') if mod else 'other'
    base = ["arithmetic on floats is treated as exact real arithmetic (rounding not modelled; "
            "overflow and division by zero are)",
            "z3 5.3, the ring normaliser engine/ring.py and the shim numpy engine/symnp.py"]
    cov = dict(
        obligations=len(obls), discharged=len(disch),
        undecided=[dict(scenario=u[0], reason=u[1]) for u in undec],
        unknown=[o['label'] for o in unknown],
        checker_cmd=f"python3-vt check.py {pid} --tier {tier}",
        trusted_base=base + trusted + (list(getattr(mod, 'ASSUMED', [])) if mod else []),
        functions_under_contract=funcs, backends=backs,
        by_scenario={s['name']: dict(paths=s['paths'], obligations=len(s['obls']),
                                     solver_s=round(s['solver'], 2), queries=s['queries'],
                                     secs=round(s['secs'], 2), loops=s['loops'],
                                     cross=s['cross']) for s in scs},
        solver_s=round(sum(s['solver'] for s in scs), 2),
        source_sha256=srchash,
        bounded=dict(label='bounded runtime contract checking on the real code '
                           '(not counted as proved)',
                     cases=b['cases'] if b else 0, evaluations=b['evals'] if b else 0,
                     error=b.get('error') if b else None,
                     notes=list(getattr(mod, 'BOUNDED', [])) if mod else []),
        samples=(b['samples'][:5] if b else []) + [o['label'] for o in disch[:5]],
        explanation=(getattr(mod, 'EXPLAIN', '') if mod else '') or
        "obligations over all inputs discharged per function; battery bounded",
        evaluations=b['evals'] if b else 0,
        distinct_nontrivial=b.get('distinct', 0) if b else 0,
        rule="battery: distinct (case, input) pairs whose expected value is not trivially zero",
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=base + trusted, wall_s=round(time.time() - t0, 2),
              violations=len(fails) + len(ofail))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    # ---- report
    print(f"{pid} [{tier}]: {len(disch)}/{len(obls)} obligations discharged on "
          f"{sum(s['paths'] for s in scs)} paths ({backs}), "
          f"battery {b['cases'] if b else 0} cases / {b['evals'] if b else 0} evaluations, "
          f"{time.time() - t0:.1f} s")
    for u in undec[:10]:
        print(f"UNDECIDED {u[0]}: {u[1]}")
    for o in unknown[:10]:
        print(f"UNKNOWN {o['label']}: {o['detail'][:300]}")
    for o in ofail[:10]:
        print(f"FAILED OBLIGATION {o['label']}: {o['detail'][:500]}")
    for f in fails[:10]:
        print(f"FAILING INPUT {f['case']} {f['key']}: {f['msg'][:500]}")
    for k in kf:
        if any(f['key'] == k['key'] for f in knownhit) or any(
                o['label'] == k['key'] for o in knowno):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if broken:
        print(f"BATTERY ERROR: {b['error'][-800:]}")
    if viol:
        print(viol)
        sys.exit(1)
    if broken:
        sys.exit(3)
    if not scs and not b:
        print("nothing was checked")
        sys.exit(3)
    if os.environ.get('VERIF_STRICT') and (undec or unknown):
        sys.exit(4)
    sys.exit(0)


if __name__ == '__main__':
    main()
