"""Replay / bounded search driver.

  run.py PNN --seed N --tier quick|thorough [--max-s S] --out OUT.json     search for a failing case
  run.py PNN --case FILE.json                                               replay one case
"""
import argparse
import collections
import importlib
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base                     # noqa: E402
import random                   # noqa: E402
import signal                   # noqa: E402


def run_one(mod, case, limit=20):
    """None or the explanation of a failure."""
    signal.alarm(limit)
    try:
        return None, mod.run(case)
    except base.Fail as e:
        return 'contract broken: %s' % e, None
    except base.Timeout:
        return 'no termination within %d s' % limit, None
    except Exception as e:      # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1]
        # any unexpected exception of the code under test is a failure of the case
        return 'unexpected exception %s: %s (%s:%s)' % (type(e).__name__, e, os.path.basename(where.filename), where.lineno), None
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--max-s', type=float, default=120)
    ap.add_argument('--out')
    ap.add_argument('--case')
    ap.add_argument('--n', type=int)
    a = ap.parse_args()
    mod = importlib.import_module(a.prop.lower())
    if a.case:
        doc = json.load(open(a.case))
        case = doc.get('case', doc)
        why, _ = run_one(mod, case)
        print('case:', json.dumps(case))
        print('REPRODUCED: %s' % why if why else 'holds on this case')
        return 1 if why else 0
    t0 = time.time()
    rng = random.Random('%s/%d' % (a.prop, a.seed))
    n = a.n or mod.N.get(a.tier, mod.N['quick'])
    devnull = open(os.devnull, 'w')
    real_out = sys.stdout
    kinds = collections.Counter()
    seen = set()
    evals = nontriv = 0
    samples = []
    fails = []
    complete = True

    def stream():
        for c in mod.fixed():
            yield c
        for _ in range(n):
            yield mod.gen(rng)
    for case in stream():
        if time.time() - t0 > a.max_s:
            complete = False
            break
        sys.stdout = devnull
        try:
            why, kind = run_one(mod, case)
        finally:
            sys.stdout = real_out
        evals += 1
        kinds[str(kind)] += 1
        key = json.dumps(case, sort_keys=True)
        if key not in seen:
            seen.add(key)
            if mod.nontrivial(case):
                nontriv += 1
        if len(samples) < 3 and mod.nontrivial(case) and rng.random() < 0.05:
            samples.append(case)
        if why:
            fails.append(dict(why=why, case=case))
            if len(fails) >= 5:
                break
    res = dict(property=a.prop, evaluations=evals, distinct_nontrivial=nontriv, outcomes=dict(kinds), samples=samples or [case],
               rule=mod.RULE, fails=fails, complete=complete, wall_s=round(time.time() - t0, 2))
    if a.out:
        json.dump(res, open(a.out, 'w'), default=str)
    else:
        print(json.dumps({k: v for k, v in res.items() if k != 'samples'}, indent=1, default=str)[:6000])
    return 1 if fails else 0


if __name__ == '__main__':
    sys.exit(main())
