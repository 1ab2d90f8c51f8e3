#!/usr/bin/env python3
"""check.py PNN [--tier quick|thorough]: decides one property on /repo's current working tree.

 1. pyvc/prove.py (python3-vt + z3): generates the proof obligations of every function under contract the property depends
    on from the current source and discharges them;
 2. replay/run.py (the repository's interpreter): evaluates the same property on the real code over generated cases - it looks
    for the concrete input of a refuted obligation and is the labelled bounded stand-in of what is not under contract.

Exit 0: held on everything explored. Exit 1 + "VIOLATION property=<id> replay=<path> [no-failing-input-found]": broken.
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
import levels       # noqa: E402
EVID = os.path.join(HERE, 'evidence')
PY = '/opt/venv/bin/python'
PYVT = 'python3-vt'
BUDGET = dict(quick=dict(prove=330, search=100, extended=150), thorough=dict(prove=3000, search=1500, extended=900))


def start_search(prop, seed, tier, max_s, out, n=None):
    cmd = [PY, '-B', os.path.join(HERE, 'replay', 'run.py'), prop, '--seed', str(seed), '--tier', tier, '--max-s', str(max_s), '--out', out]
    if n:
        cmd += ['--n', str(n)]
    return cmd, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=HERE)


def finish(proc, limit):
    try:
        _, err = proc.communicate(timeout=limit)
        return proc.returncode, err or ''
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.communicate()
        return None, 'time limit'


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-search', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in BUDGET else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    bud = BUDGET[tier]
    t0 = time.time()
    tmp = os.path.join(EVID, 'tmp')
    rep = os.path.join(EVID, 'replay')
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(rep, exist_ok=True)
    f_s, f_p = os.path.join(tmp, prop + '-search.json'), os.path.join(tmp, prop + '-prove.json')
    for f in (f_s, f_p):
        if os.path.exists(f):
            os.remove(f)
    has_proof = os.path.exists(os.path.join(HERE, 'pyvc', 'prove.py')) and not a.no_proof
    pcmd = [PYVT, '-B', os.path.join(HERE, 'pyvc', 'prove.py'), prop, '--tier', tier, '--max-s', str(bud['prove']), '--out', f_p]
    pproc = subprocess.Popen(pcmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=HERE) if has_proof else None
    scmd, sproc = start_search(prop, seed, tier, bud['search'] if not a.no_search else 0, f_s)
    rc, err = finish(sproc, bud['search'] + 60)
    search = load(f_s)
    problems = []
    violation = None
    if search is None:
        # the harness itself could not run: the package under test does not even load, which no property survives
        rc2 = subprocess.run([PY, '-B', '-c', 'import sys; sys.path.insert(0, %r); import footprints' % os.environ.get('VERIF_SRC', '/repo/src')],
                             capture_output=True, text=True)
        problems.append('search did not complete: %s' % err.strip()[-600:])
        if rc2.returncode:
            violation = dict(kind='the package cannot be imported', output=rc2.stderr[-2000:])
        search = dict(evaluations=0, distinct_nontrivial=0, rule='-', samples=[], fails=[], complete=False, wall_s=0, outcomes={})

    def confirm(fails):
        for i, f in enumerate(fails):
            path = os.path.join(rep, '%s-%d.json' % (prop, i))
            doc = dict(property=prop, why=f['why'], case=f['case'],
                       rerun='%s /verif/replay/run.py %s --case %s' % (PY, prop, path))
            with open(path, 'w') as fh:
                json.dump(doc, fh, indent=1, default=str)
            r = subprocess.run([PY, '-B', os.path.join(HERE, 'replay', 'run.py'), prop, '--case', path], capture_output=True, text=True, timeout=120)
            if r.returncode == 1 and 'REPRODUCED' in r.stdout:
                return path, f['why']
            problems.append('failing case not reproduced in a fresh process: %s' % f['why'])
        return None, None

    known = []
    path, why = confirm(search['fails'])
    proof = dict(obligations=0, discharged=0, functions=[], refuted=[], undecided=[], unsupported=[], bounded=[], assumptions=[], trusted_base=[], solver_s=0)
    if pproc is not None:
        # a concrete failing input decides: the proof is given some more time to name the obligations that fail
        prc, perr = finish(pproc, max(5, (100 if path else bud['prove'] + 60) - (time.time() - t0 if not path else 0)))
        doc = load(f_p)
        if doc is None:
            problems.append('proof run did not complete (%s): %s' % (prc, perr.strip()[-600:]))
        else:
            proof = doc
    ext = None
    if path is None and (proof['refuted'] or proof['undecided'] or proof['unsupported'] or violation):
        # an obligation is not discharged any more: look harder for an input before concluding
        if not violation:
            f_x = os.path.join(tmp, prop + '-extended.json')
            _, xproc = start_search(prop, seed + 1000, 'thorough', bud['extended'], f_x)
            finish(xproc, bud['extended'] + 60)
            ext = load(f_x)
            if ext and ext['fails']:
                path, why = confirm(ext['fails'])
    tail = ''
    if path is None and violation:
        path = os.path.join(rep, prop + '-import.json')
        json.dump(violation, open(path, 'w'), indent=1)
        why = violation['kind']
    if path is None and proof['refuted']:
        path = os.path.join(rep, prop + '-obligation.json')
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, kind='obligation discharged on the unchanged tree and refuted on this one',
                           obligations=proof['refuted'], rerun=' '.join(pcmd)), fh, indent=1, default=str)
        why = 'obligation %s refuted' % proof['refuted'][0].get('name')
        tail = ' no-failing-input-found'

    failed = [x['name'] + ' (refuted)' for x in proof['refuted']] + [x['name'] + ' (not discharged)' for x in proof['undecided']]
    if path and failed:
        with open(path) as fh:
            rdoc = json.load(fh)
        rdoc['failed_obligations'] = failed
        with open(path, 'w') as fh:
            json.dump(rdoc, fh, indent=1, default=str)
        print('failed obligations: %s' % '; '.join(failed[:6]) + (' ...' if len(failed) > 6 else ''))
    level = levels.level(prop)
    ev = search['evaluations'] + (ext or {}).get('evaluations', 0)
    cov = dict(evaluations=ev, distinct_nontrivial=search['distinct_nontrivial'], rule=search['rule'], samples=search['samples'][:3],
               bounded_search_complete=search['complete'], bounded_search_cmd=' '.join(scmd), outcomes=search.get('outcomes', {}))
    if proof['obligations']:
        cov.update(obligations=proof['obligations'], discharged=proof['discharged'], checker_cmd=' '.join(pcmd),
                   trusted_base=proof['trusted_base'], functions_under_contract=proof['functions'], backend=proof.get('backend'),
                   solver_s=proof.get('solver_s'), refuted=proof['refuted'], undecided=proof['undecided'], unsupported=proof['unsupported'],
                   covers=proof.get('covers'), bounded_stand_ins=proof['bounded'])
    doc = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
               assumptions=list(proof['assumptions']) + ['the bounded search only samples its stated case space'] + problems,
               wall_s=round(time.time() - t0, 2), violations=1 if path else 0)
    with open(os.path.join(EVID, prop + '.json'), 'w') as fh:
        json.dump(doc, fh, indent=1, default=str)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for x in problems:
        print('note:', x)
    print('%s: %d/%d obligations discharged (%d undecided, %d unsupported), %d cases evaluated on the real code, %.1f s' % (
        prop, proof['discharged'], proof['obligations'], len(proof['undecided']), len(proof['unsupported']), ev, time.time() - t0))
    if path:
        print('%s' % why)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception as e:      # noqa: a crash of the check is not a violation
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
