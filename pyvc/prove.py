#!/usr/bin/env python3-vt
"""prove.py PNN --tier T --max-s S --out F: generates and discharges the obligations of the contracts that serve a property."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)
import z3                      # noqa
z3.set_param("warning", False)
import core                    # noqa
import context                 # noqa
from core import Obl, State, PyRaise, Unsupported   # noqa
from repo import Repo          # noqa
from interp import Interp      # noqa

BASELINE = os.path.join(HERE, 'baseline.json')


def load_contracts():
    d = os.path.join(HERE, 'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('contracts.' + f[:-3])
    return context.CONTRACTS


def solve_cvc5(fs, ms):
    """Second opinion on an obligation z3 does not decide."""
    import subprocess
    s = z3.Solver()
    s.add(*fs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % ms, '--full-saturate-quant'], input=txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    return p.stdout.strip().split('\n')[0]


def run_contract(c, tier, limit, verbose=False):
    t0 = time.time()
    res = dict(name=c.name, obls={}, status='ok', message='', functions=[], solver_s=0, queries=0, paths=0, loops=[], assumptions=c.assumptions, cvc5=0, covers={})
    repo = Repo()
    ctx = c.ctx() if callable(c.ctx) else c.ctx
    ctx.trace = verbose
    ip = Interp(repo, ctx)
    E = ip.E
    E.deadline = t0 + limit * 0.7
    if tier == 'thorough':
        ctx.inv_ms = ctx.inv_ms * 3
    outs = []
    try:
        missing = [t for t in c.targets if not exists(repo, t)]
        if missing:
            raise Unsupported('function under contract not found: %s' % ', '.join(missing))

        def body():
            try:
                return c.body(ip)
            except PyRaise as e:
                E.oblige('no unexpected exception', z3.BoolVal(False))
                if verbose:
                    print('   uncaught', e.cls, getattr(e.cls, 'name', getattr(getattr(e.cls, 'info', None), 'full', '')), e.origin, E.where, flush=True)
                return None
        outs = E.explore(body, State(), None, {}, 'v')
        res['paths'] = len(outs)
    except Unsupported as e:
        res['status'], res['message'] = 'unsupported', '%s (at %s)' % (e, E.where)
        if verbose:
            traceback.print_exc()
    except (z3.Z3Exception, RecursionError, AssertionError, KeyError, AttributeError, IndexError, TypeError, ValueError) as e:
        res['status'], res['message'] = 'unsupported', 'engine: %s: %s (at %s)' % (type(e).__name__, e, E.where)
        if verbose:
            traceback.print_exc()
    ms = 15000 if tier == 'quick' else 60000
    end = t0 + limit
    for o in E.obls:
        ent = res['obls'].setdefault(o.name, dict(n=0, status='proved', where=[], backend='z3'))
        ent['n'] += 1
        if ent['status'] == 'refuted':
            continue
        left = max(200, min(ms, int((end - time.time()) * 1000)))
        t1 = time.time()
        r = z3.unsat
        if not z3.is_true(z3.simplify(o.goal)):
            fs = list(o.pc) + [z3.Not(o.goal)]
            r, s = E.solver.check(fs, left if left < 3000 else left // 2)
            if r == z3.unknown and left >= 3000:
                if solve_cvc5(E.solver.ax + fs, left // 2) == 'unsat':
                    r = z3.unsat
                    ent['backend'] = 'cvc5'
                    res['cvc5'] += 1
            if r == z3.sat and not quantfree(fs) and not o.exact:
                pass
        if r != z3.unsat:
            st = 'refuted' if r == z3.sat and o.exact else 'undecided'
            ent['status'] = st
            ent['where'].append(o.where)
            if r == z3.sat and o.exact:
                ent['model'] = str(s.model())[:4000]
            if verbose:
                print('   %s %s at %s exact=%s (%s, %.1fs)' % (st, o.name, o.where, o.exact, r, time.time() - t1), flush=True)
                if os.environ.get('PYVC_DUMP'):
                    print('      PC:', *['\n        ' + str(z3.simplify(f))[:300] for f in o.pc])
                    print('      GOAL:', z3.simplify(o.goal))
                    if r == z3.sat:
                        print('      MODEL:', s.model())
    # vacuity: at least one path reaches its end with satisfiable facts
    sat = 0
    for o in outs[:40]:
        r, _ = E.solver.check([f for f in o.st.pc if not core.has_quant(f)], 1500, ax=False)
        if r != z3.unsat:
            sat += 1
            if sat >= 3:
                break
    # the whole facts of the shortest path must not be contradictory
    contra = 0
    for o in sorted(outs, key=lambda o: len(o.st.pc))[:3]:
        r, _ = E.solver.check(o.st.pc, 1000, slow=False)
        contra += r == z3.unsat
    res['covers'] = dict(reached=sat, contradictory=contra)
    if res['status'] == 'ok' and outs and (sat == 0 or contra == min(3, len(outs))):
        res['status'], res['message'] = 'unsupported', 'vacuous: no feasible path'
    if res['status'] == 'ok' and not outs:
        res['status'], res['message'] = 'unsupported', 'vacuous: no path at all'
    res['functions'] = sorted(set(c.targets) | set(ip.used_functions))
    res['targets'] = c.targets
    res['contracts_used'] = sorted(ip.used_contracts)
    res['loops'] = [dict(loop=l, invariants=k, dropped=d) for l, k, d in ip.loops_done]
    res['solver_s'] = round(E.solver.secs, 2)
    res['queries'] = E.solver.n
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def quantfree(fs):
    return not any(core.has_quant(f) for f in fs)


def exists(repo, full):
    try:
        from repo import FuncInfo
        return isinstance(repo.func(full), FuncInfo)
    except KeyError:
        return False


def worker(name, tier, limit, q):
    c = load_contracts()[name]
    try:
        r = run_contract(c, tier, limit)
    except BaseException as e:     # noqa
        r = dict(name=name, obls={}, status='unsupported', message='engine: %s: %s' % (type(e).__name__, e), functions=[], targets=c.targets, solver_s=0, queries=0,
                 paths=0, loops=[], assumptions=c.assumptions, cvc5=0, covers={}, contracts_used=[], wall_s=0)
    with open(q, 'w') as f:
        json.dump(r, f)


def run_all(names, tier, limit, jobs, tmp):
    """One process per contract; a contract that does not answer is undecided."""
    cs = context.CONTRACTS
    todo = sorted(names, key=lambda n: -(cs[n].budget or 0))
    running, done = {}, {}
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            n = todo.pop(0)
            left = limit - (time.time() - t0)
            q = os.path.join(tmp, 'vc-%s-%d.json' % (n.replace(':', '_').replace('/', '_'), os.getpid()))
            p = mp.Process(target=worker, args=(n, tier, max(5, left * 0.85), q))
            p.start()
            running[n] = (p, q, time.time())
        time.sleep(0.05)
        for n, (p, q, ts) in list(running.items()):
            over = time.time() - t0 > limit
            if p.is_alive() and not over:
                continue
            if p.is_alive():
                p.kill()
            p.join()
            del running[n]
            try:
                with open(q) as f:
                    done[n] = json.load(f)
                os.remove(q)
            except (OSError, ValueError):
                done[n] = dict(name=n, obls={}, status='unsupported', message='no answer within the time limit', functions=cs[n].targets, targets=cs[n].targets, solver_s=0,
                               queries=0, paths=0, loops=[], assumptions=cs[n].assumptions, cvc5=0, covers={}, contracts_used=[], wall_s=round(time.time() - ts, 1))
    return done


TRUSTED = ['the front end pyvc (AST of the current source -> path conditions; its models of the Python builtins)', 'z3 5.3 (unsat answers)', 'cvc5 1.1.2 (obligations z3 leaves open)']
GENERAL = ['CPython built-in containers, str methods, functools.total_ordering, weakref and copy behave as modelled in pyvc/lib.py',
           'an object equal to None is None; == on attribute values is an equivalence compatible with hash',
           'calls of unknown callables (types, conversions, user predicates) are deterministic and do not modify the library state',
           'integers are mathematical (Python ints are)', 'no concurrent modification by other threads', 'loggers have no effect']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--max-s', type=float, default=300)
    ap.add_argument('--out')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--dev', action='store_true')
    ap.add_argument('--write-baseline', action='store_true')
    a = ap.parse_args()
    cs = load_contracts()
    if a.dev:
        names = [n for n in cs if a.prop in (n, 'all') or a.prop in cs[n].props or a.prop in n]
        for n in names:
            r = run_contract(cs[n], a.tier, a.max_s, verbose=True)
            print('%s: %s %s paths=%d %.1fs solver %.1fs/%d' % (n, r['status'], r['message'], r['paths'], r['wall_s'], r['solver_s'], r['queries']), r['covers'])
            for k, v in r['obls'].items():
                print('    %-60s %s x%d %s' % (k, v['status'], v['n'], v['backend'] if v['backend'] != 'z3' else ''), v['where'][:4] if v['status'] != 'proved' else '')
            for l in r['loops']:
                print('    loop %s: keeps %s; dropped %s' % (l['loop'], l['invariants'], l['dropped']))
        return 0
    names = [n for n, c in cs.items() if a.prop == 'all' or a.prop in c.props]
    tmp = os.environ.get('TMPDIR', '/tmp')
    done = run_all(names, a.tier, a.max_s, a.jobs, tmp)
    if a.write_baseline:
        base = load_baseline()
        for n, r in done.items():
            base[n] = sorted(k for k, v in r['obls'].items() if v['status'] == 'proved') if r['status'] == 'ok' else []
            if r['status'] != 'ok' or any(v['status'] != 'proved' for v in r['obls'].values()):
                print('NOT FULLY DISCHARGED', n, r['status'], r['message'], {k: v['status'] for k, v in r['obls'].items() if v['status'] != 'proved'})
        base = {k: v for k, v in base.items() if k in cs}
        with open(BASELINE, 'w') as f:
            json.dump(base, f, indent=1, sort_keys=True)
            f.write('\n')
    base = load_baseline()
    out = dict(obligations=0, discharged=0, functions=[], refuted=[], undecided=[], unsupported=[], bounded=[], assumptions=list(GENERAL), trusted_base=TRUSTED, solver_s=0,
               backend='z3 (SMT), cvc5 for %d obligations', covers={}, contracts={}, vcs=0)
    fns, tg, n5 = set(), set(), 0
    for n in sorted(done):
        r = done[n]
        want = set(base.get(n, []))
        got = r['obls']
        allnames = want | set(got)
        out['obligations'] += len(allnames)
        out['solver_s'] += r['solver_s']
        n5 += r['cvc5']
        fns |= set(r['functions'])
        tg |= set(r['targets'])
        for x in r['assumptions']:
            if x not in out['assumptions']:
                out['assumptions'].append(x)
        for k in sorted(allnames):
            st = got[k]['status'] if k in got else 'missing'
            out['vcs'] += got[k]['n'] if k in got else 0
            item = dict(name='%s / %s' % (n, k), contract=n, targets=r['targets'], where=got[k]['where'] if k in got else [], model=got.get(k, {}).get('model', ''))
            if st == 'proved' and r['status'] == 'ok':
                out['discharged'] += 1
            elif st == 'refuted' and k in want:
                out['refuted'].append(item)
            elif r['status'] == 'ok' and (k in want or st != 'missing'):
                item['status'] = st
                out['undecided'].append(item)
            elif k in want:
                item['status'] = 'not generated'
                if r['status'] != 'ok':
                    out['undecided'].append(dict(item, why=r['message']))
        if r['status'] != 'ok':
            out['unsupported'].append(dict(name=n, why=r['message']))
        out['covers'][n] = r['covers']
        out['contracts'][n] = dict(title=cs[n].title, targets=r['targets'], obligations=len(allnames), paths=r['paths'], loops=r['loops'], callee_contracts=r['contracts_used'],
                                   wall_s=r.get('wall_s', 0), solver_s=r['solver_s'], status=r['status'])
    out['functions'] = sorted(tg)
    out['inlined'] = sorted(fns - tg)
    out['backend'] = out['backend'] % n5
    out['solver_s'] = round(out['solver_s'], 2)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(out, f, indent=1)
    print('%s: %d obligations, %d discharged, refuted %s, undecided %s, unsupported %s, solver %.1fs' % (
        a.prop, out['obligations'], out['discharged'], [x['name'] for x in out['refuted']], [x['name'] for x in out['undecided']], out['unsupported'], out['solver_s']))
    return 0


def load_baseline():
    try:
        with open(BASELINE) as f:
            return json.load(f)
    except OSError:
        return {}


if __name__ == '__main__':
    sys.exit(main())
