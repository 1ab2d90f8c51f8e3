"""P08 priority sets."""
from base import *          # noqa
RULE = ('random histories of 1-25 operations on a fresh set (mixed case names, level objects, unknown and self references, out of range '
        'reranks), every observable compared with an ordered-list model after each step; plus every history of length 3 over a set of 3 '
        'levels; non trivial: at least two operations')
N = dict(quick=3000, thorough=100000)
TAGS = ['a', 'b', 'c', 'd', 'E', 'f', 'new1', 'New2', 'zz']


def gen_op(rng):
    k = pick(rng, ['extend', 'insert_after', 'insert_before', 'insert', 'rerank', 'up', 'down', 'top', 'bottom', 'remove', 'freeze', 'restore',
                   'reset', 'addafter', 'addbefore', 'delete', 'badfreeze', 'deepcopy'])
    t, u = pick(rng, TAGS), pick(rng, TAGS)
    t = pick(rng, [t, t.upper(), t.lower()])
    if k == 'extend':
        return [k, [pick(rng, TAGS) for _ in range(rng.randrange(0, 4))]]
    if k in ('insert_after', 'insert_before', 'addafter', 'addbefore'):
        return [k, t, u, rng.random() < 0.3]
    if k == 'insert':
        return [k, t]
    if k == 'rerank':
        return [k, t, rng.randrange(-4, 5)]
    if k == 'remove':
        return [k, t, rng.random() < 0.3]
    if k in ('freeze', 'restore'):
        return [k, pick(rng, ['one', 'Two', 'ONE', 'two'])]
    return [k, t]


def gen(rng):
    return dict(init=rng.sample(TAGS[:6], rng.randrange(0, 6)), ops=[gen_op(rng) for _ in range(rng.randrange(1, 25))])


def nontrivial(case):
    return len(case.get('ops', case.get('args', ()))) > 1


def fixed():
    import itertools
    basic = [['extend', ['b']], ['extend', ['n', 'a']], ['rerank', 'a', 1], ['rerank', 'b', -1], ['rerank', 'c', 5], ['remove', 'b', False],
             ['insert_after', 'a', 'c', False], ['insert_before', 'c', 'a', True], ['insert_after', 'n', 'b', False], ['insert_before', 'n', 'nope', False],
             ['insert_after', 'a', 'a', False], ['freeze', 'x'], ['restore', 'x'], ['reset', 'a'], ['up', 'a'], ['down', 'c'], ['bottom', 'c'], ['top', 'a']]
    for h in itertools.product(basic, repeat=2):
        yield dict(init=['a', 'b', 'c'], ops=list(h))
    for fn in ('set_before', 'set_after'):
        for args in ([], ['p'], ['p', 'q'], ['p', 'q', 'r'], ['toolbox', 'p']):
            for ref in ('default', 'debug', 'none', 'NOPE'):
                for mod in ('priorities', 'doc'):
                    yield dict(module=mod, fn=fn, ref=ref, args=args)


def move(L, t, after=None, before=None):
    """The order after an insertion, or None when it is refused."""
    ref = (after if after is not None else before).upper()
    t = t.upper()
    if ref == t or ref not in L:
        return None
    M = [x for x in L if x != t]
    i = M.index(ref) + (1 if after is not None else 0)
    return M[:i] + [t] + M[i:]


def run_module(case):
    mod = dict(priorities=priorities, doc=doc)[case['module']]
    the = priorities.top if mod is priorities else doc.visibility
    start = list(the())
    try:
        ref = case['ref']
        if mod is doc:
            ref = dict(default='default', debug='guru', none='advanced').get(ref, ref)
        L = list(start)
        for t in (case['args'] if case['fn'] == 'set_before' else reversed(case['args'])):
            M = move(L, t, **{'before' if case['fn'] == 'set_before' else 'after': ref})
            if M is None:
                L = None
                break
            L = M
        st, r = guarded(getattr(mod, case['fn']), ref, *case['args'])
        if L is None:
            ensure(st == 'raise', 'a move relative to an unknown level was accepted')
        else:
            ensure(st == 'ok', 'raises %r', r)
            ensure(list(the()) == L, 'order %s instead of %s', the(), L)
            new = [t.upper() for t in case['args']]
            if case['args'] and len(set(new)) == len(new):
                ensure([x for x in the() if x in new] == new, 'the given order is not kept')
    finally:
        the.reset()
        ensure(list(the()) == start, 'reset does not restore the initial order')
    return 'module'


def check(ps, L, frozen):
    ensure(list(ps()) == L and list(ps) == L and list(ps.levels) == L and len(ps) == len(L), 'order %s instead of %s', ps(), L)
    ensure(len(set(ps())) == len(ps()), 'duplicated level')
    ensure(ps.freezed() == sorted(frozen), 'recorded orders %s', ps.freezed())
    for i, t in enumerate(L):
        for n in (t, t.lower(), t.capitalize()):
            ensure(n in ps, '%s is not found', n)
            lev = ps.level(n)
            ensure(lev is not None and lev.tag == t and lev.rank == i and lev() == i and lev.inset is ps, 'level %s', n)
            ensure(ps.levelindex(n) == i, 'index of %s', n)
        ensure(getattr(ps, t).rank == i and ps.levelbyindex(i).tag == t, 'access to level %s', t)
        nx, pv = lev.nextlevel(), lev.prevlevel()
        ensure((nx.tag if nx is not None else None) == (L[i + 1] if i + 1 < len(L) else None), 'next level of %s', t)
        ensure((pv.tag if pv is not None else None) == (L[i - 1] if i else None), 'previous level of %s', t)
        for j, u in enumerate(L):
            o = ps.level(u)
            for other in (o, u, u.lower()):
                r = (lev == other, lev != other, lev < other, lev <= other, lev > other, lev >= other)
                ensure(r == (i == j, i != j, i < j, i <= j, i > j, i >= j), 'comparison of %s and %r: %s', t, other, r)
        ensure(not (lev == 'unknown-level') and lev != 'unknown-level', 'equality with an unknown level')
    ensure(ps.levelbyindex(-1) is None and ps.levelbyindex(len(L)) is None, 'index out of range')
    for t in ('nope', 'QQ'):
        ensure(t not in ps and ps.level(t) is None, 'unknown level')
        ensure(guarded(ps.levelindex, t)[0] == 'raise', 'index of an unknown level')


def run(case):
    if 'fn' in case:
        return run_module(case)
    ps = priorities.PrioritySet(levels=case['init'] or None)
    L = [x.upper() for x in case['init']]
    frozen, others = dict(default=list(L)), []
    check(ps, L, frozen)
    for op in case['ops']:
        k = op[0]
        want = None         # None: must be refused
        t = op[1].upper() if isinstance(op[1], str) else None
        ret = None
        if k == 'extend':
            want = list(L)
            for x in op[1]:
                want = [y for y in want if y != x.upper()] + [x.upper()]
            act = lambda: ps.extend(*op[1])             # noqa
        elif k in ('insert_after', 'insert_before'):
            side = k.split('_')[1]
            want = move(L, op[1], **{side: op[2]})
            ref = ps.level(op[2]) if op[3] and op[2].upper() in L else op[2]
            ret = t
            act = lambda: ps.insert(op[1], **{side: ref})     # noqa
        elif k == 'insert':
            want = [x for x in L if x != t] + [t]
            ret = t
            act = lambda: ps.insert(tag=op[1])          # noqa
        elif k in ('addafter', 'addbefore'):
            if op[2].upper() not in L:
                continue
            want = move(L, op[1], **{k[3:]: op[2]})
            ret = t
            act = lambda: getattr(ps.level(op[2]), k)(op[1])   # noqa
        elif k in ('rerank', 'up', 'down', 'top', 'bottom'):
            n = dict(rerank=op[-1], up=1, down=-1, top=len(L), bottom=-len(L))[k]
            if t in L:
                i = max(0, min(len(L) - 1, L.index(t) + n))
                M = [x for x in L if x != t]
                want = M[:i] + [t] + M[i:]
                ret = t
            elif k != 'rerank':
                continue
            act = (lambda: ps.rerank(op[1], n)) if k == 'rerank' else (lambda: getattr(ps.level(op[1]), k)())
        elif k in ('remove', 'delete'):
            if t in L:
                want = [x for x in L if x != t]
            if k == 'delete' or op[2]:
                if t not in L:
                    continue
                lev = ps.level(op[1])
                act = lev.delete if k == 'delete' else (lambda: ps.remove(lev))
            else:
                act = lambda: ps.remove(op[1])          # noqa
        elif k == 'freeze':
            want = list(L)
            act = lambda: ps.freeze(op[1])              # noqa
        elif k == 'badfreeze':
            act = lambda: ps.freeze('Default')          # noqa
        elif k == 'restore':
            want = frozen.get(op[1].lower())
            want = None if want is None else list(want)
            act = lambda: ps.restore(op[1])             # noqa
        elif k == 'reset':
            want = list(frozen['default'])
            act = ps.reset
        elif k == 'deepcopy':
            # an independent copy: the next operations act on the copy, or on the original
            cp = copy.deepcopy(ps)
            ensure(cp is not ps, 'deep copy')
            check(cp, L, frozen)
            others.append((ps, list(L), {a: list(b) for a, b in frozen.items()}))
            if (t or '')[:1] in 'ABCN':
                ps, cp = cp, ps
            others[-1] = (cp,) + others[-1][1:]
            check(ps, L, frozen)
            continue
        st, r = guarded(act)
        if want is None:
            ensure(st == 'raise', '%s was accepted', op)
        else:
            ensure(st == 'ok', '%s raises %r', op, r)
            L = want
            if k in ('remove', 'delete'):
                ensure(not hasattr(ps, t), 'the removed level %s is still accessible', t)
            if k == 'freeze':
                frozen[op[1].lower()] = list(L)
            if ret:
                ensure(isinstance(r, priorities.PriorityLevel) and r.tag == ret and r.rank == L.index(ret), '%s returns %r', op, r)
        check(ps, L, frozen)
        for t in TAGS:
            if t.upper() not in L:
                ensure(ps.level(t) is None and ps.level(t.upper()) is None and t not in ps and t.upper() not in ps, 'the level %s is not in the set any more', t)
        for o in others:
            ensure(list(o[0]()) == o[1], 'a deep copy is not independent: %s instead of %s', o[0](), o[1])
    for o in others:
        check(*o)
    return 'ops=%d' % min(9, len(case['ops']))
