"""P14 expansion = product."""
from resgen import *        # noqa
import itertools
RULE = ('random descriptions with 0-5 expandable values (lists, tuples, sets, comma separated strings, ranges, nested ones, matching '
        'dictionaries possibly chained and in any key order, footprint typed containers); compared with the product of the flattened values; '
        'non trivial: at least one expandable value')
N = dict(quick=15000, thorough=75000)


def leaf(rng):
    return pick(rng, ['u', 'v', 'w', 1, 2, 'range(u)', None, 2.5, mk('dict', [['zz', 1]]), mk('FPList', [1, 2]), mk('FPStr', 'a,b'), mk('FPDict', [['k0', 1]]),
                      mk('FPTuple', [1]), mk('FPSet', [1])])


def seqv(rng, depth=0, leafs=None):
    """An expandable value."""
    r = rng.random()
    n = pick(rng, [0, 1, 2, 2, 3, 3]) if depth == 0 and rng.random() < 0.1 else rng.randrange(1, 4)
    if r < 0.45:
        t = pick(rng, ['list', 'tuple'])
        return mk(t, [seqv(rng, depth + 1) if depth < 2 and rng.random() < 0.2 else leaf(rng) for _ in range(n)])
    if r < 0.55:
        return mk('set', sorted({pick(rng, ['u', 'v', 'w', 'x']) for _ in range(n)}))
    if r < 0.8:
        return ','.join(pick(rng, ['u', 'v', 'w', '', 'a b']) for _ in range(max(2, n)))
    a = rng.randrange(0, 3)
    return pick(rng, ['range(%d)' % a, 'range(%d,%d)' % (a, a + rng.randrange(0, 3)), 'RANGE(%d,%d,%d)' % (a, a + rng.randrange(0, 5), rng.randrange(1, 3)),
                      'range(5,3)'][: 3 if rng.random() < 0.95 else 4])


def gen(rng):
    items = []
    for i in range(rng.randrange(0, 4)):
        items.append(['k%d' % i, seqv(rng)])
    for i in range(rng.randrange(0, 3)):
        items.append(['p%d' % i, leaf(rng)])
    desc = dict((k, v) for k, v in items)
    # matching dictionaries
    for i in range(rng.randrange(0, 3) if rng.random() < 0.6 else 0):
        keys = [k for k in desc if not str(k).startswith('p')]
        if not keys:
            break
        k = pick(rng, keys)
        full = {n: dec(v) for n, v in desc.items()}
        try:
            vals = finals(full, k)
        except KeyError:
            break
        if len(vals) > 8 or any(isinstance(v, (list, tuple, dict, set)) for v in vals):
            continue
        entry = [[str(v), pick(rng, ['E%d' % j, seqv(rng, 1) if rng.random() < 0.25 else 'F', j])] for j, v in enumerate(vals)]
        if not entry:
            continue
        name = 'm%d' % i
        more = second(rng, desc, full, k)
        if more:
            # whichever key is used
            entry = [[x[0], 'SAME'] for x in entry]
        desc[name] = mk('dict', [[k, mk('dict', entry)]] + ([['other', 1]] if rng.random() < 0.2 else []) + more)
        items.append([name, desc[name]])
    rng.shuffle(items)
    return dict(items=items)


def second(rng, desc, full, k):
    """Another key of the description in a matching dictionary (one of them is used)."""
    keys = [x for x in desc if x != k and not str(x).startswith('p')]
    if not keys or rng.random() < 0.6:
        return []
    k2 = pick(rng, keys)
    try:
        vals = finals(full, k2)
    except KeyError:
        return []
    if len(vals) > 6 or any(isinstance(v, (list, tuple, dict, set)) for v in vals):
        return []
    return [[k2, mk('dict', [[str(v), 'SAME'] for v in vals])]]


def nontrivial(case):
    return 'deep' in case or any(k[0] != 'p' for k, _ in case['items'])


def fixed():
    yield dict(items=[['a', 'x']])
    yield dict(items=[['m', mk('dict', [['a', mk('dict', [['x', 'is x'], ['y', 'is y']])]])], ['a', 'x,y']])
    yield dict(items=[['a', 'x,y'], ['m', mk('dict', [['a', mk('dict', [['x', 'is x'], ['y', 'is y']])]])]])
    yield dict(items=[['m', mk('dict', [['n', mk('dict', [['1', 'one'], ['2', 'two']])]])], ['n', mk('dict', [['a', mk('dict', [['x', 1], ['y', 2]])]])],
                      ['a', mk('list', ['x', 'y'])]])
    yield dict(items=[['a', 'range(1,3)'], ['b', mk('list', [mk('list', [1, 2]), mk('tuple', [3])])], ['c', 'u,v']])
    yield dict(items=[['a', mk('list', [])], ['b', 'u,v']])
    ab = mk('dict', [['x', 'is x'], ['y', 'is y']])
    for its in ([['a', 'x'], ['b', 'y'], ['m', mk('dict', [['a', ab], ['b', ab]])]], [['b', 'x,y'], ['m', mk('dict', [['b', ab], ['a', ab]])], ['a', 'y']]):
        yield dict(items=its)
    for n in (1, 23, 24, 25, 26):
        yield dict(deep=n)
        yield dict(deep=n, nested=True)
    yield dict(items=[['k%d' % i, mk('list', [i, i + 1] if i < 3 else [i])] for i in range(20)])


def isfp(v):
    return type(v).__name__.startswith('FP')


def alts(v):
    """The values v stands for, or None when it is not expandable by itself."""
    if isfp(v):
        return None
    if isinstance(v, (list, tuple, set)):
        return list(v)
    if isinstance(v, str):
        m = re.fullmatch(r'(?i)range\((\d+)(?:,(\d+))?(?:,(\d+))?\)', v)
        if m:
            a = int(m.group(1))
            b = int(m.group(2)) if m.group(2) else a
            s = int(m.group(3)) if m.group(3) else 1
            out = []
            while a <= b:
                out.append(a)
                a += s
            return out
        if ',' in v:
            return v.split(',')
    return None


def flat(v):
    a = alts(v)
    if a is None:
        return [v]
    return [y for x in a for y in flat(x)]


def hasset(v):
    if isinstance(v, dict):
        return any(hasset(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(hasset(x) for x in v)
    return isinstance(v, set) and not isfp(v)


def finals(desc, key):
    seen = []
    for d in product(desc)[0]:
        if d[key] not in seen:
            seen.append(d[key])
    return seen


def product(desc):
    """-> (list of expected descriptions, order is significant)"""
    keys = list(desc)
    ordered = True
    res = []
    for combo in itertools.product(*[flat(desc[k]) for k in keys]):
        stack = [dict(zip(keys, combo))]
        while stack:
            d = stack.pop(0)
            done = True
            for k in keys:
                v = d[k]
                if not isinstance(v, dict) or isfp(v):
                    continue
                hit = [x for x in v if x in d and not (isinstance(d[x], dict) and not isfp(d[x]) and any(y in d for y in d[x]))]
                if hit:
                    entry = v[hit[0]][str(d[hit[0]])]
                    fl = flat(entry)
                    if len(fl) != 1 or alts(entry) is not None:
                        ordered = False
                    stack = [dict(d, **{k: y}) for y in fl] + stack
                    done = False
                    break
            if done:
                res.append(d)
    return res, ordered


def run(case):
    if 'deep' in case:
        # the number of successive expansions
        n = case['deep']
        if case.get('nested'):
            v = 'u'
            for _ in range(n):
                v = [v]
            desc = dict(a=v)
        else:
            desc = {'k%d' % i: [i] for i in range(n)}
        st, r = guarded(util.expand, desc)
        if n > 24:
            ensure(st == 'raise' and isinstance(r, MemoryError), '%d successive expansions: %r', n, r)
        else:
            ensure(st == 'ok' and len(r) == 1, '%d successive expansions: %r', n, r)
        return 'deep'
    desc = {k: dec(v) for k, v in case['items']}
    try:
        want, ordered = product(desc)
    except KeyError:
        return 'unspecified'
    keep = snap(desc)
    got = util.expand(desc)
    ensure(snap(desc) == keep, 'the description was modified')
    ensure([d.pop('index_expansion', None) for d in got] == list(range(1, len(got) + 1)), 'index_expansion')
    ensure(len(got) == len(want), '%d descriptions instead of %d', len(got), len(want))
    # (a set has no order, and its copies may be iterated differently)
    if ordered and not hasset(list(desc.values())):
        for i, (g, w) in enumerate(zip(got, want)):
            ensure(snap(g) == snap(w), 'description %d is %s instead of %s', i + 1, g, w)
    else:
        ensure(sorted(map(repr, map(snap, got))) == sorted(map(repr, map(snap, want))), 'got %s instead of %s', got, want)
    for d in got:
        for k, v in d.items():
            if k in desc and isfp(desc[k]):
                ensure(type(v) is type(desc[k]) and v == desc[k], 'footprint container %s expanded', k)
    # inplace
    k = sorted(desc)[0] if desc else 'new'
    new = util.inplace(desc, k, 'NEW')
    ensure(snap(desc) == keep and new[k] == 'NEW' and set(new) == set(desc) | {k} and
           all(snap(new[x]) == snap(desc[x]) for x in desc if x != k), 'inplace')
    d2 = dict(desc, **{'q1': 'x[glob:i]-[glob:i]', 'q2': '[glob:n]', 'q3': ['[glob:i]'], 'q4': '[glob:zz]'})
    keep2 = snap(d2)
    new2 = util.inplace(d2, 'q5', 'f[glob:i]', globs=dict(i='v1', n='w'), globalindex=4)
    ensure(snap(d2) == keep2, 'inplace modified its argument')
    ensure(snap(new2) == snap(dict(d2, q1='xv1-v1', q2='w', q5='f[glob:i]', index_expansion=5)), 'inplace with parts: %s', new2)
    poison = [v for x, v in new.items() if isinstance(v, (list, dict)) and x != k]
    for v in poison:
        v.clear()
    ensure(snap(desc) == keep, 'inplace shares values with the description')
    return 'n=%d' % min(4, len(want))
