"""P06 the fast track is transparent."""
from collgen import *       # noqa
RULE = ('random collections (consistent or not types of the indexed attributes, remaps, aliases), histories of add / discard / pop / clear / '
        'fasttrack settings and descriptions; each search is compared with the same search without fast track and with the contract; '
        'non trivial: at least one indexed attribute')
N = dict(quick=2800, thorough=15000)


def gen(rng):
    classes = gen_coll(rng, 6)
    if rng.random() < 0.15:
        # the same conversion, with different arguments
        n = pick(rng, ['kind', 'a'])
        for c in classes:
            c['attrs'][n] = dict(type='Num', values=sub(rng, [1, 2, 3, 4], 0.6), args=dict(scale=pick(rng, [1, 1, 2])))
    descs = [gen_colldesc(rng, classes) for _ in range(4)]
    if rng.random() < 0.2:
        k = pick(rng, ['kind', 'a'])
        descs[0][k] = pick(rng, [mk('list', ['x']), mk('tuple', [mk('list', [1])]), None, mk('FPDict', [['k', mk('list', [])]]), mk('Num', 1), True, 1.0])
    if rng.random() < 0.12:
        # values that look like a reference, or that their type refuses with a footprint error
        n, o = rng.sample(['kind', 'a', 'b'], 2)
        t = pick(rng, ['str', 'str', 'Picky'])
        for c in classes:
            if rng.random() < 0.8:
                c['attrs'][n] = dict(type=t, values=sub(rng, ['x', 'y', '[%s]' % o, 'a[%s]' % o, 'ax', 'ay'] if t == 'str' else ['x', 'y', 'z'], 0.6))
                c['attrs'].setdefault(o, {})
        for d in descs:
            d[n] = pick(rng, ['x', '[%s]' % o, 'a[%s]' % o, '[nope#x]']) if t == 'str' else pick(rng, ['x', 'X', '', 3, 2.5])
            d.setdefault(o, pick(rng, ['x', 'y', 'q']))
    ops = [['fast', sub(rng, ['kind', 'a', 'b', 'nope'], 0.6)]]
    live = rng.randrange(0, len(classes) + 1)
    for i in range(rng.randrange(0, 6)):
        r = rng.random()
        if r < 0.35:
            ops.append(['add', rng.randrange(len(classes))])
        elif r < 0.6:
            ops.append(['discard', rng.randrange(len(classes))])
        elif r < 0.8:
            ops.append(['fast', sub(rng, ['kind', 'a', 'b', 'c'], 0.5)])
        elif r < 0.88:
            ops.append(['pop'])
        elif r < 0.94:
            ops.append(['clear'])
        else:
            ops.append(['fromempty'])
    return dict(classes=classes, descs=descs, ops=ops, live=live, defaults={})


def nontrivial(case):
    return any(o[0] == 'fast' and o[1] for o in case['ops'])


def fixed():
    k = dict(attrs=dict(kind=dict(values=['a'], remap=[['b', 'a']])), level='default')
    k2 = dict(attrs=dict(kind=dict(values=['b'])), level='default')
    for cl in ([k, k2], [k2, k]):
        yield dict(classes=cl, descs=[dict(kind='b'), dict(kind='a'), dict(kind=mk('list', []))], ops=[['fast', ['kind']]], live=2, defaults={})
    yield dict(classes=[k2], descs=[dict(kind='b')], ops=[['fast', ['kind']], ['clear']], live=1, defaults={})


def run(case):
    with Env(case) as env:
        tag, tag2 = fresh('t'), fresh('u')
        try:
            built = build(case, tag)
            info = {b[0]: b for b in built}
            coll = collectors.get(tag=tag)
            for b in built[case['live']:]:
                coll.discard(b[0])
            reg = {b[0] for b in built[:case['live']]}

            def check():
                ensure(set(coll.items()) == reg, 'registered classes differ from the history')
                for ed in case['descs']:
                    desc = decd(ed)
                    exp = expected_all([info[c] for c in reg], desc, env.defaults)
                    st, found = guarded(coll.find_all, desc)
                    fast = coll.fasttrack
                    items = {c for c in reg}
                    # the same search, by an independent collector without any fast track
                    ref = collectors.get(tag=tag2)
                    for c in list(ref.items()):
                        ref.discard(c)
                    for c in items:
                        ref.add(c)
                    st2, found2 = guarded(ref.find_all, desc)
                    ensure(st == st2, 'with fast track: %s %r, without: %s %r', st, found, st2, found2)
                    if st == 'ok':
                        a = {x[0]: x for x in found}
                        b = {x[0]: x for x in found2}
                        ensure(len(found) == len(a), 'a class was returned twice')
                        ensure(set(a) == set(b), 'fast track %s: %s instead of %s', sorted(fast), sorted(x.__name__ for x in a), sorted(x.__name__ for x in b))
                        for c in a:
                            ensure(a[c][2] == b[c][2] and all(same(a[c][1][k], b[c][1][k]) for k in b[c][1]), 'different resolution')
                        if exp is not None:
                            check_found(found, exp)
            check()
            for op in case['ops']:
                if op[0] == 'fast':
                    mine = list(op[1]) if len(op[1]) % 2 else set(op[1])
                    coll.fasttrack = mine
                    ensure(coll.fasttrack <= set(op[1]), 'fast track attributes %s instead of %s', coll.fasttrack, op[1])
                    before = set(coll.fasttrack)
                    # the caller's containers are not shared
                    (mine.append if isinstance(mine, list) else mine.add)('zone')
                    coll.fasttrack.add('zone')
                    ensure(coll.fasttrack == before, 'the fast track attributes are shared with the caller')
                elif op[0] == 'add':
                    coll.add(built[op[1]][0])
                    reg.add(built[op[1]][0])
                elif op[0] == 'discard':
                    coll.discard(built[op[1]][0])
                    reg.discard(built[op[1]][0])
                elif op[0] == 'pop' and reg:
                    c = coll.pop()
                    ensure(c in reg, 'pop returned a class that was not registered')
                    reg.discard(c)
                elif op[0] == 'clear':
                    coll.clear()
                    reg.clear()
                elif op[0] == 'fromempty':
                    fast = coll.fasttrack
                    coll.clear()
                    coll.fasttrack = fast
                    coll.add(*[b[0] for b in built])
                    reg.update(b[0] for b in built)
                check()
            return 'ops=%d' % len(case['ops'])
        finally:
            forget(tag)
            forget(tag2)
