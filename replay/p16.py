"""P16 standard types."""
from resgen import *        # noqa
RULE = ('random contents (numbers equal across types, strings, nested containers) built in two random orders and with additions then removals; '
        'equality, hash, items, exports compared with the builtin peers; regular expressions compared with compiled ones on random strings; '
        'non trivial: at least two elements, or a regular expression')
N = dict(quick=40000, thorough=200000)


def atom(rng, depth=0):
    r = rng.random()
    if depth < 2 and r < 0.15:
        return mk('tuple', [atom(rng, depth + 1) for _ in range(rng.randrange(3))])
    if depth < 2 and r < 0.22:
        return mk('FPTuple', [atom(rng, depth + 1) for _ in range(rng.randrange(3))])
    if depth < 2 and r < 0.3:
        return mk('FPList', [atom(rng, depth + 1) for _ in range(rng.randrange(3))])
    if depth < 2 and r < 0.35:
        return mk('FPSet', [atom(rng, depth + 1) for _ in range(rng.randrange(3))])
    if depth < 2 and r < 0.42:
        return mk('FPDict', [[atom(rng, 2), atom(rng, depth + 1)] for _ in range(rng.randrange(3))])
    return pick(rng, [0, 1, 2, 8, 16, 64, -1, -2, True, False, 1.0, 2.5, 'a', 'b', '', 'zz', None, mk('FPStr', 'a'), mk('FPStr', 'q')])


def gen(rng):
    r = rng.random()
    if r < 0.15:
        return dict(kind='FPRegex', pat=pick(rng, ['a+', 'fo(o)', r'\d{2}', 'x|y', '', '(?P<n>a)b', 'A']), flags=pick(rng, [0, int(re.I), int(re.M)]),
                    strs=[''.join(pick(rng, 'abfox12Ay') for _ in range(rng.randrange(5))) for _ in range(4)])
    kind = pick(rng, ['FPDict'] * 2 + ['FPSet'] * 2 + ['FPList', 'FPTuple', 'FPStr'])
    n = rng.randrange(0, 7)
    if kind == 'FPDict':
        content = [[atom(rng, 1), atom(rng)] for _ in range(n)]
    elif kind == 'FPStr':
        content = ''.join(pick(rng, ['a', ',', 'é', 'range(1)', '']) for _ in range(n))
    else:
        content = [atom(rng) for _ in range(n)]
    return dict(kind=kind, content=content, seed=rng.randrange(10 ** 6), extra=[atom(rng, 1) for _ in range(rng.randrange(4))])


def nontrivial(case):
    return case['kind'] == 'FPRegex' or len(case['content']) > 1


def fixed():
    yield dict(kind='FPDict', content=[['a', 1], ['b', 2]], seed=1, extra=[])
    yield dict(kind='FPSet', content=[0, 8, 16, 64, 1], seed=3, extra=[24, 32])
    yield dict(kind='FPSet', content=['a', 1], seed=3, extra=[])
    yield dict(kind='FPTuple', content=[1, mk('FPList', [1])], seed=3, extra=[])


def other(x):
    """An equal value of another type, when there is one."""
    if isinstance(x, (bool, int)) and x in (0, 1):
        return bool(x) if type(x) is int else float(x)
    if type(x) is int:
        return float(x)
    if type(x) is float and x == int(x):
        return int(x)
    return variant(x)


def variant(o):
    if type(o) is stdtypes.FPDict:
        return stdtypes.FPDict([(other(k), other(v)) for k, v in o.items()])
    if type(o) in (stdtypes.FPList, stdtypes.FPTuple, stdtypes.FPSet, tuple):
        return type(o)(other(x) for x in o)
    return o


def run(case):
    kind = case['kind']
    T = TYPES.get(kind)
    if kind == 'FPRegex':
        r, p = stdtypes.FPRegex(case['pat'], flags=case['flags']), re.compile(case['pat'], case['flags'])
        for s in case['strs']:
            for m in ('match', 'search', 'fullmatch'):
                x, y = getattr(r, m)(s), getattr(p, m)(s)
                ensure((x is None) == (y is None) and (x is None or (x.span(), x.groups()) == (y.span(), y.groups())), '%s(%r)', m, s)
            ensure(r.findall(s) == p.findall(s) and r.sub('-', s) == p.sub('-', s) and r.split(s) == p.split(s), 'findall/sub/split %r', s)
        for k in (r, copy.deepcopy(r), copy.deepcopy([r, r])[1]):
            ensure(isinstance(k, stdtypes.FPRegex) and k.pattern == p.pattern and k.flags == p.flags and k.groupindex == p.groupindex, 'pattern / flags')
            ensure(k.footprint_export() == (p.pattern, p.flags), 'export %r', k.footprint_export())
        d = copy.deepcopy(dict(a=r, b=r))
        ensure(d['a'] is d['b'], 'a deep copy keeps the sharing')
        ensure(guarded(getattr, r, 'nothing_like_that')[0] == 'raise' and isinstance(guarded(getattr, r, 'zzz')[1], AttributeError), 'unknown attribute')
        return 'regex'
    rng = random.Random(case['seed'])
    if kind == 'FPStr':
        o = stdtypes.FPStr(case['content'])
        ensure(o == case['content'] and hash(o) == hash(case['content']) and isinstance(o, str) and str(o) == case['content'], 'FPStr')
        ensure(util.expand(dict(a=o)) == [dict(a=o, index_expansion=1)], 'FPStr expanded')
        return 'str'
    if kind == 'FPDict':
        pairs = [(dec(k), dec(v)) for k, v in case['content']]
        ref = dict(pairs)
        o = T(pairs)
        items = list(ref.items())
        rng.shuffle(items)
        o2 = T()
        for e in case['extra']:
            e = dec(e)
            if e not in ref:
                o2[e] = 'tmp'
        for k, v in items:
            o2[k] = v
        for e in case['extra']:
            e = dec(e)
            if e not in ref:
                o2.pop(e, None)
        ensure(dict(o) == ref and sorted(map(repr, o.items())) == sorted(map(repr, ref.items())), 'content')
    elif kind == 'FPSet':
        vals = [dec(x) for x in case['content']]
        ref = set(vals)
        o = T(vals)
        rng.shuffle(vals)
        o2 = T()
        ex = [dec(x) for x in case['extra']]
        for e in ex:
            o2.add(e)
        for v in vals:
            o2.add(v)
        for e in ex:
            if e not in ref:
                o2.discard(e)
    else:
        vals = [dec(x) for x in case['content']]
        ref = list(vals) if kind == 'FPList' else tuple(vals)
        o = T(vals)
        o2 = T(iter(vals))
    ensure(o == ref and ref == o and not (o != ref), '%s is not equal to its builtin peer', kind)
    ensure(o == o2 and o2 == o, 'equal contents, different objects')
    ensure(hash(o) == hash(o2), 'two equal %s have different hash values', kind)
    ensure(hash(o) == hash(o), 'hash changes')
    o3 = guarded(variant, o)
    if o3[0] == 'ok' and o3[1] == o:
        ensure(hash(o3[1]) == hash(o), 'two equal %s (numbers of other types) have different hash values', kind)
        ensure({o: 1}.get(o3[1]) == 1, 'an equal %s (numbers of other types) is not found in a table', kind)
    ensure({o: 1}.get(o2) == 1 and o2 in {o}, 'an equal %s is not found in a table', kind)
    c = copy.deepcopy(o)
    ensure(type(c) is T and c == o and hash(c) == hash(o), 'deep copy')
    if kind in ('FPList', 'FPTuple', 'FPSet'):
        it = o.items()
        if kind == 'FPSet':
            ensure(set(it) == ref and len(it) == len(ref), 'items of a set')
            e = o.footprint_export()
            ensure(isinstance(e, list) and len(e) == len(ref) and set(e) == ref, 'export of a set %r', e)
            st, srt = guarded(sorted, ref)
            if st == 'ok' and all(isinstance(x, (int, float)) for x in ref) or all(isinstance(x, str) for x in ref):
                ensure(e == srt, 'the export of a set is not sorted: %r', e)
        else:
            ensure(list(it) == list(ref), 'items %r', it)
        ensure(it is not o and type(it) is (tuple if kind == 'FPSet' else list), 'items gives %r', type(it))
        before = (type(ref)(ref), len(o))
        if hasattr(it, 'append'):
            it.append('new')
            it.reverse()
        ensure(o == ref and len(o) == before[1], 'items is not a copy')
    ensure(util.expand(dict(a=o)) == [dict(a=o, index_expansion=1)], '%s expanded', kind)
    return kind
