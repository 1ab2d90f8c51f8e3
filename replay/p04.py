"""P04 eligibility = complete resolution and every only clause."""
from resgen import *        # noqa
RULE = ('random footprint (1-3 attributes), 0-3 only clauses (scalar, string, sequence, regular expression, after_, before_, on attributes, '
        'setup defaults or unknown names) and description; the answer is compared with the contract, without and with several reports; '
        'non trivial: at least one clause')
N = dict(quick=25000, thorough=125000)


def gen(rng):
    attrs, desc, dfl, only = dict(), dict(), dict(), dict()
    for n in rng.sample(NAMES, rng.randrange(1, 4)):
        t = pick(rng, ['int', 'str'])
        d = dict(type=t)
        if rng.random() < 0.3:
            d['optional'] = True
            if rng.random() < 0.5:
                d['default'] = pick(rng, [2, '3', 0]) if t == 'int' else pick(rng, ['x', 'foo', ''])
        if rng.random() < 0.2:
            d['values'] = [1, 2, 3, 0] if t == 'int' else ['x', 'foo', 'foobar', '']
        attrs[n] = d
        if rng.random() < 0.85:
            desc[n] = pick(rng, [1, 2, '3', 4, 0]) if t == 'int' else pick(rng, ['x', 'foo', 'foobar', 'y', ''])
    extra_names = ['release', 'geo', 'nowhere']
    for e in extra_names[:2]:
        if rng.random() < 0.5:
            dfl[pick(rng, [e, e.upper()])] = pick(rng, [1, 2, 3, 0]) if e == 'release' else pick(rng, ['x', 'foo', 'foobar'])
    if rng.random() < 0.1:
        desc['geo'] = 'foo'
    for n in attrs:
        # a setup default for an attribute of the footprint: it only counts when the description is silent
        if rng.random() < 0.25:
            dfl[pick(rng, [n, n.lower()])] = pick(rng, [1, 2, 3]) if attrs[n]['type'] == 'int' else pick(rng, ['x', 'foo', 'foobar'])
    for _ in range(rng.randrange(0, 4)):
        k = pick(rng, sorted(attrs) * 2 + extra_names)
        isint = attrs[k]['type'] == 'int' if k in attrs else k == 'release'
        pal = [1, 2, 3, 4, 0] if isint else ['x', 'foo', 'foobar', 'bar', '']
        r = rng.random()
        if r < 0.4:
            n = rng.randrange(1, 3)
            v = pick(rng, pal) if n == 1 and rng.random() < 0.5 else mk(pick(rng, ['list', 'tuple', 'set', 'FPList']), [pick(rng, pal) for _ in range(n)])
            only[pick(rng, ['after_', 'before_']) + k] = v
        else:
            if not isint and rng.random() < 0.4:
                items = [mk('re', pick(rng, ['fo+$', 'foo', 'x|y', '.*bar', '^$'])) if rng.random() < 0.6 else pick(rng, pal) for _ in range(rng.randrange(1, 3))]
                if rng.random() < 0.3:
                    items = [mk('FPRegex', 'fo+$')]
            else:
                items = [pick(rng, pal) for _ in range(rng.randrange(1, 4))]
            if len(items) == 1 and rng.random() < 0.6:
                only[k] = items[0]
            else:
                only[k] = mk(pick(rng, ['list', 'tuple']), items)
    return dict(attrs=attrs, desc=desc, defaults=dfl, only=only)


def nontrivial(case):
    return bool(case['only'])


def fixed():
    yield dict(attrs=dict(a=dict()), desc=dict(a='foo'), defaults={}, only=dict(a='foo'))
    yield dict(attrs=dict(a=dict()), desc=dict(a='f'), defaults={}, only=dict(a='foo'))
    yield dict(attrs=dict(a=dict()), desc=dict(a='f'), defaults={}, only=dict(nowhere='foo'))
    yield dict(attrs=dict(a=dict(type='int')), desc=dict(a=5), defaults={}, only=dict(after_a=5, before_a=6))
    yield dict(attrs=dict(a=dict(type='int')), desc=dict(a=6), defaults={}, only=dict(before_a=6))


def clause(name, items, vals, dfl):
    mode = 'eq'
    if name.startswith('after_'):
        mode, name = 'after', name[len('after_'):]
    elif name.startswith('before_'):
        mode, name = 'before', name[len('before_'):]
    v = vals.get(name, None)
    if name not in vals:
        v = dfl.get(name.lower())
    if v is None or v is spec.NOVALUE:
        return False
    if not isinstance(items, (list, tuple, set)):
        items = [items]
    for x in items:
        if mode == 'after':
            if v >= x:
                return True
        elif mode == 'before':
            if v < x:
                return True
        elif hasattr(x, 'match'):
            if re.match(x.pattern, v):
                return True
        elif x == v:
            return True
    return False


def eligible(attrs, only, desc, defaults, cb=None):
    """Acceptable outcomes of couldbe for a class (attrs and only being decoded definitions)."""
    out = spec.resolve(attrs, desc, defaults, cb)
    if out is None:
        return None
    low = spec.lower_defaults(defaults)
    res = []
    for o in out:
        if o[0] == 'ok' and not all(clause(k, v, o[1], low) for k, v in only.items()):
            o = ('reject',)
        res.append(o)
    return res


def run(case):
    attrs = decode_attrs(case['attrs'])
    only = decd(case['only'])
    with Env(case) as env:
        tag = fresh('t')
        cls = mkclass(decode_attrs(case['attrs']), tag=tag, only=decd(case['only']))
        try:
            desc = decd(case['desc'])
            expected = eligible(attrs, only, desc, env.defaults)
            coll = collectors.get(tag=tag)
            log = reporting.FootprintLog(tag=fresh('log'), new=True)
            log.add(collector=coll)
            for rep in (None, log, reporting.NullReport()):
                def cb():
                    r, i = cls.footprint_couldbe(desc, report=rep)
                    return (r or None, i)
                got = spec.observe(cb)
                why = spec.match(expected, got)
                ensure(why is None, 'couldbe (report=%s): %s', type(rep).__name__, why)
            got = spec.observe(lambda: (lambda x: (x[0][1], x[0][2]) if x else (None, None))(coll.find_all(desc)))
            why = spec.match(expected, got)
            ensure(why is None, 'find_all: %s', why)
            reporting.FootprintLog._tag_table.pop(log.tag, None)
        finally:
            forget(tag)
    return 'unspecified' if expected is None else '/'.join(sorted({e[0] for e in expected}))
