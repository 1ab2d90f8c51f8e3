"""P03 bracketed references."""
from resgen import *        # noqa
RULE = ('random templates over 1-8 attributes and extras (names, attributes, methods, fallbacks, formats, special characters, cycles, chains '
        'declared in random order), plus chains of 2-25 attributes in every rotation and footprints of up to 80 attributes; non trivial: '
        'at least one reference')
N = dict(quick=8000, thorough=60000)
LITS = ['', 'x', 'a\\1b', 'c:\\new', '\\g<0>', '$', '[', ']', '{0}', '%s', '[]', '..', 'None', '.+', '\\', '[a b]', 'é']


def tmpl(rng, names, meths=True):
    out = ''
    for _ in range(rng.randrange(1, 4)):
        r = rng.random()
        if r < 0.4:
            out += pick(rng, LITS[:10] if rng.random() < 0.8 else LITS)
        else:
            n = pick(rng, names)
            if n == 'hold':
                out += pick(rng, ['[hold:u]', '[hold::u]', '[hold:shout]', '[hold:w]', '[hold:other]', '[hold:nothing]', '[hold:missing]', '[hold]',
                                  '[hold:n%04d]', '[hold:h:u]', '[hold:empty]', '[hold:zero]', '[hold:known]', '[hold:z]', '[hold:h:z%02d]'])
            elif n == 'num':
                out += pick(rng, ['[num]', '[num%03d]', '[num%+d]', '[num%s]', '[num:real]', '[num:conjugate]', '[num#9%02d]', '[num%:03d]', '[num%!r]'])
            elif n == 'miss':
                out += pick(rng, ['[miss#fb]', '[miss#fb%03d]', '[miss:x#fb]', '[miss]', '[miss#01]'])
            else:
                out += pick(rng, ['[%s]', '[%s]', '[%s]', '[%s#fb]', '[%s#fb]'] + (['[%s:upper]', '[%s%%>4s]', '[%s:lower:upper]'] if meths else [])) % n
    return out


def gen(rng):
    names = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'][:rng.randrange(1, 9)]
    rng.shuffle(names)
    pool = names + ['ex1', 'hold', 'num'] + (['miss'] if rng.random() < 0.3 else [])
    attrs, desc = dict(), dict()
    acyclic = rng.random() < 0.75
    for i, n in enumerate(names):
        d = dict()
        cand = pool
        if acyclic:
            cand = [x for x in pool if x not in names or names.index(x) < i]
        v = tmpl(rng, cand, acyclic) if rng.random() < 0.7 else pick(rng, ['v%d' % i, 3, 'w'])
        if rng.random() < 0.15 and isinstance(v, int):
            d['type'] = 'int'
        if rng.random() < 0.4:
            d['optional'] = True
            d['default'] = v
        else:
            desc[n] = v
        if rng.random() < 0.1:
            d['remap'] = [['v1', 'remapped']]
        if rng.random() < 0.05:
            d['optional'] = True
            d.pop('default', None)
            desc.pop(n, None)
        attrs[n] = d
    order = list(attrs)
    rng.shuffle(order)
    attrs = {n: attrs[n] for n in order}
    case = dict(attrs=attrs, desc=desc, defaults={}, callback={})
    for name, v in (('ex1', pick(rng, ['E', 'C:\\temp\\new', '\\1', 12, '[ex2]', '<[a]>' if 'a' in names else 'x'])),
                    ('ex2', pick(rng, ['F', '[ex1]' if rng.random() < 0.2 else 'F2'])),
                    ('hold', mk('Holder', [['u', pick(rng, ['U', 5, '\\n'])], ['n', 42], ['w', None], ['z', pick(rng, [0, '', False, 'Z'])], ['h', mk('Holder', [['u', 'deep'], ['z', 0]])]])),
                    ('num', pick(rng, [3, 12, 7.5]))):
        where = pick(rng, ['desc', 'desc', 'defaults', 'callback'])
        case[where][name] = v
    if rng.random() < 0.2:
        case['fpobj'] = dict(ex3='from-object', ex4='c:\\x')
        k = pick(rng, sorted(attrs))
        if k in case['desc'] and isinstance(case['desc'][k], str):
            case['desc'][k] += '[ex3]'
    if rng.random() < 0.25:
        # an extra value (setup extras, attribute of an object) with the name of an attribute never replaces it
        n = pick(rng, sorted(attrs))
        if rng.random() < 0.5:
            case['callback'][n] = 'EXTRA'
        else:
            case.setdefault('fpobj', dict())[n] = 'EXTRA'
    if rng.random() < 0.1:
        case['extended'] = False
    if rng.random() < 0.3:
        # a second resolution, of a description without some of the names known by the first one
        case['again'] = sub(rng, sorted(k for k in desc if k not in attrs), 0.6)
    return case


def nontrivial(case):
    return any(isinstance(v, str) and '[' in v for v in list(case['desc'].values()) + [d.get('default') for d in case['attrs'].values()])


def fixed():
    for n in (2, 3, 5, 9, 10, 11, 15, 25):
        for rev in (False, True):
            attrs = {}
            for i in range(n):
                j = i + 1 if rev else i - 1
                attrs['x%02d' % i] = dict(optional=True, default='<[x%02d]>' % j if 0 <= j < n else 'z')
            yield dict(attrs=attrs, desc={}, defaults={}, callback={})
    for n in (49, 50, 51, 80):
        yield dict(attrs={'x%02d' % i: dict(optional=True, default='z') for i in range(n)}, desc={}, defaults={}, callback={})
    yield dict(attrs=dict(a=dict()), desc=dict(a='[a]'), defaults={}, callback={})
    yield dict(attrs=dict(a=dict()), desc=dict(a='[b]', b='[b]'), defaults={}, callback={})
    yield dict(attrs=dict(a=dict()), desc=dict(a='[b]', b='[c]', c='[b]'), defaults={}, callback={})
    yield dict(attrs=dict(a=dict(), b=dict()), desc=dict(a='[b]', b='[a]'), defaults={}, callback={})
    yield dict(attrs=dict(a=dict()), desc=dict(a=' '.join('[e%d]' % i for i in range(60)), **{'e%d' % i: i for i in range(60)}), defaults={}, callback={})


def run(case):
    if case.get('fpobj'):
        tag = fresh('o')
        ocls = mkclass({k: {} for k in case['fpobj']}, tag=tag)
        obj = ocls(**case['fpobj'])
        forget(tag)
        return _run(case, obj)
    return _run(case, None)


def _run(case, obj):
    attrs = decode_attrs(case['attrs'])
    with Env(case) as env:
        tag = fresh('t')
        cls = mkclass(decode_attrs(case['attrs']), tag=tag)
        try:
            desc = decd(case['desc'])
            if obj is not None:
                desc['theobj'] = obj
            expected = spec.resolve(attrs, dict(desc), env.defaults, env.cb)
            before = snap(desc)
            for fatal in (False, True):
                if fatal:
                    got = spec.observe(lambda: (cls(dict(desc))._attributes, None))
                else:
                    got = spec.observe(lambda: cls.footprint_retrieve().resolve(desc, fatal=False))
                why = spec.match(expected, got)
                ensure(why is None, '%s: %s', 'instantiation' if fatal else 'resolve', why)
            ensure(snap(desc) == before, 'the description was modified by the resolution')
            if 'again' in case:
                F.setup.callback = lambda: env.cb
                guarded(lambda: cls.footprint_retrieve().resolve(desc, fatal=False))
                d2 = {k: v for k, v in desc.items() if k not in case['again']}
                exp2 = spec.resolve(attrs, dict(d2), env.defaults, decd(case.get('callback', {})))
                why = spec.match(exp2, spec.observe(lambda: cls.footprint_retrieve().resolve(d2, fatal=False)))
                ensure(why is None, 'a later resolution: %s', why)
                cache = collectors.ResolveCache()
                guarded(lambda: cls.footprint_retrieve().resolve(desc, fatal=False, resolvecache=cache))
                why = spec.match(exp2, spec.observe(lambda: cls.footprint_retrieve().resolve(d2, fatal=False, resolvecache=cache)))
                ensure(why is None, 'a later resolution with the same cache: %s', why)
        finally:
            forget(tag)
    return 'unspecified' if expected is None else '/'.join(sorted({e[0] for e in expected}))
