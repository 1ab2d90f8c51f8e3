"""Generators of footprint definitions and descriptions for P01-P06."""
from base import *          # noqa
import spec

NAMES = ['a', 'b', 'c', 'd', 'kind', 'k_9', 'Up']
ALIASES = ['al1', 'al2', 'al3', 'Al4']
EXTRA = ['ex1', 'ex2', 'zz']

# type name -> (candidate declared values, candidate given values)
PAL = {
    'int': ([1, 2, 3, '4', 5, 0, -1], [1, '2', 3, '4', 'x', 7, True, 2.5, '', 0, -1, '03', mk('list', [1])]),
    'str': (['x', 'y', 'z', 'xyz', '1', 2, 'None', ''], ['x', 'y', 'z', 'q', 1, 2, 'xyz', True, '', 'None', mk('FPStr', 'x'), mk('list', ['x'])]),
    'float': ([1.0, 2, '2.5', 0.0], [1, '2.5', 2.5, 'x', mk('inf', 0), 0]),
    'bool': ([True, False], [True, False, 0, 1, '', 'x']),
    'object': ([1, 'x', 2.0, mk('tuple', [1])], [1, 'x', mk('list', [1]), mk('tuple', [1]), mk('dict', [['k', 1]]), 2, False]),
    'list': ([], ['ab', mk('list', [1, 2]), 3, mk('tuple', ['x']), '']),
    'tuple': ([mk('tuple', [1, 2]), mk('tuple', [])], [mk('tuple', [1, 2]), mk('list', [1, 2]), 'ab', 3, mk('tuple', [mk('list', [1])])]),
    'FPList': ([mk('FPList', [1, 2])], [mk('FPList', [1, 2]), mk('list', [1, 2]), 'ab', 5]),
    'FPTuple': ([mk('FPTuple', [1])], [mk('FPTuple', [1]), mk('list', [1]), mk('tuple', [1]), 5]),
    'FPDict': ([mk('FPDict', [['k', 1]])], [mk('FPDict', [['k', 1]]), mk('dict', [['k', 1]]), mk('dict', []), 5]),
    'FPSet': ([mk('FPSet', [1, 2])], [mk('FPSet', [2, 1]), mk('list', [1, 2]), mk('set', [3]), 5]),
    'Num': ([1, '2', mk('Num', 3)], [1, '2', mk('Num', 3), 'x', mk('list', []), '-4', mk('Num', 1)]),
    'Picky': (['x', 'Y', mk('Picky', 'z')], ['x', 'X', 'y', mk('Picky', 'Z'), '', 5]),
    'Holder': ([], [mk('Holder', [['u', 1]]), 3, 'x']),
}
CLS = {'A': ([mk('cls', 'A'), mk('cls', 'B')], [mk('cls', 'A'), mk('cls', 'B'), mk('cls', 'Cx'), 'A', 3]),
       'B': ([mk('cls', 'B')], [mk('cls', 'A'), mk('cls', 'B'), 'B', mk('inst', 'B')])}


def sub(rng, seq, p=0.5):
    return [x for x in seq if rng.random() < p]


def enc_ok(t, v, args):
    """Can the value be a member of values / outcast (convertible and hashable)?"""
    x = dec(v)
    ty = TYPES[t]
    try:
        if not isinstance(x, ty):
            x = ty(x, **args)
        hash(x)
    except Exception:
        return False
    return True


def gen_attr(rng, types=None, alias=None, remap=True, ranges=True):
    d = dict()
    isclass = rng.random() < 0.08 and types is None
    if isclass:
        t = pick(rng, sorted(CLS))
        d['isclass'] = True
        d['type'] = t
        vals, given = CLS[t]
    else:
        t = pick(rng, types or (['int'] * 4 + ['str'] * 5 + ['Num'] * 2 + sorted(PAL)))
        if not (t == 'str' and rng.random() < 0.6):
            d['type'] = t
        vals, given = PAL[t]
    args = dict()
    if t == 'Num' and rng.random() < 0.6:
        d['args'] = args = dict(scale=pick(rng, [1, 2, 10]))
    if ranges and not (isclass and rng.random() < 0.6):
        cand = [v for v in vals if isclass or enc_ok(t, v, args)]
        if rng.random() < 0.5:
            d['values'] = sub(rng, cand, 0.6)
        if rng.random() < 0.25:
            d['outcast'] = sub(rng, cand, 0.4)
    if remap and rng.random() < 0.3 and not isclass:
        keys = [v for v in given if _hashable(v)]
        rm = []
        for _ in range(rng.randrange(1, 4)):
            a, b = pick(rng, keys), pick(rng, given)
            if not any(a2 == a and type(a2) is type(a) for a2, _x in rm):
                rm.append([a, b])
        if rm and not _cyclic(rm):
            d['remap'] = rm
        elif 'remap' in d:
            del d['remap']
        if t == 'str' and d.get('values') and rng.random() < 0.3 and len(d['values']) > 1 and all(isinstance(x, str) for x in d['values']):
            d['remap'] = [['autoremap', 'first']]
    if rng.random() < 0.45:
        d['optional'] = True
        r = rng.random()
        if r < 0.6:
            v = pick(rng, given)
            d['default'] = mk('lazy', v) if rng.random() < 0.2 else v
        elif r < 0.7:
            d['default'] = None
    if alias:
        d['alias'] = alias
    return d


def _hashable(v):
    try:
        hash(dec(v))
        return True
    except TypeError:
        return False


def _cyclic(rm):
    m = dict()
    for a, b in rm:
        m[dec(a)] = dec(b)
    for s in list(m):
        x, n = s, 0
        while _h(x) and x in m:
            x = m[x]
            n += 1
            if n > len(m):
                return True
    return False


def _h(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def given_for(rng, d):
    t = d.get('type', 'str')
    pal = CLS if d.get('isclass') else PAL
    vals, given = pal[t]
    r = rng.random()
    if r < 0.04:
        return None
    if r < 0.5 and d.get('values'):
        return pick(rng, d['values'])
    return pick(rng, given)


def gen_attrs(rng, nmax=4, **kw):
    names = list(NAMES)
    rng.shuffle(names)
    als = list(ALIASES)
    rng.shuffle(als)
    out = dict()
    for n in names[:rng.randrange(1, nmax + 1)]:
        al = []
        if als and rng.random() < 0.3:
            al.append(als.pop())
            if als and rng.random() < 0.4:
                al.append(als.pop())
        out[n] = gen_attr(rng, alias=al, **kw)
    return out


def gen_desc(rng, attrs, pgive=0.8, extra=True):
    """-> (desc, defaults): encoded dictionaries."""
    desc, dfl = dict(), dict()
    for n, d in attrs.items():
        r = rng.random()
        if r < pgive:
            if d.get('alias') and rng.random() < 0.5:
                for a in d['alias']:
                    if rng.random() < 0.7:
                        desc[a] = given_for(rng, d)
                if rng.random() < 0.3:
                    desc[n] = given_for(rng, d)
            else:
                desc[n] = given_for(rng, d)
        if rng.random() < 0.2:
            dfl[pick(rng, [n, n.upper(), n.lower(), n.capitalize()])] = given_for(rng, d)
    dfl2 = dict()
    for k, v in dfl.items():
        if k.lower() not in {x.lower() for x in dfl2}:
            dfl2[k] = v
    if extra:
        for e in EXTRA:
            if rng.random() < 0.15:
                desc[e] = pick(rng, ['v1', 2, None, mk('list', [1])])
            if rng.random() < 0.07:
                dfl2[e] = pick(rng, ['dv', 3])
    items = list(desc.items())
    rng.shuffle(items)
    return dict(items), dfl2


def decd(d):
    return {k: dec(v) for k, v in d.items()}


class Env:
    """Install a case's setup, restore on exit."""

    def __init__(self, case):
        self.case = case

    def __enter__(self):
        reset_setup()
        self.defaults = decd(self.case.get('defaults', {}))
        F.setup.defaults = dict(self.defaults)
        cb = decd(self.case.get('callback', {}))
        self.cb = cb
        F.setup.callback = (lambda: dict(cb)) if cb else None
        F.setup.fastmode = bool(self.case.get('fastmode', False))
        F.setup.extended = bool(self.case.get('extended', True))
        return self

    def __exit__(self, *a):
        reset_setup()
        return False


def check_resolution(case, routes=True):
    """The full resolution contract on one case; returns the class of outcome (for statistics)."""
    attrs = decode_attrs(case['attrs'])
    with Env(case) as env:
        tag = fresh('t')
        cls = mkclass(decode_attrs(case['attrs']), tag=tag)
        try:
            desc = decd(case['desc'])
            expected = spec.resolve(attrs, dict(desc), env.defaults, env.cb)
            before, dbefore = snap(desc), snap(dict(F.setup.defaults))
            fp = cls.footprint_retrieve()
            got = spec.observe(lambda: fp.resolve(desc, fatal=False))
            why = spec.match(expected, got)
            ensure(why is None, 'resolve: %s', why)
            ensure(snap(desc) == before, 'the description was modified by the resolution')
            ensure(snap(dict(F.setup.defaults)) == dbefore, 'the setup defaults were modified by the resolution')
            if got[0] == 'ok':
                ensure(set(got[1]) == set(attrs), 'keys of the resolution: %s', sorted(got[1]))
            if case.get('warm') is not None:
                # a cache shared with the resolution of another description changes nothing
                cache = collectors.ResolveCache()
                other = decd(case['warm'])
                guarded(lambda: fp.resolve(other, fatal=False, resolvecache=cache))
                for how in ('a shared cache', 'a shared cache, again'):
                    got = spec.observe(lambda: fp.resolve(desc, fatal=False, resolvecache=cache))
                    why = spec.match(expected, got)
                    ensure(why is None, 'resolve with %s: %s', how, why)
                ensure(snap(dict(F.setup.defaults)) == dbefore, 'the setup defaults were modified through the cache')
            if routes:
                def cb():
                    r, i = cls.footprint_couldbe(desc)
                    return (r or None, i)
                why = spec.match(expected, spec.observe(cb))
                ensure(why is None, 'couldbe: %s', why)
                ensure(snap(desc) == before, 'the description was modified by couldbe')
                box = []

                def inst():
                    o = cls(dict(desc))
                    box.append(o)
                    return dict(o._attributes), None
                got = spec.observe(inst)
                why = spec.match(expected, got)
                ensure(why is None, 'instantiation: %s', why)
                if got[0] == 'reject':
                    ok = guarded(lambda: cls(dict(desc)))[1]
                    ensure(isinstance(ok, F.FootprintFatalError), 'instantiation raises %r', ok)
                if got[0] == 'ok' and expected:
                    o = box[0]
                    for k in attrs:
                        w = getattr(o, k)
                        ok = [e for e in expected if e[0] == 'ok' and
                              ((e[1][k] is spec.NOVALUE and w is None) or
                               (e[1][k] is not spec.NOVALUE and same(e[1][k], w)))]
                        ensure(ok, 'attribute %s reads as %r', k, w)
                    ensure(o.footprint_attributes == sorted(attrs), 'attributes of the object')
        finally:
            forget(tag)
        if expected is None:
            return 'unspecified'
        return '/'.join(sorted({e[0] for e in expected}))
