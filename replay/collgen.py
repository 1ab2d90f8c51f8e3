"""Generators of collections of classes (P05, P06, P07, P12, P13, P17)."""
from resgen import *        # noqa
from p04 import eligible

LEVELS = ['none', 'default', 'default', 'toolbox', 'debug']


def gen_small_attr(rng, name):
    d = dict()
    t = pick(rng, ['str', 'str', 'int', 'Num'] if name != 'kind' else ['str', 'str', 'str', 'int'])
    if t != 'str':
        d['type'] = t
    if t == 'Num' and rng.random() < 0.5:
        d['args'] = dict(scale=pick(rng, [1, 2]))
    vals = ['x', 'y', 'z'] if t == 'str' else [1, 2, 3]
    r = rng.random()
    if r < 0.6:
        d['values'] = sub(rng, vals, 0.6)
    elif r < 0.7:
        d['outcast'] = [pick(rng, vals)]
    if rng.random() < 0.2:
        d['remap'] = [[pick(rng, ['w', 'v', 4, '9']), pick(rng, vals)]]
    if rng.random() < 0.35:
        d['optional'] = True
        if rng.random() < 0.6:
            d['default'] = pick(rng, vals)
    if rng.random() < 0.15:
        d['alias'] = [name + '_al']
    return d


def gen_class(rng, names=('kind', 'a', 'b', 'c')):
    k = rng.randrange(1, 4)
    chosen = rng.sample(list(names), min(k, len(names)))
    c = dict(attrs={n: gen_small_attr(rng, n) for n in chosen}, level=pick(rng, LEVELS))
    if rng.random() < 0.2:
        n = pick(rng, chosen + ['release'])
        c['only'] = {n: mk('tuple', ['x', 1, 'y'])}
    return c


def gen_coll(rng, nmax=6):
    base = [gen_class(rng) for _ in range(rng.randrange(1, nmax + 1))]
    if rng.random() < 0.3 and base:         # near duplicates, so that several are eligible
        b = pick(rng, base)
        for _ in range(rng.randrange(1, 3)):
            base.append(dict(b, level=pick(rng, LEVELS)))
    return base


def gen_colldesc(rng, classes):
    desc = dict()
    names = sorted({n for c in classes for n in c['attrs']})
    src = pick(rng, classes)
    for n in names:
        d = src['attrs'].get(n)
        if d is None:
            if rng.random() < 0.4:
                desc[n] = pick(rng, ['x', 'y', 1, 2])
            continue
        key = n
        if d.get('alias') and rng.random() < 0.5:
            key = d['alias'][0]
        if rng.random() < (0.6 if d.get('optional') else 0.95):
            if d.get('values') and rng.random() < 0.75:
                v = pick(rng, d['values'])
                if rng.random() < 0.2 and d.get('type') == 'int':
                    v = str(v)
            elif d.get('remap') and rng.random() < 0.5:
                v = d['remap'][0][0]
                if rng.random() < 0.4 and isinstance(v, int):
                    v = str(v)
            else:
                v = pick(rng, ['x', 'y', 'z', 'q', 1, 2, '3', 4])
            desc[key] = v
    for e in ('ex1', 'foo'):
        if rng.random() < 0.2:
            desc[e] = pick(rng, ['e', 5, mk('list', [1])])
    return desc


def build(case, tag):
    """-> list of (class, attrs, only)"""
    out = []
    for i, c in enumerate(case['classes']):
        cls = mkclass(decode_attrs(c['attrs']), only=decd(c.get('only', {})), level=c.get('level'), tag=tag, name='Kls%d' % i)
        out.append((cls, decode_attrs(c['attrs']), decd(c.get('only', {}))))
    return out


def expected_all(built, desc, defaults, cb=None):
    """{class: ('ok', values, inputs)} of the eligible classes, or None when unspecified."""
    res = dict()
    for cls, attrs, only in built:
        out = eligible(attrs, only, dict(desc), defaults, cb)
        if out is None or len({o[0] for o in out}) != 1:
            return None
        if out[0][0] == 'ok':
            res[cls] = out
        elif out[0][0] != 'reject':
            return None
    return res


def check_found(found, exp):
    classes = [x[0] for x in found]
    ensure(len(classes) == len(set(classes)), 'a class was returned twice')
    ensure(set(classes) == set(exp), 'candidates %s instead of %s', sorted(c.__name__ for c in classes), sorted(c.__name__ for c in exp))
    for cls, resolved, inputs in found:
        why = spec.match(exp[cls], ('ok', resolved, inputs))
        ensure(why is None, 'candidate %s: %s', cls.__name__, why)


def check_choice(obj, exp, best):
    if not exp:
        ensure(obj is None, 'no class is eligible but got %r', type(obj))
        return
    ensure(obj is not None, 'got None, while %s are eligible', sorted(c.__name__ for c in exp))
    cls = type(obj)
    ensure(cls in exp, 'instance of a non eligible class %s', cls.__name__)
    why = spec.match(exp[cls], ('ok', dict(obj._attributes), None))
    ensure(why is None, 'chosen object: %s', why)
    if best:
        order = list(priorities.top())

        def weight(c):
            return (order.index(c.footprint_pl().tag), max(len(o[2]) for o in exp[c]))
        top = max(weight(c) for c in exp)
        ensure(weight(cls) == top, 'chosen %s of weight %s, the best one being %s', cls.__name__, weight(cls), top)
