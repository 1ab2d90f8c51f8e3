"""P01 accepted resolutions conform to the declared footprint."""
from resgen import *        # noqa
RULE = ('random footprint (1-4 attributes over 16 types, values / outcast / remap / isclass / args / defaults) and description; '
        'each is resolved through resolve, couldbe and instantiation and compared with the contract; '
        'non trivial: at least one attribute has a range, a remap, a class or a conversion')
N = dict(quick=20000, thorough=100000)


def gen(rng):
    attrs = gen_attrs(rng)
    desc, dfl = gen_desc(rng, attrs, pgive=0.9, extra=False)
    if rng.random() < 0.7:
        dfl = {}
    case = dict(attrs=attrs, desc=desc, defaults=dfl, fastmode=rng.random() < 0.2)
    if rng.random() < 0.15:
        case['warm'] = gen_desc(rng, attrs, pgive=0.7)[0]
    return case


def nontrivial(case):
    return any(set(d) - {'optional', 'default'} for d in case['attrs'].values())


def fixed():
    yield dict(attrs=dict(a=dict(remap=[['x', 'y'], ['y', 'x']])), desc=dict(a='x'), termination=True)
    yield dict(attrs=dict(a=dict(remap=[['a', 'a']])), desc=dict(a='a'), termination=True)
    for v in range(1, 60):
        yield dict(attrs=dict(a=dict(type='int', values=[str(i) for i in range(v)] + list(range(v, 2 * v)))), desc=dict(a=str(v // 2)))


def run(case):
    if case.get('termination'):
        with Env(case):
            tag = fresh('t')
            cls = mkclass(decode_attrs(case['attrs']), tag=tag)
            guarded(lambda: cls.footprint_retrieve().resolve(decd(case['desc']), fatal=False))
            forget(tag)
        return 'terminates'
    return check_resolution(case)
