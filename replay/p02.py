"""P02 where the value of each attribute comes from."""
from resgen import *        # noqa
RULE = ('random footprint (1-5 attributes with aliases and defaults), description and setup defaults (mixed case names, None values, '
        'unrelated keys); values and input set compared with the precedence contract; non trivial: an alias, a setup default or a '
        'declared default is involved')
N = dict(quick=20000, thorough=100000)


def gen(rng):
    attrs = gen_attrs(rng, nmax=5, types=['str', 'int', 'object'], remap=rng.random() < 0.2, ranges=rng.random() < 0.3)
    desc, dfl = gen_desc(rng, attrs, pgive=0.6)
    for k in list(desc):
        if rng.random() < 0.12:
            desc[k] = None
    case = dict(attrs=attrs, desc=desc, defaults=dfl)
    if rng.random() < 0.25:
        case['warm'] = gen_desc(rng, attrs, pgive=0.7)[0]
    return case


def nontrivial(case):
    return bool(case.get('sequence') or case['defaults']) or any(d.get('alias') or d.get('default') is not None for d in case['attrs'].values())


def fixed():
    for given in (False, True):
        yield dict(sequence=True, given=given)


class Sequence:
    """A footprint value object: its value is the one of the time of the resolution."""
    count = 0

    def footprint_value(self):
        Sequence.count += 1
        return 'v%d' % Sequence.count


def run_sequence(case):
    with Env({}):
        tag = fresh('t')
        Sequence.count = 0
        cls = mkclass(dict(a=dict(), b=dict(optional=True, default=Sequence()), c=dict(optional=True, default=3, type=int)), tag=tag)
        try:
            fp = cls.footprint_retrieve()
            for i in range(4):
                Sequence.count = 10 * i
                desc = dict(a='x', b='given') if case['given'] and i == 2 else dict(a='x')
                r = fp.resolve(desc, fatal=False)[0]
                want = 'given' if 'b' in desc else 'v%d' % (10 * i + 1)
                ensure(r == dict(a='x', b=want, c=3), 'resolution no %d: %s, the default value object gives %s', i, r, want)
                Sequence.count = 10 * i + 5
                o = cls(**desc)
                want = 'given' if 'b' in desc else 'v%d' % (10 * i + 6)
                ensure(o.b == want, 'object no %d: %s, the default value object gives %s', i, o.b, want)
        finally:
            forget(tag)
    return 'sequence'


def run(case):
    if case.get('sequence'):
        return run_sequence(case)
    return check_resolution(case, routes=True)
