"""P05 selection."""
from collgen import *       # noqa
RULE = ('random collections of 1-8 classes (four attributes, priorities, only clauses) and descriptions; all / best / any / load compared with '
        'the contract in every reporting mode, with at most 30 registration orders; non trivial: two classes or more')
N = dict(quick=8000, thorough=40000)


def gen(rng):
    classes = gen_coll(rng)
    desc = gen_colldesc(rng, classes)
    dfl = dict(release=pick(rng, ['x', 'q'])) if rng.random() < 0.4 else {}
    if rng.random() < 0.15:
        dfl['kind'] = 'x'
    return dict(classes=classes, desc=desc, defaults=dfl, report=rng.randrange(4), relevel=rng.random() < 0.15)


def nontrivial(case):
    return len(case['classes']) > 1


def fixed():
    c = dict(attrs=dict(kind=dict(values=['x'])))
    c2 = dict(attrs=dict(kind=dict(values=['x']), a=dict(optional=True, default='u')))
    for l1 in ('none', 'default', 'toolbox', 'debug'):
        for l2 in ('none', 'default', 'toolbox', 'debug'):
            for desc in (dict(kind='x'), dict(kind='x', a='v'), dict(kind='y')):
                yield dict(classes=[dict(c, level=l1), dict(c2, level=l2)], desc=desc, defaults={}, report=1)
    for rep in range(4):
        yield dict(classes=[dict(c, level='default')], desc=dict(kind='no'), defaults={}, report=rep)
        yield dict(classes=[dict(c, level='default', only=dict(nowhere='x'))], desc=dict(kind='x'), defaults={}, report=rep)


def run(case):
    with Env(case) as env:
        tag = fresh('t')
        try:
            built = build(case, tag)
            coll = collectors.get(tag=tag)
            coll.report = case['report']
            desc = decd(case['desc'])
            before = snap(desc)
            exp = expected_all(built, desc, env.defaults)
            if exp is None:
                return 'unspecified'
            if case.get('relevel') and built:
                built[0][0].footprint_retrieve().priority['level'] = priorities.top.level('debug')
            check_found(coll.find_all(desc), exp)
            check_choice(coll.find_any(desc), exp, False)
            check_choice(coll.find_best(desc), exp, True)
            ensure(snap(desc) == before, 'the description was modified by the search')
            check_choice(F.load(tag=tag, _emptywarning=False, **desc), exp, True)
            # a search does not depend on the former ones
            check_found(coll.find_all(desc), exp)
            return 'eligible=%d' % min(3, len(exp))
        finally:
            forget(tag)
