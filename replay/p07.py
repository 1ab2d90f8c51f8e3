"""P07 pickup consumes exactly the attributes of the chosen class."""
from collgen import *       # noqa
RULE = ('random collections and descriptions with unrelated, hidden (underscored) and alias keys, the tag being absent, None or already '
        'defined; the description after pickup and the loaded object are compared with the contract; non trivial: an unrelated or hidden key')
N = dict(quick=15000, thorough=75000)


def gen(rng):
    classes = gen_coll(rng, 4)
    desc = gen_colldesc(rng, classes)
    for n, v in (('_hidden', 1), ('_report', False), ('_emptywarning', False), ('_x', 'y'), ('other', mk('list', [1])), ('Kind', 'q'),
                 ('a_', 3), ('a_al', 'x'), ('kind_al', 'y'), ('none', None), ('_kind', 0), ('_other', 5), ('_a', 'x')):
        if rng.random() < 0.2:
            desc[n] = v
    items = list(desc.items())
    rng.shuffle(items)
    return dict(classes=classes, desc=dict(items), defaults={}, predefined=pick(rng, [0, 0, 0, 0, 'none', 'obj', 'falsy', 'foreign']))


def nontrivial(case):
    return any(k.startswith('_') or k in ('other', 'Kind', 'a_') for k in case['desc'])


def fixed():
    return
    yield


def run(case):
    with Env(case) as env:
        tag, tag2 = fresh('t'), fresh('u')
        try:
            built = build(case, tag)
            coll = collectors.get(tag=tag)
            ensure(coll.tag == tag, 'tag')
            desc = decd(case['desc'])
            visible = {k: v for k, v in desc.items() if not k.startswith('_')}
            pre = None
            if case['predefined'] in ('obj', 'foreign', 'falsy'):
                more = dict(__len__=lambda self: 0) if case['predefined'] == 'falsy' else {}
                pre = mkclass(dict(kind=dict(optional=True, alias=['kind_al']), a=dict(optional=True)), tag=tag2, **more)(kind='p')
                desc[tag] = pre
            elif case['predefined'] == 'none':
                desc[tag] = None
            exp = expected_all(built, dict(visible, **({tag: None} if case['predefined'] == 'none' else {})), env.defaults)
            if exp is None:
                return 'unspecified'
            keep = dict(desc)
            n0 = len(coll.instances)
            out = F.pickup(dict(desc, tag=tag)) if len(desc) % 2 else coll.pickup(desc)
            obj = out.get(tag)
            ensure(tag in out, 'the tag is missing from the outcome')
            if pre is not None:
                ensure(obj is pre, 'the predefined object was replaced')
                ensure(len(coll.instances) == n0, 'an object was created although one was given')
                gone = {'kind', 'kind_al', 'a'}
            else:
                check_choice(obj, exp, True)
                gone = set()
                if obj is not None:
                    for n, d in [b for b in built if b[0] is type(obj)][0][1].items():
                        gone.add(n)
                        gone.update(d.get('alias', ()))
            want = {k: v for k, v in keep.items() if k not in gone and not k.startswith('_') and k != tag}
            rest = {k: v for k, v in out.items() if k != tag}
            ensure(set(rest) == set(want), 'remaining keys %s instead of %s', sorted(rest), sorted(want))
            for k in want:
                ensure(rest[k] is want[k], 'the value of %s was changed', k)
            got = F.load(**dict(keep, tag=tag))
            if pre is not None:
                ensure(got is pre, 'load does not return the predefined object')
            else:
                check_choice(got, exp, True)
            return 'found' if obj is not None else 'none'
        finally:
            forget(tag)
            forget(tag2)
