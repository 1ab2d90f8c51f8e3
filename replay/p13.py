"""P13 registration, filters and discards."""
from collgen import *       # noqa
RULE = ('random class definitions (abstract, explicit, several collectors, conflicting attribute or alias names), filters and discards by '
        'package, flag and level, in random orders and with random spellings of the tags, resets of package priorities; the registered classes '
        'compared with a model after each step; non trivial: a definition and at least one operation')
N = dict(quick=10000, thorough=50000)
MODS = ['vfqa', 'vfqa.sub', 'vfqab', 'vfqb']
LV = ['none', 'default', 'toolbox', 'debug']


def gen(rng):
    classes = []
    for i in range(rng.randrange(1, 6)):
        c = gen_class(rng)
        c['level'] = pick(rng, LV)
        c['module'] = pick(rng, MODS)
        c['abstract'] = rng.random() < 0.2
        c['explicit'] = rng.random() < 0.7
        c['colls'] = sub(rng, ['one', 'two', 'threes'], 0.6) or ['one']
        c['flag'] = pick(rng, [None, True, False, 'x'])
        r = rng.random()
        if r < 0.1:
            c['clash'] = ['attr', pick(rng, ['one', 'two', 'threes'])]
        elif r < 0.2:
            c['clash'] = ['alias', pick(rng, ['one', 'two', 'threes'])]
        if 'clash' in c and rng.random() < 0.5:
            c['clash'].append('clean')
        classes.append(c)
    ops = []
    for _ in range(rng.randrange(1, 8)):
        r = rng.random()
        t = pick(rng, ['one', 'two', 'threes'])
        if r < 0.3:
            ops.append([pick(rng, ['filter', 'filter', 'discard']), t, 'package', pick(rng, MODS + ['vfq', '', 'zz', 'vfqa.Kls'])])
        elif r < 0.5:
            ops.append([pick(rng, ['filter', 'filter', 'discard']), t, 'flag', pick(rng, [True, False, 'x', 1])])
        elif r < 0.75:
            ops.append([pick(rng, ['filter', 'filter', 'discard']), t, pick(rng, ['higher', 'lower']), pick(rng, LV)])
        elif r < 0.85:
            ops.append(['reset', t, pick(rng, MODS), pick(rng, LV)])
        elif r < 0.9:
            ops.append(['resetall', t, pick(rng, MODS), pick(rng, LV)])
        else:
            ops.append(['tag', t, rng.randrange(4)])
    return dict(classes=classes, ops=ops)


def nontrivial(case):
    return bool(case['ops'])


def fixed():
    for e in (True, False):
        for opt in (True, False):
            for ab in (True, False):
                yield dict(classes=[dict(attrs=dict(a=dict(optional=opt)), level='default', module='vfqa', abstract=ab, explicit=e, colls=['one'], flag=None)],
                           ops=[['filter', 'one', 'package', 'vfqa'], ['filter', 'one', 'higher', 'default'], ['filter', 'one', 'lower', 'default'],
                                ['filter', 'one', 'lower', 'debug']])


SPELL = [str.lower, str.upper, lambda t: t + 's', lambda t: t.title() + 'SS']


def run(case):
    base = fresh('g')
    names = {t: base + t for t in ('one', 'two', 'threes')}
    objs = []
    with Env({}):
        try:
            reg = {t: [] for t in names}
            absr = {t: [] for t in names}
            alive = []
            for i, c in enumerate(case['classes']):
                attrs = decode_attrs(c['attrs'])
                ctags = [names[t] for t in c['colls']]
                bad = False
                if 'clash' in c:
                    # an attribute (or alias) spelled as the collector's tag
                    nm = names[c['clash'][1]]
                    if len(c['clash']) > 2:
                        nm = nm.lower().rstrip('s')
                    if c['clash'][0] == 'attr':
                        attrs[nm] = dict()
                    else:
                        attrs[sorted(attrs)[0]]['alias'] = [nm]
                    bad = nm in ctags or nm in [x.lower().rstrip('s') for x in ctags]
                mand = [n for n, d in attrs.items() if not d.get('optional')]
                bad = bad or (c['explicit'] and not c['abstract'] and not mand)
                more = dict()
                if c['flag'] is not None:
                    more['vf_flag'] = classmethod(lambda cls, f=c['flag']: f)
                snapreg = {t: list(collectors.get(tag=names[t]).items()) for t in names}
                st, cls = guarded(mkclass, attrs, only={}, level=c['level'], tag=tuple(ctags), name='Kls%d' % i, explicit=c['explicit'],
                                  abstract=c['abstract'], module=c['module'], **more)
                if bad:
                    ensure(st == 'raise' and isinstance(cls, F.FootprintInvalidDefinition), 'a wrong definition is accepted (or raises %r)', cls)
                    for t in names:
                        ensure(set(collectors.get(tag=names[t]).items()) == set(snapreg[t]), 'a refused class is registered')
                    continue
                ensure(st == 'ok', 'the class definition raises %r', cls)
                alive.append((cls, c))
                for t in c['colls']:
                    (absr if c['abstract'] else reg)[t].append(cls)
                if c['abstract']:
                    st, o = guarded(cls, **{n: 'x' for n in attrs})
                    ensure(st == 'raise' and isinstance(o, F.FootprintInvalidDefinition), 'an abstract class is instantiated')
            info = {cls: c for cls, c in alive}
            level = {cls: c['level'] for cls, c in alive}

            def check(what):
                for t, n in names.items():
                    coll = collectors.get(tag=n)
                    ensure(len(list(coll.items())) == len(reg[t]) and set(coll.items()) == set(reg[t]), '%s: registered classes of %s: %s instead of %s', what, t,
                           sorted(x.__name__ for x in coll.items()), sorted(x.__name__ for x in reg[t]))
                    ensure(set(coll.abstract_classes) == set(absr[t]), '%s: abstract classes', what)
                for cls in info:
                    ensure(cls.footprint_level().lower() == level[cls], '%s: level of %s is %s instead of %s', what, cls.__name__, cls.footprint_level(), level[cls])
            check('definitions')
            for t, n in names.items():
                coll = collectors.get(tag=n)
                for cls in absr[t]:
                    full = {k: 'x' for k in cls.footprint_retrieve().attr}
                    ensure(all(x[0] is not cls for x in coll.find_all(full)), 'an abstract class is selected')
            order = LV
            for op in case['ops']:
                coll = collectors.get(tag=names[op[1]])
                if op[0] in ('filter', 'discard'):
                    kind, arg = op[2], op[3]
                    if kind == 'package':
                        want = [c for c in reg[op[1]] if (info[c]['module'] + '.' + c.__name__).startswith(arg)]
                        args = (arg,)
                    elif kind == 'flag':
                        want = [c for c in reg[op[1]] if info[c]['flag'] is not None and info[c]['flag'] == arg]
                        kind, args = 'onflag', ('vf_flag', arg)
                    elif kind == 'higher':
                        want = [c for c in reg[op[1]] if order.index(level[c]) >= order.index(arg)]
                        kind, args = 'higher_level', (arg,)
                    else:
                        want = [c for c in reg[op[1]] if order.index(level[c]) < order.index(arg)]
                        kind, args = 'lower_level', (arg,)
                    got = getattr(coll, 'filter_' + kind)(*args)
                    ensure(len(got) == len(want) and set(got) == set(want), 'filter_%s%r: %s instead of %s', kind, args, sorted(x.__name__ for x in got), sorted(x.__name__ for x in want))
                    if op[0] == 'discard':
                        getattr(coll, 'discard_' + kind)(*args, verbose=False)
                        reg[op[1]] = [c for c in reg[op[1]] if c not in want]
                elif op[0] == 'reset':
                    coll.reset_package_level(op[2], op[3])
                    for c in reg[op[1]]:
                        if (info[c]['module'] + '.' + c.__name__).startswith(op[2]):
                            level[c] = op[3]
                elif op[0] == 'resetall':
                    F.reset_package_priority(op[2], op[3])
                    for c in {c for v in reg.values() for c in v}:
                        if (info[c]['module'] + '.' + c.__name__).startswith(op[2]):
                            level[c] = op[3]
                elif op[0] == 'tag':
                    ensure(collectors.get(tag=SPELL[op[2]](names[op[1]])) is coll, 'the collector is not found under %s', SPELL[op[2]](names[op[1]]))
                check(op)
            ensure(F.collected_classes() >= {c for v in reg.values() for c in v}, 'collected_classes')
            return 'classes=%d' % len(info)
        finally:
            for n in names.values():
                forget(n)
