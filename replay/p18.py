"""P18 setup and proxies."""
from collgen import *       # noqa
RULE = ('random histories of collector creations, new classes and objects, defaults settings, altered copies of the setup and objects added to '
        'the proxies; every access through the setup and the proxies compared with a model after each step; non trivial: two operations or more')
N = dict(quick=8000, thorough=40000)
SPELL = [str.lower, str.upper, str.capitalize, str.swapcase]


def gen(rng):
    ops = []
    for _ in range(rng.randrange(1, 10)):
        r = rng.random()
        if r < 0.25:
            ops.append(['coll', rng.randrange(4), rng.randrange(4), rng.random() < 0.5])
        elif r < 0.35:
            ops.append(['obj', rng.randrange(4)])
        elif r < 0.5:
            ops.append(['defaults', {pick(rng, SPELL)(k): pick(rng, ['x', 'y', 'z']) for k in sub(rng, ['kind', 'aa', 'bb'], 0.6)}])
        elif r < 0.6:
            ops.append(['update', pick(rng, SPELL)(pick(rng, ['kind', 'aa', 'bb'])), pick(rng, ['u', 'v'])])
        elif r < 0.75:
            ops.append(['copy', {k: v for k, v in [['fastmode', True], ['extended', False], ['fatal', False], ['report', 2], ['lreport_len', 3], ['shortnames', False],
                                                   ['fastkeys', ['zz']], ['docstrings', 0], ['report_style', 1], ['defaults', {'Kind': 'cp'}]] if rng.random() < 0.3}])
        elif r < 0.85:
            ops.append(['static', rng.random() < 0.3, rng.random() < 0.2])
        else:
            ops.append(['miss', pick(rng, ['nope', 'kinds', 'x', 'tagx', 'instances', 's', 'ss'])])
    return dict(ops=ops)


def nontrivial(case):
    return len(case['ops']) > 1


def fixed():
    yield dict(ops=[['static', False, False], ['coll', 0, 0, True], ['obj', 0], ['defaults', dict(KIND='x')], ['defaults', dict(aa='y')], ['copy', dict(fastmode=True)],
                    ['update', 'Kind', 'z'], ['coll', 1, 3, False], ['miss', 'nope']])


class Static:
    pass


def run(case):
    base = fresh('g')
    names = [base + x for x in ('k', 'kb', 'tool', 'thing')]
    setup, proxy = F.setup, F.proxy
    initial = set(collectors.keys())
    made, objs, statics, copies = dict(), [], [], []
    with Env({}):
        oldprox = set(setup.proxies)
        model = dict()
        try:
            tgt = mkclass(dict(kind=dict(), aa=dict(optional=True, default='none'), Bb=dict(optional=True)), tag=base + 'target')
            made[base + 'target'] = collectors.get(tag=base + 'target')
            nobj = {base + 'target': []}

            def check(what):
                keys = set(collectors.keys())
                ensure(keys == initial | set(made), '%s: collectors %s instead of %s', what, sorted(keys - initial), sorted(made))
                got = list(iter(proxy))
                ensure(len(got) == len(keys) and all(any(g is collectors.get(tag=k) for g in got) for k in keys), '%s: iteration over the proxy', what)
                cl = proxy.catlist()
                ensure(sorted(n for _, n, _ in cl) == sorted(k + 's' for k in keys), '%s: catlist', what)
                for n, k, c in cl:
                    ensure(c is collectors.get(tag=k) and n == len(list(c.items())), '%s: catlist entry %s', what, k)
                om = proxy.objectsmap()
                ensure(set(om) == {k + 's' for k in keys}, '%s: objectsmap', what)
                for k, c in made.items():
                    ensure(getattr(proxy, k + 's') is c, '%s: proxy.%ss', what, k)
                    ensure(getattr(proxy, k) == c.load, '%s: proxy.%s', what, k)
                    ensure(proxy.exists(k) and proxy.exists(k + 's') and k in proxy and proxy.getitem(k) is c and proxy.getitem(k + 's') is c, '%s: exists %s', what, k)
                    ensure(len(om[k + 's']) == len(nobj[k]) and all(any(x is o for o in nobj[k]) for x in om[k + 's']), '%s: objectsmap of %s', what, k)
                    for s, own in statics:
                        if k not in own:
                            ensure(getattr(s, k, None) == c.load, '%s: static proxy %s', what, k)
                        else:
                            ensure(getattr(s, k, None) == own[k], '%s: an attribute of a static proxy was replaced', what)
                        if k + 's' not in own:
                            ensure(getattr(s, k + 's', None) is c, '%s: static proxy %ss', what, k)
                for k, v in model.items():
                    for f in SPELL:
                        ensure(setup.defaults[f(k)] == v and f(k) in setup.defaults, '%s: default %s', what, f(k))
                ensure(set(setup.defaults.keys()) == set(model), '%s: defaults %s instead of %s', what, dict(setup.defaults), model)
                # resolution
                r, i = tgt.footprint_couldbe(dict(kind='given'))
                ensure(r and r['kind'] == 'given' and r['aa'] == model.get('aa', 'none') and (r['Bb'] == model['bb'] if 'bb' in model else r['Bb'] is F.UNKNOWN),
                       '%s: resolution with the defaults %s: %s', what, model, r)
                ensure(i == {'kind'} | {x for x, y in (('aa', 'aa'), ('Bb', 'bb')) if y in model}, '%s: inputs %s', what, i)
                r, i = tgt.footprint_couldbe(dict())
                ensure(bool(r) == ('kind' in model) and (not r or r['kind'] == model['kind']), '%s: resolution with the defaults %s: %s', what, model, r)
                d = setup.as_dict()
                for k in ('docstrings', 'extended', 'fastmode', 'fatal', 'report', 'lreport_len', 'report_style', 'fastkeys', 'callback', 'shortnames'):
                    ensure(d[k] == getattr(setup, k), '%s: dictionary view of the setup: %s', what, k)
                ensure(dict(d['defaults']) == model and d['tag'] == setup.tag, '%s: dictionary view of the setup', what)
                for c, w, dm in copies:
                    for k, v in w.items():
                        ensure(getattr(c, k) == v, '%s: setting %s of an altered copy is %r instead of %r', what, k, getattr(c, k), v)
                    ensure(dict(c.defaults) == dm, '%s: defaults of an altered copy: %s instead of %s', what, dict(c.defaults), dm)
            check('start')
            for op in case['ops']:
                if op[0] == 'coll':
                    n = names[op[1]]
                    spelled = [n, n.upper(), n + 's', n.title() + 'S'][op[2]]
                    if op[3]:
                        mkclass(dict(kind=dict()), tag=spelled)
                    c = collectors.get(tag=spelled)
                    if n in made:
                        ensure(c is made[n], 'another collector for %s', spelled)
                    made.setdefault(n, c)
                    nobj.setdefault(n, [])
                elif op[0] == 'obj':
                    n = names[op[1]]
                    if n in made:
                        o = getattr(proxy, n)(kind='o')
                        ensure((o is None) == (not list(made[n].items())), 'load through the proxy')
                        if o is not None:
                            nobj[n].append(o)
                            objs.append(o)
                elif op[0] == 'defaults':
                    setup.defaults = dict(op[1])
                    model = {k.lower(): v for k, v in op[1].items()}
                elif op[0] == 'update':
                    setup.defaults[op[1]] = op[2]
                    model[op[1].lower()] = op[2]
                elif op[0] == 'copy':
                    kw = dict(op[1])
                    before = {k: (v if k != 'defaults' else dict(v)) for k, v in setup.as_dict().items()}
                    before['proxies'] = set(before['proxies'])
                    c = setup(tag=fresh('setup'), **kw)
                    ensure(c is not setup, 'no copy')
                    after = {k: (v if k != 'defaults' else dict(v)) for k, v in setup.as_dict().items()}
                    ensure(before == after, 'the setup was modified by an altered copy')
                    w = {k: before[k] for k in ('docstrings', 'extended', 'fastmode', 'fatal', 'report', 'lreport_len', 'report_style', 'fastkeys', 'callback', 'shortnames')}
                    w.update({k: (tuple(v) if k == 'fastkeys' else v) for k, v in kw.items() if k != 'defaults'})
                    dm = {k.lower(): v for k, v in kw.get('defaults', model).items()}
                    ensure(set(c.proxies) == set(setup.proxies) and c.proxies is not setup.proxies, 'proxies of an altered copy')
                    copies.append((c, w, dict(dm)))
                elif op[0] == 'static':
                    s = Static()
                    own = dict()
                    if op[1] and made:
                        k = sorted(made)[0]
                        setattr(s, k, 'mine')
                        if not op[2]:
                            own[k] = 'mine'
                    setup.add_proxy(s, clear=op[2])
                    statics.append((s, own))
                else:
                    ensure(guarded(getattr, proxy, op[1])[1] is None or guarded(getattr, proxy, op[1])[0] == 'raise', 'proxy.%s', op[1])
                    ensure(op[1] not in proxy and not proxy.exists(op[1]) and proxy.getitem(op[1], 'dflt') == 'dflt', 'existence of %s', op[1])
                check(op)
            return 'colls=%d' % len(made)
        finally:
            setup.proxies = oldprox
            for c, _, _ in copies:
                config.FootprintSetup._tag_table.pop(c.tag, None)
            for n in names + [base + 'target']:
                forget(n)
