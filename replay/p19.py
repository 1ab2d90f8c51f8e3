"""P19 documentation."""
from resgen import *        # noqa
RULE = ('random footprints (0-6 attributes with visibilities, documentation orders, values, outcasts, defaults, aliases, only clauses); the '
        'generated text is parsed and compared with the definition; non trivial: two attributes or more')
N = dict(quick=30000, thorough=150000)
class Priv:
    pass


Priv.__module__ = '_vfq.mod'
TYPES['Priv'] = Priv
VIS = ['default', 'advanced', 'guru']


def gen(rng):
    attrs = dict()
    for i, n in enumerate(rng.sample(['a', 'b', 'c', 'd', 'kind', 'zed', 'aa', 'Up'], rng.randrange(0, 7))):
        d = dict()
        t = pick(rng, ['str', 'str', 'int', 'Num', 'FPDict', 'A', 'Priv'])
        if t != 'str':
            d['type'] = t
        if t == 'A':
            d['isclass'] = True
        if t in ('str', 'int'):
            pal = ['v%dx' % j for j in range(5)] if t == 'str' else [0, 101, 202, 303, 404]
            if rng.random() < 0.4:
                d['values'] = sub(rng, pal)
            if rng.random() < 0.3:
                d['outcast'] = sub(rng, pal)
            if rng.random() < 0.3:
                d['optional'] = True
                d['default'] = pick(rng, pal + [None])
        elif rng.random() < 0.3:
            d['optional'] = True
        if rng.random() < 0.6:
            d['vis'] = pick(rng, VIS)
        if rng.random() < 0.6:
            d['doc_zorder'] = pick(rng, [-100, -50, -1, 0, 1, 50, 100, 250, -300])
        if rng.random() < 0.4:
            d['info'] = 'Info of %s.' % n
        if rng.random() < 0.4:
            d['access'] = pick(rng, ['rxx', 'rwx', 'rwd'])
        if rng.random() < 0.4:
            d['alias'] = ['al%d%s' % (i, x) for x in 'xy'[:rng.randrange(1, 3)]]
        attrs[n] = d
    only = dict()
    for k in sub(rng, ['rel', 'a', 'after_date', 'zone'], 0.3):
        only[k] = pick(rng, ['one', mk('tuple', ['u', 'v']), 3, 0])
    return dict(attrs=attrs, only=only, abstract=rng.random() < 0.2, klass=rng.random() < 0.3)


def nontrivial(case):
    return len(case['attrs']) > 1


def fixed():
    yield dict(attrs=dict(b=dict(doc_zorder=-100), a=dict(doc_zorder=100, vis='advanced')), only={}, abstract=False, klass=False)
    yield dict(attrs=dict(b=dict(doc_zorder=-300), a=dict(doc_zorder=300, vis='guru'), c=dict(vis='advanced')), only=dict(rel='x'), abstract=False, klass=True)
    yield dict(attrs={}, only={}, abstract=True, klass=False)


HEAD = re.compile(r'^ +\* \*\*(\w+)\*\* \(:class:`([^`]*)`\) - (\S+) - (.*)$')


def run(case):
    attrs = dict()
    for n, d in case['attrs'].items():
        d = dict(d)
        vis = d.pop('vis', None)
        x = decode_attrs({n: d})[n]
        if vis:
            x['doc_visibility'] = doc.visibility.level(vis)
        attrs[n] = x
    only = decd(case['only'])
    tag = fresh('t')
    with Env({}):
        olddoc = F.setup.docstrings
        try:
            if case['klass']:
                if not [1 for d in attrs.values() if not d.get('optional')]:
                    attrs['mandat'] = dict()
                F.setup.docstrings = 2
                cls = mkclass({n: dict(d) for n, d in attrs.items()}, only=only, tag=tag)
                text = cls.__doc__
                fp = cls.footprint_retrieve()
            else:
                fp = F.Footprint(attr={n: dict(d) for n, d in attrs.items()}, only=only, info='vfq')
                text = doc.format_docstring(fp, 2, abstractfpobj=case['abstract'])
        finally:
            F.setup.docstrings = olddoc
            forget(tag)
    lines = text.split('\n')
    blocks, cur, sect = [], None, 'attr'
    onlys, aliases = [], []
    for ln in lines:
        m = HEAD.match(ln)
        if m and sect == 'attr':
            cur = (m.groups(), [])
            blocks.append(cur)
        elif 'Only clauses:' in ln:
            sect = 'only'
        elif 'Aliases of some parameters' in ln:
            sect = 'alias'
        elif sect == 'attr' and cur is not None and ln.strip().startswith('* '):
            cur[1].append(ln.strip()[2:])
        elif sect == 'only' and ln.strip():
            onlys.append(ln.strip())
        elif sect == 'alias' and ln.strip():
            aliases.append(ln.strip())
    got = [b[0][0] for b in blocks]

    def rank(n):
        d = attrs[n]
        z = max(-100, min(100, d.get('doc_zorder', 0)))
        return (VIS.index(d['doc_visibility'].tag.lower()) if 'doc_visibility' in d else 0, -z, n)
    ensure(sorted(got) == sorted(attrs), 'entries %s instead of %s', got, sorted(attrs))
    ensure(got == sorted(attrs, key=rank), 'attributes are listed as %s instead of %s', got, sorted(attrs, key=rank))
    for (n, t, acc, info), subs in blocks:
        d = attrs[n]
        ty = d.get('type', str)
        tn = ('' if ty.__module__.startswith('__') else ty.__module__ + '.') + ty.__name__
        ensure(t.split('.')[-1] == ty.__name__ and t == tn, 'type %s of %s', t, n)
        ensure(acc == d.get('access', 'rxx'), 'access mode %s of %s', acc, n)
        if 'info' in d:
            ensure(info.strip() == d['info'], 'information of %s: %r', n, info)
        opt = [s for s in subs if s.startswith('Optional')]
        ensure(len(opt) == (1 if d.get('optional') else 0), 'default of %s: %s', n, subs)
        if opt:
            dv = d.get('default')
            ensure(str(dv) in opt[0], 'default of %s: %s instead of %s', n, opt[0], dv)
        for k in ('values', 'outcast'):
            ls = [s for s in subs if s.startswith(k.capitalize() + ':')]
            ensure(len(ls) == (1 if d.get(k) else 0), '%s of %s: %s', k, n, subs)
            if ls:
                toks = set(re.findall(r'\w+', ls[0].split(':', 1)[1]))
                ensure(all(str(v) in toks for v in d[k]), '%s of %s: %s', k, n, ls[0])
                ensure(not any(str(v) in toks for v in (['v%dx' % j for j in range(5)] + [0, 101, 202, 303, 404]) if v not in d[k]), '%s of %s: %s', k, n, ls[0])
    ensure(sorted(re.match(r'\* \*\*(\w+)\*\*', o).group(1) for o in onlys) == sorted(only), 'only clauses %s', onlys)
    for o in onlys:
        k = re.match(r'\* \*\*(\w+)\*\* - (.*)', o)
        ensure(str(only[k.group(1)]) == k.group(2), 'only clause %s', o)
    want = sorted((a, n) for n, d in attrs.items() for a in d.get('alias', ()))
    ga = sorted(re.match(r'\* \*\*(\w+)\*\* is an alias of (\w+)\.', a).groups() for a in aliases)
    ensure(ga == want, 'aliases %s instead of %s', ga, want)
    return 'attrs=%d' % len(attrs)
