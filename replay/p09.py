"""P09 composition of footprints."""
from resgen import *        # noqa
import collections as _c
RULE = ('random sequences of 1-4 definitions (dictionaries, lists of dictionaries, Footprint objects, keywords, class hierarchies) compared '
        'with an attribute-wise merge model; sources compared before / after; non trivial: two definitions or more share an attribute')
N = dict(quick=25000, thorough=125000)


def gen_def(rng):
    attr = dict()
    for n in sub(rng, ['a', 'b', 'c'], 0.55):
        d = dict()
        if rng.random() < 0.4:
            d['type'] = pick(rng, ['int', 'str', 'float'])
        if rng.random() < 0.4:
            d['values'] = [pick(rng, [1, 2, '3', 4] if rng.random() < 0.97 else ['q']) for _ in range(rng.randrange(0, 4))]
        if rng.random() < 0.25:
            d['outcast'] = [pick(rng, [5, '6', 7]) for _ in range(rng.randrange(0, 3))]
        if rng.random() < 0.3:
            d['optional'] = rng.random() < 0.6
        if rng.random() < 0.3:
            d['default'] = pick(rng, [1, '2', None])
        if rng.random() < 0.3:
            d['alias'] = sub(rng, ['a1', 'a2', 'a3'], 0.5)
        if rng.random() < 0.3:
            d['remap'] = [[pick(rng, ['u', 'v', 'w']), pick(rng, [1, 2, 'z'])]]
        if rng.random() < 0.2:
            d['doc_zorder'] = pick(rng, [-500, -100, -3, 0, 7, 100, 101, 1000])
        if rng.random() < 0.2:
            d['info'] = pick(rng, ['one', 'two'])
        if rng.random() < 0.2:
            d['access'] = pick(rng, ['rxx', 'rwx', 'rwd'])
        attr[n] = d
    out = dict(attr=attr)
    if rng.random() < 0.3:
        out['only'] = {pick(rng, ['a', 'x', 'after_b']): mk('tuple', [pick(rng, [1, 'k'])])}
    if rng.random() < 0.3:
        out['info'] = pick(rng, ['I1', 'I2'])
    if rng.random() < 0.3:
        out['level'] = pick(rng, ['none', 'toolbox', 'debug'])
    if rng.random() < 0.2:
        out['extra'] = {pick(rng, ['m', 'n']): pick(rng, [1, 2])}
    return out


def gen(rng):
    defs = [gen_def(rng) for _ in range(rng.randrange(1, 5))]
    forms = [pick(rng, ['dict', 'listdict', 'fp', 'tupledict', 'duplist']) for _ in defs]
    return dict(defs=defs, forms=forms, how=pick(rng, ['args', 'args', 'kw', 'bases', 'list', 'chain', 'diamond']))


def nontrivial(case):
    return len(case['defs']) > 1


def fixed():
    for n in (1, 5, 10, 40, 100, 300):
        yield dict(defs=[dict(attr=dict(a=dict(type='int', values=[str(i) for i in range(n)], outcast=[str(-i) for i in range(1, n)])))], forms=['dict'], how='args')
    yield dict(defs=[dict(attr=dict(a=dict(type='int', values=['1', 1, 2, '2', 3])))], forms=['dict'], how='args')


def real(d):
    """The real definition for an encoded one."""
    out = dict(attr=decode_attrs(d['attr']))
    for k in out['attr']:
        e = d['attr'][k]
        for c in ('optional', 'info', 'access', 'doc_zorder'):
            if c in e:
                out['attr'][k][c] = e[c]
    if 'only' in d:
        out['only'] = decd(d['only'])
    if 'info' in d:
        out['info'] = d['info']
    if 'level' in d:
        out['priority'] = dict(level=priorities.top.level(d['level']))
    if 'extra' in d:
        out['userdata'] = dict(d['extra'])
    return out


def merge(d1, d2):
    for k, v in d2.items():
        if isinstance(v, dict) and isinstance(d1.get(k), dict):
            merge(d1[k], v)
        elif isinstance(v, dict):
            d1[k] = {}
            merge(d1[k], v)
        else:
            d1[k] = v
    return d1


def norm(fp):
    """Normalisation of a merged definition; None when a value cannot be of the declared type."""
    for d in fp['attr'].values():
        d.setdefault('default', None)
        d.setdefault('optional', False)
        d.setdefault('access', 'rxx')
        d.setdefault('doc_visibility', doc.visibility.DEFAULT)
        d['doc_zorder'] = max(-100, min(100, d.get('doc_zorder', 0)))
        d['alias'] = set(d.get('alias', ()))
        d['remap'] = dict(d.get('remap', {}))
        t = d.get('type', str)
        for k in ('values', 'outcast'):
            try:
                d[k] = {v if isinstance(v, t) else t(v) for v in d.get(k, ())}
            except Exception:
                return None
    return fp


BASE = lambda: dict(attr=dict(), bind=list(), info='Not documented', only=dict(), priority=dict(level=priorities.top.DEFAULT))   # noqa


def expect(seq):
    fp = BASE()
    for d in seq:
        merge(fp, d)
    return norm(fp)


def poison(x):
    if isinstance(x, dict):
        for v in x.values():
            poison(v)
        x['poison'] = 1
    elif isinstance(x, list):
        x.append('poison')
    elif isinstance(x, set):
        x.add('poison')


def decorated(objs, want):
    """The decorators of a decorative footprint: those of its sources, then its own."""
    seen = []

    def deco(n):
        def run(c):
            seen.append(n)
            return c
        return run
    f = [deco(i) for i in range(4)]
    d1 = F.DecorativeFootprint(*objs, decorator=f[0])
    d2 = F.DecorativeFootprint(d1, decorator=[f[1], f[2]])
    d3 = F.DecorativeFootprint(d2, d1)
    d4 = F.DecorativeFootprint(d1)
    compare(d1, dict(want, decorator=f[0]))
    if want['attr'] or want['only']:
        compare(d2, dict(want, decorator=[f[1], f[2]]))
    for d, w in ((d1, f[:1]), (d2, f[:3]), (d3, f[:3] + f[:1]), (d4, f[:1]), (d1, f[:1])):
        ensure(d.decorators == w, 'wrong decorators')
    base = mk_cls(None, d2)
    ensure(seen == [0, 1, 2], 'decorators applied: %s', seen)
    mk_cls(base, dict(attr=dict(q=dict())))
    ensure(seen == [0, 1, 2], 'inherited decorators applied: %s', seen)
    mk_cls(base, [dict(attr=dict(q=dict())), d4])
    ensure(seen == [0, 1, 2, 0], 'decorators of a list applied: %s', seen)


def compare(fpobj, want):
    copied = fpobj.as_copy()
    ensure(copied == fpobj.as_dict(), 'as_copy differs')
    poison(copied)
    got = fpobj.as_dict()
    ensure(set(got) == set(want), 'footprint keys %s instead of %s', sorted(got), sorted(want))
    ensure(set(got['attr']) == set(want['attr']), 'attributes %s instead of %s', sorted(got['attr']), sorted(want['attr']))
    for n, w in want['attr'].items():
        g = got['attr'][n]
        ensure(set(g) == set(w), 'characteristics of %s: %s instead of %s', n, sorted(g), sorted(w))
        for k, v in w.items():
            ensure(type(g[k]) is type(v) and g[k] == v, '%s of %s is %r instead of %r', k, n, g[k], v)
            if k in ('values', 'outcast'):
                ensure(all(isinstance(x, w.get('type', str)) for x in g[k]), '%s of %s: %r are not all of the declared type', k, n, g[k])
    for k in want:
        if k not in ('attr',):
            ensure(got[k] == want[k], '%s is %r instead of %r', k, got[k], want[k])
    ensure(got['priority']['level'].inset is want['priority']['level'].inset, 'the priority level is detached from its set')
    opts = set(want['attr'])
    for w in want['attr'].values():
        opts |= w['alias']
    ensure(fpobj.allkeys() == opts and fpobj.as_opts() == opts, 'set of keys')
    ensure(sorted(fpobj.mandatory()) == sorted(n for n, w in want['attr'].items() if not w['optional']), 'mandatory attributes')
    for n, w in want['attr'].items():
        ensure(fpobj.optional(n) == w['optional'], 'optional')
        ensure(set(fpobj.get_values(n)) == w['values'] and set(fpobj.get_outcast(n)) == w['outcast'], 'get_values / get_outcast')
    desc = dict.fromkeys(['a', 'a1', 'a2', 'c', 'zz', 'B'])
    ensure(sorted(fpobj.track(desc)) == sorted(k for k in desc if k in opts), 'tracked keys')


STRAY = dict(info='stray', optional='stray', default='stray', access='stray')


def formed(r, form):
    if form == 'fp':
        return F.Footprint(r)
    if form == 'listdict':
        return dict(r, attr=[{k: v} for k, v in r['attr'].items()])
    if form == 'duplist':
        # several entries of the list describe the same attribute: the last one wins
        out = dict(r, attr=[{k: {c: STRAY[c] for c in v if c in STRAY}} for k, v in r['attr'].items()] + [{k: v} for k, v in r['attr'].items()])
        if 'only' in r:
            out['only'] = [{k: 'stray'} for k in r['only']] + [{k: v} for k, v in r['only'].items()]
        return out
    if form == 'tupledict':
        return dict(r, attr=tuple({k: v} for k, v in r['attr'].items()))
    return r


def single_ok(d, form):
    return form != 'fp' or norm(merge(BASE(), real(d))) is not None


def as_source(d, form):
    """What a definition contributes to a merge."""
    if form == 'fp':
        r = norm(merge(BASE(), real(d)))
        return r if (r['attr'] or r['only']) else {}
    return real(d)


def run(case):
    defs, forms, how = case['defs'], case['forms'], case['how']
    forms = list(forms)
    if how == 'kw':
        forms[-1] = 'dict' if forms[-1] == 'fp' else forms[-1]
    if how in ('bases', 'chain', 'diamond'):
        forms = ['dict'] * len(defs)
    if not all(single_ok(d, f) for d, f in zip(defs, forms)):
        return 'unspecified'
    objs = [formed(real(d), f) for d, f in zip(defs, forms)]
    before = [snap(o) for o in objs]
    try:
        if how in ('args', 'kw', 'list'):
            want = expect([as_source(d, f) for d, f in zip(defs, forms)])
            if how == 'args':
                act = lambda: F.Footprint(*objs)                 # noqa
            elif how == 'kw':
                act = lambda: F.Footprint(*objs[:-1], **objs[-1])    # noqa
            else:
                act = lambda: mk_cls(None, list(objs)).footprint_retrieve()      # noqa
            st, r = guarded(act)
            if want is None:
                ensure(st == 'raise', 'a value that is not of the declared type was accepted')
                return 'refused'
            ensure(st == 'ok', 'raises %r', r)
            compare(r, want)
            if how == 'args':
                decorated(objs, want)
            # the composed footprint and its sources share nothing that can be modified
            for n in r.attr:
                for k in ('values', 'outcast', 'alias'):
                    r.attr[n][k].add('poison')
                r.attr[n]['remap']['poison'] = 1
                r.attr[n]['poison'] = 1
            r.only['poison'] = 1
            r.priority['level'] = priorities.top.NONE
        else:
            wants, classes = [], []
            if how == 'chain':
                base = None
                for i, (d, o) in enumerate(zip(defs, objs)):
                    w = expect(([wants[-1]] if wants else []) + [real(d)])
                    if w is None:
                        ensure(guarded(mk_cls, base, o)[0] == 'raise', 'bad value accepted')
                        return 'refused'
                    wants.append(expect(([wants[-1]] if wants else []) + [real(d)]))
                    base = mk_cls(base, o)
                    classes.append(base)
            else:
                parents = []
                for d, o in zip(defs[:-1], objs[:-1]):
                    w = expect([real(d)])
                    if w is None:
                        ensure(guarded(mk_cls, None, o)[0] == 'raise', 'bad value accepted')
                        return 'refused'
                    wants.append(w)
                    classes.append(mk_cls(None, o))
                    parents.append(classes[-1])
                src = [expect([real(d)]) for d in reversed(defs[:-1])]
                src = [s if (s['attr'] or s['only']) else {} for s in src]
                w = expect(src + [real(defs[-1])])
                if w is None:
                    ensure(guarded(mk_cls, tuple(parents), objs[-1])[0] == 'raise', 'bad value accepted')
                    return 'refused'
                wants.append(w)
                classes.append(mk_cls(tuple(parents) or None, objs[-1]))
            for i, (c, w) in enumerate(zip(classes, wants)):
                if i > 0 and how == 'chain' and not (wants[i - 1]['attr'] or wants[i - 1]['only']):
                    return 'chain of empty footprints'
                compare(c.footprint_retrieve(), w)
        for o, b in zip(objs, before):
            ensure(snap(o) == b, 'a definition given was modified')
    finally:
        pass
    return how


def mk_cls(base, fp):
    bases = base if isinstance(base, tuple) else ((base,) if base else (F.FootprintBase,))
    d = dict(_footprint=fp, _abstract=True, __module__='vfqmod', _collector=())
    return F.FootprintBaseMeta(fresh('C'), bases, d)
