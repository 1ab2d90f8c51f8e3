"""P10 access modes."""
from resgen import *        # noqa
import gc
RULE = ('random attribute definitions in every access mode, 2-3 objects of two classes, random sequences of reads, writes (convertible, '
        'authorised or not) and deletions, every attribute of every object compared with a model after each step; non trivial: at least one '
        'write or deletion')
N = dict(quick=8000, thorough=50000)
MODES = ['rxx', 'rwx', 'rwd', 'rxx-weak', 'rwx-weak', 'rwd-weak']


def gen(rng):
    attrs, desc = dict(), dict()
    for n in rng.sample(NAMES, rng.randrange(1, 5)):
        mode = pick(rng, MODES[:3] if rng.random() < 0.8 else MODES)
        if 'weak' in mode:
            attrs[n] = dict(type='Holder', access=mode, optional=rng.random() < 0.3)
            if rng.random() < 0.4:
                attrs[n]['values'] = [mk('Holder', [['u', x]]) for x in (0, 1, 2, 9)]
            continue
        if rng.random() < 0.1:
            attrs[n] = dict(access=mode, isclass=True, type=pick(rng, ['A', 'B']))
            continue
        t = pick(rng, ['int', 'str', 'Num', 'float', 'object'])
        d = dict(access=mode)
        if t != 'str':
            d['type'] = t
        vals, given = PAL[t]
        if rng.random() < 0.5 and t != 'object':
            d['values'] = [v for v in vals if enc_ok(t, v, {})][:4]
        if rng.random() < 0.2 and t != 'object':
            d['outcast'] = [v for v in vals if enc_ok(t, v, {})][pick(rng, [slice(4, 5), slice(1, 3)])]
        if rng.random() < 0.3:
            d['optional'] = True
        if t == 'Num' and rng.random() < 0.3:
            d['args'] = dict(scale=2)
            d.pop('values', None)
            d.pop('outcast', None)
        attrs[n] = d
    ops = []
    for _ in range(rng.randrange(1, 12)):
        n = pick(rng, sorted(attrs))
        d = attrs[n]
        r = rng.random()
        given = (CLS if d.get('isclass') else PAL)[d.get('type', 'str')][1]
        if r < 0.65:
            if 'weak' in d['access'] and rng.random() < 0.7:
                given = [mk('Holder', [['u', x]]) for x in (0, 1, 9, 8)]
            ops.append(['set', rng.randrange(3), n, None if rng.random() < 0.05 else pick(rng, given)])
        else:
            ops.append(['del', rng.randrange(3), n])
    return dict(attrs=attrs, ops=ops)


def nontrivial(case):
    return bool(case['ops'])


def fixed():
    for m in MODES[:3]:
        d = dict(a=dict(access=m, type='int', values=[1, 2, 3]), b=dict(access='rwx'))
        for v in (2, '3', 9, 'x', None):
            yield dict(attrs=d, ops=[['set', 0, 'a', v], ['set', 1, 'a', v]])
        d0 = dict(a=dict(access=m, type='int', values=[0, 1]), b=dict(access=m), c=dict(access=m, type='float', optional=True))
        yield dict(attrs=d0, ops=[['set', 0, 'a', '0'], ['set', 0, 'b', ''], ['set', 1, 'c', 0], ['set', 0, 'c', ''], ['set', 1, 'b', 'None'], ['set', 2, 'b', False]])
        yield dict(attrs=d, ops=[['del', 0, 'a'], ['set', 1, 'a', 2], ['set', 0, 'a', 3], ['del', 1, 'a'], ['del', 1, 'b']])
    for m in MODES[1:3]:
        for v in (mk('cls', 'B'), mk('cls', 'Cx'), 3, 'A', mk('inst', 'B')):
            yield dict(attrs=dict(a=dict(access=m, isclass=True, type='A')), ops=[['set', 0, 'a', v]])
    for m in MODES[3:]:
        yield dict(attrs=dict(a=dict(type='Holder', access=m)), ops=[['set', 0, 'a', None], ['set', 0, 'a', mk('Holder', [['u', 9]])], ['set', 0, 'a', None]])
        yield dict(attrs=dict(a=dict(access=m, type='Holder')), ops=[['set', 0, 'a', mk('Holder', [['u', 9]])], ['del', 0, 'a']])


MISSING = object()


def start_value(d):
    """d: the encoded definition"""
    t = d.get('type', 'str')
    vals = d.get('values')
    if vals:
        return dec(vals[0])
    if d.get('isclass'):
        return TYPES[t]
    return {'int': 7, 'str': 'q', 'Num': 5, 'float': 9.5, 'object': 'o', 'Holder': None}[t]


def run(case):
    attrs = decode_attrs(case['attrs'])
    for n, d in attrs.items():
        for k in ('optional', 'access'):
            if k in case['attrs'][n]:
                d[k] = case['attrs'][n][k]
    real = lambda: {n: dict(d, **{k: list(d[k]) for k in ('values', 'outcast') if k in d}) for n, d in attrs.items()}   # noqa
    tag = fresh('t')
    keep = []
    try:
        with Env({}):
            c1, c2 = mkclass(real(), tag=tag), mkclass(real(), tag=tag)
            objs, model = [], []
            for i, c in enumerate((c1, c1, c2)):
                desc = dict()
                for n, d in attrs.items():
                    if 'weak' in d['access']:
                        if d.get('optional') and i != 1:
                            continue
                        h = Holder(u=i)
                        keep.append(h)
                        desc[n] = h
                    else:
                        desc[n] = start_value(case['attrs'][n])
                out = spec.resolve({n: dict(d) for n, d in attrs.items()}, desc)
                if out[0][0] != 'ok':
                    return 'unspecified'
                objs.append(c(**desc))
                model.append({n: (None if v is spec.NOVALUE else v) for n, v in out[0][1].items()})

            def check(after):
                for o, m in zip(objs, model):
                    for n in attrs:
                        if m[n] is MISSING:
                            ensure(not hasattr(o, n), '%s: deleted attribute %s is still there', after, n)
                            ensure(not o.footprint_has_attribute(n), 'has_attribute')
                        else:
                            st, v = guarded(getattr, o, n)
                            ensure(st == 'ok', '%s: reading %s of an object raises %r', after, n, v)
                            ok = v is None if m[n] is None else (v == m[n] if 'weak' in attrs[n]['access'] else same(v, m[n]))
                            ensure(ok, '%s: %s reads %r instead of %r', after, n, v, m[n])
                            ensure(o.footprint_has_attribute(n), 'has_attribute')
                    live = sorted(n for n in attrs if m[n] is not MISSING)
                    ensure(o.footprint_attributes == live, 'attributes %s', o.footprint_attributes)
                    ensure(sorted(o.footprint_undefs()) == [n for n in live if m[n] is None], 'undefined attributes')
                    for n in attrs:
                        ensure(o.footprint_access(n) == attrs[n]['access'], 'footprint_access')
            check('init')
            for op in case['ops']:
                i, n = op[1], op[2]
                d, mode = attrs[n], attrs[n]['access']
                if op[0] == 'set':
                    v = dec(op[3])
                    if 'weak' in mode and v is not None and not isinstance(v, Holder):
                        continue
                    st, r = guarded(setattr, objs[i], n, v)
                    if mode.startswith('rxx'):
                        ensure(st == 'raise' and isinstance(r, AttributeError), 'write of a read-only attribute: %r', r)
                    elif v is None and d.get('isclass'):
                        ensure(st == 'raise' and isinstance(r, ValueError), 'None is not a class')
                    elif v is None:
                        if d.get('values') or d.get('outcast'):
                            continue_none(st, r, model[i], n, d)
                        elif st == 'ok':
                            model[i][n] = None
                        else:
                            ensure(isinstance(r, ValueError), 'write of None in %s: %r', n, r)
                    else:
                        cd = spec.chars(dict(d, remap={}))
                        res = spec.conform(v, cd)
                        if isinstance(v, str) and v == 'None':
                            # accepted by a write when authorised
                            res = ('ok', v) if cd['type'] in (str, object) and not (cd['values'] and v not in cd['values']) and v not in cd['outcast'] else res
                        if res[0] == 'ok':
                            ensure(st == 'ok', 'authorised write of %r in %s raises %r', v, n, r)
                            model[i][n] = res[1]
                            if 'weak' in mode:
                                keep.append(v)
                                import sys as _s
                                refs = [x for x in gc.get_referrers(v) if x is objs[i]._attributes]
                                ensure(not refs, 'a weak attribute keeps its value alive')
                        else:
                            ensure(st == 'raise' and isinstance(r, (ValueError, F.FootprintException)), 'write of %r in %s: %s %r', v, n, st, r)
                else:
                    st, r = guarded(delattr, objs[i], n)
                    if mode.startswith('rwd'):
                        if model[i][n] is MISSING:
                            ensure(st == 'raise', 'attribute deleted twice')
                        else:
                            ensure(st == 'ok', 'deletion raises %r', r)
                            model[i][n] = MISSING
                    else:
                        ensure(st == 'raise' and isinstance(r, AttributeError), 'deletion of a %s attribute: %s %r', mode, st, r)
                check(op)
            return 'ops=%d' % len(case['ops'])
    finally:
        forget(tag)


def continue_none(st, r, m, n, d):
    if d.get('values'):
        ensure(st == 'raise' and isinstance(r, ValueError), 'None is not authorised in %s', n)
    elif st == 'ok':
        m[n] = None
