"""P11 clones, exports, copies, pickles."""
from resgen import *        # noqa
import copy
import pickle
import types
RULE = ('random objects (nested containers, unset optional attributes, footprint typed values, objects with export methods, own export '
        'methods) and extras; clone / full clone / dict / shallow dict / export / deep copy / pickle compared with the attributes, the '
        'original compared before and after modification of the result; non trivial: at least two attributes')
N = dict(quick=9000, thorough=45000)
PALV = {
    'list': [mk('list', [1, mk('list', [2])]), mk('list', [])], 'dict': [mk('dict', [['k', mk('list', [1])]])], 'str': ['x', 'y', ''],
    'int': [1, 2, 0], 'FPList': [mk('FPList', [mk('list', [1]), 2])], 'FPDict': [mk('FPDict', [['k', mk('list', [1])]])],
    'FPSet': [mk('FPSet', [3, 1, 2]), mk('FPSet', ['b', 1])], 'FPTuple': [mk('FPTuple', [mk('list', [1])])], 'object': [mk('FPRegex', 'a+'), mk('tuple', [1])],
    'Holder': [mk('Holder', [['u', mk('list', [1])]])], 'Num': [3],
}


class Exp:
    """Value with its own export method."""

    def __init__(self, v):
        self.v = v

    def footprint_export(self):
        return ['exported', self.v]

    def __eq__(self, o):
        return isinstance(o, Exp) and o.v == self.v

    __hash__ = None


class Exp2(Exp):
    footprint_export = None

    def __getattribute__(self, n):
        if n == 'footprint_export':
            raise AttributeError(n)
        return object.__getattribute__(self, n)

    def export_dict(self):
        return dict(exported=self.v)


TYPES['Exp'], TYPES['Exp2'] = Exp, Exp2


def gen(rng):
    attrs, desc, extra = dict(), dict(), dict()
    for n in rng.sample(NAMES, rng.randrange(1, 6)):
        t = pick(rng, sorted(PALV) + ['Exp', 'Exp2'])
        d = dict(type=t, access=pick(rng, ['rxx', 'rwx', 'rwd']))
        vals = PALV.get(t, [5, 6])
        if rng.random() < 0.35:
            d['optional'] = True
        attrs[n] = d
        if not (d.get('optional') and rng.random() < 0.6):
            desc[n] = pick(rng, vals)
        if rng.random() < 0.25:
            extra[n] = None if d.get('optional') and rng.random() < 0.3 else pick(rng, vals)
    return dict(attrs=attrs, desc=desc, extra=extra, full=rng.random() < 0.5, own=rng.random() < 0.2)


def nontrivial(case):
    return len(case['attrs']) > 1


def fixed():
    yield dict(attrs=dict(a=dict(), b=dict(optional=True)), desc=dict(a='x'), extra={}, full=True, own=False)


def val(t, v):
    return TYPES[t](v) if t in ('Exp', 'Exp2', 'Num') else dec(v)


def poison(x, depth=0):
    """Modify in depth every mutable part of a value."""
    if depth > 5:
        return
    if isinstance(x, dict):
        for k in list(x):
            poison(x[k], depth + 1)
        x['poison'] = 1
    elif isinstance(x, list):
        for y in x:
            poison(y, depth + 1)
        x.append('poison')
    elif isinstance(x, set):
        x.add('poison')
    elif isinstance(x, tuple):
        for y in x:
            poison(y, depth + 1)
    elif isinstance(x, Holder):
        poison(x.__dict__, depth + 1)


def image(o):
    return {k: copy.deepcopy(getattr(o, k)) for k in o.footprint_attributes}


def eqv(a, b):
    if hasattr(a, 'pattern') and hasattr(b, 'pattern'):
        return a.pattern == b.pattern
    return type(a) is type(b) and a == b


def eqd(a, b):
    return set(a) == set(b) and all(eqv(a[k], b[k]) for k in a)


def run(case):
    attrs = decode_attrs(case['attrs'])
    for n in attrs:
        attrs[n]['access'] = case['attrs'][n].get('access', 'rxx')
        attrs[n]['optional'] = case['attrs'][n].get('optional', False)
    tag = fresh('t')
    name = fresh('P')
    mod = sys.modules[__name__]
    try:
        with Env({}):
            more = dict()
            first = sorted(attrs)[0]
            if case['own']:
                more['footprint_export_' + first] = lambda self: ('own', self.footprint_getattr(first))
            cls = mkclass({n: dict(d) for n, d in attrs.items()}, tag=tag, name=name, module=__name__, **more)
            setattr(mod, name, cls)
            desc = {n: val(case['attrs'][n].get('type', 'str'), v) for n, v in case['desc'].items()}
            extra = {n: None if v is None else val(case['attrs'][n].get('type', 'str'), v) for n, v in case['extra'].items()}
            o = cls(**desc)
            o.free = ['public']
            o._priv = 'private'
            o.blank = None
            ref = image(o)
            want = {n: (desc.get(n)) for n in attrs}
            ensure(eqd(ref, want), 'attributes %s instead of %s', ref, want)

            # the keywords override the dictionaries, the last one first
            dflt = {n: val(case['attrs'][n].get('type', 'str'), PALV.get(case['attrs'][n].get('type', 'str'), [7])[-1]) for n in desc}
            keep = snap(dflt)
            for args, kw in (((dflt,), desc), ((dflt, desc), {}), ((dflt, 5, desc), {}), ((dflt, dict(list(desc.items())[:1])), dict(list(desc.items())[1:]))):
                ensure(eqd(image(cls(*args, **kw)), want), 'attributes given as dictionaries and keywords')
            ensure(snap(dflt) == keep, 'the dictionary of the attributes was modified')

            # views
            d = o.footprint_as_dict()
            ensure(eqd(d, want), 'footprint_as_dict: %s instead of %s', d, want)
            poison(d)
            ensure(eqd(image(o), ref), 'the object shares the content of footprint_as_dict')
            s = o.footprint_as_shallow_dict()
            ensure(set(s) == set(attrs) and all(s[n] is getattr(o, n) for n in attrs), 'footprint_as_shallow_dict')
            s.clear()
            s['poison'] = 1
            ensure(eqd(image(o), ref), 'the object shares footprint_as_shallow_dict')
            ensure(o.footprint_attributes == sorted(attrs), 'footprint_attributes')
            e = o.footprint_export()
            ensure(set(e) == set(attrs), 'exported keys %s', sorted(e))
            for n in attrs:
                t = case['attrs'][n].get('type', 'str')
                v = want[n]
                if case['own'] and n == first:
                    x = ('own', v)
                elif v is None:
                    x = None
                elif t == 'Exp':
                    x = ['exported', v.v]
                elif t == 'Exp2':
                    x = dict(exported=v.v)
                elif t == 'FPSet':
                    st, x = guarded(sorted, v)
                    if st != 'ok':
                        ensure(isinstance(e[n], list) and len(e[n]) == len(v) and set(e[n]) == set(v), 'export of a set: %r', e[n])
                        continue
                elif hasattr(v, 'pattern'):
                    x = (v.pattern, v.flags)
                else:
                    x = v
                ensure(type(e[n]) is type(x) and e[n] == x, 'export of %s is %r instead of %r', n, e[n], x)
            if not case['own']:
                poison(e)
                ensure(eqd(image(o), ref), 'the object shares the content of footprint_export')

            # clones
            keep = snap(extra)
            c = o.footprint_clone(full=case['full'], extra=extra)
            ensure(c is not o and type(c) is cls, 'a clone is a new object of the same class')
            ensure(snap(extra) == keep, 'the extra dictionary was modified')
            wc = dict(want, **extra)
            ensure(eqd(image(c), wc), 'clone %s instead of %s', image(c), wc)
            ensure(('free' in c.__dict__) == case['full'] and (not case['full'] or c.free == ['public']), 'public variables of the clone')
            ensure(('blank' in c.__dict__) == case['full'], 'public variables of the clone')
            ensure('_priv' not in c.__dict__, 'private variables of the clone')
            ensure(eqd(image(o), ref), 'the original was modified by the cloning')
            for n in attrs:
                acc = attrs[n]['access']
                if acc != 'rxx' and want[n] is not None:
                    other = PALV.get(case['attrs'][n].get('type', 'str'), [7])
                    st, r = guarded(setattr, c, n, val(case['attrs'][n].get('type', 'str'), other[-1]))
                if acc == 'rwd':
                    delattr(c, n)
            ensure(eqd(image(o), ref), 'the original was modified through its clone')
            ensure(c.__dict__['_attributes'] is not o.__dict__['_attributes'], 'shared attributes')

            # almost clones
            st, ac = guarded(collectors.get(tag=tag).almost_clone, o, **extra)
            ensure(st == 'ok' and type(ac) is cls and ac is not o and eqd(image(ac), wc), 'almost clone %r', ac if st != 'ok' else image(ac))
            ensure(snap(extra) == keep and eqd(image(o), ref), 'almost_clone modified the original or its arguments')

            more = mkclass(dict({n: dict(d) for n, d in attrs.items()}, zz=dict(values=['other'])), tag=tag)
            st, ac = guarded(collectors.get(tag=tag).almost_clone, o, zz='other', **extra)
            ensure(st == 'ok' and type(ac) is more and eqd(image(ac), dict(wc, zz='other')), 'almost clone of another class: %r', ac)
            collectors.get(tag=tag).discard(more)

            # copies
            for how, fn in (('deepcopy', copy.deepcopy), ('pickle', lambda x: pickle.loads(pickle.dumps(x)))):
                st, k = guarded(fn, o)
                ensure(st == 'ok', '%s raises %r', how, k)
                ensure(type(k) is cls and k is not o, how)
                ensure(eqd(image(k), ref), '%s: %s instead of %s', how, image(k), ref)
                ensure(k.free == ['public'] and k._priv == 'private' and k.__dict__.get('blank', 0) is None, '%s: instance variables', how)
                ensure(any(x is k for x in collectors.get(tag=tag).instances), '%s: the copy is not tracked', how)
                k2 = k.footprint_clone()
                ensure(eqd(image(k2), ref), '%s: clone of the copy', how)
                poison(k._attributes)
                ensure(eqd(image(o), ref), '%s: the copy shares its content', how)
            return 'unset=%d' % sum(v is None for v in want.values())
    finally:
        forget(tag)
        if hasattr(mod, name):
            delattr(mod, name)
