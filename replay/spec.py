"""Executable form of the resolution contracts (P01-P04), written from the property statements."""
from base import *          # noqa

REF = re.compile(r'\[(\w+)(?::+([:\w]+))?(?:#(\w+))?(?:%([^\]]+))?\]')


class Out(Exception):
    """An outcome decided before the end of the resolution."""

    def __init__(self, kind):
        self.kind = kind


class Unspecified(Exception):
    """The statements do not settle this case."""


ABSENT = object()
NOVALUE = object()        # an optional attribute without value: reads as None


def chars(d):
    d = dict(d)
    d.setdefault('type', str)
    d.setdefault('optional', False)
    d.setdefault('default', None)
    for k in ('values', 'outcast', 'alias'):
        d[k] = list(d.get(k, ()))
    remap = dict(d.get('remap', {}))
    if remap.pop('autoremap', None) is not None:
        for x in d['values'][1:]:
            remap[x] = d['values'][0]
    d['remap'] = remap
    for k in ('values', 'outcast'):
        d[k] = [v if isinstance(v, d['type']) or d.get('isclass') else d['type'](v, **d.get('args', {})) for v in d[k]]
    return d


def lower_defaults(defaults):
    return {k.lower(): v for k, v in defaults.items()}


def sources(attrs, desc, defaults):
    """For each attribute: the list of acceptable raw values, and whether it is an input."""
    res = dict()
    for k, d in attrs.items():
        opt = d['optional']

        def given(key):
            return key in desc and not (opt and desc[key] is None)
        if given(k):
            res[k] = ([desc[k]], True)
            continue
        al = [a for a in d['alias'] if given(a)]
        if al:
            res[k] = ([desc[a] for a in al], True)
            continue
        if k.lower() in defaults:
            res[k] = ([defaults[k.lower()]], True)
            continue
        if opt:
            v = d['default']
            if v is None:
                v = NOVALUE
            elif hasattr(v, 'footprint_value'):
                v = v.footprint_value()
            res[k] = ([v], False)
        else:
            res[k] = ([None], False)
    return res


def is_member(v, vals):
    for x in vals:
        if x is v or x == v:
            return True
    return False


def conform(v, d):
    """('ok', value) or ('reject', None): remap, type, values, outcast."""
    seen = list()
    while True:
        try:
            hash(v)
        except TypeError:
            break
        if v in d['remap'] and not is_member(v, seen):
            seen.append(v)
            v = d['remap'][v]
        else:
            break
    if v is None:
        return 'reject', None
    t = d['type']
    if d.get('isclass', False):
        if not (isinstance(v, type) and issubclass(v, t)):
            return 'reject', None
    elif not isinstance(v, t):
        try:
            v = t(v, **d.get('args', {}))
        except (ValueError, TypeError, F.FootprintException):
            return 'reject', None
    if d['values'] and not is_member(v, d['values']):
        return 'reject', None
    if d['outcast'] and is_member(v, d['outcast']):
        return 'reject', None
    if isinstance(v, str) and v == 'None':
        return 'reject', None
    return 'ok', v


def apply_format(v, fmt):
    if not fmt:
        return str(v)
    spec = '{0' + fmt + '}' if (':' in fmt or '!' in fmt) else '{0:' + fmt + '}'
    return spec.format(v)


class Resolver:
    def __init__(self, attrs, raw, extras):
        self.attrs, self.raw, self.extras = attrs, raw, extras
        self.done = dict()
        self.active = set()

    def final(self, k):
        if k in self.done:
            return self.done[k]
        if k in self.active:
            raise Out('maxiter')
        self.active.add(k)
        v = self.raw[k]
        if v is NOVALUE:
            r = ('ok', NOVALUE)
        else:
            v = self.subst(v)
            r = ('reject', None) if v is None else conform(v, self.attrs[k])
        self.active.discard(k)
        self.done[k] = r
        return r

    def subst(self, v):
        n = 0
        while isinstance(v, str):
            m = REF.search(v)
            if not m:
                return v
            n += 1
            if n > 400:
                raise Out('maxiter')
            name, meth, fb, fmt = m.groups()
            if name in self.raw:
                st, x = self.final(name)
                if st == 'reject' or x is NOVALUE:
                    raise Unspecified()
                new = self.through(x, meth)
            elif name in self.extras:
                new = self.through(self.extras[name], meth)
            elif fb:
                new, fmt = fb, None
            else:
                raise Out('unreachable')
            if new is None:
                return None
            try:
                txt = apply_format(new, fmt)
            except (ValueError, AttributeError):
                raise Out('format')
            v = v[:m.start()] + txt + v[m.end():]
        return v

    def through(self, x, meth):
        if not meth:
            return x
        for part in re.split(':+', meth):
            x = getattr(x, part, None)
            if x is None:
                return None
            if callable(x):
                x = x(self.final_view(), self.extras) if hasattr(x, '__func__') else x()
                if x is None:
                    return None
        return x

    def final_view(self):
        return {k: (v[1] if v[0] == 'ok' else None) for k, v in self.done.items()}


def extras_of(attrs, desc, defaults, cb):
    """Extra values (conflicting sources are unspecified)."""
    ext = dict()

    def put(k, v):
        if k in ext and not (ext[k] is v or ext[k] == v):
            ext[k] = Conflict
        else:
            ext[k] = v
    for k, v in cb.items():
        put(k, v)
    for v in desc.values():
        if isinstance(v, F.FootprintBase):
            for k in v.footprint_attributes:
                put(k, getattr(v, k))
    for k, v in desc.items():
        if k not in attrs:
            put(k, v)
    for k, v in defaults.items() if F.setup.extended else ():
        if k not in attrs:
            put(k, v)
    return ext


class Conflict:
    pass


def resolve(attrs, desc, defaults=None, cb=None):
    """The set of acceptable outcomes.

    Returns a list of ('ok', values, inputs) / ('reject',) / ('maxiter',) / ('unreachable',) / ('format',)
    or None when unspecified.
    """
    attrs = {k: chars(d) for k, d in attrs.items()}
    defaults = lower_defaults(defaults or {})
    src = sources(attrs, desc, defaults)
    if any(all(x is None for x in r[0]) for r in src.values()):
        return [('reject',), ('unreachable',), ('maxiter',), ('format',)] if _hasref(src) else [('reject',)]
    extras = extras_of(attrs, desc, defaults, cb or {})
    if any(v is Conflict for v in extras.values()):
        for r in src.values():
            for x in r[0]:
                if isinstance(x, str) and '[' in x:
                    return None
    combos = [dict()]
    for k, (alts, inp) in src.items():
        combos = [dict(c, **{k: x}) for c in combos for x in alts]
        if len(combos) > 64:
            return None
    outs = list()
    for raw in combos:
        if any(x is None for x in raw.values()):
            outs.append(('reject',))
            continue
        res = Resolver(attrs, raw, extras)
        vals, errs = dict(), set()
        unspec = False
        for k in attrs:
            try:
                st, v = res.final(k)
                if st == 'reject':
                    errs.add('reject')
                else:
                    vals[k] = v
            except Out as o:
                res.active.clear()
                errs.add(o.kind)
            except Unspecified:
                res.active.clear()
                unspec = True
                errs.update(('reject', 'format', 'ANY'))
        if 'maxiter' in errs and any(isinstance(x, str) and ('[' in REF.sub('', x) or ']' in REF.sub('', x))
                                     for x in list(raw.values()) + list(extras.values())):
            # expanding the cycle brings stray brackets together: they may form another reference
            errs.update(('unreachable', 'format', 'reject'))
        if errs:
            if unspec and not errs - {'reject', 'format', 'ANY'}:
                # depends on an attribute that was refused (or unset)
                if not any(r[0] == 'reject' for r in res.done.values()):
                    return None
                outs.extend([('reject',), ('format',), ('maxiter',), ('unreachable',)])
            else:
                if unspec:
                    errs.update(('maxiter', 'unreachable', 'format', 'reject'))
                outs.extend((e,) for e in errs if e != 'ANY')
        else:
            inputs = {k for k, r in src.items() if r[1]}
            outs.append(('ok', vals, inputs))
    return outs


def _hasref(src):
    return any(isinstance(x, str) and '[' in x for r in src.values() for x in r[0])


def observe(fn):
    """Run a resolution of the real code and classify what happened."""
    st, r = guarded(fn)
    if st == 'ok':
        guess, inputs = r[0], r[1]
        if not guess or None in list(guess.values()):
            return ('reject',)
        return ('ok', guess, inputs)
    if isinstance(r, F.FootprintMaxIter):
        return ('maxiter',)
    if isinstance(r, F.FootprintUnreachableAttr):
        return ('unreachable',)
    if isinstance(r, F.FootprintFatalError):
        return ('reject',)
    if isinstance(r, (ValueError, AttributeError, TypeError)):
        return ('format', repr(r))
    return ('other', repr(r))


def match(expected, got):
    """None when the observed outcome is one of the acceptable ones, else an explanation."""
    if expected is None:
        return None
    why = ['expected %s, got %s' % (' or '.join(sorted({e[0] for e in expected})), _short(got))]
    for e in expected:
        if e[0] != got[0]:
            continue
        if e[0] != 'ok':
            return None
        vals = got[1]
        if set(vals) != set(e[1]):
            why.append('attributes %s instead of %s' % (sorted(vals), sorted(e[1])))
            continue
        bad = None
        for k, v in e[1].items():
            w = vals[k]
            if v is NOVALUE:
                if w is not F.UNKNOWN and w is not None:
                    bad = '%s should be unset, is %r' % (k, w)
            elif not same(v, w):
                bad = '%s should be %r, is %r' % (k, v, w)
        if bad:
            why.append(bad)
            continue
        if got[2] is not None and set(got[2]) != e[2]:
            why.append('inputs %s instead of %s' % (sorted(got[2]), sorted(e[2])))
            continue
        return None
    return '; '.join(why)


def _short(g):
    return str(g)[:300]
