"""Common ground of the replay harness (runs the real code of /repo under /opt/venv/bin/python).

A *case* is a JSON document that describes one input / configuration / history.  ``run(case)``
executes it on the real code and raises :class:`Fail` when the contract of the property is
broken.  Everything here is independent of the code under test but for its public API.
"""
import copy
import os
import random
import re
import signal
import sys

sys.dont_write_bytecode = True
SRC = os.environ.get('VERIF_SRC', '/repo/src')
sys.path.insert(0, SRC)

from bronx.fancies import loggers as _bl            # noqa: E402
import footprints as F                              # noqa: E402
from footprints import access, collectors, config, doc, priorities, proxies, reporting, stdtypes, util  # noqa: E402

assert os.path.realpath(F.__file__).startswith(os.path.realpath(SRC)), F.__file__
for _n in ('footprints', 'footprints.collectors', 'footprints.access', 'footprints.util',
           'footprints.config', 'bronx'):
    _bl.getLogger(_n).setLevel('CRITICAL')
import logging                                       # noqa: E402
logging.disable(logging.CRITICAL)


class Fail(Exception):
    """The property does not hold for this case."""


class Timeout(BaseException):
    pass


def _onalarm(signum, frame):
    raise Timeout()


signal.signal(signal.SIGALRM, _onalarm)


def ensure(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


# ---------------------------------------------------------------- test types

class A:
    pass


class B(A):
    pass


class Cx:
    pass


class Num:
    """A type that accepts some values only and is equal to the number it holds."""

    def __init__(self, v, scale=1):
        if isinstance(v, Num):
            v = v.n
        if isinstance(v, str) and not v.lstrip('-').isdigit():
            raise ValueError('not a number: %s' % v)
        if v is None or isinstance(v, (list, dict)):
            raise TypeError('bad type')
        self.n = int(v) * scale

    def __eq__(self, other):
        return isinstance(other, Num) and other.n == self.n

    def __hash__(self):
        return hash(('Num', self.n))

    def __repr__(self):
        return 'Num(%d)' % self.n

    def __lt__(self, other):
        return self.n < other.n

    def half(self, guess, extras):
        return self.n // 2

    def nothing(self, guess, extras):
        return None


class Picky:
    """A type refusing values with a footprint error, comparing by case-insensitive name, unhashable by identity."""

    def __init__(self, v):
        if not isinstance(v, str) or not v:
            raise F.FootprintException('refused')
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Picky) and other.v.lower() == self.v.lower()

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Picky(%r)' % self.v


class Holder:
    """Plain object with attributes and methods that references could use."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def shout(self, guess, extras):
        return 'SHOUT'

    def other(self, guess, extras):
        return '<%s>' % extras.get('ex1', 'no ex1')

    def nothing(self, guess, extras):
        return None

    def empty(self, guess, extras):
        return ''

    def zero(self, guess, extras):
        return 0

    def known(self, guess, extras):
        return 'known' if 'ex1' in guess else 'unknown'

    def __eq__(self, other):
        return isinstance(other, Holder) and self.__dict__ == other.__dict__

    def __hash__(self):
        return 7

    def __str__(self):
        return 'holder'

    __repr__ = __str__


class LazyDefault:
    def __init__(self, v):
        self.v = v

    def footprint_value(self):
        return self.v

    def __eq__(self, other):
        return isinstance(other, LazyDefault) and self.v == other.v


TYPES = dict(int=int, str=str, float=float, bool=bool, object=object, list=list, tuple=tuple, dict=dict,
             set=set, A=A, B=B, Cx=Cx, Num=Num, Picky=Picky, Holder=Holder,
             FPList=stdtypes.FPList, FPDict=stdtypes.FPDict, FPSet=stdtypes.FPSet, FPStr=stdtypes.FPStr,
             FPTuple=stdtypes.FPTuple)


def dec(v):
    """Decode a JSON encoded value."""
    if isinstance(v, dict):
        t, x = v['t'], v.get('v')
        if t == 'cls':
            return TYPES[x]
        if t == 'inst':
            return TYPES[x]()
        if t in ('list', 'tuple', 'set', 'FPList', 'FPTuple', 'FPSet'):
            return TYPES[t]([dec(y) for y in x])
        if t in ('dict', 'FPDict'):
            return TYPES[t]([(dec(k), dec(w)) for k, w in x])
        if t == 'FPStr':
            return stdtypes.FPStr(x)
        if t in ('Num', 'Picky'):
            return TYPES[t](x)
        if t == 'Holder':
            return Holder(**{k: dec(w) for k, w in x})
        if t == 'lazy':
            return LazyDefault(dec(x))
        if t == 're':
            return re.compile(x)
        if t == 'FPRegex':
            return stdtypes.FPRegex(x)
        if t == 'inf':
            return float('inf')
        raise ValueError(t)
    return v


def mk(t, v):
    return {'t': t, 'v': v}


# ---------------------------------------------------------------- contexts

_count = [0]
PREFIX = 'vfq'


def fresh(name='c'):
    _count[0] += 1
    return '%s%s%dx' % (PREFIX, name, _count[0])


def reset_setup():
    F.setup.defaults = dict()
    F.setup.callback = None
    F.setup.extended = True
    F.setup.fastmode = False
    F.setup.fatal = True
    F.setup.report = config.ONERROR_REPORTING


def decode_attrs(attrs):
    """attrs: {name: {characteristic: encoded}} -> real footprint attr definition"""
    out = dict()
    for name, d in attrs.items():
        nd = dict()
        for k, v in d.items():
            if k == 'type':
                nd[k] = TYPES[v]
            elif k in ('values', 'outcast', 'alias'):
                nd[k] = [dec(x) for x in v]
            elif k == 'remap':
                nd[k] = {dec(a): dec(b) for a, b in v}
            elif k == 'args':
                nd[k] = {a: dec(b) for a, b in v.items()}
            else:
                nd[k] = dec(v)
        out[name] = nd
    return out


def mkclass(attrs, only=None, level=None, tag=None, name=None, explicit=False, abstract=False, bases=None,
            module='vfqmod.pkg', **more):
    """Build a real footprint class from a decoded footprint definition."""
    fp = dict(attr=attrs, info='vfq')
    if only is not None:
        fp['only'] = only
    if level is not None:
        fp['priority'] = dict(level=priorities.top.level(level))
    d = dict(_footprint=fp, _explicit=explicit, _abstract=abstract, __module__=module)
    if tag is not None:
        d['_collector'] = tag if isinstance(tag, tuple) else (tag,)
    d.update(more)
    return F.FootprintBaseMeta(name or fresh('K'), bases or (F.FootprintBase,), d)


def forget(tag):
    """Forget a collector (memory only)."""
    c = collectors.Collector._tag_table.pop(collectors.Collector.tag_clean(tag), None)
    if c is not None:
        reporting.FootprintLog._tag_table.pop(c.report_tag, None)


def snap(x, depth=0):
    """A comparable, independent image of a value (structure, types, identities of opaque objects)."""
    if depth > 8:
        return '...'
    if isinstance(x, dict):
        return (type(x).__name__, tuple(sorted(((repr(k), snap(v, depth + 1)) for k, v in x.items()))))
    if isinstance(x, (list, tuple)) or type(x).__name__ == 'deque':
        return (type(x).__name__, tuple(snap(y, depth + 1) for y in x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(sorted(repr(y) for y in x)))
    if isinstance(x, (str, int, float, bool, type(None))):
        return (type(x).__name__, repr(x))
    if isinstance(x, F.Footprint):
        return ('Footprint', snap(x._fp, depth + 1))
    return ('obj', id(x))


def same(a, b):
    """Equal value and equal type (recursively for builtin containers)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return repr(a) == repr(b)
    if a is b:
        return True
    return bool(a == b)


def guarded(fn, *args, **kw):
    """('ok', result) or ('raise', exception)."""
    try:
        return 'ok', fn(*args, **kw)
    except Timeout:
        raise
    except Exception as e:                  # noqa
        return 'raise', e


def pick(rng, seq):
    return seq[rng.randrange(len(seq))]


def wpick(rng, pairs):
    tot = sum(w for w, _ in pairs)
    r = rng.random() * tot
    for w, x in pairs:
        r -= w
        if r <= 0:
            return x
    return pairs[-1][1]
