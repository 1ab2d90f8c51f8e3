"""Shared models of the collectors: candidate classes (by their contracts), the collector object."""
import z3
from core import *           # noqa
from core import V, NONE, BOOL, INT
from context import *        # noqa
from lib import OpqCls, flen, convF, convE

CO = 'collectors:Collector.'
NOARGS = REG.o('noargs')

# ---- what the footprint of a class says (Footprint.attr, mandatory, get_values: under their own contracts)
attrF = UF('fp_attr', V, V, BOOL)              # class, name: declared attribute
optF = UF('fp_optional', V, V, BOOL)
valF = UF('fp_value', V, V, V, BOOL)           # class, name, value: among the authorised values
hasvalsF = UF('fp_hasvals', V, V, BOOL)
remapF = UF('fp_hasremap', V, V, BOOL)
hastypeF = UF('fp_hastype', V, V, BOOL)
typeF = UF('fp_type', V, V, V)
hasargsF = UF('fp_hasargs', V, V, BOOL)
argsF = UF('fp_args', V, V, V)
fpOf = UF('fp_of', V, V)
clsOf = UF('cls_of_fp', V, V)
attrsOf = UF('fp_attrs', V, V)
plF = UF('footprint_pl', V, INT)
nameF = UF('fullname', V, V)


def ctype(c, a):
    return z3.If(hastypeF(c, a), typeF(c, a), REG.o('class:str'))


def cargs(c, a):
    return z3.If(hasargsF(c, a), argsF(c, a), NOARGS)


authT = UF('authorised_of_type', V, V, V, BOOL)      # type, arguments, value: some footprint has this authorised value for that type


def mandF(c, a):
    return z3.And(attrF(c, a), z3.Not(optF(c, a)))


def class_facts():
    """A set of values is not empty when it has an element; the values are normalised."""
    c, a, v = z3.Const('cf_c', V), z3.Const('cf_a', V), z3.Const('cf_v', V)
    return [forall([c, a, v], z3.Implies(valF(c, a, v), z3.And(hasvalsF(c, a), canon(v) == v)), [valF(c, a, v)]),
            forall([c, a, v], z3.Implies(valF(c, a, v), authT(ctype(c, a), canon(cargs(c, a)), v)), [valF(c, a, v)]),
            forall([c], clsOf(fpOf(c)) == c, [fpOf(c)])]


def char(ip, o, n):
    """A characteristic of an attribute: o.t is the pair (class, attribute)."""
    c, a = o.c, o.a
    if n == 'values':
        return values_view(ip, c, a)
    if n == 'remap':
        return T(UF('fp_remap', V, V, V)(c, a), OpqCls('remap', truthy=lambda ip2, v: remapF(c, a)))
    if n == 'optional':
        return B(optF(c, a))
    if n == 'type':
        if not ip.E.choose(hastypeF(c, a)):
            raise PyRaise(BCls('KeyError'))
        return T(typeF(c, a))
    if n == 'args':
        if not ip.E.choose(hasargsF(c, a)):
            raise PyRaise(BCls('KeyError'))
        return T(argsF(c, a))
    raise Unsupported('characteristic %s' % n)


class AttrT(T):
    """The characteristics of the attribute a of the class c."""
    __slots__ = ('c', 'a')

    def __init__(self, c, a):
        super().__init__(UF('fp_char', V, V, V)(c, a), CHAR)
        self.c, self.a = c, a


def char_get(ip, o):
    def get(ip2, args, kw):
        n = args[0].py
        d = args[1] if len(args) > 1 else C(None)
        c, a = o.c, o.a
        if n == 'type':
            return T(z3.If(hastypeF(c, a), typeF(c, a), ip.term(d)))
        if n == 'args':
            return T(z3.If(hasargsF(c, a), argsF(c, a), NOARGS if ip.is_emptydict(d) else ip.term(d)))
        return char(ip, o, n)
    return Stub('get', get)


CHAR = OpqCls('characteristics', attrs={'__getitem__': lambda ip, o, k: char(ip, o, k.py), 'get': char_get})


def values_view(ip, c, a):
    """The authorised values, as a container that is only read."""
    E = ip.E
    x = z3.Const('vv_x', V)
    m = E.fresh(z3.ArraySort(V, BOOL), 'values')
    E.assume(forall(x, m[x] == valF(c, a, x), [m[x]]), forall(x, m[x] == valF(c, a, x), [valF(c, a, x)]))
    r = E.new_cell(Set(), {'mem': m}, 'values', frozen=True)
    w = E.fresh(V, 'w')
    E.assume(hasvalsF(c, a) == valF(c, a, w), z3.Implies(hasvalsF(c, a), m[w]))
    return r


def mand_contains(ip, o, x):
    return B(mandF(clsOf(o.t), ip.term(x)))


MAND = OpqCls('mandatory', attrs={'__contains__': lambda ip, o, x: B(mandF(o.opq.c, ip.term(x)))})


def mandatory_view(ip, c):
    o = OpqCls('mandatory', attrs={'__contains__': lambda ip2, o2, x: B(mandF(c, ip2.term(x)))})
    return T(UF('fp_mandatory', V, V)(c), o)


def attrs_view(c):
    def item(ip, o, k):
        kt = ip.term(k)
        if not ip.E.choose(attrF(c, kt)):
            raise PyRaise(BCls('KeyError'))
        return AttrT(c, kt)
    return T(attrsOf(c), OpqCls('attrs', attrs={'__getitem__': item, '__contains__': lambda ip, o, x: B(attrF(c, ip.term(x)))}))


def fp_view(c):
    """The footprint of the class c."""
    def opt(ip, o):
        def f(ip2, a, k):
            t = ip2.term(a[0])
            if not ip2.E.choose(attrF(c, t)):
                raise PyRaise(BCls('KeyError'))
            return B(optF(c, t))
        return Stub('optional', f)
    o = OpqCls('footprint', attrs={
        'mandatory': lambda ip, o: Stub('mandatory', lambda ip2, a, k: mandatory_view(ip2, c)),
        'optional': opt,
        'get_values': lambda ip, o: Stub('get_values', lambda ip2, a, k: values_view(ip2, c, ip2.term(a[0]))),
        'attr': lambda ip, o: attrs_view(c)})
    return T(fpOf(c), o)


def weight(ip, c, n):
    """Contract of FootprintBase.footprint_weight (proved by the contract 'footprint_weight')."""
    return Tup([I(plF(c)), n if isinstance(n, (I, C)) else I(ip.to_int(n))])


def cls_opq(**more):
    """A registered class, known by the contracts of its methods."""
    attrs = {'footprint_retrieve': lambda ip, o: Stub('footprint_retrieve', lambda ip2, a, k: fp_view(o.t)),
             'footprint_pl': lambda ip, o: Stub('footprint_pl', lambda ip2, a, k: I(plF(o.t))),
             'footprint_weight': lambda ip, o: Stub('footprint_weight', lambda ip2, a, k: weight(ip2, o.t, a[0])),
             'fullname': lambda ip, o: Stub('fullname', lambda ip2, a, k: T(nameF(o.t)))}
    call = more.pop('call', None)
    attrs.update(more)
    return OpqCls('fpclass', attrs=attrs, call=call)


CLS = cls_opq()


def clsset(opq=None):
    nt = Set('obj')
    nt.kopq = opq or CLS
    return nt


def INDEX():
    m = Map(Set('obj'))
    m.dflt = True
    return Map(m, key='name')


class Coll:
    """A collector: its registered classes, its fast track tables."""

    def __init__(self, ip, opq=None, **fields):
        E = ip.E
        self.ip, self.opq = ip, opq or CLS
        self.items = self.cell(clsset(self.opq), 'items')
        self.attr = self.cell(Set('name'), 'ft_attr')
        self.index = self.cell(INDEX(), 'ft_index')
        self.trap = self.cell(Map(Set('obj'), key='name'), 'ft_trap')
        self.type = self.cell(Map(Leaf('V'), key='name'), 'ft_type')
        self.targs = self.cell(Map(Leaf('V'), key='name'), 'ft_args')
        fs = {'_items': self.items, '_fasttrack_attr': self.attr, '_fasttrack_index': self.index, '_fasttrack_trap': self.trap,
              '_fasttrack_type': self.type, '_fasttrack_typeargs': self.targs, 'tag': T(E.fresh(V, 'tag')), '_weak': C(True)}
        fs.update(fields)
        self.obj = E.new_obj(ip.repo.cls('collectors:Collector'), fs, 'collector')
        E.assume(*class_facts())
        x = z3.Const('co_x', V)
        it = E.tree(self.items)['mem']
        E.assume(forall(x, z3.Implies(it[x], V.is_rv(x)), [it[x]]))
        at = E.tree(self.attr)['mem']
        E.assume(forall(x, z3.Implies(at[x], V.is_sv(x)), [at[x]]))
        self.heap0 = dict(E.st.heap)

    def cell(self, nt, hint):
        E = self.ip.E
        return E.new_cell(nt, fresh_tree(nt, E.fresh_name(hint)), hint)

    # current values of the fields
    def field(self, n):
        return self.ip.E.st.heap[self.obj.cid].fields[n]

    def tree(self, n):
        return self.ip.E.tree(self.field(n))

    def frame(self, nm, allowed):
        """Only the allowed fields (their cells) are modified."""
        E = self.ip.E
        keep = {o.fields[n].cid for n in allowed for o in (E.st.heap[self.obj.cid], self.heap0[self.obj.cid]) if isinstance(o.fields[n], Ref)}
        keep |= {'%s.%s' % (self.obj.cid, n) for n in allowed}
        frame_oblige(self.ip, '%s: nothing else is modified' % nm, self.heap0, keep)


def arr(n, k):
    """The content of a table that holds nothing yet."""
    s = V if n == 'V' else BOOL
    for _ in range(k):
        s = z3.ArraySort(V, s)
    return z3.Const('nothing.%s%d' % (n, k), s)


def tables(coll):
    """The current tables as functions."""
    a, ix, tr, ty, ta = (coll.tree('_fasttrack_' + n) for n in ('attr', 'index', 'trap', 'type', 'typeargs'))

    def g(t, k, n, d):
        return t[k] if k in t else arr(n, d)
    return type('Tb', (), dict(attr=a['mem'], ihas=ix['has'], khas=g(ix, '*.has', 'b', 2), imem=g(ix, '*.*.mem', 'b', 3), thas=tr['has'], tmem=g(tr, '*.mem', 'b', 2),
                               yhas=ty['has'], ytype=g(ty, '*.v', 'V', 1), ahas=ta['has'], aargs=g(ta, '*.v', 'V', 1)))()


def tables_at(coll, st):
    """The tables in another state."""
    E = coll.ip.E
    cur, E.st = E.st, st
    try:
        return tables(coll)
    finally:
        E.st = cur


def same_at(tb, t0, a):
    """The tables of the attribute a are the same."""
    return z3.And(tb.attr[a] == t0.attr[a], tb.ihas[a] == t0.ihas[a], tb.khas[a] == t0.khas[a], tb.imem[a] == t0.imem[a], tb.thas[a] == t0.thas[a],
                  tb.tmem[a] == t0.tmem[a], tb.yhas[a] == t0.yhas[a], tb.ytype[a] == t0.ytype[a], tb.ahas[a] == t0.ahas[a], tb.aargs[a] == t0.aargs[a])


def placed(tb, guard):
    """The classes c (those with guard(c, a)) can be found through the tables of the attribute a."""
    a, c, v = z3.Const('pl_a', V), z3.Const('pl_c', V), z3.Const('pl_v', V)
    out = z3.And(guard(c, a), z3.Not(tb.tmem[a][c]))
    return [forall([a, c], z3.Implies(out, z3.And(mandF(c, a), hasvalsF(c, a), z3.Not(remapF(c, a)), tb.ytype[a] == ctype(c, a), eq(tb.aargs[a], cargs(c, a)))), [tb.tmem[a][c]]),
            forall([a, c, v], z3.Implies(z3.And(out, valF(c, a, v)), z3.And(tb.khas[a][v], tb.imem[a][v][c])), [valF(c, a, v)])]


def inv0(tb):
    """The part of the representation invariant that does not depend on the registered classes."""
    a, v = z3.Const('in_a', V), z3.Const('in_v', V)
    return [('indexed values are authorised values of the type', forall([a, v], z3.Implies(z3.And(tb.attr[a], tb.khas[a][v]), authT(tb.ytype[a], canon(tb.aargs[a]), v)), [tb.khas[a][v]])),
            ('tables exist', forall(a, z3.Implies(tb.attr[a], z3.And(tb.ihas[a], tb.thas[a], tb.yhas[a], tb.ahas[a])), [tb.attr[a]])),
            ('untyped attributes have no index', forall([a, v], z3.Implies(z3.And(tb.attr[a], tb.ytype[a] == NONE), z3.Not(tb.khas[a][v])), [tb.khas[a][v]]))]


def inv(tb, D, not_only=False):
    """The representation invariant of the fast track tables for the registered classes D (a function class -> bool)."""
    a, c, v = z3.Const('in_a', V), z3.Const('in_c', V), z3.Const('in_v', V)
    pl = placed(tb, lambda c2, a2: z3.And(tb.attr[a2], D(c2)))
    out = [('every class is found: trap or index', pl[0]), ('every class is found: indexed under all its values', pl[1])]
    if not_only:
        return out
    return inv0(tb) + out + [
        ('only registered classes: trap', forall([a, c], z3.Implies(z3.And(tb.attr[a], tb.thas[a], tb.tmem[a][c]), D(c)), [tb.tmem[a][c]])),
        ('only registered classes: index', forall([a, c, v], z3.Implies(z3.And(tb.attr[a], tb.ihas[a], tb.khas[a][v], tb.imem[a][v][c]), D(c)), [tb.imem[a][v][c]]))]
