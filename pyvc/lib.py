"""Operations on values: containers, strings, builtins."""
import ast
import builtins as pybuiltins
import z3
from core import *          # noqa
from core import V, NONE, BOOL, INT
from repo import ClassInfo, FuncInfo

fhas = UF('fhas', V, V, BOOL)
fget = UF('fget', V, V, V)
flen = UF('flen', V, INT)
fat = UF('fat', V, INT, V)
strF = UF('strF', V, V)
subclsF = UF('subcls', V, V, BOOL)
hasattrF = UF('hasattr', V, V, BOOL)
getattrF = UF('getattr', V, V, V)
convF = UF('conv', V, V, V, V)          # class, value, keyword arguments
convE = UF('conv_exc', V, V, V, INT)    # 0 no exception, 1 ValueError, 2 TypeError, 3 FootprintException, 4 another one
callF = {n: UF('call%d' % n, *([V] * (n + 2))) for n in range(6)}
callE = {n: UF('callexc%d' % n, *([V] * (n + 1) + [INT])) for n in range(6)}
tupF = {n: UF('tup%d' % n, *([V] * (n + 1))) for n in range(1, 9)}
geF = UF('ge', V, V, BOOL)
ltF = UF('lt', V, V, BOOL)
cmpE = UF('cmp_exc', V, V, INT)
card = UF('card', z3.ArraySort(V, BOOL), INT)


class Dom:
    """Iteration domain. set: has, elem(x); seq: lo, hi, last, elem(i); py: vals."""

    def __init__(self, kind, elem=None, has=None, lo=None, hi=None, last=None, vals=None, src=None, key='V', value=None):
        self.kind, self.elem, self.has, self.lo, self.hi, self.last, self.vals, self.src, self.key = kind, elem, has, lo, hi, last, vals, src, key
        self.value = value


def range_count(lo, hi, step):
    """Number of elements of range(lo, hi, step), for a positive step."""
    return z3.If(hi > lo, (hi - lo + step - 1) / step, z3.IntVal(0))


range_at = UF('range_at', INT, INT, INT, INT)


class OpqCls:
    """Model of the instances of a class known by its methods only."""

    def __init__(self, name, attrs=None, isa=(), hasattrs=None, truthy=None, call=None):
        self.name, self.attrs, self.isa, self.hasattrs, self.truthy, self.call = name, attrs or {}, set(isa), hasattrs or {}, truthy, call


STR_BOOL = {'startswith', 'endswith', 'isdigit', 'isupper', 'islower', 'isalpha', 'isalnum', 'isidentifier'}
STR_STR = {'upper', 'lower', 'strip', 'rstrip', 'lstrip', 'replace', 'title', 'capitalize', 'ljust', 'rjust', 'center', 'join', 'format', 'encode'}


class Lib:
    # ================================================================ conversions
    def term(self, v):
        if isinstance(v, T):
            return v.t
        if isinstance(v, C):
            p = v.py
            if p is None:
                return NONE
            if isinstance(p, bool):
                return V.bv(z3.BoolVal(p))
            if isinstance(p, int):
                return V.iv(z3.IntVal(p))
            if isinstance(p, str):
                return REG.s(p)
            return REG.o('py:%r' % (p,))
        if isinstance(v, B):
            return V.bv(v.b)
        if isinstance(v, I):
            return V.iv(v.i)
        if isinstance(v, ClsV):
            return REG.o('class:' + v.info.full)
        if isinstance(v, BCls):
            return REG.o('class:' + v.name)
        if isinstance(v, Obj):
            o = self.E.st.heap[v.cid]
            t = o.fields.get('@term') if isinstance(o, OCell) else None
            return t if t is not None else REG.o('obj:' + v.cid)
        if isinstance(v, Tup):
            if not v.vs:
                return REG.o('py:()')
            return tupF[len(v.vs)](*[self.term(x) for x in v.vs])
        if isinstance(v, (Fn, Stub, Bound, Mod)):
            return REG.o('fn:%s' % getattr(v, 'name', None) if not isinstance(v, Fn) else 'fn:' + v.info.full)
        if isinstance(v, Null):
            return REG.o('null:' + v.name)
        if isinstance(v, ExcV):
            return REG.o('exc')
        if isinstance(v, Ref):
            return self.freeze(v)
        raise Unsupported('no term for %r' % (v,))

    def freeze(self, ref):
        """A container stored as an opaque value: its content is forgotten."""
        c, r = self.E.cell(ref)
        key = 'frozen:%s:%s:%d' % (r.cid, '/'.join(str(k) for _, k in r.path), id(c.tree) if not c.frozen else 0)
        t = self.E.fresh(V, 'frozen')
        self.E.assume(V.is_rv(t))
        nt = self.E.nt(ref)
        if isinstance(nt, Seq) and isinstance(nt.elem, Leaf) and nt.elem.sort == V:
            tr = self.E.tree(ref)
            i = z3.Const('fz_i', INT)
            self.E.assume(flen(t) == tr['hi'] - tr['lo'])
            self.E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < flen(t)), fat(t, i) == tr['*.v'][tr['lo'] + i]), patterns=[fat(t, i)]))
        if isinstance(nt, (Set, Map)):
            comp = self.E.tree(ref)['mem' if isinstance(nt, Set) else 'has']
            x = z3.Const('fz_x', V)
            self.E.assume(z3.ForAll([x], fhas(t, x) == comp[x], patterns=[fhas(t, x)]))
            if isinstance(nt, Map) and isinstance(nt.child, Leaf) and nt.child.sort == V:
                val = self.E.tree(ref)['*.v']
                self.E.assume(z3.ForAll([x], z3.Implies(comp[x], fget(t, x) == val[x]), patterns=[fget(t, x)]))
        return t

    def to_int(self, v):
        if isinstance(v, I):
            return v.i
        if isinstance(v, C) and isinstance(v.py, int):
            return z3.IntVal(int(v.py))
        if isinstance(v, B):
            return z3.If(v.b, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, T):
            if not self.E.choose(V.is_iv(v.t)):
                raise PyRaise(BCls('TypeError'), origin='int expected')
            return V.i(v.t)
        raise Unsupported('integer expected: %r' % (v,))

    def to_bool(self, v):
        return self.truthy(v)

    def mkbool(self, b):
        b = z3.simplify(b)
        if z3.is_true(b):
            return C(True)
        if z3.is_false(b):
            return C(False)
        return B(b)

    def mkint(self, i):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return C(i.as_long())
        return I(i)

    def truthy(self, v):
        if isinstance(v, B):
            return v.b
        if isinstance(v, I):
            return v.i != 0
        if isinstance(v, C):
            return z3.BoolVal(bool(v.py))
        if isinstance(v, T):
            if v.opq is not None and v.opq.truthy is not None:
                return v.opq.truthy(self, v)
            return truth(v.t)
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.vs))
        if isinstance(v, Null):
            return z3.BoolVal(True)
        if isinstance(v, Ref):
            nt, tr = self.E.nt(v), self.E.tree(v)
            if isinstance(nt, Seq):
                return tr['hi'] > tr['lo']
            return self.nonempty(tr['has' if isinstance(nt, Map) else 'mem'])
        if isinstance(v, Obj):
            if self.is_pdict(v):
                return z3.BoolVal(bool(self.E.st.heap[v.cid].fields))
            cls = self.E.st.heap[v.cid].cls
            for m in ('__bool__', '__len__'):
                f = self.repo.lookup(cls, m) if isinstance(cls, ClassInfo) else None
                if isinstance(f, FuncInfo):
                    return self.truthy(self.call_function(Fn(f), [v], {}))
            h = self.ctx.obj_truthy(self, v)
            return h if h is not None else z3.BoolVal(True)
        if isinstance(v, (ClsV, BCls, Fn, Bound, Stub, Mod)):
            return z3.BoolVal(True)
        raise Unsupported('truth of %r' % (v,))

    def nonempty(self, arr):
        if z3.is_K(arr):
            return arr.arg(0)
        b = UF('nonempty', z3.ArraySort(V, BOOL), BOOL)(arr)
        w = UF('witness', z3.ArraySort(V, BOOL), V)(arr)
        x = z3.Const('ne_x', V)
        self.E.assume(z3.Implies(b, arr[w]), z3.Implies(z3.Not(b), z3.ForAll([x], z3.Not(arr[x]), patterns=[arr[x]])))
        return b

    # ================================================================ comparisons and operators
    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ('Is', 'IsNot'):
            r = self.identical(a, b)
            return self.mkbool(r if n == 'Is' else z3.Not(r))
        if n in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            return self.mkbool(r if n == 'Eq' else z3.Not(r))
        if n in ('In', 'NotIn'):
            r = self.contains(b, a)
            return self.mkbool(r if n == 'In' else z3.Not(r))
        return self.order(n, a, b)

    def identical(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, C) and (x.py is None or isinstance(x.py, bool)):
                if isinstance(y, (T, C, B, I)):
                    return self.term(y) == self.term(x)
                return z3.BoolVal(False)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return z3.BoolVal(a.cid == b.cid)
        if isinstance(a, T) and isinstance(b, T):
            if a.t.eq(UNK) or b.t.eq(UNK) or (a.opq is not None and b.opq is not None):
                return a.t == b.t
        if all(isinstance(x, (T, ClsV, BCls)) for x in (a, b)):
            # classes and opaque objects: identity of the objects (strings would not be decided by their content)
            ta, tb = self.term(a), self.term(b)
            if is_lit_str(ta) or is_lit_str(tb):
                raise Unsupported('identity of strings')
            if isinstance(a, T) and isinstance(b, T):
                self.E.exact = False
            return ta == tb
        raise Unsupported('identity of %r and %r' % (a, b))

    def equal(self, a, b):
        if isinstance(a, C) and isinstance(b, C):
            return z3.BoolVal(a.py == b.py)
        num = lambda v: isinstance(v, I) or isinstance(v, C) and isinstance(v.py, int) and not isinstance(v.py, bool)
        if num(a) and num(b):
            return self.to_int(a) == self.to_int(b)
        if isinstance(a, (B, C)) and isinstance(b, (B, C)) and (isinstance(a, B) or isinstance(a.py, bool)) and (isinstance(b, B) or isinstance(b.py, bool)):
            return self.truthy(a) == self.truthy(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and not self.is_pdict(x):
                m = self.repo.lookup(self.E.st.heap[x.cid].cls, '__eq__') if isinstance(self.E.st.heap[x.cid].cls, ClassInfo) else None
                if isinstance(m, FuncInfo):
                    return self.truthy(self.call_function(Fn(m), [x, y], {}))
        if isinstance(a, Ref) and isinstance(b, Ref):
            na, nb = self.E.nt(a), self.E.nt(b)
            if isinstance(na, Set) and isinstance(nb, Set):
                return self.E.tree(a)['mem'] == self.E.tree(b)['mem']
            raise Unsupported('equality of containers')
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.vs) != len(b.vs):
                return z3.BoolVal(False)
            return z3.And([self.equal(x, y) for x, y in zip(a.vs, b.vs)])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.opq is not None and '__eq__' in x.opq.attrs:
                return self.truthy(x.opq.attrs['__eq__'](self, x, y))
        if isinstance(a, Ref) or isinstance(b, Ref):
            other = b if isinstance(a, Ref) else a
            if isinstance(other, C):
                return z3.BoolVal(False)
            raise Unsupported('equality of a container and a value')
        return eq(self.term(a), self.term(b))

    def order(self, n, a, b):
        isnum = lambda v: isinstance(v, (I, B)) or isinstance(v, C) and isinstance(v.py, int)
        if isinstance(a, C) and isinstance(b, C):
            return C({'Lt': a.py < b.py, 'LtE': a.py <= b.py, 'Gt': a.py > b.py, 'GtE': a.py >= b.py}[n])
        if isnum(a) and isnum(b):
            x, y = self.to_int(a), self.to_int(b)
            return self.mkbool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[n])
        meth = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[n]
        if isinstance(a, Obj) and not self.is_pdict(a) and isinstance(self.E.st.heap[a.cid].cls, ClassInfo):
            cls = self.E.st.heap[a.cid].cls
            m = self.repo.lookup(cls, meth)
            if isinstance(m, FuncInfo):
                return self.call_function(Fn(m), [a, b], {})
            if any('total_ordering' in ast.unparse(d) for d in cls.node.decorator_list):
                # functools.total_ordering from __gt__ and __eq__ (its documented definitions)
                gt = self.repo.lookup(cls, '__gt__')
                if isinstance(gt, FuncInfo):
                    g = self.truthy(self.call_function(Fn(gt), [a, b], {}))
                    if n == 'LtE':
                        return self.mkbool(z3.Not(g))
                    e = self.equal(a, b)
                    return self.mkbool({'GtE': z3.Or(g, e), 'Lt': z3.And(z3.Not(g), z3.Not(e))}[n])
        if isinstance(a, T) and a.opq is not None and meth in a.opq.attrs:
            return a.opq.attrs[meth](self, a, b)
        if isinstance(b, T) and b.opq is not None and {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}[meth] in b.opq.attrs:
            return b.opq.attrs[{'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}[meth]](self, b, a)
        if isinstance(a, T) and isinstance(b, (C, I)) and isnum(b) or isinstance(b, T) and isnum(a):
            ta, tb = self.term(a), self.term(b)
            both = z3.And(V.is_iv(ta), V.is_iv(tb))
            x, y = V.i(ta), V.i(tb)
            opq = self.opaque_order(n, ta, tb)
            return B(z3.If(both, {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[n], opq))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.vs) == len(b.vs):
            return self.mkbool(self.lexi(n, a.vs, b.vs))
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.E.nt(a), Set) and isinstance(self.E.nt(b), Set):
            x, y = self.E.tree(a)['mem'], self.E.tree(b)['mem']
            if n == 'LtE':
                return B(z3.IsSubset(x, y))
            if n == 'GtE':
                return B(z3.IsSubset(y, x))
        ta, tb = self.term(a), self.term(b)
        return B(self.opaque_order(n, ta, tb))

    def opaque_order(self, n, ta, tb):
        exc = cmpE(ta, tb)
        self.E.assume(exc >= 0, exc <= 1)
        if self.E.choose(exc == 1):
            raise PyRaise(BCls('TypeError'), origin='comparison')
        return {'GtE': geF(ta, tb), 'Lt': ltF(ta, tb), 'Gt': UF('gt', V, V, BOOL)(ta, tb), 'LtE': UF('le', V, V, BOOL)(ta, tb)}[n]

    def lexi(self, n, xs, ys):
        if not xs:
            return z3.BoolVal(n in ('LtE', 'GtE'))
        strict = {'Lt': 'Lt', 'LtE': 'Lt', 'Gt': 'Gt', 'GtE': 'Gt'}[n]
        s = self.truthy(self.order(strict, xs[0], ys[0]))
        e = self.equal(xs[0], ys[0])
        return z3.Or(s, z3.And(e, self.lexi(n, xs[1:], ys[1:])))

    def binop(self, op, a, b):
        n = type(op).__name__
        isint = lambda v: isinstance(v, I) or isinstance(v, C) and isinstance(v.py, int)
        if isinstance(a, C) and isinstance(b, C):
            try:
                r = {'Add': lambda: a.py + b.py, 'Sub': lambda: a.py - b.py, 'Mult': lambda: a.py * b.py, 'FloorDiv': lambda: a.py // b.py,
                     'Mod': lambda: a.py % b.py}[n]()
                return C(r)
            except (KeyError, TypeError):
                raise Unsupported('constant operation %s' % n)
        if isint(a) and isint(b):
            x, y = self.to_int(a), self.to_int(b)
            if n == 'Add':
                return self.mkint(x + y)
            if n == 'Sub':
                return self.mkint(x - y)
            if n == 'Mult':
                return self.mkint(x * y)
            if n == 'FloorDiv' and isinstance(b, C) and b.py > 0:
                return self.mkint(x / y)
        if isinstance(a, Ref) and isinstance(self.E.nt(a), Set):
            return self.set_op(n, a, b)
        if n == 'Add' and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.vs + b.vs)
        strish = lambda v: isinstance(v, T) or isinstance(v, C) and isinstance(v.py, str)
        if n == 'Add' and strish(a) and strish(b):
            ta, tb = self.term(a), self.term(b)
            for t in (ta, tb):
                if not is_lit_str(t) and not self.E.choose(is_str(t)):
                    raise PyRaise(BCls('TypeError'), origin='+ on non strings')
            r = UF('concat', V, V, V)(ta, tb)
            self.E.assume(V.is_sv(r))
            return T(r)
        if n == 'Mod' and isinstance(a, C) and isinstance(a.py, str):
            return self.opaque_str('pct')
        if isinstance(a, Obj) and not self.is_pdict(a) or isinstance(a, T) and a.opq is not None:
            h = self.ctx.binop(self, n, a, b)
            if h is not None:
                return h
        raise Unsupported('operator %s on %r and %r' % (n, a, b))

    def aug(self, op, a, b):
        n = type(op).__name__
        if isinstance(a, Ref):
            nt = self.E.nt(a)
            if isinstance(nt, Set) and n in ('BitOr', 'Sub', 'BitAnd'):
                r = self.set_op(n, a, b)
                self.E.put(a, self.E.tree(r))
                return a
            if isinstance(nt, Seq) and n == 'Add':
                self.seq_extend(a, b)
                return a
        return self.binop(op, a, b)

    def set_op(self, n, a, b):
        x = self.E.tree(a)['mem']
        y = self.mem_of(b)
        r = {'BitOr': z3.SetUnion, 'Sub': z3.SetDifference, 'BitAnd': z3.SetIntersect}.get(n)
        if r is None:
            raise Unsupported('set operator %s' % n)
        key = self.E.nt(a).key
        return self.E.new_cell(Set(key), {'mem': self.named_set(n, x, y)}, 'set')

    def named_set(self, n, x, y):
        m = self.E.fresh(z3.ArraySort(V, BOOL), 'set')
        e = z3.Const('so_x', V)
        f = {'BitOr': z3.Or(x[e], y[e]), 'Sub': z3.And(x[e], z3.Not(y[e])), 'BitAnd': z3.And(x[e], y[e])}[n]
        self.E.assume(z3.ForAll([e], m[e] == f, patterns=[m[e]]))
        for p in [x] + ([y] if n != 'BitAnd' else []):
            try:
                self.E.assume(z3.ForAll([e], m[e] == f, patterns=[p[e]]))
            except z3.Z3Exception:
                pass
        return m

    def mem_of(self, v):
        """The membership array of an iterable (as a set)."""
        if isinstance(v, Ref):
            nt, tr = self.E.nt(v), self.E.tree(v)
            if isinstance(nt, Set):
                return tr['mem']
            if isinstance(nt, Map):
                return tr['has']
        d = self.dom(v)
        if d.kind == 'py':
            m = z3.K(V, z3.BoolVal(False))
            for x in d.vals:
                m = z3.Store(m, self.key_term(x), z3.BoolVal(True))
            return m
        if d.kind == 'set' and d.value is None:
            return d.has
        if d.kind == 'seq':
            m = self.E.fresh(z3.ArraySort(V, BOOL), 'mem')
            i, x = z3.Const('mo_i', INT), z3.Const('mo_x', V)
            w = self.E.fresh(z3.ArraySort(V, INT), 'memw')
            el = canon(self.term(d.elem(i)))
            self.E.assume(z3.ForAll([i], z3.Implies(z3.And(d.lo <= i, i < d.hi), m[el])),
                          z3.ForAll([x], z3.Implies(m[x], z3.And(d.lo <= w[x], w[x] < d.hi, z3.substitute(el, (i, w[x])) == x)), patterns=[m[x]]))
            if isinstance(v, Ref) and isinstance(self.E.nt(v), Seq) and self.E.nt(v).keycomp() == '*.v' and self.E.tree(v)['*.v'].sort().range() == V:
                tr = self.E.tree(v)
                l = tr['last'][x]
                self.E.assume(z3.ForAll([x], z3.Implies(z3.And(tr['lo'] <= l, l < tr['hi']), m[canon(x)]), patterns=[l]))
            return m
        raise Unsupported('set of %r' % (v,))

    # ================================================================ containers
    def new_map(self):
        return self.E.new_cell(Map(Leaf()), None, 'map', virgin=True)

    def new_set(self):
        return self.E.new_cell(Set(), None, 'set', virgin=True)

    def new_seq(self):
        return self.E.new_cell(Seq(Leaf()), None, 'seq', virgin=True)

    def pdict(self, d):
        return self.E.new_obj('dict', d, 'pdict')

    def is_emptydict(self, v):
        if self.is_pdict(v):
            return not self.E.st.heap[v.cid].fields
        return isinstance(v, Ref) and self.E.cell(v)[0].virgin and isinstance(self.E.nt(v), Map)

    def is_pdict(self, v):
        return isinstance(v, Obj) and self.E.st.heap[v.cid].cls == 'dict'

    def is_plist(self, v):
        return isinstance(v, Obj) and self.E.st.heap[v.cid].cls == 'plist'

    def plist_key(self, o, k):
        n = len(self.E.st.heap[o.cid].fields)
        if not (isinstance(k, C) and type(k.py) is int):
            raise Unsupported('symbolic index of a literal list')
        if not -n <= k.py < n:
            raise PyRaise(BCls('IndexError'), origin='list index')
        return str(k.py % n)

    def key_term(self, v, key='V'):
        t = self.term(v)
        if key in ('name', 'obj'):
            return t
        if isinstance(v, (C, ClsV, BCls, Obj)):
            return canon(t)
        return canon(t)

    def hashable_or_raise(self, v, key='V'):
        if key in ('name', 'obj') or isinstance(v, (C, B, I, ClsV, BCls, Obj)):
            return
        if isinstance(v, Ref):
            raise PyRaise(BCls('TypeError'), origin='unhashable')
        if isinstance(v, Tup):
            for x in v.vs:
                self.hashable_or_raise(x)
            return
        t = self.term(v)
        if isinstance(v, T) and v.opq is not None:
            return
        if is_lit_str(t) or t.eq(UNK):
            return
        if not self.E.choose(z3.Or(z3.Not(V.is_rv(t)), hashableF(t))):
            raise PyRaise(BCls('TypeError'), origin='unhashable')

    def at(self, ref, key):
        """The value of the node below ref (path element key)."""
        c, r = self.E.cell(ref)
        path = r.path + (key,)
        nt = sub_nt(c.nt, path)
        return self.val_of_node(Ref(r.cid, path), nt)

    def val_of_node(self, ref, nt):
        if isinstance(nt, Leaf):
            t = self.E.tree(ref)['v']
            if nt.ty == 'bool':
                return B(t)
            if nt.ty == 'int':
                return I(t)
            return T(t, getattr(nt, 'opq', None))
        if isinstance(nt, Seq) and ref.path:
            self.E.assume(*seq_facts(nt, self.E.tree(ref)))
        if isinstance(nt, Rec) and nt.tup:
            return Tup([self.val_of_node(Ref(ref.cid, ref.path + (('f', f),)), n) for f, n in nt.fields.items()])
        return ref

    def nt_of_val(self, v):
        """Tree type able to hold v."""
        if isinstance(v, Ref):
            return self.E.nt(v)
        if isinstance(v, Tup):
            return Rec({str(n): self.nt_of_val(x) for n, x in enumerate(v.vs)}, tup=True)
        if isinstance(v, B):
            return Leaf('bool')
        if isinstance(v, I):
            return Leaf('int')
        l = Leaf('V')
        if isinstance(v, T):
            l.opq = v.opq
        return l

    def tree_of_val(self, v, nt):
        """The content of v as a tree of type nt."""
        if isinstance(nt, Leaf):
            if nt.ty == 'bool':
                return {'v': self.truthy(v) if isinstance(v, (B, C)) else V.b(self.term(v))}
            if nt.ty == 'int':
                return {'v': self.to_int(v)}
            return {'v': self.term(v)}
        if isinstance(nt, Rec) and nt.tup and isinstance(v, Tup):
            out = {}
            for (f, n), x in zip(nt.fields.items(), v.vs):
                for c, t in self.tree_of_val(x, n).items():
                    out[f + '.' + c] = t
            return out
        if isinstance(nt, Rec) and self.is_pdict(v):
            fs = self.E.st.heap[v.cid].fields
            out = {}
            for f, n in nt.fields.items():
                if f in fs:
                    sub = self.tree_of_val(fs[f], n)
                    if f in nt.opt:
                        out[f + '?'] = z3.BoolVal(True)
                elif f in nt.opt:
                    sub = empty_tree(n)
                    out[f + '?'] = z3.BoolVal(False)
                else:
                    raise Unsupported('missing field %s' % f)
                for c, t in sub.items():
                    out[f + '.' + c] = t
            if set(fs) - set(nt.fields):
                raise Unsupported('unknown field %s' % (set(fs) - set(nt.fields)))
            return out
        if isinstance(v, Ref):
            vn = self.E.nt(v)
            c, r = self.E.cell(v)
            if c.virgin:
                return empty_tree(nt)
            if repr(vn) != repr(nt):
                raise Unsupported('container of type %r where %r is expected' % (vn, nt))
            return self.E.tree(v)
        raise Unsupported('%r does not fit %r' % (v, nt))

    def moved(self, v, dest):
        """v now lives inside another container: later uses of v go there."""
        if isinstance(v, Ref):
            c, r = self.E.cell(v)
            if not r.path and not c.frozen:
                self.E.st.heap[r.cid] = Cell(c.nt, c.tree, False, False, fwd=dest)

    def adapt(self, ref, v, wrap):
        """Gives the untouched container ref the element type needed by v."""
        c, r = self.E.cell(ref)
        if c.virgin and not r.path:
            nt = self.nt_of_val(v)
            if isinstance(nt, Leaf) and nt.ty == 'V' and not getattr(nt, 'opq', None):
                return
            if isinstance(nt, Leaf) and nt.ty != 'V':
                nt = Leaf('V')
            self.E.retype(ref, wrap(nt))

    def get_item(self, o, k):
        if self.is_plist(o):
            return self.E.st.heap[o.cid].fields[self.plist_key(o, k)]
        if self.is_pdict(o):
            if isinstance(k, C):
                fs = self.E.st.heap[o.cid].fields
                if k.py not in fs:
                    raise PyRaise(BCls('KeyError'), origin=repr(k.py))
                return fs[k.py]
            raise Unsupported('symbolic key of a literal dictionary')
        if isinstance(o, Tup):
            if isinstance(k, C):
                try:
                    return o.vs[k.py]
                except IndexError:
                    raise PyRaise(BCls('IndexError'))
            raise Unsupported('symbolic index of a tuple')
        if isinstance(o, Ref):
            nt, tr = self.E.nt(o), self.E.tree(o)
            if isinstance(nt, Map):
                self.hashable_or_raise(k, nt.key)
                kt = self.key_term(k, nt.key)
                if not self.E.choose(tr['has'][kt]):
                    if getattr(nt, 'dflt', False):
                        c, r = self.E.cell(o)
                        new = dict(tr)
                        new['has'] = z3.Store(tr['has'], kt, z3.BoolVal(True))
                        et = empty_tree(nt.child)
                        for cc, t in et.items():
                            new['*.' + cc] = z3.Store(tr['*.' + cc], kt, t)
                        self.E.put(o, new)
                        return self.at(o, ('k', kt))
                    raise PyRaise(BCls('KeyError'), origin='key of %s' % o.cid)
                return self.at(o, ('k', kt))
            if isinstance(nt, Rec):
                if not isinstance(k, C):
                    raise Unsupported('symbolic field')
                if k.py not in nt.fields:
                    raise PyRaise(BCls('KeyError'), origin=repr(k.py))
                if k.py in nt.opt and not self.E.choose(tr[k.py + '?']):
                    raise PyRaise(BCls('KeyError'), origin=repr(k.py))
                return self.at(o, ('f', k.py))
            if isinstance(nt, Seq):
                i = self.seq_index(tr, k)
                return self.at(o, ('k', i))
        if isinstance(o, T):
            if o.opq is not None and '__getitem__' in o.opq.attrs:
                return o.opq.attrs['__getitem__'](self, o, k)
            if isinstance(k, C) and isinstance(k.py, int) and not isinstance(k.py, bool):
                i = k.py if k.py >= 0 else flen(o.t) + k.py
                if not self.E.choose(z3.And(i >= 0, i < flen(o.t))):
                    raise PyRaise(BCls('IndexError'))
                return T(fat(o.t, i))
            kt = self.key_term(k)
            if not self.E.choose(fhas(o.t, kt)):
                raise PyRaise(BCls('KeyError'), origin='opaque')
            return T(fget(o.t, kt))
        if isinstance(o, Obj):
            cls = self.E.st.heap[o.cid].cls
            m = None if isinstance(cls, str) else self.repo.lookup(cls, '__getitem__')
            if isinstance(m, FuncInfo):
                return self.call_function(Fn(m), [o, k], {})
            h = self.ctx.obj_item(self, o, k)
            if h is not None:
                return h
        raise Unsupported('item of %r' % (o,))

    def seq_index(self, tr, k):
        i = self.to_int(k)
        if isinstance(k, C):
            i = tr['lo'] + i if k.py >= 0 else tr['hi'] + i
        else:
            i = z3.If(i >= 0, tr['lo'] + i, tr['hi'] + i)
        if not self.E.choose(z3.And(tr['lo'] <= i, i < tr['hi'])):
            raise PyRaise(BCls('IndexError'))
        return z3.simplify(i)

    def get_slice(self, o, lo, hi):
        if isinstance(o, C) and isinstance(o.py, str) and all(x is None or isinstance(x, C) for x in (lo, hi)):
            return C(o.py[slice(lo.py if lo else None, hi.py if hi else None)])
        if isinstance(o, Tup) and all(x is None or isinstance(x, C) for x in (lo, hi)):
            return Tup(o.vs[slice(lo.py if lo else None, hi.py if hi else None)])
        if isinstance(o, Ref) and isinstance(self.E.nt(o), Seq):
            tr, nt = self.E.tree(o), self.E.nt(o)
            if lo is None and hi is None:
                return self.E.new_cell(nt, dict(tr), 'seq')
            if hi is None and isinstance(lo, C) and lo.py >= 0:
                # drops the first elements
                n = z3.IntVal(lo.py)
                new = dict(tr)
                new['lo'] = z3.simplify(z3.If(tr['lo'] + n <= tr['hi'], tr['lo'] + n, tr['hi']))
                new['last'] = self.E.fresh(tr['last'].sort(), 'last')
                x = z3.Const('sl_x', V)
                for p in (new['last'][x], tr['last'][x]):
                    self.E.assume(z3.ForAll([x], new['last'][x] == z3.If(tr['last'][x] >= new['lo'], tr['last'][x], -1), patterns=[p]))
                return self.E.new_cell(nt, new, 'seq')
        if isinstance(o, T):
            h = self.ctx.slice(self, o, lo, hi)
            if h is not None:
                return h
        raise Unsupported('slice of %r' % (o,))

    def set_item(self, o, k, v):
        if self.is_plist(o):
            key = self.plist_key(o, k)
            c = self.E.st.heap[o.cid]
            self.E.st.heap[o.cid] = OCell('plist', dict(c.fields, **{key: v}), c.frozen)
            return
        if self.is_pdict(o):
            if isinstance(k, C):
                c = self.E.st.heap[o.cid]
                if c.frozen:
                    self.E.oblige('frame[%s]' % o.cid, z3.BoolVal(False))
                    raise Unsupported('write to a read-only dictionary')
                fs = dict(c.fields)
                fs[k.py] = v
                self.E.st.heap[o.cid] = OCell('dict', fs, c.frozen)
                return
            raise Unsupported('symbolic key of a literal dictionary')
        if isinstance(o, Ref):
            nt = self.E.nt(o)
            if isinstance(nt, Map):
                self.hashable_or_raise(k, nt.key)
                self.adapt(o, v, lambda n: Map(n, nt.key))
                nt, tr = self.E.nt(o), self.E.tree(o)
                kt = self.key_term(k, nt.key)
                sub = self.tree_of_val(v, nt.child)
                new = dict(tr)
                new['has'] = z3.Store(tr['has'], kt, z3.BoolVal(True))
                for c, t in sub.items():
                    new['*.' + c] = z3.Store(tr['*.' + c], kt, t)
                self.E.put(o, new)
                cc, r = self.E.cell(o)
                if not isinstance(nt.child, Leaf):
                    self.moved(v, Ref(r.cid, r.path + (('k', kt),)))
                return
            if isinstance(nt, Rec):
                if not isinstance(k, C) or k.py not in nt.fields:
                    raise Unsupported('field %r' % (k,))
                new = dict(self.E.tree(o))
                for c, t in self.tree_of_val(v, nt.fields[k.py]).items():
                    new[k.py + '.' + c] = t
                if k.py in nt.opt:
                    new[k.py + '?'] = z3.BoolVal(True)
                self.E.put(o, new)
                cc, r = self.E.cell(o)
                if not isinstance(nt.fields[k.py], Leaf):
                    self.moved(v, Ref(r.cid, r.path + (('f', k.py),)))
                return
            if isinstance(nt, Seq) and isinstance(nt.elem, Leaf):
                raise Unsupported('item assignment in a list')
        if isinstance(o, Obj) and not self.is_pdict(o):
            h = self.ctx.obj_setitem(self, o, k, v)
            if h is not None:
                return
        raise Unsupported('item assignment on %r' % (o,))

    def del_item(self, o, k):
        if self.is_pdict(o):
            c = self.E.st.heap[o.cid]
            fs = dict(c.fields)
            if not isinstance(k, C) or k.py not in fs:
                raise PyRaise(BCls('KeyError'))
            del fs[k.py]
            self.E.st.heap[o.cid] = OCell('dict', fs, c.frozen)
            return
        if isinstance(o, Ref) and isinstance(self.E.nt(o), Map):
            nt, tr = self.E.nt(o), self.E.tree(o)
            self.hashable_or_raise(k, nt.key)
            kt = self.key_term(k, nt.key)
            if not self.E.choose(tr['has'][kt]):
                raise PyRaise(BCls('KeyError'), origin='del')
            new = dict(tr)
            new['has'] = z3.Store(tr['has'], kt, z3.BoolVal(False))
            self.E.put(o, new)
            return
        if isinstance(o, Ref) and isinstance(self.E.nt(o), Rec) and isinstance(k, C) and k.py in self.E.nt(o).opt:
            tr = self.E.tree(o)
            if not self.E.choose(tr[k.py + '?']):
                raise PyRaise(BCls('KeyError'))
            new = dict(tr)
            new[k.py + '?'] = z3.BoolVal(False)
            self.E.put(o, new)
            return
        raise Unsupported('del item of %r' % (o,))

    def contains(self, o, x):
        if isinstance(o, C) and isinstance(o.py, str) and isinstance(x, C):
            return z3.BoolVal(x.py in o.py)
        if self.is_pdict(o):
            fs = self.E.st.heap[o.cid].fields
            if isinstance(x, C):
                return z3.BoolVal(x.py in fs)
            return z3.Or([eq(self.term(x), REG.s(f)) for f in fs]) if fs else z3.BoolVal(False)
        if isinstance(o, Tup):
            return z3.Or([self.equal(y, x) for y in o.vs]) if o.vs else z3.BoolVal(False)
        if isinstance(o, Ref):
            nt, tr = self.E.nt(o), self.E.tree(o)
            if isinstance(nt, (Map, Set)):
                self.hashable_or_raise(x, nt.key)
                return tr['has' if isinstance(nt, Map) else 'mem'][self.key_term(x, nt.key)]
            if isinstance(nt, Rec):
                if isinstance(x, C):
                    return tr[x.py + '?'] if x.py in nt.opt else z3.BoolVal(x.py in nt.fields)
                raise Unsupported('symbolic field')
            if isinstance(nt, Seq) and isinstance(nt.elem, Leaf):
                if nt.elem.ty == 'name':
                    l = tr['last'][self.term(x)]
                    return z3.And(tr['lo'] <= l, l < tr['hi'])
                return self.seq_has(tr, self.term(x))
        if isinstance(o, IterV):
            return self.dom_contains(o.dom, x)
        if isinstance(o, T):
            if o.opq is not None and '__contains__' in o.opq.attrs:
                return self.truthy(o.opq.attrs['__contains__'](self, o, x))
            self.hashable_or_raise(x)
            return fhas(o.t, self.key_term(x))
        if isinstance(o, Obj):
            m = self.repo.lookup(self.E.st.heap[o.cid].cls, '__contains__') if isinstance(self.E.st.heap[o.cid].cls, ClassInfo) else None
            if isinstance(m, FuncInfo):
                return self.truthy(self.call_function(Fn(m), [o, x], {}))
            h = self.ctx.obj_contains(self, o, x)
            if h is not None:
                return h
        raise Unsupported('in %r' % (o,))

    def seq_has(self, tr, t):
        """Some element equals t (by ==)."""
        b = self.E.fresh(BOOL, 'isin')
        w = self.E.fresh(INT, 'w')
        i = z3.Const('sh_i', INT)
        el = tr['*.v']
        self.E.assume(z3.Implies(b, z3.And(tr['lo'] <= w, w < tr['hi'], eq(el[w], t))),
                      z3.Implies(z3.Not(b), z3.ForAll([i], z3.Implies(z3.And(tr['lo'] <= i, i < tr['hi']), z3.Not(eq(el[i], t))), patterns=[el[i]])))
        return b

    def dom_contains(self, d, x):
        if d.kind == 'py':
            return z3.Or([self.equal(y, x) for y in d.vals]) if d.vals else z3.BoolVal(False)
        y = z3.Const('dc_y', V if d.kind == 'set' else INT)
        rng = d.has[y] if d.kind == 'set' else z3.And(d.lo <= y, y < d.hi)
        v = d.elem(y)
        hit = z3.And(rng, eq(self.term(v), self.term(x)))
        b, w = self.E.fresh(BOOL, 'isin'), self.E.fresh(y.sort(), 'w')
        pats = [d.has[y]] if d.kind == 'set' else None
        neg = z3.ForAll([y], z3.Not(hit), patterns=pats) if pats else z3.ForAll([y], z3.Not(hit))
        self.E.assume(z3.Implies(b, z3.substitute(hit, (y, w))), z3.Implies(z3.Not(b), neg))
        if d.kind == 'set' and isinstance(v, T) and z3.is_app(v.t) and v.t.decl().name() == 'select':
            # the same fact, found from the values
            self.E.assume(z3.Implies(z3.Not(b), z3.ForAll([y], z3.Not(hit), patterns=[v.t])))
        return b

    def unpack(self, v, n, star):
        if star:
            raise Unsupported('starred unpacking')
        if isinstance(v, Tup):
            if len(v.vs) != n:
                raise PyRaise(BCls('ValueError'), origin='unpack')
            return v.vs
        if isinstance(v, T):
            if v.opq is not None and '__unpack__' in v.opq.attrs:
                return v.opq.attrs['__unpack__'](self, v, n)
            raise Unsupported('unpacking of an opaque value')
        d = self.dom(v)
        if d.kind == 'py' and len(d.vals) == n:
            return d.vals
        raise Unsupported('unpacking of %r' % (v,))

    # ---------------------------------------------------------------- iteration domains
    def dom(self, v):
        if isinstance(v, IterV):
            return v.dom
        if isinstance(v, Tup):
            return Dom('py', vals=list(v.vs))
        if isinstance(v, C) and isinstance(v.py, (str, tuple, list)):
            return Dom('py', vals=[C(x) for x in v.py])
        if self.is_plist(v):
            return Dom('py', vals=list(self.E.st.heap[v.cid].fields.values()))
        if self.is_pdict(v):
            return Dom('py', vals=[C(k) for k in self.E.st.heap[v.cid].fields])
        if isinstance(v, Ref):
            nt, tr = self.E.nt(v), self.E.tree(v)
            c, r = self.E.cell(v)
            if isinstance(nt, Map):
                return Dom('set', elem=lambda x: self.key_val(nt, x), has=tr['has'], src=(r, {'has': tr['has']}), key=nt.key)
            if isinstance(nt, Set):
                return Dom('set', elem=lambda x: self.key_val(nt, x), has=tr['mem'], src=(r, {'mem': tr['mem']}), key=nt.key)
            if isinstance(nt, Seq):
                if c.virgin and not r.path:
                    return Dom('py', vals=[])
                for f in seq_facts(nt, tr):
                    if r.path:
                        self.E.assume(f)
                snap = self.E.new_cell(nt, dict(tr), 'iter', frozen=True)
                return Dom('seq', elem=lambda i: self.at(snap, ('k', i)) , lo=tr['lo'], hi=tr['hi'], last=tr['last'] if nt.keycomp() is not None else None,
                           src=(r, {'lo': tr['lo'], 'hi': tr['hi']}) )
            if isinstance(nt, Rec):
                raise Unsupported('iteration over a record')
        if isinstance(v, T):
            if v.opq is not None and '__iter__' in v.opq.attrs:
                return self.dom(v.opq.attrs['__iter__'](self, v))
            self.E.assume(flen(v.t) >= 0)
            return Dom('seq', elem=lambda i: T(fat(v.t, i)), lo=z3.IntVal(0), hi=flen(v.t), last=None)
        if isinstance(v, Obj):
            h = self.ctx.obj_iter(self, v)
            if h is not None:
                return self.dom(h)
            c = self.E.st.heap[v.cid]
            m = self.repo.lookup(c.cls, '__iter__') if isinstance(c, OCell) and isinstance(c.cls, ClassInfo) else None
            if isinstance(m, FuncInfo):
                return self.dom(self.call_function(Fn(m), [v], {}))
        raise Unsupported('iteration over %r' % (v,))

    def key_val(self, nt, x):
        return T(x, getattr(nt, 'kopq', None))

    def elem_facts(self, dom, x):
        if dom.kind != 'set':
            return
        if dom.key == 'name':
            self.E.assume(V.is_sv(x))
        elif dom.key == 'obj':
            self.E.assume(V.is_rv(x))
        else:
            self.E.assume(canon(x) == x, hashableF(x))

    # ---------------------------------------------------------------- comprehension results
    def build_comp(self, kind, dom, x, P, sel):
        E = self.E
        if not sel:
            return self.new_seq() if kind == 'list' else self.new_set() if kind == 'set' else self.new_map()

        def piece(f):
            """Term of the element as a function of x."""
            ts = [(z3.And(o.dec) if o.dec else z3.BoolVal(True), f(o)) for o in sel]
            t = ts[-1][1]
            for c, u in reversed(ts[:-1]):
                t = z3.If(c, u, t)
            return t
        saved = E.st

        def tm(o, v):
            if isinstance(v, Ref):
                raise Unsupported('container as an element of a comprehension')
            E.st = o.o.st
            try:
                return o.sk(self.term(v))
            finally:
                E.st = saved
        v0 = sel[0].val
        identity = all(isinstance(o.val, T) and o.val.t.eq(x) for o in sel) and dom.kind == 'set'
        rng = dom.has[x] if dom.kind == 'set' else z3.And(dom.lo <= x, x < dom.hi)
        nofilter = P.eq(rng)
        if kind == 'dict':
            kt = piece(lambda o: tm(o, o.val.vs[0]))
            if not kt.eq(x) or dom.kind != 'set':
                # computed keys: each key of the result comes from some item (the last one met, when several give the same key)
                r = E.new_cell(Map(Leaf()), None, 'dc')
                h, val, w = E.fresh(z3.ArraySort(V, BOOL), 'has'), E.fresh(z3.ArraySort(V, V), 'val'), E.fresh(z3.ArraySort(V, x.sort()), 'w')
                vt = piece(lambda o: tm(o, o.val.vs[1]))
                kt = canon(kt)
                y = z3.Const('dc_y', V)
                sub = lambda t: z3.substitute(t, (x, w[y]))
                E.assume(z3.ForAll([x], z3.Implies(P, h[kt])), z3.ForAll([y], z3.Implies(h[y], z3.And(sub(P), sub(kt) == y, val[y] == sub(vt))), patterns=[h[y]]),
                         z3.ForAll([y], z3.Implies(h[y], z3.And(sub(P), sub(kt) == y, val[y] == sub(vt))), patterns=[val[y]]))
                E.put(r, {'has': h, '*.v': val})
                return r
            r = E.new_cell(Map(Leaf()), None, 'dc')
            h, val = E.fresh(z3.ArraySort(V, BOOL), 'has'), E.fresh(z3.ArraySort(V, V), 'val')
            vt = piece(lambda o: tm(o, o.val.vs[1]))
            E.assume(z3.ForAll([x], h[x] == P, patterns=[h[x]]), z3.ForAll([x], z3.Implies(P, val[x] == vt), patterns=[val[x]]))
            E.put(r, {'has': h, '*.v': val})
            return r
        if kind == 'set':
            m = E.fresh(z3.ArraySort(V, BOOL), 'mem')
            if identity:
                E.assume(z3.ForAll([x], m[x] == P, patterns=[m[x]]), z3.ForAll([x], m[x] == P, patterns=[dom.has[x]]))
                return E.new_cell(Set(dom.key), {'mem': m}, 'sc')
            et = canon(piece(lambda o: tm(o, o.val)))
            w = E.fresh(z3.ArraySort(V, x.sort()), 'w')
            y = z3.Const('sc_y', V)
            E.assume(z3.ForAll([x], z3.Implies(P, m[et])), z3.ForAll([y], z3.Implies(m[y], z3.And(z3.substitute(P, (x, w[y])), z3.substitute(et, (x, w[y])) == y)), patterns=[m[y]]))
            return E.new_cell(Set(), {'mem': m}, 'sc')
        # lists
        i = z3.Const('lc_i', INT)
        width = len(v0.vs) if isinstance(v0, Tup) else None
        if any((len(o.val.vs) if isinstance(o.val, Tup) else None) != width for o in sel):
            raise Unsupported('elements of different shapes')
        if width is None:
            opqs = {o.val.opq for o in sel if isinstance(o.val, T)}
            el = Leaf('V')
            if len(opqs) == 1:
                el.opq = opqs.pop()
            if identity and dom.key == 'name':
                el.ty = 'name'
            nt = Seq(el)
            elts = {'*.v': piece(lambda o: tm(o, o.val))}
        else:
            nt = Seq(Rec({str(n): Leaf() for n in range(width)}, tup=True))
            elts = {'*.%d.v' % n: piece(lambda o, n=n: tm(o, o.val.vs[n])) for n in range(width)}
        r = E.new_cell(nt, None, 'lc')
        tree = fresh_tree(nt, r.cid)
        if dom.kind == 'seq' and nofilter:
            off = z3.IntVal(0) if dom.last is not None else dom.lo
            tree['lo'], tree['hi'] = z3.simplify(dom.lo - off), z3.simplify(dom.hi - off)
            E.assume(*seq_facts(nt, tree))
            for c, t in elts.items():
                t = z3.substitute(t, (x, x + off)) if dom.last is None and not z3.is_int_value(dom.lo) else t
                E.assume(z3.ForAll([x], z3.Implies(z3.And(tree['lo'] <= x, x < tree['hi']), tree[c][x] == t), patterns=[tree[c][x]]))
            E.put(r, tree)
            return r
        tree['lo'] = z3.IntVal(0)
        n = tree['hi']
        if identity:
            tree_key = tree['*.v']
            last = tree['last']
            E.assume(n >= 0,
                     z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.substitute(P, (x, tree_key[i])), last[tree_key[i]] == i)), patterns=[tree_key[i]]),
                     z3.ForAll([x], z3.If(P, z3.And(0 <= last[x], last[x] < n, tree_key[last[x]] == x), last[x] == -1), patterns=[last[x]]),
                     z3.ForAll([x], z3.If(P, z3.And(0 <= last[x], last[x] < n, tree_key[last[x]] == x), last[x] == -1), patterns=[dom.has[x]]))
            E.put(r, tree)
            return r
        src = E.fresh(z3.ArraySort(INT, x.sort()), 'src')
        pos = E.fresh(z3.ArraySort(x.sort(), INT), 'pos')
        E.assume(n >= 0, *seq_facts(nt, tree))
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.substitute(P, (x, src[i])), pos[src[i]] == i)), patterns=[src[i]]))
        for c, t in elts.items():
            for pat in (tree[c][i], src[i]):
                E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), tree[c][i] == z3.substitute(t, (x, src[i]))), patterns=[pat]))
        pats = [[pos[x]]] + ([[dom.has[x]]] if dom.kind == 'set' else [])
        if dom.kind == 'seq':
            pats += [[t] for t in elts.values() if t.num_args() and any(c.eq(x) for c in t.children()) and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)]
        for p in pats:
            E.assume(z3.ForAll([x], z3.Implies(P, z3.And(0 <= pos[x], pos[x] < n, src[pos[x]] == x)), patterns=p))
        if dom.kind == 'seq':
            j = z3.Const('lc_j', INT)
            E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), src[i] < src[j]), patterns=[MP(src[i], src[j])]))
        E.put(r, tree)
        r_src = self.ghost_src
        r_src[r.cid] = (src, pos)
        return r

    def plain(self, v):
        st = self.E.st
        return type('P', (), dict(val=v, exc=None, dec=[], facts=[], o=type('O', (), dict(st=st))(), sk=staticmethod(lambda t: t)))()

    ghost_src = {}

    def copy_container(self, v):
        """dict(x), x.copy()"""
        if self.is_pdict(v):
            return self.pdict(self.E.st.heap[v.cid].fields)
        if isinstance(v, Ref):
            c, r = self.E.cell(v)
            if isinstance(self.E.nt(v), Map) and not isinstance(self.E.nt(v).child, Leaf):
                self.shallow_copy_alias(v)
            return self.E.new_cell(self.E.nt(v), dict(self.E.tree(v)), 'copy', virgin=c.virgin and not r.path)
        if isinstance(v, T):
            has, val = self.E.fresh(z3.ArraySort(V, BOOL), 'has'), self.E.fresh(z3.ArraySort(V, V), 'val')
            x = z3.Const('cc_x', V)
            self.E.assume(z3.ForAll([x], has[x] == fhas(v.t, x), patterns=[has[x]]), z3.ForAll([x], val[x] == fget(v.t, x), patterns=[val[x]]))
            return self.E.new_cell(Map(Leaf()), {'has': has, '*.v': val}, 'copy')
        raise Unsupported('copy of %r' % (v,))

    def shallow_copy_alias(self, v):
        """A shallow copy shares its nested containers: only sound when nothing writes through either (checked by freezing)."""
        c, r = self.E.cell(v)
        if not c.frozen:
            raise Unsupported('shallow copy of nested mutable containers')

    # ---------------------------------------------------------------- sequences
    def seq_append(self, ref, v):
        self.adapt(ref, v, lambda n: Seq(n))
        nt, tr = self.E.nt(ref), self.E.tree(ref)
        new = dict(tr)
        sub = self.tree_of_val(v, nt.elem)
        for c, t in sub.items():
            new['*.' + c] = z3.Store(tr['*.' + c], tr['hi'], t)
        kc = nt.keycomp()
        if kc is not None and sub[kc[2:]].sort() == V:
            new['last'] = z3.Store(tr['last'], sub[kc[2:]], tr['hi'])
        new['hi'] = z3.simplify(tr['hi'] + 1)
        self.E.put(ref, new)

    def seq_extend(self, ref, other):
        d = self.dom(other)
        if d.kind == 'py':
            for v in d.vals:
                self.seq_append(ref, v)
            return
        c, r = self.E.cell(ref)
        E = self.E
        x0 = z3.Const('se_p', V if d.kind == 'set' else INT)
        v = d.elem(x0)
        self.adapt(ref, v, lambda n: Seq(n))
        nt, tr = E.nt(ref), E.tree(ref)
        if not isinstance(nt.elem, Leaf):
            raise Unsupported('extend with tuples')
        if d.kind == 'set':
            # enumerated in some order
            lst = self.build_comp('list', d, x0, d.has[x0], [self.plain(v)])
            d = self.dom(lst)
        i = z3.Const('se_i', INT)
        x = z3.Const('se_x', V)
        el = self.term(d.elem(i))
        n = d.hi - d.lo
        new = fresh_tree(nt, E.fresh_name('ext'))
        new['lo'], new['hi'] = tr['lo'], tr['hi'] + n
        arr, old, last = new['*.v'], tr['*.v'], new['last']
        E.assume(z3.ForAll([i], z3.And(z3.Implies(z3.And(tr['lo'] <= i, i < tr['hi']), arr[i] == old[i]),
                                       z3.Implies(z3.And(tr['hi'] <= i, i < tr['hi'] + n), arr[i] == z3.substitute(el, (i, d.lo + i - tr['hi'])))), patterns=[arr[i]]))
        if d.last is not None:
            inb = z3.And(d.lo <= d.last[x], d.last[x] < d.hi)
            E.assume(z3.ForAll([x], last[x] == z3.If(inb, tr['hi'] + d.last[x] - d.lo, z3.If(z3.And(tr['lo'] <= tr['last'][x], tr['last'][x] < tr['hi']), tr['last'][x], -1)), patterns=[last[x]]))
        E.assume(*seq_facts(nt, new))
        E.put(ref, new)

    def seq_find(self, tr, nt, v, exc='ValueError'):
        """Index of the first element equal to v, or the exception."""
        E = self.E
        t = self.term(v)
        el = tr['*.v']
        if nt.elem.ty == 'name':
            l = tr['last'][t]
            present = z3.And(tr['lo'] <= l, l < tr['hi'])
            same = lambda u: u == t
        else:
            present = self.seq_has(tr, t)
            same = lambda u: eq(u, t)
        if not E.choose(present):
            raise PyRaise(BCls(exc), origin='not in list')
        p = E.fresh(INT, 'first')
        i = z3.Const('sf_i', INT)
        E.assume(tr['lo'] <= p, p < tr['hi'], same(el[p]),
                 z3.ForAll([i], z3.Implies(z3.And(tr['lo'] <= i, i < p), z3.Not(same(el[i]))), patterns=[el[i]]))
        return p

    def seq_remove_at(self, ref, p):
        E = self.E
        nt, tr = E.nt(ref), E.tree(ref)
        new = fresh_tree(nt, E.fresh_name('rm'))
        i, x = z3.Const('sr_i', INT), z3.Const('sr_x', V)
        new['lo'], new['hi'] = tr['lo'], tr['hi'] - 1
        for c in tr:
            if c.startswith('*.'):
                E.assume(z3.ForAll([i], new[c][i] == z3.If(i < p, tr[c][i], tr[c][i + 1]), patterns=[new[c][i]]))
                E.assume(z3.ForAll([i], z3.And(z3.Implies(i < p, new[c][i] == tr[c][i]), z3.Implies(i > p, new[c][i - 1] == tr[c][i])), patterns=[tr[c][i]]))
        l = tr['last']
        E.assume(z3.ForAll([x], z3.Implies(l[x] != p, new['last'][x] == z3.If(l[x] > p, l[x] - 1, l[x])), patterns=[new['last'][x]]),
                 z3.ForAll([x], z3.Implies(l[x] != p, new['last'][x] == z3.If(l[x] > p, l[x] - 1, l[x])), patterns=[l[x]]))
        # the removed position: either it was the only one, or another occurrence remains (below p)
        xr = tr[nt.keycomp()][p]
        nl = new['last'][xr]
        E.assume(z3.Implies(l[xr] == p, z3.Or(nl == -1, z3.And(tr['lo'] <= nl, nl < p, new[nt.keycomp()][nl] == xr))))
        E.assume(z3.Implies(nl == -1, z3.ForAll([i], z3.Implies(z3.And(tr['lo'] <= i, i < new['hi']), new[nt.keycomp()][i] != xr), patterns=[new[nt.keycomp()][i]])))
        E.assume(*seq_facts(nt, new))
        E.put(ref, new)

    def seq_insert_at(self, ref, p, v):
        """p: absolute position, already clamped."""
        E = self.E
        self.adapt(ref, v, lambda n: Seq(n))
        nt, tr = E.nt(ref), E.tree(ref)
        new = fresh_tree(nt, E.fresh_name('ins'))
        i, x = z3.Const('si_i', INT), z3.Const('si_x', V)
        new['lo'], new['hi'] = tr['lo'], tr['hi'] + 1
        sub = self.tree_of_val(v, nt.elem)
        for c in tr:
            if c.startswith('*.'):
                E.assume(z3.ForAll([i], new[c][i] == z3.If(i < p, tr[c][i], z3.If(i == p, sub[c[2:]], tr[c][i - 1])), patterns=[new[c][i]]))
                E.assume(z3.ForAll([i], z3.And(z3.Implies(i < p, new[c][i] == tr[c][i]), z3.Implies(i >= p, new[c][i + 1] == tr[c][i])), patterns=[tr[c][i]]))
        l, nl = tr['last'], new['last']
        t = sub[nt.keycomp()[2:]]
        sh = lambda y: z3.If(l[y] >= p, l[y] + 1, l[y])
        inb = z3.And(tr['lo'] <= l[t], l[t] < tr['hi'])
        E.assume(z3.ForAll([x], z3.Implies(x != t, nl[x] == sh(x)), patterns=[nl[x]]), z3.ForAll([x], z3.Implies(x != t, nl[x] == sh(x)), patterns=[l[x]]),
                 nl[t] == z3.If(z3.And(inb, sh(t) > p), sh(t), p))
        E.assume(*seq_facts(nt, new))
        E.put(ref, new)

    # ================================================================ methods
    def container_method(self, ref, name):
        nt = self.E.nt(ref)
        kind = 'map' if isinstance(nt, Map) else 'set' if isinstance(nt, Set) else 'seq' if isinstance(nt, Seq) else 'rec'
        m = getattr(self, 'm_%s_%s' % (kind, name), None)
        if m is None:
            raise Unsupported('method %s of a %s' % (name, kind))
        return Stub(name, lambda ip, args, kw: m(ref, *args, **kw))

    # -- maps
    def m_map_keys(self, r):
        return IterV(self.dom(r))

    def m_map_values(self, r):
        nt, tr = self.E.nt(r), self.E.tree(r)
        c, rr = self.E.cell(r)
        snap = rr
        return IterV(Dom('set', elem=lambda x: self.at(snap, ('k', x)), has=tr['has'], src=(rr, {'has': tr['has']}), key=nt.key, value='v'))

    def m_map_items(self, r):
        nt, tr = self.E.nt(r), self.E.tree(r)
        c, rr = self.E.cell(r)
        return IterV(Dom('set', elem=lambda x: Tup([self.key_val(nt, x), self.at(rr, ('k', x))]), has=tr['has'], src=(rr, {'has': tr['has']}), key=nt.key, value='kv'))

    def m_map_get(self, r, k, d=C(None)):
        nt, tr = self.E.nt(r), self.E.tree(r)
        self.hashable_or_raise(k, nt.key)
        kt = self.key_term(k, nt.key)
        if isinstance(nt.child, Leaf) and isinstance(d, (C, T, ClsV, BCls)) and nt.child.sort == V:
            if getattr(nt.child, 'opq', None) is None:
                return T(z3.If(tr['has'][kt], tr['*.v'][kt], self.term(d)), None)
        if self.E.choose(tr['has'][kt]):
            return self.at(r, ('k', kt))
        return d

    def m_map_setdefault(self, r, k, d=C(None)):
        nt, tr = self.E.nt(r), self.E.tree(r)
        kt = self.key_term(k, nt.key)
        if not self.E.choose(tr['has'][kt]):
            self.set_item(r, k, d)
        return self.at(r, ('k', kt))

    def m_map_pop(self, r, k, *d):
        nt, tr = self.E.nt(r), self.E.tree(r)
        self.hashable_or_raise(k, nt.key)
        kt = self.key_term(k, nt.key)
        if d and isinstance(nt.child, Leaf) and nt.child.ty == 'V' and getattr(nt.child, 'opq', None) is None and isinstance(d[0], (C, T, B, I)) and (isinstance(d[0], C) or getattr(d[0], 'opq', None) is None):
            v = self.at(r, ('k', kt))
            if type(v) is T:
                # either way, without splitting the path
                out = T(z3.If(tr['has'][kt], v.t, self.term(d[0])))
                self.E.put(r, dict(tr, has=z3.Store(tr['has'], kt, z3.BoolVal(False))))
                return out
        if self.E.choose(tr['has'][kt]):
            v = self.at(r, ('k', kt))
            if isinstance(v, Ref):
                v = self.E.new_cell(self.E.nt(v), dict(self.E.tree(v)), 'popped')
            self.del_item(r, k)
            return v
        if d:
            return d[0]
        raise PyRaise(BCls('KeyError'), origin='pop')

    def m_map_copy(self, r):
        return self.copy_container(r)

    def m_map_clear(self, r):
        self.E.put(r, empty_tree(self.E.nt(r)))
        return C(None)

    def m_map_update(self, r, *others, **kw):
        for o in others:
            if self.is_pdict(o):
                for k, v in self.E.st.heap[o.cid].fields.items():
                    self.set_item(r, C(k), v)
                continue
            if isinstance(o, Ref):
                c2, r2 = self.E.cell(o)
                if c2.virgin and not r2.path:
                    continue
                c, rr = self.E.cell(r)
                nt2 = self.E.nt(o)
                if c.virgin and not rr.path and repr(c.nt) != repr(nt2):
                    self.E.retype(r, nt2)
                nt, tr, tr2 = self.E.nt(r), self.E.tree(r), self.E.tree(o)
                if repr(nt) != repr(nt2) or not isinstance(nt.child, Leaf):
                    raise Unsupported('update of nested containers')
                has2, val2 = tr2['has'], tr2['*.v']
            elif isinstance(o, T):
                cc = self.copy_container(o)
                tr, tr2 = self.E.tree(r), self.E.tree(cc)
                has2, val2 = tr2['has'], tr2['*.v']
            else:
                raise Unsupported('update with %r' % (o,))
            h, v = self.E.fresh(z3.ArraySort(V, BOOL), 'has'), self.E.fresh(tr['*.v'].sort(), 'val')
            x = z3.Const('up_x', V)
            for p in ([h[x]], [tr['has'][x]] if not z3.is_K(tr['has']) else [h[x]], [has2[x]]):
                self.E.assume(z3.ForAll([x], h[x] == z3.Or(tr['has'][x], has2[x]), patterns=p))
            self.E.assume(z3.ForAll([x], v[x] == z3.If(has2[x], val2[x], tr['*.v'][x]), patterns=[v[x]]))
            self.E.put(r, {'has': h, '*.v': v})
        for k, v in kw.items():
            if k == '**':
                self.m_map_update(r, v)
            else:
                self.set_item(r, C(k), v)
        return C(None)

    # -- records
    def m_rec_get(self, r, k, d=C(None)):
        nt, tr = self.E.nt(r), self.E.tree(r)
        if not isinstance(k, C):
            raise Unsupported('symbolic field')
        if k.py not in nt.fields:
            return d
        if k.py in nt.opt:
            n = nt.fields[k.py]
            if isinstance(n, Leaf) and n.sort == V and isinstance(d, (C, T, ClsV, BCls)) and getattr(n, 'opq', None) is None:
                return T(z3.If(tr[k.py + '?'], tr[k.py + '.v'], self.term(d)))
            if isinstance(n, Leaf) and n.ty == 'bool' and isinstance(d, C) and isinstance(d.py, bool):
                return self.mkbool(z3.If(tr[k.py + '?'], tr[k.py + '.v'], z3.BoolVal(d.py)))
            if not self.E.choose(tr[k.py + '?']):
                return d
        return self.at(r, ('f', k.py))

    def m_rec_setdefault(self, r, k, d=C(None)):
        nt, tr = self.E.nt(r), self.E.tree(r)
        if k.py in nt.opt and not self.E.choose(tr[k.py + '?']):
            self.set_item(r, k, d)
        return self.at(r, ('f', k.py))

    def m_rec_keys(self, r):
        raise Unsupported('keys of a record')

    # -- sets
    def set_add(self, r, v):
        self.hashable_or_raise(v, self.E.nt(r).key)
        tr = self.E.tree(r)
        self.E.put(r, {'mem': z3.Store(tr['mem'], self.key_term(v, self.E.nt(r).key), z3.BoolVal(True))})

    def m_set_add(self, r, v):
        self.set_add(r, v)
        return C(None)

    def m_set_discard(self, r, v):
        self.hashable_or_raise(v, self.E.nt(r).key)
        tr = self.E.tree(r)
        self.E.put(r, {'mem': z3.Store(tr['mem'], self.key_term(v, self.E.nt(r).key), z3.BoolVal(False))})
        return C(None)

    def m_set_remove(self, r, v):
        if not self.E.choose(self.contains(r, v)):
            raise PyRaise(BCls('KeyError'), origin='set.remove')
        return self.m_set_discard(r, v)

    def m_set_update(self, r, *others):
        for o in others:
            tr = self.E.tree(r)
            self.E.put(r, {'mem': self.named_set('BitOr', tr['mem'], self.mem_of(o))})
        return C(None)

    def m_set_copy(self, r):
        return self.E.new_cell(self.E.nt(r), dict(self.E.tree(r)), 'copy')

    def m_set_clear(self, r):
        self.E.put(r, empty_tree(self.E.nt(r)))
        return C(None)

    def m_set_union(self, r, o):
        return self.set_op('BitOr', r, o)

    def m_set_intersection(self, r, o):
        return self.set_op('BitAnd', r, o)

    def m_set_difference(self, r, o):
        return self.set_op('Sub', r, o)

    def m_set_pop(self, r):
        tr = self.E.tree(r)
        if not self.E.choose(self.nonempty(tr['mem'])):
            raise PyRaise(BCls('KeyError'), origin='pop from an empty set')
        x = self.E.fresh(V, 'popped')
        self.E.assume(tr['mem'][x])
        self.E.put(r, {'mem': z3.Store(tr['mem'], x, z3.BoolVal(False))})
        return self.key_val(self.E.nt(r), x)

    def m_set_issubset(self, r, o):
        return B(z3.IsSubset(self.E.tree(r)['mem'], self.mem_of(o)))

    # -- sequences
    def m_seq_append(self, r, v):
        self.seq_append(r, v)
        return C(None)

    def m_seq_extend(self, r, o):
        self.seq_extend(r, o)
        return C(None)

    def m_seq_reverse(self, r):
        self.E.put(r, dict(self.E.tree(self.reversed_seq(r))))
        return C(None)

    def m_seq_popleft(self, r):
        nt, tr = self.E.nt(r), self.E.tree(r)
        if not self.E.choose(tr['lo'] < tr['hi']):
            raise PyRaise(BCls('IndexError'), origin='popleft')
        v = self.at(r, ('k', tr['lo']))
        if isinstance(v, Ref):
            raise Unsupported('popleft of a container')
        new = dict(tr)
        k0 = z3.Select(tr[nt.keycomp()], tr['lo'])
        if k0.sort() == V:
            new['last'] = z3.Store(tr['last'], k0, z3.If(tr['last'][k0] == tr['lo'], z3.IntVal(-1), tr['last'][k0]))
        new['lo'] = z3.simplify(tr['lo'] + 1)
        self.E.put(r, new)
        return v

    def m_seq_pop(self, r, k=None):
        nt, tr = self.E.nt(r), self.E.tree(r)
        if k is not None and isinstance(k, C) and k.py == 0:
            return self.m_seq_popleft(r)
        if k is not None:
            i = self.seq_index(tr, k)
        else:
            if not self.E.choose(tr['lo'] < tr['hi']):
                raise PyRaise(BCls('IndexError'), origin='pop')
            i = tr['hi'] - 1
        v = self.at(r, ('k', i))
        self.seq_remove_at(r, i)
        return v

    def m_seq_remove(self, r, v):
        nt, tr = self.E.nt(r), self.E.tree(r)
        self.seq_remove_at(r, self.seq_find(tr, nt, v))
        return C(None)

    def m_seq_index(self, r, v):
        nt, tr = self.E.nt(r), self.E.tree(r)
        p = self.seq_find(tr, nt, v)
        return self.mkint(p - tr['lo'])

    def m_seq_insert(self, r, k, v):
        tr = self.E.tree(r)
        i = self.to_int(k)
        n = tr['hi'] - tr['lo']
        i = z3.If(i < 0, z3.If(n + i < 0, z3.IntVal(0), n + i), z3.If(i > n, n, i))
        self.seq_insert_at(r, z3.simplify(tr['lo'] + i), v)
        return C(None)

    def m_seq_copy(self, r):
        return self.E.new_cell(self.E.nt(r), dict(self.E.tree(r)), 'copy')

    def m_seq_clear(self, r):
        self.E.put(r, empty_tree(self.E.nt(r)))
        return C(None)

    def m_seq_sort(self, r, key=None, reverse=C(False)):
        s = self.sorted_seq(r, key, reverse)
        self.E.put(r, self.E.tree(s))
        return C(None)

    def m_seq_reverse(self, r):
        self.E.put(r, self.E.tree(self.reversed_seq(r)))
        return C(None)

    def reversed_seq(self, r):
        E = self.E
        nt, tr = E.nt(r), E.tree(r)
        new = fresh_tree(nt, E.fresh_name('rev'))
        i, x = z3.Const('rv_i', INT), z3.Const('rv_x', V)
        new['lo'], new['hi'] = tr['lo'], tr['hi']
        for c in tr:
            if c.startswith('*.'):
                E.assume(z3.ForAll([i], new[c][i] == tr[c][tr['lo'] + tr['hi'] - 1 - i], patterns=[new[c][i]]))
        inb = z3.And(tr['lo'] <= tr['last'][x], tr['last'][x] < tr['hi'])
        ninb = z3.And(new['lo'] <= new['last'][x], new['last'][x] < new['hi'])
        E.assume(z3.ForAll([x], inb == ninb, patterns=[new['last'][x]]), z3.ForAll([x], inb == ninb, patterns=[tr['last'][x]]))
        E.assume(*seq_facts(nt, new))
        return E.new_cell(nt, new, 'rev')

    def sorted_seq(self, v, key, reverse):
        """A permutation of the elements, ordered by the key."""
        E = self.E
        d = self.dom(v)
        if d.kind == 'py':
            if all(isinstance(x, C) for x in d.vals) and key is None:
                vals = sorted([x.py for x in d.vals])
                if isinstance(reverse, C) and reverse.py:
                    vals.reverse()
                r = self.new_seq()
                for x in vals:
                    self.seq_append(r, C(x))
                return r
            r = self.new_seq()
            if not d.vals:
                return r
            for x in d.vals:
                self.seq_append(r, x)
            v = r
            d = self.dom(v)
        if d.kind == 'set':
            x = z3.Const(E.fresh_name('so'), V)
            v = self.build_comp('list', d, x, d.has[x], [self.plain(d.elem(x))])
            d = self.dom(v)
        if not isinstance(v, Ref):
            v = self.build_comp('list', d, z3.Const(E.fresh_name('so'), INT), None, None) if False else v
            raise Unsupported('sort of %r' % (v,))
        nt, tr = E.nt(v), E.tree(v)
        new = fresh_tree(nt, E.fresh_name('sorted'))
        new['lo'], new['hi'] = tr['lo'], tr['hi']
        perm, pinv = E.fresh(z3.ArraySort(INT, INT), 'perm'), E.fresh(z3.ArraySort(INT, INT), 'pinv')
        i, j, x = z3.Const('st_i', INT), z3.Const('st_j', INT), z3.Const('st_x', V)
        rng = lambda k: z3.And(tr['lo'] <= k, k < tr['hi'])
        E.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(perm[i]), pinv[perm[i]] == i)), patterns=[perm[i]]),
                 z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(pinv[i]), perm[pinv[i]] == i)), patterns=[pinv[i]]))
        for c in tr:
            if c.startswith('*.'):
                E.assume(z3.ForAll([i], z3.Implies(rng(i), new[c][i] == tr[c][perm[i]]), patterns=[new[c][i]]))
                E.assume(z3.ForAll([i], z3.Implies(rng(i), tr[c][i] == new[c][pinv[i]]), patterns=[tr[c][i]]))
        inb = rng(tr['last'][x])
        ninb = rng(new['last'][x])
        E.assume(z3.ForAll([x], inb == ninb, patterns=[new['last'][x]]), z3.ForAll([x], inb == ninb, patterns=[tr['last'][x]]))
        E.assume(*seq_facts(nt, new))
        r = E.new_cell(nt, new, 'sorted')
        # the order (assumption: sort orders by < on the keys)
        if not (isinstance(reverse, C)):
            raise Unsupported('symbolic sort order')
        rev = bool(reverse.py)

        def keyof(k):
            el = self.at(r, ('k', k))
            if key is None:
                return el
            return self.call(key, [el], {})
        a, b = z3.Const(E.fresh_name('ka'), INT), z3.Const(E.fresh_name('kb'), INT)
        rab = z3.And(rng(a), rng(b), a < b)
        fr = type('F', (), {'env': {}})()
        try:
            first, second = (a, b) if rev else (b, a)
            # no pair is in the wrong order: not key(second) < key(first) (reverse: not key(first) < key(second))
            outs = self.pure(lambda: B(self.sort_lt(keyof(first), keyof(second))), fr, [rab], 'sortkey', [a, b])
            if any(o.exc is not None for o in outs):
                E.exact = False
                outs = []
            self.pure_facts(outs, [a, b], rab)
            for o in outs:
                E.assume(z3.ForAll([a, b], z3.Implies(z3.And([rab] + o.dec), z3.Not(o.sk(o.val.b)))))
        except Unsupported:
            E.exact = False
        self.ghost_perm[r.cid] = (perm, pinv)
        return r

    ghost_perm = {}

    def sort_lt(self, ka, kb):
        ka = ka if isinstance(ka, Tup) else Tup([ka])
        kb = kb if isinstance(kb, Tup) else Tup([kb])

        def lt(xs, ys):
            if not xs:
                return z3.BoolVal(False)
            x, y = xs[0], ys[0]
            if isinstance(x, (I, C)) and isinstance(y, (I, C)):
                a, b = self.to_int(x), self.to_int(y)
                return z3.Or(a < b, z3.And(a == b, lt(xs[1:], ys[1:])))
            if isinstance(x, B) and isinstance(y, B):
                return z3.Or(z3.And(z3.Not(x.b), y.b), z3.And(x.b == y.b, lt(xs[1:], ys[1:])))
            a, b = self.term(x), self.term(y)
            return z3.Or(ltF(a, b), z3.And(eq(a, b), lt(xs[1:], ys[1:])))
        return lt(ka.vs, kb.vs)

    # -- literal dictionaries
    def pd_method(self, o, name):
        E = self.E

        def fields():
            return E.st.heap[o.cid].fields

        def put(fs):
            c = E.st.heap[o.cid]
            if c.frozen:
                E.oblige('frame[%s]' % o.cid, z3.BoolVal(False))
                raise Unsupported('write to a read-only dictionary')
            E.st.heap[o.cid] = OCell('dict', fs, False)

        def get(ip, args, kw):
            k = args[0]
            d = args[1] if len(args) > 1 else C(None)
            if not isinstance(k, C):
                raise Unsupported('symbolic key')
            return fields().get(k.py, d)

        def pop(ip, args, kw):
            fs = dict(fields())
            if not isinstance(args[0], C):
                raise Unsupported('symbolic key')
            if args[0].py in fs:
                v = fs.pop(args[0].py)
                put(fs)
                return v
            if len(args) > 1:
                return args[1]
            raise PyRaise(BCls('KeyError'))

        def setdefault(ip, args, kw):
            fs = dict(fields())
            if args[0].py not in fs:
                fs[args[0].py] = args[1] if len(args) > 1 else C(None)
                put(fs)
            return fs[args[0].py]

        def update(ip, args, kw):
            for a in list(args) + ([kw.pop('**')] if '**' in kw else []):
                if ip.is_pdict(a):
                    fs = dict(fields())
                    fs.update(E.st.heap[a.cid].fields)
                    put(fs)
                elif isinstance(a, Ref) and E.cell(a)[0].virgin:
                    continue
                else:
                    raise Unsupported('update of a literal dictionary')
            if kw:
                fs = dict(fields())
                fs.update(kw)
                put(fs)
            return C(None)
        table = dict(get=get, pop=pop, setdefault=setdefault, update=update,
                     keys=lambda ip, a, k: Tup([C(x) for x in fields()]), values=lambda ip, a, k: Tup(list(fields().values())),
                     items=lambda ip, a, k: Tup([Tup([C(x), v]) for x, v in fields().items()]), copy=lambda ip, a, k: ip.pdict(fields()))
        if name not in table:
            raise Unsupported('method %s of a literal dictionary' % name)
        return Stub(name, table[name])

    # -- strings
    def str_method(self, v, name):
        def run(ip, args, kw):
            if isinstance(v, C) and all(isinstance(a, C) for a in args) and all(isinstance(a, C) for a in kw.values()):
                if hasattr(v.py, name):
                    r = getattr(v.py, name)(*[a.py for a in args], **{k: a.py for k, a in kw.items()})
                    return ip.from_py(r)
                raise PyRaise(BCls('AttributeError'))
            t = ip.term(v)
            if name == 'format' and not kw and isinstance(v, C) and args and all(isinstance(a, I) for a in args):
                r = UF('str_format', *([V] * (2 + len(args))))(t, *[ip.term(a) for a in args])
                ip.E.assume(V.is_sv(r))
                return T(r)
            if name in ('format', 'join'):
                return ip.opaque_str(name)
            ts = [ip.term(a) for a in args]
            if name in STR_BOOL:
                return B(UF('str_' + name, *([V] * (1 + len(ts)) + [BOOL]))(t, *ts))
            if name in STR_STR:
                r = UF('str_' + name, *([V] * (2 + len(ts))))(t, *ts)
                ip.E.assume(V.is_sv(r))
                if name in ('upper', 'lower') and not ts:
                    f = UF('str_' + name, V, V)
                    ip.E.assume(f(r) == r, f(REG.s('')) == REG.s(''))
                return T(r)
            if name == 'partition':
                rs = [UF('str_partition%d' % k, V, V, V)(t, *ts) for k in range(3)]
                ip.E.assume(*[V.is_sv(r) for r in rs])
                return Tup([T(r) for r in rs])
            if name in ('split', 'rsplit', 'splitlines'):
                r = UF('str_' + name, *([V] * (2 + len(ts))))(t, *ts)
                ip.E.assume(V.is_rv(r), flen(r) >= 1)
                return T(r)
            raise Unsupported('string method %s' % name)
        return Stub(name, run)

    def from_py(self, r):
        if isinstance(r, tuple):
            return Tup([self.from_py(x) for x in r])
        if isinstance(r, list):
            s = self.new_seq()
            for x in r:
                self.seq_append(s, self.from_py(x))
            return s
        return C(r)

    def opaque_str(self, hint='str'):
        t = self.E.fresh(V, hint)
        self.E.assume(V.is_sv(t))
        return T(t)

    # ================================================================ attributes
    def class_of(self, v):
        if isinstance(v, Obj):
            return self.E.st.heap[v.cid].cls
        if isinstance(v, ClsV):
            return v.info
        raise Unsupported('class of %r' % (v,))

    def get_attr(self, v, name):
        if isinstance(v, Null):
            return v
        if isinstance(v, Ref):
            return self.container_method(v, name)
        if self.is_pdict(v):
            return self.pd_method(v, name)
        if isinstance(v, Obj):
            o = self.E.st.heap[v.cid]
            h = self.ctx.obj_attr(self, v, name)
            if h is not None:
                return h
            if name in o.fields:
                return o.fields[name]
            if o.cls == 'plist':
                if name == 'append':
                    def append(ip, args, kw):
                        c = ip.E.st.heap[v.cid]
                        ip.E.st.heap[v.cid] = OCell('plist', dict(c.fields, **{str(len(c.fields)): args[0]}), c.frozen)
                        return C(None)
                    return Stub('append', append)
                raise Unsupported('list.%s of a literal list' % name)
            if name == '__class__':
                return ClsV(o.cls) if isinstance(o.cls, ClassInfo) else BCls(o.cls)
            if isinstance(o.cls, ClassInfo):
                m = self.repo.lookup(o.cls, name)
                if m is not None:
                    return self.member(m, v)
            raise PyRaise(BCls('AttributeError'), origin=name)
        if isinstance(v, ClsV):
            h = self.ctx.cls_attr(self, v, name)
            if h is not None:
                return h
            if name in ('__name__', '__qualname__'):
                return C(v.info.name)
            if name == '__module__':
                return C('footprints.' + v.info.module.name)
            m = self.repo.lookup(v.info, name)
            if m is not None:
                return self.member(m, v)
            raise PyRaise(BCls('AttributeError'), origin=name)
        if isinstance(v, BCls):
            if name == '__name__':
                return C(v.name)
            if v.name == 'object' and name == '__repr__':
                return Stub('repr', lambda ip, a, k: ip.opaque_str('repr'))
            if v.name == 'dict' and name == 'fromkeys':
                raise Unsupported('dict.fromkeys')
            h = self.ctx.bcls_attr(self, v, name)
            if h is not None:
                return h
            raise Unsupported('attribute %s of the class %s' % (name, v.name))
        if isinstance(v, Mod):
            return self.mod_attr(v, name)
        if isinstance(v, C):
            if isinstance(v.py, str):
                if not hasattr(v.py, name):
                    raise PyRaise(BCls('AttributeError'), origin=name)
                return self.str_method(v, name)
            if not hasattr(v.py, name):
                raise PyRaise(BCls('AttributeError'), origin=name)
            raise Unsupported('attribute %s of a constant' % name)
        if isinstance(v, T):
            if v.opq is not None:
                if name in v.opq.attrs:
                    return v.opq.attrs[name](self, v)
                raise PyRaise(BCls('AttributeError'), origin='%s of a %s' % (name, v.opq.name)) if not self.ctx.open_opq(v.opq, name) else Unsupported(name)
            h = self.ctx.opaque_attr(self, v, name)
            if h is not None:
                return h
            if name in STR_BOOL | STR_STR | {'partition', 'split', 'rsplit'}:
                if not self.E.choose(is_str(v.t)):
                    if not self.E.choose(hasattrF(v.t, REG.s(name))):
                        raise PyRaise(BCls('AttributeError'), origin=name)
                    return T(getattrF(v.t, REG.s(name)))
                return self.str_method(v, name)
            self.builtin_attrs(v.t, name)
            if not self.E.choose(hasattrF(v.t, REG.s(name))):
                raise PyRaise(BCls('AttributeError'), origin=name)
            return T(getattrF(v.t, REG.s(name)))
        if isinstance(v, (Fn, Stub, Bound)):
            raise Unsupported('attribute %s of a function' % name)
        if isinstance(v, Tup):
            if name in ('index', 'count'):
                raise Unsupported('tuple.%s' % name)
            raise PyRaise(BCls('AttributeError'), origin=name)
        if isinstance(v, (B, I)):
            raise PyRaise(BCls('AttributeError'), origin=name)
        if isinstance(v, IterV):
            raise Unsupported('attribute %s of a view' % name)
        raise Unsupported('attribute %s of %r' % (name, v))

    def builtin_attrs(self, t, name):
        """The attributes of None, booleans, integers and strings are known."""
        f = hasattrF(t, REG.s(name))
        for rec, py in ((V.is_none, None), (V.is_bv, True), (V.is_iv, 1), (V.is_sv, '')):
            self.E.assume(z3.Implies(rec(t), f == z3.BoolVal(hasattr(py, name))))

    def member(self, m, v):
        if isinstance(m, FuncInfo):
            if 'property' in m.decos:
                if isinstance(v, ClsV):
                    raise Unsupported('property of a class')
                return self.call_function(Fn(m), [v], {})
            if 'classmethod' in m.decos:
                c = v if isinstance(v, ClsV) else ClsV(self.E.st.heap[v.cid].cls)
                return Bound(c, Fn(m))
            if 'staticmethod' in m.decos:
                return Fn(m)
            if isinstance(v, ClsV):
                return Fn(m)
            return Bound(v, Fn(m))
        cls, expr = m
        if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id == 'property' and isinstance(v, Obj):
            getter = self.repo.lookup(cls, expr.args[0].id)
            return self.call_function(Fn(getter), [v], {})
        import interp
        return self.eval(expr, interp.Frame(None, cls.module, {}))

    def mod_attr(self, m, name):
        h = self.ctx.mod_attr(self, m.name, name)
        if h is not None:
            return h
        if m.name.startswith('footprints.'):
            sub = m.name.split('.', 1)[1]
            if sub in self.repo.modules:
                return self.global_name(name, self.repo.modules[sub])
        if m.name == 'collections':
            if name in ('deque', 'defaultdict', 'OrderedDict', 'namedtuple'):
                return BCls(name)
        if m.name == 'weakref':
            if name in ('ProxyTypes', 'WeakSet'):
                return BCls(name)
            if name == 'proxy':
                return Stub('proxy', self.weak_proxy)
        if m.name == 'copy':
            if name == 'deepcopy':
                return Stub('deepcopy', lambda ip, a, k: T(ip.deepcopy_term(ip.term(a[0]))))
        if m.name == 'logging':
            return C({'INFO': 20, 'WARNING': 30, 'DEBUG': 10, 'ERROR': 40, 'CRITICAL': 50}[name])
        if m.name == 'types':
            return BCls(name)
        if m.name.startswith('bronx') and m.name.split('.')[-1] in ('loggers', 'dump'):
            return Null(m.name)
        raise Unsupported('%s.%s' % (m.name, name))

    def deepcopy_term(self, t):
        """A deep copy: an equal object (assumption on deepcopy of attribute values)."""
        r = UF('deepcopy', V, V)(t)
        self.E.assume(canon(r) == canon(t), z3.Implies(z3.Not(V.is_rv(t)), r == t))
        return r

    def weak_proxy(self, ip, args, kw):
        t = self.term(args[0])
        if not self.E.choose(UF('weakrefable', V, BOOL)(t)):
            raise PyRaise(BCls('TypeError'), origin='weakref.proxy')
        r = UF('weakproxy', V, V)(t)
        self.E.assume(V.is_rv(r), instU(r, REG.o('class:ProxyTypes')), canon(r) == canon(t), UF('proxied', V, V)(r) == t, r != UNK)
        return T(r)

    def set_attr(self, o, name, v):
        if isinstance(o, Obj):
            c = self.E.st.heap[o.cid]
            if c.frozen:
                self.E.oblige('frame[%s.%s]' % (o.cid, name), z3.BoolVal(False))
                raise Unsupported('write to a read-only object')
            h = self.ctx.obj_setattr(self, o, name, v)
            if h is not None:
                return
            if isinstance(c.cls, ClassInfo):
                m = self.repo.lookup(c.cls, name + '.setter')
                if isinstance(m, FuncInfo):
                    self.call_function(Fn(m), [o, v], {})
                    return
                m = self.repo.lookup(c.cls, name)
                if isinstance(m, tuple) and isinstance(m[1], ast.Call) and isinstance(m[1].func, ast.Name) and m[1].func.id == 'property':
                    setter = self.repo.lookup(m[0], m[1].args[1].id)
                    self.call_function(Fn(setter), [o, v], {})
                    return
                if isinstance(m, FuncInfo) and 'property' in m.decos:
                    raise PyRaise(BCls('AttributeError'), origin='property without setter')
            fs = dict(c.fields)
            fs[name] = v
            self.E.st.heap[o.cid] = OCell(c.cls, fs, c.frozen)
            return
        if isinstance(o, Null):
            return
        if isinstance(o, T) and o.opq is not None and '__setattr_dyn__' in o.opq.attrs:
            o.opq.attrs['__setattr_dyn__'](self, o, C(name), v)
            return
        raise Unsupported('attribute assignment on %r' % (o,))

    # ================================================================ calls
    def instantiate(self, c, args, kw):
        h = self.ctx.construct(self, c.info, args, kw)
        if h is not None:
            return h
        names = [x.full if isinstance(x, ClassInfo) else x for x in self.repo.mro(c.info)]
        if any(n in ('Exception', 'ValueError', 'TypeError', 'AttributeError', 'KeyError') for n in names):
            return ExcV(c, args)
        init = self.repo.lookup(c.info, '__init__')
        if any(isinstance(x, ClassInfo) is False and x not in ('object', 'Exception') for x in self.repo.mro(c.info)):
            raise Unsupported('construction of %s (foreign base class)' % c.info.full)
        o = self.E.new_obj(c.info, {}, c.info.name)
        if isinstance(init, FuncInfo):
            self.call_function(Fn(init), [o] + args, kw)
        return o

    def call_bcls(self, c, args, kw):
        n = c.name
        if n in ('dict', 'int'):
            h = self.ctx.call_bcls(self, n, args, kw)
            if h is not None:
                return h
        m = getattr(self, 'k_' + n, None)
        if m is not None:
            return m(*args, **kw)
        k = getattr(pybuiltins, n, None)
        if isinstance(k, type) and issubclass(k, BaseException):
            return ExcV(c, args)
        h = self.ctx.call_bcls(self, n, args, kw)
        if h is not None:
            return h
        raise Unsupported('call of the class %s' % n)

    def k_str(self, v=C('')):
        if isinstance(v, C):
            return C(str(v.py)) if isinstance(v.py, (str, int, type(None))) else self.opaque_str()
        if isinstance(v, T) and v.opq is None:
            t = v.t
            r = strF(t)
            self.E.assume(V.is_sv(r), z3.Implies(V.is_sv(t), r == t), z3.Implies(t == UNK, r == REG.s('__unknown__')))
            return T(r)
        if isinstance(v, T) and v.opq is not None and '__str__' in v.opq.attrs:
            return v.opq.attrs['__str__'](self, v)
        return self.opaque_str()

    def k_repr(self, v):
        return self.opaque_str()

    def k_bool(self, v=C(False)):
        return self.mkbool(self.truthy(v))

    def k_int(self, v=C(0)):
        if isinstance(v, C):
            return C(int(v.py))
        if isinstance(v, (I, B)):
            return I(self.to_int(v))
        raise Unsupported('int()')

    def k_dict(self, *args, **kw):
        if not args and not kw:
            return self.new_map()
        star = kw.pop('**', None)
        if args:
            r = self.copy_container(args[0]) if not isinstance(args[0], IterV) else self.map_of_items(args[0])
        elif star is not None:
            r = self.copy_container(star)
        else:
            return self.pdict(kw)
        if kw:
            for k, v in kw.items():
                self.set_item(r, C(k), v)
        return r

    def map_of_items(self, v):
        raise Unsupported('dict of an iterable')

    def k_set(self, v=None):
        if v is None:
            return self.new_set()
        key = 'V'
        if isinstance(v, Ref) and isinstance(self.E.nt(v), (Set, Map)):
            key = self.E.nt(v).key
            if self.E.cell(v)[0].virgin:
                return self.new_set()
        elif isinstance(v, Ref) and isinstance(self.E.nt(v), Seq):
            if self.E.cell(v)[0].virgin:
                return self.new_set()
            nt, tr = self.E.nt(v), self.E.tree(v)
            if isinstance(nt.elem, Leaf) and nt.elem.ty == 'name':
                m = self.E.fresh(z3.ArraySort(V, BOOL), 'mem')
                x = z3.Const('ks_x', V)
                f = m[x] == z3.And(tr['lo'] <= tr['last'][x], tr['last'][x] < tr['hi'])
                self.E.assume(z3.ForAll([x], f, patterns=[m[x]]), z3.ForAll([x], f, patterns=[tr['last'][x]]))
                return self.E.new_cell(Set('name'), {'mem': m}, 'set')
        elif isinstance(v, IterV) and v.dom.kind == 'set':
            key = v.dom.key
        return self.E.new_cell(Set(key), {'mem': self.mem_of(v)}, 'set')

    def k_frozenset(self, v=None):
        return self.k_set(v)

    def k_WeakSet(self, v=None):
        """A set of objects compared by identity (none of them dies during the call)."""
        if v is None:
            r = self.new_set()
        else:
            r = self.k_set(v)
        return r

    def k_list(self, v=None):
        if v is None:
            return self.new_seq()
        if isinstance(v, Ref) and isinstance(self.E.nt(v), Seq):
            c, r = self.E.cell(v)
            return self.E.new_cell(self.E.nt(v), dict(self.E.tree(v)), 'seq', virgin=c.virgin and not r.path)
        d = self.dom(v)
        if d.kind == 'py':
            r = self.new_seq()
            for x in d.vals:
                self.seq_append(r, x)
            return r
        x = z3.Const(self.E.fresh_name('kl'), V if d.kind == 'set' else INT)
        rng = d.has[x] if d.kind == 'set' else z3.And(d.lo <= x, x < d.hi)
        return self.build_comp('list', d, x, rng, [self.plain(d.elem(x))])

    k_deque = k_list

    def k_tuple(self, v=None):
        if v is None:
            return Tup([])
        d = self.dom(v)
        if d.kind == 'py':
            return Tup(d.vals)
        return self.k_list(v)

    def k_defaultdict(self, f=None):
        nt = Map(Leaf())
        if isinstance(f, BCls) and f.name in ('list', 'set', 'dict', 'WeakSet'):
            nt = Map({'list': Seq(Leaf()), 'set': Set(), 'dict': Map(Leaf()), 'WeakSet': Set('obj')}[f.name])
            nt.dflt = True
            return self.E.new_cell(nt, None, 'ddict')
        raise Unsupported('defaultdict')

    def k_type(self, v):
        if self.is_plist(v):
            return BCls('list')
        if self.is_pdict(v):
            return BCls('dict')
        if isinstance(v, Obj) and not self.is_pdict(v):
            return ClsV(self.E.st.heap[v.cid].cls)
        if isinstance(v, T):
            return T(UF('typeof', V, V)(v.t))
        raise Unsupported('type()')

    def k_enumerate(self, v, start=C(0)):
        d = self.dom(v)
        if d.kind == 'py':
            return Tup([Tup([C(n + start.py), x]) for n, x in enumerate(d.vals)])
        if d.kind != 'seq':
            raise Unsupported('enumerate of an unordered container')
        s = self.to_int(start)
        return IterV(Dom('seq', elem=lambda i: Tup([self.mkint(i - d.lo + s), d.elem(i)]), lo=d.lo, hi=d.hi, last=None, src=d.src))

    def k_range(self, *a):
        if all(isinstance(x, C) for x in a):
            return Tup([C(i) for i in range(*[x.py for x in a])])
        lo, hi = (C(0), a[0]) if len(a) == 1 else a[:2]
        l, h = self.to_int(lo), self.to_int(hi)
        if len(a) == 3:
            s = self.to_int(a[2])
            if self.E.choose(s == 0):
                raise PyRaise(BCls('ValueError'), origin='range step')
            if not self.E.choose(s > 0):
                raise Unsupported('range with a negative step')
            def at(i):
                self.E.assume(range_at(l, s, i) == l + i * s)
                return I(range_at(l, s, i))
            return IterV(Dom('seq', elem=at, lo=z3.IntVal(0), hi=range_count(l, h, s), last=None))
        return IterV(Dom('seq', elem=lambda i: I(i), lo=l, hi=z3.If(h >= l, h, l), last=None))

    def k_reversed(self, v):
        return self.b_reversed(self, [v], {})

    def k_zip(self, *vs):
        ds = [self.dom(v) for v in vs]
        if all(d.kind == 'py' for d in ds):
            return Tup([Tup(list(x)) for x in zip(*[d.vals for d in ds])])
        raise Unsupported('zip')

    def k_map(self, *a):
        raise Unsupported('map()')

    def k_property(self, *a):
        raise Unsupported('property()')

    def k_super(self, *a):
        raise Unsupported('super()')

    # ---------------------------------------------------------------- builtin functions
    def b_len(self, ip, args, kw):
        v = args[0]
        if isinstance(v, Tup):
            return C(len(v.vs))
        if isinstance(v, C):
            return C(len(v.py))
        if self.is_pdict(v) or self.is_plist(v):
            return C(len(self.E.st.heap[v.cid].fields))
        if isinstance(v, Ref):
            nt, tr = self.E.nt(v), self.E.tree(v)
            if isinstance(nt, Seq):
                return self.mkint(tr['hi'] - tr['lo'])
            arr = tr['has' if isinstance(nt, Map) else 'mem']
            n = card(arr)
            self.E.assume(n >= 0, (n > 0) == self.nonempty(arr))
            return I(n)
        if isinstance(v, T):
            if v.opq is not None and '__len__' in v.opq.attrs:
                return v.opq.attrs['__len__'](self, v)
            self.E.assume(flen(v.t) >= 0)
            return I(flen(v.t))
        if isinstance(v, Obj):
            m = self.repo.lookup(self.E.st.heap[v.cid].cls, '__len__')
            if isinstance(m, FuncInfo):
                return self.call_function(Fn(m), [v], {})
        raise Unsupported('len of %r' % (v,))

    def b_isinstance(self, ip, args, kw):
        v, c = args
        if isinstance(c, Tup):
            return self.mkbool(z3.Or([self.isinst(v, x) for x in c.vs]))
        return self.mkbool(self.isinst(v, c))

    def isinst(self, v, c):
        if isinstance(c, Tup):
            return z3.Or([self.isinst(v, x) for x in c.vs])
        if isinstance(v, C):
            if isinstance(c, BCls):
                k = getattr(pybuiltins, c.name, None)
                return z3.BoolVal(k is not None and isinstance(v.py, k))
            if isinstance(c, ClsV):
                return z3.BoolVal(False)
            return instU(self.term(v), self.term(c))
        if isinstance(v, Obj):
            if self.is_pdict(v):
                return z3.BoolVal(isinstance(c, BCls) and c.name in ('dict', 'object'))
            cls = self.E.st.heap[v.cid].cls
            if isinstance(c, ClsV) and isinstance(cls, ClassInfo):
                return z3.BoolVal(c.info in self.repo.mro(cls))
            if isinstance(c, BCls) and isinstance(cls, ClassInfo):
                return z3.BoolVal(c.name == 'object' or c.name in [x for x in self.repo.mro(cls) if not isinstance(x, ClassInfo)])
            if isinstance(c, BCls):
                return z3.BoolVal(c.name in (cls, 'object'))
            return instU(self.term(v), self.term(c))
        if isinstance(v, Ref):
            nt = self.E.nt(v)
            names = {'Map': ('dict',), 'Rec': ('dict',), 'Set': ('set',), 'Seq': ('list', 'deque')}[type(nt).__name__]
            return z3.BoolVal(isinstance(c, BCls) and c.name in names + ('object',))
        if isinstance(v, Tup):
            return z3.BoolVal(isinstance(c, BCls) and c.name in ('tuple', 'object'))
        if isinstance(v, B):
            return z3.BoolVal(isinstance(c, BCls) and c.name in ('bool', 'int', 'object')) if isinstance(c, (BCls, ClsV)) else instU(self.term(v), self.term(c))
        if isinstance(v, I):
            return z3.BoolVal(isinstance(c, BCls) and c.name in ('int', 'object')) if isinstance(c, (BCls, ClsV)) else instU(self.term(v), self.term(c))
        if isinstance(v, (ClsV, BCls)):
            return z3.BoolVal(isinstance(c, BCls) and c.name in ('type', 'object'))
        if isinstance(v, (Fn, Stub, Bound)):
            return z3.BoolVal(isinstance(c, BCls) and c.name in ('object', 'FunctionType'))
        if isinstance(v, T):
            if isinstance(c, (BCls, ClsV)):
                cn = c.name if isinstance(c, BCls) else c.info.full
                if v.opq is not None and v.opq.isa:
                    return z3.BoolVal(cn in v.opq.isa or cn == 'object')
                if cn == 'str':
                    return is_str(v.t)
                if cn == 'object':
                    return z3.BoolVal(True)
                u = instU(v.t, self.term(c))
                if cn == 'bool':
                    return V.is_bv(v.t)
                if cn == 'int':
                    return z3.Or(V.is_bv(v.t), V.is_iv(v.t), z3.And(V.is_rv(v.t), u))
                return z3.And(V.is_rv(v.t), v.t != UNK, u)
            return instU(v.t, self.term(c))
        raise Unsupported('isinstance of %r' % (v,))

    def b_issubclass(self, ip, args, kw):
        a, b = args
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return C(b.info in self.repo.mro(a.info))
        if isinstance(b, Tup):
            raise Unsupported('issubclass with a tuple')
        ta, tb = self.term(a), self.term(b)
        if isinstance(a, T) and a.opq is None:
            if not self.E.choose(z3.And(V.is_rv(ta), instU(ta, REG.o('class:type')))):
                raise PyRaise(BCls('TypeError'), origin='issubclass')
        return self.mkbool(subclsF(ta, tb))

    def b_callable(self, ip, args, kw):
        v = args[0]
        if isinstance(v, (Fn, Stub, Bound, ClsV, BCls)):
            return C(True)
        if isinstance(v, T):
            return B(UF('callable', V, BOOL)(v.t))
        return C(False)

    def b_hash(self, ip, args, kw):
        v = args[0]
        self.hashable_or_raise(v)
        return I(UF('hash', V, INT)(canon(self.term(v))))

    def b_id(self, ip, args, kw):
        return I(UF('id', V, INT)(self.term(args[0])))

    def b_iter(self, ip, args, kw):
        # an iterator that is only iterated over once: what it goes through
        if len(args) != 1 or kw:
            raise Unsupported('iter with a sentinel')
        return args[0]

    def b_print(self, ip, args, kw):
        return C(None)

    def b_repr(self, ip, args, kw):
        return self.opaque_str('repr')

    def b_hex(self, ip, args, kw):
        return self.opaque_str('hex')

    def b_hasattr(self, ip, args, kw):
        v, n = args
        if isinstance(n, C):
            name = n.py
            if isinstance(v, T):
                if v.opq is not None:
                    if name in v.opq.hasattrs:
                        return self.mkbool(v.opq.hasattrs[name](self, v))
                    return C(name in v.opq.attrs)
                h = self.ctx.opaque_hasattr(self, v, name)
                if h is not None:
                    return self.mkbool(h)
                self.builtin_attrs(v.t, name)
                return B(hasattrF(v.t, REG.s(name)))
            if isinstance(v, (C,)):
                return C(hasattr(v.py, name))
            if isinstance(v, Tup):
                return C(hasattr((), name))
            if isinstance(v, Ref):
                return C(hasattr({'Map': {}, 'Set': set(), 'Seq': [], 'Rec': {}}[type(self.E.nt(v)).__name__], name))
            if isinstance(v, Obj):
                try:
                    self.get_attr(v, name)
                    return C(True)
                except PyRaise:
                    return C(False)
        if isinstance(v, Obj) and isinstance(n, T):
            h = self.ctx.obj_hasattr_dyn(self, v, n)
            if h is not None:
                return self.mkbool(h)
        if isinstance(v, (T,)):
            if v.opq is not None and '__hasattr_dyn__' in v.opq.attrs:
                return v.opq.attrs['__hasattr_dyn__'](self, v, n)
            return B(hasattrF(v.t, self.term(n)))
        raise Unsupported('hasattr(%r, %r)' % (v, n))

    def b_getattr(self, ip, args, kw):
        v, n = args[0], args[1]
        if isinstance(n, C):
            if len(args) > 2:
                if isinstance(v, T) and v.opq is None and isinstance(args[2], C):
                    h = self.ctx.opaque_attr(self, v, n.py)
                    if h is None:
                        return T(z3.If(hasattrF(v.t, REG.s(n.py)), getattrF(v.t, REG.s(n.py)), self.term(args[2])))
                try:
                    return self.get_attr(v, n.py)
                except PyRaise as e:
                    if isinstance(e.cls, BCls) and e.cls.name == 'AttributeError':
                        return args[2]
                    raise
            return self.get_attr(v, n.py)
        if isinstance(v, Obj):
            h = self.ctx.obj_attr_dyn(self, v, n, args[2] if len(args) > 2 else None)
            if h is not None:
                return h
        if isinstance(v, T):
            if v.opq is not None and '__getattr_dyn__' in v.opq.attrs:
                return v.opq.attrs['__getattr_dyn__'](self, v, n)
            nt = self.term(n)
            if len(args) > 2:
                return T(z3.If(hasattrF(v.t, nt), getattrF(v.t, nt), self.term(args[2])))
            if not self.E.choose(hasattrF(v.t, nt)):
                raise PyRaise(BCls('AttributeError'), origin='getattr')
            return T(getattrF(v.t, nt))
        raise Unsupported('getattr(%r, %r)' % (v, n))

    def b_setattr(self, ip, args, kw):
        o, n, v = args
        if isinstance(n, C):
            self.set_attr(o, n.py, v)
            return C(None)
        if isinstance(o, T) and o.opq is not None and '__setattr_dyn__' in o.opq.attrs:
            o.opq.attrs['__setattr_dyn__'](self, o, n, v)
            return C(None)
        h = self.ctx.obj_setattr_dyn(self, o, n, v)
        if h is None:
            raise Unsupported('setattr with a symbolic name')
        return C(None)

    def b_sorted(self, ip, args, kw):
        return self.sorted_seq(args[0], kw.get('key'), kw.get('reverse', C(False)))

    def b_reversed(self, ip, args, kw):
        v = args[0]
        d = self.dom(v)
        if d.kind == 'py':
            return Tup(list(reversed(d.vals)))
        if isinstance(v, Ref):
            return self.reversed_seq(v)
        raise Unsupported('reversed')

    def _minmax(self, args, kw, ismin):
        vs = args if len(args) > 1 else self.dom(args[0]).vals
        if vs is None or kw:
            raise Unsupported('min/max')
        if all(isinstance(v, C) for v in vs):
            return C((min if ismin else max)(v.py for v in vs))
        r = self.to_int(vs[0])
        for v in vs[1:]:
            i = self.to_int(v)
            r = z3.If(i < r if ismin else i > r, i, r)
        return I(r)

    def b_min(self, ip, args, kw):
        return self._minmax(args, kw, True)

    def b_max(self, ip, args, kw):
        return self._minmax(args, kw, False)

    def b_any(self, ip, args, kw):
        return self.anyall(args[0], True)

    def b_all(self, ip, args, kw):
        return self.anyall(args[0], False)

    def anyall(self, v, isany):
        d = self.dom(v)
        if d.kind == 'py':
            ts = [self.truthy(x) for x in d.vals]
            return self.mkbool(z3.Or(ts) if isany else z3.And(ts)) if ts else C(not isany)
        y = z3.Const(self.E.fresh_name('aa'), V if d.kind == 'set' else INT)
        rng = d.has[y] if d.kind == 'set' else z3.And(d.lo <= y, y < d.hi)
        t = self.truthy(d.elem(y))
        hit = z3.And(rng, t if isany else z3.Not(t))
        b, w = self.E.fresh(BOOL, 'aa'), self.E.fresh(y.sort(), 'w')
        self.E.assume(z3.Implies(b, z3.substitute(hit, (y, w))), z3.Implies(z3.Not(b), z3.ForAll([y], z3.Not(hit))))
        return B(b if isany else z3.Not(b))

    # ---------------------------------------------------------------- opaque calls
    def call_opaque(self, fv, args, kw):
        """A call of an unknown value: a class being converted to, or a user callable (assumed deterministic, without side effect)."""
        if fv.opq is not None and fv.opq.call is not None:
            return fv.opq.call(self, fv, args, kw)
        h = self.ctx.call_opaque(self, fv, args, kw)
        if h is not None:
            return h
        E = self.E
        if len(args) == 1 and (not kw or set(kw) == {'**'}):
            ka = REG.o('noargs') if not kw else self.kwargs_term(kw['**'])
            t, a = self.term(fv), self.term(args[0])
            res, exc = convF(t, a, ka), convE(t, a, ka)
            E.assume(exc >= 0, exc <= 4)
            for n, cls in ((1, BCls('ValueError')), (2, BCls('TypeError')), (3, self.fp_exception()), (4, BCls('OtherError'))):
                if E.choose(exc == n):
                    raise PyRaise(cls, None, 'call of %s' % fv.t)
            # calling a class gives one of its instances
            E.assume(instU(res, t))
            return T(res)
        if kw and set(kw) != {'**'}:
            raise Unsupported('opaque call with keywords')
        n = len(args)
        ts = [self.term(a) for a in args]
        exc = callE[n](self.term(fv), *ts)
        E.assume(exc >= 0, exc <= 4)
        for k, cls in ((1, BCls('ValueError')), (2, BCls('TypeError')), (3, self.fp_exception()), (4, BCls('OtherError'))):
            if E.choose(exc == k):
                raise PyRaise(cls, None, 'call of %s' % fv.t)
        return T(callF[n](self.term(fv), *ts))

    def kwargs_term(self, v):
        """Keyword arguments as one term."""
        if isinstance(v, T):
            return v.t
        if isinstance(v, Ref):
            if self.E.cell(v)[0].virgin:
                return REG.o('noargs')
            return self.freeze(v)
        if self.is_pdict(v) and not self.E.st.heap[v.cid].fields:
            return REG.o('noargs')
        raise Unsupported('keyword arguments %r' % (v,))

    def fp_exception(self):
        return ClsV(self.repo.cls('__init__:FootprintException'))
