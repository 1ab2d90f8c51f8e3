"""access.py and the footprint_*attr methods (P10)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT

D = 'access:FootprintAttrDescriptor'
MODES = {'rwd': D + 'RWD', 'rwd-weak': D + 'WeakRWD', 'rwx': D + 'RWX', 'rwx-weak': D + 'WeakRWX', 'rxx': D + 'RXX', 'rxx-weak': D + 'WeakRXX'}


class ACtx(Ctx):
    fp = None
    auth = None
    obj = None

    def __init__(self):
        super().__init__(callees={'__init__:Footprint.in_values': in_values_contract})

    def obj_attr(self, ip, v, name):
        if self.obj is not None and v.cid == self.obj.cid and name == '_fp_auth':
            return T(self.auth)
        return None

    def cls_attr(self, ip, c, name):
        if name == '_footprint' and self.fp is not None:
            return self.fp.obj
        return None


class World:
    """An object of a footprint class, one of its descriptors, and another object."""

    def __init__(self, ip, mode):
        E = ip.E
        self.ip = ip
        self.fp = ip.ctx.fp = FP(ip)
        self.k = name_const(ip, 'attr')
        E.assume(self.fp.has(self.k))
        ip.ctx.auth = E.fresh(V, 'auth')
        self.nt = Map(Leaf('V'), key='name')
        self.t0 = fresh_tree(self.nt, E.fresh_name('attributes'))
        self.cell = E.new_cell(self.nt, self.t0, 'attributes')
        self.obj = ip.ctx.obj = E.new_obj(ip.repo.cls('__init__:FootprintBase'), {'_attributes': self.cell}, 'inst')
        self.desc = E.new_obj(ip.repo.cls(MODES[mode]), {'_attr': T(self.k), '_auth': T(ip.ctx.auth)}, 'desc', frozen=True)
        self.heap0 = dict(E.st.heap)

    def find(self, name):
        m = self.ip.repo.lookup(self.ip.E.st.heap[self.desc.cid].cls, name)
        if not hasattr(m, 'full'):
            raise Unsupported('no %s' % name)
        self.ip.used_functions[m.full] = m
        return m

    def call(self, name, *args):
        m = self.find(name)
        from core import Fn
        return self.ip.inline(Fn(m), [self.desc, *args], {})

    def now(self):
        return self.ip.E.tree(self.cell)

    def frame(self, nm):
        """No other object is modified."""
        E = self.ip.E
        bad = [c for c, v in E.st.heap.items() if c in self.heap0 and v is not self.heap0[c] and c != self.cell.cid]
        E.oblige('%s: no other object is modified' % nm, z3.BoolVal(not bad))


T_SET = 'access:FootprintAttrDescriptorRWD.__set__ access:FootprintAttrDescriptorWeakRWD.__set__ access:FootprintAttrDescriptorWeakRWX.__set__ '
T_RO = 'access:FootprintAttrDescriptorRWX.__delete__ access:FootprintAttrDescriptorRXX.__set__ access:FootprintAttrDescriptorRXX.__delete__ '


@contract('descriptors refuse', 'P10', T_RO, ctx=ACtx)
def refuse(ip):
    """Writing or deleting a read-only attribute, deleting a read-write one: attribute error, nothing changes."""
    E = ip.E
    cases = [('rxx', '__set__'), ('rxx-weak', '__set__'), ('rxx', '__delete__'), ('rxx-weak', '__delete__'), ('rwx', '__delete__'), ('rwx-weak', '__delete__')]
    n = E.decide(len(cases))
    mode, op = cases[n]
    w = World(ip, mode)
    args = [w.obj] + ([T(E.fresh(V, 'value'))] if op == '__set__' else [])
    nm = '%s %s' % (mode, op)
    try:
        w.call(op, *args)
        E.oblige(nm + ': refused', z3.BoolVal(False))
    except PyRaise as e:
        E.oblige(nm + ': refused', z3.BoolVal(exc_is(ip, e, 'AttributeError')))
    E.oblige(nm + ': nothing changes', z3.And([w.now()[c] == w.t0[c] for c in w.t0]))
    w.frame(nm)


@contract('descriptors delete', 'P10', 'access:FootprintAttrDescriptorRWD.__delete__ __init__:FootprintBase.footprint_delattr', ctx=ACtx)
def delete(ip):
    """A read-write-delete attribute leaves, and only it."""
    E = ip.E
    w = World(ip, ('rwd', 'rwd-weak')[E.decide(2)])
    try:
        w.call('__delete__', w.obj)
    except PyRaise as e:
        E.oblige('fails only for an absent attribute', z3.Not(w.t0['has'][w.k]))
        E.oblige('a failure changes nothing', same_map(w.now(), w.t0))
        return
    E.oblige('the attribute leaves', z3.Not(w.now()['has'][w.k]))
    E.oblige('the other attributes are kept', others_kept(w.now(), w.t0, w.k))
    w.frame('delete')


@contract('descriptors write', 'P10', T_SET + '__init__:FootprintBase.footprint_setattr', ctx=ACtx, budget=60,
          assumptions=['calling a declared type gives one of its instances (or raises)'])
def write(ip):
    """A write stores the converted authorised value (a weak proxy for weak modes), or raises a value error and changes nothing."""
    E = ip.E
    mode = ('rwd', 'rwd-weak', 'rwx', 'rwx-weak')[E.decide(4)]
    w = World(ip, mode)
    fp, k = w.fp, w.k
    v = E.fresh(V, 'value')
    typ, args = fp.ktype(k), fp.kargs(k)
    isinst = ip.isinst(T(v), T(typ))
    E.assume(z3.Implies(fp.opt_('args', k), fp.args(k) != REG.o('noargs')))
    nm = 'write'
    try:
        w.call('__set__', w.obj, T(v))
    except PyRaise as e:
        E.oblige('a refused write changes nothing', same_map(w.now(), w.t0))
        conv_other = z3.And(z3.Not(isinst), convE(typ, v, args) >= 3)
        wk = z3.BoolVal('weak' in mode and exc_is(ip, e, 'TypeError'))
        E.oblige('a refused write raises a value error', z3.Or(z3.BoolVal(exc_is(ip, e, 'ValueError')), conv_other, wk))
        w.frame('refused write')
        return
    now = w.now()
    stored = now['*.v'][k]
    conv = z3.If(z3.Or(fp.kclass(k), v == NONE, isinst), v, convF(typ, v, args))
    E.oblige('the attribute has a value', now['has'][k])
    if 'weak' in mode:
        E.oblige('weak: a proxy of the converted value is stored', z3.If(conv == NONE, stored == NONE, z3.Or(
            z3.And(instU(stored, REG.o('class:ProxyTypes')), z3.Or(stored == conv, UF('proxied', V, V)(stored) == conv)))))
    else:
        E.oblige('the converted value is stored', stored == conv)
    E.oblige('the stored value is authorised', fp.authorised(k, conv))
    E.oblige('class: a subclass of the declared type', z3.Implies(fp.kclass(k), UF('subcls', V, V, BOOL)(v, typ)))
    E.oblige('the other attributes are kept', others_kept(now, w.t0, k))
    w.frame(nm)


@contract('descriptors read', 'P10', 'access:FootprintAttrDescriptor.__get__ access:FootprintAttrDescriptorRWD.__get__ __init__:FootprintBase.footprint_getattr '
          '__init__:FootprintBase.footprint_has_attribute', ctx=ACtx)
def read(ip):
    """A read gives the current value (None when it is unset), an attribute error for a deleted one."""
    E = ip.E
    mode = list(MODES)[E.decide(6)]
    w = World(ip, mode)
    try:
        r = w.call('__get__', w.obj, C(None))
    except PyRaise as e:
        E.oblige('read: fails for a deleted attribute only', z3.And(z3.Not(w.t0['has'][w.k]), z3.BoolVal(exc_is(ip, e, 'AttributeError'))))
        return
    val = w.t0['*.v'][w.k]
    E.oblige('read: the current value, None if unset', z3.Implies(w.t0['has'][w.k], ip.term(r) == z3.If(val == UNK, NONE, val)))
    E.oblige('read: nothing changes', same_map(w.now(), w.t0))
    w.frame('read')


@contract('protected accessors', 'P10', '__init__:FootprintBase.footprint_setattr __init__:FootprintBase.footprint_delattr', ctx=ACtx)
def protected(ip):
    """Without the authorisation of the class, the low level accessors refuse and change nothing."""
    E = ip.E
    w = World(ip, 'rwd')
    auth = E.fresh(V, 'other_auth')
    E.assume(z3.Not(eq(auth, ip.ctx.auth)))
    n = E.decide(2)
    try:
        if n:
            run_target(ip, '__init__:FootprintBase.footprint_setattr', [w.obj, T(w.k), T(E.fresh(V, 'v'))], {'auth': T(auth)})
        else:
            run_target(ip, '__init__:FootprintBase.footprint_delattr', [w.obj, T(w.k)], {'auth': T(auth)})
        E.oblige('refused without authorisation', z3.BoolVal(False))
    except PyRaise as e:
        E.oblige('refused without authorisation', z3.BoolVal(exc_is(ip, e, 'AttributeError')))
    E.oblige('nothing changes', same_map(w.now(), w.t0))


@contract('Footprint.in_values', 'P01 P10', '__init__:Footprint.in_values', ctx=Ctx)
def in_values(ip):
    """in_values(item, values): some value equals the item, be it hashable or not."""
    E = ip.E
    nt = Set()
    tr = fresh_tree(nt, E.fresh_name('values'))
    s = E.new_cell(nt, tr, 'values', frozen=True)
    x = z3.Const('iv_x', V)
    E.assume(forall(x, z3.Implies(tr['mem'][x], z3.And(canon(x) == x, hashableF(x))), [tr['mem'][x]]))
    o = E.new_obj(ip.repo.cls('__init__:Footprint'), {}, 'fp')
    v = E.fresh(V, 'item')
    E.assume(canon(canon(v)) == canon(v))
    r = run_target(ip, '__init__:Footprint.in_values', [o, T(v), s])
    E.oblige('in_values: some value equals the item', ip.truthy(r) == tr['mem'][canon(v)])
