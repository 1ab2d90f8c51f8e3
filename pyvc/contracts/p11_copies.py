"""Clones, dictionary and exported views, pickling (P11)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from contracts.p02_firstguess import mkdesc

B_ = '__init__:FootprintBase.'
deepF = UF('deepcopy', V, V)
exportF = UF('exported', V, V, V)          # object, method name: what the method gives
pub = UF('str_startswith', V, V, BOOL)


class MCtx(Ctx):
    merge = True
    inv_ms = 2000
    nt = at = None

    def mod_attr(self, ip, mod, name):
        if mod == 'copy' and name == 'deepcopy':
            return Stub('deepcopy', lambda ip2, a, k: T(deepF(ip2.term(a[0]))))
        return None

    def opaque_attr(self, ip, v, name):
        if name in ('footprint_export', 'export_dict'):
            if not ip.E.choose(hasattrF(v.t, REG.s(name))):
                raise PyRaise(BCls('AttributeError'), origin=name)
            return Stub(name, lambda ip2, a, k: T(exportF(v.t, REG.s(name))))
        return None

    def expected(self, ip, x):
        return None

    def invariants(self, ip, fr, L):
        if self.at is None or L.kind not in ('set', 'seq'):
            return []
        x = z3.Const('mi_x', V)
        out = []
        for n, r in fr.env.items():
            if isinstance(r, Ref) and r.cid not in self.own:
                nt = ip.E.nt(r)
                if self.expect is not None and isinstance(nt, Map) and isinstance(nt.child, Leaf):
                    t = ip.E.tree(r)
                    if '*.v' in t:
                        out.append(('%s: the attributes met' % n, forall(x, t['has'][x] == L.visited(x), [t['has'][x]])))
                        out.append(('%s: their values' % n, forall(x, z3.Implies(L.visited(x), t['*.v'][x] == self.expect(x)), [t['*.v'][x]])))
        d = ip.E.tree(self.clone) if self.clone is not None else None
        if d is not None:
            out.append(('clone: the variables met', forall(x, z3.Implies(L.visited(x), z3.And(d['has'][x], d['*.v'][x] == getattrF(self.o.t, x))), [d['has'][x]])))
            out.append(('clone: nothing else', forall(x, z3.Implies(d['has'][x], L.visited(x)), [d['has'][x]])))
        return out
    clone = expect = None


def inst(ip):
    """A footprint object: its attributes, its variables."""
    E = ip.E
    c = ip.ctx
    nt = Map(Leaf('V'), key='name')
    c.at = fresh_tree(nt, E.fresh_name('attributes'))
    c.dv = fresh_tree(nt, E.fresh_name('variables'))
    c.acell = E.new_cell(nt, c.at, 'attributes')
    c.dcell = E.new_cell(nt, c.dv, 'variables')
    c.own = {c.acell.cid, c.dcell.cid}
    x = z3.Const('is_x', V)
    for t in (c.at, c.dv):
        E.assume(forall(x, z3.Implies(t['has'][x], V.is_sv(x)), [t['has'][x]]))

    def dyn(ip2, o, n):
        k = ip2.term(n)
        if not ip2.E.choose(hasattrF(o.t, k)):
            raise PyRaise(BCls('AttributeError'), origin='getattr')
        return T(getattrF(o.t, k), OpqCls('value', call=lambda ip3, f, a, kw: T(exportF(o.t, k)), attrs=VALUE, truthy=lambda ip3, v: truth(v.t),
                 hasattrs={n2: (lambda ip3, v, n2=n2: hasattrF(v.t, REG.s(n2))) for n2 in ('footprint_export', 'export_dict')}))
    VALUE = {n: (lambda ip2, v, n=n: c.opaque_attr(ip2, v, n)) for n in ('footprint_export', 'export_dict')}

    def hasdyn(ip2, o, n):
        return B(hasattrF(o.t, ip2.term(n)))
    E.assume(forall(x, z3.Implies(z3.Or(c.at['has'][x], c.dv['has'][x]), hasattrF(z3.Const('self_o', V), x)), [hasattrF(z3.Const('self_o', V), x)]))
    attrs = {'_attributes': lambda ip2, o: c.acell, '__dict__': lambda ip2, o: c.dcell, '__getattr_dyn__': dyn, '__hasattr_dyn__': hasdyn,
             '__class__': lambda ip2, o: T(REG.o('the class of self'), OpqCls('class', call=c.build if hasattr(c, 'build') else None))}
    c.o = T(z3.Const('self_o', V), OpqCls('footprint object', attrs=attrs))
    return c.o


@contract('FootprintBase: dictionary views', 'P11', B_ + 'footprint_as_dict ' + B_ + 'footprint_as_shallow_dict ' + B_ + 'footprint_export', ctx=MCtx,
          assumptions=['reading an attribute, deep copying a value and the export methods are deterministic and without effect', 'deep copies share nothing mutable with their source (Python)'])
def views(ip):
    """Exactly the attributes, with their current values, deep copied but in the shallow view, or exported by their export methods."""
    E = ip.E
    c = ip.ctx
    o = inst(ip)
    n = ('footprint_as_dict', 'footprint_as_shallow_dict', 'footprint_export')[E.decide(3)]
    val = lambda x: getattrF(o.t, x)
    mname = UF('export_name', V, V)
    fe, ed = REG.s('footprint_export'), REG.s('export_dict')
    if n == 'footprint_as_dict':
        c.expect = lambda x: deepF(val(x))
    elif n == 'footprint_as_shallow_dict':
        c.expect = val
    else:
        own = lambda x: UF('concat', V, V, V)(REG.s('footprint_export_'), x)
        c.expect = lambda x: z3.If(hasattrF(o.t, own(x)), exportF(o.t, own(x)), z3.If(hasattrF(val(x), fe), exportF(val(x), fe),
                                   z3.If(hasattrF(val(x), ed), exportF(val(x), ed), deepF(val(x)))))
    heap0 = dict(E.st.heap)
    r = run_target(ip, B_ + n, [o])
    E.oblige('%s: a new dictionary' % n, z3.BoolVal(isinstance(r, Ref) and r.cid not in heap0))
    t = E.tree(r)
    y = E.fresh(V, 'attr')
    E.oblige('%s: exactly the attributes' % n, t['has'][y] == c.at['has'][y])
    if '*.v' in t:
        E.oblige('%s: their values' % n, z3.Implies(c.at['has'][y], t['*.v'][y] == c.expect(y)))
    frame_oblige(ip, '%s: the object is kept' % n, heap0, set())


class CCtx(MCtx):
    def build(self, ip, o, a, kw):
        """The class is called: a new object, with these attributes."""
        E = ip.E
        self.args = (a, kw)
        r = kw.get('**')
        E.oblige('the attributes are given as keywords', z3.BoolVal(not a and set(kw) == {'**'} and isinstance(r, Ref)))
        t = E.tree(r)
        y = E.fresh(V, 'attr')
        new = z3.If(self.xhas(y), self.xval(y), self.at['*.v'][y])
        E.oblige('clone: exactly the attributes and the extra ones', t['has'][y] == z3.Or(self.at['has'][y], self.xhas(y)))
        E.oblige('clone: the extra values, else those of the original', z3.Implies(t['has'][y], t['*.v'][y] == new))
        ip.set_item(self.g, C('built'), C(True))
        nt = Map(Leaf('V'), key='name')

        def setdyn(ip2, o2, n, v):
            ip2.set_item(self.clone, n, v)
        return T(self.new, OpqCls('clone', attrs={'__setattr_dyn__': setdyn}))


@contract('FootprintBase.footprint_clone', 'P11', B_ + 'footprint_clone', ctx=CCtx,
          assumptions=['creating an object from its attributes: contract of FootprintBase.__init__'])
def clone(ip):
    """A new object of the same class, with the attributes of the original but for the extra ones, and (full) its public variables."""
    E = ip.E
    c = ip.ctx
    o = inst(ip)
    c.new = E.fresh(V, 'newobject')
    nt = Map(Leaf('V'), key='name')
    c.clone = E.new_cell(nt, {'has': z3.K(V, z3.BoolVal(False)), '*.v': fresh_tree(nt, 'cl')['*.v']}, 'clone')
    t = fresh_tree(nt, E.fresh_name('ghost'))
    c.g = E.new_cell(nt, t, 'ghost')
    E.assume(z3.Not(t['has'][REG.s('built')]))
    c.own |= {c.clone.cid, c.g.cid}
    kw = {}
    c.xhas, c.xval = lambda x: z3.BoolVal(False), lambda x: NONE
    if E.decide(2):
        r, xt = mkdesc(ip, 'extra')
        kw['extra'] = r
        c.xhas, c.xval = lambda x: xt['has'][x], lambda x: xt['*.v'][x]
        c.own.add(r.cid)
    full = B(E.fresh(BOOL, 'full'))
    if E.decide(2):
        kw['full'] = full
    else:
        E.assume(z3.Not(full.b))
    heap0 = dict(E.st.heap)
    r = run_target(ip, B_ + 'footprint_clone', [o], kw)
    E.oblige('clone: the new object', z3.And(ip.term(r) == c.new, E.tree(c.g)['has'][REG.s('built')]))
    y = E.fresh(V, 'variable')
    d = E.tree(c.clone)
    E.oblige('clone: the public variables, when full', d['has'][y] == z3.And(full.b, c.dv['has'][y], z3.Not(pub(y, REG.s('_')))))
    E.oblige('clone: their values', z3.Implies(d['has'][y], d['*.v'][y] == getattrF(o.t, y)))
    frame_oblige(ip, 'clone: the original is kept', heap0, {c.clone.cid, c.g.cid})


@contract('FootprintBase.__getstate__', 'P11', B_ + '__getstate__', ctx=MCtx)
def getstate(ip):
    """All the variables but the observer; the object is kept."""
    E = ip.E
    c = ip.ctx
    o = inst(ip)
    E.assume(c.dv['has'][REG.s('_observer')])
    heap0 = dict(E.st.heap)
    r = run_target(ip, B_ + '__getstate__', [o])
    t = E.tree(r)
    y = E.fresh(V, 'variable')
    E.oblige('state: a new dictionary', z3.BoolVal(isinstance(r, Ref) and r.cid not in heap0))
    E.oblige('state: every variable but the observer', t['has'][y] == z3.And(c.dv['has'][y], y != REG.s('_observer')))
    E.oblige('state: their values', z3.Implies(t['has'][y], t['*.v'][y] == c.dv['*.v'][y]))
    frame_oblige(ip, 'state: the object is kept', heap0, set())


class ICtx(Ctx):
    """Creation of objects: the abstract flag, the footprint, the observer board of the class."""
    merge = True
    at0 = None
    obj = None

    def __init__(self):
        super().__init__(callees={'__init__:Footprint.resolve': self.resolve})

    def cls_attr(self, ip, c, name):
        if name == '_abstract':
            return B(self.abstract)
        if name == 'fullname':
            return Stub('fullname', lambda ip2, a, k: T(self.fullname))
        return None

    def obj_attr(self, ip, v, name):
        if name == '_footprint':
            return self.fp.obj
        return None

    def mod_attr(self, ip, mod, name):
        if mod.endswith('observer') and name == 'get':
            def get(ip2, a, k):
                ip2.E.oblige('observer: the board of the full name of the class', z3.And(z3.BoolVal(not a and set(k) == {'tag'}), ip2.term(k.get('tag', C(None))) == self.fullname))
                return T(REG.o('board'), OpqCls('board', attrs={'notify_new': lambda ip3, o: Stub('notify_new', self.notify)}))
            return Stub('get', get)
        return None

    def notify(self, ip, a, k):
        E = ip.E
        g = E.tree(self.g)['has']
        E.oblige('riseup: notified once', z3.Not(g[REG.s('new')]))
        E.oblige('riseup: it is this object that is announced', z3.BoolVal(bool(a) and isinstance(a[0], Obj) and a[0].cid == self.obj.cid))
        f = E.st.heap[self.obj.cid].fields.get('_attributes')
        E.oblige('riseup: the object is complete', z3.BoolVal(isinstance(f, Ref)))
        self.complete(ip, E.tree(f), 'riseup: ')
        ip.set_item(self.g, C('new'), C(True))
        return C(None)

    def complete(self, ip, t, pre):
        E = ip.E
        y = E.fresh(V, 'attr')
        E.oblige(pre + 'exactly the attributes', t['has'][y] == self.xhas(y))
        E.oblige(pre + 'their values', z3.Implies(self.xhas(y), t['*.v'][y] == self.xval(y)))

    def resolve(self, ip, args, kw):
        """Contract of Footprint.resolve (fatal): a complete resolution or an exception; the description is kept."""
        E = ip.E
        ip.used_contracts.add('Footprint.resolve')
        E.oblige('resolve: fatal', ip.truthy(kw.get('fatal', C(True) if len(args) < 3 else args[2])))
        t = E.tree(args[1])
        y = E.fresh(V, 'attr')
        E.oblige('resolve: the merged description', z3.And(t['has'][y] == self.mhas(y), z3.Implies(self.mhas(y), t['*.v'][y] == self.mval(y))))
        if E.decide(2):
            raise PyRaise(BCls('Exception'), None, 'resolve')
        nt = Map(Leaf('V'), key='name')
        r = E.new_cell(nt, self.rt, 'resolved')
        ip.set_item(self.g, C('resolved'), C(True))
        return Tup([r, ip.new_set() if hasattr(ip, 'new_set') else T(E.fresh(V, 'inputs')), T(E.fresh(V, 'seen'))])


def icls(ip):
    E = ip.E
    c = ip.ctx
    nt = Map(Leaf('V'), key='name')
    c.abstract = E.fresh(BOOL, 'abstract')
    c.fullname = E.fresh(V, 'fullname')
    c.fp = FP(ip)
    t = fresh_tree(nt, E.fresh_name('ghost'))
    c.g = E.new_cell(nt, t, 'ghost')
    x = z3.Const('ic_x', V)
    E.assume(forall(x, z3.Not(t['has'][x]), [t['has'][x]]))
    c.rt = fresh_tree(nt, E.fresh_name('resolved'))
    E.assume(forall(x, z3.Implies(c.rt['has'][x], V.is_sv(x)), [c.rt['has'][x]]))


@contract('FootprintBase.__init__', 'P11 P12 P13 P01', B_ + '__init__ ' + B_ + 'footprint_riseup', ctx=ICtx,
          assumptions=['at most two positional arguments', 'loading the observer board of a name is deterministic and without effect'])
def init(ip):
    """An abstract class is refused; else the object holds its resolved attributes (as given, when already checked), then it is announced once."""
    E = ip.E
    c = ip.ctx
    icls(ip)
    c.obj = E.new_obj(ip.repo.cls('__init__:FootprintBase'), {}, 'inst')
    n = E.decide(3)
    args, has, val = [], (lambda y: z3.BoolVal(False)), (lambda y: NONE)

    def over(h, v, t):
        return (lambda y: z3.Or(t['has'][y], h(y))), (lambda y: z3.If(t['has'][y], t['*.v'][y], v(y)))
    for _ in range(n):
        if E.decide(2):
            args.append(C(12))
        else:
            r, t = mkdesc(ip, 'arg')
            args.append(r)
            has, val = over(has, val, t)
    kr, kt = mkdesc(ip, 'kw')
    kw = {'**': kr}
    chk = REG.s('checked')
    checked = z3.And(kt['has'][chk], truth(kt['*.v'][chk]))
    k1 = dict(kt)
    y = z3.Const('in_y', V)
    khas = z3.Lambda([y], z3.And(kt['has'][y], y != chk))
    c.mhas = lambda y: z3.Or(z3.And(kt['has'][y], y != chk), has(y))
    c.mval = lambda y: z3.If(z3.And(kt['has'][y], y != chk), kt['*.v'][y], val(y))
    c.xhas = lambda y: z3.If(checked, c.mhas(y), c.rt['has'][y])
    c.xval = lambda y: z3.If(checked, c.mval(y), c.rt['*.v'][y])
    heap0 = dict(E.st.heap)
    try:
        run_target(ip, B_ + '__init__', [c.obj] + args, kw)
    except PyRaise as e:
        E.oblige('init: a refused creation is not announced', z3.Not(E.tree(c.g)['has'][REG.s('new')]))
        if exc_is(ip, e, '__init__:FootprintInvalidDefinition'):
            E.oblige('init: only an abstract class is refused', c.abstract)
        else:
            E.oblige('init: only the resolution fails', z3.And(z3.Not(c.abstract), z3.BoolVal(e.origin == 'resolve')))
        return
    E.oblige('init: an abstract class is never instantiated', z3.Not(c.abstract))
    E.oblige('init: the object is announced', E.tree(c.g)['has'][REG.s('new')])
    E.oblige('init: resolved, but if already checked', E.tree(c.g)['has'][REG.s('resolved')] == z3.Not(checked))
    c.complete(ip, E.tree(E.st.heap[c.obj.cid].fields['_attributes']), 'init: ')
    frame_oblige(ip, 'init: the arguments are kept', heap0, {c.g.cid, c.obj.cid})
