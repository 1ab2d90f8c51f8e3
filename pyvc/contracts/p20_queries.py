"""Queries on footprints, classes and collectors (P20)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from contracts._coll import Coll, cls_opq, attrF, optF, valF, fp_view
from contracts.p04_couldbe import classof
from contracts.p06_fasttrack import locals_nt

CO = 'collectors:Collector.'
F = '__init__:Footprint.'
B_ = '__init__:FootprintBase.'


def inseq(t, x):
    return z3.And(t['lo'] <= t['last'][x], t['last'][x] < t['hi'])


def once(ip, nm, r):
    t = ip.E.tree(r)
    i = z3.Const('on_i', INT)
    k = t[ip.E.nt(r).keycomp()]
    ip.E.oblige('%s: each once' % nm, forall(i, z3.Implies(z3.And(t['lo'] <= i, i < t['hi']), t['last'][k[i]] == i), [k[i]]))


class FCtx(Ctx):
    merge = True


def key_of(ip, fp):
    a = name_const(ip, 'a')
    if not ip.E.choose(fp.has(a)):
        return a, False
    return a, True


FQ = ('mandatory', 'optional', 'get_values', 'get_outcast')


@contract('Footprint: characteristics', 'P20 P07', ' '.join(F + n for n in FQ) + ' ' + F + 'attr', ctx=FCtx)
def chars(ip):
    """What a footprint says of its attributes is what they hold."""
    E = ip.E
    fp = FP(ip)
    heap0 = dict(E.st.heap)
    n = FQ[E.decide(4)]
    y = E.fresh(V, 'y')
    if n == 'mandatory':
        r = run_target(ip, F + n, [fp.obj])
        E.oblige('mandatory: a list', z3.BoolVal(isinstance(ip.E.nt(r), Seq)))
        t = E.tree(r)
        E.oblige('mandatory: exactly the attributes that are not optional', inseq(t, y) == z3.And(fp.has(y), z3.Not(fp.optional(y))))
        once(ip, n, r)
    else:
        a, known = key_of(ip, fp)
        try:
            r = run_target(ip, F + n, [fp.obj, T(a)])
        except PyRaise as e:
            E.oblige('%s: an unknown attribute is an error' % n, z3.BoolVal(not known and exc_is(ip, e, 'KeyError')))
            return
        E.oblige('%s: only known attributes' % n, z3.BoolVal(known))
        if n == 'optional':
            E.oblige('optional: as declared', ip.truthy(r) == fp.optional(a))
        else:
            t = E.tree(r)
            E.oblige('%s: exactly those declared' % n, inseq(t, y) == fp.member('values' if n == 'get_values' else 'outcast', a, y))
            once(ip, n, r)
            E.oblige('%s: not the set itself' % n, z3.BoolVal(not r.path))
    frame_oblige(ip, '%s: the footprint is kept' % n, heap0, set())


@contract('Footprint: parts', 'P20', ' '.join(F + n for n in ('as_dict', 'info', 'attr', 'bind', 'only', 'priority', 'level')), ctx=FCtx)
def parts(ip):
    """Each part of the definition, and a dictionary of them all."""
    E = ip.E
    fp = FP(ip)
    heap0 = dict(E.st.heap)
    st0 = {n: ip.get_item(fp.fpd, C(n)) for n in ('info', 'attr', 'bind', 'only', 'priority')}
    if E.decide(2):
        for n, v in st0.items():
            E.oblige('%s: that part of the definition' % n, z3.BoolVal(ip.same_val(run_target(ip, F + n, [fp.obj]), v)))
        E.oblige('level: the one of the priority', ip.term(run_target(ip, F + 'level', [fp.obj])) == fp.level.t)
        frame_oblige(ip, 'parts: the footprint is kept', heap0, set())
        return
    r = run_target(ip, F + 'as_dict', [fp.obj])
    E.oblige('as_dict: another dictionary', z3.BoolVal(isinstance(r, (Obj, Ref)) and not ip.same_val(r, fp.fpd)))
    for n, v in st0.items():
        E.oblige('as_dict: %s' % n, z3.BoolVal(ip.same_val(ip.get_item(r, C(n)), v)))
    frame_oblige(ip, 'as_dict: the footprint is kept', heap0, set())


BQ = ('footprint_mandatory', 'footprint_optional', 'footprint_values', 'footprint_access', 'footprint_retrieve', 'footprint_abstract', 'footprint_reusable')


class QCtx(Ctx):
    """The footprint is known by the contracts of its queries."""
    merge = True

    def __init__(self):
        super().__init__(callees={F + 'mandatory': self.mandatory, F + 'optional': self.optional})

    def mandatory(self, ip, a, k):
        ip.used_contracts.add('Footprint.mandatory')
        ip.E.oblige('the footprint of the class', z3.BoolVal(isinstance(a[0], Obj) and a[0].cid == self.fp.obj.cid))
        return T(self.mand)

    def opaque_attr(self, ip, v, name):
        return T(getattrF(v.t, REG.s(name))) if name == 'access_mode' else None

    def optional(self, ip, a, k):
        ip.used_contracts.add('Footprint.optional')
        ip.E.oblige('the footprint of the class', z3.BoolVal(isinstance(a[0], Obj) and a[0].cid == self.fp.obj.cid))
        return B(self.fp.optional(ip.term(a[1])))


@contract('FootprintBase: class queries', 'P20', ' '.join(B_ + n for n in BQ), ctx=QCtx)
def clsqueries(ip):
    """What a class says of its attributes is what its footprint declares."""
    E = ip.E
    fp = ip.ctx.fp = FP(ip)
    ip.ctx.mand = E.fresh(V, 'mandatory')
    cls = classof(ip, fp)
    ab, ru = E.fresh(V, 'abstract'), E.fresh(V, 'reusable')
    cls.opq.attrs.update(_abstract=lambda ip2, o: T(ab), _reusable=lambda ip2, o: T(ru))
    heap0 = dict(E.st.heap)
    n = BQ[E.decide(len(BQ))]
    y = E.fresh(V, 'y')
    a = name_const(ip, 'a')
    E.assume(fp.has(a))
    r = run_target(ip, B_ + n, [cls] + ([T(a)] if n in ('footprint_optional', 'footprint_values', 'footprint_access') else []))
    if n == 'footprint_mandatory':
        E.oblige('the mandatory attributes of the footprint', ip.term(r) == ip.ctx.mand)
    elif n == 'footprint_optional':
        E.oblige('optional as in the footprint', ip.truthy(r) == fp.optional(a))
    elif n == 'footprint_values':
        t = E.tree(r)
        E.oblige('exactly the declared values', inseq(t, y) == fp.member('values', a, y))
        E.oblige('a list of its own', z3.BoolVal(isinstance(E.nt(r), Seq) and not r.path))
        once(ip, n, r)
    elif n == 'footprint_access':
        d = fp.access(a)
        isd = ip.isinst(T(d), ClsV(ip.repo.cls('access:FootprintAttrDescriptor')))
        E.oblige('the declared access mode, or the one of the declared accessor', ip.term(r) == z3.If(isd, getattrF(d, REG.s('access_mode')), d))
    elif n == 'footprint_retrieve':
        E.oblige('the footprint of the class', z3.BoolVal(isinstance(r, Obj) and r.cid == fp.obj.cid))
    elif n == 'footprint_abstract':
        E.oblige('abstract as declared', ip.term(r) == ab)
    else:
        E.oblige('reusable as declared', ip.term(r) == ru)
    frame_oblige(ip, '%s: the footprint is kept' % n, heap0, set())


declF = UF('declared_somewhere', V, BOOL)
witF = UF('declared_by', V, V)


class VCtx(Ctx):
    merge = True
    co = None

    def invariants(self, ip, fr, L):
        if self.co is None:
            return []
        x, c = z3.Const('vi_x', V), z3.Const('vi_c', V)
        out = []
        for n, r in locals_nt(ip, fr, lambda nt: isinstance(nt, (Set, Seq))):
            nt = ip.E.nt(r)
            if isinstance(nt, Seq) and nt.keycomp() is None:
                continue
            t = ip.E.tree(r)
            trig = t['mem'][x] if isinstance(nt, Set) else t['last'][x]
            inb = (lambda z: t['mem'][z]) if isinstance(nt, Set) else (lambda z: inseq(t, z))
            out.append(('%s: declared values only' % n, forall(x, z3.Implies(inb(x), declF(x)), [trig])))
            if L.kind != 'set':
                continue
            if getattr(L.dom.elem(c), 'opq', None) is self.co.opq:
                out.append(('%s: all the values of the classes met' % n, forall([c, x], z3.Implies(z3.And(L.visited(c), attrF(c, self.a), valF(c, self.a, x)), inb(x)), [valF(c, self.a, x)])))
            else:
                out.append(('%s: the values met' % n, forall(x, z3.Implies(L.visited(x), inb(x)), [trig])))
                keep = L.entry(r) if hasattr(L, 'entry') else None
                del keep
        return out


@contract('Collector.get_values', 'P20', CO + 'get_values', ctx=VCtx)
def get_values(ip):
    """The sorted union of the values that the registered classes declare for that attribute."""
    E = ip.E
    c = ip.ctx
    c.co = co = Coll(ip)
    a = c.a = name_const(ip, 'a')
    D = E.tree(co.items)['mem']
    x, k = z3.Const('gv_x', V), z3.Const('gv_c', V)
    E.assume(forall([k, x], z3.Implies(z3.And(D[k], attrF(k, a), valF(k, a, x)), declF(x)), [valF(k, a, x)]),
             forall(x, z3.Implies(declF(x), z3.And(D[witF(x)], attrF(witF(x), a), valF(witF(x), a, x), canon(x) == x)), [declF(x)]))
    heap0 = dict(E.st.heap)
    r = run_target(ip, CO + 'get_values', [co.obj, T(a)])
    y = E.fresh(V, 'y')
    E.oblige('get_values: a list', z3.BoolVal(isinstance(E.nt(r), Seq)))
    t = E.tree(r)
    E.oblige('get_values: exactly the values declared by some class', inseq(t, y) == declF(y))
    once(ip, 'get_values', r)
    frame_oblige(ip, 'get_values: nothing is modified', heap0, set())


# ---- the attribute map.  What is stored for the class c and the attribute k is an opaque value of its own (the function
# never looks inside): it tells where it comes from.
gvF = UF('values_of', V, V, V)
goF = UF('outcast_of', V, V, V)
gvC, gvK = UF('values_of_class', V, V), UF('values_of_attr', V, V)
cnF, cmF = UF('cls_name', V, V), UF('cls_module', V, V)
concatF = UF('concat', V, V, V)
allowF = UF('allowed_name', V, BOOL)


def AMAP():
    return Map(Seq(Rec({'values': Leaf('V'), 'name': Leaf('V'), 'module': Leaf('V'), 'outcast': Leaf('V')})))


def amkey(c, k):
    return canon(concatF(k, z3.If(optF(c, k), REG.s(' [optional]'), REG.s(''))))


class AM:
    """A view of an attribute map."""

    def __init__(self, ip, r, st=None):
        E = ip.E
        cur = E.st
        if st is not None:
            E.st = st
        try:
            t = E.tree(r)
        finally:
            E.st = cur
        self.t = t

    def IN(self, key, v):
        t = self.t
        return z3.And(t['has'][key], t['*.lo'][key] <= t['*.last'][key][v], t['*.last'][key][v] < t['*.hi'][key])

    def has(self, key, i):
        t = self.t
        return z3.And(t['has'][key], t['*.lo'][key] <= i, i < t['*.hi'][key])

    def at(self, n, key, i):
        return self.t['*.*.%s.v' % n][key][i]


class ACtx(Ctx):
    merge = True
    inv_ms = 3000
    co = m0 = None

    def call_bcls(self, ip, name, args, kw):
        return ip.E.new_cell(AMAP(), dict(self.m0), 'amap') if name == 'dict' and not args and not kw and self.m0 is not None else None

    def amap_of(self, ip, fr):
        rs = locals_nt(ip, fr, lambda nt: repr(nt) == repr(AMAP()))
        return rs[0][1] if len({r.cid for _, r in rs}) == 1 else None

    def old(self, key, i):
        return z3.And(self.m0['has'][key], i < self.m0['*.hi'][key])

    def row(self, m, key, i):
        """The entry i of that key describes a pair (registered class, allowed attribute of that class)."""
        v = m.at('values', key, i)
        c, k = gvC(v), gvK(v)
        return z3.And(self.D[c], attrF(c, k), allowF(k), v == gvF(c, k), key == amkey(c, k), m.at('name', key, i) == cnF(c), m.at('module', key, i) == cmF(c),
                      m.at('outcast', key, i) == goF(c, k))

    def invariants(self, ip, fr, L):
        amap = self.amap_of(ip, fr) if self.m0 is not None and L.kind in ('set', 'seq') else None
        if amap is None:
            return []
        key, i, v, c, k = z3.Const('ai_key', V), z3.Const('ai_i', INT), z3.Const('ai_v', V), z3.Const('ai_c', V), z3.Const('ai_k', V)
        m = AM(ip, amap)
        val = m.at('values', key, i)
        new = z3.And(m.has(key, i), z3.Not(self.old(key, i)))
        out = [('each row describes a pair', forall([key, i], z3.Implies(new, self.row(m, key, i)), [val])),
               ('each row once', forall([key, i], z3.Implies(new, m.t['*.last'][key][val] == i), [val])),
               ('the former rows', forall([key, i], z3.Implies(z3.And(self.m0['has'][key], self.m0['*.lo'][key] <= i, i < self.m0['*.hi'][key]),
                                                               z3.And(m.has(key, i), *[m.t[n][key][i] == self.m0[n][key][i] for n in m.t if n.startswith('*.*.')])), [val])),
               ('the former keys', forall(key, z3.Implies(self.m0['has'][key], z3.And(m.t['has'][key], m.t['*.lo'][key] == self.m0['*.lo'][key],
                                                                                    m.t['*.hi'][key] >= self.m0['*.hi'][key])), [m.t['has'][key]])),
               ('no empty key', forall(key, z3.Implies(z3.And(m.t['has'][key], z3.Not(self.m0['has'][key])), m.t['*.lo'][key] == 0), [m.t['has'][key]]))]
        vc = L.visited
        if L.kind == 'set' and getattr(L.dom.elem(c), 'opq', None) is self.co.opq:
            out.append(('the pairs of the classes met', forall([c, k], z3.Implies(z3.And(vc(c), attrF(c, k), allowF(k)), m.IN(amkey(c, k), gvF(c, k))), [gvF(c, k)])))
            out.append(('the pairs of the classes met only', forall([key, i], z3.Implies(new, vc(gvC(val))), [val])))
        else:
            cur = [x.t for x in fr.env.values() if isinstance(x, T) and x.opq is self.co.opq]
            m1 = AM(ip, amap, L.entry_st)
            out.append(('the rows at entry', forall([key, i], z3.Implies(m1.has(key, i), z3.And(m.has(key, i), *[m.t[n][key][i] == m1.t[n][key][i] for n in m.t if n.startswith('*.*.')])), [val])))
            out.append(('the pairs at entry', forall([key, v], z3.Implies(m1.IN(key, v), m.IN(key, v)), [m.t['*.last'][key][v]])))
            for n, x in enumerate(cur):
                out.append(('the attributes met %d' % n, forall(k, z3.Implies(vc(k), m.IN(amkey(x, k), gvF(x, k))), [gvF(x, k)])))
                out.append(('the attributes met only %d' % n, forall([key, i], z3.Implies(z3.And(m.has(key, i), z3.Not(m1.has(key, i))), z3.And(gvC(val) == x, vc(gvK(val)))), [val])))
        return out


def amap_fp(c):
    """The footprint of the class c, seen by its queries."""
    v = fp_view(c)
    for n, f in (('get_values', gvF), ('get_outcast', goF)):
        v.opq.attrs[n] = (lambda n2, f2: lambda ip, o: Stub(n2, lambda ip2, a, k: T(f2(c, ip2.term(a[0])))))(n, f)
    m = v.opq.attrs['attr']

    def attr(ip, o):
        t = m(ip, o)
        E = ip.E
        x = z3.Const('am_x', V)
        mem = E.fresh(z3.ArraySort(V, BOOL), 'attrs')
        E.assume(forall(x, mem[x] == attrF(c, x), [mem[x]]), forall(x, mem[x] == attrF(c, x), [attrF(c, x)]), forall(x, z3.Implies(mem[x], V.is_sv(x)), [mem[x]]))
        cell = E.new_cell(Set('name'), {'mem': mem}, 'attrs', frozen=True)
        t.opq.attrs['keys'] = lambda ip2, o2: Stub('keys', lambda ip3, a, k: cell)
        t.opq.attrs['__iter__'] = lambda ip2, o2: cell
        return t
    v.opq.attrs['attr'] = attr
    return v


@contract('Collector.build_attrmap', 'P20', CO + 'build_attrmap', ctx=ACtx, budget=200,
          assumptions=['the values and outcasts of an attribute are stored, never looked into (opaque tokens)'])
def attrmap(ip):
    """For each allowed attribute, one row per registered class that declares it, after the rows of the given map."""
    E = ip.E
    c = ip.ctx
    c.m0 = None
    cls = cls_opq(footprint_retrieve=lambda ip2, o: Stub('footprint_retrieve', lambda ip3, a, k: amap_fp(o.t)))
    cls.attrs['__name__'] = lambda ip2, o: T(cnF(o.t))
    cls.attrs['__module__'] = lambda ip2, o: T(cmF(o.t))
    c.co = co = Coll(ip, opq=cls)
    c.D = E.tree(co.items)['mem']
    x, k, key, i = z3.Const('ba_c', V), z3.Const('ba_k', V), z3.Const('ba_key', V), z3.Const('ba_i', INT)
    E.assume(forall([x, k], z3.And(gvC(gvF(x, k)) == x, gvK(gvF(x, k)) == k, canon(gvF(x, k)) == gvF(x, k)), [gvF(x, k)]))
    # the restriction
    kind = ('none', 'name', 'names', 'other')[E.decide(4)]
    if kind == 'none':
        only = C(None)
        E.assume(forall(k, allowF(k), [allowF(k)]))
    elif kind == 'name':
        only = T(name_const(ip, 'only'))
        E.assume(forall(k, allowF(k) == (k == only.t), [allowF(k)]))
    elif kind == 'names':
        only = T(E.fresh(V, 'only'), OpqCls('names', isa=('tuple',), attrs={'__contains__': lambda ip2, o, y: B(allowF(ip2.term(y)))}))
    else:
        only = T(E.fresh(V, 'only'), OpqCls('not a container', isa=('NotAContainer',), attrs={}))
        E.assume(forall([x, k], z3.Implies(attrF(x, k), allowF(k) == eq(k, only.t)), [attrF(x, k)]))
    if kind in ('names', 'other'):
        E.assume(V.is_rv(only.t), only.t != NONE)
    kw = {'only': only}
    nt = AMAP()
    c.m0 = fresh_tree(nt, E.fresh_name('given'))
    given = None
    if kind in ('name', 'other') or kind == 'none' and not E.decide(2):       # (the two arguments do not interact)
        E.assume(forall(key, z3.Not(c.m0['has'][key]), [c.m0['has'][key]]))
    else:
        E.assume(forall(key, z3.And(0 <= c.m0['*.lo'][key], c.m0['*.lo'][key] <= c.m0['*.hi'][key]), [c.m0['*.hi'][key]]))
        given = kw['attrmap'] = E.new_cell(nt, c.m0, 'given')
    heap0 = dict(E.st.heap)
    r = run_target(ip, CO + 'build_attrmap', [co.obj], kw)
    E.oblige('attrmap: the given map, or a new one', z3.BoolVal(isinstance(r, Ref) and (given is None or r.cid == given.cid)))
    m = AM(ip, r)
    y, z = E.fresh(V, 'cls'), E.fresh(V, 'attr')
    E.oblige('attrmap: a row for each attribute of each class', z3.Implies(z3.And(c.D[y], attrF(y, z), allowF(z)), m.IN(amkey(y, z), gvF(y, z))))
    ky, iy = E.fresh(V, 'key'), E.fresh(INT, 'i')
    new = z3.And(m.has(ky, iy), z3.Not(c.old(ky, iy)))
    E.oblige('attrmap: each row describes an allowed attribute of a registered class', z3.Implies(new, c.row(m, ky, iy)))
    E.oblige('attrmap: each row once', z3.Implies(new, m.t['*.last'][ky][m.at('values', ky, iy)] == iy))
    E.oblige('attrmap: the former rows stay', z3.Implies(z3.And(c.m0['has'][ky], c.m0['*.lo'][ky] <= iy, iy < c.m0['*.hi'][ky]),
                                                         z3.And(m.has(ky, iy), *[m.t[n][ky][iy] == c.m0[n][ky][iy] for n in m.t if n.startswith('*.*.')])))
    frame_oblige(ip, 'attrmap: nothing else is modified', heap0, {given.cid} if given is not None else set())
