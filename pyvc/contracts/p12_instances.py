"""Collector.default, grep, newobsitem, delobsitem; FootprintBase.footprint_compatible, footprint_reusable (P12)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
import lib
from contracts.p02_firstguess import mkdesc
from contracts.p06_fasttrack import locals_nt

CO = 'collectors:Collector.'
F = '__init__:Footprint.'
B_ = '__init__:FootprintBase.'
reuseF = UF('reusable', V, BOOL)
compF = UF('compatible', V, BOOL)
okF = UF('has_the_attribute_value', V, V, BOOL)
matchF = UF('matches_the_request', V, BOOL)
witF = UF('missed_attribute', V, V)


def inseq(t, x):
    return z3.And(t['lo'] <= t['last'][x], t['last'][x] < t['hi'])


class ICtx(Ctx):
    merge = True
    rd = None

    def __init__(self):
        super().__init__(callees={CO + 'load': self.load, CO + 'instances': None})

    def load(self, ip, args, kw):
        """Contract of load, with the request as keywords."""
        ip.used_contracts.add('Collector.load')
        r = kw.get('**')
        ip.E.oblige('load is asked for the request', z3.And(z3.BoolVal(isinstance(r, Ref)), same_map(ip.E.tree(r), self.dt)))
        ip.set_item(self.g, C('loaded'), C(True))
        return T(self.loaded)

    def compatible(self, ip, o):
        def f(ip2, a, k):
            ip2.used_contracts.add('FootprintBase.footprint_compatible')
            ip2.E.oblige('compatibility with the request', z3.And(z3.BoolVal(isinstance(a[0], Ref)), same_map(ip2.E.tree(a[0]), self.dt)))
            return B(compF(o.t))
        return Stub('footprint_compatible', f)

    def instances(self, ip):
        """The catalog of the alive instances: iterated over, or called."""
        E = ip.E
        inst = OpqCls('footprint object', attrs={'footprint_reusable': lambda ip2, o: Stub('footprint_reusable', lambda ip3, a, k: B(reuseF(o.t))), 'footprint_compatible': self.compatible},
                      truthy=lambda ip2, o: E.fresh(BOOL, 'truth'))
        self.inst = inst
        nt = Set('obj')
        nt.kopq = inst
        m = fresh_tree(nt, E.fresh_name('instances'))
        self.D = m['mem']
        x = z3.Const('in_x', V)
        E.assume(forall(x, z3.Implies(self.D[x], V.is_rv(x)), [self.D[x]]))
        cell = E.new_cell(nt, m, 'instances', frozen=True)
        return T(E.fresh(V, 'catalog'), OpqCls('catalog', attrs={'__iter__': lambda ip2, o: cell, 'items': lambda ip2, o: Stub('items', lambda ip3, a, k: cell)}, call=lambda ip2, o, a, k: cell))

    def opaque_attr(self, ip, v, name):
        return None

    def invariants(self, ip, fr, L):
        if self.rd is None:
            return []
        x = z3.Const('ii_x', V)
        out = []
        if L.kind == 'set' and getattr(L.dom.elem(x), 'opq', None) is self.inst:
            vis = L.visited(x)
            out.append(('no instance met fits', forall(x, z3.Implies(vis, z3.Not(z3.And(reuseF(x), compF(x)))), [vis])))
            for n, r in locals_nt(ip, fr, lambda nt: isinstance(nt, (Seq, Set))):
                t = ip.E.tree(r)
                if 'last' in t and ip.E.nt(r).keycomp() is None:
                    continue
                inb = inseq(t, x) if 'last' in t else t['mem'][x]
                out.append(('%s: the instances met that match' % n, forall(x, inb == z3.And(vis, matchF(x)), [t['last'][x] if 'last' in t else t['mem'][x]])))
                out.append(('%s: all the instances met that match' % n, forall(x, z3.Implies(z3.And(vis, matchF(x)), inb), [vis])))
        else:
            for n, v in fr.env.items():
                if isinstance(v, T) and v.opq is self.inst:
                    vis = L.visited(x)
                    out.append(('%s has the attributes met' % n, forall(x, z3.Implies(vis, okF(v.t, x)), [okF(v.t, x)])))
        return out


def setup(ip):
    E = ip.E
    c = ip.ctx
    inst = c.instances(ip)
    co = E.new_obj(ip.repo.cls('collectors:Collector'), {'instances': inst, 'tag': T(E.fresh(V, 'tag'))}, 'collector')
    c.dnt = Map(Leaf('V'), key='name')
    nt = Map(Leaf('V'), key='name')
    t = fresh_tree(nt, E.fresh_name('ghost'))
    c.g = E.new_cell(nt, t, 'ghost')
    E.assume(z3.Not(t['has'][REG.s('loaded')]))
    rd, c.dt = mkdesc(ip)
    c.loaded = E.fresh(V, 'loaded')
    c.rd = rd
    return co, rd


@contract('Collector.default', 'P12', CO + 'default', ctx=ICtx)
def default(ip):
    """An alive instance, reusable and compatible with the request; what loading it gives when there is none."""
    E = ip.E
    c = ip.ctx
    co, rd = setup(ip)
    heap0 = dict(E.st.heap)
    r = run_target(ip, CO + 'default', [co], {'**': rd})
    t = ip.term(r)
    x = z3.Const('df_x', V)
    fits = lambda o: z3.And(c.D[o], reuseF(o), compF(o))
    loaded = E.tree(c.g)['has'][REG.s('loaded')]
    E.oblige('an alive instance that is reusable and compatible, or what is loaded', z3.If(loaded, t == c.loaded, fits(t)))
    E.oblige('loaded only when no instance fits', z3.Implies(loaded, forall(x, z3.Not(fits(x)), [c.D[x]])))
    frame_oblige(ip, 'default: nothing is modified', heap0, {c.g.cid})


def grep_rules(c):
    o, k = z3.Const('gr_o', V), z3.Const('gr_k', V)
    d = c.dt
    return [forall([o, k], okF(o, k) == z3.And(hasattrF(o, k), eq(getattrF(o, k), d['*.v'][k])), [okF(o, k)]),
            forall([o, k], z3.Implies(z3.And(matchF(o), d['has'][k]), okF(o, k)), [MP(matchF(o), d['has'][k])]),
            forall([o, k], z3.Implies(z3.And(matchF(o), d['has'][k]), okF(o, k)), [okF(o, k)]),
            forall(o, z3.Or(matchF(o), z3.And(d['has'][witF(o)], z3.Not(okF(o, witF(o))))), [matchF(o)])]


@contract('Collector.grep', 'P12', CO + 'grep', ctx=ICtx, assumptions=['reading the attributes of an instance and comparing values is deterministic'])
def grep(ip):
    """Exactly the alive instances that have all the given attributes with equal values, each once."""
    E = ip.E
    c = ip.ctx
    co, rd = setup(ip)
    E.assume(*grep_rules(c))
    x = z3.Const('gp_x', V)
    heap0 = dict(E.st.heap)
    r = run_target(ip, CO + 'grep', [co], {'**': rd})
    t = E.tree(r)
    y = E.fresh(V, 'inst')
    if E.st.heap[r.cid].virgin:
        E.oblige('nothing is found only when nothing matches', z3.Not(z3.And(c.D[y], matchF(y))))
        return
    E.oblige('what is found is alive and matches', z3.Implies(inseq(t, y), z3.And(c.D[y], matchF(y))))
    E.oblige('all that match are found', z3.Implies(z3.And(c.D[y], matchF(y)), inseq(t, y)))
    i = z3.Const('gp_i', INT)
    k = t[E.nt(r).keycomp()]
    E.oblige('each once', forall(i, z3.Implies(z3.And(t['lo'] <= i, i < t['hi']), t['last'][k[i]] == i), [k[i]]))
    frame_oblige(ip, 'grep: nothing is modified', heap0, set())


class OCtx(Ctx):
    pass


@contract('Collector: instances', 'P12', CO + 'newobsitem ' + CO + 'delobsitem', ctx=OCtx, assumptions=['the weak catalog holds exactly the objects added, not discarded and alive (bronx)'])
def instances(ip):
    """A notified creation adds that object, and only it, to the instances; a notified removal removes it, and only it."""
    E = ip.E
    nt = Set('obj')
    m = fresh_tree(nt, E.fresh_name('instances'))
    cell = E.new_cell(nt, m, 'instances')
    co = E.new_obj(ip.repo.cls('collectors:Collector'), {'instances': cell}, 'collector')
    heap0 = dict(E.st.heap)
    o = E.fresh(V, 'obj')
    E.assume(V.is_rv(o))
    n = ('newobsitem', 'delobsitem')[E.decide(2)]
    run_target(ip, CO + n, [co, T(o), T(E.fresh(V, 'info'))])
    E.oblige('%s: that object, and only it' % n, E.tree(cell)['mem'] == z3.Store(m['mem'], o, z3.BoolVal(n == 'newobsitem')))
    frame_oblige(ip, '%s: nothing else is modified' % n, heap0, {cell.cid})


class KCtx(Ctx):
    merge = True
    fp = None

    def __init__(self):
        super().__init__(callees={F + 'resolve': self.resolve})

    def glob(self, ip, name, module):
        if name == 'setup':
            return T(REG.o('setup'), ANY)
        return None

    def resolve(self, ip, args, kw):
        """Contract of Footprint.resolve, not in fatal mode."""
        E = ip.E
        ip.used_contracts.add('Footprint.resolve')
        E.oblige('resolve needs: no fatal error', z3.BoolVal(isinstance(kw.get('fatal'), C) and kw['fatal'].py is False))
        E.oblige('resolve needs: the description and the footprint', z3.BoolVal(isinstance(args[0], Obj) and args[0].cid == self.fp.obj.cid and isinstance(args[1], Ref) and args[1].cid == self.rd.cid))
        if E.decide(2):
            raise PyRaise(ClsV(ip.repo.cls('__init__:FootprintException')), None, 'resolve')
        return Tup([self.res, T(E.fresh(V, 'inputs')), T(E.fresh(V, 'seen'))])

    def invariants(self, ip, fr, L):
        if self.fp is None or L.kind not in ('set', 'seq'):
            return []
        x = z3.Const('ki_x', V)
        return [('the attributes met are equal', forall(x, z3.Implies(z3.And(self.fp.has(x), L.visited(x)), self.same(x)), [self.fp.has(x)])),
                ('the attributes met are equal (2)', forall(x, z3.Implies(z3.And(self.rt['has'][x], L.visited(x)), self.same(x)), [self.rt['has'][x]]))]

    def same(self, k):
        return z3.And(self.at['has'][k], eq(self.at['*.v'][k], self.rt['*.v'][k]))


@contract('FootprintBase.footprint_compatible', 'P12', B_ + 'footprint_compatible ' + B_ + 'footprint_reusable', ctx=KCtx)
def compatible(ip):
    """The request resolves completely, and each resolved value equals the actual value of the attribute."""
    E = ip.E
    c = ip.ctx
    c.fp = FP(ip)
    c.rd, dt = mkdesc(ip)
    nt = Map(Leaf('V'), key='name')
    c.rt = fresh_tree(nt, E.fresh_name('resolved'))
    c.at = fresh_tree(nt, E.fresh_name('attributes'))
    k = z3.Const('cm_k', V)
    E.assume(forall(k, c.rt['has'][k] == c.fp.has(k), [c.rt['has'][k]]), forall(k, c.rt['has'][k] == c.fp.has(k), [c.fp.has(k)]))
    c.res = E.new_cell(nt, c.rt, 'resolved')
    at = E.new_cell(nt, c.at, 'attributes')
    reuse = E.fresh(BOOL, 'reusable')
    o = T(E.fresh(V, 'obj'), OpqCls('footprint object', attrs={'footprint': lambda ip2, v: c.fp.obj, '_footprint': lambda ip2, v: c.fp.obj, '_attributes': lambda ip2, v: at, '_reusable': lambda ip2, v: B(reuse)}))
    heap0 = dict(E.st.heap)
    if E.decide(2):
        r = run_target(ip, B_ + 'footprint_reusable', [o])
        E.oblige('reusable: as declared', ip.truthy(r) == reuse)
        return
    try:
        r = run_target(ip, B_ + 'footprint_compatible', [o, c.rd])
    except PyRaise as e:
        E.oblige('only what the resolution raises', z3.BoolVal(e.origin == 'resolve'))
        return
    complete = forall(k, z3.Implies(c.fp.has(k), c.rt['*.v'][k] != NONE))
    some = z3.Exists([k], c.fp.has(k))
    b = ip.truthy(r)
    y = E.fresh(V, 'attr')
    E.oblige('compatible: complete, at least one attribute', z3.Implies(b, z3.And(complete, some)))
    E.oblige('compatible: every value is equal', z3.Implies(z3.And(b, c.fp.has(y)), c.same(y)))
    E.oblige('incompatible: incomplete, or some value differs', z3.Implies(z3.Not(b), z3.Or(z3.Not(complete), z3.Not(some), z3.Exists([k], z3.And(c.fp.has(k), z3.Not(c.same(k)))))))
    frame_oblige(ip, 'compatible: nothing is modified', heap0, set())
