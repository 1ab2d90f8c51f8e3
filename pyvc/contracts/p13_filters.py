"""Filters and discards of a collector, reset of the levels (P13)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from contracts._coll import Coll, cls_opq, clsset, nameF, plF, fp_view
from contracts.p06_fasttrack import locals_nt

CO = 'collectors:Collector.'
startsF = UF('str_startswith', V, V, BOOL)
flagF = UF('flag_value', V, V, V)


def inseq(t, x):
    return z3.And(t['lo'] <= t['last'][x], t['last'][x] < t['hi'])


class XCtx(Ctx):
    merge = True
    inv_ms = 800
    co = None
    matches = None

    def __init__(self):
        super().__init__(callees={CO + 'discard': self.discard})

    def glob(self, ip, name, module):
        if name == 'priorities':
            def level(ip2, a, k):
                ip2.E.oblige('the level of that tag', ip2.term(a[0]) == self.tag)
                return I(self.lev)
            return T(REG.o('priorities'), OpqCls('priorities', attrs={'top': lambda ip2, o: T(REG.o('priorities.top'), OpqCls('levels', attrs={'level': lambda ip3, o3: Stub('level', level)}))}))
        return None

    def discard(self, ip, args, kw):
        """Contract of Collector.discard: that class leaves, the others stay."""
        E = ip.E
        ip.used_contracts.add('Collector.discard')
        t = ip.term(args[1])
        m = E.tree(self.co.items)['mem']
        E.put(self.co.items, {'mem': z3.Store(m, t, z3.BoolVal(False))})
        return C(None)

    def invariants(self, ip, fr, L):
        if self.co is None:
            return []
        x = z3.Const('xi_x', V)
        m = ip.E.tree(self.co.items)['mem']
        out = []
        if L.kind in ('seq', 'set'):
            try:
                vis = L.visited(x)
            except Exception:
                return []
            out.append(('the classes met leave, the others stay', forall(x, m[x] == z3.And(self.D[x], z3.Not(vis)), [m[x]])))
            if self.prio is not None:
                p = ip.E.tree(self.prio)['*.level.v']
                out.append(('the classes met have the level, the others keep theirs', forall(x, p[x] == z3.If(vis, self.levV, self.lev0[x]), [p[x]])))
        return out
    prio = None


def world(ip):
    E = ip.E
    c = ip.ctx
    nt = Map(Rec({'level': Leaf('V')}), key='obj')
    t = fresh_tree(nt, E.fresh_name('priorities'))
    x = z3.Const('wo_x', V)
    E.assume(forall(x, t['has'][x], [t['has'][x]]), forall(x, t['has'][x], [t['*.level.v'][x]]))
    c.prio = E.new_cell(nt, t, 'priorities')
    c.lev0 = t['*.level.v']

    def fp(ip2, o):
        return T(UF('fp_of', V, V)(o.t), OpqCls('footprint', attrs={'priority': lambda ip3, f: Ref(c.prio.cid, (('k', o.t),))}))

    cls = cls_opq(footprint_retrieve=lambda ip2, o: Stub('footprint_retrieve', lambda ip3, a, k: fp(ip3, o)))
    cls.attrs['fullname'] = lambda ip2, o: Stub('fullname', lambda ip3, a, k: T(name_str(ip3, o)))
    # a flag method is a deterministic method without effect
    def dyn(ip2, o, n):
        if not ip2.E.choose(hasattrF(o.t, ip2.term(n))):
            raise PyRaise(BCls('AttributeError'), origin='getattr')
        return Stub('flag', lambda ip3, a, k: T(flagF(o.t, ip3.term(n))))
    cls.attrs['__getattr_dyn__'] = dyn
    c.co = co = Coll(ip, opq=cls)
    c.D = E.tree(co.items)['mem']
    c.tag = E.fresh(V, 'level_tag')
    c.lev = E.fresh(INT, 'level')
    c.levV = V.iv(c.lev)
    return co


def name_str(ip, o):
    n = nameF(o.t)
    ip.E.assume(V.is_sv(n))
    return n


CASES = ('package', 'onflag', 'higher_level', 'lower_level')


def case(ip, n):
    """(arguments, the classes that match)"""
    E, c = ip.E, ip.ctx
    if n == 'package':
        p = E.fresh(V, 'packname')
        E.assume(V.is_sv(p))
        return [T(p)], lambda x: startsF(nameF(x), p)
    if n == 'onflag':
        f, d = E.fresh(V, 'flagmethod'), E.fresh(V, 'default')
        E.assume(V.is_sv(f))
        return [T(f), T(d)], lambda x: z3.And(hasattrF(x, f), eq(flagF(x, f), d))
    if n == 'higher_level':
        return [T(c.tag)], lambda x: plF(x) >= c.lev
    return [T(c.tag)], lambda x: plF(x) < c.lev


def found_obliges(ip, n, r, match):
    E, c = ip.E, ip.ctx
    if E.st.heap[r.cid].virgin:
        raise Unsupported('nothing found')
    t = E.tree(r)
    y = E.fresh(V, 'cls')
    i = z3.Const('fo_i', INT)
    k = t[E.nt(r).keycomp()]
    E.oblige('%s: what is found is registered and matches' % n, z3.Implies(inseq(t, y), z3.And(c.D[y], match(y))))
    E.oblige('%s: all the matching classes are found' % n, z3.Implies(z3.And(c.D[y], match(y)), inseq(t, y)))
    E.oblige('%s: each once' % n, forall(i, z3.Implies(z3.And(t['lo'] <= i, i < t['hi']), t['last'][k[i]] == i), [k[i]]))


@contract('Collector filters', 'P13', ' '.join(CO + 'filter_' + n for n in CASES), ctx=XCtx, assumptions=['the flag methods of the classes are deterministic, without effect, and do not fail'])
def filters(ip):
    """Exactly the matching registered classes."""
    E = ip.E
    co = world(ip)
    n = ('package', 'onflag', 'higher_level', 'lower_level')[E.decide(4)]
    args, match = case(ip, n)
    heap0 = dict(E.st.heap)
    r = run_target(ip, CO + 'filter_' + n, [co.obj] + args)
    found_obliges(ip, 'filter_' + n, r, match)
    frame_oblige(ip, 'filter_%s: nothing is modified' % n, heap0, set())


@contract('Collector discards', 'P13 P06', ' '.join(CO + 'discard_' + n for n in CASES), ctx=XCtx)
def discards(ip):
    """Exactly the matching classes leave the collector."""
    E = ip.E
    co = world(ip)
    n = ('package', 'onflag', 'higher_level', 'lower_level')[E.decide(4)]
    args, match = case(ip, n)
    heap0 = dict(E.st.heap)
    kw = {'verbose': B(E.fresh(BOOL, 'verbose'))} if E.decide(2) else {}
    run_target(ip, CO + 'discard_' + n, [co.obj] + args, kw)
    y = E.fresh(V, 'cls')
    m = E.tree(co.items)['mem']
    E.oblige('discard_%s: the matching classes leave, the others stay' % n, m[y] == z3.And(ip.ctx.D[y], z3.Not(match(y))))
    frame_oblige(ip, 'discard_%s: nothing else is modified' % n, heap0, {co.items.cid})


@contract('Collector.reset_package_level', 'P13', CO + 'reset_package_level', ctx=XCtx)
def reset(ip):
    """The classes of the package get that level, the others keep theirs, and all stay registered."""
    E = ip.E
    c = ip.ctx
    co = world(ip)
    args, match = case(ip, 'package')
    heap0 = dict(E.st.heap)
    run_target(ip, CO + 'reset_package_level', [co.obj] + args + [T(c.tag)])
    y = E.fresh(V, 'cls')
    p = E.tree(c.prio)['*.level.v']
    E.oblige('the classes of the package, and only they, get the level', p[y] == z3.If(z3.And(c.D[y], match(y)), c.levV, c.lev0[y]))
    frame_oblige(ip, 'reset: nothing else is modified', heap0, {c.prio.cid})
