"""Collector._fasttrack_subsetting, the tables of the fast track (P06)."""
from contracts._coll import *     # noqa
from contracts._coll import V, NONE, BOOL, INT
from lib import fhas
from core import Cell

eligF = UF('eligible', V, BOOL)          # the class is eligible for the description of the search (contract of footprint_couldbe)


def locals_nt(ip, fr, ok):
    out = []
    for n, v in fr.env.items():
        if isinstance(v, Ref):
            try:
                nt = ip.E.nt(v)
            except (KeyError, AssertionError):
                continue
            if ok(nt):
                out.append((n, v))
    return out


class SCtx(Ctx):
    coll = None
    D = None

    def invariants(self, ip, fr, L):
        if self.coll is None:
            return []
        out = []
        for n, r in locals_nt(ip, fr, lambda nt: isinstance(nt, Set) and nt.key == 'obj'):
            out += [('%s holds every eligible class' % n, f) for f in self.covers(ip.E.tree(r)['mem'])]
            out += [('%s holds registered classes only' % n, f) for f in self.within(ip.E.tree(r)['mem'])]
        for n, r in locals_nt(ip, fr, lambda nt: isinstance(nt, Seq) and isinstance(nt.elem, Set)):
            tr = ip.E.tree(r)
            i, c = z3.Const('sc_i', INT), z3.Const('sc_c', V)
            g = tr['*.mem']
            rng = z3.And(tr['lo'] <= i, i < tr['hi'])
            out.append(('%s: each group holds every eligible class' % n, forall([i, c], z3.Implies(z3.And(rng, self.D(c), eligF(c)), g[i][c]), [g[i][c]])))
            out.append(('%s: each group holds registered classes only' % n, forall([i, c], z3.Implies(z3.And(rng, g[i][c]), self.D(c)), [g[i][c]])))
        return out

    def covers(self, m):
        c = z3.Const('sc_c', V)
        return [forall(c, z3.Implies(z3.And(self.D(c), eligF(c)), m[c]), [m[c]])]

    def within(self, m):
        c = z3.Const('sc_c', V)
        return [forall(c, z3.Implies(m[c], self.D(c)), [m[c]])]


@contract('Collector._fasttrack_subsetting', 'P06 P05', CO + '_fasttrack_subsetting', ctx=SCtx, budget=60,
          assumptions=['eligibility (lemma over the contract of resolve): an eligible class whose mandatory attribute has authorised values and no remap accepts the value given '
                       'under its name, directly or once converted',
                       'declared types: a value equal to an authorised value is converted to an equal value'])
def subsetting(ip):
    """The subset holds registered classes only, and all the eligible ones."""
    E = ip.E
    x = ip.ctx
    co = x.coll = Coll(ip)
    D0 = co.tree('_items')['mem']
    x.D = lambda c: D0[c]
    tb = tables(co)
    for _, f in inv(tb, x.D):
        E.assume(f)
    nt = Map(Leaf('V'), key='name')
    dt = fresh_tree(nt, E.fresh_name('desc'))
    desc = E.new_cell(nt, dt, 'desc', frozen=True)
    a, c, c2 = z3.Const('el_a', V), z3.Const('el_c', V), z3.Const('el_c2', V)
    E.assume(forall(a, z3.Implies(dt['has'][a], V.is_sv(a)), [dt['has'][a]]))
    v = dt['*.v'][a]
    brackets = z3.And(is_str(v), fhas(v, REG.s('[')))
    cv, ce = convF(ctype(c, a), v, cargs(c, a)), convE(ctype(c, a), v, cargs(c, a))
    applies = z3.And(D0[c], eligF(c), mandF(c, a), hasvalsF(c, a), z3.Not(remapF(c, a)), dt['has'][a], z3.Not(brackets))
    E.assume(forall([c, a], z3.Implies(applies, z3.Or(valF(c, a, canon(v)), z3.And(ce == 0, valF(c, a, canon(cv))))), MP(eligF(c), v)),
             # declared types
             forall([c, a], z3.Implies(z3.And(authT(ctype(c, a), canon(cargs(c, a)), canon(v)), ce == 0), canon(cv) == canon(v)), MP(eligF(c), v)),
             forall([c, a], z3.Implies(eq(tb.aargs[a], cargs(c, a)), z3.And(convF(ctype(c, a), v, tb.aargs[a]) == cv, convE(ctype(c, a), v, tb.aargs[a]) == ce)), MP(eligF(c), v)))
    r = run_target(ip, CO + '_fasttrack_subsetting', [co.obj, desc])
    m = E.tree(r)['mem']
    E.oblige('every eligible class is in the subset', x.covers(m)[0])
    E.oblige('the subset holds registered classes only', x.within(m)[0])
    co.frame('subsetting', [])
    E.oblige('the tables are kept', z3.And([co.tree(n)[k] == t for n in ('_items', '_fasttrack_attr', '_fasttrack_trap') for k, t in E.tree(co.field(n)).items()]))


def upd_rel(t0, t1, c0):
    """What adding the class c0 to the tables t0 gives (t1)."""
    a, c, v = z3.Const('ur_a', V), z3.Const('ur_c', V), z3.Const('ur_v', V)
    on = t1.attr[a]
    pl = placed(t1, lambda c2, a2: z3.And(c2 == c0, t1.attr[a2]))
    return [('no attribute is added', forall(a, z3.Implies(on, t0.attr[a]), [t1.attr[a]])),
            ('the traps grow', forall([a, c], z3.Implies(z3.And(on, t0.tmem[a][c]), t1.tmem[a][c]), [t1.tmem[a][c]])),
            ('the traps gain the class only', forall([a, c], z3.Implies(z3.And(on, t1.tmem[a][c]), z3.Or(t0.tmem[a][c], c == c0)), [t1.tmem[a][c]])),
            ('the indexed values grow', forall([a, v], z3.Implies(z3.And(on, t0.khas[a][v]), t1.khas[a][v]), [t1.khas[a][v]])),
            ('the index grows', forall([a, c, v], z3.Implies(z3.And(on, t0.khas[a][v], t0.imem[a][v][c]), t1.imem[a][v][c]), [t1.imem[a][v][c]])),
            ('the index gains the class only', forall([a, c, v], z3.Implies(z3.And(on, t1.khas[a][v], t1.imem[a][v][c]), z3.Or(z3.And(t0.khas[a][v], t0.imem[a][v][c]), c == c0)), [t1.imem[a][v][c]])),
            ('typed attributes stay', forall(a, z3.Implies(z3.And(on, t0.ytype[a] != NONE), z3.And(t1.ytype[a] == t0.ytype[a], t1.aargs[a] == t0.aargs[a])), [t1.ytype[a]])),
            ('the class is found: trap or index', pl[0]), ('the class is found: indexed under all its values', pl[1])] + inv0(t1)


class UCtx(Ctx):
    """Loops that update the tables."""
    co = t0 = cls = D0 = None
    inv_ms = 3000

    def invariants(self, ip, fr, L):
        if self.co is None:
            return []
        try:
            tb = tables(self.co)
            te = tables_at(self.co, L.entry_st)
        except Exception:
            return []
        t0, c0 = self.t0, self.cls
        a, c, v = z3.Const('uc_a', V), z3.Const('uc_c', V), z3.Const('uc_v', V)
        out = []
        out += inv0(tb) + inv(tb, self.D0, not_only=True)
        out += [(n + ' (since the start)', f) for n, f in upd_rel(t0, tb, c0) if 'grow' in n or 'gain' in n or 'no attr' in n]
        out.append(('the attributes are kept', forall(a, tb.attr[a] == te.attr[a], [tb.attr[a]])))
        out.append(('typed attributes stay', forall(a, z3.Implies(z3.And(t0.attr[a], t0.ytype[a] != NONE), z3.And(tb.ytype[a] == t0.ytype[a], tb.aargs[a] == t0.aargs[a])), [tb.ytype[a]])))
        errs = [ip.E.tree(r)['mem'] for n, r in locals_nt(ip, fr, lambda nt: isinstance(nt, Set) and nt.key != 'obj') if not ip.E.st.heap[r.cid].frozen]
        if L.kind == 'set' and getattr(L.dom, 'src', None) and getattr(ip.E.nt(L.dom.src[0]), 'key', '') == 'name':
            vis = L.vis
            out.append(('unvisited attributes are as they were', forall(a, z3.Implies(z3.And(te.attr[a], z3.Not(vis[a])), same_at(tb, te, a)), [vis[a]])))
            for n, e in enumerate(errs):
                out.append(('marked attributes were visited %d' % n, forall(a, z3.Implies(e[a], z3.And(vis[a], te.attr[a])), [e[a]])))
                for j, f in enumerate(placed(tb, lambda c2, a2: z3.And(c2 == c0, te.attr[a2], vis[a2], z3.Not(e[a2])))):
                    out.append(('the class is placed unless marked %d %d' % (n, j), f))
                out.append(('marked attributes only are removed %d' % n, forall(a, tb.attr[a] == z3.And(te.attr[a], z3.Not(z3.And(vis[a], e[a]))), [tb.attr[a]])))
                out.append(('other attributes are as they were %d' % n, forall(a, z3.Implies(z3.Not(e[a]), same_at(tb, te, a)), [e[a]])))
        elif L.kind == 'set':
            vis = L.vis
            for n, w in fr.env.items():
                if isinstance(w, T) and w.opq is None:
                    k = ip.term(w)
                    out.append(('other attributes than %s' % n, forall(a, z3.Implies(a != k, same_at(tb, te, a)), [tb.attr[a]])))
                    out.append(('%s: kept' % n, z3.And(tb.ytype[k] == te.ytype[k], tb.aargs[k] == te.aargs[k], tb.tmem[k] == te.tmem[k], tb.ihas[k] == te.ihas[k])))
                    out.append(('%s: the index grows' % n, forall([v, c], z3.Implies(z3.And(te.khas[k][v], te.imem[k][v][c]), z3.And(tb.khas[k][v], tb.imem[k][v][c])), [tb.imem[k][v][c]])))
                    out.append(('%s: the keys grow' % n, forall(v, z3.Implies(te.khas[k][v], tb.khas[k][v]), [tb.khas[k][v]])))
                    out.append(('%s: indexed values are authorised' % n, forall(v, z3.Implies(tb.khas[k][v], z3.Or(te.khas[k][v], valF(c0, k, v))), [tb.khas[k][v]])))
                    out.append(('%s: the class is the only one added' % n, forall([v, c], z3.Implies(z3.And(tb.khas[k][v], tb.imem[k][v][c]), z3.Or(z3.And(te.khas[k][v], te.imem[k][v][c]), c == c0)), [tb.imem[k][v][c]])))
                    out.append(('%s: the visited values are indexed' % n, forall(v, z3.Implies(vis[v], z3.And(tb.khas[k][v], tb.imem[k][v][c0])), [vis[v]])))
        return out


def tables_setup(ip, D0):
    x = ip.ctx
    co = x.co = Coll(ip)
    x.D0 = D0
    x.t0 = tables(co)
    for _, f in inv(x.t0, D0):
        ip.E.assume(f)
    a, c = z3.Const('ts_a', V), z3.Const('ts_c', V)
    ip.E.assume(forall([c, a], typeF(c, a) != NONE, [typeF(c, a)]))
    return co


TABLES = ['_fasttrack_attr', '_fasttrack_index', '_fasttrack_type', '_fasttrack_typeargs', '_fasttrack_trap']


@contract('Collector._upd_fasttrack_index', 'P06', CO + '_upd_fasttrack_index', ctx=UCtx, budget=90)
def upd_index(ip):
    """A class added to the tables is found through all of them; those of the other classes are kept."""
    E = ip.E
    x = ip.ctx
    D = UF('registered', V, BOOL)
    D0 = lambda c: D(c)
    co = tables_setup(ip, D0)
    x.cls = E.fresh(V, 'cls')
    E.assume(V.is_rv(x.cls))
    run_target(ip, CO + '_upd_fasttrack_index', [co.obj, T(x.cls, co.opq)])
    t1 = tables(co)
    for nm, f in upd_rel(x.t0, t1, x.cls) + inv(t1, lambda c: z3.Or(D(c), c == x.cls)):
        E.oblige('update: ' + nm, f)
    co.frame('update', TABLES)


def del_rel(t0, t1, c0):
    """What removing the class c0 from the tables t0 gives (t1)."""
    a, c, v = z3.Const('dr_a', V), z3.Const('dr_c', V), z3.Const('dr_v', V)
    return [('tables kept', z3.And(t1.attr == t0.attr, t1.ihas == t0.ihas, t1.khas == t0.khas, t1.thas == t0.thas, t1.yhas == t0.yhas, t1.ytype == t0.ytype, t1.ahas == t0.ahas, t1.aargs == t0.aargs)),
            ('the index of the other classes is kept', forall([a, v, c], z3.Implies(c != c0, t1.imem[a][v][c] == t0.imem[a][v][c]), [t1.imem[a][v][c]])),
            ('the traps of the other classes are kept', forall([a, c], z3.Implies(c != c0, t1.tmem[a][c] == t0.tmem[a][c]), [t1.tmem[a][c]])),
            ('gone from the index', forall([a, v], z3.Implies(z3.And(t1.ihas[a], t1.khas[a][v]), z3.Not(t1.imem[a][v][c0])), [t1.imem[a][v][c0]])),
            ('gone from the traps', forall(a, z3.Implies(t1.thas[a], z3.Not(t1.tmem[a][c0])), [t1.tmem[a][c0]]))]


class DCtx(Ctx):
    """Loops that remove a class from the tables."""
    co = cls = None
    inv_ms = 3000

    def invariants(self, ip, fr, L):
        if self.co is None or L.kind != 'set':
            return []
        try:
            tb = tables(self.co)
            te = tables_at(self.co, L.entry_st)
        except Exception:
            return []
        c0, t0, vis = self.cls, self.t0, L.vis
        a, c, v = z3.Const('dc_a', V), z3.Const('dc_c', V), z3.Const('dc_v', V)
        out = [('tables kept', z3.And(tb.attr == t0.attr, tb.ihas == t0.ihas, tb.khas == t0.khas, tb.thas == t0.thas, tb.yhas == t0.yhas, tb.ytype == t0.ytype, tb.ahas == t0.ahas, tb.aargs == t0.aargs)),
               ('the index of the other classes is kept', forall([a, v, c], z3.Implies(c != c0, tb.imem[a][v][c] == te.imem[a][v][c]), [tb.imem[a][v][c]])),
               ('the traps of the other classes are kept', forall([a, c], z3.Implies(c != c0, tb.tmem[a][c] == te.tmem[a][c]), [tb.tmem[a][c]])),
               ('the class does not come back in the index', forall([a, v], z3.Implies(tb.imem[a][v][c0], te.imem[a][v][c0]), [tb.imem[a][v][c0]])),
               ('the class does not come back in the traps', forall(a, z3.Implies(tb.tmem[a][c0], te.tmem[a][c0]), [tb.tmem[a][c0]])),
               ('index: gone from the visited attributes', forall([a, v], z3.Implies(z3.And(vis[a], tb.ihas[a], tb.khas[a][v]), z3.Not(tb.imem[a][v][c0])), [tb.imem[a][v][c0]])),
               ('traps: gone from the visited attributes', forall(a, z3.Implies(z3.And(vis[a], tb.thas[a]), z3.Not(tb.tmem[a][c0])), [tb.tmem[a][c0]]))]
        for k in path_keys(ip, fr):
            out.append(('index: gone from the visited values', forall(v, z3.Implies(z3.And(vis[v], tb.khas[k][v]), z3.Not(tb.imem[k][v][c0])), [tb.imem[k][v][c0]])))
        return out


def path_keys(ip, fr):
    """The keys under which the local variables are found in a table."""
    out = []
    for w in fr.env.values():
        if isinstance(w, Ref) and w.path:
            out.append(w.path[0][1] if isinstance(w.path[0], tuple) else w.path[0])
    return [k for k in out if z3.is_expr(k)]


@contract('Collector._upd_fasttrack_delete', 'P06 P13', CO + '_upd_fasttrack_delete', ctx=DCtx, budget=60)
def upd_delete(ip):
    """A class that leaves the collector leaves the tables; the other classes stay."""
    E = ip.E
    x = ip.ctx
    D = UF('registered', V, BOOL)
    co = tables_setup(ip, lambda c: D(c))
    x.cls = E.fresh(V, 'cls')
    run_target(ip, CO + '_upd_fasttrack_delete', [co.obj, T(x.cls, co.opq)])
    t1 = tables(co)
    for nm, f in inv(t1, lambda c: z3.And(D(c), c != x.cls)):
        E.oblige('delete: ' + nm, f)
    for nm, f in del_rel(x.t0, t1, x.cls):
        E.oblige('delete: ' + nm, f)
    E.oblige('delete: same attributes', t1.attr == x.t0.attr)
    co.frame('delete', TABLES)


def havoc_tables(co, names=TABLES):
    E = co.ip.E
    for n in names:
        r = co.field(n)
        if not isinstance(r, Ref):
            raise Unsupported('a table that is not a container')
        nt = dict(zip(TABLES, (Set('name'), INDEX(), Map(Leaf('V'), key='name'), Map(Leaf('V'), key='name'), Map(Set('obj'), key='name'))))[n]
        nt = nt if E.st.heap[r.cid].virgin else E.nt(r)
        E.st.heap[r.cid] = Cell(nt, fresh_tree(nt, E.fresh_name(n)))


def call_upd_index(co):
    def h(ip, args, kw):
        t0 = tables(co)
        for nm, f in inv0(t0):
            ip.E.oblige('update needs: ' + nm, f)
        a = z3.Const('ct_a', V)
        ip.E.oblige('update needs: names', forall(a, z3.Implies(t0.attr[a], V.is_sv(a)), [t0.attr[a]]))
        havoc_tables(co)
        t1 = tables(co)
        ip.E.assume(*[f for _, f in upd_rel(t0, t1, ip.term(args[1]))])
        ip.E.assume(forall(a, z3.Implies(t1.attr[a], V.is_sv(a)), [t1.attr[a]]))
        ip.used_contracts.add('Collector._upd_fasttrack_index')
        return C(None)
    return h


def call_upd_delete(co):
    def h(ip, args, kw):
        t0 = tables(co)
        havoc_tables(co)
        t1 = tables(co)
        ip.E.assume(*[f for _, f in del_rel(t0, t1, ip.term(args[1]))])
        ip.used_contracts.add('Collector._upd_fasttrack_delete')
        return C(None)
    return h


class CCtx(Ctx):
    """Operations on the catalogue, the tables being updated through their contracts."""
    co = None
    pre = None
    inv_ms = 3000

    def callee(self, ip, info):
        if self.co is None:
            return None
        return {CO + '_upd_fasttrack_index': call_upd_index(self.co), CO + '_upd_fasttrack_delete': call_upd_delete(self.co)}.get(info.full)

    def invariants(self, ip, fr, L):
        if self.co is None or L.kind == 'while':
            return []
        try:
            tb = tables(self.co)
            D = self.co.tree('_items')['mem']
        except Exception:
            return []
        c, a = z3.Const('cc_c', V), z3.Const('cc_a', V)
        D0 = self.D0
        out = inv0(tb)
        v = z3.Const('cc_v', V)
        if L.kind == 'set':
            fresh = z3.And(tb.ihas[a], tb.thas[a], tb.yhas[a], tb.ahas[a], tb.ytype[a] == NONE)
            out += [('visited attributes have tables', forall(a, z3.Implies(L.vis[a], fresh), [L.vis[a]])),
                    ('visited attributes: empty index', forall([a, v], z3.Implies(L.vis[a], z3.Not(tb.khas[a][v])), [tb.khas[a][v]])),
                    ('visited attributes: empty trap', forall([a, c], z3.Implies(L.vis[a], z3.Not(tb.tmem[a][c])), [tb.tmem[a][c]]))]
        # the classes placed so far
        out += [('so far: ' + n, f) for n, f in inv(tb, lambda c2: z3.And(D[c2], z3.Or(D0(c2), L.visited(c2))), not_only=True)]
        out += [(n, f) for n, f in inv(tb, lambda c2: D[c2]) if n.startswith('only')]
        out.append(('registered so far', forall(c, D[c] == z3.Or(D0(c), L.visited(c)), [D[c]])))
        out.append(('the attributes only leave', forall(a, z3.Implies(tb.attr[a], self.A0(a)), [tb.attr[a]])))
        out.append(('the attributes are names', forall(a, z3.Implies(tb.attr[a], V.is_sv(a)), [tb.attr[a]])))
        return out


def catalog(ip, D0=None):
    """A collector whose tables satisfy the invariant for its classes."""
    x = ip.ctx
    co = Coll(ip, instances=T(REG.o('instances')), abstract_classes=T(REG.o('abstract_classes'), ABSTRACT))
    x.items0 = co.tree('_items')['mem']
    x.D0 = D0 or (lambda c: x.items0[c])
    x.t0 = tables(co)
    attr0 = x.t0.attr
    x.A0 = lambda a: attr0[a]
    for _, f in inv(x.t0, lambda c: x.items0[c]):
        ip.E.assume(f)
    a, c = z3.Const('ts_a', V), z3.Const('ts_c', V)
    ip.E.assume(forall([c, a], typeF(c, a) != NONE, [typeF(c, a)]))
    x.co = co
    return co


ABSTRACT = OpqCls('catalog', attrs={'add': lambda ip, o: Stub('add', lambda ip2, a, k: abstract_add(ip2, a))})


def abstract_add(ip, a):
    ip.ctx.abstract = True
    return C(None)


def good(ip, co, nm, D):
    """The registered classes and the representation invariant at the end."""
    E = ip.E
    t1 = tables(co)
    m = co.tree('_items')['mem']
    c, a = z3.Const('gd_c', V), z3.Const('gd_a', V)
    E.oblige(nm + ': the registered classes', forall(c, m[c] == D(c), [m[c]]))
    for n, f in inv(t1, lambda c2: m[c2]):
        E.oblige('%s: %s' % (nm, n), f)
    E.oblige(nm + ': no attribute is added', forall(a, z3.Implies(t1.attr[a], ip.ctx.A0(a)), [t1.attr[a]]))


@contract('Collector.add', 'P06 P13 P05', CO + 'add', ctx=CCtx, budget=60,
          assumptions=['registered classes stay alive (weak references)'])
def add(ip):
    """The classes added are registered and found through the tables."""
    E = ip.E
    x = ip.ctx
    co = catalog(ip)
    nt = Seq(Leaf('V'))
    nt.elem.opq = CLS
    n = E.decide(3)
    cs = []
    for i in range(n):
        t = E.fresh(V, 'cls')
        E.assume(V.is_rv(t))
        cs.append(t)
    run_target(ip, CO + 'add', [co.obj] + [T(t, CLS) for t in cs])
    good(ip, co, 'add', lambda c: z3.Or([x.items0[c]] + [c == t for t in cs]))
    co.frame('add', TABLES + ['_items'])


@contract('Collector.discard', 'P06 P13', CO + 'discard', ctx=CCtx, budget=60)
def discard(ip):
    """The class leaves the collector and its tables; the others stay."""
    E = ip.E
    x = ip.ctx
    co = catalog(ip)
    t = E.fresh(V, 'cls')
    E.assume(V.is_rv(t))
    run_target(ip, CO + 'discard', [co.obj, T(t, CLS)])
    good(ip, co, 'discard', lambda c: z3.And(x.items0[c], c != t))
    co.frame('discard', TABLES + ['_items'])


@contract('Collector.pop', 'P06', CO + 'pop', ctx=CCtx, budget=60)
def pop(ip):
    """One registered class, which leaves the collector and its tables; the others stay."""
    E = ip.E
    x = ip.ctx
    co = catalog(ip)
    c = z3.Const('po_c', V)
    try:
        r = run_target(ip, CO + 'pop', [co.obj])
    except PyRaise as e:
        E.oblige('pop: fails with a key error', z3.BoolVal(exc_is(ip, e, 'KeyError')))
        E.oblige('pop: fails on an empty collector only', forall(c, z3.Not(x.items0[c]), [x.items0[c]]))
        return
    t = ip.term(r)
    E.oblige('pop: a registered class', x.items0[t])
    good(ip, co, 'pop', lambda c2: z3.And(x.items0[c2], c2 != t))
    co.frame('pop', TABLES + ['_items'])


@contract('Collector._set_fasttrack', 'P06', [CO + '_set_fasttrack', CO + '_del_fasttrack', CO + '_get_fasttrack'], ctx=CCtx, budget=60)
def set_ft(ip):
    """The tables of the new attributes satisfy the invariant for the registered classes, which do not change."""
    E = ip.E
    x = ip.ctx
    co = catalog(ip, lambda c: z3.BoolVal(False))
    nt = Set('name')
    tr = fresh_tree(nt, E.fresh_name('attrset'))
    a = z3.Const('sf_a', V)
    E.assume(forall(a, z3.Implies(tr['mem'][a], V.is_sv(a)), [tr['mem'][a]]))
    ref = E.new_cell(nt, tr, 'attrset', frozen=True)
    x.A0 = lambda b: tr['mem'][b]
    run_target(ip, CO + '_set_fasttrack', [co.obj, ref])
    good(ip, co, 'set', lambda c: x.items0[c])
    got = run_target(ip, CO + '_get_fasttrack', [co.obj])
    gm = E.tree(got)['mem']
    E.oblige('the fast track attributes are read back', forall(a, gm[a] == tables(co).attr[a], [gm[a]]))
    E.oblige('the attributes read back are a copy', z3.BoolVal(isinstance(got, Ref) and got.cid != co.field('_fasttrack_attr').cid))


@contract('Collector.clear', 'P06', CO + 'clear', ctx=CCtx, budget=60)
def clear(ip):
    """No registered class, no class in the tables."""
    co = catalog(ip)
    run_target(ip, CO + 'clear', [co.obj])
    good(ip, co, 'clear', lambda c: z3.BoolVal(False))
