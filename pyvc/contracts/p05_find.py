"""Collector.find_all, find_any, find_best (P05)."""
from contracts._coll import *     # noqa
from contracts._coll import V, NONE, BOOL, INT
from contracts.p06_fasttrack import eligF, locals_nt

resolvedF = UF('resolved_for', V, V)         # class -> its resolved attributes, for the description of the search
inputsF = UF('inputs_for', V, V)             # class -> the attributes that were given
ninF = UF('ninputs', V, INT)
objF = UF('object_of', V, V, V)
OBJF = objF(NONE, NONE).decl()
#              # class, resolved attributes -> the object created


def INPUTS():
    return OpqCls('inputs', attrs={'__len__': lambda ip, o: I(ninF(o.t))})


INP = INPUTS()
REPORTLOG = OpqCls('report_log', attrs={'add': lambda ip, o: Stub('add', lambda ip2, a, k: C(None))}, truthy=lambda ip, v: z3.BoolVal(True))


def couldbe(ip, o):
    """Contract of footprint_couldbe: the resolved attributes of an eligible class, else something false (contract 'footprint_couldbe')."""
    def f(ip2, a, k):
        if k.get('desc', a[0] if a else None) is None:
            raise Unsupported('footprint_couldbe without a description')
        if ip2.ctx.desc is not None and not (isinstance(a[0], Ref) and a[0].cid == ip2.ctx.desc.cid):
            raise Unsupported('footprint_couldbe on another description')
        if ip2.E.choose(eligF(o.t)):
            return Tup([T(resolvedF(o.t), RESOLVED), T(inputsF(o.t), INP)])
        return Tup([C(False), T(inputsF(o.t), INP)])
    return Stub('footprint_couldbe', f)


RESOLVED = OpqCls('resolved', truthy=lambda ip, v: z3.BoolVal(True))


def build(ip, o, a, k):
    """Creation of an object of a class from resolved attributes."""
    if not (isinstance(k.get('checked'), C) and k['checked'].py is True):
        raise Unsupported('creation that checks its attributes again')
    return T(objF(o.t, ip.term(a[0])), BUILT)


BUILT = OpqCls('object', truthy=lambda ip, v: z3.BoolVal(True))
FCLS = cls_opq(footprint_couldbe=couldbe, call=build)


class FCtx(Ctx):
    co = desc = None
    unroll = 3
    inv_ms = 3000

    def callee(self, ip, info):
        if info.full == CO + '_fasttrack_subsetting':
            return self.subsetting
        if info.full == CO + 'find_all' and self.co is not None and self.best:
            return self.find_all
        return None
    best = False

    def subsetting(self, ip, args, kw):
        """Contract of _fasttrack_subsetting."""
        E = ip.E
        D = self.co.tree('_items')['mem']
        s = E.fresh(z3.ArraySort(V, BOOL), 'subset')
        c = z3.Const('fs_c', V)
        E.assume(forall(c, z3.Implies(s[c], z3.And(D[c], V.is_rv(c))), [s[c]]), forall(c, z3.Implies(z3.And(D[c], eligF(c)), s[c]), [s[c]]),
                 forall(c, z3.Implies(z3.And(D[c], eligF(c)), s[c]), [D[c]]))
        ip.used_contracts.add('Collector._fasttrack_subsetting')
        return E.new_cell(clsset(FCLS), {'mem': s}, 'subset', frozen=True)

    def find_all(self, ip, args, kw):
        """Contract of find_all."""
        E = ip.E
        a, b, d = Leaf('V'), Leaf('V'), Leaf('V')
        a.opq, b.opq, d.opq = FCLS, RESOLVED, INP
        nt = Seq(Rec({'0': a, '1': b, '2': d}, tup=True))
        tr = fresh_tree(nt, E.fresh_name('found'))
        r = E.new_cell(nt, tr, 'found')
        D = self.co.tree('_items')['mem']
        self.find_all_facts(ip, tr, D)
        ip.used_contracts.add('Collector.find_all')
        return r

    def find_all_facts(self, ip, tr, D):
        i, c = z3.Const('fa_i', INT), z3.Const('fa_c', V)
        k = tr['*.0.v']
        rng = z3.And(tr['lo'] <= i, i < tr['hi'])
        at = UF('found_at', V, INT)
        ip.E.assume(tr['lo'] == 0, tr['hi'] >= 0,
                    forall(i, z3.Implies(rng, z3.And(D[k[i]], eligF(k[i]), V.is_rv(k[i]), tr['*.1.v'][i] == resolvedF(k[i]), tr['*.2.v'][i] == inputsF(k[i]))), [k[i]]),
                    once(tr),
                    forall(c, z3.Implies(z3.And(D[c], eligF(c)), z3.And(0 <= at(c), at(c) < tr['hi'], k[at(c)] == c)), [eligF(c)]))

    def construct(self, ip, info, args, kw):
        if info.full == 'collectors:ResolveCache':
            return T(REG.o('new resolve cache'), OpqCls('cache'))
        return None

    def invariants(self, ip, fr, L):
        if self.co is None or L.kind != 'set':
            return []
        out = []
        i, c = z3.Const('fi_i', INT), z3.Const('fi_c', V)
        for n, r in locals_nt(ip, fr, lambda nt: isinstance(nt, Seq)):
            tr = ip.E.tree(r)
            if '*.0.v' not in tr:
                # nothing found yet
                out.append(('%s: what was found are visited eligible classes' % n, z3.BoolVal(True) if ip.E.st.heap[r.cid].virgin else z3.BoolVal(False)))
                out.append(('%s: each once' % n, z3.BoolVal(True)))
                out.append(('%s: every eligible class visited is found' % n, forall(c, z3.Not(z3.And(L.vis[c], eligF(c))), [L.vis[c]])))
                continue
            rng = z3.And(tr['lo'] <= i, i < tr['hi'])
            k = tr['*.0.v']
            out.append(('%s: what was found are visited eligible classes' % n, forall(i, z3.Implies(rng, z3.And(L.vis[k[i]], eligF(k[i]), tr['*.1.v'][i] == resolvedF(k[i]), tr['*.2.v'][i] == inputsF(k[i]))), [k[i]])))
            out.append(('%s: each once' % n, once(tr)))
            out.append(('%s: every eligible class visited is found' % n, forall(c, z3.Implies(z3.And(L.vis[c], eligF(c)), found(tr, c)), [L.vis[c]])))
        return out


def once(tr):
    i, j = z3.Const('on_i', INT), z3.Const('on_j', INT)
    k = tr['*.0.v']
    return forall([i, j], z3.Implies(z3.And(tr['lo'] <= i, i < j, j < tr['hi']), k[i] != k[j]), MP(k[i], k[j]))


def found(tr, c):
    i = z3.Const('fo_i', INT)
    return z3.Exists([i], z3.And(tr['lo'] <= i, i < tr['hi'], tr['*.0.v'][i] == c))


def collector(ip):
    E = ip.E
    x = ip.ctx
    co = x.co = Coll(ip, opq=FCLS, report=T(E.fresh(V, 'report')), report_log=T(E.fresh(V, 'report_log'), REPORTLOG), non_ambiguous_loglevel=C(20))
    nt = Map(Leaf('V'), key='name')
    x.desc = E.new_cell(nt, fresh_tree(nt, E.fresh_name('desc')), 'desc', frozen=True)
    co.heap0 = dict(E.st.heap)
    E.assume(co.field('report_log').t != NONE)
    kw = {}
    if E.decide(2):
        kw['resolvecache'] = T(E.fresh(V, 'cache'), OpqCls('cache'))
    return co, kw


@contract('Collector.find_all', 'P05 P12', CO + 'find_all', ctx=FCtx, budget=60,
          assumptions=['footprint_couldbe decides the same for the same class and description during one search (deterministic conversions)'])
def find_all(ip):
    """Exactly the eligible registered classes, each once, with their resolved attributes."""
    E = ip.E
    x = ip.ctx
    co, kw = collector(ip)
    D = co.tree('_items')['mem']
    r = run_target(ip, CO + 'find_all', [co.obj, x.desc], kw)
    tr = E.tree(r)
    i, c = z3.Const('fa_i', INT), z3.Const('fa_c', V)
    if '*.0.v' not in tr:
        E.oblige('find_all: every eligible class', forall(c, z3.Implies(D[c], z3.Not(eligF(c))), [D[c]]))
        co.frame('find_all', [])
        return
    k = tr['*.0.v']
    rng = z3.And(tr['lo'] <= i, i < tr['hi'])
    E.oblige('find_all: eligible registered classes only', forall(i, z3.Implies(rng, z3.And(D[k[i]], eligF(k[i]))), [k[i]]))
    E.oblige('find_all: with what they resolve to', forall(i, z3.Implies(rng, z3.And(tr['*.1.v'][i] == resolvedF(k[i]), tr['*.2.v'][i] == inputsF(k[i]))), [k[i]]))
    E.oblige('find_all: each once', once(tr))
    E.oblige('find_all: every eligible class', forall(c, z3.Implies(z3.And(D[c], eligF(c)), found(tr, c)), [D[c]]))
    co.frame('find_all', [])


@contract('Collector.find_any', 'P05', CO + 'find_any', ctx=FCtx, budget=60)
def find_any(ip):
    """An object of an eligible registered class, None when there is none."""
    E = ip.E
    x = ip.ctx
    co, kw = collector(ip)
    D = co.tree('_items')['mem']
    c = z3.Const('fa_c', V)
    r = run_target(ip, CO + 'find_any', [co.obj, x.desc], kw)
    if isinstance(r, C) and r.py is None:
        E.oblige('find_any: nothing when no class is eligible', forall(c, z3.Implies(D[c], z3.Not(eligF(c))), [D[c]]))
    else:
        ok = isinstance(r, T) and z3.is_app(r.t) and r.t.decl().eq(OBJF)
        E.oblige('find_any: an object is created', z3.BoolVal(ok))
        if ok:
            k, res = r.t.children()
            E.oblige('find_any: of an eligible registered class', z3.And(D[k], eligF(k)))
            E.oblige('find_any: with what it resolves to', z3.And(res == resolvedF(k), r.t == objF(k, res)))
    co.frame('find_any', [])


class BCtx(FCtx):
    best = True


def better(a, b):
    """The weight of the class a is not below that of b: its priority, then the number of given attributes."""
    return z3.Or(plF(a) > plF(b), z3.And(plF(a) == plF(b), ninF(inputsF(a)) >= ninF(inputsF(b))))


@contract('Collector.find_best', 'P05 P12', CO + 'find_best', ctx=BCtx, budget=60,
          assumptions=['list.sort orders by < on the keys'])
def find_best(ip):
    """An object of an eligible class with the greatest weight, None when there is none."""
    E = ip.E
    x = ip.ctx
    co, kw = collector(ip)
    D = co.tree('_items')['mem']
    c = z3.Const('fb_c', V)
    r = run_target(ip, CO + 'find_best', [co.obj, x.desc], kw)
    if isinstance(r, C) and r.py is None:
        E.oblige('find_best: nothing when no class is eligible', forall(c, z3.Implies(D[c], z3.Not(eligF(c))), [eligF(c)]))
    else:
        ok = isinstance(r, T) and z3.is_app(r.t) and r.t.decl().eq(OBJF)
        E.oblige('find_best: an object is created', z3.BoolVal(ok))
        if ok:
            k, res = r.t.children()
            E.oblige('find_best: of an eligible registered class', z3.And(D[k], eligF(k)))
            E.oblige('find_best: with what it resolves to', res == resolvedF(k))
            E.oblige('find_best: no eligible class has a greater weight', forall(c, z3.Implies(z3.And(D[c], eligF(c)), better(k, c)), [eligF(c)]))
    co.frame('find_best', [])
