"""Footprint.checkonly, FootprintBase.footprint_couldbe (P04)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from contracts.p02_firstguess import dflt_has, dflt_val, mkdesc, mkcache
from lib import fat, flen, geF, ltF, callF

F = '__init__:Footprint.'
startsF = UF('str_startswith', V, V, BOOL)
partF = UF('str_partition2', V, V, V)
defaults_get = lambda ip, o: Stub('get', lambda ip2, a, k: T(z3.If(dflt_has(ip2.term(a[0])), dflt_val(ip2.term(a[0])), ip2.term(a[1]) if len(a) > 1 else NONE)))
from contracts.p02_firstguess import DEFAULTS      # noqa
DEFAULTS.attrs['get'] = defaults_get
REPORT = OpqCls('report', attrs={'add': lambda ip, o: Stub('add', lambda ip2, a, k: C(None)),
                                 'last': lambda ip, o: T(UF('report_last', V, V)(o.t), REPORTLAST)}, truthy=lambda ip, v: UF('report_on', V, BOOL)(v.t))
REPORTLAST = OpqCls('reportlast', attrs={'lightdump': lambda ip, o: Stub('lightdump', lambda ip2, a, k: C(None))})


def mkreport(ip):
    """A report, switched on or off, or none at all: its content is not read."""
    if ip.E.decide(2):
        return C(None)
    return T(ip.E.fresh(V, 'report'), REPORT)


SETUP = OpqCls('setup', attrs={'nullreport': lambda ip, o: T(REG.o('nullreport'), REPORT)})



class OCtx(Ctx):
    merge = True
    fp = rt = None

    def glob(self, ip, name, module):
        if name == 'setup':
            return T(REG.o('setup'), SETUP)
        return super().glob(ip, name, module)

    def construct(self, ip, info, args, kw):
        if info.full == 'collectors:ResolveCache':
            return mkcache(ip)
        return None

    def invariants(self, ip, fr, L):
        if self.fp is None:
            return []
        out = []
        i, x = z3.Const('oi_i', INT), z3.Const('oi_x', V)
        if L.kind == 'set':
            out.append(('the clauses met hold', forall(x, z3.Implies(L.visited(x), holdsF(x)), [holdsF(x)])))
        if L.kind == 'seq':
            mod = {m[1] for m in L.modified if m[0] == 'var'}
            keys = [w.t for m, w in fr.env.items() if m not in mod and isinstance(w, T) and w.opq is None]
            for m in sorted(mod):
                w = fr.env.get(m)
                f = w.b if isinstance(w, B) else z3.BoolVal(bool(w.py)) if isinstance(w, C) else truth(w.t) if isinstance(w, T) else None
                if f is None:
                    continue
                for n, t in enumerate(keys):
                    out.append(('%s: none of the items met matches %d' % (m, n), forall(i, z3.Implies(z3.And(0 <= i, i < L.i, satF(t, i)), f), [satF(t, i)])))
                    out.append(('%s: some item matches %d' % (m, n), z3.Implies(f, holdsF(t))))
        return out


satF = UF('only_item_holds', V, INT, BOOL)
holdsF = UF('only_clause_holds', V, BOOL)
witF = UF('only_witness', V, INT)


def clause_rules(fp, rt):
    """What it means for an only clause to hold for the resolved values rt: some item of the clause is satisfied."""
    k, i = z3.Const('cr_k', V), z3.Const('cr_i', INT)
    v = fp.only0['*.v'][k]
    after, before = startsF(k, REG.s('after_')), startsF(k, REG.s('before_'))
    nm = z3.If(z3.Or(after, before), partF(k, REG.s('_')), k)
    act = z3.If(rt['has'][nm], rt['*.v'][nm], z3.If(dflt_has(nm), dflt_val(nm), NONE))
    m = REG.s('match')
    known = z3.And(act != NONE, act != UNK)
    # an after_ clause takes precedence over the others
    one = lambda c: z3.If(after, geF(act, c), z3.If(before, ltF(act, c), z3.If(hasattrF(c, m), truth(convF(getattrF(c, m), act, REG.o('noargs'))), eq(act, c))))
    single = z3.Or(is_str(v), z3.Not(hasattrF(v, REG.s('__iter__'))))
    has = fp.only0['has'][k]
    rng = z3.And(0 <= i, i < flen(v))
    w = witF(k)
    return [forall([k, i], z3.Implies(has, satF(k, i) == one(fat(v, i))), [MP(has, fat(v, i))]),
            forall([k, i], z3.Implies(has, satF(k, i) == one(fat(v, i))), [satF(k, i)]),
            forall(k, z3.Implies(has, holdsF(k) == z3.And(known, z3.If(single, one(v), z3.And(0 <= w, w < flen(v), satF(k, w))))), [holdsF(k)]),
            forall([k, i], z3.Implies(z3.And(has, known, z3.Not(single), rng, satF(k, i)), holdsF(k)), [satF(k, i)])]


@contract('Footprint.checkonly', 'P04', F + 'checkonly', ctx=OCtx, budget=60,
          assumptions=['str.startswith and str.partition are deterministic', 'comparisons and match() of the values are deterministic'])
def checkonly(ip):
    """The resolved values are given back when every only clause holds, False otherwise, whatever the report."""
    E = ip.E
    c = ip.ctx
    fp = FP(ip)
    x = z3.Const('co_x', V)
    E.assume(forall(x, z3.Implies(fp.only0['has'][x], V.is_sv(x)), [fp.only0['has'][x]]))
    rd, rt = mkdesc(ip, 'resolved')
    E.assume(*clause_rules(fp, rt))
    c.fp, c.rt = fp, rt
    kw = {'report': mkreport(ip)}
    if E.decide(2):
        kw['resolvecache'] = mkcache(ip)
    try:
        r = run_target(ip, F + 'checkonly', [fp.obj, rd], kw)
    except PyRaise as e:
        # a comparison or a match method of the values that fails: the search fails, no wrong answer
        E.oblige('only a failing comparison of the values raises', z3.BoolVal(e.origin == 'comparison' or e.origin.startswith('call of')))
        return
    k = E.fresh(V, 'clause')
    if isinstance(r, C):
        x = z3.Const('cx_x', V)
        E.oblige('refused: some clause does not hold', z3.And(z3.BoolVal(r.py is False), z3.Exists([x], z3.And(fp.only0['has'][x], z3.Not(holdsF(x))))))
    else:
        E.oblige('accepted: the resolved values themselves', z3.BoolVal(isinstance(r, Ref) and r.cid == rd.cid))
        E.oblige('accepted: every clause holds', z3.Implies(fp.only0['has'][k], holdsF(k)))
        E.oblige('accepted: the resolved values are kept', z3.And(*[t == rt[n] for n, t in E.tree(rd).items()]))
