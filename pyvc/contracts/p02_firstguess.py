"""Footprint._firstguess, _findextras, _addextras (P02, and the extras of P03)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from interp import seq_facts

F = '__init__:Footprint.'
dflt_has = UF('default_has', V, BOOL)      # the setup defaults, whatever the case of the name
dflt_val = UF('default_val', V, V)
xtra_val = UF('setup_extra_val', V, V)
xtra_has = UF('setup_extra_has', V, BOOL)
DEFAULTS = OpqCls('defaults', attrs={'__contains__': lambda ip, o, x: B(dflt_has(ip.term(x))),
                                     '__getitem__': lambda ip, o, x: T(dflt_val(ip.term(x)))})

KEY_NT = Seq(Rec({'0': Leaf('name'), '1': Leaf('bool'), '2': Set(key='name'), '3': Leaf('V'), '4': Leaf('bool')}, tup=True))


class GCtx(Ctx):
    fp = desc = None

    def __init__(self):
        super().__init__(callees={'__init__:Footprint._firstguess_keys': self.keys_contract})

    def keys_contract(self, ip, args, kw):
        """Contract of _firstguess_keys (proved by 'Footprint._firstguess_keys')."""
        E = ip.E
        tr = fresh_tree(KEY_NT, E.fresh_name('fgkeys'))
        E.assume(*seq_facts(KEY_NT, tr))
        E.assume(*fgkeys_facts(self.fp, tr))
        return E.new_cell(KEY_NT, tr, 'fgkeys', frozen=True)

    def construct(self, ip, info, args, kw):
        if info.full == 'collectors:ResolveCache':
            return mkcache(ip)
        return None

    def invariants(self, ip, fr, L):
        if L.kind != 'seq' or L.dom.last is None or self.fp is None:
            return []
        out = []
        gref, iref = locals_of(ip, fr, Map), locals_of(ip, fr, Set)
        if gref is None or iref is None:
            return []
        return fg_facts(self.fp, self.desc, ip.E.tree(gref), ip.E.tree(iref), lambda k: L.visited(k))


def locals_of(ip, fr, kind):
    """The (only) local container of that kind that is built by the function: found by its type, not by its name."""
    refs = {}
    for v in fr.env.values():
        if isinstance(v, Ref) and not v.path:
            c, r = ip.E.cell(v)
            if not c.frozen and isinstance(c.nt, kind):
                refs[r.cid] = v
    return list(refs.values())[0] if len(refs) == 1 else None


def fgkeys_facts(fp, tr):
    """One entry per attribute, with its characteristics."""
    k, i = z3.Const('fg_k', V), z3.Const('fg_i', INT)
    key = tr['*.0.v']
    hv = lambda d: UF('hasattr', V, V, BOOL)(d, REG.s('footprint_value'))
    rng = z3.And(tr['lo'] <= i, i < tr['hi'])
    return [forall(k, fp.has(k) == z3.And(tr['lo'] <= tr['last'][k], tr['last'][k] < tr['hi']), [tr['last'][k]]),
            forall(i, z3.Implies(rng, z3.And(fp.has(key[i]), tr['last'][key[i]] == i, V.is_sv(key[i]), tr['*.1.v'][i] == fp.optional(key[i]), tr['*.2.mem'][i] == fp.t0['*.alias.mem'][key[i]],
                                             tr['*.3.v'][i] == fp.default(key[i]), tr['*.4.v'][i] == hv(fp.default(key[i])))), [key[i]])]


def given(fp, desc, k, a):
    """The description gives a value under the name a, for the attribute k."""
    return z3.And(desc['has'][a], z3.Not(z3.And(fp.optional(k), desc['*.v'][a] == NONE)))


def fg_facts(fp, desc, g, inp, dom):
    """The value of each attribute of dom comes from the right place."""
    k, a = z3.Const('ff_k', V), z3.Const('ff_a', V)
    own = given(fp, desc, k, k)
    alias = z3.Exists([a], z3.And(fp.member('alias', k, a), given(fp, desc, k, a)))
    gv = g['*.v'][k]
    hv = UF('hasattr', V, V, BOOL)(fp.default(k), REG.s('footprint_value'))
    dv = UF('callres0', V, V)(UF('getattr', V, V, V)(fp.default(k), REG.s('footprint_value')))
    val = fpvalueF(fp.default(k))
    pat = [g['has'][k]]
    return [('attributes: exactly the declared ones', forall(k, g['has'][k] == dom(k), pat)),
            ('own name first', forall(k, z3.Implies(z3.And(dom(k), own), gv == desc['*.v'][k]), pat)),
            ('then an alias', forall(k, z3.Implies(z3.And(dom(k), z3.Not(own), alias),
                                                   z3.Exists([a], z3.And(fp.member('alias', k, a), given(fp, desc, k, a), gv == desc['*.v'][a]))), pat)),
            ('then the setup default', forall(k, z3.Implies(z3.And(dom(k), z3.Not(own), z3.Not(alias), dflt_has(k)), gv == dflt_val(k)), pat)),
            ('then the declared default', forall(k, z3.Implies(z3.And(dom(k), z3.Not(own), z3.Not(alias), z3.Not(dflt_has(k)), fp.optional(k)),
                                                               gv == z3.If(fp.default(k) == NONE, UNK, z3.If(hv, val, fp.default(k)))), pat)),
            ('else nothing', forall(k, z3.Implies(z3.And(dom(k), z3.Not(own), z3.Not(alias), z3.Not(dflt_has(k)), z3.Not(fp.optional(k))), gv == NONE), pat)),
            ('input attributes: exactly those', forall(k, inp['mem'][k] == z3.And(dom(k), z3.Or(own, alias, dflt_has(k))), [inp['mem'][k]]))]


def mkcache(ip):
    """A resolution cache: the current setup defaults and extras."""
    E = ip.E
    nt = Map(Leaf('V'), key='name')
    x = z3.Const('mc_x', V)
    xt = fresh_tree(nt, E.fresh_name('setupextras'))
    E.assume(forall(x, z3.And(xt['has'][x] == xtra_has(x), xt['*.v'][x] == xtra_val(x)), [xt['has'][x]]))
    return E.new_obj(ip.repo.cls('collectors:ResolveCache'), {'defaults': T(REG.o('setup.defaults'), DEFAULTS),
                                                              'extras': E.new_cell(nt, xt, 'setupextras', frozen=True)}, 'resolvecache', frozen=True)


def mkdesc(ip, hint='desc', frozen=True):
    nt = Map(Leaf('V'), key='name')
    tr = fresh_tree(nt, ip.E.fresh_name(hint))
    return ip.E.new_cell(nt, tr, hint, frozen=frozen), tr


def default_value_attr(ip, v, name):
    """footprint_value of a default value: a deterministic evaluation."""
    if name == 'footprint_value':
        if not ip.E.choose(hasattrF(v.t, REG.s(name))):
            raise PyRaise(BCls('AttributeError'), origin=name)
        return Stub('footprint_value', lambda ip2, a, k: T(fpvalueF(v.t)))
    return None


GCtx.opaque_attr = lambda self, ip, v, name: default_value_attr(ip, v, name)


@contract('Footprint._firstguess', 'P02 P01 P04', F + '_firstguess', ctx=GCtx, budget=60)
def firstguess(ip):
    """The value of every declared attribute comes from: its own name, an alias, the setup defaults, its default; nothing else is modified."""
    E = ip.E
    c = ip.ctx
    c.fp = FP(ip)
    ref, c.desc = mkdesc(ip)
    kw = {}
    if E.decide(2):
        kw['resolvecache'] = mkcache(ip)
    r = run_target(ip, F + '_firstguess', [c.fp.obj, ref], kw)
    g, i = ip.unpack(r, 2, False)
    for nm, f in fg_facts(c.fp, c.desc, E.tree(g), E.tree(i), lambda k: c.fp.has(k)):
        E.oblige(nm, f)


class KCtx(Ctx):
    fp = None

    def invariants(self, ip, fr, L):
        if L.kind != 'set' or self.fp is None:
            return []
        v = [w for w in (ip.E.st.heap[self.fp.obj.cid].fields.get('_firstguess_keys_internal'),) if isinstance(w, Ref)]
        if not v:
            return []
        return [('entries %d' % n, f) for n, f in enumerate(fgkeys_vis(self.fp, ip.E.tree(v[0]), L))]


def fgkeys_vis(fp, tr, L):
    k, i = z3.Const('fg_k', V), z3.Const('fg_i', INT)
    if '*.0.v' not in tr:
        return []
    key = tr['*.0.v']
    hv = lambda d: UF('hasattr', V, V, BOOL)(d, REG.s('footprint_value'))
    rng = z3.And(tr['lo'] <= i, i < tr['hi'])
    return [forall(k, L.visited(k) == z3.And(tr['lo'] <= tr['last'][k], tr['last'][k] < tr['hi']), [tr['last'][k]]),
            forall(i, z3.Implies(rng, z3.And(fp.has(key[i]), tr['last'][key[i]] == i, tr['*.1.v'][i] == fp.optional(key[i]), tr['*.2.mem'][i] == fp.t0['*.alias.mem'][key[i]],
                                             tr['*.3.v'][i] == fp.default(key[i]), tr['*.4.v'][i] == hv(fp.default(key[i])))), [key[i]])]


@contract('Footprint._firstguess_keys', 'P02', F + '_firstguess_keys', ctx=KCtx, budget=40)
def firstguess_keys(ip):
    """One entry per declared attribute, with its optional flag, aliases and default; computed once, kept as it is."""
    E = ip.E
    c = ip.ctx
    c.fp = FP(ip)
    r = run_target(ip, F + '_firstguess_keys', [c.fp.obj])
    tr = E.tree(r)
    for n, f in enumerate(fgkeys_facts(c.fp, tr)):
        E.oblige(('every attribute has one entry', 'the entries hold the characteristics')[n], f)
    r2 = run_target(ip, F + '_firstguess_keys', [c.fp.obj])
    E.oblige('the second call gives the same entries', z3.BoolVal(ip.same_val(r, r2) or E.tree(r2) == tr))


fpobjF = UF('is_fpobj', V, BOOL)           # a footprint object
fphas = UF('fpobj_has', V, V, BOOL)        # its attributes
fpval = UF('fpobj_val', V, V, V)


class XCtx(Ctx):
    """Footprint objects of a description: their dictionary view (footprint_as_shallow_dict, under its own contract)."""

    def __init__(self):
        super().__init__(callees={'collectors:ResolveCache.get_shallow_fp': self.shallow})

    def shallow(self, ip, args, kw):
        E = ip.E
        t = ip.term(args[1])
        nt = Map(Leaf('V'), key='name')
        tr = fresh_tree(nt, E.fresh_name('shallow'))
        x = z3.Const('sh_x', V)
        E.assume(forall(x, z3.And(tr['has'][x] == fphas(t, x), tr['*.v'][x] == fpval(t, x)), [tr['has'][x]]))
        return E.new_cell(nt, tr, 'shallow', frozen=True)

    def construct(self, ip, info, args, kw):
        if info.full == 'collectors:ResolveCache':
            return mkcache(ip)
        return None

    def invariants(self, ip, fr, L):
        ref = locals_of(ip, fr, Map)
        if ref is None or L.kind != 'set':
            return []
        # a values view: the visited elements are the values of the visited keys
        return extras_facts(ip, self.desc, ip.E.tree(ref), lambda k: L.visited(k))


def extras_facts(ip, desc, e, dom):
    x, k = z3.Const('xf_x', V), z3.Const('xf_k', V)
    isfp = lambda t: z3.And(V.is_rv(t), t != UNK, instU(t, REG.o('class:__init__:FootprintBase')))
    src = z3.And(dom(k), isfp(desc['*.v'][k]), fphas(desc['*.v'][k], x))
    ex = z3.Exists([k], src)
    return [('extras: those of the setup and the attributes of the footprint objects', forall(x, e['has'][x] == z3.Or(xtra_has(x), ex), [e['has'][x]])),
            ('extras: the value of a footprint object hides the one of the setup', forall(x, z3.Implies(ex, z3.Exists([k], z3.And(src, e['*.v'][x] == fpval(desc['*.v'][k], x)))), [e['has'][x]])),
            ('extras: the setup values else', forall(x, z3.Implies(z3.And(xtra_has(x), z3.Not(ex)), e['*.v'][x] == xtra_val(x)), [e['has'][x]]))]


@contract('Footprint._findextras', 'P03', F + '_findextras', ctx=XCtx, budget=40)
def findextras(ip):
    """The extras: the setup ones, overridden by the attributes of the footprint objects found in the description; inputs are not modified."""
    E = ip.E
    c = ip.ctx
    fp = FP(ip)
    ref, c.desc = mkdesc(ip)
    kw = {'resolvecache': mkcache(ip)} if E.decide(2) else {}
    r = run_target(ip, F + '_findextras', [fp.obj, ref], kw)
    for nm, f in extras_facts(ip, c.desc, E.tree(r), lambda k: c.desc['has'][k]):
        E.oblige(nm, f)


class AECtx(Ctx):
    e0 = None

    def invariants(self, ip, fr, L):
        if L.kind != 'set' or self.e0 is None:
            return []
        return addextras_facts(self.e0, self.g, self.m, ip.E.tree(self.ref), lambda x: L.visited(x))


def addextras_facts(e0, g, m, e1, dom):
    x = z3.Const('ae_x', V)
    new = z3.And(dom(x), m['has'][x], z3.Not(e0['has'][x]), z3.Not(g['has'][x]))
    return [('added: the names found nowhere else', forall(x, e1['has'][x] == z3.Or(e0['has'][x], new), [e1['has'][x]])),
            ('added: their values', forall(x, z3.Implies(new, e1['*.v'][x] == m['*.v'][x]), [e1['has'][x]])),
            ('the others are kept', forall(x, z3.Implies(e0['has'][x], e1['*.v'][x] == e0['*.v'][x]), [e1['has'][x]]))]


@contract('Footprint._addextras', 'P03', F + '_addextras', ctx=AECtx)
def addextras(ip):
    """Extras are completed by the names of `more` that are neither extras nor attributes; never overridden."""
    E = ip.E
    c = ip.ctx
    fp = FP(ip)
    c.ref, c.e0 = mkdesc(ip, 'extras', frozen=False)
    g, c.g = mkdesc(ip, 'guess')
    m, c.m = mkdesc(ip, 'more')
    run_target(ip, F + '_addextras', [fp.obj, c.ref, g, m])
    for nm, f in addextras_facts(c.e0, c.g, c.m, E.tree(c.ref), lambda x: z3.BoolVal(True)):
        E.oblige(nm, f)
