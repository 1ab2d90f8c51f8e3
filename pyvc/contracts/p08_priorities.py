"""priorities.py: PrioritySet and PriorityLevel (P08)."""
import z3
from core import *           # noqa
from core import V, NONE, BOOL, INT
from context import *        # noqa
from lib import strF, OpqCls
from interp import seq_facts

LEVELF = UF('priority_level', V, V)
upperF = UF('str_upper', V, V)
lowerF = UF('str_lower', V, V)
M = 'priorities:PrioritySet.'


def level_attr_tag(ip, v):
    t = UF('level_tag', V, V)(v.t)
    ip.E.assume(V.is_sv(t), upperF(t) == t)
    return T(t)


LEVEL = OpqCls('PriorityLevel', attrs={'tag': level_attr_tag}, isa=['priorities:PriorityLevel'])


class PCtx(Ctx):
    def obj_attr(self, ip, v, name):
        if name == '__dict__':
            return ip.E.st.heap[v.cid].fields.get('@dict')
        return None

    def construct(self, ip, info, args, kw):
        if info.full == 'priorities:PriorityLevel':
            names = dict(zip(['tagname', 'pset'], args))
            names.update(kw)
            t = LEVELF(ip.term(names['tagname']))
            ip.E.assume(V.is_rv(t), UF('level_tag', V, V)(t) == ip.term(names['tagname']))
            return T(t, LEVEL)
        return None


def inb(tr, x):
    return z3.And(tr['lo'] <= tr['last'][x], tr['last'][x] < tr['hi'])


def names_seq(ip, hint, upper=True):
    """A list of distinct (upper case) names."""
    E = ip.E
    nt = Seq(Leaf('name'))
    tr = fresh_tree(nt, E.fresh_name(hint))
    i, x = z3.Const('ns_i', INT), z3.Const('ns_x', V)
    k = tr['*.v']
    rng = z3.And(tr['lo'] <= i, i < tr['hi'])
    E.assume(*seq_facts(nt, tr))
    E.assume(forall(i, z3.Implies(rng, z3.And(V.is_sv(k[i]), upperF(k[i]) == k[i], tr['last'][k[i]] == i)), [k[i]]))
    return E.new_cell(nt, tr, hint)


def pset(ip):
    """A priority set: distinct upper case names, each with its level object in the instance dictionary; frozen lists alike."""
    E = ip.E
    lv = names_seq(ip, 'levels')
    tr = E.tree(lv)
    x, y, i = z3.Const('ps_x', V), z3.Const('ps_y', V), z3.Const('ps_i', INT)
    leaf = Leaf('V')
    leaf.opq = LEVEL
    dn = Map(leaf, key='name')
    dt = fresh_tree(dn, E.fresh_name('idict'))
    d = E.new_cell(dn, dt, 'idict')
    E.assume(forall(x, z3.Implies(inb(tr, x), z3.And(dt['has'][x], dt['*.v'][x] == LEVELF(x))), [tr['last'][x]]))
    k = tr['*.v']
    E.assume(forall(i, z3.Implies(z3.And(tr['lo'] <= i, i < tr['hi']), z3.And(dt['has'][k[i]], dt['*.v'][k[i]] == LEVELF(k[i]))), [k[i]]))
    E.assume(forall(x, z3.And(UF('level_tag', V, V)(LEVELF(x)) == x, V.is_rv(LEVELF(x))), [LEVELF(x)]))
    fn = Map(Seq(Leaf('name')), key='name')
    ft = fresh_tree(fn, E.fresh_name('freeze'))
    fz = E.new_cell(fn, ft, 'freeze')
    E.assume(ft['has'][REG.s('default')])
    o = E.new_obj(ip.repo.cls('priorities:PrioritySet'), {'_levels': lv, '_freeze': fz, '@dict': d}, 'pset')
    return o


def levels_of(ip, o):
    return ip.E.tree(ip.E.st.heap[o.cid].fields['_levels'])


def dict_of(ip, o):
    return ip.E.tree(ip.E.st.heap[o.cid].fields['@dict'])


def freeze_of(ip, o):
    return ip.E.tree(ip.E.st.heap[o.cid].fields['_freeze'])


def same_levels(a, b):
    """Same list (as positions)."""
    i = z3.Const('sl_i', INT)
    x = z3.Const('sl_x', V)
    return z3.And(a['hi'] - a['lo'] == b['hi'] - b['lo'],
                  forall(i, z3.Implies(z3.And(0 <= i, i < a['hi'] - a['lo']), a['*.v'][a['lo'] + i] == b['*.v'][b['lo'] + i])))


def distinct(tr):
    i = z3.Const('di_i', INT)
    k = tr['*.v']
    return forall(i, z3.Implies(z3.And(tr['lo'] <= i, i < tr['hi']), tr['last'][k[i]] == i), [k[i]])


def registered(tr, dt):
    x = z3.Const('rg_x', V)
    return forall(x, z3.Implies(inb(tr, x), z3.And(dt['has'][x], dt['*.v'][x] == LEVELF(x))), [tr['last'][x]])


def order_kept(a, b, *but):
    """The relative order of the other names does not change."""
    x, y = z3.Const('ok_x', V), z3.Const('ok_y', V)
    c = [x != t for t in but] + [y != t for t in but]
    return forall([x, y], z3.Implies(z3.And([inb(a, x), inb(a, y)] + c), (b['last'][x] < b['last'][y]) == (a['last'][x] < a['last'][y])),
                  [MP(b['last'][x], b['last'][y])])


def members(a, b, plus=(), minus=()):
    """in b <=> in a, plus and minus some names."""
    x = z3.Const('me_x', V)
    c = inb(a, x)
    if plus:
        c = z3.Or([c] + [x == t for t in plus])
    if minus:
        c = z3.And([c] + [x != t for t in minus])
    return forall(x, inb(b, x) == c, [b['last'][x]])


def pos(tr, x):
    return tr['last'][x] - tr['lo']


def tag_arg(ip, hint='tag'):
    t = ip.E.fresh(V, hint)
    ip.E.assume(V.is_sv(t))
    return T(t)


def wf(ip, o, nm):
    ip.E.oblige(nm + ': no duplicate level', distinct(levels_of(ip, o)))
    ip.E.oblige(nm + ': every level has its object', registered(levels_of(ip, o), dict_of(ip, o)))


def effect_insert_like(ip, a, b, u, nm):
    ip.E.oblige(nm + ': exactly this level is added', members(a, b, plus=[u]))
    ip.E.oblige(nm + ': the order of the other levels is kept', order_kept(a, b, u))


@contract('PrioritySet.extend one', 'P08', 'priorities:PrioritySet.extend', ctx=PCtx)
def extend_one(ip):
    """extend(tag): tag becomes the last level, the others keep their order."""
    E = ip.E
    o = pset(ip)
    a = levels_of(ip, o)
    t = tag_arg(ip)
    u = upperF(t.t)
    E.assume(upperF(u) == u, V.is_sv(u))
    run_target(ip, M + 'extend', [o, t])
    b = levels_of(ip, o)
    wf(ip, o, 'post')
    effect_insert_like(ip, a, b, u, 'post')
    E.oblige('post: the level is on top', b['last'][u] == b['hi'] - 1)


def given_list(ip, hint='given'):
    E = ip.E
    nt = Seq(Leaf('name'))
    tr = fresh_tree(nt, E.fresh_name(hint))
    i = z3.Const('gl_i', INT)
    tr['lo'] = z3.IntVal(0)
    E.assume(*seq_facts(nt, tr))
    E.assume(forall(i, z3.Implies(z3.And(0 <= i, i < tr['hi']), V.is_sv(tr['*.v'][i])), [tr['*.v'][i]]))
    return E.new_cell(nt, tr, hint, frozen=True), tr


occ = UF('lastocc', INT, V, INT)     # last position of a name in the first n given ones (upper case), or -1


def occ_def(E, g, n):
    """Definition of occ at n (recurrence)."""
    y = z3.Const('oc_y', V)
    E.st.pc.append(forall(y, occ(n, y) == z3.If(n <= 0, -1, z3.If(upperF(g['*.v'][z3.simplify(n - 1)]) == y, z3.simplify(n - 1), occ(z3.simplify(n - 1), y))), [occ(n, y)]))


class ExtCtx(PCtx):
    def __init__(self):
        super().__init__()
        self.g = self.a = self.o = None

    def invariants(self, ip, fr, L):
        if L.kind != 'seq' or self.g is None or fr.fn is None or fr.fn.info.full != 'priorities:PrioritySet.extend':
            return []
        E = ip.E
        occ_def(E, self.g, z3.simplify(L.i - L.dom.lo))
        n = z3.simplify(L.i - L.dom.lo)
        b, d = levels_of(ip, self.o), dict_of(ip, self.o)
        y = z3.Const('ef_y', V)
        return [('ghost bound', forall(y, z3.And(occ(n, y) < n, occ(n, y) >= -1), [occ(n, y)]))] + ext_facts(self.a, b, d, lambda y: occ(n, y))


def ext_facts(a, b, d, oc):
    x, y = z3.Const('ef_x', V), z3.Const('ef_y', V)
    lb = b['last']
    mp = [MP(lb[x], lb[y])]
    return [('no duplicate level', distinct(b)),
            ('every level has its object', registered(b, d)),
            ('members: the former levels and the given ones', forall(x, inb(b, x) == z3.Or(inb(a, x), oc(x) >= 0), [lb[x]])),
            ('order of the levels that are not given', forall([x, y], z3.Implies(z3.And(inb(a, x), inb(a, y), oc(x) < 0, oc(y) < 0),
                                                                                 (lb[x] < lb[y]) == (a['last'][x] < a['last'][y])), mp)),
            ('given levels above the others', forall([x, y], z3.Implies(z3.And(inb(a, x), oc(x) < 0, oc(y) >= 0), lb[x] < lb[y]), mp)),
            ('given levels in the given order', forall([x, y], z3.Implies(z3.And(oc(x) >= 0, oc(y) >= 0, oc(x) < oc(y)), lb[x] < lb[y]), mp))]


@contract('PrioritySet.extend', 'P08', 'priorities:PrioritySet.extend', ctx=ExtCtx, budget=100)
def extend_many(ip):
    """extend(*tags), any number of them: the given levels end up on top in the given (last occurrence) order."""
    from interp import StarArg
    E = ip.E
    o = pset(ip)
    a = levels_of(ip, o)
    ref, g = given_list(ip)
    y = z3.Const('up_y', V)
    E.assume(forall(y, z3.And(upperF(upperF(y)) == upperF(y), V.is_sv(upperF(y))), [upperF(y)]))
    c = ip.ctx
    c.g, c.a, c.o = g, a, o
    run_target(ip, M + 'extend', [o, StarArg(ref)])
    b, d = levels_of(ip, o), dict_of(ip, o)
    for nm, f in ext_facts(a, b, d, lambda t: occ(g['hi'], t)):
        E.oblige('post: ' + nm, f)


def known(ip, a):
    """A given name: any case, its upper form being u."""
    t = tag_arg(ip)
    u = upperF(t.t)
    ip.E.assume(upperF(u) == u, V.is_sv(u))
    return t, u


@contract('PrioritySet.rerank', 'P08', 'priorities:PrioritySet.rerank priorities:PrioritySet.level', ctx=PCtx)
def rerank(ip):
    """rerank(tag, n): the level moves by n positions within the bounds, the others keep their order; an unknown level fails."""
    E = ip.E
    o = pset(ip)
    a = levels_of(ip, o)
    t, u = known(ip, a)
    upd = E.fresh(INT, 'upd')
    try:
        r = run_target(ip, M + 'rerank', [o, t, I(upd)])
    except PyRaise as e:
        E.oblige('fails only for an unknown level', z3.And(z3.Not(inb(a, u)), exc_ok(ip, e)))
        E.oblige('failure leaves the levels unchanged', same_levels(a, levels_of(ip, o)))
        return
    b = levels_of(ip, o)
    E.oblige('post: the level was known', inb(a, u))
    wf(ip, o, 'post')
    E.oblige('post: same levels', members(a, b))
    E.oblige('post: the order of the other levels is kept', order_kept(a, b, u))
    n = a['hi'] - a['lo']
    want = pos(a, u) + upd
    E.oblige('post: new position', pos(b, u) == z3.If(want < 0, 0, z3.If(want > n - 1, n - 1, want)))
    E.oblige('post: gives the level', z3.Implies(u != REG.s(''), ip.term(r) == LEVELF(u)))


class RestCtx(PCtx):
    o = None

    def invariants(self, ip, fr, L):
        if L.kind != 'seq' or L.dom.last is None or self.o is None:
            return []
        d = dict_of(ip, self.o)
        x = z3.Const('ri_x', V)
        return [('visited levels have their object', forall(x, z3.Implies(L.visited(x), z3.And(d['has'][x], d['*.v'][x] == LEVELF(x))), [L.dom.last[x]]))]


def exc_ok(ip, e, *names):
    return z3.BoolVal(any(exc_is(ip, e, n) for n in (names or ('ValueError',))))


@contract('PrioritySet.remove', 'P08', 'priorities:PrioritySet.remove', ctx=PCtx)
def remove(ip):
    """remove(tag): only this level leaves; an unknown one fails and nothing changes."""
    E = ip.E
    o = pset(ip)
    a = levels_of(ip, o)
    if E.decide(2):
        lt = E.fresh(V, 'level')
        t = T(lt, LEVEL)
        u = UF('level_tag', V, V)(lt)
    else:
        t, u = known(ip, a)
    try:
        run_target(ip, M + 'remove', [o, t])
    except PyRaise as e:
        E.oblige('fails only for an unknown level', z3.And(z3.Not(inb(a, u)), exc_ok(ip, e)))
        E.oblige('failure leaves the levels unchanged', same_levels(a, levels_of(ip, o)))
        return
    b = levels_of(ip, o)
    E.oblige('post: the level was known', inb(a, u))
    wf(ip, o, 'post')
    E.oblige('post: exactly this level leaves', members(a, b, minus=[u]))
    E.oblige('post: the order of the other levels is kept', order_kept(a, b, u))


@contract('PrioritySet.insert', 'P08', 'priorities:PrioritySet.insert', ctx=PCtx, budget=60)
def insert(ip):
    """insert(tag, after=ref | before=ref): tag next to ref; unknown or same reference fails, nothing changes."""
    E = ip.E
    o = pset(ip)
    a = levels_of(ip, o)
    t, u = known(ip, a)
    mode = E.decide(3)
    kw = {}
    v = None
    if mode:
        r0, v = known(ip, a)
        kw[('after', 'before')[mode - 1]] = r0
    try:
        r = run_target(ip, M + 'insert', [o, t], kw)
    except PyRaise as e:
        E.oblige('fails only for an unknown reference or the level itself', z3.And(z3.Or(u == v, z3.Not(inb(a, v))) if mode else z3.BoolVal(False), exc_ok(ip, e)))
        E.oblige('failure leaves the levels unchanged', same_levels(a, levels_of(ip, o)))
        return
    b = levels_of(ip, o)
    wf(ip, o, 'post')
    effect_insert_like(ip, a, b, u, 'post')
    E.oblige('post: gives the level', z3.Implies(u != REG.s(''), ip.term(r) == LEVELF(u)))
    if not mode:
        E.oblige('post: without reference, on top', b['last'][u] == b['hi'] - 1)
        return
    E.oblige('post: the reference was known', z3.And(inb(a, v), u != v))
    E.oblige('post: immediately %s its reference' % ('after', 'before')[mode - 1], b['last'][u] == b['last'][v] + (1 if mode == 1 else -1))


@contract('PrioritySet lookups', 'P08', 'priorities:PrioritySet.levelindex priorities:PrioritySet.levelbyindex priorities:PrioritySet.level priorities:PrioritySet.__contains__ '
          'priorities:PrioritySet.__call__ priorities:PrioritySet.__len__', ctx=PCtx)
def lookups(ip):
    """levelindex, levelbyindex, level, in: they describe the current list, names being case insensitive."""
    E = ip.E
    o = pset(ip)
    a = levels_of(ip, o)
    t, u = known(ip, a)
    k = E.decide(6)
    if k == 0:
        try:
            r = run_target(ip, M + 'levelindex', [o, t])
            E.oblige('levelindex: the position', z3.And(inb(a, u), ip.to_int(r) == pos(a, u)))
        except PyRaise as e:
            E.oblige('levelindex: fails for an unknown level only', z3.And(z3.Not(inb(a, u)), exc_ok(ip, e)))
    elif k == 1:
        p = E.fresh(INT, 'p')
        r = run_target(ip, M + 'levelbyindex', [o, I(p)])
        n = a['hi'] - a['lo']
        if isinstance(r, C):
            E.oblige('levelbyindex: None out of range', z3.And(z3.BoolVal(r.py is None), z3.Or(p < 0, p >= n)))
        else:
            E.oblige('levelbyindex: the level at that place', z3.And(0 <= p, p < n, ip.term(r) == LEVELF(a['*.v'][a['lo'] + p])))
    elif k == 2:
        r = run_target(ip, M + 'level', [o, t])
        # the empty name is no level
        E.assume(upperF(REG.s('')) == REG.s(''), z3.Implies(inb(a, REG.s('')), z3.BoolVal(False)))
        E.oblige('level: the level object, or None', ip.term(r) == z3.If(inb(a, u), LEVELF(u), NONE))
    elif k == 3:
        r = run_target(ip, M + '__contains__', [o, t])
        E.oblige('in: some level has that name', ip.truthy(r) == inb(a, u))
    elif k == 4:
        r = run_target(ip, M + '__len__', [o])
        E.oblige('len', ip.to_int(r) == a['hi'] - a['lo'])
    else:
        lv = T(E.fresh(V, 'lv'), LEVEL)
        r = run_target(ip, M + 'level', [o, lv])
        E.oblige('level: a level is itself', ip.term(r) == lv.t)
        E.oblige('level: nothing changes', same_levels(a, levels_of(ip, o)))


@contract('PrioritySet.freeze', 'P08', 'priorities:PrioritySet.freeze priorities:PrioritySet.restore priorities:PrioritySet.reset', ctx=RestCtx, budget=40)
def freeze(ip):
    """freeze records the current order under a (lower case) name but the default one; restore brings it back whatever happened since."""
    E = ip.E
    o = pset(ip)
    a = levels_of(ip, o)
    f0 = freeze_of(ip, o)
    t = tag_arg(ip)
    w = lowerF(t.t)
    E.assume(lowerF(w) == w, V.is_sv(w))
    if E.decide(2) == 0:
        try:
            run_target(ip, M + 'freeze', [o, t])
        except PyRaise as e:
            E.oblige('freeze: refused for the default name only', z3.And(w == REG.s('default'), exc_ok(ip, e)))
            f1 = freeze_of(ip, o)
            x = z3.Const('fr_x', V)
            E.oblige('freeze: a refusal records nothing', z3.And(f0['has'] == f1['has'], f0['*.*.v'] == f1['*.*.v'], f0['*.lo'] == f1['*.lo'], f0['*.hi'] == f1['*.hi']))
            return
        E.oblige('freeze: not under the default name', w != REG.s('default'))
        f1 = freeze_of(ip, o)
        E.oblige('freeze: the current order is recorded', z3.And(f1['has'][w], same_levels(a, get_sub(f1, [('k', w)]))))
        x = z3.Const('fr_x', V)
        E.oblige('freeze: the other records are kept', forall(x, z3.Implies(x != w, z3.And(f1['has'][x] == f0['has'][x], f1['*.lo'][x] == f0['*.lo'][x], f1['*.hi'][x] == f0['*.hi'][x],
                                                                                       f1['*.*.v'][x] == f0['*.*.v'][x]))))
        E.oblige('freeze: the levels are unchanged', same_levels(a, levels_of(ip, o)))
        # independence: a later change of the levels does not reach the record
        f2 = freeze_of(ip, o)
        ref = E.st.heap[o.cid].fields['_levels']
        ip.seq_append(ref, T(E.fresh(V, 'later')))
        f3 = freeze_of(ip, o)
        E.oblige('freeze: the record is independent of the levels', z3.And([f2[c] == f3[c] for c in f2]))
        return
    # the recorded lists are lists of distinct upper case names (class invariant)
    i = z3.Const('rc_i', INT)
    rec = get_sub(f0, [('k', w)])
    k = rec['*.v']
    E.assume(*seq_facts(Seq(Leaf('name')), rec))
    E.assume(forall(i, z3.Implies(z3.And(rec['lo'] <= i, i < rec['hi']), z3.And(V.is_sv(k[i]), rec['last'][k[i]] == i)), [k[i]]))
    # the names of the instance dictionary of level kind (class invariant: a level object under its own name, or nothing)
    x = z3.Const('rs_x', V)
    d0 = dict_of(ip, o)
    E.assume(forall(x, z3.Implies(z3.And(inb(rec, x), d0['has'][x]), d0['*.v'][x] == LEVELF(x)), [rec['last'][x]]))
    ip.ctx.o = o
    try:
        run_target(ip, M + 'restore', [o, t])
    except PyRaise as e:
        E.oblige('restore: fails for an unknown record only', z3.And(z3.Not(f0['has'][w]), exc_ok(ip, e, 'KeyError')))
        E.oblige('restore: a failure changes nothing', same_levels(a, levels_of(ip, o)))
        return
    b = levels_of(ip, o)
    E.oblige('restore: the record exists', f0['has'][w])
    E.oblige('restore: exactly the recorded order', same_levels(rec, b))
    E.oblige('restore: every level has its object', registered(b, dict_of(ip, o)))
    ref = E.st.heap[o.cid].fields['_levels']
    f1 = freeze_of(ip, o)
    ip.seq_append(ref, T(E.fresh(V, 'later')))
    f2 = freeze_of(ip, o)
    E.oblige('restore: the record stays as it was', z3.And([f0[c] == f2[c] for c in f0]))


def level_rank(ip, v):
    tr = levels_of(ip, ip.ctx.o)
    t = UF('level_tag', V, V)(v.t)
    if not ip.E.choose(inb(tr, t)):
        raise PyRaise(BCls('ValueError'), origin='rank')
    return I(pos(tr, t))


LEVEL.attrs['rank'] = level_rank


class LCtx(PCtx):
    o = None


@contract('PriorityLevel order', 'P08', 'priorities:PriorityLevel.__eq__ priorities:PriorityLevel.__gt__ priorities:PriorityLevel.rank', ctx=LCtx, budget=40,
          assumptions=['functools.total_ordering derives <, <=, >= from __gt__ and __eq__ as documented'])
def level_order(ip):
    """Two levels (or a level and a name, in any case) compare as their positions do; an unknown name is equal to no level."""
    E = ip.E
    o = pset(ip)
    ip.ctx.o = o
    a = levels_of(ip, o)
    t1, u1 = known(ip, a)
    t2, u2 = known(ip, a)
    E.assume(inb(a, u1))
    cls = ip.repo.cls('priorities:PriorityLevel')
    l1 = E.new_obj(cls, {'_tag': T(u1), '_pset': o}, 'l1')
    E.assume(upperF(REG.s('')) == REG.s(''), z3.Not(inb(a, REG.s(''))))
    other = E.decide(2)
    if other:
        l2 = t2
    else:
        l2 = E.new_obj(cls, {'_tag': T(u2), '_pset': o}, 'l2')
        E.assume(inb(a, u2))
    import ast
    for nm, rel in (('Eq', lambda p, q: p == q), ('Gt', lambda p, q: p > q), ('GtE', lambda p, q: p >= q), ('Lt', lambda p, q: p < q), ('LtE', lambda p, q: p <= q)):
        try:
            r = ip.compare(getattr(ast, nm)(), l1, l2)
        except PyRaise as e:
            E.oblige('%s: only an unknown name cannot be compared' % nm, z3.And(z3.Not(inb(a, u2)), z3.BoolVal(nm != 'Eq')))
            return
        E.oblige('%s: as the positions' % nm, ip.truthy(r) == z3.And(inb(a, u2), rel(pos(a, u1), pos(a, u2))))
    E.oblige('comparisons change nothing', same_levels(a, levels_of(ip, o)))


@contract('PriorityLevel moves', 'P08', 'priorities:PriorityLevel.up priorities:PriorityLevel.down priorities:PriorityLevel.top priorities:PriorityLevel.bottom '
          'priorities:PriorityLevel.addafter priorities:PriorityLevel.addbefore priorities:PriorityLevel.delete priorities:PriorityLevel.nextlevel priorities:PriorityLevel.prevlevel', ctx=LCtx, budget=80)
def level_moves(ip):
    """up, down, top, bottom, addafter, addbefore, delete, nextlevel, prevlevel on a level of the set."""
    E = ip.E
    o = pset(ip)
    ip.ctx.o = o
    a = levels_of(ip, o)
    u = E.fresh(V, 'u')
    E.assume(V.is_sv(u), upperF(u) == u, inb(a, u))
    n = a['hi'] - a['lo']
    p = pos(a, u)
    l = E.new_obj(ip.repo.cls('priorities:PriorityLevel'), {'_tag': T(u), '_pset': o}, 'lv')
    k = E.decide(9)
    nm = ['up', 'down', 'top', 'bottom', 'addafter', 'addbefore', 'delete', 'nextlevel', 'prevlevel'][k]
    args = [l]
    if k in (4, 5):
        t, w = known(ip, a)
        E.assume(w != u)
        args.append(t)
    r = run_target(ip, 'priorities:PriorityLevel.' + nm, args)
    b = levels_of(ip, o)
    if k < 4:
        want = {'up': z3.If(p + 1 < n, p + 1, n - 1), 'down': z3.If(p > 0, p - 1, 0), 'top': n - 1, 'bottom': z3.IntVal(0)}[nm]
        E.oblige('%s: new position' % nm, pos(b, u) == want)
        E.oblige('%s: same levels' % nm, members(a, b))
        E.oblige('%s: the order of the others' % nm, order_kept(a, b, u))
    elif k < 6:
        E.oblige('%s: position' % nm, b['last'][w] == b['last'][u] + (1 if k == 4 else -1))
        effect_insert_like(ip, a, b, w, nm)
    elif k == 6:
        E.oblige('delete: exactly this level leaves', members(a, b, minus=[u]))
        E.oblige('delete: the order of the others', order_kept(a, b, u))
    else:
        q = p + 1 if k == 7 else p - 1
        E.oblige('%s: the neighbour, or None' % nm, ip.term(r) == z3.If(z3.And(0 <= q, q < n), LEVELF(a['*.v'][a['lo'] + q]), NONE))
        E.oblige('%s: nothing changes' % nm, same_levels(a, b))
