"""Footprint.resolve (P01, P02, P04)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from contracts.p02_firstguess import F, fg_facts, mkdesc, mkcache, dflt_has, dflt_val, extras_facts
from contracts.p04_eligible import REPORT
from core import Cell
from interp import seq_facts
from lib import fhas
from contracts.p03_replacement import hasref

isproxyU = UF('is_proxy', V, BOOL)


def typed(fp, k, v):
    """v is of the declared type of k (a subclass of it for a class-valued attribute)."""
    return z3.If(fp.kclass(k), z3.And(V.is_rv(v), v != UNK, instU(v, REG.o('class:type')), UF('subcls', V, V, BOOL)(v, fp.ktype(k))), instU(v, fp.ktype(k)))


def valid(fp, k, v):
    return z3.And(v != NONE, typed(fp, k, v), fp.authorised(k, v))


def settled(fp, k, v):
    return z3.Or(v == NONE, v == UNK, valid(fp, k, v))


# reach(k, a, b): the remap table of k leads from a to b. der(k, a, v): the value a ends as v. rej(k, a): the value a is refused.
# All three are only known by the rules below (the least such relations).
reach, der, rej, stuckF = UF('remap_reach', V, V, V, BOOL), UF('derives', V, V, V, BOOL), UF('refused', V, V, BOOL), UF('remap_end', V, V, BOOL)


cleanF = UF('derives_from_settled', V, V, BOOL)      # some value without reference ends as this one


def plain(v):
    return z3.Not(hasref(v))


def rules(fp):
    k, a, b = z3.Const('ru_k', V), z3.Const('ru_a', V), z3.Const('ru_b', V)
    rh, rv = fp.t0['*.remap.has'], fp.t0['*.remap.*.v']
    hsh = z3.Or(z3.Not(V.is_rv(b)), hashableF(b))
    mapped = z3.And(hsh, rh[k][canon(b)])
    cv, ce = convF(fp.ktype(k), b, fp.kargs(k)), convE(fp.ktype(k), b, fp.kargs(k))
    end = z3.And(reach(k, a, b), stuckF(k, b))
    plainend = z3.And(end, b != UNK, a != NONE)
    ty = typed(fp, k, b)
    pat = [reach(k, a, b)]
    return [forall([k, a], reach(k, a, a), [reach(k, a, a)]),
            forall([k, a, b], z3.Implies(z3.And(reach(k, a, b), mapped), reach(k, a, rv[k][canon(b)])), [z3.MultiPattern(reach(k, a, b), rv[k][canon(b)])]),
            # the end of a remap chain: a value that is not remapped, or one already met
            forall([k, b], z3.Implies(z3.Not(mapped), stuckF(k, b)), [stuckF(k, b)]),
            forall([k, b], z3.Implies(z3.And(mapped, reach(k, rv[k][canon(b)], b)), stuckF(k, b)), [stuckF(k, b)]),
            forall([k, a, b], z3.Implies(z3.And(end, z3.Or(b == UNK, z3.And(ty, fp.authorised(k, b)))), z3.And(der(k, a, b), z3.Implies(plain(a), cleanF(k, b)))), pat),
            forall([k, a, b], z3.Implies(z3.And(plainend, z3.Not(ty), z3.Not(fp.kclass(k)), ce == 0, cv != NONE, fp.authorised(k, cv)), z3.And(der(k, a, cv), z3.Implies(plain(a), cleanF(k, cv)))), pat),
            # refusals
            forall(k, rej(k, NONE), [rej(k, NONE)]),
            forall([k, a, b], z3.Implies(z3.And(plainend, fp.kclass(k), z3.Not(ty)), rej(k, a)), pat),
            forall([k, a, b], z3.Implies(z3.And(plainend, z3.Not(fp.kclass(k)), z3.Not(ty), z3.Or(ce != 0, cv == NONE, z3.Not(fp.authorised(k, cv)))), rej(k, a)), pat),
            forall([k, a, b], z3.Implies(z3.And(plainend, ty, z3.Or(b == NONE, z3.Not(fp.authorised(k, b)))), rej(k, a)), pat)]


class RCtx(Ctx):
    fp = desc = g0 = None
    inv_ms = 3000
    merge = True

    def __init__(self):
        super().__init__(callees={F + 'in_values': in_values_contract, F + '_firstguess': self.firstguess, F + '_findextras': self.findextras,
                                  F + '_addextras': self.addextras, F + '_replacement': self.replacement, F + '_resolve_keys': self.resolve_keys})

    def glob(self, ip, name, module):
        if name == 'setup':
            return T(REG.o('setup'), SETUP)
        return None

    def construct(self, ip, info, args, kw):
        if info.full == 'collectors:ResolveCache':
            return mkcache(ip)
        return None

    def opaque_attr(self, ip, v, name):
        if name == '__name__' and isinstance(v, T) and '.type' in str(v.t):
            return T(UF('class_name', V, V)(v.t))       # declared types are classes
        return None

    # ---- contracts of the callees
    def firstguess(self, ip, args, kw):
        E = ip.E
        nt, ni = Map(Leaf('V'), key='name'), Set('name')
        g, i = fresh_tree(nt, E.fresh_name('guess')), fresh_tree(ni, E.fresh_name('inp'))
        for _, f in fg_facts(self.fp, self.dt, g, i, lambda k: self.fp.has(k)):
            E.assume(f)
        self.g0, self.i0 = dict(g), dict(i)
        ip.used_contracts.add('Footprint._firstguess')
        r = [E.new_cell(nt, g, 'guess'), E.new_cell(ni, i, 'inp')]
        self.cids = {x.cid for x in r}
        return Tup(r)

    def findextras(self, ip, args, kw):
        nt = Map(Leaf('V'), key='name')
        ip.used_contracts.add('Footprint._findextras')
        return ip.E.new_cell(nt, fresh_tree(nt, ip.E.fresh_name('extras')), 'extras')

    def addextras(self, ip, args, kw):
        names = dict(zip(('self', 'extras', 'guess', 'more'), args))
        names.update(kw)
        r = names['extras']
        ip.E.st.heap[r.cid] = Cell(ip.E.nt(r), fresh_tree(ip.E.nt(r), ip.E.fresh_name('extras')))
        ip.used_contracts.add('Footprint._addextras')
        return C(None)

    def resolve_keys(self, ip, args, kw):
        """Contract of _resolve_keys: every attribute once."""
        E = ip.E
        n1, n2, n3 = Seq(Leaf('name')), Seq(Leaf('bool')), Set('name')
        a, b, c = fresh_tree(n1, E.fresh_name('todok')), fresh_tree(n2, E.fresh_name('todofast')), fresh_tree(n3, E.fresh_name('todoset'))
        E.assume(*seq_facts(n1, a))
        E.assume(*keys_facts(self.fp, a, b, c))
        ip.used_contracts.add('Footprint._resolve_keys')
        return Tup([E.new_cell(n1, a, 'todok'), E.new_cell(n2, b, 'todofast'), E.new_cell(n3, c, 'todoset')])

    def replacement(self, ip, args, kw):
        """Contract of _replacement: the value of k is left or substituted, and nothing else changes, or k goes back to the end of the queue."""
        E = ip.E
        names = dict(zip(('self', 'nbpass', 'k', 'kfast', 'guess', 'extras', 'todok', 'todokfast', 'todokset'), args))
        names.update(kw)
        k, g = ip.term(names['k']), names['guess']
        gt = E.tree(g)
        E.oblige('replacement needs: k is an attribute', gt['has'][k])
        d = E.decide(3)
        ip.used_contracts.add('Footprint._replacement')
        v0 = gt['*.v'][k]
        sub = hasref(v0)
        if d == 0:
            raise PyRaise(ClsV(ip.repo.cls('__init__:FootprintException')), None, 'replacement')
        if d == 1:
            E.assume(sub)
            ip.m_seq_append(names['todok'], names['k'])
            ip.m_seq_append(names['todokfast'], names['kfast'])
            ip.m_set_add(names['todokset'], names['k'])
            return C(False)
        v = E.fresh(V, 'substituted')
        E.assume(z3.Implies(z3.Not(sub), v == v0), z3.Not(hasref(v)))
        ip.set_item(g, names['k'], T(v))
        return C(True)

    # ---- invariants
    def invariants(self, ip, fr, L):
        if self.g0 is None:
            return []
        fp, out = self.fp, []
        k, i, j = z3.Const('ri_k', V), z3.Const('ri_i', INT), z3.Const('ri_j', INT)
        maps = [(n, r) for n, r in cells(ip, fr, Map, lambda nt: isinstance(nt.child, Leaf) and nt.child.ty == 'V' and nt.key == 'name') if r.cid in self.cids]
        seqs = cells(ip, fr, Seq, lambda nt: isinstance(nt.elem, Leaf))
        sets = [(n, r) for n, r in cells(ip, fr, Set, lambda nt: True) if r.cid in self.cids]
        te = lambda r: old(ip, L, r)
        for n, r in maps:
            g = ip.E.tree(r)
            if '*.v' not in g:
                continue
            gv = g['*.v']
            out.append(('%s: the attributes are kept' % n, forall(k, g['has'][k] == fp.has(k), [g['has'][k]])))
            if L.kind == 'while':
                og = te(r)
                for m, w in fr.env.items():
                    if og is not None and isinstance(w, T) and w.opq is None:
                        out.append(('%s: only %s changes' % (n, m), forall(k, z3.Implies(k != w.t, gv[k] == og['*.v'][k]), [gv[k]])))
                        # an inner loop follows the remap table from the value of that attribute
                        out.append(('%s: %s is remapped' % (n, m), z3.And(reach(w.t, og['*.v'][w.t], gv[w.t]))))
                        for m3, q3 in cells(ip, fr, Set, lambda nt: nt.key == 'V', True):
                            s3 = ip.E.tree(q3)['mem']
                            out.append(('%s %s %s: the remapped values lead here' % (n, m, m3), forall(k, z3.Implies(s3[k], z3.And(
                                fp.t0['*.remap.has'][w.t][k], reach(w.t, fp.t0['*.remap.*.v'][w.t][k], gv[w.t]))), [s3[k]])))
                for m, q in seqs:
                    s = ip.E.tree(q)
                    if '*.v' in s and s['*.v'].sort().range() == V and 'last' in s:
                        intodo = z3.And(s['lo'] <= s['last'][k], s['last'][k] < s['hi'])
                        out.append(('%s %s: what left the queue is settled' % (n, m), forall(k, z3.Implies(z3.And(fp.has(k), z3.Not(intodo)), settled(fp, k, gv[k])), [gv[k]])))
                        g0 = self.g0['*.v'][k]
                        out.append(('%s %s: what left the queue comes from its guess' % (n, m), forall(k, z3.Implies(z3.And(fp.has(k), z3.Not(intodo), plain(g0), gv[k] != NONE), der(k, g0, gv[k])), [gv[k]])))
                        out.append(('%s %s: what left the queue comes from a value without reference' % (n, m), forall(k, z3.Implies(z3.And(fp.has(k), z3.Not(intodo), gv[k] != NONE), cleanF(k, gv[k])), [gv[k]])))
                        out.append(('%s %s: what left the queue undefined is refused' % (n, m), forall(k, z3.Implies(z3.And(fp.has(k), z3.Not(intodo), plain(g0), gv[k] == NONE), rej(k, g0)), [gv[k]])))
                        out.append(('%s %s: what is queued is as guessed' % (n, m), forall(k, z3.Implies(z3.And(fp.has(k), intodo), gv[k] == self.g0['*.v'][k]), [gv[k]])))
            elif L.kind == 'set':
                old_g = te(r)
                if old_g is None:
                    continue
                ov = old_g['*.v']
                out.append(('%s: unvisited attributes are as they were' % n, forall(k, z3.Implies(z3.And(fp.has(k), z3.Not(L.vis[k])), gv[k] == ov[k]), [gv[k]])))
                out.append(('%s: visited attributes are final' % n, forall(k, z3.Implies(z3.And(fp.has(k), L.vis[k]), final(fp, k, ov[k], gv[k])), [gv[k]])))
                for m, q in sets:
                    if te(q) is None:
                        continue
                    s, s0 = ip.E.tree(q)['mem'], te(q)['mem']
                    out.append(('%s %s: undefined attributes are not inputs' % (n, m), forall(k, s[k] == z3.And(s0[k], z3.Not(z3.And(fp.has(k), L.vis[k], gv[k] == NONE))), [s[k]])))
                    out.append(('%s %s: undefined attributes are not inputs (visited)' % (n, m), forall(k, z3.Implies(z3.And(fp.has(k), L.vis[k], gv[k] == NONE), z3.Not(s[k])), [gv[k]])))
                for m, w in fr.env.items():
                    if isinstance(w, (T, B, C)) and m.startswith('opts_'):
                        pass
                out.append(('%s: nothing undefined when fatal' % n, z3.Implies(self.fatal, forall(k, z3.Implies(z3.And(fp.has(k), L.vis[k]), gv[k] != NONE), [gv[k]]))))
        for m, q in seqs:
            s = ip.E.tree(q)
            if '*.v' not in s or 'last' not in s or s['*.v'].sort().range() != V:
                continue
            rng = lambda n: z3.And(s['lo'] <= n, n < s['hi'])
            e = s['*.v']
            out.append(('%s: queued attributes' % m, forall(i, z3.Implies(rng(i), z3.And(fp.has(e[i]), V.is_sv(e[i]))), [e[i]])))
            out.append(('%s: each attribute once' % m, forall([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), e[i] != e[j]), MP(e[i], e[j]))))
            for m2, q2 in seqs:
                s2 = ip.E.tree(q2)
                if m2 != m and q2.cid != q.cid:
                    out.append(('%s %s: as many flags as attributes' % (m, m2), s['hi'] - s['lo'] == s2['hi'] - s2['lo']))
        return out


def old(ip, L, r):
    """The content of r when the loop was entered."""
    E = ip.E
    cur, E.st = E.st, L.entry_st
    try:
        return E.tree(r) if r.cid in E.st.heap and not E.cell(r)[0].virgin else None
    finally:
        E.st = cur


def final(fp, k, v0, v1):
    """From the value at the end of the resolution to the value returned: 'None' stands for no value; weak attributes hold a proxy."""
    none = z3.Or(v0 == NONE, eq(v0, REG.s('None')))
    return z3.If(none, v1 == NONE, z3.And(v1 != NONE, z3.Or(v1 == v0, z3.And(v0 != UNK, fp.opt_weak(k), v1 == UF('weakproxy', V, V)(v0)))))


def cells(ip, fr, kind, ok, virgin=False):
    out, seen = [], set()
    for n, v in fr.env.items():
        if isinstance(v, Ref) and not v.path:
            c, r = ip.E.cell(v)
            if not c.frozen and (virgin or not c.virgin) and isinstance(c.nt, kind) and ok(c.nt) and r.cid not in seen:
                seen.add(r.cid)
                out.append((n, v))
    return out


def keys_facts(fp, a, b, c):
    k, i, j = z3.Const('kf_k', V), z3.Const('kf_i', INT), z3.Const('kf_j', INT)
    rng = lambda n: z3.And(a['lo'] <= n, n < a['hi'])
    e = a['*.v']
    return [forall(k, fp.has(k) == rng(a['last'][k]), [a['last'][k]]), forall(k, fp.has(k) == rng(a['last'][k]), [fp.has(k)]),
            forall(i, z3.Implies(rng(i), z3.And(fp.has(e[i]), V.is_sv(e[i]))), [e[i]]),
            forall([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), e[i] != e[j]), MP(e[i], e[j])),
            a['hi'] - a['lo'] == b['hi'] - b['lo'], b['hi'] >= b['lo'], forall(k, c['mem'][k] == fp.has(k), [c['mem'][k]])]


SETUP = OpqCls('setup', attrs={'nullreport': lambda ip, o: T(REG.o('nullreport'), REPORT), 'fatal': lambda ip, o: B(z3.Const('setup_fatal', BOOL)),
                               'fastmode': lambda ip, o: B(z3.Const('setup_fastmode', BOOL)), 'extended': lambda ip, o: B(z3.Const('setup_extended', BOOL)),
                               'defaults': lambda ip, o: T(REG.o('setup.defaults'))})


@contract('Footprint.resolve', 'P01 P02 P03 P04', F + 'resolve', ctx=RCtx, budget=120,
          assumptions=['calling a declared type gives one of its instances (or raises)'])
def resolve(ip):
    """Every attribute ends undefined, left out, or with an authorised value of its type; the inputs are the given ones that got a value."""
    E = ip.E
    c = ip.ctx
    fp = c.fp = FP(ip)
    fp.opt_weak = lambda k: fhas(fp.access(k), REG.s('weak'))
    ref, c.dt = mkdesc(ip)
    heap0 = dict(E.st.heap)
    E.assume(*rules(fp))
    c.fatal = E.fresh(BOOL, 'fatal')
    # the fast mode is not given: the one of the setup, any boolean
    kw = {'fatal': B(c.fatal), 'report': C(None), 'resolvecache': mkcache(ip)}
    try:
        r = run_target(ip, F + 'resolve', [fp.obj, ref], kw)
    except PyRaise as e:
        ok = exc_is(ip, e, '__init__:FootprintException') or e.origin.startswith('call of') or e.origin == 'weakref.proxy'
        E.oblige('only the substitutions, the conversions and the fatal mode raise', z3.BoolVal(ok))
        if exc_is(ip, e, '__init__:FootprintFatalError'):
            E.oblige('the fatal error is raised in fatal mode only', c.fatal)
        return
    g, i, s = [E.tree(x) for x in ip.unpack(r, 3, False)]
    k = z3.Const('rp_k', V)
    gv = g['*.v'][k]
    v0 = z3.Const('rp_v0', V)
    E.oblige('resolved attributes: exactly the declared ones', forall(k, g['has'][k] == fp.has(k), [g['has'][k]]))
    whole = forall(k, z3.Implies(fp.has(k), gv != NONE))
    good = forall(k, z3.Implies(fp.has(k), z3.Or(gv == UNK, valid(fp, k, gv), z3.And(fp.opt_weak(k), z3.Exists([v0], z3.And(gv == UF('weakproxy', V, V)(v0), valid(fp, k, v0)))))))
    E.oblige('complete resolution: every value is authorised', z3.Implies(whole, good))
    g0 = c.g0['*.v'][k]
    E.oblige('complete resolution: every value without reference comes from its guess, remapped then converted', z3.Implies(whole, forall(k, z3.Implies(
        z3.And(fp.has(k), plain(g0)), z3.Or(der(k, g0, gv), z3.Exists([v0], z3.And(fp.opt_weak(k), der(k, g0, v0), gv == UF('weakproxy', V, V)(v0))))))))
    E.oblige('complete resolution: every value comes from a value without reference left', z3.Implies(whole, forall(k, z3.Implies(
        fp.has(k), z3.Or(cleanF(k, gv), z3.Exists([v0], z3.And(fp.opt_weak(k), cleanF(k, v0), gv == UF('weakproxy', V, V)(v0))))))))
    E.oblige('an attribute without reference is undefined for a reason only', forall(k, z3.Implies(z3.And(fp.has(k), plain(g0), gv == NONE), z3.Or(
        g0 == NONE, eq(g0, REG.s('None')), rej(k, g0), z3.Exists([v0], z3.And(der(k, g0, v0), eq(v0, REG.s('None'))))))))
    E.oblige('inputs: given attributes that got a value', forall(k, z3.Implies(fp.has(k), i['mem'][k] == z3.And(c.i0['mem'][k], gv != NONE)), [i['mem'][k]]))
    E.oblige('fatal mode: nothing is undefined', z3.Implies(c.fatal, whole))
    frame_oblige(ip, 'resolve: the description and the footprint are kept', heap0, set())
