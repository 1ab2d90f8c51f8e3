"""Footprint.track, FootprintBase.footprint_cleanup, Collector.pickup_and_cache, pickup, load (P07)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
import lib
from contracts.p02_firstguess import mkdesc
from contracts.p06_fasttrack import locals_nt

F = '__init__:Footprint.'
B_ = '__init__:FootprintBase.'
anyalias = UF('some_alias', V, BOOL)
aliasof = UF('alias_owner', V, V)


def inseq(t, x):
    return z3.And(t['lo'] <= t['last'][x], t['last'][x] < t['hi'])


class TCtx(Ctx):
    fp = None
    merge = True
    inv_ms = 3000

    def invariants(self, ip, fr, L):
        if self.fp is None:
            return []
        out = []
        x, a = z3.Const('ti_x', V), z3.Const('ti_a', V)
        for n, r in locals_nt(ip, fr, lambda nt: isinstance(nt, (Seq, Set))):
            t = ip.E.tree(r)
            nt = ip.E.nt(r)
            if isinstance(nt, Seq):
                if nt.keycomp() is None or t[nt.keycomp()].sort().range() != V:
                    continue
                inb, trig = (lambda y: inseq(t, y)), t['last'][a]
            else:
                inb, trig = (lambda y: t['mem'][y]), t['mem'][a]
            if L.kind in ('seq', 'set'):
                al = self.fp.t0['*.alias.mem'][x][a]
                out.append(('%s: holds the aliases met' % n, forall([x, a], z3.Implies(z3.And(self.fp.has(x), L.visited(x), al), inb(a)), [al])))
                out.append(('%s: holds aliases only' % n, forall(a, z3.Implies(inb(a), anyalias(a)), [trig])))
                out.append(('%s: holds the attributes met' % n, forall(a, z3.Implies(z3.And(self.fp.has(a), L.visited(a)), inb(a)), [self.fp.has(a)])))
                out.append(('%s: holds attributes and aliases only' % n, forall(a, z3.Implies(inb(a), z3.Or(self.fp.has(a), anyalias(a))), [trig])))
        return out


def alias_rules(fp):
    x, a = z3.Const('ar_x', V), z3.Const('ar_a', V)
    al = fp.t0['*.alias.mem']
    return [forall([x, a], z3.Implies(z3.And(fp.has(x), al[x][a]), anyalias(a)), [al[x][a]]), forall(a, z3.Implies(anyalias(a), V.is_sv(a)), [anyalias(a)]),
            forall(a, z3.Implies(anyalias(a), z3.And(fp.has(aliasof(a)), al[aliasof(a)][a])), [anyalias(a)])]


@contract('Footprint.track', 'P07', F + 'track', ctx=TCtx)
def track(ip):
    """The keys of the description that are attributes or aliases of the footprint, each once."""
    E = ip.E
    fp = ip.ctx.fp = FP(ip)
    E.assume(*alias_rules(fp))
    rd, dt = mkdesc(ip)
    heap0 = dict(E.st.heap)
    r = run_target(ip, F + 'track', [fp.obj, rd])
    t = E.tree(r)
    x, i = z3.Const('tk_x', V), z3.Const('tk_i', INT)
    nt = E.nt(r)
    y = E.fresh(V, 'key')
    E.oblige('tracked: only attributes and aliases given', z3.Implies(inseq(t, y), z3.And(dt['has'][y], z3.Or(fp.has(y), anyalias(y)))))
    E.oblige('tracked: the attributes given', z3.Implies(z3.And(dt['has'][y], fp.has(y)), inseq(t, y)))
    E.oblige('tracked: the aliases given', z3.Implies(z3.And(dt['has'][y], anyalias(y)), inseq(t, y)))
    k = t[nt.keycomp()]
    E.oblige('tracked: each once', forall(i, z3.Implies(z3.And(t['lo'] <= i, i < t['hi']), t['last'][k[i]] == i), [k[i]]))
    frame_oblige(ip, 'track: the description and the footprint are kept', heap0, set())


@contract('Footprint: keys', 'P07 P15 P19', F + 'allkeys ' + F + 'as_opts', ctx=TCtx)
def keys(ip):
    """The attributes and the aliases."""
    E = ip.E
    fp = ip.ctx.fp = FP(ip)
    E.assume(*alias_rules(fp))
    heap0 = dict(E.st.heap)
    n = ('allkeys', 'as_opts')[E.decide(2)]
    r = run_target(ip, F + n, [fp.obj])
    m = E.tree(r)['mem']
    y = E.fresh(V, 'key')
    E.oblige('%s: only the attributes and the aliases' % n, z3.Implies(m[y], z3.Or(fp.has(y), anyalias(y))))
    E.oblige('%s: the attributes' % n, z3.Implies(fp.has(y), m[y]))
    E.oblige('%s: the aliases' % n, z3.Implies(anyalias(y), m[y]))
    frame_oblige(ip, '%s: the footprint is kept' % n, heap0, set())


class UCtx(Ctx):
    fp = rd = None
    merge = True

    def __init__(self):
        super().__init__(callees={F + 'track': self.track})

    def track(self, ip, args, kw):
        """Contract of Footprint.track."""
        E = ip.E
        ip.used_contracts.add('Footprint.track')
        E.oblige('track needs: the footprint and the description', z3.BoolVal(isinstance(args[0], Obj) and args[0].cid == self.fp.obj.cid and
                                                                         isinstance(args[1], Ref) and args[1].cid == self.rd.cid))
        d = E.tree(args[1])
        nt = Seq(Leaf('name'))
        t = fresh_tree(nt, E.fresh_name('tracked'))
        x, i = z3.Const('tk_x', V), z3.Const('tk_i', INT)
        E.assume(*lib.seq_facts(nt, t))
        E.assume(forall(x, inseq(t, x) == z3.And(d['has'][x], self.tracked(x)), [t['last'][x]]), forall(x, inseq(t, x) == z3.And(d['has'][x], self.tracked(x)), [d['has'][x]]),
                 forall(i, z3.Implies(z3.And(t['lo'] <= i, i < t['hi']), t['last'][t['*.v'][i]] == i), [t['*.v'][i]]))
        return E.new_cell(nt, t, 'tracked')

    def tracked(self, x):
        return z3.Or(self.fp.has(x), anyalias(x))

    def invariants(self, ip, fr, L):
        if self.rd is None:
            return []
        t0 = self.dt
        t = ip.E.tree(self.rd)
        x = z3.Const('ui_x', V)
        return [('the keys met are gone, the others stay', forall(x, t['has'][x] == z3.And(t0['has'][x], z3.Not(L.visited(x))), [t['has'][x]])),
                ('the values are kept', forall(x, t['*.v'][x] == t0['*.v'][x], [t['*.v'][x]]))]


@contract('FootprintBase.footprint_cleanup', 'P07', B_ + 'footprint_cleanup', ctx=UCtx)
def cleanup(ip):
    """The attributes and aliases of the footprint leave the description; the rest is kept."""
    E = ip.E
    c = ip.ctx
    fp = c.fp = FP(ip)
    c.rd, c.dt = mkdesc(ip, frozen=False)
    o = T(E.fresh(V, 'obj'), OpqCls('footprint object', attrs={'footprint': lambda ip2, v: fp.obj, '_footprint': lambda ip2, v: fp.obj}))
    heap0 = dict(E.st.heap)
    r = run_target(ip, B_ + 'footprint_cleanup', [o, c.rd])
    E.oblige('the description itself is given back', z3.BoolVal(isinstance(r, Ref) and r.cid == c.rd.cid))
    t = E.tree(c.rd)
    x = z3.Const('fc_x', V)
    E.oblige('exactly the attributes and aliases leave', forall(x, t['has'][x] == z3.And(c.dt['has'][x], z3.Not(c.tracked(x))), [t['has'][x]]))
    E.oblige('the values left are kept', forall(x, z3.Implies(t['has'][x], t['*.v'][x] == c.dt['*.v'][x]), [t['*.v'][x]]))
    frame_oblige(ip, 'cleanup: the footprint is kept', heap0, {c.rd.cid})
