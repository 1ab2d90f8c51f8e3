"""set_before and set_after of the priorities and of the documentation visibilities (P08)."""
from contracts.p08_priorities import *     # noqa
from contracts.p08_priorities import V, NONE, BOOL, INT


class BCtx(PCtx):
    o = None

    def __init__(self):
        super().__init__(callees={M + 'insert': self.insert})

    def glob(self, ip, name, module):
        if module.name + ':' + name in ('priorities:top', 'doc:visibility'):
            return self.o
        return None

    def insert(self, ip, args, kw):
        """Contract of PrioritySet.insert (see 'PrioritySet.insert')."""
        E = ip.E
        names = dict(zip(('self', 'tag', 'after', 'before'), args))
        names.update(kw)
        t = ip.term(names['tag'])
        af, be = (ip.term(names.get(n, C(None))) for n in ('after', 'before'))
        E.oblige('insert: next to the given reference', z3.And(af == (NONE if self.before else self.ref), be == (self.ref if self.before else NONE)))
        E.oblige('insert: in the documented set', z3.BoolVal(isinstance(names['self'], Obj) and names['self'].cid == self.o.cid))
        E.oblige('insert: a level name', upperF(t) == t)
        lv = E.st.heap[self.o.cid].fields['_levels']
        b = E.tree(lv)
        n = fresh_tree(Seq(Leaf('name')), E.fresh_name('levels'))
        E.oblige('insert: the reference is known and differs', z3.And(inb(b, self.ref), self.ref != t))
        E.assume(*seq_facts(Seq(Leaf('name')), n))
        E.assume(distinct(n), members(b, n, plus=[t]), order_kept(b, n, t), n['last'][t] == n['last'][self.ref] + (-1 if self.before else 1))
        E.put(lv, n)
        return T(LEVELF(t), LEVEL)

    def placed(self, b, vis):
        """The levels vis are next to the reference, in the given order; the others keep their order."""
        x, y = z3.Const('bt_x', V), z3.Const('bt_y', V)
        a, g, v, l = self.a, self.g, self.ref, b['last']
        mp = [MP(l[x], l[y])]
        side = z3.And(l[x] < l[v], z3.Implies(z3.And(inb(b, y), z3.Not(vis(y)), y != v), (l[y] < l[x]) == (l[y] < l[v]))) if self.before else \
            z3.And(l[v] < l[x], z3.Implies(z3.And(inb(b, y), z3.Not(vis(y)), y != v), (l[x] < l[y]) == (l[v] < l[y])))
        return [('no duplicate level', distinct(b)),
                ('members: the former levels and the given ones', forall(x, inb(b, x) == z3.Or(inb(a, x), vis(x)), [l[x]])),
                ('the other levels keep their order', forall([x, y], z3.Implies(z3.And(inb(a, x), inb(a, y), z3.Not(vis(x)), z3.Not(vis(y))), (l[x] < l[y]) == (a['last'][x] < a['last'][y])), mp)),
                ('the given levels are on the right side, next to the reference', forall([x, y], z3.Implies(vis(x), side), mp)),
                ('the given levels are in the given order', forall([x, y], z3.Implies(z3.And(vis(x), vis(y)), (l[x] < l[y]) == (g['last'][x] < g['last'][y])), mp))]

    def invariants(self, ip, fr, L):
        if L.kind != 'seq' or self.o is None:
            return []
        g = self.g
        n = L.i - L.dom.lo
        vis = lambda x: z3.And(inb(g, x), (g['last'][x] - g['lo'] < n) if self.before else (g['hi'] - 1 - g['last'][x] < n))
        return self.placed(levels_of(ip, self.o), vis)


@contract('set_before set_after', 'P08', 'priorities:set_before priorities:set_after doc:set_before doc:set_after', ctx=BCtx, budget=80)
def between(ip):
    """set_before(ref, *tags), set_after(ref, *tags), of the priorities and of the visibilities: the tags end up next to ref, in the given order, the others keep theirs."""
    from interp import StarArg
    E, c = ip.E, ip.ctx
    mod = ('priorities', 'doc')[E.decide(2)]
    nm = ('set_before', 'set_after')[E.decide(2)]
    c.before = nm == 'set_before'
    o = pset(ip)
    c.a = levels_of(ip, o)
    given = names_seq(ip, 'given')
    c.g = E.tree(given)
    c.ref = V.sv(E.fresh(INT, 'ref'))
    E.assume(upperF(c.ref) == c.ref, inb(c.a, c.ref), z3.Not(inb(c.g, c.ref)))
    c.o = o
    run_target(ip, '%s:%s' % (mod, nm), [T(c.ref), StarArg(given)])
    for k, f in c.placed(levels_of(ip, o), lambda x: inb(c.g, x)):
        E.oblige('%s.%s: %s' % (mod, nm, k), f)
