"""Collector.pickup_and_cache, pickup, load, almost_clone (P07)."""
import ast
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from contracts.p02_firstguess import mkdesc, mkcache

CO = 'collectors:Collector.'
hid = UF('str_startswith', V, V, BOOL)
trackedF = UF('tracked_by', V, V, BOOL)            # object, name: attribute or alias of the footprint of the object
hidden = lambda k: hid(k, REG.s('_'))


class PCtx(Ctx):
    merge = True
    rd = None

    def __init__(self):
        super().__init__(callees={CO + 'find_best': self.find_best})

    def glob(self, ip, name, module):
        if name in ('config', 'dump'):
            return T(REG.o(name), ANY)
        return None

    def construct(self, ip, info, args, kw):
        if info.full == 'collectors:ResolveCache':
            self.cache = mkcache(ip)
            return self.cache
        return None

    def find_best(self, ip, args, kw):
        """Contract of find_best: None, or an object of a registered class; the description is not modified. No footprint of a collected
        class has an attribute or alias named as its collector (refused by the definition of the class)."""
        E = ip.E
        ip.used_contracts.add('Collector.find_best')
        E.oblige('find_best: asked about the description', z3.BoolVal(len(args) > 1 and isinstance(args[1], Ref) and args[1].cid == self.rd.cid))
        E.oblige('find_best: once', z3.Not(self.ghost(ip)[0]))
        t = E.tree(args[1])
        x = z3.Const('fb_x', V)
        t0 = self.dt
        E.oblige('find_best: the visible keys and their values', forall(x, z3.And(t['has'][x] == z3.And(t0['has'][x], z3.Not(hidden(x))), z3.Implies(t['has'][x], t['*.v'][x] == t0['*.v'][x])), [t['has'][x]]))
        if E.decide(2):
            raise PyRaise(BCls('Exception'), None, 'find_best')
        found = E.fresh(V, 'best')
        E.assume(z3.Implies(found != NONE, z3.And(V.is_rv(found), z3.Not(trackedF(found, self.tag)))))
        ip.set_item(self.g, C('found'), T(found))
        return T(found)

    def ghost(self, ip):
        """(find_best was called, its outcome)"""
        t = ip.E.tree(self.g)
        return t['has'][REG.s('found')], t['*.v'][REG.s('found')]

    def opaque_attr(self, ip, v, name):
        if name == 'footprint_cleanup':
            def f(ip2, a, k):
                # contract of footprint_cleanup
                E = ip2.E
                if not E.choose(z3.And(self.ghost(ip2)[0], v.t == self.ghost(ip2)[1])):
                    # an object given under the tag: a footprint object or not
                    if not E.choose(hasattrF(v.t, REG.s('footprint_cleanup'))):
                        raise PyRaise(BCls('AttributeError'), None, 'no footprint')
                ip2.used_contracts.add('FootprintBase.footprint_cleanup')
                r = a[0]
                t = E.tree(r)
                n = fresh_tree(E.nt(r), E.fresh_name('cleaned'))
                x = z3.Const('cu_x', V)
                E.assume(forall(x, n['has'][x] == z3.And(t['has'][x], z3.Not(trackedF(v.t, x))), [n['has'][x]]), n['*.v'] == t['*.v'])
                E.put(r, n)
                return r
            return Stub('footprint_cleanup', f)
        return None

    def invariants(self, ip, fr, L):
        if self.rd is None:
            return []
        t0 = ip.E.tree(self.rd)
        x = z3.Const('pi_x', V)
        d = self.dt
        return [('the hidden keys met are gone', forall(x, z3.Implies(L.visited(x), z3.Not(t0['has'][x])), [t0['has'][x]])),
                ('the visible keys stay', forall(x, z3.Implies(z3.And(d['has'][x], z3.Not(hidden(x))), t0['has'][x]), [t0['has'][x]])),
                ('nothing is added', forall(x, z3.Implies(t0['has'][x], d['has'][x]), [t0['has'][x]])),
                ('the values are kept', forall(x, z3.Implies(t0['has'][x], t0['*.v'][x] == d['*.v'][x]), [t0['*.v'][x]]))]


def literals(ip, full):
    """What startswith says of the literal names of the function."""
    f = fn_of(ip, full)
    for n in ast.walk(f.info.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            ip.E.assume(hidden(REG.s(n.value)) == n.value.startswith('_'))


@contract('Collector.pickup_and_cache', 'P07', CO + 'pickup_and_cache ' + CO + 'pickup', ctx=PCtx, budget=60,
          assumptions=['printing the reports and logging modify neither the description nor the collector', 'a collector tag does not start with an underscore'])
def pickup(ip):
    """The selected object (or None, or the one given) is stored under the tag; its attributes and aliases and the hidden keys leave; the rest is kept."""
    E = ip.E
    c = ip.ctx
    nt = Map(Leaf('V'), key='name')
    t = fresh_tree(nt, E.fresh_name('ghost'))
    c.g = E.new_cell(nt, t, 'ghost')
    E.assume(z3.Not(t['has'][REG.s('found')]))
    c.rd, c.dt = mkdesc(ip, frozen=False)
    d = c.dt
    x = z3.Const('pk_x', V)
    E.assume(forall(x, z3.Implies(d['has'][x], V.is_sv(x)), [d['has'][x]]))
    tag = c.tag = E.fresh(V, 'tag')
    E.assume(V.is_sv(tag), z3.Not(hidden(tag)))
    co = E.new_obj(ip.repo.cls('collectors:Collector'), {n: T(E.fresh(V, n), ANY) for n in ('report_log', 'report_last', 'report_auto', 'report', 'report_style')}, 'collector')
    E.st.heap[co.cid].fields['tag'] = T(tag)
    n = ('pickup_and_cache', 'pickup')[E.decide(2)]
    for m in ('pickup_and_cache', 'pickup'):
        literals(ip, CO + m)
    kw = {}
    cache = None
    if E.decide(2):
        cache = kw['resolvecache'] = mkcache(ip)
    heap0 = dict(E.st.heap)
    given = z3.And(d['has'][tag], d['*.v'][tag] != NONE)
    try:
        r = run_target(ip, CO + n, [co, c.rd], kw)
    except PyRaise as e:
        if e.origin == 'no footprint':
            E.oblige('what is under the tag is not cleaned up: given, not a footprint object', z3.And(given, z3.Not(c.ghost(ip)[0])))
        else:
            E.oblige('only a search that fails raises', z3.BoolVal(e.origin == 'find_best'))
        return
    out = r
    if n == 'pickup_and_cache':
        out, rc = ip.unpack(r, 2, False)
        E.oblige('the cache given, if any', z3.BoolVal(cache is None or isinstance(rc, type(cache)) and ip.same_val(rc, cache)))
    E.oblige('the description itself is given back', z3.BoolVal(isinstance(out, Ref) and out.cid == c.rd.cid))
    t = E.tree(c.rd)
    asked, best = c.ghost(ip)
    E.oblige('nothing is selected when an object is given', z3.Implies(given, z3.Not(asked)))
    E.oblige('otherwise the best choice is asked for', z3.Or(given, asked))
    o = z3.If(asked, best, d['*.v'][tag])
    gone = lambda k: z3.Or(hidden(k), z3.And(o != NONE, trackedF(o, k)))
    k = E.fresh(V, 'key')
    E.oblige('hidden and tracked keys leave', z3.Implies(z3.And(gone(k), k != tag), z3.Not(t['has'][k])))
    E.oblige('the other keys are kept', z3.Implies(z3.And(d['has'][k], z3.Not(gone(k)), k != tag), z3.And(t['has'][k], t['*.v'][k] == d['*.v'][k])))
    E.oblige('no key is added but the tag', z3.Implies(z3.And(t['has'][k], k != tag), d['has'][k]))
    kept = z3.Or(o == NONE, z3.Not(trackedF(o, tag)))
    E.oblige('the outcome is stored under the tag', z3.And(t['has'][tag] == kept, z3.Implies(t['has'][tag], t['*.v'][tag] == o), z3.Implies(asked, kept)))
    frame_oblige(ip, '%s: nothing else is modified' % n, heap0, {c.rd.cid, c.g.cid})


class LCtx(Ctx):
    def __init__(self):
        super().__init__(callees={CO + 'pickup': self.pickup})

    def pickup(self, ip, args, kw):
        """Contract of pickup: the description is the result."""
        E = ip.E
        ip.used_contracts.add('Collector.pickup')
        r = args[1]
        self.asked = dict(E.tree(r))
        t = fresh_tree(E.nt(r), E.fresh_name('picked'))
        self.out = t
        E.put(r, t)
        E.assume(t['has'][self.tag])
        return r


@contract('Collector.load', 'P07 P12', CO + 'load', ctx=LCtx)
def load(ip):
    """What a pickup of the description stores under the tag."""
    E = ip.E
    c = ip.ctx
    rd, dt = mkdesc(ip)
    c.tag = E.fresh(V, 'tag')
    E.assume(V.is_sv(c.tag))
    co = E.new_obj(ip.repo.cls('collectors:Collector'), {'tag': T(c.tag)}, 'collector')
    heap0 = dict(E.st.heap)
    r = run_target(ip, CO + 'load', [co], {'**': rd})
    E.oblige('pickup of the same description', same_map(c.asked, dt))
    E.oblige('the object stored', ip.term(r) == c.out['*.v'][c.tag])
    frame_oblige(ip, 'load: nothing else is modified', heap0, set())
