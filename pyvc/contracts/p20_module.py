"""The module functions: pickup, load, default, grep, collected_classes, reset_package_priority (P20, P07, P12, P13)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from contracts._coll import CLS
from contracts.p02_firstguess import mkdesc
from contracts.p06_fasttrack import locals_nt

M = '__init__:'
tagged = UF('collector_of_tag', V, V)
heldF = UF('collector_holds', V, V, BOOL)          # collector, class
grepF = UF('collector_greps', V, V, BOOL)          # collector, instance
anyheld = UF('some_collector_holds', V, BOOL)
holder = UF('holder', V, V)
anygrep = UF('some_collector_greps', V, BOOL)
grepper = UF('grepper', V, V)
resF = UF('collector_result', V, V, V)
SETUP = ('report', 'lreport_len', 'report_style')


def inseq(t, x):
    return z3.And(t['lo'] <= t['last'][x], t['last'][x] < t['hi'])


class MCtx(Ctx):
    merge = True
    rd = None
    ghost = None
    args = None

    def __init__(self):
        super().__init__()
        self.done = []
        self.coll = OpqCls('collector', isa=('collectors:Collector',), attrs={
            'pickup': lambda ip, o: Stub('pickup', lambda ip2, a, k: self.call(ip2, o, 'pickup', a, k)),
            'load': lambda ip, o: Stub('load', lambda ip2, a, k: self.call(ip2, o, 'load', a, k)),
            'default': lambda ip, o: Stub('default', lambda ip2, a, k: self.call(ip2, o, 'default', a, k)),
            'items': lambda ip, o: Stub('items', lambda ip2, a, k: self.seq(ip2, lambda x: heldF(o.t, x), CLS)),
            'grep': lambda ip, o: Stub('grep', lambda ip2, a, k: self.grep(ip2, o, k)),
            'reset_package_level': lambda ip, o: Stub('reset_package_level', lambda ip2, a, k: self.reset(ip2, o, a))})

    def seq(self, ip, inside, opq):
        E = ip.E
        nt = Set('obj')
        nt.kopq = opq
        t = fresh_tree(nt, E.fresh_name('held'))
        x = z3.Const('mq_x', V)
        p = inside(x)
        E.assume(forall(x, t['mem'][x] == p, [t['mem'][x]]), forall(x, t['mem'][x] == p, [p]))
        return E.new_cell(nt, t, 'held', frozen=True)

    def grep(self, ip, o, kw):
        ip.E.oblige('grep is asked for the same attributes', z3.And(z3.BoolVal(isinstance(kw.get('**'), Ref)), same_map(ip.E.tree(kw['**']), self.dt)))
        return self.seq(ip, lambda x: grepF(o.t, x), CLS)

    def reset(self, ip, o, a):
        ip.E.oblige('the package and the level', z3.And(ip.term(a[0]) == self.args[0], ip.term(a[1]) == self.args[1]))
        m = ip.E.tree(self.ghost)['mem']
        ip.E.put(self.ghost, {'mem': z3.Store(m, o.t, z3.BoolVal(True))})
        return C(None)

    def call(self, ip, o, name, a, k):
        """Contract of Collector.pickup, load, default."""
        E = ip.E
        ip.used_contracts.add('Collector.' + name)
        r = a[0] if name == 'pickup' else k.get('**')
        E.oblige('%s: asked to the collector of the tag' % name, o.t == tagged(self.tag))
        E.oblige('%s: the description without the tag' % name, z3.And(z3.BoolVal(isinstance(r, Ref)), *([self.without(E.tree(r))] if isinstance(r, Ref) else [])))
        E.oblige('%s: nothing else' % name, z3.BoolVal(len(a) == (1 if name == 'pickup' else 0) and len(k) == (0 if name == 'pickup' else 1)))
        return T(self.result)

    def without(self, t):
        x = z3.Const('wi_x', V)
        return z3.And(forall(x, t['has'][x] == z3.And(self.dt['has'][x], x != REG.s('tag')), [t['has'][x]]),
                      forall(x, z3.Implies(t['has'][x], t['*.v'][x] == self.dt['*.v'][x]), [t['*.v'][x]]))

    def glob(self, ip, name, module):
        if name == 'setup':
            return T(REG.o('setup'), OpqCls('setup', attrs={n: (lambda n2: lambda ip2, o: T(UF('setup_' + n2, V, V)(o.t)))(n) for n in SETUP}))
        return None

    def construct(self, ip, info, args, kw):
        """The collector of a tag (GetByTag): the same one each time, created with these settings."""
        if info.full != 'collectors:Collector':
            return None
        st = REG.o('setup')
        ip.E.oblige('the collector, with the settings', z3.And([z3.BoolVal(not args and set(kw) == set(SETUP) | {'tag'})] +
                                                             [ip.term(kw[n]) == UF('setup_' + n, V, V)(st) for n in SETUP if n in kw]))
        return T(tagged(ip.term(kw['tag'])), self.coll)

    def cls_attr(self, ip, c, name):
        if c.info.full == 'collectors:Collector' and name == 'tag_values':
            return Stub('tag_values', lambda ip2, a, k: self.all)
        return None

    def invariants(self, ip, fr, L):
        x, c = z3.Const('mi_x', V), z3.Const('mi_c', V)
        out = []
        if L.kind not in ('set', 'seq'):
            return []
        if self.ghost is not None:
            m = ip.E.tree(self.ghost)['mem']
            out.append(('the collectors met', forall(x, m[x] == L.visited(x), [m[x]])))
        if self.what is None:
            return out
        f, some = self.what
        for n, r in locals_nt(ip, fr, lambda nt: isinstance(nt, (Set, Seq))):
            nt = ip.E.nt(r)
            if isinstance(nt, Seq) and nt.keycomp() is None:
                continue
            t = ip.E.tree(r)
            if r.cid == self.all.cid:
                continue
            trig = t['mem'][x] if isinstance(nt, Set) else t['last'][x]
            inb = (lambda z: t['mem'][z]) if isinstance(nt, Set) else (lambda z: inseq(t, z))
            out.append(('%s: only what some collector gives' % n, forall(x, z3.Implies(inb(x), some(x)), [trig])))
            out.append(('%s: all that the collectors met give' % n, forall([c, x], z3.Implies(z3.And(L.visited(c), f(c, x)), inb(x)), [f(c, x)])))
        return out
    what = None


def world(ip):
    E, c = ip.E, ip.ctx
    nt = Set('obj')
    nt.kopq = c.coll
    t = fresh_tree(nt, E.fresh_name('collectors'))
    c.all = E.new_cell(nt, t, 'collectors', frozen=True)
    c.D = t['mem']
    c.what = c.ghost = None
    x = z3.Const('mw_x', V)
    E.assume(forall(x, z3.Implies(c.D[x], V.is_rv(x)), [c.D[x]]))


def union_rules(ip, f, some, wit):
    """some(x): a registered collector has x (its witness)."""
    E, c = ip.E, ip.ctx
    x, k = z3.Const('mu_x', V), z3.Const('mu_c', V)
    E.assume(forall([k, x], z3.Implies(z3.And(c.D[k], f(k, x)), some(x)), [f(k, x)]), forall(x, z3.Implies(some(x), z3.And(c.D[wit(x)], f(wit(x), x), V.is_rv(x), canon(x) == x)), [some(x)]))
    c.what = (f, some)


@contract('footprints.pickup load default', 'P07 P12 P20', M + 'pickup ' + M + 'load ' + M + 'default collectors:get', ctx=MCtx, assumptions=['GetByTag gives the object of the tag, the same one each time (bronx)'])
def entry(ip):
    """The collector of the tag (garbage without a tag) is asked, with the current settings, and its answer is given back."""
    E, c = ip.E, ip.ctx
    world(ip)
    n = ('pickup', 'load', 'default')[E.decide(3)]
    rd, c.dt = mkdesc(ip, frozen=False)
    c.rd = rd
    c.tag = z3.If(c.dt['has'][REG.s('tag')], c.dt['*.v'][REG.s('tag')], REG.s('garbage'))
    c.result = E.fresh(V, 'result')
    heap0 = dict(E.st.heap)
    r = run_target(ip, M + n, [rd] if n == 'pickup' else [], {} if n == 'pickup' else {'**': rd})
    E.oblige('%s: the answer of the collector' % n, ip.term(r) == c.result)
    frame_oblige(ip, '%s: nothing else is modified' % n, heap0, {rd.cid})


@contract('footprints.collected_classes', 'P20 P13', M + 'collected_classes collectors:values', ctx=MCtx)
def classes(ip):
    """The classes of all the collectors."""
    E, c = ip.E, ip.ctx
    world(ip)
    union_rules(ip, heldF, anyheld, holder)
    heap0 = dict(E.st.heap)
    r = run_target(ip, M + 'collected_classes', [])
    y = E.fresh(V, 'cls')
    E.oblige('exactly the classes of the collectors', E.tree(r)['mem'][y] == anyheld(y))
    frame_oblige(ip, 'collected_classes: nothing is modified', heap0, set())


@contract('footprints.grep', 'P12 P20', M + 'grep collectors:values', ctx=MCtx)
def grep(ip):
    """The instances found by all the collectors."""
    E, c = ip.E, ip.ctx
    world(ip)
    union_rules(ip, grepF, anygrep, grepper)
    rd, c.dt = mkdesc(ip)
    heap0 = dict(E.st.heap)
    r = run_target(ip, M + 'grep', [], {'**': rd})
    y = E.fresh(V, 'obj')
    E.oblige('grep: exactly what the collectors find', inseq(E.tree(r), y) == anygrep(y))
    frame_oblige(ip, 'grep: nothing is modified', heap0, set())


@contract('footprints.reset_package_priority', 'P13', M + 'reset_package_priority collectors:values', ctx=MCtx)
def reset(ip):
    """Every collector, each once."""
    E, c = ip.E, ip.ctx
    world(ip)
    p, t = E.fresh(V, 'packname'), E.fresh(V, 'tag')
    c.args = (p, t)
    nt = Set('obj')
    g = fresh_tree(nt, E.fresh_name('reset'))
    x = z3.Const('rp_x', V)
    E.assume(forall(x, z3.Not(g['mem'][x]), [g['mem'][x]]))
    c.ghost = E.new_cell(nt, g, 'reset')
    heap0 = dict(E.st.heap)
    run_target(ip, M + 'reset_package_priority', [T(p), T(t)])
    y = E.fresh(V, 'coll')
    E.oblige('the package is reset in every collector', E.tree(c.ghost)['mem'][y] == c.D[y])
    frame_oblige(ip, 'reset_package_priority: nothing else is modified', heap0, {c.ghost.cid})
