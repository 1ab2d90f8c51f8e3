"""Terms, typed heap cells, path exploration and obligations."""
import os
import time
import z3

# ------------------------------------------------------------------ values as z3 terms
_V = z3.Datatype('V')
_V.declare('none')
_V.declare('bv', ('b', z3.BoolSort()))
_V.declare('iv', ('i', z3.IntSort()))
_V.declare('sv', ('s', z3.IntSort()))       # a string, known by the number of its content
_V.declare('rv', ('r', z3.IntSort()))       # any other object
V = _V.create()
NONE = V.none
BOOL, INT = z3.BoolSort(), z3.IntSort()


class Unsupported(Exception):
    """The construct is outside the subset: the function is not decided (never a violation)."""


class Infeasible(Exception):
    """The current path is dead."""


class Registry:
    """Numbers of the literal strings and of the known objects."""

    def __init__(self):
        self.strs, self.objs = {}, {}

    def s(self, text):
        return V.sv(z3.IntVal(self.strs.setdefault(text, len(self.strs))))

    def o(self, key):
        return V.rv(z3.IntVal(-1 - self.objs.setdefault(key, len(self.objs))))


REG = Registry()
REG.s('')            # number 0
UNK = REG.o('UNKNOWN')

_fun_cache = {}


_alive = []


def MP(*terms):
    """Multi-pattern; its terms are kept alive (this z3 does not do it)."""
    p = z3.MultiPattern(*terms)
    _alive.append((terms, p))
    return p


def UF(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _fun_cache:
        _fun_cache[key] = z3.Function(name, *sorts)
    return _fun_cache[key]


canonU = UF('canonU', V, V)
truthU = UF('truthU', V, BOOL)
instU = UF('instU', V, V, BOOL)
strsub = UF('strsub', V, BOOL)
hashableF = UF('hashable', V, BOOL)


def is_lit_str(t):
    return z3.is_app(t) and t.decl().name() == 'sv' and z3.is_int_value(t.arg(0))


def canon(t):
    """Representative of the class of the objects equal to t."""
    if is_lit_str(t) or t.eq(NONE):
        return t
    if t.eq(UNK):
        return REG.s('__unknown__')
    if z3.is_app(t) and t.decl().name() == 'rv' and z3.is_int_value(t.arg(0)):
        return t             # a known class or object: only equal to itself
    if z3.is_app(t) and t.decl().name() == 'canon_w':
        return t
    return z3.If(z3.Or(V.is_sv(t), t == NONE), t, z3.If(t == UNK, REG.s('__unknown__'), canonU(t)))


def eq(a, b):
    """a == b (Python), for terms."""
    if a.eq(b):
        return z3.BoolVal(True)
    if a.eq(NONE) or b.eq(NONE):
        return a == b        # assumption: only None equals None
    return canon(a) == canon(b)


def truth(t):
    if t.eq(NONE):
        return z3.BoolVal(False)
    return z3.If(V.is_none(t), z3.BoolVal(False), z3.If(V.is_bv(t), V.b(t), z3.If(V.is_iv(t), V.i(t) != 0,
                 z3.If(V.is_sv(t), V.s(t) != 0, z3.If(t == UNK, z3.BoolVal(True), truthU(t))))))


def is_str(t):
    if is_lit_str(t) or t.eq(UNK):
        return z3.BoolVal(True)
    return z3.Or(V.is_sv(t), t == UNK, z3.And(V.is_rv(t), strsub(t)))


def _axioms():
    x, k = z3.Const('ax_x', V), z3.Const('ax_k', V)
    STR = REG.o('class:str')
    return [z3.ForAll([x], instU(x, STR) == is_str(x), patterns=[instU(x, STR)]),
            z3.ForAll([x], z3.Implies(is_str(x), z3.Or(hashableF(x), V.is_rv(x))), patterns=[hashableF(x)]),
            z3.ForAll([x], z3.Implies(z3.Not(V.is_rv(x)), hashableF(x)), patterns=[hashableF(x)]),
            hashableF(UNK)]


# ------------------------------------------------------------------ typed trees (contents of the heap cells)
class NT:
    def comps(self, pre='', idx=()):
        """[(component name, sort)] lifted over the index sorts."""
        raise NotImplementedError

    def __repr__(self):
        return self.__class__.__name__


def lift(sort, idx):
    for s in reversed(idx):
        sort = z3.ArraySort(s, sort)
    return sort


class Leaf(NT):
    """ty: V, name (a str), bool, int."""

    def __init__(self, ty='V'):
        self.ty = ty
        self.sort = dict(bool=BOOL, int=INT).get(ty, V)

    def comps(self, pre='', idx=()):
        return [(pre + 'v', lift(self.sort, idx))]

    def __repr__(self):
        return 'Leaf(%s)' % self.ty


class Map(NT):
    def __init__(self, child=None, key='V'):
        self.child, self.key = child or Leaf(), key

    def comps(self, pre='', idx=()):
        return [(pre + 'has', lift(z3.ArraySort(V, BOOL), idx))] + self.child.comps(pre + '*.', idx + (V,))

    def __repr__(self):
        return 'Map(%r)' % self.child


class Set(NT):
    def __init__(self, key='V'):
        self.key = key

    def comps(self, pre='', idx=()):
        return [(pre + 'mem', lift(z3.ArraySort(V, BOOL), idx))]


class Rec(NT):
    """A dictionary with literal keys; optional ones carry a presence flag. A tuple: fields '0', '1'..."""

    def __init__(self, fields, opt=(), tup=False):
        self.fields, self.opt, self.tup = dict(fields), set(opt), tup

    def comps(self, pre='', idx=()):
        out = []
        for f, nt in self.fields.items():
            if f in self.opt:
                out.append((pre + f + '?', lift(BOOL, idx)))
            out += nt.comps(pre + f + '.', idx)
        return out

    def __repr__(self):
        return 'Rec(%s)' % ','.join(self.fields)


class Seq(NT):
    """Positions lo <= i < hi; last[x]: a position of x when x is an element (last occurrence), outside else.
    elem: Leaf or Rec(tup) (then last is about the first component)."""

    def __init__(self, elem=None):
        self.elem = elem or Leaf()

    def comps(self, pre='', idx=()):
        return [(pre + 'lo', lift(INT, idx)), (pre + 'hi', lift(INT, idx)), (pre + 'last', lift(z3.ArraySort(V, INT), idx))] + \
            self.elem.comps(pre + '*.', idx + (INT,))

    def __repr__(self):
        return 'Seq(%r)' % self.elem

    def keycomp(self, pre=''):
        e = self.elem
        if isinstance(e, Leaf):
            return pre + '*.v'
        if not isinstance(e, Rec):
            return None         # containers: no occurrence table
        for f, nt in e.fields.items():
            if isinstance(nt, Leaf) and nt.sort == V:
                return pre + '*.' + f + '.v'
        f = next(iter(e.fields))
        if not isinstance(e.fields[f], Leaf):
            return None
        return pre + '*.' + f + '.v'


def empty_tree(nt):
    out = {}
    for name, sort in nt.comps():
        out[name] = default_of(sort, name)
    if isinstance(nt, Seq):
        out['lo'] = out['hi'] = z3.IntVal(0)
        out['last'] = z3.K(V, z3.IntVal(-1))
    return out


def default_of(sort, name):
    if sort.kind() == z3.Z3_ARRAY_SORT:
        return z3.K(sort.domain(), default_of(sort.range(), name))
    if sort == BOOL:
        return z3.BoolVal(False)
    if sort == INT:
        return z3.IntVal(-1 if name.endswith('last') else 0)
    return NONE


def fresh_tree(nt, name):
    return {c: z3.Const('%s.%s' % (name, c), s) for c, s in nt.comps()}


def sub_nt(nt, path):
    for kind, key in path:
        if kind == 'f':
            nt = nt.fields[key]
        elif isinstance(nt, Seq):
            nt = nt.elem
        else:
            nt = nt.child
    return nt


def get_sub(tree, path):
    """Sub-tree at path: items ('f', field) or ('k', term)."""
    for kind, key in path:
        if kind == 'f':
            pre = key + '.'
            tree = {c[len(pre):]: t for c, t in tree.items() if c.startswith(pre)}
        else:
            tree = {c[2:]: z3.Select(t, key) for c, t in tree.items() if c.startswith('*.')}
    return tree


def set_sub(tree, path, new):
    """tree with the sub-tree at path replaced."""
    if not path:
        return dict(new)
    (kind, key), rest = path[0], path[1:]
    out = dict(tree)
    pre = key + '.' if kind == 'f' else '*.'
    old = get_sub(tree, path[:1])
    upd = set_sub(old, rest, new)
    for c, t in upd.items():
        if kind == 'f':
            out[pre + c] = t
        elif not t.eq(old[c]):
            out[pre + c] = z3.Store(tree[pre + c], key, t)
    return out


# ------------------------------------------------------------------ engine values
class Val:
    pass


class T(Val):
    """A dynamic value. opq: optional opaque class (model of its methods)."""
    __slots__ = ('t', 'opq')

    def __init__(self, t, opq=None):
        self.t, self.opq = t, opq

    def __repr__(self):
        return 'T(%s)' % self.t


class C(Val):
    """A Python constant: None, str, int, bool, float, or an opaque python object (regex...)."""
    __slots__ = ('py',)

    def __init__(self, py):
        self.py = py

    def __repr__(self):
        return 'C(%r)' % (self.py,)


class B(Val):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'B(%s)' % self.b


class I(Val):
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'I(%s)' % self.i


class Tup(Val):
    __slots__ = ('vs',)

    def __init__(self, vs):
        self.vs = list(vs)

    def __repr__(self):
        return 'Tup(%r)' % (self.vs,)


class Ref(Val):
    """A container: node of a heap cell."""
    __slots__ = ('cid', 'path')

    def __init__(self, cid, path=()):
        self.cid, self.path = cid, tuple(path)

    def __repr__(self):
        return 'Ref(%s%s)' % (self.cid, ''.join('/' + str(k) for _, k in self.path))


class Obj(Val):
    """An instance of a class of the repository."""
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return 'Obj(%s)' % self.cid


class Fn(Val):
    def __init__(self, info, closure=None, defaults=None):
        self.info, self.closure, self.defaults = info, closure, defaults


class Bound(Val):
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class ClsV(Val):
    """A class of the repository."""

    def __init__(self, info):
        self.info = info


class BCls(Val):
    """A builtin (or foreign) class."""

    def __init__(self, name):
        self.name = name


class Mod(Val):
    def __init__(self, name):
        self.name = name


class Stub(Val):
    """A modelled callable: fn(interp, args, kw) -> Val."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Null(Val):
    """Ignores everything (loggers...)."""

    def __init__(self, name):
        self.name = name


class IterV(Val):
    """A lazy iterable: description of an iteration domain."""

    def __init__(self, dom):
        self.dom = dom


class Unbound(Val):
    pass


class Cell:
    """Immutable record of a container's content (functional updates)."""
    __slots__ = ('nt', 'tree', 'virgin', 'frozen', 'fwd')

    def __init__(self, nt, tree, virgin=False, frozen=False, fwd=None):
        self.nt, self.tree, self.virgin, self.frozen, self.fwd = nt, tree, virgin, frozen, fwd


class OCell:
    __slots__ = ('cls', 'fields', 'frozen')

    def __init__(self, cls, fields, frozen=False):
        self.cls, self.fields, self.frozen = cls, fields, frozen


class State:
    def __init__(self):
        self.pc, self.heap = [], {}
        self.decided = set()        # positions in pc of the branch conditions (the others are facts)

    def copy(self):
        s = State()
        s.pc, s.heap, s.decided = list(self.pc), dict(self.heap), set(self.decided)
        return s

    def branch(self, cond):
        self.decided.add(len(self.pc))
        self.pc.append(cond)


class PyRaise(Exception):
    """An exception of the program under verification. cls: Val of class (BCls / ClsV)."""

    def __init__(self, cls, val=None, origin=''):
        self.cls, self.val, self.origin = cls, val, origin


class Ret(Exception):
    def __init__(self, val):
        self.val = val


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Outcome:
    def __init__(self, kind, val, st, env, decs):
        self.kind, self.val, self.st, self.env, self.decs = kind, val, st, env, decs


class Run:
    def __init__(self, name, prefix):
        self.name, self.prefix, self.pos, self.taken, self.alts, self.counter = name, list(prefix), 0, [], [], 0

    @property
    def replaying(self):
        return self.pos < len(self.prefix)


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'exact', 'where')

    def __init__(self, name, pc, goal, exact, where):
        self.name, self.pc, self.goal, self.exact, self.where = name, pc, goal, exact, where


def has_quant(t, cache={}):
    k = t.get_id()
    if k in cache:
        return cache[k][1]
    todo, seen, r = [t], set(), False
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            r = True
            break
        todo.extend(u.children())
    cache[k] = (t, r)
    return r


SAVE = os.environ.get('PYVC_SAVE')


class Solver:
    """z3 behind a small interface; counts and times its queries."""

    def __init__(self):
        self.n, self.secs, self.fast_unsat = 0, 0.0, 0
        self.ax = _axioms()

    def check(self, fs, ms, ax=True, model=False, slow=True):
        """A portfolio: pure E-matching first (complete when it answers unsat), then the default configuration."""
        t0 = time.time()
        r = z3.unknown
        quant = ax and any(has_quant(f) for f in fs)
        if quant and not model:
            s = z3.SimpleSolver()
            s.set('timeout', min(ms, 5000))
            s.set('auto_config', False)
            s.set('mbqi', False)
            s.add(*self.ax)
            s.add(*fs)
            r = s.check()
            if r == z3.sat:
                r = z3.unknown
            self.fast_unsat += r == z3.unsat
        if r == z3.unknown and (slow or not quant):
            s = z3.Solver()
            s.set('timeout', ms)
            if ax:
                s.add(*self.ax)
            s.add(*fs)
            r = s.check()
        if SAVE and time.time() - t0 > 2:
            with open('%s/q%d-%s.smt2' % (SAVE, self.n, r), 'w') as f:
                f.write(s.to_smt2())
        self.n += 1
        self.secs += time.time() - t0
        if SAVE:
            import sys
            f = sys._getframe(1)
            while f.f_code.co_filename.endswith('core.py'):
                f = f.f_back
            print('   Q %.2f %s quant=%s %s:%d' % (time.time() - t0, r, quant, f.f_code.co_name, f.f_lineno), flush=True)
        return r, s

    def feasible(self, pc, extra):
        fs = [f for f in pc if not has_quant(f)] + list(extra)
        r, _ = self.check(fs, 1500, ax=False)
        return r != z3.unsat

    def proves(self, pc, goal, ms, slow=True):
        if z3.is_true(z3.simplify(goal)):
            return True
        r, _ = self.check(list(pc) + [z3.Not(goal)], ms, slow=slow)
        return r == z3.unsat


class Engine:
    MAXPATHS = 4000

    def __init__(self):
        self.solver = Solver()
        self.st = State()
        self.run = Run('', [])
        self.obls = []
        self.quiet = 0
        self.memo = {}
        self.where = ''
        self.exact = True
        self.prefix = ''
        self.deadline = None
        self.cellctr = 0

    # -------------------------------------------------- names and facts
    def fresh_name(self, hint='x'):
        self.run.counter += 1
        return '%s%d!%s' % (self.run.name, self.run.counter, hint)

    def fresh(self, sort=V, hint='x'):
        return z3.Const(self.fresh_name(hint), sort)

    def assume(self, *fs):
        for f in fs:
            if z3.is_false(z3.simplify(f)):
                raise Infeasible()
            self.st.pc.append(f)

    def oblige(self, name, goal):
        if self.quiet or self.run.replaying:
            return
        self.obls.append(Obl(name, list(self.st.pc), goal, self.exact, self.where))

    def oblige_at(self, o, name, goal):
        if not self.quiet:
            self.obls.append(Obl(name, list(o.st.pc), goal, False, self.where))

    def choose_q(self, cond):
        """choose for a quantified condition: refuted with all the facts first."""
        if self.run.pos >= len(self.run.prefix):
            dead = self.solver.proves(self.st.pc, z3.Not(cond), 1500)
            run = self.run
            run.pos += 1
            if dead:
                run.taken = run.taken + [2]
                return False
            run.alts.append(run.taken + [0])
            run.taken = run.taken + [1]
            self.st.branch(cond)
            return True
        return self.choose(cond)

    # -------------------------------------------------- decisions
    def decide(self, n):
        """An n-way decision without feasibility check."""
        run = self.run
        if run.pos < len(run.prefix):
            d = run.prefix[run.pos]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                run.alts.append(run.taken + [j])
        run.pos += 1
        run.taken = run.taken + [d]
        return d

    def choose(self, cond):
        """Fork on a z3 condition: True or False, the path condition being extended."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        run = self.run
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the exploration exhausted')
        if run.pos < len(run.prefix):
            d = run.prefix[run.pos]
            run.pos += 1
            run.taken = run.taken + [d]
            if d in (2, 3):          # forced
                d -= 2
            else:
                self.st.branch(cond if d else z3.Not(cond))
            return bool(d)
        yes = self.solver.feasible(self.st.pc, [cond])
        no = self.solver.feasible(self.st.pc, [z3.Not(cond)]) if yes else True
        run.pos += 1
        if yes and no:
            run.alts.append(run.taken + [0])
            run.taken = run.taken + [1]
            self.st.branch(cond)
            return True
        d = 1 if yes else 0
        run.taken = run.taken + [d + 2]
        # implied: recorded as well (cheap, helps the solver)
        return bool(d)

    def explore(self, body, st0, frame, env0, name):
        """All the paths of body() from st0; the engine's own state is restored."""
        saved = (self.run, self.st, dict(frame.env) if frame is not None else None, self.exact)
        outs, work, n = [], [[]], 0
        try:
            while work:
                dec = work.pop()
                n += 1
                if n > self.MAXPATHS:
                    raise Unsupported('too many paths')
                self.run = Run(name, dec)
                self.st = st0.copy()
                self.exact = saved[3]
                if frame is not None:
                    frame.env = dict(env0)
                try:
                    kind, val = 'end', None
                    try:
                        val = body()
                    except Ret as r:
                        kind, val = 'return', r.val
                    except Brk:
                        kind = 'break'
                    except Cont:
                        kind = 'end'
                    except PyRaise as e:
                        kind, val = 'raise', e
                    o = Outcome(kind, val, self.st, dict(frame.env) if frame is not None else {}, self.run.taken)
                    o.exact = self.exact
                    outs.append(o)
                except Infeasible:
                    pass
                work.extend(self.run.alts)
        finally:
            self.run, self.st = saved[0], saved[1]
            self.exact = saved[3]
            if frame is not None:
                frame.env = saved[2]
        return outs

    # -------------------------------------------------- heap
    def new_cell(self, nt, tree=None, hint='c', virgin=False, frozen=False):
        cid = self.fresh_name(hint)
        self.st.heap[cid] = Cell(nt, tree if tree is not None else empty_tree(nt), virgin, frozen)
        return Ref(cid)

    def new_obj(self, cls, fields=None, hint='o', frozen=False):
        cid = self.fresh_name(hint)
        self.st.heap[cid] = OCell(cls, dict(fields or {}), frozen)
        return Obj(cid)

    def cell(self, ref):
        c = self.st.heap[ref.cid]
        n = 0
        while c.fwd is not None:
            ref = Ref(c.fwd.cid, c.fwd.path + ref.path)
            c = self.st.heap[ref.cid]
            n += 1
            assert n < 20
        return c, ref

    def nt(self, ref):
        c, ref = self.cell(ref)
        return sub_nt(c.nt, ref.path)

    def tree(self, ref):
        c, ref = self.cell(ref)
        return get_sub(c.tree, ref.path)

    def put(self, ref, tree):
        c, ref = self.cell(ref)
        if c.frozen:
            self.oblige('frame[%s]' % ref.cid, z3.BoolVal(False))
            raise Unsupported('write to a read-only container (%s)' % ref.cid)
        self.st.heap[ref.cid] = Cell(c.nt, set_sub(c.tree, ref.path, tree), False, False)

    def retype(self, ref, nt):
        """Gives its actual type to a container that is still empty and untouched."""
        c, ref = self.cell(ref)
        if not c.virgin or ref.path:
            raise Unsupported('container used with two different element types')
        self.st.heap[ref.cid] = Cell(nt, empty_tree(nt), True, False)
