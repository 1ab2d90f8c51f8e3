"""Symbolic interpreter of the Python subset."""
import ast
import os
import builtins as pybuiltins
import z3
from core import *          # noqa
from core import V, NONE, BOOL, INT
from repo import ClassInfo, FuncInfo
import lib


class Frame:
    def __init__(self, fn, module, env=None, closure=None):
        self.fn, self.module, self.env, self.closure = fn, module, env or {}, closure


class Poison(Val):
    def __init__(self, why):
        self.why = why


class LoopExit(Exception):
    pass


class NoJoin(Exception):
    """The outcomes of a statement have no common representation: they stay apart."""


class LoopInfo:
    """What a contract's loop invariant may talk about."""

    def __init__(self, kind, node, dom, vis=None, i=None, entry_st=None, entry_env=None, ordinal=0, modified=()):
        self.kind, self.node, self.dom, self.vis, self.i = kind, node, dom, vis, i
        self.entry_st, self.entry_env, self.ordinal, self.modified = entry_st, entry_env, ordinal, modified

    def visited(self, x):
        """x has been processed (keys)."""
        if self.kind == 'set':
            return z3.Select(self.vis, x)
        if self.kind == 'seq':
            l = z3.Select(self.dom.last, x)
            return z3.And(self.dom.lo <= l, l < self.i)
        raise Unsupported('visited in a while loop')


class Interp(lib.Lib):
    MAXDEPTH = 14

    def __init__(self, repo, ctx):
        self.E = Engine()
        self.repo = repo
        self.ctx = ctx
        self.depth = 0
        self.used_functions = {}
        self.used_contracts = set()
        self.assumed = set()
        self.loops_done = []
        self.loop_ordinals = {}
        self.discover = 0
        self.nomerge = 0
        self.nserial = 0

    # ================================================================ functions
    def call_function(self, fn, args, kw, node=None):
        info = fn.info
        h = self.ctx.callee(self, info)
        if h is not None:
            self.used_contracts.add(info.full)
            return h(self, args, kw)
        return self.inline(fn, args, kw)

    def inline(self, fn, args, kw):
        info = fn.info
        if self.depth > self.MAXDEPTH:
            raise Unsupported('inlining depth (recursion?) at %s' % info.full)
        env = self.bind(fn, args, kw)
        fr = Frame(fn, info.module, env, fn.closure)
        self.used_functions[info.full] = info
        self.depth += 1
        try:
            if isinstance(info.node, ast.Lambda):
                return self.eval(info.node.body, fr)
            ys = yield_from(info.node)
            if ys is not None:
                return IterV(self.dom(self.eval(ys, fr)))
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(info.node)):
                raise Unsupported('generator %s' % info.full)
            try:
                self.exec_block(info.node.body, fr)
            except Ret as r:
                return r.val
            return C(None)
        finally:
            self.depth -= 1

    def bind(self, fn, args, kw):
        info = fn.info
        a = info.node.args
        env = {}
        args = list(args)
        kw = dict(kw)
        star = kw.pop('**', None)
        pos = [x.arg for x in a.posonlyargs + a.args]
        ndef = len(a.defaults)
        for n, p in enumerate(pos):
            if args:
                if isinstance(args[0], StarArg):
                    raise Unsupported('starred argument for the parameter %s' % p)
                env[p] = args.pop(0)
                if p in kw:
                    raise PyRaise(BCls('TypeError'), origin='bind')
            elif p in kw:
                env[p] = kw.pop(p)
            elif star is not None and isinstance(star, Obj) and self.is_pdict(star) and p in self.E.st.heap[star.cid].fields:
                kw.update(self.E.st.heap[star.cid].fields)
                star = None
                env[p] = kw.pop(p)
            elif n >= len(pos) - ndef:
                env[p] = self.default_value(fn, a.defaults[n - (len(pos) - ndef)])
            else:
                raise PyRaise(BCls('TypeError'), origin='missing argument %s of %s' % (p, info.full))
        if a.vararg:
            env[a.vararg.arg] = args[0].v if len(args) == 1 and isinstance(args[0], StarArg) else Tup(args)
            if any(isinstance(x, StarArg) for x in args[1:]) or len(args) > 1 and isinstance(args[0], StarArg):
                raise Unsupported('several starred arguments')
        elif args:
            raise PyRaise(BCls('TypeError'), origin='too many arguments for %s' % info.full)
        for n, k in enumerate(a.kwonlyargs):
            if k.arg in kw:
                env[k.arg] = kw.pop(k.arg)
            elif a.kw_defaults[n] is not None:
                env[k.arg] = self.default_value(fn, a.kw_defaults[n])
            else:
                raise PyRaise(BCls('TypeError'), origin='bind')
        if a.kwarg:
            if star is not None:
                if kw:
                    raise Unsupported('keywords and ** together')
                env[a.kwarg.arg] = self.copy_container(star)
            else:
                env[a.kwarg.arg] = self.pdict(kw)
        elif kw or star is not None:
            if star is not None and isinstance(star, Obj) and self.is_pdict(star):
                raise Unsupported('** into positional parameters')
            raise PyRaise(BCls('TypeError'), origin='unexpected keyword for %s' % info.full)
        return env

    def default_value(self, fn, expr):
        if fn.defaults and '@%d' % id(expr) in fn.defaults:
            return fn.defaults['@%d' % id(expr)]
        fr = Frame(fn, fn.info.module, {}, fn.closure)
        return self.eval(expr, fr)

    # ================================================================ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.E.where = '%s:%s' % (fr.module.name, getattr(s, 'lineno', 0))
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(s).__name__, self.E.where))
        return m(s, fr)

    def x_ImportFrom(self, s, fr):
        if s.level != 1:
            raise Unsupported('local import')
        for a in s.names:
            fr.env[a.asname or a.name] = Mod('footprints.' + a.name) if s.module is None else self.global_name(a.name, self.repo.modules[s.module])

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Break(self, s, fr):
        raise Brk()

    def x_Continue(self, s, fr):
        raise Cont()

    def x_Return(self, s, fr):
        raise Ret(self.eval(s.value, fr) if s.value is not None else C(None))

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            self.set_item(o, self.eval(t.slice, fr), v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(t.id, ast.Load()), fr)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, fr)
            old = self.get_attr(base, t.attr)
        else:
            base = self.eval(t.value, fr)
            idx = self.eval(t.slice, fr)
            old = self.get_item(base, idx)
        new = self.aug(s.op, old, self.eval(s.value, fr))
        if new is old:
            return
        if isinstance(t, ast.Name):
            fr.env[t.id] = new
        elif isinstance(t, ast.Attribute):
            self.set_attr(base, t.attr, new)
        else:
            self.set_item(base, idx, new)

    def merged(self, s, fr, run):
        """Runs a statement, its normal outcomes being joined into one state (when the contract asks for it)."""
        E = self.E
        if not self.ctx.merge or self.nomerge:
            return run()
        E.run.counter += 1
        key = (E.run.name, tuple(E.run.taken), E.run.counter, id(s))
        if key not in E.memo:
            name = self.serial(E.run) + 'm/'
            replaying = E.run.replaying
            if replaying:
                E.quiet += 1

            def wrapped():
                try:
                    return run()
                except Cont:
                    raise PyRaise(Cont, None)
            try:
                outs = E.explore(wrapped, E.st, fr, dict(fr.env), name)
            finally:
                if replaying:
                    E.quiet -= 1
            E.memo[key] = self.join_outs(outs, E.st, name)
        outs = E.memo[key]
        if not outs:
            raise Infeasible()
        o = outs[E.decide(len(outs)) if len(outs) > 1 else 0]
        E.st = o.st.copy()
        fr.env = dict(o.env)
        E.exact = o.exact
        if o.kind == 'return':
            raise Ret(o.val)
        if o.kind == 'break':
            raise Brk()
        if o.kind == 'raise':
            raise Cont() if o.val.cls is Cont else o.val

    def join_outs(self, outs, st0, name, kind='end'):
        ends = [o for o in outs if o.kind == kind]
        if len(ends) < 2:
            return outs
        try:
            j = self.join_states([o.st for o in ends], [o.env for o in ends], st0, name)
        except NoJoin as e:
            if self.ctx.trace:
                print('   no join', name, e, flush=True)
            return outs
        o = Outcome(kind, None, j[0], j[1], [])
        o.exact = all(x.exact for x in ends)
        return [o] + [x for x in outs if x.kind != kind]

    def join_states(self, sts, envs, st0, name):
        n, n0 = len(sts), len(st0.pc)
        if n == 2:
            c = z3.Const(name + '~j', BOOL)
            gs = [c, z3.Not(c)]
        else:
            gs = [z3.Const('%s~j%d' % (name, i), BOOL) for i in range(n)]
        st = st0.copy()
        if n > 2:
            st.pc.append(z3.Or(gs))
        facts, order = {}, []
        for i, s in enumerate(sts):
            for f in s.pc[n0:]:
                if f.get_id() not in facts:
                    facts[f.get_id()] = (f, set())
                    order.append(f.get_id())
                facts[f.get_id()][1].add(i)
        for k in order:
            f, who = facts[k]
            st.pc.append(f if len(who) == n else z3.Implies(z3.Or([gs[i] for i in sorted(who)]), f))

        def ite(ts):
            r = ts[-1]
            for i in range(n - 2, -1, -1):
                r = ts[i] if ts[i].eq(r) else z3.If(gs[i], ts[i], r)
            return r

        def comp(ts, nm):
            if all(t.eq(ts[0]) for t in ts):
                return ts[0]
            if not z3.is_array(ts[0]):
                return ite(ts)
            # one store over a common array
            base = [t.arg(0) if z3.is_store(t) else t for t in ts]
            keys = [t.arg(1) for t in ts if z3.is_store(t)]
            for b in base + ts:
                if keys and all(k.eq(keys[0]) for k in keys) and all(t.eq(b) or (z3.is_store(t) and t.arg(0).eq(b)) for t in ts):
                    return z3.Store(b, keys[0], ite([z3.Select(t, keys[0]) if t.eq(b) else t.arg(2) for t in ts]))
            a = z3.Const(nm, ts[0].sort())
            for g, t in zip(gs, ts):
                st.pc.append(z3.Implies(g, a == t))
            return a
        lost = set()
        for cid in list(dict.fromkeys(c for s in sts for c in s.heap)):
            cs = [s.heap.get(cid) for s in sts]
            have = [c for c in cs if c is not None]
            if all(c is have[0] for c in have):
                st.heap[cid] = have[0]
                continue
            if isinstance(have[0], OCell):
                continue
            try:
                if any(not isinstance(c, Cell) or c.fwd is not None or c.frozen != have[0].frozen for c in have):
                    raise NoJoin('cell %s' % cid)
                typed = [c for c in have if not c.virgin]
                nt = (typed or have)[0].nt
                if any(repr(c.nt) != repr(nt) for c in typed) or any(type(c.nt) is not type(nt) for c in have):
                    raise NoJoin('types of %s' % cid)
                if not typed:
                    st.heap[cid] = have[0]
                    continue
                # a cell created in some branches only is not reachable from the others: any content will do
                trees = [(have[0] if c is None else c) for c in cs]
                trees = [empty_tree(nt) if c.virgin else c.tree for c in trees]
                st.heap[cid] = Cell(nt, {k: comp([t[k] for t in trees], '%s~%s.%s' % (name, cid, k)) for k in trees[0]}, False, have[0].frozen)
            except NoJoin:
                if cid in st0.heap:
                    raise
                lost.add(cid)
                st.heap.pop(cid, None)

        def refs(v):
            return v.cid in lost if isinstance(v, (Ref, Obj)) else any(map(refs, v.vs)) if isinstance(v, Tup) else False

        def val(vs):
            if any(v is None or isinstance(v, Poison) or refs(v) for v in vs):
                return None
            if all(self.same_val(vs[0], v) for v in vs):
                return vs[0]
            if all(isinstance(v, Tup) and len(v.vs) == len(vs[0].vs) for v in vs):
                r = [val([v.vs[k] for v in vs]) for k in range(len(vs[0].vs))]
                return None if any(x is None for x in r) else Tup(r)
            isb = [isinstance(v, B) or (isinstance(v, C) and isinstance(v.py, bool)) for v in vs]
            isi = [isinstance(v, I) or (isinstance(v, C) and type(v.py) is int) for v in vs]
            if all(isb):
                return B(ite([v.b if isinstance(v, B) else z3.BoolVal(v.py) for v in vs]))
            if all(isi):
                return I(ite([v.i if isinstance(v, I) else z3.IntVal(v.py) for v in vs]))
            if all(isinstance(v, (T, C, B, I)) for v in vs):
                opqs = {id(v.opq) for v in vs if isinstance(v, T)}
                if len(opqs) > 1 or any(isinstance(v, T) and v.opq is not None for v in vs) and not all(isinstance(v, T) for v in vs):
                    return None
                try:
                    return T(ite([self.term(v) for v in vs]), [v for v in vs if isinstance(v, T)][0].opq if opqs else None)
                except Unsupported:
                    return None
            return None
        for cid in list(dict.fromkeys(c for s in sts for c in s.heap)):
            cs = [s.heap.get(cid) for s in sts]
            have = [c for c in cs if c is not None]
            if cid in st.heap and st.heap[cid] is not st0.heap.get(cid) or not isinstance(have[0], OCell) or all(c is have[0] for c in have):
                continue
            if any(not isinstance(c, OCell) or c.cls is not have[0].cls for c in have):
                if cid in st0.heap:
                    raise NoJoin('object %s' % cid)
                lost.add(cid)
                continue
            fs = {}
            for f in dict.fromkeys(f for c in have for f in c.fields):
                v = val([c.fields.get(f) for c in have]) if len(have) == n else have[0].fields.get(f)
                if v is None:
                    raise NoJoin('field %s of %s' % (f, cid))
                fs[f] = v
            st.heap[cid] = OCell(have[0].cls, fs, have[0].frozen)
        env = {}
        for v in dict.fromkeys(v for e in envs for v in e):
            vs = [e.get(v) for e in envs]
            r = val(vs)
            if r is None and all(x is not None and not isinstance(x, Poison) for x in vs):
                raise NoJoin('variable %s' % v)
            env[v] = r if r is not None else Poison('%s has no value of one kind on all paths' % v)
        return st, env

    def x_If(self, s, fr):
        self.merged(s, fr, lambda: self.x_If1(s, fr))

    def x_If1(self, s, fr):
        if self.E.choose(self.truthy(self.eval(s.test, fr))):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Assert(self, s, fr):
        if not self.E.choose(self.truthy(self.eval(s.test, fr))):
            raise PyRaise(BCls('AssertionError'), origin=self.E.where)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.del_item(self.eval(t.value, fr), self.eval(t.slice, fr))
            else:
                raise Unsupported('del of an attribute')

    def x_FunctionDef(self, s, fr):
        info = FuncInfo(s, fr.module, None, fr.fn)
        # default values are evaluated at the definition
        dv = {}
        for a in list(s.args.defaults) + [d for d in s.args.kw_defaults if d is not None]:
            dv['@%d' % id(a)] = self.eval(a, fr)
        fr.env[s.name] = ClosureFn(info, fr, dv)

    def x_Raise(self, s, fr):
        if s.exc is None:
            if getattr(fr, 'handling', None):
                raise fr.handling[-1]
            raise Unsupported('bare raise')
        v = self.eval(s.exc, fr)
        if isinstance(v, (ClsV, BCls)):
            raise PyRaise(v, None, self.E.where)
        if isinstance(v, ExcV):
            raise PyRaise(v.cls, v, self.E.where)
        raise Unsupported('raise of %r' % (v,))

    def x_Try(self, s, fr):
        self.merged(s, fr, lambda: self.x_Try1(s, fr))

    def x_Try1(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if self.exc_matches(e, h.type, fr):
                        if h.name:
                            fr.env[h.name] = e.val if isinstance(e.val, Val) else ExcV(e.cls, [])
                        fr.handling = getattr(fr, 'handling', []) + [e]
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.handling = fr.handling[:-1]
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, fr)

    def exc_matches(self, e, type_node, fr):
        if type_node is None:
            return True
        t = self.eval(type_node, fr)
        for c in (t.vs if isinstance(t, Tup) else [t]):
            if self.exc_sub(e.cls, c):
                return True
        return False

    def exc_sub(self, a, b):
        """Exception class a is a subclass of b."""
        def names(c):
            if isinstance(c, BCls):
                k = getattr(pybuiltins, c.name, None)
                if k is None:
                    return {c.name, 'Exception', 'BaseException'}
                return {x.__name__ for x in k.__mro__}
            out = set()
            for x in self.repo.mro(c.info):
                if isinstance(x, ClassInfo):
                    out.add(x.full)
                else:
                    out |= names(BCls(x.split('.')[-1]))
            return out
        key = b.name if isinstance(b, BCls) else b.info.full
        return key in names(a)

    # ================================================================ loops
    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        dom = self.dom(it)
        if dom.kind == 'py':
            broke = False
            for v in dom.vals:
                self.assign(s.target, v, fr)
                try:
                    self.exec_block(s.body, fr)
                except Brk:
                    broke = True
                    break
                except Cont:
                    continue
            if not broke:
                self.exec_block(s.orelse, fr)
            return
        self.loop(s, fr, dom)

    def x_While(self, s, fr):
        n = self.ctx.unroll
        if not n:
            self.loop(s, fr, None)
            return
        # unrolled: complete, as the path after the last iteration must be dead
        for _ in range(n):
            if not self.E.choose(self.truthy(self.eval(s.test, fr))):
                self.exec_block(s.orelse, fr)
                return
            try:
                self.exec_block(s.body, fr)
            except Brk:
                return
            except Cont:
                continue
        if self.E.choose(self.truthy(self.eval(s.test, fr))):
            raise Unsupported('more than %d iterations of a while loop' % n)
        self.exec_block(s.orelse, fr)

    def serial(self, run):
        """A name of its own for the analysis of a statement on one path."""
        self.nserial += 1
        return '%s%d.%d' % (run.name, run.counter, self.nserial)

    def loop(self, s, fr, dom):
        E = self.E
        E.run.counter += 1
        key = (E.run.name, tuple(E.run.taken), E.run.counter, id(s))
        if key not in E.memo:
            was_replaying = E.run.replaying
            name = self.serial(E.run)
            outs = self.loop_analyse(s, fr, dom, name, was_replaying)
            E.memo[key] = self.join_outs(outs, E.st, name + 'x/', 'exit') if self.ctx.merge and not self.nomerge else outs
        outs = E.memo[key]
        if not outs:
            raise Infeasible()
        d = E.decide(len(outs)) if len(outs) > 1 else 0
        o = outs[d]
        E.st = o.st.copy()
        fr.env = dict(o.env)
        E.exact = o.exact
        if o.kind == 'exit':
            self.exec_block(s.orelse, fr)
        elif o.kind == 'return':
            raise Ret(o.val)
        elif o.kind == 'raise':
            raise o.val

    def loop_ordinal(self, s, fr):
        """Ordinal of the loop in its function (source order)."""
        node = fr.fn.info.node if fr.fn is not None else None
        if node is None:
            return 0
        k = 0
        for x in ast.walk(node):
            if isinstance(x, (ast.For, ast.While)):
                if x is s:
                    return k
                k += 1
        return -1

    def loop_analyse(self, s, fr, dom, name, was_replaying):
        E = self.E
        entry_st, entry_env = E.st.copy(), dict(fr.env)
        entry_exact = E.exact
        kind = dom.kind if dom is not None else 'while'
        ordinal = self.loop_ordinal(s, fr)
        lname = '%s.loop%d' % (fr.fn.info.qual if fr.fn else '?', ordinal)
        mods, flags = {}, {}

        def flag_invs(L):
            out = []
            for v, got in flags.items():
                cur, ini = fr.env.get(v), entry_env.get(v)
                if not isinstance(cur, (B, C)) or not isinstance(ini, (B, C)):
                    continue
                for n, g in enumerate(got):
                    if g is None:
                        continue
                    y = z3.Const('fl_y', g[0].sort())
                    rng = L.visited(y) if kind == 'set' else z3.And(dom.lo <= y, y < L.i)
                    c = z3.substitute(g[1], (g[0], y))
                    if n == 0:
                        out.append(('auto:%s.set' % v, self.truthy(cur) == z3.Or(self.truthy(ini), z3.Exists([y], z3.And(rng, c)))))
                    else:
                        out.append(('auto:%s.clear' % v, self.truthy(cur) == z3.And(self.truthy(ini), z3.Not(z3.Exists([y], z3.And(rng, c))))))
            return out

        def mkinfo(vis=None, i=None):
            return LoopInfo(kind, s, dom, vis, i, entry_st, entry_env, ordinal, tuple(mods))

        def invs(L):
            """Named candidate invariants at the current state."""
            out = list(self.generic_invs(L, mods, entry_st, entry_env, fr)) + flag_invs(L)
            for nm, f in self.ctx.invariants(self, fr, L):
                out.append((nm, f))
            return out

        def havocked(tag):
            E.st = entry_st.copy()
            env = dict(entry_env)
            for m, spec in mods.items():
                if m[0] == 'comp':
                    c = E.st.heap[m[1]]
                    tree = dict(c.tree)
                    tree[m[2]] = z3.Const('%s~%s.%s' % (tag, m[1], m[2]), tree[m[2]].sort())
                    E.st.heap[m[1]] = Cell(c.nt, tree, False, c.frozen, c.fwd)
                elif m[0] == 'field':
                    o = E.st.heap[m[1]]
                    fs = dict(o.fields)
                    fs[m[2]] = self.havoc_val(spec, '%s~%s.%s' % (tag, m[1], m[2]))
                    E.st.heap[m[1]] = OCell(o.cls, fs, o.frozen)
                elif m[0] == 'var':
                    env[m[1]] = self.havoc_val(spec, '%s~%s' % (tag, m[1]))
            fr.env = env
            touched = {m[1] for m in mods if m[0] == 'comp'}
            for cid in touched:
                c = E.st.heap[cid]
                self.assume_wf(c.nt, c.tree)
            for m, spec in mods.items():
                if m[0] == 'field' and isinstance(spec, tuple) and spec[0] == 'ref':
                    r = E.st.heap[m[1]].fields[m[2]]
                    self.assume_wf(E.nt(r), E.tree(r))
                if m[0] == 'var' and isinstance(spec, tuple) and spec[0] == 'ref':
                    r = fr.env[m[1]]
                    self.assume_wf(E.nt(r), E.tree(r))

        marks, marks2 = [0, 0], [None]

        def search_fact(outs, tag):
            """What an iteration that does not leave the loop says of its element, when it does not depend on what the loop modifies."""
            if kind == 'while':
                return None
            xc = z3.Const(tag + '~x', V) if kind == 'set' else z3.Const(tag + '~idx', INT)
            ends, cache = [], {}
            for o in outs:
                if o.kind != 'end':
                    continue
                dec = [o.st.pc[n] for n in range(marks[0], len(o.st.pc)) if n in o.st.decided]
                facts = [o.st.pc[n] for n in range(marks[1], len(o.st.pc)) if n not in o.st.decided]
                pp = PurePath(o, dec, facts, tag + '/', [xc], cache)
                ends.append((pp, dec))
            if not ends or any(not pp.dec for pp, _ in ends):
                return None
            cond = z3.Or([z3.And(pp.dec + [pp.sk(f) for f in pp.facts if not has_quant(f)]) for pp, _ in ends])
            if mentions(cond, tag + '~', xc) or not occurs(xc, cond):
                return None
            y = z3.Const('sf_y', xc.sort())
            c = z3.substitute(cond, (xc, y))

            def fact(rng):
                return z3.ForAll([y], z3.Implies(rng(y), c))
            return fact

        def body_step(tag, keep, over=None):
            """Runs one arbitrary iteration; returns (outcomes, info at the end)."""
            vis = z3.Const(tag + '~vis', z3.ArraySort(V, BOOL)) if kind == 'set' else None
            idx = z3.Const(tag + '~idx', INT) if kind == 'seq' else None
            x = z3.Const(tag + '~x', V) if kind == 'set' else None

            def run():
                havocked(tag)
                if over:
                    fr.env.update(over)
                L = mkinfo(vis, idx)
                if kind == 'set':
                    y = z3.Const('q_y', V)
                    E.assume(z3.ForAll([y], z3.Implies(vis[y], dom.has[y]), patterns=[vis[y]]))
                elif kind == 'seq':
                    E.assume(dom.lo <= idx, idx <= dom.hi)
                for nm, f in invs(L):
                    if keep is None or nm in keep:
                        E.assume(f)
                if kind == 'while':
                    marks2[0] = self.ctx.measure(self, fr, L)
                    if not E.choose(self.truthy(self.eval(s.test, fr))):
                        raise LoopExitSignal()
                elif kind == 'set':
                    E.assume(dom.has[x], z3.Not(vis[x]))
                    marks[1] = len(E.st.pc)
                    self.elem_facts(dom, x)
                    self.assign(s.target, dom.elem(x), fr)
                else:
                    E.assume(idx < dom.hi)
                    marks[1] = len(E.st.pc)
                    self.assign(s.target, dom.elem(idx), fr)
                if kind != 'while':
                    marks[0] = len(E.st.pc)
                self.exec_block(s.body, fr)
                return None

            def wrapped():
                try:
                    return run()
                except LoopExitSignal:
                    raise PyRaise(LoopExitSignal, None)
            outs = E.explore(wrapped, entry_st, fr, entry_env, tag + '/')
            for o in outs:
                if o.kind == 'raise' and o.val.cls is LoopExitSignal:
                    o.kind, o.val = 'exit', None
            if kind == 'set':
                Lend = lambda: mkinfo(z3.Store(vis, x, z3.BoolVal(True)), None)
            elif kind == 'seq':
                Lend = lambda: mkinfo(None, idx + 1)
            else:
                Lend = lambda: mkinfo()
            return outs, Lend

        # ---- what the body modifies
        E.quiet += 1
        self.discover += 1
        try:
            for rnd in range(10):
                outs, _ = body_step('%sd%d' % (name, rnd), set())
                new = {}
                for o in outs:
                    if o.kind == 'end':
                        self.diff_states(entry_st, entry_env, o, new, mods)
                if all(m in mods and self.spec_le(new[m], mods[m]) for m in new):
                    break
                for m, spec in new.items():
                    mods[m] = self.spec_join(mods.get(m), spec)
            else:
                raise Unsupported('modified set of a loop does not settle')
        finally:
            E.quiet -= 1
            self.discover -= 1
        # ---- flags: what sets and what clears a boolean variable
        if kind != 'while':
            E.quiet += 1
            try:
                for m, spec in mods.items():
                    if m[0] == 'var' and spec == ('bool',):
                        got = []
                        for start in (False, True):
                            tag = '%sf%d%s' % (name, int(start), m[1])
                            xc = z3.Const(tag + '~x', V) if kind == 'set' else z3.Const(tag + '~idx', INT)
                            outs, _ = body_step(tag, set(), {m[1]: C(start)})
                            hit, cache = [], {}
                            for o in outs:
                                v = o.env.get(m[1])
                                if o.kind != 'end' or not isinstance(v, (B, C)):
                                    continue
                                E.st = o.st
                                t = self.truthy(v)
                                dec = [o.st.pc[n] for n in range(marks[0], len(o.st.pc)) if n in o.st.decided]
                                pp = PurePath(o, dec, [], tag + '/', [xc], cache)
                                hit.append(z3.And(pp.dec + [pp.sk(z3.Not(t) if start else t)]))
                            c = z3.simplify(z3.Or(hit)) if hit else z3.BoolVal(False)
                            got.append((xc, c) if not mentions(c, tag + '~', xc) else None)
                        flags[m[1]] = got
            finally:
                E.quiet -= 1
        # ---- invariants: initially true candidates, then those that are preserved
        E.st, fr.env = entry_st.copy(), dict(entry_env)
        L0 = mkinfo(z3.K(V, z3.BoolVal(False)) if kind == 'set' else None, dom.lo if kind == 'seq' else None)
        keep = set()
        allnames = []
        for nm, f in ([] if self.discover else invs(L0)):
            allnames.append(nm)
            if self.inv_holds(nm, E.st.pc, f):
                keep.add(nm)
        rnd = 0
        while True:
            rnd += 1
            mark = len(E.obls)
            if was_replaying:
                E.quiet += 1
            try:
                outs, Lend = body_step('%sr%d' % (name, rnd), keep)
            finally:
                if was_replaying:
                    E.quiet -= 1
            bad = set()
            for o in outs:
                if o.kind != 'end':
                    continue
                E.st, fr.env = o.st, dict(o.env)
                fs = [(nm, f) for nm, f in invs(Lend()) if nm in keep and nm not in bad]
                if not fs:
                    continue
                if len(fs) > 1 and E.solver.proves(o.st.pc, z3.And([f for _, f in fs]), 1200, slow=False):
                    continue
                for nm, f in fs:
                    if not self.inv_holds(nm, o.st.pc, f):
                        bad.add(nm)
                        if self.ctx.trace:
                            if os.environ.get('DROPDIR') and not nm.startswith('auto:'):
                                sv = z3.SimpleSolver()
                                sv.add(*self.E.solver.ax)
                                sv.add(*o.st.pc)
                                sv.add(z3.Not(f))
                                self.ndrop = getattr(self, 'ndrop', 0) + 1
                                open('%s/%d-%s.%s.smt2' % (os.environ['DROPDIR'], self.ndrop, lname, nm.replace(' ', '_')), 'w').write(sv.to_smt2())
                                open('%s/%d.txt' % (os.environ['DROPDIR'], self.ndrop), 'w').write('\n'.join('PC ' + str(x).replace('\n', ' ') for x in o.st.pc) + '\nGOAL ' + str(f).replace('\n', ' '))
                            print('   drop', lname, nm, 'on path', o.decs, flush=True)
            if not bad:
                break
            keep -= bad
            del E.obls[mark:]
            if rnd > 12:
                raise Unsupported('invariants do not settle')
        if not (E.quiet or was_replaying):
            self.loops_done.append((lname, sorted(keep), sorted(set(allnames) - keep)))
            for nm in sorted(keep):
                if not nm.startswith('auto:'):
                    ob = Obl('%s.inv[%s]' % (lname, nm), [], z3.BoolVal(True), True, E.where)
                    E.obls.append(ob)
        if self.ctx.trace:
            print('   loop', lname, 'kept', sorted(keep), flush=True)
        # ---- outcomes
        res = []
        sfact = search_fact(outs, '%sr%d' % (name, rnd))
        exact = entry_exact and not mods
        for o in outs:
            if o.kind == 'end':
                E.st, fr.env = o.st, dict(o.env)
                self.check_dom_unchanged(dom, o, lname)
                if kind == 'while' and not (E.quiet or was_replaying):
                    end = self.ctx.measure(self, fr, mkinfo())
                    if marks2[0] is not None and end is not None:
                        E.obls.append(Obl('%s.variant' % lname, list(o.st.pc), z3.And(marks2[0] >= 0, end < marks2[0]), False, E.where))
                continue
            o.exact = exact and o.exact
            if sfact is not None:
                if kind == 'set':
                    vs = z3.Const('%sr%d~vis' % (name, rnd), z3.ArraySort(V, BOOL))
                    o.st.pc.append(sfact(lambda y: vs[y]))
                else:
                    ix = z3.Const('%sr%d~idx' % (name, rnd), INT)
                    o.st.pc.append(sfact(lambda y: z3.And(dom.lo <= y, y < ix)))
            res.append(o)
        if kind in ('set', 'seq'):
            havocked('%sx' % name)
            if kind == 'set':
                Lx = mkinfo(dom.has, None)
            else:
                Lx = mkinfo(None, dom.hi)
            for nm, f in invs(Lx):
                if nm in keep:
                    E.assume(f)
            if sfact is not None:
                E.assume(sfact((lambda y: dom.has[y]) if kind == 'set' else (lambda y: z3.And(dom.lo <= y, y < dom.hi))))
            for t in self.target_names(s.target):
                fr.env[t] = Poison('loop variable %s after the loop' % t)
            o = Outcome('exit', None, E.st, dict(fr.env), [])
            o.exact = exact
            res.append(o)
        E.st, fr.env = entry_st, entry_env
        return res

    def inv_holds(self, nm, pc, f):
        if nm.startswith('auto:'):
            return self.E.solver.proves(pc, f, 1000, slow=False)
        return self.E.solver.proves(pc, f, self.ctx.inv_ms)

    def target_names(self, t):
        return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]

    def check_dom_unchanged(self, dom, o, lname):
        """A dictionary or set is not resized while it is iterated over."""
        if dom is None or dom.src is None:
            return
        ref, comp0 = dom.src
        try:
            now = self.E.tree(ref)
        except KeyError:
            return
        for c, t0 in comp0.items():
            if not now[c].eq(t0):
                self.E.oblige_at(o, '%s.resized' % lname, now[c] == t0)

    # ---------------------------------------------------------------- havoc specs
    def spec_of(self, v):
        if isinstance(v, T):
            return ('V', v.opq)
        if isinstance(v, B):
            return ('bool',)
        if isinstance(v, I):
            return ('int',)
        if isinstance(v, C):
            return ('c', v.py, type(v.py).__name__)
        if isinstance(v, Ref):
            return ('ref', repr(self.E.nt(v)), self.E.nt(v))
        if isinstance(v, Tup):
            return ('tup', tuple(self.spec_of(x) for x in v.vs))
        return ('other', v)

    def spec_le(self, a, b):
        return self.spec_join(b, a) == b

    def spec_join(self, a, b):
        if a is None or a == b:
            return b if a is None else a
        if a[0] == 'poison' or b[0] == 'poison':
            return ('poison',)

        def base(s):
            if s[0] == 'c':
                return {'bool': ('bool',), 'int': ('int',)}.get(s[2], ('V', None))
            return s
        x, y = base(a), base(b)
        if x == y:
            return x
        if x[0] in ('V', 'bool', 'int') and y[0] in ('V', 'bool', 'int'):
            ox = x[1] if x[0] == 'V' else None
            oy = y[1] if y[0] == 'V' else None
            return ('V', ox or oy)
        if x[0] == 'ref' and y[0] == 'ref' and x[1] == y[1]:
            return x
        if x[0] == 'tup' and y[0] == 'tup' and len(x[1]) == len(y[1]):
            return ('tup', tuple(self.spec_join(p, q) for p, q in zip(x[1], y[1])))
        return ('poison',)

    def havoc_val(self, spec, name):
        k = spec[0]
        if k == 'V':
            return T(z3.Const(name, V), spec[1])
        if k == 'bool':
            return B(z3.Const(name, BOOL))
        if k == 'int':
            return I(z3.Const(name, INT))
        if k == 'c':
            return C(spec[1])
        if k == 'ref':
            cid = name + '@cell'
            self.E.st.heap[cid] = Cell(spec[2], fresh_tree(spec[2], cid))
            return Ref(cid)
        if k == 'tup':
            return Tup([self.havoc_val(x, '%s.%d' % (name, n)) for n, x in enumerate(spec[1])])
        return Poison('value of %s is not tracked through the loop' % name)

    def same_val(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, T):
            return a.t.eq(b.t)
        if isinstance(a, B):
            return a.b.eq(b.b)
        if isinstance(a, I):
            return a.i.eq(b.i)
        if isinstance(a, C):
            return a.py == b.py and type(a.py) is type(b.py)
        if isinstance(a, Ref):
            return a.cid == b.cid and len(a.path) == len(b.path) and all(p[0] == q[0] and (p[1] == q[1] if p[0] == 'f' else p[1].eq(q[1]))
                                                                         for p, q in zip(a.path, b.path))
        if isinstance(a, Obj):
            return a.cid == b.cid
        if isinstance(a, Tup):
            return len(a.vs) == len(b.vs) and all(self.same_val(x, y) for x, y in zip(a.vs, b.vs))
        return False

    def diff_states(self, st0, env0, o, new, mods):
        """What an iteration changed: heap components, fields, variables (w.r.t. the havocked start = any difference in names)."""
        E = self.E
        saved = E.st
        E.st = o.st
        start = o.start_st if hasattr(o, 'start_st') else None
        try:
            for cid, c0 in st0.heap.items():
                c1 = o.st.heap.get(cid)
                if c1 is c0 or c1 is None:
                    continue
                if isinstance(c0, OCell):
                    for f in set(c0.fields) | set(c1.fields):
                        if ('field', cid, f) in mods:
                            continue
                        a, b = c0.fields.get(f), c1.fields.get(f)
                        if a is not None and b is not None and self.same_val(a, b):
                            continue
                        new[('field', cid, f)] = self.spec_join(self.spec_of(a), self.spec_of(b)) if a is not None and b is not None else ('poison',)
                    continue
                if c1.fwd is not None and c0.fwd is None:
                    raise Unsupported('container stored elsewhere inside a loop')
                if c1.virgin and c0.virgin:
                    continue        # still untouched
                if repr(c1.nt) != repr(c0.nt):
                    if not c0.virgin:
                        raise Unsupported('container retyped inside a loop')
                    # its actual element type is met in the loop: give it from the start
                    st0.heap[cid] = Cell(c1.nt, empty_tree(c1.nt), True, False)
                    c0 = st0.heap[cid]
                    new[('retype', cid)] = ('retype',)
                for k in c1.tree:
                    if not c1.tree[k].eq(c0.tree[k]) and ('comp', cid, k) not in mods:
                        new[('comp', cid, k)] = ('comp',)
            for v in set(env0) | set(o.env):
                a, b = env0.get(v), o.env.get(v)
                if a is not None and b is not None and self.same_val(a, b):
                    continue
                if b is None or a is None:
                    sp = ('poison',)
                else:
                    E.st = st0
                    try:
                        sa = self.spec_of(a)
                    except KeyError:
                        sa = ('poison',)
                    E.st = o.st
                    sp = self.spec_join(sa, self.spec_of(b))
                m = ('var', v)
                if m in new:
                    sp = self.spec_join(new[m], sp)
                if m not in mods or not self.spec_le(sp, mods[m]):
                    new[m] = sp
        finally:
            E.st = saved

    # ---------------------------------------------------------------- generic invariants
    def generic_invs(self, L, mods, st0, env0, fr):
        E = self.E
        x = z3.Const('gi_x', V)
        out = []
        names = [(n, v.t) for n, v in fr.env.items() if isinstance(v, T) and ('var', n) not in mods]
        for cid in sorted({m[1] for m in mods if m[0] == 'comp'}):
            c, c0 = E.st.heap[cid], st0.heap[cid]
            if isinstance(c.nt, Seq) and isinstance(c.nt.elem, Leaf) and c.nt.elem.ty == 'name' and repr(c0.nt) == repr(c.nt):
                out += self.seq_invs('auto:%s' % cid, c.nt, c.tree, c0.tree, names)
            if isinstance(c.nt, Seq) and repr(c0.nt) == repr(c.nt):
                out += self.copy_invs(L, 'auto:%s' % cid, c.nt, c.tree, c0.tree)
        for m in mods:
            if m[0] == 'comp':
                c = E.st.heap[m[1]]
                cur, ini = c.tree[m[2]], st0.heap[m[1]].tree[m[2]]
                nm = 'auto:%s.%s' % (m[1], m[2])
                srt = cur.sort()
                if srt.kind() == z3.Z3_ARRAY_SORT and srt.domain() == V:
                    if L.kind == 'set':
                        out.append((nm + '.novis', qall([x], z3.Implies(z3.Not(L.visited(x)), cur[x] == ini[x]), patterns=[cur[x]])))
                    if L.kind == 'seq' and L.dom.last is not None:
                        out.append((nm + '.novis', qall([x], z3.Implies(z3.Not(L.visited(x)), cur[x] == ini[x]), patterns=[cur[x]])))
                    if srt.range() == BOOL:
                        out.append((nm + '.grow', qall([x], z3.Implies(ini[x], cur[x]), patterns=[cur[x]])))
                        out.append((nm + '.shrink', qall([x], z3.Implies(cur[x], ini[x]), patterns=[cur[x]])))
                        if L.kind == 'set':
                            out.append((nm + '.adds', qall([x], z3.Implies(cur[x], z3.Or(ini[x], L.visited(x))), patterns=[cur[x]])))
            elif m[0] == 'var':
                a, b = env0.get(m[1]), fr.env.get(m[1])
                if isinstance(b, B):
                    for nm, f in (('true', b.b), ('false', z3.Not(b.b))):
                        out.append(('auto:%s.%s' % (m[1], nm), f))
                elif isinstance(b, I) and isinstance(a, (I, C)):
                    i0 = self.to_int(a)
                    out.append(('auto:%s.ge' % m[1], b.i >= i0))
                elif isinstance(b, T) and isinstance(a, (T, C)):
                    out.append(('auto:%s.same' % m[1], b.t == self.term(a)))
                    out.append(('auto:%s.str' % m[1], is_str(b.t)))
                    out.append(('auto:%s.samestr' % m[1], z3.Implies(is_str(self.term(a)), is_str(b.t))))
        return out

    def copy_invs(self, L, nm, nt, cur, ini):
        """Candidates about a list to which each iteration appends: one element per element met, holding what was met."""
        x, i = z3.Const('ci_x', V), z3.Const('ci_i', INT)
        out = []
        if L.kind == 'set' and nt.keycomp() is not None and cur[nt.keycomp()].sort().range() == V:
            key = cur[nt.keycomp()]
            inb = z3.And(cur['lo'] <= cur['last'][x], cur['last'][x] < cur['hi'])
            out.append((nm + '.met', qall([x], z3.Implies(L.visited(x), inb), patterns=[cur['last'][x]])))
            out.append((nm + '.met2', qall([x], z3.Implies(z3.And(inb, cur['last'][x] >= ini['hi']), L.visited(x)), patterns=[cur['last'][x]])))
            out.append((nm + '.once', qall([i], z3.Implies(z3.And(cur['lo'] <= i, i < cur['hi']), cur['last'][key[i]] == i), patterns=[key[i]])))
        if L.kind == 'seq':
            out.append((nm + '.count', cur['hi'] - ini['hi'] == L.i - L.dom.lo))
            v = L.dom.elem(L.dom.lo + i - ini['hi'])
            for c in (v.vs if isinstance(v, Tup) else [v]):
                for k in cur:
                    if k.startswith('*.') and isinstance(c, (T, B, I)):
                        t = c.t if isinstance(c, T) else c.b if isinstance(c, B) else c.i
                        if cur[k].sort() == z3.ArraySort(INT, t.sort()):
                            out.append((nm + '.copy', qall([i], z3.Implies(z3.And(ini['hi'] <= i, i < cur['hi']), cur[k][i] == t), patterns=[cur[k][i]])))
        return out

    def seq_invs(self, nm, nt, cur, ini, names):
        """Candidates about a sequence of names that changes: no duplicate, subset, order, all kept but for one name."""
        x, y, i = z3.Const('gs_x', V), z3.Const('gs_y', V), z3.Const('gs_i', INT)
        key = cur[nt.keycomp()]

        def inb(t, u):
            return z3.And(t['lo'] <= t['last'][u], t['last'][u] < t['hi'])
        out = [(nm + '.distinct', qall([i], z3.Implies(z3.And(cur['lo'] <= i, i < cur['hi']), cur['last'][key[i]] == i), patterns=[key[i]])),
               (nm + '.subset', qall([x], z3.Implies(inb(cur, x), inb(ini, x)), patterns=[cur['last'][x]])),
               (nm + '.superset', qall([x], z3.Implies(inb(ini, x), inb(cur, x)), patterns=[cur['last'][x]])),
               (nm + '.order', qall([x, y], z3.Implies(z3.And(inb(cur, x), inb(cur, y), inb(ini, x), inb(ini, y)),
                                                            (cur['last'][x] < cur['last'][y]) == (ini['last'][x] < ini['last'][y])),
                                         patterns=[MP(cur['last'][x], cur['last'][y])]))]
        for v, t in names:
            out.append((nm + '.kept-but-' + v, qall([x], z3.Implies(z3.And(x != t, inb(ini, x)), inb(cur, x)), patterns=[cur['last'][x]])))
        return out

    def assume_wf(self, nt, tree, pre='', idx=()):
        """Structural facts kept by every operation."""
        for f in wf_facts(nt, tree):
            self.E.st.pc.append(f)

    # ================================================================ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (type(e).__name__, self.E.where))
        return m(e, fr)

    def e_Constant(self, e, fr):
        return C(e.value)

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.env:
                v = f.env[n]
                if isinstance(v, Poison):
                    raise Unsupported('%s: %s' % (n, v.why))
                return v
            f = f.closure
        return self.global_name(n, fr.module)

    def global_name(self, n, module):
        g = self.ctx.glob(self, n, module)
        if g is not None:
            return g
        if n in module.funcs:
            return Fn(module.funcs[n])
        if n in module.classes:
            return ClsV(module.classes[n])
        if n in module.assigns:
            return self.module_const(n, module)
        if n in module.imports:
            imp = module.imports[n]
            if imp[0] == 'mod':
                return Mod(imp[1])
            _, level, mod, orig = imp
            if level == 1:
                if mod is None:
                    return Mod('footprints.' + orig)
                return self.global_name(orig, self.repo.modules[mod])
            if mod in ('weakref', 'collections', 'copy'):
                r = self.mod_attr(Mod(mod), orig)
                if r is not None:
                    return r
            return Mod('%s.%s' % (mod, orig))
        if hasattr(pybuiltins, n):
            v = getattr(pybuiltins, n)
            if isinstance(v, type):
                return BCls(n)
            return Stub(n, getattr(self, 'b_' + n, None) or self.unsupported_stub(n))
        raise PyRaise(BCls('NameError'), origin=n)

    def unsupported_stub(self, n):
        def f(*a, **k):
            raise Unsupported('builtin %s' % n)
        return f

    def module_const(self, n, module):
        v = module.assigns[n]
        if isinstance(v, ast.Constant):
            if n == 'UNKNOWN':
                return T(UNK)
            return C(v.value)
        if n == 'logger':
            return Null('logger')
        try:
            return C(ast.literal_eval(v))
        except ValueError:
            pass
        return T(REG.o('const:%s.%s' % (module.name, n)), self.ctx.opq_const(module.name, n))

    def e_Tuple(self, e, fr):
        vs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                d = self.dom(self.eval(x.value, fr))
                if d.kind != 'py':
                    raise Unsupported('starred symbolic')
                vs += d.vals
            else:
                vs.append(self.eval(x, fr))
        return Tup(vs)

    def e_List(self, e, fr):
        vs = self.e_Tuple(e, fr).vs
        kinds = {type(self.E.nt(x)).__name__ if isinstance(x, Ref) else '' for x in vs}
        if len(kinds) > 1:
            # a list used as a record: its items are of several kinds
            return self.E.new_obj('plist', {str(n): x for n, x in enumerate(vs)}, 'plist')
        r = self.new_seq()
        for x in vs:
            self.seq_append(r, x)
        return r

    def e_Set(self, e, fr):
        r = self.new_set()
        for x in e.elts:
            self.set_add(r, self.eval(x, fr))
        return r

    def e_Dict(self, e, fr):
        if not e.keys:
            return self.new_map()
        if any(k is None for k in e.keys):
            raise Unsupported('** in a dict display')
        ks = [self.eval(k, fr) for k in e.keys]
        vs = [self.eval(v, fr) for v in e.values]
        if all(isinstance(k, C) and isinstance(k.py, str) for k in ks):
            return self.pdict({k.py: v for k, v in zip(ks, vs)})
        r = self.new_map()
        for k, v in zip(ks, vs):
            self.set_item(r, k, v)
        return r

    def e_Lambda(self, e, fr):
        return ClosureFn(FuncInfo(e, fr.module, None, fr.fn), fr, {'@%d' % id(a): self.eval(a, fr) for a in e.args.defaults})

    def e_IfExp(self, e, fr):
        if self.E.choose(self.truthy(self.eval(e.test, fr))):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for n, x in enumerate(e.values):
            v = self.eval(x, fr)
            if n == len(e.values) - 1:
                return v
            t = self.truthy(v)
            # no fork when the rest is a simple condition (keeps the number of paths low)
            if self.E.choose(t) != is_and:
                if isinstance(v, B):
                    return C(not is_and)
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return self.mkbool(z3.Not(self.truthy(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, C):
                return C(-v.py)
            return I(-self.to_int(v))
        raise Unsupported('unary operator')

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            if not self.E.choose(self.truthy(c)):
                return C(False)
            res, left = c, right
        return C(True)

    def e_Attribute(self, e, fr):
        return self.get_attr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, fr) if e.slice.lower else None
            hi = self.eval(e.slice.upper, fr) if e.slice.upper else None
            if e.slice.step is not None:
                raise Unsupported('slice step')
            return self.get_slice(o, lo, hi)
        return self.get_item(o, self.eval(e.slice, fr))

    def e_JoinedStr(self, e, fr):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.eval(x.value, fr)
        return self.opaque_str('fstr')

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        fr.env[e.target.id] = v
        return v

    def e_Call(self, e, fr):
        f = e.func
        # super().meth(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' \
                and not f.value.args:
            info = fr.fn.info
            selfv = fr.env[info.node.args.args[0].arg]
            cls = self.class_of(selfv)
            m = self.repo.lookup(cls, f.attr, after=info.cls)
            args, kw = self.args(e, fr)
            if m is None:
                h = self.ctx.super_method(self, info.cls, f.attr)
                if h is None:
                    raise Unsupported('super().%s outside the repository' % f.attr)
                return h(self, [selfv] + args, kw)
            return self.call_function(Fn(m), [selfv] + args, kw)
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
            raise Unsupported('super() object')
        # comprehension consumers keep their own treatment
        if isinstance(f, ast.Name) and f.id in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) \
                and self.is_builtin(f.id, fr):
            return self.quantified(f.id, e.args[0], fr)
        fv = self.eval(f, fr)
        if isinstance(fv, Null):
            for a in e.args:
                if isinstance(a, ast.Name):
                    continue
            return fv
        args, kw = self.args(e, fr)
        return self.call(fv, args, kw)

    def is_builtin(self, n, fr):
        try:
            v = self.name(n, fr)
        except (PyRaise, Unsupported):
            return False
        return isinstance(v, (Stub, BCls))

    def args(self, e, fr):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                d = self.dom(v)
                if d.kind != 'py':
                    args.append(StarArg(v))
                else:
                    args += d.vals
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, Obj) and self.is_pdict(v):
                    kw.update(self.E.st.heap[v.cid].fields)
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def call(self, fv, args, kw):
        if isinstance(fv, ClosureFn):
            return self.inline(fv, args, kw)
        if isinstance(fv, Fn):
            return self.call_function(fv, args, kw)
        if isinstance(fv, Bound):
            if isinstance(fv.fn, Stub):
                return fv.fn.fn(self, [fv.self_] + args, kw)
            return self.call_function(fv.fn, [fv.self_] + args, kw)
        if isinstance(fv, Stub):
            return fv.fn(self, args, kw)
        if isinstance(fv, Null):
            return fv
        if isinstance(fv, BCls):
            return self.call_bcls(fv, args, kw)
        if isinstance(fv, ClsV):
            return self.instantiate(fv, args, kw)
        if isinstance(fv, T):
            return self.call_opaque(fv, args, kw)
        if isinstance(fv, Obj):
            m = self.repo.lookup(self.E.st.heap[fv.cid].cls, '__call__')
            if isinstance(m, FuncInfo):
                return self.call_function(Fn(m), [fv] + args, kw)
        raise Unsupported('call of %r' % (fv,))

    # ---------------------------------------------------------------- comprehensions
    def e_ListComp(self, e, fr):
        return self.comp('list', e, fr)

    def e_SetComp(self, e, fr):
        return self.comp('set', e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp('list', e, fr)

    def e_DictComp(self, e, fr):
        return self.comp('dict', e, fr)

    def pure(self, fn, fr, facts, hint, xs):
        """All the paths of a side effect free evaluation that depends on the constants xs: [PurePath]. The constants it
        introduces are functions of xs."""
        E = self.E
        base = len(E.st.pc)
        E.run.counter += 1
        st = E.st.copy()
        st.pc += facts
        E.quiet += 1
        pre = '%s%d.%s/' % (E.run.name, E.run.counter, hint)
        try:
            outs = E.explore(fn, st, fr, dict(fr.env), pre)
        finally:
            E.quiet -= 1
        res, cache = [], {}
        for o in outs:
            for cid, c0 in st.heap.items():
                c1 = o.st.heap.get(cid)
                if c1 is not c0 and not (isinstance(c0, Cell) and isinstance(c1, Cell) and c1.fwd is None and c0.fwd is None and c1.tree == c0.tree):
                    raise Unsupported('side effect inside a comprehension')
            n0 = base + len(facts)
            res.append(PurePath(o, [o.st.pc[k] for k in range(n0, len(o.st.pc)) if k in o.st.decided],
                                [o.st.pc[k] for k in range(n0, len(o.st.pc)) if k not in o.st.decided], pre, xs, cache))
            if not o.exact:
                E.exact = False
        return res

    def pure_facts(self, outs, xs, rng):
        """The facts met on the way hold for every x."""
        for o in outs:
            for f in o.facts:
                f = o.sk(f)
                if any(occurs(x, f) for x in xs):
                    f = z3.ForAll(list(xs), z3.Implies(z3.And([rng] + o.dec), f))
                elif o.dec:
                    f = z3.Implies(z3.Exists(list(xs), z3.And([rng] + o.dec)), f) if any(occurs(x, d) for x in xs for d in o.dec) else z3.Implies(z3.And(o.dec), f)
                self.E.st.pc.append(f)

    def comp(self, kind, e, fr):
        if len(e.generators) != 1:
            return self.comp_multi(kind, e, fr)
        g = e.generators[0]
        dom = self.dom(self.eval(g.iter, fr))
        if dom.kind == 'py':
            return self.comp_py(kind, e, g, dom, fr)
        saved = dict(fr.env)
        name = self.E.fresh_name('cx')
        x = z3.Const(name, V if dom.kind == 'set' else INT)
        rng = dom.has[x] if dom.kind == 'set' else z3.And(dom.lo <= x, x < dom.hi)
        facts = [rng]
        st_pc = len(self.E.st.pc)
        st0 = self.E.st
        self.E.st = st0.copy()
        self.elem_facts(dom, x)
        facts += self.E.st.pc[st_pc:]
        self.E.st = st0

        def body():
            self.assign(g.target, dom.elem(x), fr)
            for c in g.ifs:
                if not self.E.choose(self.truthy(self.eval(c, fr))):
                    return None
            if kind == 'dict':
                return Tup([self.eval(e.key, fr), self.eval(e.value, fr)])
            return self.eval(e.elt, fr)
        outs = self.pure(body, fr, facts, 'comp', [x])
        fr.env = saved
        self.comp_facts(facts[1:], x, rng)
        self.pure_facts(outs, [x], rng)
        # exceptions
        for o in outs:
            if o.exc is not None:
                cond = z3.Exists([x], z3.And(rng, *o.dec))
                if self.E.choose_q(cond):
                    raise o.exc
        sel = [o for o in outs if o.exc is None and o.val is not None]
        P = z3.Or([z3.And([rng] + o.dec) for o in sel]) if sel else z3.BoolVal(False)
        if sel and all(o.val is not None for o in outs if o.exc is None):
            P = rng
        return self.build_comp(kind, dom, x, P, sel)

    def comp_facts(self, facts, x, rng):
        for f in facts:
            self.E.st.pc.append(z3.ForAll([x], z3.Implies(rng, f)) if occurs(x, f) else f)

    def comp_py(self, kind, e, g, dom, fr):
        saved = dict(fr.env)
        out = []
        for v in dom.vals:
            self.assign(g.target, v, fr)
            if all(self.E.choose(self.truthy(self.eval(c, fr))) for c in g.ifs):
                if kind == 'dict':
                    out.append((self.eval(e.key, fr), self.eval(e.value, fr)))
                else:
                    out.append(self.eval(e.elt, fr))
        fr.env = saved
        if kind == 'dict':
            r = self.new_map()
            for k, v in out:
                self.set_item(r, k, v)
            return r
        if kind == 'set':
            r = self.new_set()
            for v in out:
                self.set_add(r, v)
            return r
        if self.ctx.real_lists and isinstance(e, ast.ListComp) and out and all(isinstance(v, I) for v in out):
            return self.E.new_obj('plist', {str(n): x for n, x in enumerate(out)}, 'plist')
        if self.ctx.real_lists and isinstance(e, ast.ListComp) and all(isinstance(v, T) and v.opq is None for v in out):
            r = self.new_seq()
            for v in out:
                self.seq_append(r, v)
            return r
        return Tup(out) if out else self.new_seq()

    def comp_multi(self, kind, e, fr):
        raise Unsupported('comprehension with several loops')

    def quantified(self, which, e, fr):
        if len(e.generators) != 1:
            raise Unsupported('nested quantified comprehension')
        g = e.generators[0]
        dom = self.dom(self.eval(g.iter, fr))
        saved = dict(fr.env)
        if dom.kind == 'py':
            res = C(which == 'all')
            for v in dom.vals:
                self.assign(g.target, v, fr)
                if all(self.E.choose(self.truthy(self.eval(c, fr))) for c in g.ifs):
                    if self.E.choose(self.truthy(self.eval(e.elt, fr))) != (which == 'all'):
                        res = C(which != 'all')
                        break
            fr.env = saved
            return res
        name = self.E.fresh_name('qx')
        x = z3.Const(name, V if dom.kind == 'set' else INT)
        rng = dom.has[x] if dom.kind == 'set' else z3.And(dom.lo <= x, x < dom.hi)
        n0 = len(self.E.st.pc)
        st0 = self.E.st
        self.E.st = st0.copy()
        self.elem_facts(dom, x)
        facts = [rng] + self.E.st.pc[n0:]
        self.E.st = st0

        def body():
            self.assign(g.target, dom.elem(x), fr)
            for c in g.ifs:
                if not self.E.choose(self.truthy(self.eval(c, fr))):
                    return C(which == 'all')
            return B(self.truthy(self.eval(e.elt, fr)))
        outs = self.pure(body, fr, facts, 'quant', [x])
        fr.env = saved
        self.comp_facts(facts[1:], x, rng)
        self.pure_facts(outs, [x], rng)
        for o in outs:
            if o.exc is not None:
                raise Unsupported('exception inside any/all')
        # the element that decides: skolemised, hit <=> Exists x. yes(x)
        yes = z3.Or([z3.And([rng] + o.dec + [o.sk(self.truthy(o.val)) if which == 'any' else z3.Not(o.sk(self.truthy(o.val)))]) for o in outs])
        yes = z3.simplify(yes)
        if z3.is_false(yes):
            return C(which == 'all')
        b = self.E.fresh(BOOL, which)
        w = self.E.fresh(x.sort(), 'w')
        self.E.assume(z3.Implies(b, z3.substitute(yes, (x, w))))
        self.E.assume(z3.Implies(z3.Not(b), z3.ForAll([x], z3.Not(yes))))
        return B(b if which == 'any' else z3.Not(b))


def yield_from(node):
    """The expression of a function that is nothing but a 'yield from'."""
    body = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
    if len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.YieldFrom):
        return body[0].value.value
    return None


def occurs(x, t):
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u.eq(x):
            return True
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        todo.extend(u.children())
        if z3.is_quantifier(u):
            todo.append(u.body())
    return False


def qall(xs, body, patterns):
    """A quantified formula; without its pattern when the term cannot be one (ite, lambda...)."""
    try:
        return z3.ForAll(xs, body, patterns=patterns)
    except z3.Z3Exception:
        return z3.ForAll(xs, body)


def mentions(t, prefix, but):
    """t depends on a constant of that prefix."""
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name().startswith(prefix) and not u.eq(but):
            return True
        todo.extend(u.children())
        if z3.is_quantifier(u):
            todo.append(u.body())
    return False


class PurePath:
    """One path of an evaluation under a quantified variable."""

    def __init__(self, o, dec, facts, pre, xs, cache):
        self.o, self.pre, self.xs, self.cache = o, pre, xs, cache
        self.exc = o.val if o.kind == 'raise' else None
        self.val = o.val if o.kind != 'raise' else None
        self.facts = facts
        self.dec = [self.sk(d) for d in dec]

    def sk(self, t):
        """The constants introduced on the way, as functions of xs."""
        subs, todo, seen = [], [t], set()
        while todo:
            u = todo.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_quantifier(u):
                todo.append(u.body())
                continue
            if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name().startswith(self.pre):
                n = u.decl().name()
                k = (n, str(u.sort()))
                if k not in self.cache:
                    self.cache[k] = z3.Function(n + '@', *([x.sort() for x in self.xs] + [u.sort()]))(*self.xs)
                subs.append((u, self.cache[k]))
            todo.extend(u.children())
        return z3.substitute(t, *subs) if subs else t


class ClosureFn(Fn):
    def __init__(self, info, frame, defaults):
        super().__init__(info, frame, defaults)


class ExcV(Val):
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class StarArg(Val):
    def __init__(self, v):
        self.v = v


class LoopExitSignal(Exception):
    pass


def wf_facts(nt, tree):
    """Facts kept by every operation on sequences (root level), nothing else."""
    out = []
    if isinstance(nt, Seq):
        out += seq_facts(nt, tree)
    return out


def fall(x, body, pat):
    try:
        return z3.ForAll([x], body, patterns=[pat])
    except z3.Z3Exception:          # the trigger was simplified away (constant array)
        return z3.ForAll([x], body)


def seq_facts(nt, tree):
    lo, hi, last = tree['lo'], tree['hi'], tree['last']
    if nt.keycomp() is None or tree[nt.keycomp()].sort().range() != V:
        return [0 <= lo, lo <= hi]
    key = tree[nt.keycomp()]
    x, i = z3.Const('wf_x', V), z3.Const('wf_i', INT)
    return [0 <= lo, lo <= hi,
            fall(x, z3.Or(last[x] == -1, z3.And(lo <= last[x], last[x] < hi, key[last[x]] == x)), last[x]),
            fall(i, z3.Implies(z3.And(lo <= i, i < hi), z3.And(i <= last[key[i]], last[key[i]] < hi)), key[i])]


lib.ClosureFn, lib.ExcV, lib.StarArg, lib.Poison, lib.seq_facts = ClosureFn, ExcV, StarArg, Poison, seq_facts
