"""Contracts: what is assumed about the environment of a function (Ctx) and what is proved of it (Contract)."""
import z3
from core import *          # noqa
from core import V, NONE, BOOL, INT
from repo import ClassInfo, FuncInfo


class Ctx:
    """Environment of a function under verification: contracts of its callees, models of the foreign objects.

    Every hook returns None when it has nothing to say."""
    inv_ms = 4000
    unroll = 0
    merge = False
    real_lists = False     # a list comprehension over literals is a list that methods may change
    trace = False

    def __init__(self, callees=None, globs=None, invs=None, **hooks):
        self.callees, self.globs, self.invs = callees or {}, globs or {}, invs or []
        for k, v in hooks.items():
            setattr(self, k, v)

    def callee(self, ip, info):
        return self.callees.get(info.full)

    def glob(self, ip, name, module):
        g = self.globs.get(module.name + ':' + name)
        return g(ip) if callable(g) else g

    def opq_const(self, module, name):
        return None

    def invariants(self, ip, fr, L):
        out = []
        for f in self.invs:
            try:
                out += [(n, g) for n, g in f(ip, fr, L)]
            except (KeyError, AttributeError, Unsupported):
                continue
        return out

    def measure(self, ip, fr, L):
        """What decreases at each iteration of a while loop, and stays positive."""
        return None

    def super_method(self, ip, cls, name):
        return None

    def obj_attr(self, ip, v, name):
        return None

    def obj_truthy(self, ip, v):
        return None

    def obj_item(self, ip, o, k):
        return None

    def obj_setitem(self, ip, o, k, v):
        return None

    def obj_contains(self, ip, o, x):
        return None

    def obj_iter(self, ip, o):
        return None

    def obj_setattr(self, ip, o, name, v):
        return None

    def obj_hasattr_dyn(self, ip, o, n):
        return None

    def obj_attr_dyn(self, ip, o, n, default):
        return None

    def obj_setattr_dyn(self, ip, o, n, v):
        return None

    def cls_attr(self, ip, c, name):
        return None

    def bcls_attr(self, ip, c, name):
        return None

    def mod_attr(self, ip, mod, name):
        return None

    def opaque_attr(self, ip, v, name):
        return None

    def opaque_hasattr(self, ip, v, name):
        return None

    def open_opq(self, opq, name):
        return False

    def construct(self, ip, info, args, kw):
        return None

    def call_bcls(self, ip, name, args, kw):
        return None

    def call_opaque(self, ip, fv, args, kw):
        return None

    def binop(self, ip, n, a, b):
        return None

    def slice(self, ip, o, lo, hi):
        return None


class Contract:
    """props: properties it serves. targets: the functions under contract. body(ip): sets the precondition up, runs the
    function and emits the postconditions (ip.E.oblige). ctx(): the environment."""

    def __init__(self, name, props, targets, body, ctx=None, assumptions=(), title='', budget=None):
        self.name, self.props, self.targets, self.body, self.ctx = name, props, targets, body, ctx or Ctx
        self.assumptions, self.title, self.budget = list(assumptions), title, budget


CONTRACTS = {}


def contract(name, props, targets, ctx=None, assumptions=(), budget=None):
    def deco(f):
        assert name not in CONTRACTS, name
        CONTRACTS[name] = Contract(name, props.split(), targets.split() if isinstance(targets, str) else targets, f, ctx, assumptions,
                                   (f.__doc__ or '').strip(), budget)
        return f
    return deco


def fn_of(ip, full):
    """The function (or method) 'module:Class.name' of the current source."""
    from core import Fn
    try:
        info = ip.repo.func(full)
    except KeyError:
        info = None
    if not isinstance(info, FuncInfo):
        raise Unsupported('no function %s in the source' % full)
    return Fn(info)


def run_target(ip, full, args, kw=None):
    """Runs the body of the function under contract (its callees keep their own contracts)."""
    f = fn_of(ip, full)
    ip.used_functions[f.info.full] = f.info
    return ip.inline(f, list(args), dict(kw or {}))


def exc_is(ip, e, name):
    """The exception e is an instance of the class `name` (builtin name or 'module:Class')."""
    if ':' in name:
        return ip.exc_sub(e.cls, ClsV(ip.repo.cls(name)))
    return ip.exc_sub(e.cls, BCls(name))


def forall(xs, body, pats=None):
    xs = xs if isinstance(xs, (list, tuple)) else [xs]
    if pats is not None:
        try:
            return z3.ForAll(list(xs), body, patterns=pats if isinstance(pats, (list, tuple)) else [pats])
        except z3.Z3Exception:
            pass
    return z3.ForAll(list(xs), body)


def frame_oblige(ip, name, heap0, allowed):
    """The containers and objects of heap0, but the allowed ones, hold what they held."""
    from core import Cell, OCell
    E = ip.E
    diffs, ok = [], True
    for cid, c0 in heap0.items():
        c1 = E.st.heap.get(cid)
        if c1 is c0 or cid in allowed:
            continue
        if isinstance(c0, Cell):
            if not isinstance(c1, Cell) or c1.fwd is not None or (repr(c1.nt) != repr(c0.nt) and not c0.virgin):
                ok = False
            elif not c0.virgin:
                diffs += [c1.tree[k] == c0.tree[k] for k in c0.tree if not c1.tree[k].eq(c0.tree[k])]
            elif not c1.virgin:
                ok = False
        else:
            for f in set(c0.fields) | set(c1.fields):
                a, b = c0.fields.get(f), c1.fields.get(f)
                if '%s.%s' % (cid, f) not in allowed and not (a is not None and b is not None and ip.same_val(a, b)):
                    ok = False
                    if ip.ctx.trace:
                        print('   frame', cid, f, a, b)
    E.oblige(name, z3.And([z3.BoolVal(ok)] + diffs))
