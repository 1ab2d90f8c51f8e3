"""Shared models: footprints (their internal structure), footprint objects, the setup, the reports."""
import z3
import lib
from core import *           # noqa
from core import V, NONE, BOOL, INT
from context import *        # noqa
from lib import OpqCls, hasattrF, getattrF, convF, convE

U = z3.BoolVal(True)
fpvalueF = UF('footprint_value', V, V)

class _AnyAttrs(dict):
    def __bool__(self):
        return True

    def __contains__(self, n):
        return not n.startswith('__')

    def __getitem__(self, n):
        return lambda ip, o: T(ip.E.fresh(V, n), ANY)


# something that is only printed or logged: any method can be called, and gives anything of the same kind
ANY = OpqCls('anything', attrs=_AnyAttrs(), truthy=lambda ip, v: ip.E.fresh(BOOL, 'some'), call=lambda ip, o, a, k: T(ip.E.fresh(V, 'any'), ANY))


def anyset(hint='V'):
    return Set(key=hint)


def ATTR(**more):
    """The characteristics of one attribute, as Footprint.__init__ normalises them."""
    fields = dict(optional=Leaf('bool'), default=Leaf('V'), access=Leaf('V'), alias=Set(key='name'), remap=Map(Leaf('V')),
                  values=Set(), outcast=Set(), type=Leaf('V'), isclass=Leaf('bool'), args=Leaf('V'), info=Leaf('V'))
    fields.update(more)
    return Rec(fields, opt=('type', 'isclass', 'args', 'info'))


class FP:
    """A footprint: its object, the cell of its attributes."""

    def __init__(self, ip, hint='fp', frozen=True, attr=None):
        E = ip.E
        self.ip = ip
        self.nt = Map(attr or ATTR(), key='name')
        self.t0 = fresh_tree(self.nt, E.fresh_name(hint + '_attr'))
        self.attr = E.new_cell(self.nt, self.t0, hint + '_attr', frozen=frozen)
        kk = z3.Const('fp_k', V)
        E.assume(forall(kk, z3.Implies(self.t0['has'][kk], V.is_sv(kk)), [self.t0['has'][kk]]))
        self.only_nt = Map(Leaf('V'), key='name')
        self.only0 = fresh_tree(self.only_nt, E.fresh_name(hint + '_only'))
        self.only = E.new_cell(self.only_nt, self.only0, hint + '_only', frozen=frozen)
        self.level = T(E.fresh(V, hint + '_level'))
        self.priority = ip.pdict({'level': self.level})
        self.fpd = ip.pdict({'attr': self.attr, 'only': self.only, 'priority': self.priority, 'info': T(E.fresh(V, 'info')), 'bind': ip.new_seq()})
        self.obj = E.new_obj(ip.repo.cls('__init__:Footprint'), {'_fp': self.fpd, '_firstguess_keys_internal': C(None), '_resolve_keys_internal': C(None)}, hint)

    def has(self, k):
        return self.t0['has'][k]

    def __getattr__(self, n):
        c = '*.%s.v' % n
        t0 = object.__getattribute__(self, 't0')
        if c in t0:
            return lambda k: t0[c][k]
        raise AttributeError(n)

    def opt_(self, n, k):
        """The optional characteristic n of k is present."""
        return self.t0['*.%s?' % n][k]

    def member(self, n, k, x):
        """x belongs to the set characteristic n of k."""
        return self.t0['*.%s.mem' % n][k][x]

    def ktype(self, k):
        return z3.If(self.opt_('type', k), self.type(k), REG.o('class:str'))

    def kclass(self, k):
        return z3.And(self.opt_('isclass', k), self.isclass(k))

    def kargs(self, k):
        return z3.If(self.opt_('args', k), self.args(k), REG.o('noargs'))

    def nonempty(self, n, k):
        x = z3.Const('ne_x', V)
        return z3.Exists([x], self.member(n, k, x))

    def authorised(self, k, v):
        """The value v is in the values (if any) and equals none of the outcasts."""
        x = z3.Const('au_x', V)
        return z3.And(z3.Or(z3.Not(self.nonempty('values', k)), self.member('values', k, canon(v))), z3.Not(self.member('outcast', k, canon(v))))


def in_values_contract(ip, args, kw):
    """Callee contract of Footprint.in_values (proved by the contract 'Footprint.in_values')."""
    names = dict(zip(('self', 'item', 'values'), args))
    names.update(kw)
    return B(ip.E.tree(names['values'])['mem'][canon(ip.term(names['item']))])


def name_const(ip, hint='k'):
    k = ip.E.fresh(V, hint)
    ip.E.assume(V.is_sv(k))
    return k


def same_map(t1, t0, nt=None):
    """Same dictionary content (names -> values)."""
    x = z3.Const('sm_x', V)
    return z3.And(t1['has'] == t0['has'], forall(x, z3.Implies(t0['has'][x], t1['*.v'][x] == t0['*.v'][x]), [t1['*.v'][x]]))


def others_kept(t1, t0, k):
    x = z3.Const('ok_x', V)
    return forall(x, z3.Implies(x != k, z3.And(t1['has'][x] == t0['has'][x], z3.Implies(t0['has'][x], t1['*.v'][x] == t0['*.v'][x]))), [t1['has'][x]])


class BaseCtx(Ctx):
    """Nothing but the instance and its class."""
