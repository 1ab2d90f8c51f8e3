"""Decorative footprints (P09)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT

D = '__init__:DecorativeFootprint.'


class DecCtx(Ctx):
    def __init__(self):
        super().__init__(callees={'__init__:Footprint.__init__': self.footprint})

    def footprint(self, ip, a, k):
        """Footprint.__init__: the other attributes of the object."""
        ok = len(a) == 1 + len(self.args) and all(ip.same_val(x, y) for x, y in zip(a[1:], self.args)) and set(k) == set(self.kw) and all(ip.same_val(k[n], self.kw[n]) for n in k)
        ip.E.oblige('the footprint is built from the same sources', z3.BoolVal(ok))
        return C(None)


def decs(ip, hint):
    E = ip.E
    nt = Seq(Leaf('V'))
    t = fresh_tree(nt, E.fresh_name(hint))
    E.assume(t['lo'] == 0, t['hi'] >= 0)
    return E.new_cell(nt, t, hint), t


@contract('DecorativeFootprint.__init__', 'P09', D + '__init__ ' + D + 'decorators', ctx=DecCtx, assumptions=['Footprint.__init__ is replaced by its effect on the other attributes of the object'])
def init(ip):
    """The decorators are those of the sources, in order, then the own ones; the lists of the sources are not modified nor shared. One that is not callable is refused."""
    E, c = ip.E, ip.ctx
    n = E.decide(3)
    parts, c.args = [], []
    for j in range(n):
        if E.decide(2):
            r, t = decs(ip, 'decorators%d' % j)
            c.args.append(E.new_obj(ip.repo.cls('__init__:DecorativeFootprint'), {'_decorators': r}, 'source%d' % j))
            parts.append(t)
        else:
            c.args.append(E.new_obj(ip.repo.cls('__init__:Footprint'), {}, 'source%d' % j))
    c.kw = {}
    k = E.decide(3)
    one = None
    if k == 1:
        r, t = decs(ip, 'own')
        c.kw['decorator'] = r
        parts.append(t)
    elif k == 2:
        one = E.fresh(V, 'one')
        E.assume(V.is_rv(one))
        c.kw['decorator'] = T(one, OpqCls('decorator', isa=('decorator',)))
    o = E.new_obj(ip.repo.cls('__init__:DecorativeFootprint'), {}, 'self')
    heap0 = dict(E.st.heap)
    total = sum([t['hi'] for t in parts], z3.IntVal(0)) + (1 if one is not None else 0)
    own = {}
    try:
        run_target(ip, D + '__init__', [o] + c.args, dict(c.kw))
    except PyRaise as e:
        E.oblige('refused: with own decorators only', z3.BoolVal(k != 0 and exc_is(ip, e, 'ValueError')))
        return
    r = run_target(ip, D + 'decorators', [o])
    E.oblige('a list of its own', z3.BoolVal(isinstance(r, Ref) and r.cid not in heap0))
    t = E.tree(r)
    E.oblige('as many decorators as in the sources and the own ones (%d)' % k, t['hi'] - t['lo'] == total)
    i = E.fresh(INT, 'i')
    off = z3.IntVal(0)
    for j, p in enumerate(parts):
        E.oblige('in order: part %d' % j, z3.Implies(z3.And(0 <= i, i < p['hi']), t['*.v'][t['lo'] + off + i] == p['*.v'][i]))
        off = off + p['hi']
    if one is not None:
        E.oblige('in order: the own one at last', t['*.v'][t['hi'] - 1] == one)
    frame_oblige(ip, 'the sources are not modified', heap0, {o.cid})
