"""FootprintBase: eligibility, weight, priority level of a class (P04, P05)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from contracts.p02_firstguess import mkdesc, mkcache
from contracts.p04_eligible import REPORT, mkreport, SETUP

F = '__init__:Footprint.'
B_ = '__init__:FootprintBase.'


def classof(ip, fp):
    """A footprint class, whose footprint is fp."""
    return T(ip.E.fresh(V, 'cls'), OpqCls('footprint class', attrs={'_footprint': lambda ip2, o: fp.obj}))


class CCtx(Ctx):
    merge = True
    fp = None
    answer = None

    def __init__(self):
        super().__init__(callees={F + 'resolve': self.resolve, F + 'checkonly': self.checkonly})

    def glob(self, ip, name, module):
        if name == 'setup':
            return T(REG.o('setup'), SETUP)
        if name == 'proxy':
            return T(REG.o('proxy'), OpqCls('proxy', attrs={'garbages': lambda ip2, o: T(REG.o('garbages'))}))
        if name == 'reporting':
            return T(REG.o('reporting'), OpqCls('reporting', attrs={'get': lambda ip2, o: Stub('get', lambda ip3, a, k: T(REG.o('void report'), REPORT))}))
        return None

    def resolve(self, ip, args, kw):
        """Contract of Footprint.resolve, not in fatal mode: declared attributes only, those without a value hold None; the inputs."""
        E = ip.E
        ip.used_contracts.add('Footprint.resolve')
        E.oblige('resolve needs: no fatal error', z3.BoolVal(isinstance(kw.get('fatal'), C) and kw['fatal'].py is False))
        E.oblige('resolve needs: the description', z3.BoolVal(len(args) > 1 and isinstance(args[1], Ref) and args[1].cid == self.rd.cid))
        E.oblige('resolve needs: the footprint of the class', z3.BoolVal(isinstance(args[0], Obj) and args[0].cid == self.fp.obj.cid))
        if E.decide(2):
            raise PyRaise(ClsV(ip.repo.cls('__init__:FootprintException')), None, 'resolve')
        nt = Map(Leaf('V'), key='name')
        t = self.rt = fresh_tree(nt, E.fresh_name('resolved'))
        k = z3.Const('cb_k', V)
        E.assume(forall(k, t['has'][k] == self.fp.has(k), [t['has'][k]]), forall(k, t['has'][k] == self.fp.has(k), [self.fp.has(k)]))
        self.res = E.new_cell(nt, t, 'resolved')
        si = fresh_tree(Set('name'), E.fresh_name('inputs'))
        self.inp = E.new_cell(Set('name'), si, 'inputs')
        return Tup([self.res, self.inp, E.new_cell(Set('name'), fresh_tree(Set('name'), E.fresh_name('seen')), 'seen')])

    def checkonly(self, ip, args, kw):
        """Contract of Footprint.checkonly: the resolved values when every clause holds, else False."""
        E = ip.E
        ip.used_contracts.add('Footprint.checkonly')
        E.oblige('checkonly needs: the resolved values', z3.BoolVal(len(args) > 1 and isinstance(args[1], Ref) and args[1].cid == self.res.cid))
        if E.decide(2):
            raise PyRaise(BCls('Exception'), None, 'checkonly')
        if E.decide(2):
            E.assume(self.clauses)
            return args[1]
        E.assume(z3.Not(self.clauses))
        return C(False)


@contract('FootprintBase.footprint_couldbe', 'P04 P05 P17', B_ + 'footprint_couldbe', ctx=CCtx)
def couldbe(ip):
    """Eligible iff the resolution is complete and every only clause holds, with the resolved values and inputs, whatever the report."""
    E = ip.E
    c = ip.ctx
    fp = c.fp = FP(ip)
    c.clauses = E.fresh(BOOL, 'every_only_clause_holds')
    c.rd, dt = mkdesc(ip)
    heap0 = dict(E.st.heap)
    kw = {'report': mkreport(ip), 'mkreport': B(E.fresh(BOOL, 'mkreport'))}
    if E.decide(2):
        kw['resolvecache'] = mkcache(ip)
    try:
        r = run_target(ip, B_ + 'footprint_couldbe', [classof(ip, fp), c.rd], kw)
    except PyRaise as e:
        E.oblige('only what the resolution or the clauses raise', z3.BoolVal(e.origin in ('resolve', 'checkonly')))
        return
    a, i = ip.unpack(r, 2, False)
    k = z3.Const('co_k', V)
    E.oblige('the input attributes of the resolution', z3.BoolVal(isinstance(i, Ref) and i.cid == c.inp.cid))
    complete = forall(k, z3.Implies(fp.has(k), c.rt['*.v'][k] != NONE))
    # a class without any attribute is never eligible
    some = z3.Exists([k], fp.has(k))
    if isinstance(a, C):
        E.oblige('refused: incomplete, or some clause does not hold', z3.And(z3.BoolVal(a.py is False), z3.Or(z3.Not(complete), z3.Not(c.clauses), z3.Not(some))))
    else:
        E.oblige('accepted: the resolved values', z3.BoolVal(isinstance(a, Ref) and a.cid == c.res.cid))
        E.oblige('accepted: complete', complete)
        E.oblige('accepted: every only clause holds', c.clauses)
        E.oblige('accepted: the values are those of the resolution', z3.And(*[t == c.rt[n] for n, t in E.tree(c.res).items()]))
    frame_oblige(ip, 'couldbe: the description and the footprint are kept', heap0, set())


class WCtx(Ctx):
    pass


LEVEL = OpqCls('level', attrs={'rank': lambda ip, o: T(UF('level_rank', V, V)(o.t)), 'tag': lambda ip, o: T(UF('level_tag', V, V)(o.t))})


@contract('FootprintBase: weight, level', 'P05 P13', B_ + 'footprint_weight ' + B_ + 'footprint_pl ' + B_ + 'footprint_level ' + F + 'level ' + F + 'priority', ctx=WCtx)
def weight(ip):
    """The weight is (rank of the level of the class, number of inputs): compared in that order."""
    E = ip.E
    fp = FP(ip)
    fp.level.opq = LEVEL
    cls = classof(ip, fp)
    n = I(E.fresh(INT, 'inputs'))
    heap0 = dict(E.st.heap)
    r = run_target(ip, B_ + 'footprint_weight', [cls, n])
    a, b = ip.unpack(r, 2, False)
    E.oblige('the rank of the level of the class, then the number of inputs', z3.And(ip.term(a) == UF('level_rank', V, V)(fp.level.t), ip.to_int(b) == n.i))
    E.oblige('the level', ip.term(run_target(ip, B_ + 'footprint_pl', [cls])) == fp.level.t)
    E.oblige('the tag of the level', ip.term(run_target(ip, B_ + 'footprint_level', [cls])) == UF('level_tag', V, V)(fp.level.t))
    frame_oblige(ip, 'the class is kept', heap0, set())
