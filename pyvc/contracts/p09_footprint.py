"""Construction of a footprint from definitions (P09)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from interp import seq_facts

F = '__init__:Footprint.'
LEVEL = lambda n: T(REG.o('level:' + n))


class FCtx(Ctx):
    def __init__(self):
        super().__init__(globs={
            'util:dictmerge': lambda ip: Stub('dictmerge', lambda ip2, a, k: self.merge(ip2, a[0], a[1])),
            'priorities:top': lambda ip: T(REG.o('priorities.top'), OpqCls('PrioritySet', attrs={'DEFAULT': lambda ip2, o: LEVEL('priority')})),
            'doc:visibility': lambda ip: T(REG.o('doc.visibility'), OpqCls('PrioritySet', attrs={'DEFAULT': lambda ip2, o: LEVEL('visibility')})),
            '__init__:setup': lambda ip: T(REG.o('setup'), OpqCls('setup', attrs={'docstrings': lambda ip2, o: C(0)}))})

    def merge(self, ip, d1, d2):
        """Contract of bronx.syntax.dictmerge: dictionaries are merged by key, the others replaced; nested dictionaries are copied."""
        h = ip.E.st.heap
        for k, v in list(h[d2.cid].fields.items()):
            d = ip.is_pdict(v)
            f = h[d1.cid].fields
            if d and k in f and ip.is_pdict(f[k]):
                self.merge(ip, f[k], v)
            else:
                ip.set_item(d1, C(k), self.copy(ip, v) if d else v)
        return d1

    def copy(self, ip, v):
        if ip.is_pdict(v):
            return ip.pdict({k: self.copy(ip, x) for k, x in ip.E.st.heap[v.cid].fields.items()})
        if isinstance(v, Ref):
            return ip.E.new_cell(ip.E.nt(v), dict(ip.E.tree(v)), 'copy')
        return v


def build(ip, defn, own):
    E = ip.E
    o = E.new_obj(ip.repo.cls('__init__:Footprint'), {}, 'fp')
    heap0 = dict(E.st.heap)
    run_target(ip, F + '__init__', [o] + ([defn] if defn is not None else []), own)
    frame_oblige(ip, 'the definitions are not modified', heap0, {o.cid})
    return o


def fields(ip, v):
    return ip.E.st.heap[v.cid].fields


DEFAULTS = dict(default=C(None), optional=C(False), access=C('rxx'), doc_visibility=LEVEL('visibility'), doc_zorder=C(0))


@contract('Footprint.__init__ characteristics', 'P09', F + '__init__', ctx=FCtx, budget=100,
          assumptions=['bronx.syntax.dictmerge merges dictionaries by key and copies the nested ones', 'Footprint.__init__: one attribute, one definition and own keywords'])
def characteristics(ip):
    """A characteristic is the own one, else the one of the definition, else the documented default; the order is clamped; the aliases are a set of their own."""
    E, c = ip.E, ip.ctx
    what = ('default', 'optional', 'access', 'doc_visibility', 'doc_zorder', 'info', 'alias')[E.decide(7)]
    place = E.decide(4)

    def value(w):
        if what == 'doc_zorder':
            return I(E.fresh(INT, w))
        if what == 'alias':
            nt = Seq(Leaf('name'))
            t = fresh_tree(nt, E.fresh_name(w))
            E.assume(*seq_facts(nt, t))
            return E.new_cell(nt, t, w)
        t = E.fresh(V, w)
        E.assume(V.is_sv(t))
        return T(t)
    vals = [value('definition') if place & 1 else None, value('own') if place & 2 else None]
    one = lambda v: ip.pdict({'attr': ip.pdict({'x': ip.pdict({what: v} if v is not None else {})})})
    defn = one(vals[0])
    own = fields(ip, one(vals[1]))
    o = build(ip, defn, dict(own))
    want = vals[1] if vals[1] is not None else vals[0] if vals[0] is not None else DEFAULTS.get(what)
    fp = fields(ip, o)['_fp']
    attr = fields(ip, fp)['attr']
    E.oblige('exactly the attributes of the definitions', z3.BoolVal(ip.is_pdict(attr) and list(fields(ip, attr)) == ['x']))
    d = fields(ip, fields(ip, attr)['x'])
    for k, dv in DEFAULTS.items():
        v = d.get(k)
        E.oblige('%s: set' % k, z3.BoolVal(v is not None))
        if v is None:
            return
        if k == 'doc_zorder':
            n = ip.to_int(want) if what == k else z3.IntVal(0)
            E.oblige('doc_zorder: clamped', ip.to_int(v) == z3.If(n < -100, -100, z3.If(n > 100, 100, n)))
        else:
            E.oblige('%s: the last definition that sets it, else the default' % k, ip.term(v) == ip.term(want if what == k else dv))
    if what == 'info':
        E.oblige('info: the last definition that sets it', z3.BoolVal('info' not in d) if want is None else ip.term(d['info']) == ip.term(want) if 'info' in d else z3.BoolVal(False))
    for k in ('alias', 'values', 'outcast'):
        v = d.get(k)
        ok = isinstance(v, Ref) and isinstance(E.nt(v), Set)
        E.oblige('%s: a set' % k, z3.BoolVal(ok))
        if ok:
            x = E.fresh(V, 'x')
            inside = inseq(E.tree(want), x) if k == what and want is not None else z3.BoolVal(False)
            E.oblige('%s: exactly the given ones' % k, E.tree(v)['mem'][x] == inside)
    for k, v in dict(info=C('Not documented')).items():
        E.oblige('footprint %s: the default' % k, ip.term(fields(ip, fp)[k]) == ip.term(v) if k in fields(ip, fp) else z3.BoolVal(False))


def inseq(t, x):
    return z3.And(t['lo'] <= t['last'][x], t['last'][x] < t['hi'])
