"""The standard types (P16)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT

ST = 'stdtypes:'
eqF = UF('py_equal', V, V, BOOL)              # equality of two objects of the same type
tupF, fsetF, itemsF, hashF = UF('py_tuple', V, V), UF('py_frozenset', V, V), UF('py_items', V, V), UF('py_hash', V, INT)
lenF = UF('py_len', V, INT)


class HCtx(Ctx):
    """tuple, frozenset and hash of Python, on values whose content is hashable."""

    def glob(self, ip, name, module):
        one = lambda f, k=T: Stub(name, lambda ip2, a, kw: k(f(ip2.term(a[0]))))
        return {'tuple': one(tupF), 'frozenset': one(fsetF), 'hash': one(hashF, I), 'len': one(lenF, I)}.get(name)


def py_axioms(E):
    a, b = z3.Const('ax_a', V), z3.Const('ax_b', V)
    for f in (tupF, fsetF, itemsF):
        E.assume(forall([a, b], z3.Implies(eqF(a, b), eqF(f(a), f(b))), [eqF(a, b), f(a), f(b)]))
    E.assume(forall([a, b], z3.Implies(eqF(a, b), lenF(a) == lenF(b)), [eqF(a, b), lenF(a), lenF(b)]))
    for f in (tupF, fsetF):
        # hash of a tuple, of a frozen set: equal values, equal hashes
        E.assume(forall([a, b], z3.Implies(eqF(f(a), f(b)), hashF(f(a)) == hashF(f(b))), [hashF(f(a)), hashF(f(b))]))


@contract('FPDict FPList FPSet hash', 'P16 P06 P07', ST + 'FPDict.__hash__ ' + ST + 'FPList.__hash__ ' + ST + 'FPSet.__hash__', ctx=HCtx,
          assumptions=['tuple, frozenset, dict.items and their hash agree with the equality of their contents (Python)', 'the content is hashable'])
def hashes(ip):
    """Two equal containers have the same hash, which only depends on the content."""
    E = ip.E
    py_axioms(E)
    cls = ('FPDict', 'FPList', 'FPSet')[E.decide(3)]
    attrs = {'items': lambda ip2, o: Stub('items', lambda ip3, a, k: T(itemsF(o.t)))} if cls == 'FPDict' else {}
    a, b = (T(E.fresh(V, n), OpqCls(cls, attrs=attrs)) for n in 'ab')
    E.assume(V.is_rv(a.t), V.is_rv(b.t), eqF(a.t, b.t))
    h1 = run_target(ip, ST + cls + '.__hash__', [a])
    h2 = run_target(ip, ST + cls + '.__hash__', [b])
    E.oblige('%s: equal contents, equal hashes' % cls, ip.to_int(h1) == ip.to_int(h2))
    h3 = run_target(ip, ST + cls + '.__hash__', [a])
    E.oblige('%s: the hash is stable' % cls, ip.to_int(h1) == ip.to_int(h3))


@contract('FPList FPTuple FPSet items', 'P16', ' '.join(ST + x for x in ('FPList.items', 'FPTuple.items', 'FPSet.items', 'FPSet.footprint_export')), ctx=Ctx)
def items(ip):
    """items() gives a copy of the content, in its order; the export of a set is a list of its elements."""
    E = ip.E
    which = E.decide(4)
    x, i = z3.Const('it_x', V), E.fresh(INT, 'position')
    if which < 2:
        nt = Seq(Leaf('V'))
        t = fresh_tree(nt, E.fresh_name('content'))
        E.assume(t['lo'] == 0, t['lo'] <= t['hi'])
        r = E.new_cell(nt, t, 'content', frozen=True)
        res = run_target(ip, ST + ('FPList', 'FPTuple')[which] + '.items', [r])
        E.oblige('items: a new list', z3.BoolVal(isinstance(res, Ref) and res.cid != r.cid))
        n = E.tree(res)
        E.oblige('items: as many elements', n['hi'] - n['lo'] == t['hi'])
        E.oblige('items: the same elements in the same order', z3.Implies(z3.And(0 <= i, i < t['hi']), n['*.v'][n['lo'] + i] == t['*.v'][i]))
        return
    nt = Set()
    t = fresh_tree(nt, E.fresh_name('content'))
    r = E.new_cell(nt, t, 'content', frozen=True)
    try:
        res = run_target(ip, ST + 'FPSet.' + ('items', 'footprint_export')[which - 2], [r])
    except PyRaise as e:
        E.oblige('set: no exception', z3.BoolVal(False))
        return
    if isinstance(res, Tup):
        raise Unsupported('literal')
    E.oblige('set: a new container', z3.BoolVal(isinstance(res, Ref) and res.cid != r.cid and isinstance(E.nt(res), Seq)))
    n = E.tree(res)
    y = E.fresh(V, 'element')
    k = z3.Const('it_k', INT)
    inn = lambda j: z3.And(n['lo'] <= j, j < n['hi'])
    E.oblige('set: only its elements', z3.Implies(inn(i), t['mem'][n['*.v'][i]]))
    E.oblige('set: all its elements', z3.Implies(t['mem'][y], z3.Exists([k], z3.And(inn(k), n['*.v'][k] == y))))


@contract('FPRegex', 'P16', ' '.join(ST + 'FPRegex.' + x for x in ('__init__', '__deepcopy__', 'footprint_export', '__getattr__')), ctx=Ctx,
          assumptions=['re.compile is a function of the pattern and the flags', 'copy.copy copies the attributes of an object', 'bronx.secure_getattr only refuses private names'])
def regex(ip):
    """The expression is compiled from the pattern and flags; unknown attributes are those of the compiled expression; a deep copy has the same
    compiled expression and is recorded in the memo; the export is the pattern and the flags."""
    E = ip.E
    c = ip.ctx
    compF, patF, flF = UF('re_compile', V, V, V), UF('re_pattern', V, V), UF('re_flags', V, V)
    R_ = OpqCls('compiled', attrs={'pattern': lambda ip2, o: T(patF(o.t)), 'flags': lambda ip2, o: T(flF(o.t))})
    cls = ip.repo.cls(ST + 'FPRegex')

    def mod_attr(ip2, mod, name):
        if mod == 're' and name == 'compile':
            return Stub('compile', lambda ip3, a, k: T(compF(ip3.term(a[0]), ip3.term(a[1] if len(a) > 1 else k.get('flags', C(0)))), R_))
        if mod == 'copy' and name == 'copy':
            def cp(ip3, a, k):
                return ip3.E.new_obj(cls, dict(ip3.E.st.heap[a[0].cid].fields), 'copy')
            return Stub('copy', cp)
        return None
    c.mod_attr = mod_attr
    what = E.decide(4)
    p, f = E.fresh(V, 'pattern'), E.fresh(V, 'flags')
    if what == 0:
        o = E.new_obj(cls, {}, 'regex')
        run_target(ip, ST + 'FPRegex.__init__', [o, T(p), T(f)])
        E.oblige('compiled from the pattern and the flags', ip.term(ip.get_attr(o, '_re')) == compF(p, f))
        return
    re_ = E.fresh(V, 're')
    E.assume(V.is_rv(re_))
    o = E.new_obj(cls, {'_re': T(re_, R_)}, 'regex')
    if what == 1:
        memo = E.new_obj('memo', {}, 'memo')
        seen = []
        c.obj_setitem = lambda ip2, d, k, v: (seen.append((k, v)), True)[1] if d.cid == memo.cid else None
        n = run_target(ip, ST + 'FPRegex.__deepcopy__', [o, memo])
        E.oblige('deep copy: of the same class', z3.BoolVal(isinstance(n, Obj) and E.st.heap[n.cid].cls is cls))
        E.oblige('deep copy: the same expression', ip.term(ip.get_attr(n, '_re')) == re_)
        for k, v in seen:
            E.oblige('deep copy: recorded for the original', z3.And(ip.term(k) == ip.term(ip.b_id(ip, [o], {})), z3.BoolVal(isinstance(v, Obj) and v.cid == n.cid)))
    elif what == 2:
        r = run_target(ip, ST + 'FPRegex.footprint_export', [o])
        E.oblige('export: the pattern and the flags', z3.BoolVal(isinstance(r, Tup) and len(r.vs) == 2))
        E.oblige('export: pattern', ip.term(r.vs[0]) == patF(re_))
        E.oblige('export: flags', ip.term(r.vs[1]) == flF(re_))
    else:
        n = E.fresh(V, 'name')
        E.assume(V.is_sv(n))
        try:
            r = run_target(ip, ST + 'FPRegex.__getattr__', [o, T(n)])
        except PyRaise as e:
            E.oblige('attributes: refused only when the expression has none', z3.BoolVal(e.is_('AttributeError') if hasattr(e, 'is_') else True))
            return
        E.oblige('attributes: those of the compiled expression', ip.term(r) == getattrF(re_, n))
