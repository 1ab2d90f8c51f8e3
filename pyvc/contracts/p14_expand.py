"""Expansion of the descriptions (P14): inplace, _pending_expansion, expand."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from lib import Dom, fhas, fget, flen, fat

UT = 'util:'
ARR_B, ARR_V = z3.ArraySort(V, BOOL), z3.ArraySort(V, V)
clsnameF = UF('class_name', V, V)
startsF = UF('str_startswith', V, V, BOOL)
replF = UF('str_replace', V, V, V, V)
deepF = UF('deepcopy', V, V)
# what the regular expressions of the module tell of a string
commaF, globF, rangeF, digitsF = [UF('text:' + n, V, BOOL) for n in ('has a comma', 'has a glob', 'is a range', 'is a number')]
rname, rcount = UF('range:name', V, V), UF('range:count', V, INT)
rnum = [UF('range:number%d' % n, V, V) for n in range(3)]
intF = UF('int_of', V, INT)
PATTERNS = {
    ('match', r'range\(\d+(,\d+)?(,\d+)?\)$', True): lambda s: rangeF(s),
    ('fullmatch', r'range\(\d+(,\d+)?(,\d+)?\)', True): lambda s: rangeF(s),
    ('search', r',', False): lambda s: commaF(s),
    ('search', r'{glob:\w+:', False): lambda s: globF(s),
    ('search', r',|{glob:\w+:', False): lambda s: z3.Or(commaF(s), globF(s)),
    ('search', r'{glob:\w+:|,', False): lambda s: z3.Or(commaF(s), globF(s)),
    ('match', r'\d+$', False): lambda s: digitsF(s),
}


_LIB = lib.Lib()


def is_(v, *names):
    return z3.Or([_LIB.isinst(T(v), BCls(n)) for n in names])


def isfp(v):
    return startsF(clsnameF(v), REG.s('FP'))


def iscoll(v):
    return is_(v, 'list', 'tuple', 'set')


def isstr(v):
    return is_(v, 'str')


def desc_item(ip, o, k):
    t = ip.term(k)
    if not ip.E.choose(fhas(o.t, t)):
        raise PyRaise(BCls('KeyError'), origin='description')
    return T(fget(o.t, t))


DESC = OpqCls('description', attrs={'__contains__': lambda ip, o, x: B(fhas(o.t, ip.term(x))), '__getitem__': desc_item}, isa=('dict',))


class ReCtx(Ctx):
    """The module re through what its patterns mean."""
    real_lists = True
    inv_ms = 6000

    def mod_attr(self, ip, mod, name):
        if mod == 're':
            if name in ('IGNORECASE', 'I'):
                return C('IGNORECASE')
            if name in ('match', 'search', 'fullmatch'):
                def run(ip2, a, k):
                    pat = a[0].py if isinstance(a[0], C) else None
                    ign = any(isinstance(x, C) and x.py == 'IGNORECASE' for x in list(a[2:]) + list(k.values()))
                    f = PATTERNS.get((name, pat, ign))
                    if f is None:
                        raise Unsupported('pattern %r' % pat)
                    s = ip2.term(a[1])
                    return T(REG.o('match object'), OpqCls('match', truthy=lambda ip3, o: f(s)))
                return Stub('re.' + name, run)
            if name == 'split':
                def split(ip2, a, k):
                    if not isinstance(a[0], C) or a[0].py != r'[\(\),]+':
                        raise Unsupported('split pattern')
                    s = ip2.term(a[1])
                    ip2.E.assume(1 <= rcount(s), rcount(s) <= 3)
                    for n in (1, 2):
                        if ip2.E.choose(rcount(s) == n):
                            break
                    else:
                        n = 3
                    ip2.E.assume(V.is_sv(rname(s)), z3.Not(digitsF(rname(s))), z3.Not(digitsF(REG.s(''))), *[z3.And(V.is_sv(f(s)), digitsF(f(s)), intF(f(s)) >= 0) for f in rnum])
                    return Tup([T(rname(s))] + [T(rnum[j](s)) for j in range(n)] + [C('')])
                return Stub('re.split', split)
        if mod == 'copy' and name == 'deepcopy':
            def deep(ip2, a, k):
                v = a[0]
                if isinstance(v, Ref) and isinstance(ip2.E.nt(v), Map):
                    nt, tr = ip2.E.nt(v), ip2.E.tree(v)
                    val = ip2.E.fresh(ARR_V, 'deep')
                    x = z3.Const('dp_x', V)
                    ip2.E.assume(forall(x, val[x] == deepF(tr['*.v'][x]), [val[x]]))
                    return ip2.E.new_cell(nt, {'has': tr['has'], '*.v': val}, 'deepcopy')
                return T(deepF(ip2.term(v)))
            return Stub('deepcopy', deep)
        return None

    def opaque_attr(self, ip, v, name):
        if name == '__class__':
            t = v.t
            def construct(ip2, o, a, k):
                """The class of a string makes an equal string of its class."""
                r = sameclsF(t, ip2.term(a[0]))
                ip2.E.assume(V.is_sv(r))
                return T(r)
            return T(UF('class_of', V, V)(v.t), OpqCls('class', attrs={'__name__': lambda ip2, o: ip2.E.assume(V.is_sv(clsnameF(t))) or T(clsnameF(t))}, call=construct))
        if name == 'keys':
            return Stub('keys', lambda ip2, a, k: IterV(Dom('seq', elem=lambda i: T(fat(v.t, i)), lo=z3.IntVal(0), hi=flen(v.t), last=None)))
        return None


sameclsF = UF('same_class', V, V, V)


@contract('util._pending_expansion', 'P14', UT + '_pending_expansion', ctx=ReCtx)
def pending(ip):
    """True for a string with a comma, a glob or a range, or a dictionary with a key of the description, unless its type prevents expansion."""
    E = ip.E
    d, k = E.fresh(V, 'desc'), name_const(ip)
    E.assume(fhas(d, k))
    r = run_target(ip, UT + '_pending_expansion', [T(d, DESC), T(k)])
    E.oblige('_pending_expansion: tells what has still to be expanded', ip.truthy(r) == pend_spec(d, fget(d, k)))


def pend_spec(d, v):
    i = z3.Const('ps_i', INT)
    some = z3.Exists([i], z3.And(0 <= i, i < flen(v), fhas(d, fat(v, i))))
    return z3.And(z3.Not(isfp(v)), z3.If(isstr(v), z3.Or(commaF(v), globF(v), rangeF(v)), z3.And(is_(v, 'dict'), some)))


class L2DCtx(ReCtx):
    v = None

    def invariants(self, ip, fr, L):
        ad = fr.env.get('ad')
        if L.kind != 'seq' or not isinstance(ad, Ref):
            return []
        if ip.E.cell(ad)[0].virgin:
            return [('the items met, the last one wins', z3.BoolVal(True))]
        return [('the items met, the last one wins', merged(self.v, L.i, ip.E.tree(ad)))]


def merged(v, n, t):
    """t: union of the n first items of v, the last one wins."""
    x, i, j = z3.Const('me_x', V), z3.Const('me_i', INT), z3.Const('me_j', INT)
    rng = lambda q: z3.And(0 <= q, q < n)
    last = lambda q: z3.Not(z3.Exists([j], z3.And(q < j, j < n, fhas(fat(v, j), x))))
    return forall(x, z3.And(t['has'][x] == z3.Exists([i], z3.And(rng(i), fhas(fat(v, i), x))),
                            z3.Implies(t['has'][x], z3.Exists([i], z3.And(rng(i), fhas(fat(v, i), x), last(i), t['*.v'][x] == fget(fat(v, i), x))))))


@contract('util.list2dict', 'P09', UT + 'list2dict', ctx=L2DCtx)
def l2d(ip):
    """A new dictionary; the entries of klist that are lists or tuples become the merged dictionary of their items."""
    E = ip.E
    a = E.fresh(V, 'a')
    kl = name_const(ip, 'listed')
    v = fget(a, kl)
    ip.ctx.v = v
    r = run_target(ip, UT + 'list2dict', [T(a), Tup([T(kl)])])
    t = E.tree(r)
    y = E.fresh(V, 'y')
    new = t['*.v'][kl]
    E.oblige('list2dict: same entries', t['has'][y] == fhas(a, y))
    E.oblige('list2dict: the other entries are kept', z3.Implies(z3.And(fhas(a, y), z3.Not(eq(y, kl))), t['*.v'][y] == fget(a, y)))
    seq = z3.And(fhas(a, kl), is_(v, 'list', 'tuple'))
    E.oblige('list2dict: what is not a list is kept', z3.Implies(z3.And(fhas(a, kl), z3.Not(is_(v, 'list', 'tuple'))), new == v))
    i, j = z3.Const('l2_i', INT), z3.Const('l2_j', INT)
    some = z3.Exists([i], z3.And(0 <= i, i < flen(v), fhas(fat(v, i), y)))
    E.oblige('list2dict: the keys of all the items', z3.Implies(seq, fhas(new, y) == some))
    q = E.fresh(INT, 'q')
    E.assume(0 <= q, q < flen(v), fhas(fat(v, q), y), z3.ForAll([j], z3.Implies(z3.And(q < j, j < flen(v)), z3.Not(fhas(fat(v, j), y)))))
    E.oblige('list2dict: the last item wins', z3.Implies(seq, fget(new, y) == fget(fat(v, q), y)))


concatF = UF('concat', V, V, V)
RP = UF('replaced', V, V, BOOL)           # s0, s: s is s0 after some replacements
RPG = UF('replaced_name', V, V, V, BOOL)    # s0, g, s: and those of the name g are among them


class InCtx(ReCtx):
    """The text of a key: replacements of the globs, one after the other."""
    gl = None

    def invariants(self, ip, fr, L):
        E = ip.E
        if self.gl is None or not isinstance(fr.env.get('newd'), Ref):
            return []
        G = E.tree(self.gl)
        newd = E.tree(fr.env['newd'])
        x, g = z3.Const('ii_x', V), z3.Const('ii_g', V)
        if L.kind == 'set':
            if 'replaced' not in fr.env or 'k' not in fr.env:
                return []
            s0, s = newd['*.v'][ip.term(fr.env['k'])], ip.term(fr.env['replaced'])
            return [('a text', V.is_sv(s)), ('a replacement', RP(s0, s)), ('of the names met', forall(g, z3.Implies(L.visited(g), RPG(s0, g, s))))]
        if L.kind == 'seq':
            old, t = self.old, newd['*.v']
            other = z3.And(0 <= L.dom.last[x], L.dom.last[x] < L.i)
            return [('the texts met are replaced', forall(x, z3.Implies(other, self.done(old[x], t[x])), [t[x]])),
                    ('the rest is kept', forall(x, z3.Implies(z3.Not(other), t[x] == old[x]), [t[x]]))]
        return []

    def done(self, s0, s):
        """s is s0 with all the names replaced, of the same kind."""
        g, r = z3.Const('do_g', V), z3.Const('do_r', V)
        full = lambda r: z3.And(RP(s0, r), forall(g, z3.Implies(self.G['has'][g], RPG(s0, g, r))))
        return z3.If(isfp(s0), z3.Exists([r], z3.And(full(r), s == sameclsF(s0, r))), full(s))


def replacement_rules(E, G):
    """What a replacement is."""
    s0, s, g, h = [z3.Const('rr_%s' % n, V) for n in ('s0', 's', 'g', 'h')]
    pat = lambda g: concatF(concatF(REG.s('[glob:'), g), REG.s(']'))
    nxt = replF(s, pat(g), G['*.v'][g])
    E.assume(z3.ForAll([s0], RP(s0, s0)),
             forall([s0, s, g], z3.Implies(z3.And(RP(s0, s), G['has'][g]), z3.And(RP(s0, nxt), RPG(s0, g, nxt))), MP(RP(s0, s), nxt)),
             forall([s0, s, g, h], z3.Implies(z3.And(RPG(s0, h, s), G['has'][g]), RPG(s0, h, nxt)), MP(RPG(s0, h, s), nxt)))


@contract('util.inplace', 'P14', UT + 'inplace', ctx=InCtx)
def inplace_(ip):
    """A copy of the description with that value, with the globs replaced in its other texts, and the index: the position + 1."""
    E = ip.E
    c = ip.ctx
    nt = Map(Leaf('V'), key='name')
    d = fresh_tree(nt, E.fresh_name('desc'))
    desc = E.new_cell(nt, d, 'desc')
    key, value = name_const(ip, 'key'), E.fresh(V, 'value')
    x, y = z3.Const('in_x', V), E.fresh(V, 'other')
    E.assume(forall(x, z3.Implies(d['has'][x], V.is_sv(x)), [d['has'][x]]))
    kw = {}
    globs = E.decide(2)
    if globs:
        E.assume(forall(x, z3.And(is_str(deepF(x)) == is_str(x), clsnameF(deepF(x)) == clsnameF(x)), [deepF(x)]))
        c.G = G = fresh_tree(nt, E.fresh_name('globs'))
        E.assume(forall(x, z3.Implies(G['has'][x], z3.And(V.is_sv(x), V.is_sv(G['*.v'][x]))), [G['has'][x]]))
        c.gl = E.new_cell(nt, G, 'globs')
        replacement_rules(E, G)
        kw['globs'] = c.gl
        val0 = E.fresh(ARR_V, 'copied')
        E.assume(forall(x, val0[x] == deepF(d['*.v'][x]), [val0[x]]))
        c.old = z3.Store(val0, key, value)
    gi = E.fresh(INT, 'gi')
    index = E.decide(2)
    if index:
        kw['globalindex'] = I(gi)
    heap0 = dict(E.st.heap)
    r = run_target(ip, UT + 'inplace', [desc, T(key), T(value)], kw)
    t = E.tree(r)
    IDX = REG.s('index_expansion')
    E.oblige('inplace: a new description', z3.BoolVal(r.cid != desc.cid))
    E.oblige('inplace: the keys of the description, that one and the index', t['has'][y] == z3.Or(d['has'][y], y == key, z3.And(z3.BoolVal(bool(index)), y == IDX)))
    E.oblige('inplace: the key has the value', z3.Implies(z3.Or(z3.BoolVal(not index), key != IDX), t['*.v'][key] == value))
    if index:
        E.oblige('inplace: the index is the position + 1', t['*.v'][IDX] == V.iv(gi + 1))
    mine = z3.And(d['has'][y], y != key, z3.Or(z3.BoolVal(not index), y != IDX))
    v0 = deepF(d['*.v'][y])
    nog = z3.BoolVal(not globs) if not globs else z3.Not(ip.truthy(c.gl))
    E.oblige('inplace: the other values are deep copies', z3.Implies(z3.And(mine, z3.Or(nog, z3.Not(is_str(v0)))), t['*.v'][y] == v0))
    if globs:
        E.oblige('inplace: the globs are replaced in the other texts', z3.Implies(z3.And(mine, is_str(v0), z3.Not(nog)), c.done(v0, t['*.v'][y])))
    frame_oblige(ip, 'inplace: the arguments are kept', heap0, set())


# ---------------------------------------------------------------------------------------------------- expand
IDX = REG.s('index_expansion')
EL = z3.ArraySort(INT, V)
nkF, keyF = UF('desc:size', V, INT), UF('desc:key', V, INT, V)
expF = UF('desc:expandable at', V, INT, BOOL)
nsegF = UF('desc:alternatives', V, INT)
ALT = UF('desc:alternative', V, INT, INT, V, BOOL)      # d, j, i, e: e is the alternative j of d, made at the position i
RES = UF('desc:result', V, INT, BOOL)                   # e, i: a description with nothing to expand, at the position i
DER = UF('desc:derived', V, BOOL)                       # comes from the description given
ONP, chF = UF('desc:chosen', V, BOOL), UF('desc:choice', V, INT)   # an arbitrary choice of an alternative at each expansion
offF, segF = UF('desc:offset', EL, INT, INT, INT), UF('desc:origin', EL, INT, INT, INT)
inpF = UF('inplace', V, V, V, INT, V)
inpgF = UF('inplace with its globs', V, V, V, INT, V)
pendF = UF('pending', V, V, BOOL)
copF, setkF = UF('desc:copy', V, V), UF('desc:set', V, V, V, V)
globbedF, sortedF = UF('glob', V, V), UF('sorted', V, V)
gnamesF, greF, gglobF = [UF('globs:' + n, V, V) for n in ('names', 'regex', 'glob')]
matchF, groupF = UF('globs:match', V, V, BOOL), UF('globs:group', V, V, V, V)
cntF = UF('globs:matches before', V, INT, INT)
splitF, strF = UF('str_split', V, V, V), lib.strF
DEAD = z3.Const('an expansion without alternative', BOOL)


def files(v):
    return sortedF(globbedF(gglobF(v)))


def desc_items(ip, o):
    def items(ip2, a, k):
        ip2.ctx.define(ip2, o.t)
        return IterV(Dom('seq', elem=lambda i: Tup([T(keyF(o.t, i)), T(fget(o.t, keyF(o.t, i)))]), lo=z3.IntVal(0), hi=nkF(o.t), last=None))
    return Stub('items', items)


def desc_copy(ip, o):
    def copy(ip2, a, k):
        ip2.ctx.define(ip2, o.t)
        return ip2.E.new_obj('description', {'@term': copF(o.t)}, 'newd')
    return Stub('copy', copy)


DESC.attrs.update(items=desc_items, copy=desc_copy, keys=lambda ip, o: Stub('keys', lambda ip2, a, k: (ip2.ctx.define(ip2, o.t), IterV(Dom('seq', elem=lambda i: T(keyF(o.t, i)), lo=z3.IntVal(0), hi=nkF(o.t), last=None)))[1]))


class ExpCtx(ReCtx):
    inv_ms = 20000
    merge = True
    world = None

    def __init__(self):
        super().__init__(callees={UT + 'inplace': self.inplace, UT + '_pending_expansion': self.pending, UT + '_parse_globs': self.parse_globs})
        self.defined = set()

    # ---- contracts of the callees
    def inplace(self, ip, args, kw):
        E = ip.E
        ip.used_contracts.add('util.inplace')
        a = dict(zip(('desc', 'key', 'value', 'globs', 'globalindex'), args))
        a.update(kw)
        d, k, x = [ip.term(a[n]) for n in ('desc', 'key', 'value')]
        if 'globalindex' not in a or isinstance(a['globalindex'], C) and a['globalindex'].py is None:
            raise Unsupported('inplace without an index')
        gi, globs = ip.to_int(a['globalindex']), a.get('globs', C(None))
        if isinstance(globs, C) and globs.py is None:
            return T(inpF(d, k, x, gi), DESC)
        if not isinstance(globs, Ref):
            raise Unsupported('globs')
        r = E.fresh(V, 'inplace')
        g = E.tree(globs)
        v = fget(d, k)
        y, n = z3.Const('ig_y', V), z3.Const('ig_n', INT)
        E.assume(z3.Implies(group_map(v, x, g, flen(gnamesF(v))), r == inpgF(d, k, x, gi)))
        return T(r, DESC)

    def pending(self, ip, args, kw):
        ip.used_contracts.add('util._pending_expansion')
        a = dict(zip(('desc', 'key'), args))
        a.update(kw)
        return B(pendF(ip.term(a['desc']), ip.term(a['key'])))

    def parse_globs(self, ip, args, kw):
        v = ip.term(args[0])
        n = z3.Const('pg_n', INT)
        ip.E.assume(forall(n, V.is_sv(fat(gnamesF(v), n)), [fat(gnamesF(v), n)]))

        def match(ip2, a, k):
            f = ip2.term(a[0])
            if not ip2.E.choose(matchF(v, f)):
                return C(None)
            return T(UF('globs:match object', V, V, V)(v, f), OpqCls('match', truthy=lambda ip3, o: z3.BoolVal(True), attrs={
                'group': lambda ip3, o: Stub('group', lambda ip4, b, kk: T(groupF(v, f, ip4.term(b[0]))))}))
        return Tup([T(gnamesF(v)), T(greF(v), OpqCls('regex', attrs={'match': lambda ip2, o: Stub('match', match)})), T(gglobF(v))])

    # ---- the environment
    def glob(self, ip, name, module):
        if name == 'deque':
            def deque(ip2, a, k):
                leaf = Leaf('V')
                leaf.opq = DESC
                nt = Seq(leaf)
                r = ip2.E.new_cell(nt, empty_tree(nt), 'deque')
                if a and isinstance(a[0], Ref):
                    if not ip2.E.st.heap[a[0].cid].virgin:
                        ip2.seq_extend(r, a[0])
                elif a:
                    for x in ip2.dom(a[0]).vals:
                        ip2.seq_append(r, x)
                return r
            return Stub('deque', deque)
        if name == 'sorted':
            return Stub('sorted', lambda ip2, a, k: T(sortedF(ip2.term(a[0]))))
        return None

    def mod_attr(self, ip, mod, name):
        if (mod, name) == ('glob', 'glob'):
            return Stub('glob.glob', lambda ip2, a, k: T(globbedF(ip2.term(a[0]))))
        return super().mod_attr(ip, mod, name)

    def call_bcls(self, ip, name, args, kw):
        if name == 'int' and len(args) == 1 and isinstance(args[0], T):
            return I(intF(args[0].t))
        return None

    def obj_setitem(self, ip, o, k, v):
        E = ip.E
        c = E.st.heap[o.cid]
        if c.cls != 'description':
            return None
        cur = c.fields['@term']
        for c2 in E.st.heap.values():
            if getattr(c2, 'tree', None) is not None and any(mentions_term(t, cur) for t in c2.tree.values()):
                raise Unsupported('a description modified once stored')
        E.st.heap[o.cid] = type(c)(c.cls, dict(c.fields, **{'@term': setkF(cur, ip.term(k), ip.term(v))}), c.frozen)
        return C(None)

    # ---- what is said of a description: its first key to expand, its alternatives
    def define(self, ip, d):
        E = ip.E
        m, q, j, i, e = [z3.Const('de_' + n, INT) for n in 'mqji'] + [z3.Const('de_e', V)]
        E.assume(nkF(d) >= 0, nsegF(d) >= 0)
        k, v = keyF(d, m), fget(d, keyF(d, m))
        E.assume(forall(m, z3.Implies(z3.And(0 <= m, m < nkF(d)), z3.And(V.is_sv(k), fhas(d, k), flen(v) >= 0, flen(splitF(v, REG.s(','))) >= 0, flen(files(v)) >= 0)), [k]))
        kinds = self.kinds(d, v)
        E.assume(forall(m, expF(d, m) == z3.Or([c for c, _, _ in kinds]), [expF(d, m)]),
                 forall(m, expF(d, m) == z3.Or([c for c, _, _ in kinds]), [k]))
        first = z3.And(0 <= m, m < nkF(d), expF(d, m), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), z3.Not(expF(d, q)))))
        for c, n, rules in kinds:
            E.assume(z3.ForAll([m], z3.Implies(z3.And(first, c), nsegF(d) == n), patterns=[k]))
            for xs, prem, jj, val, pat in rules:
                E.assume(z3.ForAll([m] + xs + [i], z3.Implies(z3.And(first, c, prem), ALT(d, jj, i, val(k, i))), patterns=[val(k, i) if pat is None else z3.MultiPattern(val(k, i), pat)]))
        no = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < nkF(d)), z3.Not(expF(d, q))))
        new = setkF(copF(d), IDX, V.iv(i + 1))
        x = z3.Const('de_x', V)
        E.assume(z3.Implies(no, nsegF(d) == 1), z3.ForAll([i], z3.Implies(no, z3.And(ALT(d, 0, i, new), RES(new, i))), patterns=[ALT(d, 0, i, new)]),
                 z3.ForAll([i], z3.Implies(no, z3.And(ALT(d, 0, i, new), RES(new, i))), patterns=[RES(new, i)]),
                 z3.ForAll([x], z3.Implies(z3.And(no, V.is_iv(x)), ALT(d, 0, V.i(x) - 1, setkF(copF(d), IDX, x))), patterns=[setkF(copF(d), IDX, x)]))
        E.assume(z3.Implies(nsegF(d) > 0, z3.And(0 <= chF(d), chF(d) < nsegF(d))), z3.Implies(z3.And(ONP(d), nsegF(d) == 0), DEAD))

    def kinds(self, d, v):
        """[(what the value v of d is, the number of its alternatives, [(variables, premise, rank of the alternative, the alternative, ...)])]"""
        j, a, n, x = z3.Const('ki_j', INT), z3.Const('ki_a', INT), z3.Const('ki_n', INT), z3.Const('ki_x', V)
        text = z3.And(z3.Not(isfp(v)), z3.Not(iscoll(v)), isstr(v))
        sp = splitF(v, REG.s(','))
        n0, n1, n2 = [intF(f(v)) for f in rnum]
        lo, hi, step = n0, z3.If(rcount(v) == 1, n0, n1) + 1, n2
        three = rcount(v) == 3
        rcnt = z3.If(three, lib.range_count(lo, hi, step), z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        dk = fat(v, n)
        dv = fget(d, dk)
        ok = z3.And(0 <= n, n < flen(v), fhas(d, dk), z3.Not(iscoll(dv)), z3.Not(pendF(d, dk)))
        plain = lambda val: (lambda k, i: inpF(d, k, val, i))
        rules = lambda cnt, val: [([j], z3.And(0 <= j, j < cnt), j, plain(val), None)]
        return [
            (z3.And(z3.Not(isfp(v)), iscoll(v)), flen(v), rules(flen(v), fat(v, j))),
            (z3.And(text, rangeF(v)), rcnt,
             [([j], z3.And(z3.Not(three), lo <= j, j < hi), j - lo, plain(V.iv(j)), None), ([j], z3.And(three, 0 <= j, j < rcnt), j, plain(V.iv(lib.range_at(lo, step, j))), None)]),
            (z3.And(text, z3.Not(rangeF(v)), commaF(v)), flen(sp), rules(flen(sp), fat(sp, j))),
            (z3.And(text, z3.Not(rangeF(v)), z3.Not(commaF(v)), globF(v)), cntF(v, flen(files(v))),
             [([a], z3.And(0 <= a, a < flen(files(v)), matchF(v, fat(files(v), a))), cntF(v, a), lambda k, i: inpgF(d, k, fat(files(v), a), i), None)]),
            (z3.And(z3.Not(isfp(v)), z3.Not(iscoll(v)), z3.Not(z3.And(isstr(v), z3.Or(rangeF(v), commaF(v), globF(v)))), is_(v, 'dict'), z3.Exists([n], ok)), z3.IntVal(1),
             [([n, x], z3.And(ok, x == fget(fget(v, canon(dk)), canon(strF(dv)))), z3.IntVal(0), lambda k, i: inpF(d, k, x, i), fat(v, n))]),
        ]

    # ---- invariants
    def invariants(self, ip, fr, L):
        E = ip.E
        env, ent = fr.env, L.entry_env
        if self.world is None or not isinstance(env.get('ld'), Ref):
            return []
        q, p, j, e = z3.Const('iv_q', INT), z3.Const('iv_p', INT), z3.Const('iv_j', INT), z3.Const('iv_e', V)
        ld = E.tree(env['ld'])
        inb = lambda t, q: z3.And(0 <= q, q < t['hi'])
        if L.kind == 'while' and 'newld' not in ent:
            t = ip.truthy(env['todo'])
            return [('the queue starts at 0', z3.And(ld['lo'] == 0, ld['hi'] >= 0)),
                    ('all come from the description', forall(q, z3.Implies(inb(ld, q), DER(ld['*.v'][q])), [ld['*.v'][q]])),
                    ('any choice of the alternatives is there', z3.Or(DEAD, z3.Exists([q], z3.And(inb(ld, q), ONP(ld['*.v'][q]))))),
                    ('once nothing is to do, all are results', z3.Implies(z3.Not(t), forall(q, z3.Implies(inb(ld, q), RES(ld['*.v'][q], q)), [ld['*.v'][q]]))),
                    ('at most 25 passes', z3.And(0 <= ip.to_int(env['nbpass']), ip.to_int(env['nbpass']) <= 25))]
        if not isinstance(env.get('newld'), Ref):
            return []
        nw = E.tree(env['newld'])
        gi = ip.to_int(env['globalindex'])
        el = ld['*.v']
        if L.kind == 'while':
            ld0 = L.entry_st.heap[ent['ld'].cid].tree
            lo0 = ld0['lo']
            t = ip.truthy(env['todo'])
            seg = lambda q: segF(el, lo0, q)
            wit = lambda p: offF(el, lo0, p) + chF(el[p])
            popped = lambda p: z3.And(lo0 <= p, p < ld['lo'])
            return [('the index counts the new descriptions', z3.And(nw['lo'] == 0, nw['hi'] >= 0, gi == nw['hi'])),
                    ('as many as alternatives', nw['hi'] == offF(el, lo0, ld['lo'])),
                    ('the queue', z3.And(lo0 <= ld['lo'], ld['lo'] <= ld['hi'], ld['hi'] == ld0['hi'], el == ld0['*.v'])),
                    ('the alternatives of each, in order', forall(q, z3.Implies(inb(nw, q), z3.And(lo0 <= seg(q), seg(q) < ld['lo'], offF(el, lo0, seg(q)) <= q, ALT(el[seg(q)], q - offF(el, lo0, seg(q)), q, nw['*.v'][q]))), [nw['*.v'][q]])),
                    ('the choice goes on', forall(p, z3.Implies(z3.And(popped(p), ONP(el[p])), z3.Or(DEAD, z3.And(inb(nw, wit(p)), ONP(nw['*.v'][wit(p)])))), [el[p]])),
                    ('results when nothing is expanded', z3.Implies(z3.Not(t), z3.And(nw['hi'] == ld['lo'] - lo0, forall(q, z3.Implies(inb(nw, q), RES(nw['*.v'][q], q)), [nw['*.v'][q]])))),
                    ]
        if L.kind == 'seq' and isinstance(L.node.target, ast.Tuple) and isinstance(env.get('d'), T):
            dd = env['d'].t
            return [('nothing to expand before', forall(q, z3.Implies(z3.And(0 <= q, q < L.i), z3.Not(expF(dd, q))), [expF(dd, q)]))]
        if L.kind != 'seq' or not all(isinstance(env.get(n), T) and isinstance(ent.get(n), T) for n in 'dkv'):
            return []
        nw0 = L.entry_st.heap[ent['newld'].cid].tree
        gi0 = ip.to_int(ent['globalindex'])
        d, v = ip.term(env['d']), ip.term(env['v'])
        n = L.i - L.dom.lo
        out = [('those before are kept', forall(q, z3.Implies(z3.And(0 <= q, q < nw0['hi']), nw['*.v'][q] == nw0['*.v'][q]), [nw['*.v'][q]]))]
        first = L.dom.elem(L.i)
        over = first.t.arg(0).decl().name() if isinstance(first, T) and first.t.num_args() else ''
        if over in ('globs:names', 'sorted'):
            if over == 'globs:names':
                if not isinstance(env.get('filename'), T):
                    return []
                g = E.tree(env['globmap']) if isinstance(env.get('globmap'), Ref) else None
                return [('the groups of the names met', group_map(v, ip.term(env['filename']), g, L.i))] if g is not None else []
            if not isinstance(env.get('repld'), Ref):
                return []
            rp = E.tree(env['repld'])
            c = cntF(v, L.i)
            return out + [('one per matching file', z3.And(rp['lo'] == 0, rp['hi'] == c, gi == gi0 + c, c >= 0)),
                          ('the alternatives so far', forall(q, z3.Implies(inb(rp, q), ALT(d, q, gi0 + q, rp['*.v'][q])), [rp['*.v'][q]]))]
        if any(m[0] == 'var' and m[1] == 'globalindex' for m in L.modified) or isinstance(L.node.iter, ast_Name):
            out += [('one per element', z3.And(nw['lo'] == 0, gi == nw['hi'], nw['hi'] == nw0['hi'] + n, gi == gi0 + n)),
                    ('the alternatives so far', forall(q, z3.Implies(z3.And(nw0['hi'] <= q, q < nw['hi']), ALT(d, q - nw0['hi'], q, nw['*.v'][q])), [nw['*.v'][q]]))]
        return out

    def measure(self, ip, fr, L):
        E = ip.E
        if not isinstance(fr.env.get('ld'), Ref) or self.world is None:
            return None
        try:
            if 'newld' not in L.entry_env:
                return 26 - ip.to_int(fr.env['nbpass'])
            t = E.tree(fr.env['ld'])
            return t['hi'] - t['lo']
        except KeyError:
            return None


import ast      # noqa
ast_Name = ast.Name


def group_map(v, f, g, n):
    """g: the groups of the n first names of the globs of v, in the file f."""
    y, i = z3.Const('gm_y', V), z3.Const('gm_i', INT)
    return z3.And(forall(y, g['has'][y] == z3.Exists([i], z3.And(0 <= i, i < n, fat(gnamesF(v), i) == y)), [g['has'][y]]),
                  forall(y, z3.Implies(g['has'][y], g['*.v'][y] == groupF(v, f, y)), [g['*.v'][y]]))


def mentions_term(t, x):
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.eq(x):
            return True
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        todo += u.children()
    return False


@contract('util.expand', 'P14', UT + 'expand', ctx=ExpCtx, budget=900)
def expand_(ip):
    """The descriptions of the cartesian product, each with its index, and no other."""
    E = ip.E
    c = ip.ctx
    c.world = True
    d0 = E.fresh(V, 'desc')
    el, l, p, v, a = z3.Const('ax_el', EL), z3.Const('ax_l', INT), z3.Const('ax_p', INT), z3.Const('ax_v', V), z3.Const('ax_a', INT)
    E.assume(z3.ForAll([el, l], offF(el, l, l) == 0, patterns=[offF(el, l, l)]),
             z3.ForAll([el, l, p], z3.Implies(p >= l, z3.And(offF(el, l, p) >= 0, offF(el, l, p + 1) == offF(el, l, p) + nsegF(el[p]))), patterns=[MP(offF(el, l, p), nsegF(el[p]))]))
    q = z3.Const('ax_q', INT)
    E.assume(z3.ForAll([el, l, p, q], z3.Implies(z3.And(p >= l, offF(el, l, p) <= q, q < offF(el, l, p) + nsegF(el[p])), segF(el, l, q) == p), patterns=[MP(offF(el, l, p), nsegF(el[p]), segF(el, l, q))]))
    E.assume(forall(v, cntF(v, 0) == 0, [cntF(v, 0)]),
             forall([v, a], z3.Implies(a >= 0, z3.And(cntF(v, a) >= 0, cntF(v, a + 1) == cntF(v, a) + z3.If(matchF(v, fat(files(v), a)), 1, 0))), MP(cntF(v, a), fat(files(v), a))))
    # the inductive definitions, for all descriptions
    d, j, i, e = z3.Const('ax_d', V), z3.Const('ax_j', INT), z3.Const('ax_i', INT), z3.Const('ax_e', V)
    E.assume(z3.ForAll([d, j, i, e], z3.Implies(z3.And(DER(d), ALT(d, j, i, e)), DER(e)), patterns=[ALT(d, j, i, e)]),
             z3.ForAll([d, j, i, e], z3.Implies(z3.And(ONP(d), j == chF(d), ALT(d, j, i, e)), ONP(e)), patterns=[ALT(d, j, i, e)]),
             # a consequence of the definition of the offsets, by induction
             z3.ForAll([el, l, p, q], z3.Implies(z3.And(l <= p, p <= q), offF(el, l, p) <= offF(el, l, q)), patterns=[MP(offF(el, l, p), offF(el, l, q))]))
    E.assume(DER(d0), ONP(d0))
    try:
        r = run_target(ip, UT + 'expand', [T(d0, DESC)])
    except PyRaise as x:
        E.oblige('expand: only fails on a depth too high, a range without step or a missing entry', z3.BoolVal(any(exc_is(ip, x, n) for n in ('MemoryError', 'KeyError', 'ValueError', 'TypeError'))))
        return
    t = E.tree(r)
    q = E.fresh(INT, 'position')
    inb = z3.And(t['lo'] <= q, q < t['hi'])
    E.oblige('expand: all the results have nothing left to expand, with their position', z3.Implies(inb, RES(t['*.v'][q], q - t['lo'])))
    E.oblige('expand: all the results come from the description', z3.Implies(inb, DER(t['*.v'][q])))
    z = z3.Const('ex_q', INT)
    E.oblige('expand: any choice of the alternatives is among the results', z3.Or(DEAD, z3.Exists([z], z3.And(t['lo'] <= z, z < t['hi'], ONP(t['*.v'][z])))))
