"""The creation of classes by FootprintBaseMeta (P13, P10, P09, P12)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT

M = '__init__:FootprintBaseMeta.'
descF = UF('accessor', V, V, V)             # accessor class, attribute -> accessor
cleanF = UF('tag_clean', V, V)
allkF = UF('is_a_key_of_the_footprint', V, BOOL)
boardF = UF('observer_board', V, V)


def isacc(c, t):
    return z3.And(V.is_rv(t), t != UNK, instU(t, c.FAD))


class MCtx(Ctx):
    merge = True
    real_lists = True
    inv_ms = 2000
    d = None
    real = None
    fp = None

    def __init__(self):
        super().__init__(callees={'__init__:Footprint.allkeys': self.allkeys})

    # -------------------------------------------------- what the metaclass uses
    def allkeys(self, ip, args, kw):
        ip.used_contracts.add('Footprint: keys')
        ip.E.oblige('the keys of the footprint of the class', z3.BoolVal(isinstance(args[0], Obj) and args[0].cid == self.fp.obj.cid))
        x = z3.Const('al_x', V)
        m = ip.E.fresh(z3.ArraySort(V, BOOL), 'allkeys')
        ip.E.assume(forall(x, m[x] == allkF(x), [m[x]]), forall(x, m[x] == allkF(x), [allkF(x)]))
        return ip.E.new_cell(Set(key='name'), {'mem': m}, 'allkeys')

    def glob(self, ip, name, module):
        if name == 'setup':
            return T(REG.o('setup'), OpqCls('setup', attrs={'docstrings': lambda ip2, o: I(self.docs), 'shortnames': lambda ip2, o: C(False), 'report': lambda ip2, o: T(REG.o('r1')),
                                                            'lreport_len': lambda ip2, o: T(REG.o('r2')), 'report_style': lambda ip2, o: T(REG.o('r3'))}))
        return None

    def construct(self, ip, info, args, kw):
        E = ip.E
        if info.full == '__init__:Footprint':
            from interp import StarArg
            n = len(self.parts)
            if len(args) == 1 and isinstance(args[0], StarArg) and isinstance(args[0].v, Ref):
                t = E.tree(args[0].v)
                E.oblige('merge: the bases from the last to the first, then the own definitions', t['hi'] - t['lo'] == n)
                E.oblige('merge: each in its place', z3.And([t['*.v'][t['lo'] + i] == p for i, p in enumerate(self.parts)] + [z3.BoolVal(True)]))
                return self.fp.obj
            if any(isinstance(x, StarArg) for x in args):
                raise Unsupported('starred arguments')
            E.oblige('merge: the bases from the last to the first, then the own definitions', z3.BoolVal(len(args) == n))
            if len(args) == n:
                E.oblige('merge: each in its place', z3.And([ip.term(a) == p for a, p in zip(args, self.parts)] + [z3.BoolVal(True)]))
            return self.fp.obj
        return None

    def mod_attr(self, ip, mod, name):
        E = ip.E
        if mod.endswith('access') and name == 'attr_descriptors':
            return Stub('attr_descriptors', lambda ip2, a, k: self.accessors)
        if mod.endswith('collectors') and name == 'get':
            return Stub('get', lambda ip2, a, k: self.collector(ip2, ip2.term(k['tag'])))
        if mod.endswith('collectors') and name == 'Collector':
            return T(REG.o('Collector'), OpqCls('Collector', attrs={'tag_clean': lambda ip2, o: Stub('tag_clean', lambda ip3, a, k: T(cleanF(ip3.term(a[0]))))}))
        if mod.endswith('observer') and name == 'get':
            def board(ip2, a, k):
                ip2.E.oblige('observers: the board of the class', ip2.term(k['tag']) == self.fullname)
                return T(REG.o('board'), OpqCls('board', attrs={'register': lambda ip3, o: Stub('register', self.register)}))
            return Stub('get', board)
        if mod.endswith('doc') and name == 'format_docstring':
            return Stub('format_docstring', lambda ip2, a, k: ip2.opaque_str('doc'))
        return None

    def register(self, ip, a, k):
        v = a[0]
        ip.set_item(self.obs, T(v.t), C(True))
        return C(None)

    def collector(self, ip, tag):
        def add(ip2, a, k):
            E = ip2.E
            E.oblige('registration: the class itself', z3.And(z3.BoolVal(len(a) == 1), ip2.term(a[0]) == self.real.t))
            E.oblige('registration: as abstract or not', ip2.truthy(k['abstract']) == self.abstract)
            ip2.set_item(self.added, T(tag), C(True))
            return C(None)
        return T(self.colF(tag), OpqCls('collector', attrs={'add': lambda ip2, o: Stub('add', add), 'register': lambda ip2, o: B(self.regF(o.t))}))
    colF, regF = UF('collector_of_tag', V, V), UF('collector_registers', V, BOOL)

    def call_opaque(self, ip, fv, args, kw):
        # an accessor class is called with the name of the attribute
        E = ip.E
        E.oblige('accessor: with the authorisation of the class', ip.term(kw.get('auth', C(None))) == self.auth(ip))
        return T(descF(fv.t, ip.term(args[0])))

    def auth(self, ip):
        return ip.E.tree(self.ns)['*.v'][REG.s('_fp_auth')]

    def super_method(self, ip, cls, name):
        if name == '__new__':
            def new(ip2, a, k):
                ip2.E.oblige('the class is built from its namespace', z3.BoolVal(isinstance(a[-1], Obj) and a[-1].cid == self.d.cid))
                E = ip2.E
                t = E.tree(self.ns)
                y = E.fresh(V, 'attr')
                acc = self.fp.access(y)
                own = isacc(self, acc)
                E.oblige('accessors: every attribute has the accessor of its declared mode', z3.Implies(self.fp.has(y), z3.And(t['has'][y], t['*.v'][y] == descF(z3.If(own, acc, self.at['*.v'][acc]), y))))
                E.oblige('accessors: nothing else is defined', z3.Implies(z3.And(t['has'][y], z3.Not(self.fp.has(y))), z3.Or(self.n0['has'][y], y == REG.s('_fp_auth'), y == REG.s('_footprint'))))
                return self.real
            return new
        return None

    # -------------------------------------------------- the namespace
    def obj_attr(self, ip, v, name):
        if self.d is None or v.cid != self.d.cid:
            return None
        if name == 'setdefault':
            def sd(ip2, a, k):
                if a[0].py == '_abstract':
                    return B(self.abstract)
                if a[0].py == '_mkshort':
                    return C(False)
                raise Unsupported('setdefault')
            return Stub('setdefault', sd)
        if name == 'get':
            def get(ip2, a, k):
                if a[0].py == '_footprint':
                    return self.local
                raise Unsupported('get')
            return Stub('get', get)
        return None

    def obj_setitem(self, ip, o, k, v):
        if self.d is not None and o.cid == self.d.cid:
            if isinstance(k, C) and k.py == '_fp_auth':
                self._auth0 = ip.term(v)
            ip.set_item(self.ns, k, v if not isinstance(v, Obj) else T(REG.o('the footprint')))
            return True
        return None

    def obj_item(self, ip, o, k):
        if self.d is not None and o.cid == self.d.cid:
            if isinstance(k, C) and k.py == '__module__':
                return T(REG.s('module'))
            return ip.get_item(self.ns, k)
        return None

    def clash(self, n):
        return z3.Or(allkF(n), allkF(cleanF(n)))

    def invariants(self, ip, fr, L):
        if self.fp is None or L.kind not in ('set', 'seq'):
            return []
        E = ip.E
        x = z3.Const('mt_x', V)
        out = []
        t = E.tree(self.ns)
        ad, ob = E.tree(self.added), E.tree(self.obs)
        if L.kind == 'set':
            acc = self.fp.access(x)
            val = descF(z3.If(isacc(self, acc), acc, self.at['*.v'][acc]), x)
            out.append(('the attributes met have their accessor', forall(x, z3.Implies(z3.And(self.fp.has(x), L.visited(x)), z3.And(t['has'][x], t['*.v'][x] == val)), [t['*.v'][x]])))
            out.append(('the attributes met are defined', forall(x, z3.Implies(z3.And(self.fp.has(x), L.visited(x)), t['has'][x]), [t['has'][x]])))
            out.append(('nothing else is defined', forall(x, z3.Implies(t['has'][x], z3.Or(self.n0['has'][x], self.fp.has(x), x == REG.s('_fp_auth'), x == REG.s('_footprint'))), [t['has'][x]])))
            out.append(('the authorisation is kept', z3.And(t['has'][REG.s('_fp_auth')], self.auth(ip) == self._auth0)))
            return out
        i = z3.Const('mt_i', INT)
        ct = self.ct
        seen = z3.And(ct['lo'] <= i, i < L.i)
        out.append(('no clash so far', forall(i, z3.Implies(seen, z3.Not(self.clash(ct['*.v'][i]))), [ct['*.v'][i]])))
        out.append(('no clash at all once classes are added', z3.Implies(z3.Exists([x], ad['has'][x]), forall(i, z3.Implies(z3.And(ct['lo'] <= i, i < ct['hi']), z3.Not(self.clash(ct['*.v'][i]))), [ct['*.v'][i]]))))
        inr = z3.And(ct['lo'] <= i, i < ct['hi'])
        out.append(('registered so far', forall(i, z3.Implies(seen, ad['has'][ct['*.v'][i]]), [ct['*.v'][i]])))
        out.append(('observed so far', forall(i, z3.Implies(seen, ob['has'][self.colF(ct['*.v'][i])] == z3.And(z3.Not(self.abstract), self.regF(self.colF(ct['*.v'][i])))), [ct['*.v'][i]])))
        w = self.wit
        out.append(('registered in declared collectors only', forall(x, z3.Implies(ad['has'][x], z3.And(ct['lo'] <= w(x), w(x) < L.i, ct['*.v'][w(x)] == x)), [ad['has'][x]])))
        out.append(('not registered yet', forall(x, z3.Not(ad['has'][x]), [ad['has'][x]])))
        out.append(('not observed yet', forall(x, z3.Not(ob['has'][x]), [ob['has'][x]])))
        out.append(('observed when registered', forall(x, z3.Implies(ob['has'][x], z3.And(z3.Not(self.abstract), self.regF(x))), [ob['has'][x]])))
        return out


@contract('FootprintBaseMeta.__new__', 'P13 P12 P10 P09', M + '__new__', ctx=MCtx, budget=120,
          assumptions=['no short names (setup.shortnames), no decorative footprint', 'one base class and one footprint, or two base classes and a list of two footprints',
                       'observer.get and collectors.get give the board and the collector of a tag'])
def new(ip):
    """The footprint merges the bases (last first) then the own definitions; each attribute gets the accessor of its mode; the class is registered in
    all its collectors, as abstract or not, and observed when it is not abstract; a refused definition is registered nowhere."""
    E = ip.E
    c = ip.ctx
    c.abstract = E.fresh(BOOL, 'abstract')
    c.docs = E.fresh(INT, 'docstrings')
    c.fullname = E.fresh(V, 'fullname')
    nb = E.decide(2) + 1
    bases, bt = [], []
    for i in range(nb):
        t = E.fresh(V, 'base_fp%d' % i)
        bt.append(t)
        ns = OpqCls('base namespace', attrs={'get': lambda ip2, o, t=t: Stub('get', lambda ip3, a, k: T(t))})
        bases.append(T(E.fresh(V, 'base%d' % i), OpqCls('class', attrs={'__dict__': lambda ip2, o, ns=ns: T(REG.o('ns'), ns)})))
    deco = REG.o('class:__init__:DecorativeFootprint')
    own = [E.fresh(V, 'own%d' % i) for i in range(2)]
    for t in own:
        E.assume(z3.Not(instU(t, ip.term(ClsV(ip.repo.cls('__init__:DecorativeFootprint'))))))
    if nb == 2:
        c.local = E.new_obj('plist', {str(i): T(t) for i, t in enumerate(own)}, 'plist')
    else:
        own = own[:1]
        c.local = T(own[0])
        E.assume(UF('typeof', V, V)(own[0]) != ip.term(BCls('list')))
    c.parts = bt[::-1] + own
    fp = FP(ip)
    c.FAD = ip.term(ClsV(ip.repo.cls('access:FootprintAttrDescriptor')))
    ant = Map(Leaf('V'), key='V')
    c.at = fresh_tree(ant, E.fresh_name('accessors'))
    c.accessors = E.new_cell(ant, c.at, 'accessors', frozen=True)
    x = z3.Const('mn_x', V)
    E.assume(forall(x, z3.Implies(fp.has(x), z3.Or(isacc(c, fp.access(x)), z3.And(canon(fp.access(x)) == fp.access(x), z3.Or(z3.Not(V.is_rv(fp.access(x))), hashableF(fp.access(x))), c.at['has'][fp.access(x)]))), [fp.has(x)]))
    E.assume(forall(x, z3.Implies(fp.has(x), z3.Or(fp.info(x) == NONE, V.is_sv(fp.info(x)))), [fp.has(x)]), forall(x, V.is_sv(cleanF(x)), [cleanF(x)]))
    for n in ('_fp_auth', '_footprint'):
        E.assume(z3.Not(fp.has(REG.s(n))))
    nnt = Map(Leaf('V'), key='name')
    c.n0 = fresh_tree(nnt, E.fresh_name('namespace'))
    c.ns = E.new_cell(nnt, c.n0, 'namespace')
    c.added = E.new_cell(nnt, {'has': z3.K(V, z3.BoolVal(False)), '*.v': fresh_tree(nnt, 'ad')['*.v']}, 'added')
    ont = Map(Leaf('V'), key='obj')
    c.obs = E.new_cell(ont, {'has': z3.K(V, z3.BoolVal(False)), '*.v': fresh_tree(ont, 'ob')['*.v']}, 'observed')
    snt = Seq(Leaf('name'))
    c.ct = fresh_tree(snt, E.fresh_name('collectors'))
    E.assume(c.ct['lo'] == 0, c.ct['lo'] <= c.ct['hi'])
    coll = E.new_cell(snt, c.ct, 'collectors', frozen=True)
    expl = E.fresh(BOOL, 'explicit')
    mand = E.fresh(V, 'mandatory')
    rt = E.fresh(V, 'realcls')
    E.assume(V.is_rv(rt))
    k1 = z3.Const('mn_k', V)
    E.assume(forall(k1, V.is_rv(c.colF(k1)), [c.colF(k1)]))
    c.real = T(rt, OpqCls('class', attrs={'_explicit': lambda ip2, o: B(expl), 'footprint_mandatory': lambda ip2, o: Stub('mandatory', lambda ip3, a, k: T(mand)), '_collector': lambda ip2, o: coll,
               'fullname': lambda ip2, o: Stub('fullname', lambda ip3, a, k: T(c.fullname)), '__doc__': lambda ip2, o: ip2.opaque_str('doc'), '_footprint': lambda ip2, o: fp.obj,
               '__setattr_dyn__': lambda ip2, o, n, v: None}))
    c.d = E.new_obj('namespace', {}, 'd')
    c.fp = fp
    c._auth0 = NONE
    c.wit = UF('position_of', V, INT)
    i, j = z3.Const('mn_i', INT), E.fresh(INT, 'position')
    E.assume(forall(i, z3.Implies(z3.And(0 <= i, i < c.ct['hi']), V.is_sv(c.ct['*.v'][i])), [c.ct['*.v'][i]]))
    E.assume(forall(i, z3.Implies(z3.And(0 <= i, i < c.ct['hi']), z3.And(0 <= c.wit(c.ct['*.v'][i]), c.wit(c.ct['*.v'][i]) <= i, c.ct['*.v'][c.wit(c.ct['*.v'][i])] == c.ct['*.v'][i])), [c.ct['*.v'][i]]))
    ad = lambda: E.tree(c.added)['has']
    bad = z3.And(z3.Not(c.abstract), expl, z3.Not(truth(mand)))
    y = E.fresh(V, 'tag')
    inr = z3.And(0 <= j, j < c.ct['hi'])
    try:
        run_target(ip, M + '__new__', [ClsV(ip.repo.cls('__init__:FootprintBaseMeta')), T(REG.s('name')), Tup(bases), c.d])
    except PyRaise as e:
        E.oblige('refused: with an invalid definition error', z3.BoolVal(exc_is(ip, e, '__init__:FootprintInvalidDefinition')))
        E.oblige('refused: registered nowhere', z3.Not(ad()[y]))
        E.oblige('refused: for a missing mandatory attribute or a name only', z3.Or(bad, z3.Exists([i], z3.And(0 <= i, i < c.ct['hi'], c.clash(c.ct['*.v'][i])))))
        return
    tj = c.ct['*.v'][j]
    E.oblige('accepted: explicit classes have a mandatory attribute', z3.Not(bad))
    E.oblige('accepted: no key is named as a collector', z3.Implies(inr, z3.Not(c.clash(tj))))
    E.oblige('accepted: registered in each collector', z3.Implies(inr, ad()[tj]))
    E.oblige('accepted: registered in no other', z3.Implies(ad()[y], c.ct['*.v'][c.wit(y)] == y))
    E.oblige('accepted: observed by each collector that registers, unless abstract', z3.Implies(inr, E.tree(c.obs)['has'][c.colF(tj)] == z3.And(z3.Not(c.abstract), c.regF(c.colF(tj)))))
