"""Setup and proxies (P18)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from contracts.p02_firstguess import mkdesc

S = 'config:FootprintSetup.'
PX = 'proxies:FootprintProxy.'
collF = UF('collector_of', V, V)             # tag -> its collector
loadF = UF('load_of', V, V)
instF = UF('instances_of', V, V)
concat = UF('concat', V, V, V)
starts, ends = UF('str_startswith', V, V, BOOL), UF('str_endswith', V, V, BOOL)
rstrip = UF('str_rstrip', V, V, V)
plural = lambda k: concat(k, REG.s('s'))
COLL = OpqCls('collector', attrs={'load': lambda ip, o: T(loadF(o.t)), 'instances': lambda ip, o: Stub('instances', lambda ip2, a, k: T(instF(o.t))),
                                  'tag': lambda ip, o: T(UF('tag_of', V, V)(o.t))})


class PCtx(Ctx):
    merge = True
    inv_ms = 2000
    tags = None
    want = None

    def world(self, ip):
        """The table of the collectors: tag -> collector. No tag ends with a s."""
        E = ip.E
        nt = Map(Leaf('V', opq=COLL) if False else Leaf('V'), key='name')
        nt.child.opq = COLL
        self.tt = fresh_tree(nt, E.fresh_name('collectors'))
        self.tags = E.new_cell(nt, self.tt, 'collectors', frozen=True)
        x, y = z3.Const('pw_x', V), z3.Const('pw_y', V)
        has = self.tt['has']
        E.assume(forall(x, z3.Implies(has[x], z3.And(V.is_sv(x), self.tt['*.v'][x] == collF(x), z3.Not(has[plural(x)]))), [has[x]]))
        sing = UF('singular', V, V)
        E.assume(forall(x, z3.And(sing(plural(x)) == x, V.is_sv(plural(x))), [plural(x)]))
        self.sing = sing

    def mod_attr(self, ip, mod, name):
        if mod.endswith('collectors'):
            if name in ('items', 'keys', 'values'):
                return ip.get_attr(self.tags, name)
            if name == 'get':
                def get(ip2, a, k):
                    ip2.E.oblige('collectors.get: by tag', z3.BoolVal(not a and set(k) == {'tag'}))
                    return T(UF('the_collector_tagged', V, V)(ip2.term(k['tag'])), COLL)
                return Stub('get', get)
        return None

    def invariants(self, ip, fr, L):
        if self.want is None or L.kind not in ('set', 'seq'):
            return []
        return self.want(ip, fr, L)


@contract('FootprintProxy access', 'P18', PX + 'exists ' + PX + '__contains__ ' + PX + 'getitem ' + PX + '__getattr__', ctx=PCtx,
          assumptions=['collectors.get gives the collector of the tag, in lower case and without a final s (bronx GetByTag)'])
def access(ip):
    """A tag exists, with or without its final s, when a collector has it; the plural gives the collector, the singular its load function, else None."""
    E = ip.E
    c = ip.ctx
    c.world(ip)
    px = E.new_obj(ip.repo.cls('proxies:FootprintProxy'), {}, 'proxy')
    n = name_const(ip, 'item')
    ex = c.tt['has'][rstrip(n, REG.s('s'))]
    one = UF('the_collector_tagged', V, V)(n)
    k = E.decide(5)
    if k < 2:
        r = run_target(ip, PX + ('exists', '__contains__')[k], [px, T(n)])
        E.oblige('exists: a collector has this tag, up to a final s', ip.truthy(r) == ex)
    elif k < 4:
        v = E.fresh(V, 'else')
        r = run_target(ip, PX + 'getitem', [px, T(n)] + ([T(v)] if k == 2 else []))
        E.oblige('getitem: the collector, else the given value', ip.term(r) == z3.If(ex, one, v if k == 2 else NONE))
    else:
        r = run_target(ip, PX + '__getattr__', [px, T(n)])
        E.oblige('an attribute: None, the collector or its load function', ip.term(r) == z3.If(z3.Or(starts(n, REG.s('_')), z3.Not(ex)), NONE, z3.If(ends(n, REG.s('s')), one, loadF(one))))


@contract('FootprintProxy.objectsmap', 'P18', PX + 'objectsmap', ctx=PCtx)
def objectsmap(ip):
    """One entry per collector, named by its plural: its instances."""
    E = ip.E
    c = ip.ctx
    c.world(ip)
    px = E.new_obj(ip.repo.cls('proxies:FootprintProxy'), {}, 'proxy')
    r = run_target(ip, PX + 'objectsmap', [px])
    t = E.tree(r)
    y = E.fresh(V, 'tag')
    E.oblige('every collector is there, with its instances', z3.Implies(c.tt['has'][y], z3.And(t['has'][plural(y)], t['*.v'][plural(y)] == instF(collF(y)))))
    E.oblige('nothing else', z3.Implies(t['has'][y], c.tt['has'][c.sing(y)]))


def proxy_obj(ip, cell_of, opaque=None):
    return OpqCls('proxy', attrs={'__setattr_dyn__': lambda ip2, o, n, v: cell_of(ip2, o, n, v),
                                  '__hasattr_dyn__': opaque, '__getattr_dyn__': lambda ip2, o, n: None})


@contract('FootprintSetup.add_proxy', 'P18', S + 'add_proxy', ctx=PCtx)
def add_proxy(ip):
    """The object gets, for every existing collector, its load function and the collector itself, unless it has such an attribute (and clear is not set)."""
    E = ip.E
    c = ip.ctx
    c.world(ip)
    nt = Map(Leaf('V'), key='name')
    nt.child.opq = None
    t0 = fresh_tree(nt, E.fresh_name('attributes'))
    cell = E.new_cell(nt, t0, 'attributes')
    snt = Set('obj')
    s0 = fresh_tree(snt, E.fresh_name('proxies'))
    prox = E.new_cell(snt, s0, 'proxies')
    o = T(E.fresh(V, 'obj'), OpqCls('proxy', attrs={'__setattr_dyn__': lambda ip2, o, n, v: ip2.set_item(cell, n, T(ip2.term(v))),
                                                    '__hasattr_dyn__': lambda ip2, o, n: B(E.tree(cell)['has'][ip2.term(n)])}))
    su = E.new_obj(ip.repo.cls('config:FootprintSetup'), {'proxies': prox}, 'setup')
    clear = E.fresh(BOOL, 'clear')
    args = [su, o] + ([B(clear)] if E.decide(2) else [])
    if len(args) == 2:
        E.assume(z3.Not(clear))
    has = c.tt['has']
    keep = lambda y: z3.And(t0['has'][y], z3.Not(clear))

    def expect(y, tagp):
        """(is set, value) of the attribute y, once the tags of tagp are done."""
        si = c.sing(y)
        isp = z3.And(y == plural(si), tagp(si))
        new = z3.And(z3.Or(tagp(y), isp), z3.Not(keep(y)))
        return z3.Or(t0['has'][y], new), z3.If(new, z3.If(tagp(y), loadF(collF(y)), collF(si)), t0['*.v'][y])

    def want(ip2, fr, L):
        x = z3.Const('ap_x', V)
        t = ip2.E.tree(cell)
        h, v = expect(x, lambda z: z3.And(has[z], L.visited(z)))
        return [('the attributes of the collectors met', forall(x, t['has'][x] == h, [t['has'][x]])),
                ('their values', forall(x, z3.Implies(t['has'][x], t['*.v'][x] == v), [t['*.v'][x]]))]
    c.want = want
    heap0 = dict(E.st.heap)
    run_target(ip, S + 'add_proxy', args)
    y = E.fresh(V, 'name')
    t = E.tree(cell)
    h, v = expect(y, lambda z: has[z])
    E.oblige('the object is a proxy of the setup', E.tree(prox)['mem'] == z3.Store(s0['mem'], o.t, z3.BoolVal(True)))
    E.oblige('exactly the attributes of the collectors', t['has'][y] == h)
    E.oblige('the values of the collectors, the attributes it had are kept', z3.Implies(t['has'][y], t['*.v'][y] == v))
    frame_oblige(ip, 'nothing else is modified', heap0, {cell.cid, prox.cid})


class SCtx(PCtx):
    def construct(self, ip, info, args, kw):
        if info.full == 'config:FootprintSetup':
            return self.su
        return None

    def mod_attr(self, ip, mod, name):
        if mod.endswith('dictionaries') and name == 'LowerCaseDict':
            def new(ip2, a, k):
                ip2.E.oblige('an empty case insensitive dictionary', z3.BoolVal(not a and not k))
                g = self.g

                def update(ip3, a2, k2):
                    E = ip3.E
                    E.oblige('filled once', z3.Not(E.tree(g)['has'][REG.s('filled')]))
                    E.oblige('filled with the given values', z3.BoolVal(len(a2) == 1 and not k2 and isinstance(a2[0], Ref) and a2[0].cid == self.given.cid))
                    ip3.set_item(g, C('filled'), C(True))
                    return C(None)
                return T(REG.o('new defaults'), OpqCls('case insensitive dictionary', attrs={'update': lambda ip3, o: Stub('update', update)}))
            return Stub('LowerCaseDict', new)
        return super().mod_attr(ip, mod, name)


@contract('FootprintSetup switches', 'P18 P02', S + '_set_defaults ' + S + '_get_defaults ' + S + '_get_extended ' + S + '_set_extended ' + S + 'extras', ctx=SCtx,
          assumptions=['LowerCaseDict compares its keys in lower case (bronx)'])
def switches(ip):
    """New defaults replace the former ones by a case insensitive dictionary of the given values; the extended mode and the extra values."""
    E = ip.E
    c = ip.ctx
    nt = Map(Leaf('V'), key='name')
    t = fresh_tree(nt, E.fresh_name('ghost'))
    c.g = E.new_cell(nt, t, 'ghost')
    E.assume(z3.Not(t['has'][REG.s('filled')]))
    r, c.dt = mkdesc(ip, 'given')
    c.given = r
    old, ext, cb = E.fresh(V, 'old'), E.fresh(V, 'extended'), E.fresh(V, 'callback')
    called = UF('result_of_call', V, V)
    su = E.new_obj(ip.repo.cls('config:FootprintSetup'), {'_defaults': T(old), '_extended': T(ext),
                   'callback': T(cb, OpqCls('callback', call=lambda ip2, o, a, k: T(called(o.t)) if not a and not k else None, truthy=lambda ip2, o: truth(o.t)))}, 'setup')
    heap0 = dict(E.st.heap)
    k = E.decide(5)
    if k == 0:
        run_target(ip, S + '_set_defaults', [su, r])
        new = E.st.heap[su.cid].fields['_defaults']
        E.oblige('defaults: replaced', ip.term(new) == REG.o('new defaults'))
        E.oblige('defaults: filled', E.tree(c.g)['has'][REG.s('filled')])
        frame_oblige(ip, 'defaults: nothing else is modified', heap0, {'%s._defaults' % su.cid, c.g.cid})
    elif k == 1:
        E.oblige('defaults: the current ones', ip.term(run_target(ip, S + '_get_defaults', [su])) == old)
    elif k == 2:
        E.oblige('extended: the current mode', ip.term(run_target(ip, S + '_get_extended', [su])) == ext)
    elif k == 3:
        v = E.fresh(V, 'switch')
        run_target(ip, S + '_set_extended', [su, T(v)])
        new = ip.term(E.st.heap[su.cid].fields['_extended'])
        E.oblige('extended: the new mode, kept when None is given', new == z3.If(v == NONE, ext, V.bv(truth(v))))
        frame_oblige(ip, 'extended: nothing else is modified', heap0, {'%s._extended' % su.cid})
    else:
        r = run_target(ip, S + 'extras', [su])
        if isinstance(r, Ref):
            y = E.fresh(V, 'key')
            E.oblige('extras: none without a callback', z3.And(z3.Not(truth(cb)), z3.Not(E.tree(r)['has'][y]) if 'has' in E.tree(r) else z3.BoolVal(True)))
        else:
            E.oblige('extras: what the callback gives', z3.And(truth(cb), ip.term(r) == called(cb)))


@contract('config.add2proxies', 'P18', 'config:add2proxies', ctx=SCtx)
def add2(ip):
    """Every object of the proxies gets the load function and the collector."""
    E = ip.E
    c = ip.ctx
    nt = Map(Map(Leaf('V'), key='name'), key='obj')
    t0 = fresh_tree(nt, E.fresh_name('attributes'))
    cell = E.new_cell(nt, t0, 'attributes')
    x, y = z3.Const('a2_x', V), z3.Const('a2_y', V)
    E.assume(forall(x, t0['has'][x], [t0['has'][x]]))
    snt = Set('obj')
    snt.kopq = OpqCls('proxy', attrs={'__setattr_dyn__': lambda ip2, o, n, v: ip2.set_item(ip2.get_item(cell, T(o.t)), n, T(ip2.term(v)))})
    s0 = fresh_tree(snt, E.fresh_name('proxies'))
    prox = E.new_cell(snt, s0, 'proxies', frozen=True)
    c.su = E.new_obj(ip.repo.cls('config:FootprintSetup'), {'proxies': prox}, 'setup')
    co = E.fresh(V, 'collector')
    tag = UF('tag_of', V, V)(co)
    E.assume(V.is_sv(tag), plural(tag) != tag)

    def expect(o, n, done):
        new = z3.And(done(o), z3.Or(n == tag, n == plural(tag)))
        return z3.Or(t0['*.has'][o][n], new), z3.If(new, z3.If(n == tag, loadF(co), co), t0['*.*.v'][o][n])

    def want(ip2, fr, L):
        t = ip2.E.tree(cell)
        h, v = expect(x, y, lambda z: z3.And(s0['mem'][z], L.visited(z)))
        return [('the proxies are all there', forall(x, t['has'][x], [t['has'][x]])), ('the attributes of the proxies met', forall([x, y], t['*.has'][x][y] == h, [t['*.has'][x][y]])),
                ('their values', forall([x, y], z3.Implies(t['*.has'][x][y], t['*.*.v'][x][y] == v), [t['*.*.v'][x][y]]))]
    c.want = want
    heap0 = dict(E.st.heap)
    run_target(ip, 'config:add2proxies', [T(co, COLL)])
    t = E.tree(cell)
    o, n = E.fresh(V, 'obj'), E.fresh(V, 'name')
    h, v = expect(o, n, lambda z: s0['mem'][z])
    E.oblige('exactly the attributes of the collector', t['*.has'][o][n] == h)
    E.oblige('their values', z3.Implies(t['*.has'][o][n], t['*.*.v'][o][n] == v))
    frame_oblige(ip, 'nothing else is modified', heap0, {cell.cid})
