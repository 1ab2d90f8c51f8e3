"""The log of the resolutions (P17)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from contracts.p02_firstguess import mkdesc

R = 'reporting:'
L_ = R + 'FootprintLog.'
dictF = UF('entry_as_dict', V, V)
searchF = UF('re_search', V, V, BOOL)
LOGNT = lambda: Seq(Leaf('V'))


class LCtx(Ctx):
    merge = True

    def construct(self, ip, info, args, kw):
        """Contracts of the entries: a new object; a class entry is recorded by its parent."""
        E = ip.E
        if info.full == R + 'FootprintLogCollector':
            self.made(ip, 'collector', args, kw, None)
            return self.new
        if info.full == R + 'FootprintLogClass':
            self.made(ip, 'class', args, kw, kw.get('parent'))
            if self.parent is not None and isinstance(kw.get('parent'), Obj) and kw['parent'].cid == self.parent.cid:
                ip.set_item(self.g, C('in parent'), C(True))
            return self.new
        return None

    def made(self, ip, what, args, kw, parent):
        E = ip.E
        E.oblige('%s entry: made once' % what, z3.Not(E.tree(self.g)['has'][REG.s('made')]))
        E.oblige('%s entry: for the given node' % what, z3.BoolVal(len(args) == 1) if not args else ip.term(args[0]) == self.node)
        E.oblige('%s entry: with the references of the log' % what, ip.term(kw['weak']) == self.weak if 'weak' in kw else z3.BoolVal(False))
        ip.set_item(self.g, C('made'), C(what))

    def opaque_attr(self, ip, v, name):
        return None


def world(ip, cur=None):
    """A log: its entries, the current one (none, a collector, a class and its collector)."""
    E = ip.E
    c = ip.ctx
    nt = Map(Leaf('V'), key='name')
    t = fresh_tree(nt, E.fresh_name('ghost'))
    c.g = E.new_cell(nt, t, 'ghost')
    x = z3.Const('lw_x', V)
    E.assume(forall(x, z3.Not(t['has'][x]), [t['has'][x]]))
    lnt = LOGNT()
    c.lt = fresh_tree(lnt, E.fresh_name('log'))
    E.assume(c.lt['lo'] <= c.lt['hi'])
    c.log = E.new_cell(lnt, c.lt, 'log')
    c.node, c.weak = E.fresh(V, 'node'), E.fresh(V, 'weak')
    E.assume(V.is_rv(c.node))
    c.new = T(E.fresh(V, 'newentry'), OpqCls('entry', truthy=lambda ip2, o: z3.BoolVal(True)))
    c.kind = E.decide(3) if cur is None else cur
    ent = lambda cls, **f: E.new_obj(ip.repo.cls(R + cls), f, cls)
    c.inner = E.new_cell(Seq(Leaf('V')), fresh_tree(Seq(Leaf('V')), E.fresh_name('items')), 'items')
    E.assume(E.tree(c.inner)['lo'] <= E.tree(c.inner)['hi'])
    c.parent = None
    if c.kind == 0:
        c.current = C(None)
    elif c.kind == 1:
        c.parent = c.current = ent('FootprintLogCollector', _items=c.inner)
    else:
        c.parent = ent('FootprintLogCollector')
        c.current = ent('FootprintLogClass', parent=c.parent, _items=c.inner)
    c.flags = [E.fresh(BOOL, 'touch_xml'), E.fresh(BOOL, 'touch_dict')]
    c.self = E.new_obj(ip.repo.cls(R + 'FootprintLog'), {'_log': c.log, '_weak': T(c.weak), '_current': c.current, '_touch_xml': B(c.flags[0]), '_touch_dict': B(c.flags[1]),
                       '_xml': T(E.fresh(V, 'xml')), '_dict': T(E.fresh(V, 'dict')), '_dict_stamp': T(E.fresh(V, 'stamp'))}, 'log')
    return c.self


def outdated(ip, what):
    E = ip.E
    f = E.st.heap[ip.ctx.self.cid].fields
    E.oblige('%s: the dictionary and XML views are outdated' % what, z3.And(ip.truthy(f['_touch_xml']), ip.truthy(f['_touch_dict'])))


def appended(ip, what, t1, t0, val):
    i = ip.E.fresh(INT, 'i')
    ip.E.oblige('%s: at the end' % what, z3.And(t1['lo'] == t0['lo'], t1['hi'] == t0['hi'] + 1, t1['*.v'][t0['hi']] == val))
    ip.E.oblige('%s: the former ones are kept' % what, z3.Implies(z3.And(t0['lo'] <= i, i < t0['hi']), t1['*.v'][i] == t0['*.v'][i]))


def current(ip, v):
    f = ip.E.st.heap[ip.ctx.self.cid].fields['_current']
    return z3.BoolVal(ip.same_val(f, v)) if isinstance(v, Obj) or isinstance(f, Obj) else ip.term(f) == ip.term(v)


@contract('FootprintLog.add', 'P17', L_ + 'add ' + L_ + 'add_collector ' + L_ + 'add_candidate ' + L_ + 'add_attribute ' + L_ + '_touch_all ' + R + 'FootprintLogEntry.add', ctx=LCtx,
          assumptions=['the log drops its oldest entries beyond its maximal length (collections.deque)'])
def add(ip):
    """A collector goes at the end of the log, a class in the current collector, an attribute in the current class; the cached views are outdated. Anything else is refused and changes nothing."""
    E = ip.E
    c = ip.ctx
    lg = world(ip)
    what = ('collector', 'candidate', 'attribute', 'nothing')[E.decide(4)]
    extra = T(E.fresh(V, 'why'))
    kw = {'why': extra} if E.decide(2) else {}
    name = name_const(ip, 'attr')
    if what == 'attribute':
        kw['attribute'] = T(name)
    elif what != 'nothing':
        kw[what] = T(c.node, OpqCls('node', truthy=lambda ip2, o: E.fresh(BOOL, 'filled')))
    heap0 = dict(E.st.heap)
    good = dict(collector=True, candidate=c.kind != 0, attribute=c.kind == 2, nothing=False)[what]
    t0 = E.tree(c.inner)
    try:
        run_target(ip, L_ + 'add', [lg], kw)
    except PyRaise as e:
        E.oblige('%s: refused in a wrong context only' % what, z3.BoolVal(not good and exc_is(ip, e, R + 'FootprintBadLogEntry')))
        cur = E.st.heap[lg.cid].fields['_current']
        E.oblige('%s: a refused entry changes nothing but the context' % what, z3.And(E.tree(c.log)['hi'] == c.lt['hi'], E.tree(c.inner)['hi'] == t0['hi'], z3.Not(E.tree(c.g)['has'][REG.s('made')])))
        return
    E.oblige('%s: accepted in the right context only' % what, z3.BoolVal(good))
    outdated(ip, what)
    g = E.tree(c.g)
    if what == 'collector':
        appended(ip, 'collector', E.tree(c.log), c.lt, c.new.t)
        E.oblige('collector: the current entry', current(ip, c.new))
        E.oblige('collector: an entry for a collector', z3.And(g['has'][REG.s('made')], g['*.v'][REG.s('made')] == REG.s('collector')))
        ok = {c.log.cid}
    elif what == 'candidate':
        E.oblige('candidate: an entry for a class', z3.And(g['has'][REG.s('made')], g['*.v'][REG.s('made')] == REG.s('class')))
        E.oblige('candidate: in the current collector', g['has'][REG.s('in parent')])
        E.oblige('candidate: the current entry', current(ip, c.new))
        ok = set()
    else:
        t = E.tree(c.inner)
        E.oblige('attribute: one item at the end of the class entry', z3.And(t['lo'] == t0['lo'], t['hi'] == t0['hi'] + 1))
        E.oblige('attribute: the class stays current', current(ip, c.current))
        ok = {c.inner.cid}
    frame_oblige(ip, '%s: nothing else is modified' % what, heap0, ok | {c.g.cid} | {'%s.%s' % (lg.cid, f) for f in ('_current', '_touch_xml', '_touch_dict')})


@contract('FootprintLog history', 'P17', L_ + 'clear ' + L_ + 'reduce_to_last ' + L_ + 'last ' + L_ + 'items ' + L_ + '__len__', ctx=LCtx)
def history(ip):
    """Clearing empties the log, reducing keeps the last entry only; the last entry, the number of entries."""
    E = ip.E
    c = ip.ctx
    lg = world(ip, 0)
    k = E.decide(4)
    t0 = c.lt
    if k == 0:
        run_target(ip, L_ + 'clear', [lg])
        t = E.tree(c.log)
        E.oblige('clear: empty', t['lo'] == t['hi'])
        outdated(ip, 'clear')
    elif k == 1:
        run_target(ip, L_ + 'reduce_to_last', [lg])
        t = E.tree(c.log)
        some = t0['lo'] < t0['hi']
        E.oblige('reduce: the last entry only, if any', z3.And(t['hi'] - t['lo'] == z3.If(z3.And(some, t0['*.v'][t0['hi'] - 1] != NONE), 1, 0),
                 z3.Implies(t['hi'] > t['lo'], t['*.v'][t['lo']] == t0['*.v'][t0['hi'] - 1])))
        outdated(ip, 'reduce')
    elif k == 2:
        r = run_target(ip, L_ + 'last', [lg])
        E.oblige('last: the last entry, None if there is none', ip.term(r) == z3.If(t0['lo'] < t0['hi'], t0['*.v'][t0['hi'] - 1], NONE))
    else:
        r = run_target(ip, L_ + '__len__', [lg])
        E.oblige('len: the number of entries', ip.to_int(r) == t0['hi'] - t0['lo'])


class WCtx(LCtx):
    def mod_attr(self, ip, mod, name):
        if mod == 're':
            if name == 'IGNORECASE':
                return T(REG.o('re.IGNORECASE'))
            if name == 'search':
                def search(ip2, a, k):
                    fl = a[2] if len(a) > 2 else k.get('flags', C(0))
                    ip2.E.oblige('why not: the case is ignored', ip2.term(fl) == REG.o('re.IGNORECASE'))
                    return B(searchF(ip2.term(a[0]), ip2.term(a[1])))
                return Stub('search', search)
        return None

    def invariants(self, ip, fr, L):
        t = ip.E.tree(self.info)
        x = z3.Const('wn_x', V)
        if L.kind not in ('set', 'seq'):
            return []
        vis = lambda y: L.visited(y)
        return [('the entries met leave, the others stay', forall(x, t['has'][x] == z3.And(self.t0['has'][x], z3.Not(vis(x))), [t['has'][x]])),
                ('values', forall(x, z3.Implies(t['has'][x], t['*.v'][x] == self.t0['*.v'][x]), [t['*.v'][x]]))]


@contract('FootprintLog.whynot', 'P17', L_ + 'whynot', ctx=WCtx, assumptions=['re.search is a function of its arguments'])
def whynot(ip):
    """Exactly the rejected classes of the last search whose name matches the pattern, whatever the case, with their reasons; None without any search."""
    E = ip.E
    c = ip.ctx
    nt = Map(Leaf('V'), key='name')
    c.t0 = fresh_tree(nt, E.fresh_name('classes'))
    c.info = E.new_cell(nt, c.t0, 'classes')
    last = T(E.fresh(V, 'last'), OpqCls('collector entry', attrs={'as_dict': lambda ip2, o: Stub('as_dict', lambda ip3, a, k: c.info)}, truthy=lambda ip2, o: o.t != NONE))
    lg = E.new_obj(ip.repo.cls(R + 'FootprintLog'), {'last': last}, 'log')
    sel = E.fresh(V, 'select')
    r = run_target(ip, L_ + 'whynot', [lg, T(sel)])
    if not isinstance(r, Ref):
        E.oblige('why not: None when nothing was searched only', z3.And(ip.term(r) == NONE, last.t == NONE))
        return
    t = E.tree(r)
    y = E.fresh(V, 'class')
    E.oblige('why not: exactly the rejected classes that match', t['has'][y] == z3.And(c.t0['has'][y], searchF(sel, y), truth(c.t0['*.v'][y])))
    E.oblige('why not: their reasons', z3.Implies(t['has'][y], t['*.v'][y] == c.t0['*.v'][y]))
