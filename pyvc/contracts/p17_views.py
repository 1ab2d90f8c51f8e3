"""The dictionary views of the log (P17)."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from contracts.p06_fasttrack import locals_nt

R = 'reporting:'
nameF = UF('entry_name', V, V)
restF = UF('entry_rest', V, V)       # what is left of an attribute entry without its name
dictF = UF('entry_as_dict', V, V)
isoF = UF('stamp_iso', V, V)
stampF = UF('entry_stamp', V, V)
lastF = UF('last_entry_named', INT, V, INT)      # last position, among the n first entries, of those with that key, or -1


def fresh_items(ip, opq):
    E = ip.E
    leaf = Leaf('V')
    leaf.opq = opq
    nt = Seq(leaf)
    t = fresh_tree(nt, E.fresh_name('items'))
    t['lo'] = z3.IntVal(0)
    i = z3.Const('vi_i', INT)
    x = z3.Const('vi_x', V)
    E.assume(t['hi'] >= 0, forall(i, V.is_rv(t['*.v'][i]), [t['*.v'][i]]), forall(x, V.is_sv(nameF(x)), [nameF(x)]))
    return E.new_cell(nt, t, 'items', frozen=True), t


class VCtx(Ctx):
    on = False

    def define(self, ip, n):
        """Definition of lastF at n (recurrence)."""
        y = z3.Const('lw_y', V)
        n = z3.simplify(n)
        m = z3.simplify(n - 1)
        ip.E.st.pc.append(forall(y, lastF(n, y) == z3.If(n <= 0, -1, z3.If(self.key(self.t['*.v'][m], m) == y, m, lastF(m, y))), [lastF(n, y)]))

    def facts(self, ip, t, n, what):
        y = z3.Const('vf_y', V)
        out = [('%s: a key for each entry, no other' % what, forall(y, t['has'][y] == (lastF(n, y) >= 0), [t['has'][y]])),
               ('%s: the last entry of that key' % what, forall(y, z3.Implies(t['has'][y], t['*.v'][y] == self.val(self.t['*.v'][lastF(n, y)])), [t['*.v'][y]]))]
        return out

    def invariants(self, ip, fr, L):
        if not self.on or L.kind != 'seq':
            return []
        n = z3.simplify(L.i - L.dom.lo)
        self.define(ip, n)
        y = z3.Const('vb_y', V)
        out = [('bound', forall(y, z3.And(lastF(n, y) < z3.If(n > 0, n, 1), lastF(n, y) >= -1), [lastF(n, y)]))]
        for nm, r in self.views(ip, fr):
            out += self.facts(ip, ip.E.tree(r), n, nm)
        if self.popped is not None:
            x = z3.Const('vp_x', V)
            m = ip.E.tree(self.popped)['mem']
            i = z3.Const('vp_i', INT)
            out.append(('the name is taken out of each copy', forall(i, z3.Implies(z3.And(0 <= i, i < n), m[restF(self.t['*.v'][i])]), [self.t['*.v'][i]])))
        return out
    popped = None

    def views(self, ip, fr):
        return locals_nt(ip, fr, lambda nt: isinstance(nt, Map))

    # an attribute entry: a dictionary with a name
    def copy(self, ip, o):
        rest = OpqCls('copy of an attribute entry', attrs={'pop': lambda ip2, c: Stub('pop', lambda ip3, a, k: self.pop(ip3, c, o, a))}, truthy=lambda ip2, c: z3.BoolVal(True))
        return T(restF(o.t), rest)

    def pop(self, ip, c, o, a):
        ip.E.oblige('attribute: its name only is taken out', ip.term(a[0]) == REG.s('name'))
        m = ip.E.tree(self.popped)['mem']
        ip.E.oblige('attribute: its name is taken out once', z3.BoolVal(True))
        ip.E.put(self.popped, {'mem': z3.Store(m, c.t, z3.BoolVal(True))})
        return T(nameF(o.t))


def run_view(ip, full, cls, what):
    E, c = ip.E, ip.ctx
    e = E.new_obj(ip.repo.cls(R + cls), {'_items': c.items}, 'entry')
    heap0 = dict(E.st.heap)
    c.on = True
    r = run_target(ip, full, [e])
    n = z3.simplify(c.t['hi'])
    c.define(ip, n)
    ok = isinstance(r, Ref)
    E.oblige('%s: a dictionary of its own' % what, z3.BoolVal(ok and r.cid not in heap0))
    if ok:
        for k, f in c.facts(ip, E.tree(r), n, what):
            E.oblige(k, f)
    frame_oblige(ip, '%s: nothing else is modified' % what, heap0, {c.popped.cid} if c.popped is not None else set())


@contract('FootprintLogClass.as_dict', 'P17', R + 'FootprintLogClass.as_dict', ctx=VCtx)
def class_dict(ip):
    """The entries of a class by attribute, the last one of each attribute, without its name; the entries themselves are not modified."""
    E, c = ip.E, ip.ctx
    c.items, c.t = fresh_items(ip, OpqCls('attribute entry', attrs={'copy': lambda ip2, o: Stub('copy', lambda ip3, a, k: c.copy(ip3, o))}))
    nt = Set('obj')
    c.popped = E.new_cell(nt, fresh_tree(nt, E.fresh_name('popped')), 'popped')
    x = z3.Const('cd_x', V)
    t = E.tree(c.popped)
    E.assume(forall(x, z3.Not(t['mem'][x]), [t['mem'][x]]))
    c.key, c.val = lambda x, i: nameF(x), restF
    run_view(ip, R + 'FootprintLogClass.as_dict', 'FootprintLogClass', 'class')
    i = E.fresh(INT, 'i')
    E.oblige('class: the names are taken out', z3.Implies(z3.And(0 <= i, i < c.t['hi']), E.tree(c.popped)['mem'][restF(c.t['*.v'][i])]))


ENTRY = OpqCls('entry', attrs={'name': lambda ip, o: T(nameF(o.t)), 'as_dict': lambda ip, o: Stub('as_dict', lambda ip2, a, k: T(dictF(o.t)))})


@contract('FootprintLogCollector.as_dict', 'P17', R + 'FootprintLogCollector.as_dict', ctx=VCtx)
def coll_dict(ip):
    """The classes tried by a search, by name, with the dictionary of each."""
    c = ip.ctx
    c.items, c.t = fresh_items(ip, ENTRY)
    c.key, c.val = lambda x, i: nameF(x), dictF
    run_view(ip, R + 'FootprintLogCollector.as_dict', 'FootprintLogCollector', 'collector')


STAMP = OpqCls('stamp', attrs={'isoformat': lambda ip, o: Stub('isoformat', lambda ip2, a, k: T(isoF(o.t)))})
LOGGED = OpqCls('entry', attrs=dict(ENTRY.attrs, stamp=lambda ip, o: T(stampF(o.t), STAMP)))
concat = UF('concat', V, V, V)


class DCtx(VCtx):
    def views(self, ip, fr):
        d = ip.E.st.heap[self.self.cid].fields['_dict']
        return [('view', d)] if isinstance(d, Ref) else []


@contract('FootprintLog.as_dict', 'P17', R + 'FootprintLog.as_dict', ctx=DCtx)
def log_dict(ip):
    """The dictionary view: rebuilt from all the entries when it is outdated, forced, empty or asked with other keys; kept otherwise."""
    E, c = ip.E, ip.ctx
    c.items, c.t = fresh_items(ip, LOGGED)
    x = z3.Const('ld_x', V)
    E.assume(forall(x, V.is_sv(isoF(x)), [isoF(x)]))
    old = T(E.fresh(V, 'olddict'), OpqCls('former view', truthy=lambda ip2, o: filled))
    filled = E.fresh(BOOL, 'filled')
    touch, force, stamp, former = (E.fresh(BOOL, n) for n in ('touch', 'force', 'stamp', 'former_stamp'))
    c.self = E.new_obj(ip.repo.cls(R + 'FootprintLog'), {'_log': c.items, '_dict': old, '_touch_dict': B(touch), '_touch_xml': B(E.fresh(BOOL, 'touch_xml')), '_dict_stamp': B(former)}, 'log')
    under = UF('str_format', V, V, V)
    c.key = lambda e, i: concat(nameF(e), z3.If(stamp, concat(REG.s(' '), isoF(stampF(e))), under(REG.s('_{:04d}'), V.iv(i + 1))))
    c.val = dictF
    heap0 = dict(E.st.heap)
    c.on = True
    r = run_target(ip, R + 'FootprintLog.as_dict', [c.self], {'force': B(force), 'stamp': B(stamp)})
    f = E.st.heap[c.self.cid].fields
    stale = z3.Or(z3.Not(filled), touch, force, stamp != former)
    if not isinstance(r, Ref):
        E.oblige('log: kept only when it is up to date', z3.And(z3.Not(stale), ip.term(r) == old.t, ip.term(f['_dict']) == old.t))
    else:
        n = z3.simplify(c.t['hi'])
        c.define(ip, n)
        for k, g in c.facts(ip, E.tree(r), n, 'log'):
            E.oblige(k, g)
        E.oblige('log: the view is kept for later', z3.BoolVal(isinstance(f['_dict'], Ref) and f['_dict'].cid == r.cid))
        E.oblige('log: up to date with these keys', z3.And(z3.Not(ip.truthy(f['_touch_dict'])), ip.truthy(f['_dict_stamp']) == stamp))
    frame_oblige(ip, 'log: nothing else is modified', heap0, {'%s.%s' % (c.self.cid, k) for k in ('_dict', '_dict_stamp', '_touch_dict')})
