"""Footprint._replacement (P03): the substitution of the references of one value."""
from contracts._model import *     # noqa
from contracts._model import V, NONE, BOOL, INT
from contracts.p02_firstguess import F
from interp import seq_facts
from lib import callF

refF = UF('has_reference', V, BOOL)              # a string in which replattr finds a reference
matchF = UF('first_reference', V, V)             # the match
grpF = UF('reference_group', V, INT, V)          # its groups: name, method, fallback, format
subF = UF('replace_first', V, V, V)              # string, replacement text -> string
procF = UF('processed', V, V, V, BOOL, V)        # value, method, string, requeue -> string (contract of _process_replm)
changedF = UF('processed_changed', V, V, V, BOOL, INT)
fmtF = UF('formatted', V, V, V)                  # format string, value
concatF = UF('concat', V, V, V)
sbF = UF('substitutes', V, V, BOOL)              # the least relation closed under the rules of step_rules


def hasref(v):
    return z3.And(is_str(v), refF(v))


def m_search(ip, o):
    def f(ip2, a, k):
        s = ip2.term(a[0])
        if not ip2.E.choose(is_str(s)):
            raise PyRaise(BCls('TypeError'), None, 'search in a non string')
        if not ip2.E.choose(refF(s)):
            return C(None)
        ip2.E.assume(V.is_sv(grpF(matchF(s), 1)))
        for n in (2, 3, 4):
            g = grpF(matchF(s), n)
            ip2.E.assume(z3.Or(g == NONE, V.is_sv(g)))
        return T(matchF(s), MATCH)
    return Stub('search', f)


def m_group(ip, o):
    def f(ip2, a, k):
        if not (len(a) == 1 and isinstance(a[0], C) and a[0].py in (0, 1, 2, 3, 4)):
            raise Unsupported('match.group(%r)' % (a,))
        return T(grpF(o.t, a[0].py))
    return Stub('group', f)


def m_sub(ip, o):
    def f(ip2, a, k):
        a = list(a) + [k[n] for n in ('repl', 'string', 'count')[len(a):] if n in k]
        if len(a) != 3 or not (isinstance(a[2], C) and a[2].py == 1):
            raise Unsupported('sub that is not limited to the first reference')
        s = ip2.term(a[1])
        if not ip2.E.choose(z3.And(is_str(s), refF(s))):
            return T(s)
        text = a[0] if isinstance(a[0], (T, C)) else ip2.call(a[0], [T(matchF(s), MATCH)], {})
        t = ip2.term(text)
        if isinstance(a[0], (T, C)) and not ip2.E.choose(t == grpF(matchF(s), 3)):
            raise Unsupported('replacement template that may hold escapes')       # a word has none
        r = subF(s, t)
        ip2.E.assume(V.is_sv(r))
        return T(r)
    return Stub('sub', f)


MATCH = OpqCls('match', attrs={'group': m_group}, truthy=lambda ip, v: z3.BoolVal(True))
REPLATTR = OpqCls('pattern', attrs={'search': m_search, 'sub': m_sub})


def m_format(ip, o):
    def f(ip2, a, k):
        t, v = ip2.term(a[0]), ip2.term(a[1])
        e = UF('format_exc', V, V, INT)(t, v)
        ip2.E.assume(e >= 0, e <= 3)
        for n, cls in ((1, 'ValueError'), (2, 'AttributeError'), (3, 'OtherError')):
            if ip2.E.choose(e == n):
                raise PyRaise(BCls(cls), None, 'format')
        r = fmtF(t, v)
        ip2.E.assume(V.is_sv(r))
        return T(r)
    return Stub('format', f)


FORMATTER = OpqCls('formatter', attrs={'format': m_format})


def strterm(v):
    """str(v)"""
    return UF('strF', V, V)(v)


class SCtx(Ctx):
    fp = g0 = x0 = todo0 = None
    merge = True
    inv_ms = 3000

    def __init__(self):
        super().__init__(callees={F + '_process_replm': self.process})

    def glob(self, ip, name, module):
        if name == 'replattr':
            return T(REG.o('replattr'), REPLATTR)
        if name == 'setup':
            return T(REG.o('setup'), OpqCls('setup', attrs={'defaults': lambda ip, o: T(REG.o('setup.defaults'))}))
        return None

    def construct(self, ip, info, args, kw):
        if info.full == 'util:FoxyFormatter':
            return T(REG.o('formatter'), FORMATTER)
        return None

    def mod_attr(self, ip, mod, name):
        return None

    def process(self, ip, args, kw):
        """Assumed contract of _process_replm: a new string, or None, or an exception; the dictionaries are left as they are."""
        E = ip.E
        names = dict(zip(('self', 'replkv', 'replm', 'guessk', 'changed', 'guess', 'extras', 'myautofmt', 'requeue'), args))
        names.update(kw)
        a = [ip.term(names[n]) for n in ('replkv', 'replm', 'guessk')] + [z3.BoolVal(names['requeue'].py)]
        e = UF('process_exc', V, V, V, BOOL, BOOL)(*a)
        if E.choose(e):
            raise PyRaise(BCls('OtherError'), None, 'process')
        return Tup([T(procF(*a)), I(changedF(*a))])

    def invariants(self, ip, fr, L):
        if L.kind != 'while' or self.g0 is None:
            return []
        out = []
        for n, v in fr.env.items():
            if isinstance(v, T) and v.opq is None:
                out.append(('%s is substituted so far' % n, sbF(self.v0, v.t)))
                out.append(('%s is the value, when it has no reference' % n, z3.Implies(z3.Not(hasref(self.v0)), v.t == self.v0)))
        ints = {n: v for n, v in fr.env.items() if isinstance(v, I) or isinstance(v, C) and type(v.py) is int}
        num = lambda v: v.i if isinstance(v, I) else z3.IntVal(v.py)
        for n, v in fr.env.items():
            if isinstance(v, T) and v.opq is None:
                out += [('%s %s: blocked when nothing changes' % (n, m), z3.Implies(num(w) == 0, z3.Or(z3.Not(hasref(v.t)), self.blocked))) for m, w in ints.items()]
        for n, v in ints.items():
            for m, w in ints.items():
                if m != n and m in L.entry_env and n in L.entry_env:
                    out.append(('%s %s: one round only for a value without reference' % (n, m), z3.Implies(z3.Not(hasref(self.v0)), z3.Or(num(v) == num(L.entry_env[n]), z3.And(num(v) == num(L.entry_env[n]) + 1, num(w) == 0)))))
        return out


def step_rules(c, k):
    """What one substitution may do to a string s (derived from the value a)."""
    a, s = z3.Const('sr_a', V), z3.Const('sr_s', V)
    m = matchF(s)
    name, meth, dflt, fmt = [grpF(m, n) for n in (1, 2, 3, 4)]
    g, x = c.g0, c.x0
    ing, inx = g['has'][name], x['has'][name]
    queued = z3.And(c.todo0['lo'] <= c.todo0['last'][name], c.todo0['last'][name] < c.todo0['hi'])
    some = lambda t: z3.And(t != NONE, t != REG.s(''))
    spec = z3.If(z3.Or(strin(fmt, ':'), strin(fmt, '!')), concatF(concatF(REG.s('{0'), fmt), REG.s('}')), concatF(concatF(REG.s('{0:'), fmt), REG.s('}')))
    text = lambda v: z3.If(some(fmt), fmtF(spec, v), strterm(v))
    on = z3.And(sbF(a, s), hasref(s))
    R = lambda cond, r: z3.ForAll([a, s], z3.Implies(z3.And(on, cond), sbF(a, r)), patterns=[sbF(a, s)])
    gv, xv = g['*.v'][name], x['*.v'][name]
    return [z3.ForAll([a], sbF(a, a), patterns=[sbF(a, a)]),
            R(z3.And(z3.Not(ing), z3.Not(inx), some(dflt)), subF(s, dflt)),
            R(z3.And(ing, z3.Not(queued), z3.Not(some(meth))), subF(s, text(gv))),
            R(z3.And(ing, z3.Not(queued), some(meth)), procF(gv, meth, s, z3.BoolVal(False))),
            R(z3.And(z3.Not(ing), inx, z3.Not(some(meth))), subF(s, text(xv))),
            # c.blocked: a reference met on the way names a queued value, or a method
            z3.ForAll([s], z3.Implies(z3.And(sbF(c.v0, s), hasref(s), z3.Or(z3.And(ing, queued), some(meth))), c.blocked), patterns=[sbF(c.v0, s)]),
            R(z3.And(z3.Not(ing), inx, some(meth)), procF(xv, meth, s, z3.BoolVal(True)))]


def strin(t, c):
    from lib import fhas
    return fhas(t, REG.s(c))


@contract('Footprint._replacement', 'P03 P01', F + '_replacement', ctx=SCtx, budget=100,
          assumptions=['the pattern of the references finds what it documents (groups: name, methods, fallback made of word characters, format)',
                       'methods called by a reference do not modify the values being resolved (_process_replm is only exercised by the bounded search)',
                       'formatting and str() are deterministic'])
def replacement(ip):
    """The references of one value are replaced by final values, extras or fallbacks until none is left, or the attribute is put back in the queue."""
    E = ip.E
    c = ip.ctx
    fp = FP(ip)
    nt, ns, nf, nq = Map(Leaf('V'), key='name'), Seq(Leaf('name')), Seq(Leaf('bool')), Set('name')
    c.g0, c.x0 = fresh_tree(nt, E.fresh_name('guess')), fresh_tree(nt, E.fresh_name('extras'))
    a, b, q = fresh_tree(ns, E.fresh_name('todok')), fresh_tree(nf, E.fresh_name('todofast')), fresh_tree(nq, E.fresh_name('todoset'))
    E.assume(*seq_facts(ns, a))
    E.assume(*seq_facts(nf, b))
    c.todo0 = a
    guess, extras = E.new_cell(nt, dict(c.g0), 'guess'), E.new_cell(nt, dict(c.x0), 'extras')
    todok, todofast, todoset = E.new_cell(ns, dict(a), 'todok'), E.new_cell(nf, dict(b), 'todofast'), E.new_cell(nq, dict(q), 'todoset')
    k = name_const(ip)
    kf = E.fresh(BOOL, 'kfast')
    E.assume(c.g0['has'][k])
    c.blocked = E.fresh(BOOL, 'blocked')
    c.v0 = v0 = c.g0['*.v'][k]
    nbpass = E.fresh(INT, 'nbpass')
    E.assume(*step_rules(c, k))
    heap0 = dict(E.st.heap)
    x = z3.Const('rp_x', V)
    s = z3.Const('rp_s', V)
    name, dflt = grpF(matchF(s), 1), grpF(matchF(s), 3)
    try:
        r = run_target(ip, F + '_replacement', [fp.obj, I(nbpass), T(k), B(kf), guess, extras, todok, todofast, todoset])
    except PyRaise as e:
        if exc_is(ip, e, '__init__:FootprintUnreachableAttr'):
            E.oblige('unreachable attribute: a reference to a name found nowhere, without fallback', z3.Exists([s], z3.And(
                sbF(v0, s), hasref(s), z3.Not(c.g0['has'][name]), z3.Not(c.x0['has'][name]), z3.Or(dflt == NONE, dflt == REG.s('')))))
        elif exc_is(ip, e, '__init__:FootprintMaxIter'):
            n = E.tree(guess)['*.v']
            E.oblige('maximum iteration error: after too many passes, or for a value with references', z3.Or(nbpass > 50, hasref(v0)))
        else:
            E.oblige('otherwise only the formats, the conversions and the methods raise', z3.BoolVal(e.origin in ('format', 'process') or e.origin.startswith('call of')))
        frame_oblige(ip, 'replacement that fails: nothing is modified', heap0, set())
        return
    t = ip.truthy(r)
    g1, a1, b1, q1 = E.tree(guess), E.tree(todok), E.tree(todofast), E.tree(todoset)
    E.oblige('settled: no reference is left', z3.Implies(t, z3.Not(hasref(g1['*.v'][k]))))
    E.oblige('settled: the value comes from the documented substitutions', z3.Implies(t, sbF(v0, g1['*.v'][k])))
    E.oblige('a value without reference is left as it is', z3.Implies(z3.Not(hasref(v0)), z3.And(t, g1['*.v'][k] == v0)))
    E.oblige('the other values are kept', z3.And(forall(x, g1['has'][x] == c.g0['has'][x], [g1['has'][x]]),
                                                forall(x, z3.Implies(x != k, g1['*.v'][x] == c.g0['*.v'][x]), [g1['*.v'][x]])))
    i = z3.Const('rp_i', INT)
    kept = lambda t1, t0: z3.And(t1['lo'] == t0['lo'], forall(i, z3.Implies(z3.And(t0['lo'] <= i, i < t0['hi']), t1['*.v'][i] == t0['*.v'][i]), [t1['*.v'][i]]))
    E.oblige('settled: the queue is kept', z3.Implies(t, z3.And(kept(a1, a), a1['hi'] == a['hi'], kept(b1, b), b1['hi'] == b['hi'], q1['mem'] == q['mem'])))
    E.oblige('put back: at the end of the queue, with its flag', z3.Implies(z3.Not(t), z3.And(
        kept(a1, a), a1['hi'] == a['hi'] + 1, a1['*.v'][a['hi']] == k, kept(b1, b), b1['hi'] == b['hi'] + 1, b1['*.v'][b['hi']] == kf,
        q1['mem'] == z3.Store(q['mem'], k, True))))
    E.oblige('put back: the value is kept, as it holds references', z3.Implies(z3.Not(t), z3.And(g1['*.v'][k] == v0, hasref(v0))))
    E.oblige('put back: some reference names a value still queued, or a method', z3.Implies(z3.Not(t), c.blocked))
    frame_oblige(ip, 'replacement: nothing else is modified', heap0, {guess.cid, todok.cid, todofast.cid, todoset.cid})
