"""P12 instances, default, grep."""
from collgen import *       # noqa
import gc
RULE = ('random collections (some classes not reusable, some in two collectors) and histories of creations (direct, load, clone, deep copy), '
        'deletions, writes, default and grep requests; the instances known by every collector are compared with the alive objects after each '
        'step, default and grep with the contract; non trivial: at least one request with an alive object')
N = dict(quick=10000, thorough=50000)


def gen(rng):
    classes = gen_coll(rng, 4)
    for c in classes:
        c['reusable'] = rng.random() < 0.8
        c['two'] = rng.random() < 0.2
        for d in c['attrs'].values():
            if rng.random() < 0.3:
                d['access'] = pick(rng, ['rwx', 'rwd'])
    ops = []
    for _ in range(rng.randrange(2, 12)):
        r = rng.random()
        desc = gen_colldesc(rng, classes)
        if r < 0.35:
            ops.append(['new', rng.randrange(len(classes)), desc])
        elif r < 0.45:
            ops.append(['load', desc])
        elif r < 0.55:
            ops.append(['del', rng.randrange(8)])
        elif r < 0.62:
            ops.append([pick(rng, ['clone', 'copy']), rng.randrange(8)])
        elif r < 0.7:
            ops.append(['write', rng.randrange(8), pick(rng, ['kind', 'a', 'b']), pick(rng, ['x', 'y', 1, 2, None])])
        elif r < 0.85:
            ops.append(['default', desc])
        else:
            kw = {k: v for k, v in desc.items() if rng.random() < 0.6}
            if rng.random() < 0.15:
                kw[pick(rng, ['kind', 'a', 'nope'])] = pick(rng, [None, 'x', mk('list', [1])])
            ops.append(['grep', kw])
    return dict(classes=classes, ops=ops, dfl=pick(rng, [{}, {}, dict(kind='x'), dict(A='y')]))


def nontrivial(case):
    seen = False
    for o in case['ops']:
        if o[0] in ('new', 'load'):
            seen = True
        elif o[0] in ('default', 'grep') and seen:
            return True
    return False


def fixed():
    c = dict(attrs=dict(kind=dict(values=['x'], access='rwd'), a=dict(optional=True)), level='default', reusable=True, two=True)
    c2 = dict(c, reusable=False, two=False)
    for cl in (c, c2):
        yield dict(classes=[cl], dfl={}, ops=[['new', 0, dict(kind='x')], ['default', dict(kind='x')], ['grep', dict(kind='x')], ['grep', dict(a=None)],
                                              ['default', dict(kind='x', a='u')], ['copy', 0], ['del', 0], ['default', dict(kind='x')], ['default', dict(kind='z')]])


def run(case):
    with Env(dict(defaults=case['dfl'])) as env:
        tag, tag2 = fresh('t'), fresh('u')
        objs = []
        try:
            built = []
            for i, c in enumerate(case['classes']):
                attrs = decode_attrs(c['attrs'])
                for n, d in c['attrs'].items():
                    if 'access' in d:
                        attrs[n]['access'] = d['access']
                real = {n: dict(d) for n, d in attrs.items()}
                cls = mkclass(real, only=decd(c.get('only', {})), level=c.get('level'), tag=(tag, tag2) if c['two'] else tag, name='Kls%d' % i, _reusable=c['reusable'])
                built.append((cls, attrs, decd(c.get('only', {}))))
            info = {b[0]: (b, c) for b, c in zip(built, case['classes'])}
            colls = {t: collectors.get(tag=t) for t in (tag, tag2)}

            def check(what):
                for t, coll in colls.items():
                    got = list(coll.instances)
                    want = [o for o in objs if o is not None and (t == tag or info[type(o)][1]['two'])]
                    if len(got) != len(want):
                        del got
                        gc.collect()
                        got = list(coll.instances)
                    ensure(len(got) == len(want) and all(any(g is w for w in want) for g in got),
                           '%s: the collector %s knows %d objects, %d are alive', what, 'bis' if t == tag2 else 'main', len(got), len(want))
                    ensure(len({id(g) for g in got}) == len(got), 'an object is tracked twice')

            def current(o):
                return {n: getattr(o, n) for n in o.footprint_attributes}

            check('start')
            nreq = 0
            for op in case['ops']:
                if op[0] == 'new':
                    st, o = guarded(built[op[1]][0], decd(op[2]))
                    if st == 'ok':
                        objs.append(o)
                    o = None
                elif op[0] == 'load':
                    o = F.load(tag=tag, _emptywarning=False, **decd(op[1]))
                    if o is not None:
                        objs.append(o)
                    o = None
                elif op[0] in ('del', 'clone', 'copy', 'write'):
                    if op[1] >= len(objs) or objs[op[1]] is None:
                        continue
                    if op[0] == 'del':
                        objs[op[1]] = None
                        gc.collect() if len(objs) % 5 == 0 else None
                    elif op[0] == 'clone':
                        st, o = guarded(objs[op[1]].footprint_clone)
                        if st == 'ok':
                            objs.append(o)
                        o = None
                    elif op[0] == 'copy':
                        objs.append(copy.deepcopy(objs[op[1]]))
                    elif op[2] in info[type(objs[op[1]])][0][1]:
                        if op[3] is None:
                            guarded(delattr, objs[op[1]], op[2])
                        else:
                            guarded(setattr, objs[op[1]], op[2], op[3])
                elif op[0] == 'default':
                    req = decd(op[1])
                    exp = expected_all(built, req, env.defaults)
                    hits, unspec = [], exp is None
                    for o in objs:
                        if o is None or not info[type(o)][1]['reusable']:
                            continue
                        out = spec.resolve(info[type(o)][0][1], dict(req), env.defaults)
                        if out is None or len({x[0] for x in out}) > 1:
                            unspec = True
                            break
                        if out[0][0] != 'ok':
                            continue
                        cur = current(o)
                        for x in out:
                            vals = {k: (None if v is spec.NOVALUE else v) for k, v in x[1].items()}
                            if set(vals) <= set(cur) and all(cur[k] == vals[k] for k in vals):
                                hits.append(o)
                                break
                    o = None
                    if unspec:
                        continue
                    nreq += 1
                    n0 = len([o for o in objs if o is not None])
                    got = F.default(tag=tag, **req)
                    if hits:
                        ensure(any(got is h for h in hits), 'default returned %r, though %d alive objects are compatible with the request', type(got), len(hits))
                    else:
                        ensure(got is None or not any(got is o for o in objs), 'default returned an alive object that does not match the request')
                        check_choice(got, exp, True)
                        if got is not None:
                            objs.append(got)
                    got = None
                    hits = None
                else:
                    kw = decd(op[1])
                    nreq += 1
                    for t, coll in colls.items():
                        got = coll.grep(**kw)
                        want = [o for o in objs if o is not None and (t == tag or info[type(o)][1]['two']) and
                                all(k in current(o) and current(o)[k] == v for k, v in kw.items())]
                        if len(got) != len(want):
                            # an object may be kept for a while by the traceback of a refused operation
                            del got
                            gc.collect()
                            got = coll.grep(**kw)
                        ensure(len(got) == len(want) and all(any(g is w for w in want) for g in got), 'grep returned %d objects instead of %d', len(got), len(want))
                    allg = F.grep(**kw)
                    ensure(all(any(w is g for g in allg) for w in want), 'footprints.grep misses an object')
                    got = want = allg = None
                o = None
                check(op)
            return 'requests=%d' % min(nreq, 4)
        finally:
            objs = None
            forget(tag)
            forget(tag2)
