"""P20 queries."""
import contextlib
import io

from collgen import *       # noqa
RULE = ('random collections, possibly in two collectors and with inherited or abstract classes; the queries of each class, the attribute map '
        '(whole, restricted to one or several names, extending a former one), its printed forms, the union of the values and the module wide lists '
        'are compared with the declarations; the declarations are compared before and after; non trivial: at least two classes')
N = dict(quick=10000, thorough=50000)
NAMES = ('kind', 'a', 'b', 'c', 'k')


def gen(rng):
    classes = []
    for _ in range(rng.randrange(1, 6)):
        c = gen_class(rng, NAMES)
        for n, d in c['attrs'].items():
            if rng.random() < 0.3:
                d['access'] = pick(rng, ['rxx', 'rwx', 'rwd', 'rxx-weak', 'rwx-weak'])
            if rng.random() < 0.2 and 'outcast' not in d:
                d['outcast'] = [7, 8] if d.get('type', 'str') != 'str' else ['q7', 'q8']
            if d.get('type') == 'Num':       # the declared values would be converted
                d['type'] = 'int'
                d.pop('args', None)
            if rng.random() < 0.5 and len(d.get('values', ())) > 1:
                d['values'] = d['values'][::-1]
        c['colls'] = pick(rng, [['one'], ['one'], ['two'], ['one', 'two']])
        c['abstract'] = rng.random() < 0.15
        c['reusable'] = pick(rng, [None, True, False])
        if classes and rng.random() < 0.25:
            c['base'] = rng.randrange(len(classes))
        classes.append(c)
    only = pick(rng, [None, None, 'kind', 'a', 'b', 'kin', mk('tuple', ['a', 'c']), ['kind', 'b'], mk('set', ['a', 'b']), [], mk('tuple', ['zz']), 3])
    return dict(classes=classes, only=only, old=rng.random() < 0.4, name=pick(rng, NAMES + ('zz',)), level=pick(rng, LEVELS),
                track=sub(rng, ['kind', 'a', 'a_al', 'b', 'b_al', 'c', 'zz', 'k_al'], 0.5))


def nontrivial(case):
    return len(case['classes']) > 1


def fixed():
    c = dict(attrs=dict(kind=dict(values=['y', 'x']), k=dict(optional=True), a=dict(type='int', values=[3, 1, 20, 100], optional=True, default=1)), level='default', colls=['one'])
    d = dict(attrs=dict(kind=dict(values=['z', 'x'], optional=True), a=dict(type='int', outcast=[5])), level='debug', colls=['one', 'two'])
    for only in (None, 'kind', 'k', 'a', ['a'], mk('tuple', ['kind', 'a']), mk('set', ['k']), 'zz', []):
        for n in ('kind', 'a', 'k', 'zz'):
            yield dict(classes=[c, d], only=only, old=True, name=n, level='debug', track=['kind', 'a_al'])


def out(fn, *args, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        st, r = guarded(fn, *args, **kw)
    ensure(st == 'ok', '%s: %r', getattr(fn, '__name__', fn), r)
    return buf.getvalue()


def merge(a, b):
    r = {k: dict(v) for k, v in a.items()}
    for k, v in b.items():
        r[k] = dict(r.get(k, {}), **v)
    return r


def run(case):
    tags = dict(one=fresh('vfo'), two=fresh('vfw'))
    built = []
    foreign = set(F.collected_classes())
    try:
        for i, c in enumerate(case['classes']):
            attrs = decode_attrs(c['attrs'])
            base = built[c['base']] if c.get('base') is not None else None
            if base:        # what an inherited definition becomes is P09's matter
                attrs = {n: d for n, d in attrs.items() if n not in base[1]}
            more = dict(_reusable=c['reusable']) if c.get('reusable') is not None else {}
            cls = mkclass({n: dict(d) for n, d in attrs.items()}, only=decd(c.get('only', {})), level=c['level'], tag=tuple(tags[t] for t in c['colls']),
                          name='Kls%d' % i, abstract=c.get('abstract', False), bases=None if base is None else (base[0],), **more)
            full = merge(base[1], attrs) if base else attrs
            built.append((cls, full, c))
        colls = {t: collectors.get(tag=tags[t]) for t in tags}
        inside = {t: [b for b in built if t in b[2]['colls'] and not b[2].get('abstract')] for t in tags}
        decl = {b[0]: snap(b[0].footprint_retrieve().as_dict()) for b in built}
        # the classes
        for cls, attrs, c in built:
            fp = cls.footprint_retrieve()
            alias = {n: set(d.get('alias', ())) for n, d in attrs.items()}
            al = set(attrs).union(*alias.values())
            mand = {n for n, d in attrs.items() if not d.get('optional', False)}
            ensure(set(fp.attr) == set(attrs), 'declared attributes %s instead of %s', sorted(fp.attr), sorted(attrs))
            ensure(isinstance(cls.footprint_mandatory(), list) and sorted(cls.footprint_mandatory()) == sorted(mand) and sorted(fp.mandatory()) == sorted(mand),
                   'mandatory attributes %s instead of %s', cls.footprint_mandatory(), sorted(mand))
            ensure(fp.allkeys() == al and fp.as_opts() == al, 'keys %s or %s instead of %s', fp.allkeys(), fp.as_opts(), al)
            ensure(fp.track(list(case['track'])) == [x for x in case['track'] if x in al], 'tracked keys %s of %s', fp.track(list(case['track'])), case['track'])
            ensure(fp.track({x: 1 for x in case['track']}) == [x for x in case['track'] if x in al], 'tracked keys of a description')
            for n, d in attrs.items():
                ensure(cls.footprint_optional(n) == bool(d.get('optional', False)) and fp.optional(n) == bool(d.get('optional', False)), 'optional %s', n)
                ensure(set(fp.get_values(n)) == set(d.get('values', ())) and isinstance(fp.get_values(n), tuple), 'values of %s: %s', n, fp.get_values(n))
                ensure(set(cls.footprint_values(n)) == set(d.get('values', ())) and isinstance(cls.footprint_values(n), list), 'values of %s: %s', n, cls.footprint_values(n))
                ensure(set(fp.get_outcast(n)) == set(d.get('outcast', ())), 'outcasts of %s: %s', n, fp.get_outcast(n))
                ensure(len(fp.get_values(n)) == len(set(d.get('values', ()))), 'a value of %s is listed twice', n)
                ensure(cls.footprint_access(n) == d.get('access', 'rxx'), 'access mode of %s: %s instead of %s', n, cls.footprint_access(n), d.get('access', 'rxx'))
                # a list given to the caller is his own
                cls.footprint_values(n).append('vfqextra')
                ensure('vfqextra' not in cls.footprint_values(n), 'the list of the values is shared')
            lv = priorities.top.level(c['level'])
            ensure(cls.footprint_pl() is lv and cls.footprint_level() == lv.tag and fp.level is lv, 'priority level %s instead of %s', cls.footprint_pl(), lv)
            ensure(cls.fullname() == 'vfqmod.pkg.' + cls.__name__ and cls.footprint_clskind() == cls.__name__.lower(), 'names of the class')
            ensure(bool(cls.footprint_abstract()) == bool(c.get('abstract')), 'abstract')
            exp = c.get('reusable')
            if exp is None and c.get('base') is None:
                exp = True
            if exp is not None:
                ensure(cls.footprint_reusable() is exp, 'reusable')
            d, cp = fp.as_dict(), fp.as_copy()
            ensure(isinstance(d, dict) and isinstance(cp, dict) and set(d) == set(cp) == {'info', 'attr', 'bind', 'only', 'priority'}, 'dictionaries of a footprint')
            ensure(d['attr'] is fp.attr and cp['attr'] is not fp.attr and set(cp['attr']) == set(attrs), 'copies of a footprint')
            d['attr'] = None
            for n in list(cp['attr']):
                cp['attr'][n]['optional'] = 'vfq'
                cp['attr'][n]['alias'].add('vfq')
            cp['attr'].clear()
            cp['only'].clear()
            ensure(decl[cls] == snap(fp.as_dict()), 'a copy of the footprint is not independent')
        # the attribute maps
        only = dec(case['only'])
        allowed = None if only is None else ({only} if isinstance(only, (str, int)) else set(only))
        for t in tags:
            coll = colls[t]
            want = dict()
            for cls, attrs, c in inside[t]:
                for n, d in attrs.items():
                    if allowed is None or n in allowed:
                        want.setdefault(n + (' [optional]' if d.get('optional') else ''), []).append(
                            (cls.__name__, 'vfqmod.pkg', frozenset(d.get('values', ())), frozenset(d.get('outcast', ()))))
            want = {k: sorted(v, key=repr) for k, v in want.items()}

            def view(m):
                for v in m.values():
                    ensure(all(set(x) == {'name', 'module', 'values', 'outcast'} for x in v), 'entry of the attribute map')
                return {k: sorted(((x['name'], x['module'], frozenset(x['values']), frozenset(x['outcast'])) for x in v), key=repr) for k, v in m.items()}
            st, r = guarded(coll.build_attrmap, only=only)
            ensure(st == 'ok', 'attribute map restricted to %r: %r', only, r)
            ensure(view(r) == want, 'attribute map restricted to %r: %s instead of %s', only, view(r), want)
            if case['old']:
                mine = dict(zz=['x'])
                st, r2 = guarded(coll.build_attrmap, mine, only)
                ensure(st == 'ok' and r2 is mine and mine.pop('zz', None) == ['x'] and view(mine) == want, 'extended attribute map: %r', r2)
                coll.build_attrmap(mine, only)
                ensure({k: len(v) for k, v in mine.items()} == {k: 2 * len(v) for k, v in want.items()}, 'attribute map extended twice')
            txt = out(coll.show_attrkeys, only=only)
            ensure([ln.split() for ln in txt.splitlines()] == [['*'] + k.split() for k in sorted(want)], 'printed attributes %r instead of %s', txt, sorted(want))
            txt = out(coll.show_attrmap, only=only)
            cur, seen = None, []
            for ln in txt.splitlines():
                if ln.startswith(' * '):
                    cur = [ln[3:-1], []]
                    seen.append(cur)
                elif '+' in ln:
                    w = ln.split()
                    cur[1].append([w[0], w[2], dict()])
                elif '|' in ln:
                    k, _, v = ln.partition('|')[2].partition('=')
                    cur[1][-1][2][k.strip()] = frozenset(x.strip() for x in v.split(','))
            exp = [[k, [[n, m, {kk: frozenset(str(x) for x in vv) for kk, vv in (('values', v), ('outcast', o)) if vv}]
                        for n, m, v, o in sorted(want[k], key=lambda z: z[0])]] for k in sorted(want)]
            ensure(seen == exp, 'printed attribute map %s instead of %s', seen, exp)
            for n in NAMES + ('zz', case['name']):
                vals = set().union(*[set(a[n].get('values', ())) for _, a, _ in inside[t] if n in a] or [set()])
                if len({type(v) for v in vals}) < 2:
                    st, r = guarded(coll.get_values, n)
                    ensure(st == 'ok' and isinstance(r, list) and r == sorted(vals), 'values of %s: %r instead of %s', n, r, sorted(vals))
        # the whole module
        mine = {b[0] for t in tags for b in inside[t]}
        got = F.collected_classes()
        ensure(isinstance(got, set) and got - foreign == mine and foreign <= got | foreign, 'collected classes %s instead of %s', got - foreign, mine)
        lv = priorities.top.level(case['level'])
        txt = out(F.collected_priorities, pick(random.Random(1), [case['level'], case['level'].upper()]))
        lines = [ln.split() for ln in txt.splitlines() if '.Kls' in ln]
        exp = sorted([[priorities.top.level(b[2]['level']).tag, '-', b[0].fullname()] for b in {b[0]: b for t in tags for b in inside[t]}.values()
                      if priorities.top.level(b[2]['level']) >= lv], key=lambda z: z[2])
        lines = [ln for ln in lines if ln[2].startswith('vfqmod.pkg.')]
        ensure(lines == exp, 'collected priorities %s instead of %s', lines, exp)
        for cls in decl:
            ensure(decl[cls] == snap(cls.footprint_retrieve().as_dict()), 'a query modified the footprint of %s', cls.__name__)
        return 'classes=%d' % len(built)
    finally:
        for t in tags.values():
            forget(t)
