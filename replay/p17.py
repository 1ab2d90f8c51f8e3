"""P17 reports."""
import contextlib
import io

from collgen import *       # noqa
RULE = ('random collections and descriptions searched in every reporting mode: report of the failed searches and why-not queries compared with '
        'the contract; random histories of log commands (collector, candidate, attribute, clear, reduce) compared with a model, the dictionary '
        'and XML views after each step; non trivial: a failed search, or a history with an entry')
N = dict(quick=4000, thorough=25000)


def gen(rng):
    if rng.random() < 0.4:
        ops = []
        for _ in range(rng.randrange(1, 25)):
            r = rng.random()
            if r < 0.25:
                ops.append(['collector', rng.randrange(2)])
            elif r < 0.55:
                ops.append(['candidate', rng.randrange(3)])
            elif r < 0.8:
                ops.append(['attribute', pick(rng, ['a', 'b']), pick(rng, [{}, dict(why='Missing value'), dict(why='Not in values', args=3), dict(why='Outside', args=None), dict(why=None), dict(only='Do not match')])])
            elif r < 0.88:
                ops.append(['reduce'])
            elif r < 0.93:
                ops.append(['clear'])
            else:
                ops.append(['bad'])
        return dict(log=ops, maxlen=pick(rng, [None, None, 1, 2, 3]), views=rng.random() < 0.7)
    classes = gen_coll(rng, 5)
    for c in classes:
        for d in c['attrs'].values():
            if rng.random() < 0.1:
                d.pop('values', None)
                d.pop('outcast', None)
                d.pop('remap', None)
                d.pop('default', None)
                d['isclass'] = True
                d['type'] = 'A'
    defaults = {}
    for c in classes:
        if rng.random() < 0.15:
            c['only'] = {pick(rng, ['after_release', 'before_release', 'after_rel_x', 'release']): mk('tuple', [pick(rng, ['c', 'm', 'z']) for _ in range(rng.randrange(1, 3))])}
            if rng.random() < 0.8:
                defaults = dict(release='m', rel_x='m')
    desc = gen_colldesc(rng, classes)
    if rng.random() < 0.7:
        k = pick(rng, ['kind', 'a', 'b', 'c'])
        if rng.random() < 0.5:
            desc.pop(k, None)
        else:
            desc[k] = pick(rng, ['bad', 99, 'None', None, mk('list', [1]), mk('cls', 'Cx')])
    return dict(classes=classes, desc=desc, defaults=defaults, pattern=pick(rng, ['kls', 'Kls1', '^vfqm', 'nope', '[02]$', '']), mode=rng.randrange(4), maxlen=pick(rng, [1, 2, 5]))


def nontrivial(case):
    return any(o[0] == 'collector' for o in case['log']) if 'log' in case else True


def fixed():
    yield dict(log=[['collector', 0], ['candidate', 0], ['attribute', 'a', dict(why='Missing value')], ['candidate', 1], ['collector', 1], ['reduce'], ['clear'],
                    ['collector', 0], ['candidate', 2]], maxlen=2, views=True)
    c = dict(attrs=dict(kind=dict(values=['x']), a=dict(type='int')), level='default')
    for desc in (dict(kind='y', a=1), dict(kind='x', a='z'), dict(kind='x'), dict(), dict(kind='None', a=1)):
        for mode in range(4):
            yield dict(classes=[c, dict(c, only=dict(nope='x'))], desc=desc, defaults={}, pattern='kls', mode=mode, maxlen=2)


class FakeColl:
    def __init__(self, tag):
        self.tag = tag


class FakeCls:
    def __init__(self, n):
        self.n = n

    def fullname(self):
        return 'mod.' + self.n


def run_log(case):
    tag = fresh('log')
    log = reporting.get(tag=tag, log_maxlen=case['maxlen'])
    other = reporting.get(tag=tag + 'bis')
    colls = [FakeColl('c%d' % i) for i in range(2)]
    cands = [FakeCls('K%d' % i) for i in range(3)]
    model, cur, cand = [], None, None
    try:
        for op in case['log']:
            if op[0] == 'collector':
                log.add(collector=colls[op[1]])
                cur, cand = [colls[op[1]].tag, []], None
                model.append(cur)
                if case['maxlen'] is not None:
                    model = model[-case['maxlen']:]
            elif op[0] == 'candidate':
                st, r = guarded(log.add, candidate=cands[op[1]])
                if cur is None:
                    ensure(st == 'raise' and isinstance(r, reporting.FootprintBadLogEntry), 'a candidate out of any collector: %r', r)
                else:
                    ensure(st == 'ok', 'candidate: %r', r)
                    cand = [cands[op[1]].fullname(), []]
                    cur[1].append(cand)
            elif op[0] == 'attribute':
                kw = dict(op[2])
                keep = dict(kw)
                st, r = guarded(log.add, attribute=op[1], **kw)
                if cand is None:
                    ensure(st == 'raise' and isinstance(r, reporting.FootprintBadLogEntry), 'an attribute out of any candidate: %r', r)
                else:
                    ensure(st == 'ok', 'attribute: %r', r)
                    cand[1].append(dict(keep, name=op[1]))
            elif op[0] == 'reduce':
                log.reduce_to_last()
                model = model[-1:]
            elif op[0] == 'clear':
                log.clear()
                model = []
            else:
                st, r = guarded(log.add, nothing=1)
                ensure(st == 'raise' and isinstance(r, reporting.FootprintBadLogEntry), 'bad entry')
            ensure(len(log) == len(model) and len(list(log)) == len(model), '%s: %d entries instead of %d', op, len(log), len(model))
            for got, want in zip(log, model):
                ensure(got.name == want[0], 'order of the log')
                ensure([c.name for c in got._items] == [c[0] for c in want[1]], 'candidates of an entry')
                for gc, wc in zip(got._items, want[1]):
                    ensure(list(gc) == wc[1], 'attributes of a candidate: %s instead of %s', list(gc), wc[1])
            ensure((log.last is None) == (not model) and (not model or log.last is list(log)[-1]), 'last')
            if case['views']:
                want = dict()
                for i, (n, cl) in enumerate(model):
                    d = dict()
                    for c, atts in cl:
                        d[c] = {a['name']: {k: v for k, v in a.items() if k != 'name'} for a in atts}
                    want['%s_%04d' % (n, i + 1)] = d
                ensure(log.as_dict(stamp=False) == want, '%s: dictionary view %s instead of %s', op, log.as_dict(stamp=False), want)
                xml = log.as_xml()
                got = [(c.getAttribute('name'), sorted([(k.getAttribute('name'), [(a.getAttribute('name'), a.getAttribute('why') if a.hasAttribute('why') else '') for a in k.childNodes]) for k in c.childNodes], key=repr))
                       for c in xml.root.childNodes]
                wx = [(n, sorted([(c, [(a['name'], str(a.get('why', ''))) for a in atts]) for c, atts in cl], key=repr)) for n, cl in model]
                ensure(got == wx, '%s: XML view %s instead of %s', op, got, wx)
                full = log.as_dict()
                ensure(sorted({k.split(' ')[0] for k in full}) == sorted({m[0] for m in model}), '%s: dictionary view (with stamps)', op)
                if model:
                    last = {c: {a['name']: {k: v for k, v in a.items() if k != 'name'} for a in atts} for c, atts in model[-1][1]}
                    ensure(log.last.as_dict() == last, 'last entry as a dictionary')
                    for pat in ('k[01]', 'MOD', 'zz'):
                        w = {c: v for c, v in last.items() if v and re.search(pat, c, re.I)}
                        ensure(log.whynot(pat) == w, 'whynot(%s): %s instead of %s', pat, log.whynot(pat), w)
                else:
                    ensure(log.whynot('.') is None, 'whynot on an empty log')
            ensure(len(other) == 0, 'another log was modified')
        return 'log'
    finally:
        reporting.FootprintLog._tag_table.pop(tag, None)
        reporting.FootprintLog._tag_table.pop(tag + 'bis', None)


WHY = dict(missing={reporting.REPORT_WHY_MISSING}, sub={reporting.REPORT_WHY_SUBCLASS, reporting.REPORT_WHY_OUTSIDE}, invalid={reporting.REPORT_WHY_INVALID},
           reclass={reporting.REPORT_WHY_RECLASS, reporting.REPORT_WHY_OUTSIDE}, range={reporting.REPORT_WHY_OUTSIDE, reporting.REPORT_WHY_OUTCAST})


def faults(attrs, desc, defaults):
    """{attribute: acceptable reasons} of a description without references."""
    cd = {k: spec.chars(d) for k, d in attrs.items()}
    src = spec.sources(cd, desc, spec.lower_defaults(defaults))
    bad = dict()
    for k, (alts, _) in src.items():
        if len(alts) > 1:
            return None
        v, d = alts[0], cd[k]
        if v is spec.NOVALUE:
            continue
        if v is None:
            bad[k] = WHY['missing']
            continue
        if isinstance(v, str) and v == 'None':
            bad[k] = set.union(*WHY.values())
            continue
        if spec.conform(v, d)[0] != 'ok':
            r = spec.conform(v, dict(d, values=[], outcast=[]))
            if d.get('isclass'):
                bad[k] = WHY['sub'] | (WHY['range'] if r[0] == 'ok' else set())
            else:
                bad[k] = WHY['range'] if r[0] == 'ok' else WHY['reclass'] | WHY['missing']
    return bad


def check_lengths(tag, case, desc):
    """The log of a collector keeps the configured number of entries, all of them in the full mode."""
    for mode in (1, 2, 3):
        t = fresh('len')
        try:
            c = collectors.get(tag=t, report=mode, lreport_len=case['maxlen'])
            for _ in range(case['maxlen'] + 2):
                c.find_any(desc)
            ensure(len(c.report_log) == case['maxlen'] + (2 if mode == 3 else 0), 'reporting mode %d: %d entries for a length of %d', mode, len(c.report_log), case['maxlen'])
            ensure(c.report == mode and c.lreport_len == case['maxlen'], 'settings of the collector')
        finally:
            forget(t)


def printed(fn, *args, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        st, r = guarded(fn, *args, **kw)
    ensure(st == 'ok', '%s: %r', getattr(fn, '__name__', fn), r)
    return buf.getvalue()


def parse(style, txt):
    """{(class, attribute, reason)} of a printed report, or {(class, attribute)} for the raw style."""
    out, cur, msg = set(), [], []
    for ln in txt.splitlines():
        w = ln.strip()
        if style == 0:
            m = re.match(r'(\S+)\s*: (\{.*\})$', w)
            if m and cur:
                d = eval(m.group(2), {'__builtins__': {}}, {}) if re.match(r"^[\w\s{}:',.]*$", m.group(2)) else None
                out.add((cur[0], m.group(1), (d.get('why') or d.get('only')) if d else None))
            elif re.match(r'(=> )?vfqmod\.pkg\.\w+$', w):
                cur = [w.split()[-1]]
        elif style == 1:
            m = re.match(r'(?:why|only): (.*) = dict\($', w)
            if m:
                cur = [m.group(1)]
            m = re.match(r'attribute: (.*) = dict\($', w)
            if m:
                cur = [cur[0], m.group(1)]
            m = re.match(r'(vfqmod\.pkg\.\w+) = ', w)
            if m:
                out.add((m.group(1), cur[1], cur[0]))
        elif style == 2:
            m = re.match(r'attribute_name = (.*)$', w)
            if m:
                cur = [m.group(1)]
            m = re.match(r'(?:why|only) = (.*)$', w)
            if m:
                cur = [cur[0], m.group(1)]
            m = re.match(r'class : (vfqmod\.pkg\.\w+) \(', w)
            if m:
                out.add((m.group(1), cur[0], cur[1]))
        else:
            m = re.match(r'class : (vfqmod\.pkg\.\w+) \(', w)
            if m:
                if msg:
                    cur, msg = [], []
                cur.append(m.group(1))
            m = re.match(r'attribute_name = (.*) \| (?:why|only) = (.*)$', w)
            if m:
                msg = [1]
                out |= {(c, m.group(1), m.group(2)) for c in cur}
    return out


def check_printed(coll, desc):
    """What a failed search prints, in each style, is its report."""
    for style in range(4):
        coll.report = 1
        txt = printed(coll.pickup, dict(desc, _report=True, _report_style=style, _emptywarning=True))
        last = coll.report_last
        want = {(k.name, e['name'], e.get('why') or e.get('only')) for k in last for e in k}
        got = parse(style, txt)
        if style == 0:
            ensure({x[:2] for x in got} == {x[:2] for x in want}, 'raw report: %s instead of %s', sorted(got, key=repr), sorted(want))
            got = {x for x in got if x[2]}
            ensure(got <= want, 'raw report: %s instead of %s', sorted(got), sorted(want))
        else:
            ensure(got == want, 'report in the style %d: %s instead of %s', style, sorted(got), sorted(want))
        ensure(coll.report_log.info() in txt, 'title of the report')
        for how in (dict(_report=False), dict(_emptywarning=False)):
            ensure(printed(coll.pickup, dict(desc, _report_style=style, **how)) == '', 'a report is printed with %s', how)
        coll.report = 0
        ensure(printed(coll.pickup, dict(desc, _report_style=style)) == '', 'a report is printed without reporting')
        coll.report = 1
    # the sorted reports
    last = coll.report_last
    want = {(k.name, e['name'], e.get('why') or e.get('only')) for k in last for e in k}
    for tree in (coll.report_sorted(), last.as_tree()):
        for f in (tree.softprint, tree.orderedprint):
            ensure(parse(2, printed(f)) == want, 'sorted report')
        txt = printed(tree.orderedprint)
        order = [ln.split(' = ')[1] for ln in txt.splitlines() if 'attribute_name = ' in ln]
        pre = [x.startswith('kind') for x in order]
        ensure(pre == sorted(pre, reverse=True), 'the kind comes first: %s', order)
    flat = last.as_flat()
    for sortlist in (['attribute', 'why'], ['why'], ['attribute'], ['only']):
        flat.reshuffle(sortlist, skip=True)
        txt = printed(flat.fulldump)
        ensure({w.split(' = ')[0].strip() for w in txt.splitlines() if w.strip().startswith('vfqmod.pkg.')} == {x[0] for x in want}, 'flat report by %s', sortlist)
        for k, n in (('attribute', 1), ('why', 2)):
            if k in sortlist:
                seen = {w.strip()[len(k) + 2:].split(' = ')[0] for w in txt.splitlines() if w.strip().startswith(k + ': ')}
                rows = {x[n] for x in want if n == 1 or x[2] not in (reporting.REPORT_ONLY_NOTFOUND, reporting.REPORT_ONLY_NOTMATCH)}
                ensure(seen == rows, 'flat report by %s: %s instead of %s', sortlist, seen, rows)
    txt = printed(coll.report_dumplast)
    ensure(all(x[0] in txt and x[1] + ' = ' in txt for x in want), 'dump of the last report')


def run(case):
    if 'log' in case:
        return run_log(case)
    with Env(case) as env:
        tag = fresh('t')
        try:
            built = build(case, tag)
            coll = collectors.get(tag=tag)
            desc = decd(case['desc'])
            exp = expected_all(built, desc, env.defaults)
            if exp is None:
                return 'unspecified'
            res = []
            for mode in (case['mode'], 0, 1, 2, 3):
                coll.report = mode
                f = coll.find_all(desc)
                check_found(f, exp)
                ensure((coll.find_best(desc) is None) == (not exp), 'best choice with the reporting mode %d', mode)
            # what each search adds to the log
            for mode in (0, 1, 2, 3):
                coll.report = mode
                coll.report_auto = bool(mode % 2) == bool(len(case['desc']) % 2)
                for search in (coll.find_all, coll.find_any, coll.find_best, coll.load):
                    coll.report_log.clear()
                    if search == coll.load:
                        if 'self' in desc or any(not isinstance(k, str) for k in desc):
                            continue
                        search(_report=False, _emptywarning=False, **desc)
                    else:
                        search(desc)
                    want = 0 if mode == 0 or (mode == 1 and exp) else 1
                    ensure(len(coll.report_log) == want, '%s with the reporting mode %d logs %d entries instead of %d', search.__name__, mode, len(coll.report_log), want)
                    if want and not exp:
                        ensure(sorted(k.name for k in coll.report_last) == sorted(c.fullname() for c, _, _ in built),
                               '%s with the reporting mode %d reports on %s', search.__name__, mode, [k.name for k in coll.report_last])
            if not exp:
                check_lengths(tag, case, desc)
                if not any(str(k).startswith('_') for k in desc) and coll.tag not in desc:
                    check_printed(coll, desc)
            coll.report_log.clear()
            coll.report = case['mode'] or 1
            for i in range(3):
                coll.find_all(desc)
            # the length of the log
            n = len(coll.report_log)
            ensure(n <= 3, 'too many entries')
            if exp:
                return 'eligible'
            ensure(n == 3, '%d entries after three failed searches', n)
            last = coll.report_last
            ensure(last is list(coll.report_log)[-1] and last.name == coll.tag, 'last entry')
            ensure(sorted(k.name for k in last) == sorted(c.fullname() for c, _, _ in built), 'entries of the report: %s', [k.name for k in last])
            reasons = dict()
            for cls, attrs, only in built:
                bad = faults(attrs, desc, env.defaults)
                kid = [k for k in last if k.name == cls.fullname()][0]
                ent = list(kid)
                ensure(ent, 'no explanation for %s', cls.__name__)
                if bad is None:
                    continue
                if bad:
                    names = {e['name'] for e in ent}
                    ensure(names <= set(bad), '%s: unexpected attributes %s in the report', cls.__name__, sorted(names - set(bad)))
                    miss = [k for k in bad if bad[k] is WHY['missing']]
                    if miss:
                        ensure(set(miss) <= names, '%s: missing attributes %s are not reported', cls.__name__, miss)
                    elif 'kind' in bad:
                        ensure('kind' in names, 'the attribute kind is not reported')
                    else:
                        ensure(set(bad) == names, '%s: the refused attributes %s are not reported', cls.__name__, sorted(set(bad) - names))
                    for e in ent:
                        ensure(e.get('why') in bad[e['name']], '%s: attribute %s reported as %r', cls.__name__, e['name'], e.get('why'))
                else:
                    ensure(len(ent) == 1 and ent[0].get('only') in (reporting.REPORT_ONLY_NOTFOUND, reporting.REPORT_ONLY_NOTMATCH) and
                           ent[0]['name'] in {k.split('_', 1)[-1] if k.startswith(('after_', 'before_')) else k for k in only}, '%s: only clause: %s', cls.__name__, ent)
            got = coll.report_whynot(case['pattern'])
            want = {c.fullname() for c, _, _ in built if re.search(case['pattern'], c.fullname(), re.I)}
            ensure(set(got) == want, 'whynot(%r): %s instead of %s', case['pattern'], sorted(got), sorted(want))
            for k, v in got.items():
                ensure(v == last.as_dict()[k] and v, 'whynot entry')
            # several logs, each with its own entries and maximum length
            lg = reporting.get(tag=tag + 'len', log_maxlen=case['maxlen'])
            for i in range(case['maxlen'] + 2):
                lg.add(collector=coll)
            ensure(len(lg) == case['maxlen'], 'maximum length')
            reporting.FootprintLog._tag_table.pop(tag + 'len', None)
            return 'nothing found'
        finally:
            forget(tag)
