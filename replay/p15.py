"""P15 globs."""
from resgen import *        # noqa
import shutil
import tempfile
RULE = ('random file names in a scratch directory (created and removed by the check) and patterns of plain text, * and ?, and named parts '
        '(classes, quantifiers with braces, alternatives, escaped brackets), with other values that refer to them, or wrong patterns; '
        'non trivial: at least one file matches or the pattern is wrong')
N = dict(quick=10000, thorough=50000)
RES = [r'\w+', r'\d+', r'[a-c]+', r'\d{2}', r'\d{1}', r'a|b', r'x\{\d\}', r'(?:\d{2})?', r'\w', r'.*', r'[^_]+', r'\\', r'\w{3}\d', r'x\{', r'\{?1\}?', r'\w\{\d\}', r'x{{y}}', r'(?:x{{y}}|\d)', r'a(?:{b}|\d)']
NAMES_ = ['i', 'n', 'ab', 'i2']
BAD = [[r'\d{2', 'unbalanced'], [r'[\d+', 'regex'], [r'(\d', 'regex'], ['*a', 'regex'], ['\\d\\', 'unbalanced']]
PIECES = ['f', 'g', '_', '.', 'a', 'b', '12', '3', 'x{1}', 'abc', '\\', '-', '+', 'xyz7', 'x{{y}}', '_x{{y}}', 'F', '\n', '.h']


def gen(rng):
    files = sorted({''.join(pick(rng, PIECES) for _ in range(rng.randrange(1, 5))) for _ in range(rng.randrange(1, 9))} |
                   {pick(rng, ['f', 'g']) + '_' + pick(rng, ['a', 'b', 'ab', '12', '3', 'x{1}', 'abc']) + pick(rng, ['', '_', '.']) + pick(rng, ['1', '12', 'a', 'b', '', '\\', '\n'])
                    for _ in range(rng.randrange(2, 9))})
    files = [f for f in files if f not in ('.', '..') and '/' not in f]
    pieces, names, bad = [], [], None
    for _ in range(rng.randrange(1, 5)):
        if pieces and rng.random() < 0.6 or rng.random() < 0.25:
            free = [n for n in NAMES_ if n not in names]
            if rng.random() < 0.03 and names:
                bad = 'duplicate'
                pieces.append(['g', names[0], r'\w+'])
            elif free:
                n = pick(rng, free)
                names.append(n)
                pieces.append(['g', n, pick(rng, RES)])
        else:
            pieces.append(['t', pick(rng, ['f_', 'g_', '_', '*', '?', 'f', '.', '*_', 'f*', '+', 'a', '?_'])])
    if not names:
        names.append('i')
        pieces.append(['g', 'i', pick(rng, RES)])
    if bad is None and rng.random() < 0.07:
        b = pick(rng, BAD)
        bad = b[1]
        pieces.append(['g', 'wrong', b[0]])
    others = dict()
    for k in ('o1', 'o2'):
        if rng.random() < 0.7:
            others[k] = pick(rng, ['[glob:%s]' % pick(rng, NAMES_), 'x[glob:%s]y[glob:%s]' % (pick(rng, names), pick(rng, names)), 'plain', 3, '[glob:zz]',
                                  mk('FPStr', 'u,[glob:%s]' % pick(rng, names)), mk('FPStr', 'u,v')])
    if rng.random() < 0.2:
        others['l'] = mk('list', ['[glob:%s]' % names[0], 'k'])
    return dict(files=files, pieces=pieces, others=others, bad=bad, first=rng.random() < 0.5)


def nontrivial(case):
    return bool(case['bad'] or expected(case))


def fixed():
    yield dict(files=['f_1', 'f_2'], pieces=[['t', 'f_'], ['g', 'n', r'\d']], others=dict(o=mk('FPStr', 'a,[glob:n]'), o2=mk('FPStr', 'a,b')), bad=None, first=True)
    yield dict(files=['f_1', 'f_12', 'f_1\n', 'f_a'], pieces=[['t', 'f_'], ['g', 'n', r'\d+']], others=dict(o='[glob:n]'), bad=None, first=True)
    yield dict(files=['f_\\', 'f_a'], pieces=[['t', 'f_'], ['g', 'n', r'\\']], others=dict(o='[glob:n]'), bad=None, first=True)
    yield dict(files=['f_1a', 'f_1b'], pieces=[['t', 'f_'], ['g', 'n', r'\d'], ['g', 'i', 'a|b']], others=dict(o='[glob:i][glob:n]'), bad=None, first=False)
    for b in BAD:
        yield dict(files=['f_1'], pieces=[['t', 'f_'], ['g', 'n', b[0]]], others={}, bad=b[1], first=True)
    yield dict(files=['f_1'], pieces=[['t', 'f_'], ['g', 'n', r'\d'], ['g', 'n', r'\d']], others={}, bad='duplicate', first=True)


def pattern(case):
    return ''.join(p[1] if p[0] == 't' else '{glob:%s:%s}' % (p[1], p[2]) for p in case['pieces'])


def text_re(s):
    return ''.join({'*': '.*', '?': '.'}.get(c, re.escape(c)) for c in s)


def expected(case):
    if case['bad']:
        return []
    rx = re.compile(''.join(text_re(p[1]) if p[0] == 't' else '(?P<%s>%s)' % (p[1], p[2]) for p in case['pieces']))
    hidden_ok = case['pieces'][0][0] == 't' and case['pieces'][0][1].startswith('.')
    return [(f, rx.fullmatch(f).groupdict()) for f in sorted(case['files']) if rx.fullmatch(f) and (hidden_ok or not f.startswith('.'))]


def run(case):
    pat = pattern(case)
    if ',' in pat:
        return 'unspecified'
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix='vfq_p15_')
    try:
        os.chdir(scratch)
        for f in case['files']:
            with open(os.path.join(scratch, f), 'w'):
                pass
        others = decd(case['others'])
        desc = dict(f=pat, **others) if case['first'] else dict(others, f=pat)
        keep = snap(desc)
        st, got = guarded(util.expand, desc)
        ensure(snap(desc) == keep, 'the description was modified')
        if case['bad']:
            ensure(st == 'raise' and isinstance(got, ValueError), 'wrong pattern (%s) %r: %s %r', case['bad'], pat, st, got)
            return 'wrong pattern'
        ensure(st == 'ok', '%r raises %r', pat, got)
        want = []
        for f, groups in expected(case):
            d = dict(f=f)
            for k, v in others.items():
                if isinstance(v, str):
                    for g, t in groups.items():
                        v = v.replace('[glob:%s]' % g, t if t is not None else '')
                if k in others and type(others[k]) is stdtypes.FPStr:
                    v = stdtypes.FPStr(v)
                d[k] = v
            want.append(d)
        if 'l' in others:
            # the list is expanded before or after the files
            new = []
            for d in want:
                for x in d['l']:
                    new.append(dict(d, l=x))
            for d in new + got:
                d.pop('l', None)
            key = lambda d: repr(sorted((k, repr(v)) for k, v in d.items() if k != 'index_expansion'))  # noqa
            ensure(sorted(map(key, got)) == sorted(map(key, new)), 'files %s instead of %s', got, new)
            return 'list'
        for i, d in enumerate(got):
            ensure(d.pop('index_expansion') == i + 1, 'index_expansion')
        ensure([d['f'] for d in got] == [d['f'] for d in want], '%r: files %s instead of %s', pat, [d['f'] for d in got], [d['f'] for d in want])
        ensure(all(type(g[k]) is type(w[k]) for g, w in zip(got, want) for k in w), '%r: types', pat)
        ensure(got == want, '%r: %s instead of %s', pat, got, want)
        return 'files=%d' % min(3, len(want))
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch)
