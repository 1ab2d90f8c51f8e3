#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in.md, the contracts, the baseline and the planted bugs. Run with python3-vt."""
import glob
import json
import os
import sys
HERE = '/verif'
sys.path[:0] = [HERE + '/pyvc', HERE + '/tools']
sys.dont_write_bytecode = True
import levels               # noqa: E402
import prove                # noqa: E402
cs = prove.load_contracts()
base = prove.load_baseline()
props = [json.loads(x) for x in open(HERE + '/properties.jsonl')]
short = lambda t: t.replace('__init__:', '')
rows = ['| contract | properties | functions | obligations | states |', '|---|---|---|---|---|']
for n in sorted(cs):
    c = cs[n]
    rows.append('| %s | %s | %s | %d | %s |' % (n, ' '.join(c.props), ', '.join('`%s`' % short(t) for t in c.targets), len(base.get(n, [])), c.title.strip().replace('\n', ' ').replace('|', '\\|')))
ass = []
for n in sorted(cs):
    for a in cs[n].assumptions:
        ass.append('* %s: %s' % (n, a))
fns = sorted({t for c in cs.values() for t in c.targets})
tot = 'Total: %d contracts over %d functions, %d obligations, all discharged on the unchanged tree (`python3-vt pyvc/prove.py all`).' % (len(cs), len(fns), sum(map(len, base.values())))
pr, bd = [], []
for p in props:
    i = p['id']
    mine = [n for n in sorted(cs) if i in cs[n].props]
    pr.append('### %s - %s (level: %s)\n' % (i, p['title'], levels.level(i)))
    pr.append('%s.\n' % (levels.note(i)[0].upper() + levels.note(i)[1:]))
    pr.append('Contracts: %s.' % (', '.join(mine) or 'none'))
    doc = ''
    src = open(HERE + '/replay/%s.py' % i.lower()).read()
    sys.path.insert(0, HERE + '/replay')
    import ast
    mod = ast.parse(src)
    doc = (ast.get_docstring(mod) or '').replace('\n', ' ')
    rule = ''
    for s in ast.walk(mod):
        if isinstance(s, ast.Assign) and any(getattr(t, 'id', '') == 'RULE' for t in s.targets):
            try:
                rule = ast.literal_eval(s.value)
            except ValueError:
                rule = ''
    pr.append('Oracle of the search: `replay/%s.py`%s. Cases: %s.\n' % (i.lower(), ' - ' + doc.rstrip('.') if doc else '', rule.rstrip('.') or 'see the file'))
for p in props:
    i = p['id']
    if i not in levels.NOTES:
        bd.append('* %s: %s' % (i, levels.note(i)))
    else:
        bd.append('* %s: the remainder named in its note (section 3)' % i)
cat = {}
try:
    cat = json.load(open(HERE + '/tools/catches.json'))
except OSError:
    pass
sd = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    d = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    sd.append('| %s | %s | %s | %s |' % (n, d['property'], d['needs'].replace('|', '/'), cat.get(n, '?')))
fx = ['* ' + x.strip()[7:] for x in open(HERE + '/known_findings.txt') if x.startswith('fixed:')]
s = open(HERE + '/tools/design.in.md').read()
for k, v in dict(GENERAL='\n'.join('* ' + g for g in prove.GENERAL), ASSUME='\n'.join(ass), CONTRACTS='\n'.join(rows), TOTALS=tot, PROPS='\n'.join(pr), BOUNDED='\n'.join(bd),
                 SEEDS='\n'.join(sd), FIXES='\n'.join(fx)).items():
    s = s.replace('@%s@' % k, v)
open(HERE + '/DESIGN.md', 'w').write(s)
