#!/usr/bin/env python3
"""Writes /verif/known_findings.txt from /repo's history of fix commits (run by hand, never by a check)."""
import subprocess
PROPS = {
 'an only clause on an unknown value': 'P04 P05', 'cyclic replacements': 'P03', 'substituted values are inserted literally': 'P03 P15',
 'cyclic remap': 'P01', 'a value that is not a class': 'P01', 'writing a value that is not a class': 'P10', 'unhashable values do not make': 'P01', 'a plain string is a valid only': 'P04',
 'unset optional attributes are still None': 'P11', 'every declared value or outcast': 'P09', 'list2dict does not alter': 'P09',
 'remapped or unhashable values are consistent': 'P06', 'clear and pop keep': 'P06', 'the fast track does not index': 'P06', 'a value that can not be converted': 'P06', 'equal FPDict': 'P16', 'nested unhashable values are consistent': 'P06',
 'nested unhashable values are not remapped': 'P01', 'the dictionary and XML views': 'P17', 'ordering of the factorized': 'P17',
 'a priority level is not equal': 'P08', 'an insertion relative': 'P08', 'the priority levels of a merged': 'P09', 'deleting an attribute': 'P10 P12',
 'objects with unset weak': 'P01 P10 P11', 'values and outcast are allowed for class-valued': 'P01 P09', 'an only clause on an unset optional': 'P04',
 'the attribute map restricted': 'P20', 'the documentation order depends': 'P19', 'a glob pattern must match': 'P15', 'a bracket that follows': 'P15', 'a matching dictionary waits': 'P14',
 'a class refused because of': 'P13', 'a string that prevents the expansion': 'P14 P15', 'the actual tag of a collector': 'P13'}
out = ['# Genuine defects of UMR-CNRM/footprints met by the checks.',
       '# "fixed:" entries are repaired in /repo and suppress nothing; there is no unrepaired finding (a line would start with "finding:").']
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    ks = [k for k in PROPS if s[5:].startswith(k)]
    assert len(ks) == 1, (s, ks)
    for p in PROPS[ks[0]].split():
        out.append('fixed: property=%s %s %s' % (p, h, s[5:]))
open('/verif/known_findings.txt', 'w').write('\n'.join(out) + '\n')
print(len(out) - 2)
