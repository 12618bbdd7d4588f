#!/usr/bin/env python3
"""Writes marks.inc: real marks that neither decompose nor compose and extend a
grapheme, by combining class (input of N05), from ucd.inc."""
import os, re
H = os.path.dirname(os.path.abspath(__file__)); t = open(H + '/ucd.inc').read()
def arr(n): return [tuple(int(x) for x in r.split(',')) for r in re.findall(r'\{([-\d,]+)\}', re.search(r'%s\[\]\[\d+\] = \{(.*?)\};' % n, t, re.S).group(1))]
names = [x.strip() for x in re.search(r'enum u_gcb_value \{(.*?)\}', t).group(1).split(',')]
ext = {i for a, b, v in arr('u_gcb') if names[v] in ('U_Extend', 'U_SpacingMark') for i in range(a, b + 1)}
bad = {r[0] for n in ('u_dec', 'u_kdec', 'u_kdec_long') for r in arr(n)} | {x for r in arr('u_comp') for x in r[:2]}
by = {}
for a, b, k in arr('u_ccc'):
  for c in range(a, b + 1):
    if c in ext and c not in bad: by.setdefault(k, []).append(c)
by.pop(0, None)
out = '// generated by marks.py\n'
def put(n, l): return 'static const int %s[] = {%s};\n' % (n, ','.join(map(str, l)))
out += put('marks2', [c for k in sorted(by) for c in by[k][:2]]) + put('marks1', [c for k in sorted(by) for c in by[k][:1]]) + put('marks230', by[230][:45]) + put('marks220', by[220][:45])
open(H + '/marks.inc', 'w').write(out); print({k: len(v) for k, v in by.items()})
