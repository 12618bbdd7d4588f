#!/usr/bin/env python3
# Derives the reference tables (Unicode 9.0) from the UCD files of the pinned
# commit, cross-checked against Python's unicodedata.  Run once; the result,
# ucd.inc, is committed and does not depend on later contents of /repo.
import sys, re, unicodedata
D = sys.argv[1] if len(sys.argv) > 1 else '/repo/src/u5e/props/'
ccc, dec, kdec, raw, first = {}, {}, {}, {}, None
for l in open(D + 'UnicodeData.txt'):
    f = l.rstrip('\n').split(';'); c = int(f[0], 16)
    if int(f[3]): ccc[c] = int(f[3])
    if f[5]:
        m = re.match(r'(?:<(.*)> )?(.*)', f[5]); raw[c] = (m.group(1), [int(x, 16) for x in m.group(2).split()])
def full(c, k):
    if c not in raw or (raw[c][0] and not k): return [c]
    return [y for x in raw[c][1] for y in full(x, k)]
def fullu5e(c):  # only <compat> (KF-A)
    if c not in raw or (raw[c][0] and raw[c][0] != 'compat'): return [c]
    return [y for x in raw[c][1] for y in fullu5e(x)]
def order(s):
    s = list(s); i = 0
    while i < len(s):
        j = i
        while j < len(s) and ccc.get(s[j], 0): j += 1
        s[i:j] = sorted(s[i:j], key=lambda x: ccc[x]); i = max(j, i + 1)
    return s
cd = {c: order(full(c, 0)) for c in raw if not raw[c][0]}
kd = {c: order(full(c, 1)) for c in raw}
assert all(full(c, 0) == cd[c] for c in cd) and all(full(c, 1) == kd[c] for c in kd)
excl = set()
for l in open(D + 'CompositionExclusions.txt'):
    m = re.match(r'([0-9A-F]{4,6})\b', l)
    if m: excl.add(int(m.group(1), 16))
comp = {}
for c, (t, s) in raw.items():
    if t or len(s) != 2 or c in excl or ccc.get(c, 0) or ccc.get(s[0], 0): continue
    assert tuple(s) not in comp; comp[tuple(s)] = c
# independent check
for c in range(0x110000):
    ch = chr(c)
    if unicodedata.category(ch) == 'Cs' or 0xAC00 <= c <= 0xD7A3: continue
    u = unicodedata.unidata_version
    inn = c in ccc or c in raw
    if inn:
        assert unicodedata.combining(ch) == ccc.get(c, 0), hex(c)
        assert [ord(x) for x in unicodedata.normalize('NFD', ch)] == cd.get(c, [c]), hex(c)
        assert [ord(x) for x in unicodedata.normalize('NFKD', ch)] == kd.get(c, [c]), hex(c)
for (a, b), c in comp.items(): assert unicodedata.normalize('NFC', chr(a) + chr(b)) == chr(c), hex(c)
gcb = []
for l in open(D + 'GraphemeBreakProperty.txt'):
    m = re.match(r'([0-9A-F]+)(?:\.\.([0-9A-F]+))?\s*;\s*(\w+)', l)
    if m: a = int(m.group(1), 16); b = int(m.group(2) or m.group(1), 16); gcb.append((a, b, m.group(3)))
gcb.sort(); g2 = []
for a, b, v in gcb:
    if g2 and g2[-1][1] + 1 == a and g2[-1][2] == v: g2[-1] = (g2[-1][0], b, v)
    else: g2.append((a, b, v))
cr = []
for c in sorted(ccc):
    if cr and cr[-1][1] + 1 == c and cr[-1][2] == ccc[c]: cr[-1][1] = c
    else: cr.append([c, c, ccc[c]])
o = open('ucd.inc', 'w'); o.write('// generated by gen.py from Unicode 9.0 data\n')
o.write('static const int u_ccc[][3] = {%s};\n' % ','.join('{%d,%d,%d}' % tuple(x) for x in cr))
names = ['Other'] + sorted(set(v for _, _, v in g2))
o.write('enum u_gcb_value {%s};\n' % ', '.join('U_' + n for n in names))
o.write('static const int u_gcb[][3] = {%s};\n' % ','.join('{%d,%d,%d}' % (a, b, names.index(v)) for a, b, v in g2))
def rows(name, d, n): o.write('static const int %s[][%d] = {%s};\n' % (name, n + 2, ',\n'.join('{' + ','.join(str(x) for x in [c, len(s)] + s + [0] * (n - len(s))) + '}' for c, s in sorted(d.items()))))
rows('u_dec', cd, 4); kshort = {c: s for c, s in kd.items() if len(s) <= 5}; klong = {c: s for c, s in kd.items() if len(s) > 5}
rows('u_kdec', kshort, 5); rows('u_kdec_long', klong, 18)
o.write('static const int u_comp[][3] = {%s};\n' % ','.join('{%d,%d,%d}' % (a, b, c) for (a, b), c in sorted(comp.items())))
print(len(cr), len(g2), len(cd), len(kd), len(klong), len(comp), names)
# KF-A: codepoints whose compatibility decomposition the library's generator leaves out
kf = []
for c in sorted(raw):
    u = fullu5e(c)
    if u != kd[c]: kf.append((c, u))
print(len(kf), max(len(x[1]) for x in kf), [hex(x[0]) for x in kf if x[1] != [x[0]]][:50])
open('kf_a.txt', 'w').write(''.join('U+%04X %s\n' % (c, ' '.join('%04X' % x for x in u)) for c, u in kf))
