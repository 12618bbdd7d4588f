# what each check runs: harness, bounds, symbolic sizes per tier
COMMON_ASSUME = [
 'LLVM bitcode of clang 18 (-O1 front end, no optimisation that depends on undefined behaviour) stands for the source; the shipped build uses g++ -O2, which is what the replays are compiled with (g++ -O1 and sanitizers)',
 'memory is a set of separate objects; allocation fails only in M01, where every subset of the allocations of a call may; octets never written read as arbitrary values; C library functions bsearch, qsort, strlen, memchr, strcmp are replaced by models in lib/model.cpp',
 'signed overflow and shifts wrap as on the target (not reported as errors)',
]
def job(name, bounds, **kw): d = dict(name=name, bounds=bounds); d.update(kw); return d
PROPS = {}
PROPS['C01'] = dict(bounds='every codepoint U+0000..U+10FFFF; position 0..4 in a 16 octet destination that holds any codepoint there and arbitrary other octets; char, unsigned char, signed char pointers and std::string iterators; conversion with 0..2 arbitrary octets before',
  reach=['written', 'converted'], quick=[job('all', '')])
PROPS['D01'] = dict(bounds='every 32-bit integer', reach=['nonzero', 'zero'], quick=[job('all', '')])
PROPS['G01'] = dict(bounds='every 32-bit integer', reach=['other', 'listed'], quick=[job('all', '')])
PROPS['D02'] = dict(bounds='every 32-bit integer; output string with one arbitrary codepoint before', reach=['hangul', 'decomposed', 'itself'], quick=[job('all', '', time=200)])
PROPS['D03'] = dict(file='D02.cpp', bounds='every 32-bit integer; output string with one arbitrary codepoint before', reach=['hangul', 'decomposed', 'itself'], quick=[job('all', '', defs={'KOMPAT': 1}, time=200)])
PROPS['D04'] = dict(bounds='every pair of 32-bit integers', reach=['composed', 'none'], quick=[job('all', '')])

TEXT = 'texts of at most %s codepoints, every codepoint up to U+%s, every mix of sequence lengths'
def lt(n, **kw): d = {'LONG': n}; d.update(kw.pop('defs', {})); return job('long', LONGT % n, defs=d, **kw)
LONGT = 'texts of 17 or %d codepoints made of 10 (octets only: 5) repeated patterns, one codepoint at the begin, middle or end arbitrary'
def tn(n, w=4): return TEXT % (n, '10FFFF' if w == 4 else '7FFFFFFF') + (' (1 to 6 octets)' if w > 4 else '')
PROPS['C02'] = dict(bounds='every value of 1 to 6 octets (up to 0x7fffffff), every position inside of it, 0..2 arbitrary octets before and arbitrary octets behind; char, unsigned char, signed char pointers and std::string iterators', reach=['read'], quick=[job('all', '')])
PROPS['C03'] = dict(bounds=tn(5) + '; ' + LONGT % 264 + '; and 3 codepoints of up to 6 octets; std::string (const and mutable), string_view over an exactly sized buffer, char and unsigned char pointers', reach=['walked'],
  quick=[job('n5', tn(5), defs={'MAXN': 5}), job('wide', tn(3, 6), defs={'MAXN': 3, 'WIDTH': 6}), lt(264)], thorough=[job('n7', tn(7), defs={'MAXN': 7}), job('wide', tn(5, 6), defs={'MAXN': 5, 'WIDTH': 6}), lt(1100)])
PROPS['C04'] = dict(bounds=PROPS['C03']['bounds'], reach=['backwards', 'reverse', 'halfway'],
  quick=[job('n5', tn(5), defs={'MAXN': 5}), job('wide', tn(3, 6), defs={'MAXN': 3, 'WIDTH': 6}), lt(264, reach=['backwards', 'reverse'])], thorough=[job('n7', tn(7), defs={'MAXN': 7}), job('wide', tn(4, 6), defs={'MAXN': 4, 'WIDTH': 6}), lt(1100, reach=['backwards', 'reverse'])])
PROPS['C05'] = dict(bounds=tn(4) + ', every pair of positions; ' + LONGT % 264 + ', 64 pairs of positions; std::string (const and mutable), string_view and unsigned char pointers over an exactly sized buffer', reach=['inside', 'different'],
  quick=[job('n4', tn(4), defs={'MAXN': 4}), job('wide', tn(2, 6), defs={'MAXN': 2, 'WIDTH': 6}), lt(264)], thorough=[job('n5', tn(5), defs={'MAXN': 5}), job('wide', tn(3, 6), defs={'MAXN': 3, 'WIDTH': 6}), lt(1100)])
PROPS['C06'] = dict(bounds='up to 3 (thorough: 4) codepoints written over a well-formed text of 5 shapes (all 1, all 4, all 3 octets, two mixes) that ends with or behind the last octet written', reach=['written', 'rest'], quick=[job('n3', '3 codepoints', defs={'MAXN': 3}, time=120)], thorough=[job('n4', '4 codepoints', defs={'MAXN': 4}, time=800)])
LRUN = 'runs of 133 or 264 of the same one or three octets with 2 arbitrary octets before and at least 5 behind'
ANY = 'every sequence of at most %d octets'
PROPS['C07'] = dict(bounds=ANY % 6 + ' (thorough: 8) that the check accepts; forward with or without reading and comparing, post-increment, backward with or without reading, comparing and stepping forward again; at most as many steps as octets', reach=['forward', 'backward', 'rejected'], quick=[job('n6', '6 octets', defs={'MAXN': 6})], thorough=[job('n8', '8 octets', defs={'MAXN': 8}, time=800)])
PROPS['C09'] = dict(bounds=ANY % 14 + '; ' + LRUN, reach=['accepted', 'rejected'], quick=[job('n14', '14 octets', defs={'MAXN': 14}), job('long', LRUN, defs={'MAXN': 264, 'LONGRUN': 7})], thorough=[job('n20', '20 octets', defs={'MAXN': 20}), job('long', LRUN, defs={'MAXN': 264, 'LONGRUN': 12})])
PROPS['C10'] = dict(bounds=ANY % 8 + '; every slice of texts of 5 codepoints; ' + LRUN, reach=['intact', 'repaired'], quick=[job('n8', '8 octets', defs={'MAXN': 8}), job('slices', tn(5), defs={'SLICES': 5}), job('long', LRUN, defs={'MAXN': 264, 'LONGRUN': 5})], thorough=[job('n10', '10 octets', defs={'MAXN': 10}, time=500), job('slices', tn(6), defs={'SLICES': 6}), job('long', LRUN, defs={'MAXN': 264, 'LONGRUN': 7}, time=200)])
PROPS['C11'] = dict(bounds=tn(4) + ', every pair of positions; ' + LONGT % 264 + ', 64 pairs of positions; 0, 1, 14 or 16 arbitrary octets before; 5 arbitrary UTF-32 values with 0..4 before', reach=['appended', 'halfway', 'itself'], quick=[job('n4', '4 codepoints', defs={'MAXN': 4}), lt(264)], thorough=[job('n5', '5 codepoints', defs={'MAXN': 5}), lt(1100)])
PROPS['C12'] = dict(bounds=tn(3) + '; ' + LONGT % 264 + '; 0, 1, 13 or 16 arbitrary octets before; UTF-32: 3 arbitrary values with 0..3 before', reach=['converted', 'copied'], quick=[job('n3', '3 codepoints'), lt(264)], thorough=[job('n4', '4 codepoints', defs={'MAXN': 4}, time=700), lt(1100)])
PROPS['C13'] = dict(bounds='contents of 0, 1, 2, 7, 15, 16, 31, 33, 264 arbitrary units', reach=['held', 'view'], quick=[job('all', 'at most 33 units'), job('long', 'at most 264 units', defs={'LONG': 264})])
PROPS['C14'] = dict(bounds='every pair of 32-bit integers', reach=['equal', 'different'], quick=[job('all', '')])
PROPS['C15'] = dict(bounds=tn(3) + ' in all storages, constant and mutable iterators; ' + LONGT % 40 + '; any 32-bit value and any 2 of them searched or compared', reach=['copied', 'absent', 'found', 'compared', 'order', 'kept', 'each'], quick=[job('n3', tn(3), defs={'MAXN': 3}), lt(40, defs={'PLACES': 4, 'HALF': 1}, time=120)], thorough=[job('n4', tn(4), defs={'MAXN': 4}), lt(130, defs={'PLACES': 6}, time=400)])
PROPS['C16'] = dict(bounds='every octet; every 32-bit integer', reach=['plain', 'continuation', 'start', 'length'], quick=[job('all', '')])
def uc(f, reach, **d): return job(f, 'as ' + f, file=f + '.cpp', defs=d, reach=reach)
PROPS['C17'] = dict(flags=['-funsigned-char'], bounds='the build in which char is unsigned (-funsigned-char): writing, reading and every position (C01, C02: all values); texts of at most 3 codepoints walked both ways, compared, appended and converted; 6 octets checked, walked and repaired', reach=[],
  quick=[uc('C01', ['written', 'converted']), uc('C02', ['read']), uc('C03', ['walked'], MAXN=3), uc('C04', ['backwards'], MAXN=3), uc('C05', ['inside', 'different'], MAXN=3), uc('C07', ['forward', 'rejected'], MAXN=4), uc('C09', ['accepted', 'rejected'], MAXN=6), uc('C10', ['intact', 'repaired'], MAXN=6), uc('C11', ['appended'], MAXN=3), uc('C12', ['converted'], MAXN=2), uc('C16', ['start', 'length'])],
  thorough=[uc('C01', ['written', 'converted']), uc('C02', ['read']), uc('C03', ['walked'], MAXN=5), uc('C04', ['backwards'], MAXN=5), uc('C05', ['inside', 'different'], MAXN=4), uc('C06', ['written'], MAXN=3), uc('C07', ['forward', 'rejected'], MAXN=6), uc('C09', ['accepted', 'rejected'], MAXN=14), uc('C10', ['intact', 'repaired'], MAXN=8), uc('C11', ['appended'], MAXN=4), uc('C12', ['converted'], MAXN=3), uc('C16', ['start', 'length']), uc('G03', ['apart', 'together'], MAXN=3)])
PROPS['D05'] = dict(bounds='every 32-bit codepoint; mapping absent or any sequence of at most 34 (thorough: 70) nonzero 32-bit integers; 0..2 arbitrary units before; resolver as an object, a function or a lambda that takes a codepoint', reach=['mapped', 'to nothing', 'hangul', 'itself'], quick=[job('all', 'sequences of at most 34', defs={'MAXSEQ': 34})], thorough=[job('all', 'sequences of at most 70', defs={'MAXSEQ': 70}, time=300)])
PROPS['G02'] = dict(bounds='every pair of 32-bit integers', reach=['boundary', 'together'], quick=[job('all', '')])
GS = 'std::string, string_view over an exactly sized buffer, UTF-32 string and view (UTF-32: any 32-bit integers)'
PROPS['G03'] = dict(bounds=tn(4) + '; ' + LONGT % 66 + '; ' + GS, reach=['apart', 'together', 'empty'], quick=[job('n4', tn(4), defs={'MAXN': 4}, time=150), lt(66, reach=['together', 'apart'])], thorough=[job('n5', tn(5), defs={'MAXN': 5}, time=800), lt(264, time=300, reach=['together', 'apart'])])
PROPS['G04'] = dict(bounds=tn(3) + ', every position; ' + LONGT % 40 + ', 8 positions; ' + GS, reach=['first', 'later', 'halfway', 'end'], quick=[job('n3', tn(3), defs={'MAXN': 3}), lt(40)], thorough=[job('n4', tn(4), defs={'MAXN': 4}, time=700), lt(264, time=200)])
PROPS['G05'] = dict(bounds=tn(2) + ' (thorough: 3), every pair of positions; ' + LONGT % 33 + ', 9 pairs of positions; ' + GS, reach=['same', 'different', 'end'], quick=[job('n2', tn(2)), lt(33, defs={'PLACES': 3, 'HALF': 1}, time=120)], thorough=[job('n3', tn(3), defs={'MAXN': 3}, time=400), lt(40, defs={'PLACES': 5}, time=400)])
PROPS['G06'] = dict(bounds=tn(2) + ' (thorough: 3), every pair of positions, 0 or 3 arbitrary units before; ' + LONGT % 33 + ', 9 pairs of positions; ' + GS, reach=['nothing', 'appended'], quick=[job('n2', tn(2)), lt(33, defs={'PLACES': 3, 'HALF': 1}, time=120)], thorough=[job('n3', tn(3), defs={'MAXN': 3}, time=400), lt(40, defs={'PLACES': 5}, time=400)])

NS = 'UTF-8 string to UTF-8, UTF-8 view to UTF-32, UTF-32 string (any 32-bit integers) to UTF-32, UTF-32 view to UTF-8'
def al(name, n, **kw): d = dict(ALPHA=1, MAXN=n); d.update(kw.pop('defs', {})); return job(name, 'texts of at most %d codepoints out of %s' % (n, '20 that compose, decompose and reorder in every way' if d['ALPHA'] == 1 else '19 of every grapheme class and length'), defs=d, **kw)
def more(p, tier, *js): PROPS[p][tier] = PROPS[p][tier] + list(js)
def gr(n, **kw): return al('classes', n, defs={'ALPHA': 2}, **kw)
for p, n, m in [('G03', 4, 5), ('G04', 4, 4), ('G05', 3, 4), ('G06', 3, 3)]:
  more(p, 'quick', gr(n, time=200, reach=PROPS[p]['reach'])); more(p, 'thorough', gr(m, time=500, reach=PROPS[p]['reach'])); PROPS[p]['bounds'] += '; texts of at most %d (thorough: %d) codepoints out of 19 of every grapheme class and length' % (n, m)
for i, f in enumerate(['N01', 'N02', 'N03', 'N04']):
  PROPS[f] = dict(file='N01.cpp', bounds=tn(2) + ' (thorough: 3, as far as time permits); ' + LONGT % 33 + '; ' + NS, reach=['same', 'empty', 'longer'] + (['shorter'] if i in (1, 3) else []), quick=[job('n1', tn(1), defs={'FORM': i, 'MAXN': 1}, reach=['same', 'empty', 'longer']), job('n2', tn(2), defs={'FORM': i, 'MAXN': 2}, time=300), lt(33, defs={'FORM': i, 'SEQMAX': 700, 'HALF': 1}, time=200, reach=['same', 'longer'])],
   thorough=[job('n1', tn(1), defs={'FORM': i, 'MAXN': 1}, reach=['same', 'empty', 'longer']), job('n2', tn(2), defs={'FORM': i, 'MAXN': 2}, time=300), job('n3', tn(3), defs={'FORM': i, 'MAXN': 3}, time=900, reach=['same', 'longer']), lt(66, defs={'FORM': i, 'SEQMAX': 1300}, time=700, reach=['same', 'longer'])])
for i, p in enumerate(['N01', 'N02', 'N03', 'N04']):
  more(p, 'quick', al('mixed', 3, defs={'FORM': i}, time=150)); more(p, 'thorough', al('mixed', 4, defs={'FORM': i}, time=600)); PROPS[p]['bounds'] += '; texts of at most 3 (thorough: 4) codepoints out of 20 that compose, decompose and reorder in every way'
PROPS['F01'] = dict(bounds=tn(3) + ' and ' + LONGT % 40 + ' in all storages, from the beginning or any codepoint, codepoint and grapheme iterators; arrays and lists of at most 3 (40) arbitrary integers; function pointers and function objects; returned values of +-2^24', reach=['called', 'empty', 'part', 'graphemes', 'plain'], quick=[job('n3', tn(3), defs={'MAXN': 3}), lt(40, defs={'MAXN': 40})], thorough=[job('n4', tn(4), defs={'MAXN': 4}), lt(264, defs={'MAXN': 264}, time=300)])
OCT14 = '%d octets out of 14 that make sequences of each kind, %s'
PROPS['C18'] = dict(bounds='every sequence of at most 2 (graphemes and appending: 3; thorough: 3) octets that the check accepts; every sequence of at most 3 (graphemes and appending: 4; thorough: 4) octets out of 14 that make sequences of each kind; graphemes from the beginning and from every position, appending every range, the four forms', reach=['graphemes', 'position', 'append', 'normalized', 'rejected'],
  quick=[job('n2', '2 octets', defs={'MAXN': 2, 'HOWS': 7}, time=120), job('graphemes', '3 octets, graphemes and appending', defs={'MAXN': 3, 'HOWS': 3}, reach=['graphemes', 'position', 'append', 'rejected']), job('mixed', OCT14 % (3, 'all'), defs={'MAXN': 3, 'HOWS': 7, 'OCTETS': 1}, time=90), job('mixed4', OCT14 % (4, 'graphemes and appending'), defs={'MAXN': 4, 'HOWS': 3, 'OCTETS': 1}, reach=['graphemes', 'position', 'append', 'rejected'], time=200)],
  thorough=[job('n3', '3 octets', defs={'MAXN': 3, 'HOWS': 7}, time=1500), job('mixed', OCT14 % (4, 'all'), defs={'MAXN': 4, 'HOWS': 7, 'OCTETS': 1}, time=1500)])
PROPS['C08'] = dict(bounds=tn(3) + '; ' + LONGT % 40 + '; views over exactly sized memory (UTF-32: any 32-bit integers), every position and pair of positions', reach=['codepoints', 'append', 'graphemes'], quick=[job('n3', tn(3), defs={'MAXN': 3}), lt(40, defs={'PLACES': 4})], thorough=[job('n4', tn(4), defs={'MAXN': 4}, time=300), lt(130, time=400)])
PROPS['N05'] = dict(bounds='at most 5 (thorough: 6) codepoints behind an optional base letter, each an arbitrary mark (two of every combining class) or a starter of the same grapheme; runs of 17, 18, 33 and 40 different marks of one or two classes with one arbitrary mark anywhere in them; the ordering step itself and all four forms', reach=['moved', 'kept', 'starter'],
  quick=[job('n5', 'n <= 5', defs={'MAXN': 5}, opts=['--split', 0]), job('long', '17 to 40 marks', defs={'LONG': 4}, opts=['--split', 0], reach=['long', 'moved'])], thorough=[job('n6', 'n <= 6', defs={'MAXN': 6}, opts=['--split', 0]), job('long', '17 to 40 marks', defs={'LONG': 4}, opts=['--split', 0], reach=['long', 'moved'])])
PROPS['N06'] = dict(bounds='at most 3 (thorough: 4) arbitrary 32-bit integers in canonical order; at most 6 (thorough: 7) codepoints out of 20 that compose in every way; any value of the counter below 2^24', reach=['none', 'one', 'chain', 'gap'], quick=[job('n3', '3 codepoints', defs={'MAXN': 3}, opts=['--split', 400], time=300), al('mixed', 6)], thorough=[al('mixed', 7), job('n4', '4 codepoints', defs={'MAXN': 4}, opts=['--split', 400], time=700)])
PROPS['N07'] = dict(bounds='at most 2 arbitrary 32-bit integers, 16 rules (four forms twice; C and D either way; compatibility forms of every form; canonical forms of the compatibility forms)', reach=['idempotent', 'forms agree', 'longer'], quick=[job('n1', '1 codepoint', defs={'MAXN': 1}), job('n2', '2 codepoints', defs={'MAXN': 2}, time=300)], thorough=[job('n2', '2 codepoints', defs={'MAXN': 2}, time=300), job('n3', '3 codepoints', defs={'MAXN': 3}, time=1500, reach=['idempotent', 'forms agree'])])
def N8L(**kw): return job('long', LONGT1 % 20, defs=dict(LONG=20, SEQMAX=700, HALF=1, ONESIZE=1, **kw), time=200, reach=['same', 'longer'])
LONGT1 = LONGT.replace('17 or ', '')
NR = ['same', 'empty', 'longer', 'shorter']
PROPS['N08'] = dict(bounds=tn(2) + '; ' + LONGT1 % 20 + '; all four forms; UTF-8 and UTF-32 strings and views to UTF-8 and UTF-32 strings, each against UTF-32 string to UTF-32 string', reach=NR, quick=[job('n1', tn(1), defs={'MAXN': 1}, reach=['same', 'empty', 'longer']), job('n2', tn(2), defs={'MAXN': 2}, time=300), N8L()],
  thorough=[job('n1', tn(1), defs={'MAXN': 1}, reach=['same', 'empty', 'longer']), job('n2', tn(2), defs={'MAXN': 2}, time=400), job('n3', tn(3), defs={'MAXN': 3}, time=700, reach=['same', 'longer']), al('mixed', 3, time=200), lt(33, defs={'SEQMAX': 700, 'HALF': 1}, time=700, reach=['same', 'longer'])])
PROPS['N09'] = dict(file='N08.cpp', bounds=tn(2) + '; ' + LONGT1 % 20 + '; all four forms; UTF-8 and UTF-32 strings and views (UTF-32 to UTF-32: any 32-bit integers) to UTF-8 and UTF-32 strings holding 1, 3 or 15 arbitrary units (1 or 3 for texts of two and more); texts of 1 codepoint appended twice', reach=NR + ['twice'], quick=[job('n1', tn(1), defs={'MAXN': 1, 'APPEND': 1}, reach=['same', 'empty', 'longer', 'twice']), job('n2', tn(2), defs={'MAXN': 2, 'APPEND': 1}, time=300), N8L(APPEND=1)],
  thorough=[job('n1', tn(1), defs={'MAXN': 1, 'APPEND': 1}, reach=['same', 'empty', 'longer', 'twice']), job('n2', tn(2), defs={'MAXN': 2, 'APPEND': 1}, time=300), job('n3', tn(3), defs={'MAXN': 3, 'APPEND': 1}, time=700, reach=['same', 'longer']), al('mixed', 3, defs={'APPEND': 1}, time=300), lt(33, defs={'SEQMAX': 700, 'HALF': 1, 'APPEND': 1}, time=700, reach=['same', 'longer'])])
HW = ['settled']
PROPS['H01'] = dict(bounds='every property lookup with any 32-bit integers after one or two calls of any other one with any arguments, a boundary decision (any pair) before another, a text of at most 2 codepoints in any form before a text of at most 1 in any form, UTF-32; where the earlier call writes to no memory that outlives it, every history is covered', reach=HW,
  quick=[job('after', 'any lookup after one of 20 codepoints and pairs of them', defs={'LOOKUPS': 1, 'ALPHA': 1}, time=150), job('lookups', 'one lookup after one lookup', defs={'LOOKUPS': 1}, time=150), job('boundary', 'one decision after one decision', defs={'BOUNDARY': 1}), job('forms', '2 codepoints, then 1', defs={'N1': 2, 'N2': 1}, time=200)],
  thorough=[job('after', 'any lookup after one of 20 codepoints and pairs of them', defs={'LOOKUPS': 1, 'ALPHA': 1}, time=400), job('lookups', 'one lookup after one lookup', defs={'LOOKUPS': 1}, time=600), job('boundary', 'one decision after one decision', defs={'BOUNDARY': 1}), job('forms', '3 codepoints, then 1', defs={'N1': 3, 'N2': 1}, time=700)])
PROPS['H02'] = dict(san='thread', bounds='every lookup with any 32-bit integers; at most 4 arbitrary octets checked and repaired; texts of at most 3 (thorough: 4) codepoints in all storages iterated both ways, by grapheme, appended and copied; ' + tn(2) + ' normalized to all four forms and both encodings; an execution that writes only to its own memory, or to shared memory under a lock or atomically, races with no other', reach=[],
  quick=[job('lookups', 'every lookup with any arguments', defs={'LOOKUPS': 1}, reach=['lookup']), job('forms', tn(2), defs={'FORMS': 1, 'MAXN': 2}, reach=['form'], time=150), job('texts', tn(3), defs={'MAXN': 3}, reach=['bounds', 'codepoints', 'graphemes', 'append'])],
  thorough=[job('lookups', 'every lookup with any arguments', defs={'LOOKUPS': 1}, reach=['lookup']), job('forms', tn(3), defs={'FORMS': 1, 'MAXN': 3}, reach=['form'], time=800), job('texts', tn(4), defs={'MAXN': 4}, reach=['bounds', 'codepoints', 'graphemes', 'append'], time=300)])
def M(name, bounds, n=1, reach=['failed', 'complete'], time=120, **kw): d = dict(MAXN=n, MAXA=1, MAXI=1); d.update(kw); return job(name, bounds, defs=d, reach=reach, time=time)
MF = 'normalization of ' + TEXT % (1, '10FFFF')
PROPS['M01'] = dict(bounds='every subset of the allocations of a call failing; texts of 1 codepoint in all four forms (form C: 2; thorough: all forms 2) from every storage to both encodings, output of 0 or 14 units before; appending codepoints, graphemes and copies of texts of at most 3 codepoints and converting 3 UTF-32 codepoints, output of 0, 14 or 3 units before; decomposition of every 32-bit integer; ordering and composition in place of 3 (thorough: 4) arbitrary integers; ' + LONGT1 % 17 + ' appended and converted (thorough: normalized)', reach=['failed', 'complete'],
  quick=[M('forms', MF, OPS=4, FROM=0, PRE=2), M('c2', 'form C, n <= 2', n=2, OPS=1, FROM=1, PRE=1, time=250), M('append', 'append, convert, decompose: n <= 3', MAXA=3, OPS=3, FROM=4, PRE=3), M('inplace', 'in place: n <= 3', MAXI=3, OPS=1, FROM=7, PRE=1, reach=['in place']), M('long', LONGT1 % 17, LONG=17, HALF=1, ONESIZE=1, PLACES=1, SEQMAX=700, OPS=3, FROM=4, PRE=1, MAXA=3)],
  thorough=[M('forms', MF, OPS=4, FROM=0, PRE=3), M('forms2', 'all forms, n <= 2', n=2, OPS=4, FROM=0, PRE=1, time=700), M('append', 'append, convert, decompose: n <= 4', MAXA=4, OPS=3, FROM=4, PRE=3, time=200), M('inplace', 'in place: n <= 4', MAXI=4, OPS=1, FROM=7, PRE=1, reach=['in place'], time=600), M('long', LONGT1 % 17, LONG=17, HALF=1, ONESIZE=1, PLACES=1, SEQMAX=700, OPS=3, FROM=4, PRE=1, MAXA=3), M('longforms', LONGT1 % 17 + ', normalized', LONG=17, HALF=1, ONESIZE=1, PLACES=1, SEQMAX=700, OPS=4, FROM=0, PRE=1, time=800)])
