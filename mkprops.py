#!/usr/bin/env python3
"""Writes properties.jsonl (the property list is easier to maintain here)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
                  why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])])))
U8="include/u5e/utf8_iterator.hpp"; UT="include/u5e/utf8_util.hpp"; UB="include/u5e/utf8_bounds.hpp"
ES="include/u5e/basic_encodedstring.hpp"; GI="include/u5e/basic_grapheme_iterator.hpp"; U="include/u5e/utf8.hpp"
PR="src/u5e/props/"
p("C01","Encoding a codepoint produces exactly its UTF-8 octets",
 "Writing any codepoint from U+0000 to U+10FFFF as UTF-8, through a mutable UTF-8 text iterator or by converting UTF-32 text, stores exactly the shortest-form octet sequence that UTF-8 defines for it. No other octet of the destination changes.",
 ["inputs"],"every codepoint U+0000..U+10FFFF; every destination content",
 "The tests write U+00C1 and a few ASCII letters; the size boundaries between 1, 2, 3 and 4 octets are never written.",
 [UT,U8,U],"encoded size of a value and the write proxy of the mutable iterator")
p("C02","Decoding yields exactly the codepoint that was encoded",
 "Dereferencing a UTF-8 text iterator that points at any octet of a well-formed sequence of one to six octets yields exactly the codepoint that sequence encodes. The result is the same for const and mutable iterators and for signed and unsigned octet storage.",
 ["inputs"],"every codepoint up to 31 bits in its 1..6 octet sequence, every position inside the sequence, any neighbouring text",
 "The tests decode five fixed sequences, always from their first octet.",
 [UT,U8],"sequence length from the lead octet, payload masks, rewind to the lead octet")
p("C03","Forward iteration visits every codepoint once, in order, up to the end",
 "Iterating any well-formed UTF-8 text from its beginning visits each codepoint exactly once and in order, every step lands on the first octet of the next codepoint, and the iterator compares equal to the end exactly after the last codepoint. Pre-increment and post-increment agree and post-increment returns the previous position.",
 ["inputs"],"every well-formed UTF-8 text (any mix of sequence lengths)",
 "The tests iterate one four-codepoint literal.",
 [U8,UT,ES],"forward_one_codepoint and iterator comparison")
p("C04","Backward iteration is the exact inverse of forward iteration",
 "Iterating any well-formed UTF-8 text backwards from its end visits exactly the codepoints of the forward iteration in the opposite order and arrives at the beginning; this also holds for the standard reverse iterators. From any position, also halfway into a codepoint, one decrement arrives at the start of the previous codepoint.",
 ["inputs"],"every well-formed UTF-8 text, every starting position other than inside the first codepoint",
 "One literal is iterated backwards; reverse iterators are never dereferenced.",
 [U8,UT],"rewind_one_codepoint, reference type used by std::reverse_iterator")
p("C05","UTF-8 iterators are equal exactly when they are in the same codepoint",
 "Two iterators over the same well-formed UTF-8 text compare equal if and only if both point into the same codepoint or both are at the end of the text. The comparison is symmetric, inequality is its negation, and it holds for const and mutable iterators.",
 ["inputs"],"every well-formed UTF-8 text, every pair of octet positions including the end",
 "The tests compare a handful of positions of one literal and never with the end on the left side.",
 [U8],"operator== / operator!= of the UTF-8 iterators")
p("C06","Writing a sequence of codepoints through an iterator is exact",
 "Assigning a sequence of codepoints one after another through a mutable UTF-8 iterator, including with the standard copy algorithm, overwrites the buffer with exactly the concatenation of their UTF-8 sequences and leaves the octets after it alone. Between the write and the next increment the iterator still dereferences to, and compares equal with, the codepoint just written.",
 ["inputs","histories"],"every sequence of codepoints that fits, every well-formed previous content of the buffer",
 "One literal is copied over spaces.",
 [U8,UT],"write proxy, which leaves the iterator on the last octet written, and the increment that follows")
p("C07","Text that passes the bounds check can be iterated without leaving it",
 "For any octets whatsoever, if the bounds check accepts them then no sequence of increments, dereferences and comparisons starting at the beginning, and no sequence of decrements starting at the end and stopping at the beginning, ever reads an octet outside of the text or moves past its ends. Either way the other end is reached in at most as many steps as there are octets.",
 ["inputs","histories"],"every octet string accepted by the bounds check, every number of steps",
 "Tests only check the return value of the bounds check for fixed literals; nothing iterates malformed text.",
 [UB,U8,UT],"bounds check of the first and last octets versus the octet counts the iterator trusts")
p("C18","Text that passes the bounds check can be segmented and normalized safely",
 "For any octets whatsoever, if the bounds check accepts them then iterating their graphemes, constructing a grapheme iterator at any position, truncating, appending any range and normalizing to any form ends, reads nothing outside of the text, does not modify it, and yields consecutive graphemes inside of the text, never more of them than octets.",
 ["inputs"],"every octet string accepted by the bounds check, well-formed or not, every position in it",
 "No test has malformed octets in the middle of a text.",
 [UB,U8,GI,ES],"grapheme iterator, append and the UTF-8 iterator it uses, on sequences that are too short, too long or have no start")
p("C08","Results never depend on memory outside of the text",
 "Iterating, comparing, appending from and segmenting into graphemes a view that covers part of a buffer gives the same results whatever octets precede or follow the view, and never reads them. This includes operations that start at the end of the view.",
 ["inputs"],"every well-formed view, every content of the memory around it",
 "All test strings are NUL terminated, so reading one octet too far goes unnoticed.",
 [U8,U,GI,ES],"places that dereference an iterator at the end of the text")
p("C09","The bounds check accepts exactly the text that cannot overflow",
 "The UTF-8 bounds check returns true if and only if the text is empty, or its first octet is not a continuation octet and no octet in it announces a sequence that extends past the end of the text. It reads no octet outside of the text and modifies nothing.",
 ["inputs"],"every octet string, of any length, including 0xFE and 0xFF octets",
 "Four literals are checked, all NUL terminated, none shorter than the window that is examined.",
 [UB,UT],"first octet test and walk back from the end of the text")
p("C10","Bounds enforcement repairs exactly the damaged ends of a text",
 "Enforcing the bounds replaces with '?' exactly the continuation octets at the start of the text and the sequences cut short by its end (lead octet and the continuation octets that follow it), touches no other octet, and returns true if and only if nothing had to be replaced. The result always passes the bounds check, and any slice of a well-formed text becomes well-formed text.",
 ["inputs"],"every octet string; every slice of every well-formed text",
 "Four literals; none with a truncated sequence of more than one octet, none made only of continuation octets.",
 [UB,UT],"replacement loops at both ends of the text")
p("C11","Appending a codepoint range copies exactly its octets",
 "Appending a range of codepoint iterators of a text in the same encoding, owned string or view, adds exactly the octets of the codepoints from the one containing the first position up to, not including, the one containing the last position, after the previous content. Appending a text to itself gives the same result as appending a copy of it.",
 ["inputs"],"every well-formed UTF-8 and UTF-32 text, every pair of ordered positions also halfway into codepoints, every previous content",
 "One example appends one literal; its output is not even checked by a test.",
 [ES,U,"include/u5e/utf32ne.hpp"],"promotion of encoded iterators to native iterators")
p("C12","Converting UTF-32 text to UTF-8 is exact and appends",
 "Appending UTF-32 text to a UTF-8 text leaves the previous content unchanged and adds exactly the concatenated UTF-8 sequences of its codepoints, in order; decoding the result gives the original codepoints back. Appending UTF-32 text to a UTF-32 text adds exactly the same codepoints.",
 ["inputs","histories"],"every sequence of codepoints U+0000..U+10FFFF, every previous content",
 "Only reached through three normalization literals.",
 [U,ES,U8],"per codepoint buffer in the UTF-8 encoding, native append")
p("C13","Encoded strings are plain values over their native string",
 "Constructing an encoded string from a native string, copying it or assigning it holds exactly the octets of the source, assignment returns the target, and changing one copy never changes the other. The native and codepoint begin and end positions always delimit exactly that content.",
 ["inputs"],"every content, every encoding and storage type offered",
 "Tests construct and copy but never compare the copies, and never assign.",
 [ES],"wrapper around the native string")
p("C14","A codepoint is exactly the 32-bit value it was given",
 "Constructing a codepoint from an integer, copying it, assigning it from a codepoint or an integer and converting it back to an integer keep exactly the 32-bit value, for every value including negative ones and those beyond Unicode. Two codepoints, or a codepoint and an integer on either side, compare equal if and only if the values are equal. A default constructed codepoint is U+0000, assignment returns its target, and copies are independent.",
 ["inputs"],"every pair of 32-bit integers",
 "The tests compare one or two codepoints that fit in 16 bits.",
 ["include/u5e/codepoint.hpp","include/u5e/codepoint_traits.hpp"],"value wrapper with conversions and comparisons")
p("C15","Standard algorithms see a text as the sequence of its codepoints",
 "Any standard algorithm for bidirectional iterators, run over the codepoint iterators of a text (UTF-8 or UTF-32, owned string or view, constant or mutable), gives the result it gives over an array of the text's codepoints: counting, copying, searching, comparing, reversing, advancing. Positions that are kept, and copies of them, denote the same codepoint whatever is done with other iterators.",
 ["inputs"],"every well-formed text, every value or pattern searched, every pair of positions kept",
 "The tests advance and dereference by hand over one literal; no algorithm of the standard library is ever used but one reverse iteration.",
 [U8,ES],"iterator traits, increments and comparisons of the UTF-8 iterators")
p("C16","Octets are classified as UTF-8 defines them",
 "For every octet, it is classified as standing for itself, as a continuation or as the start of a sequence exactly as UTF-8 defines it, and the length announced by a start octet is the number of its leading one bits. For every value from 0 to 2^31-1 the number of octets needed is that of the shortest sequence that can hold it.",
 ["inputs"],"every octet, every value",
 "Eight octets and eight values are tested.",
 [UT],"bit masks and thresholds")
p("C17","UTF-8 handling does not depend on the signedness of char",
 "Where plain char is unsigned, as on ARM or with -funsigned-char, encoding, decoding, iterating in both directions, comparing, checking and repairing bounds, appending and converting give exactly the results they give where it is signed, which are those of the properties of the UTF-8 text.",
 ["configurations","inputs"],"both kinds of plain char, every text",
 "The tests run on one platform, where char is signed.",
 [UT,U8,UB,U],"octets handled as char")
p("G01","Grapheme cluster break value of every codepoint follows the database",
 "For every integer, the grapheme cluster break property is the value assigned by Unicode 9.0 to that codepoint, and OTHER for every codepoint or integer it does not list.",
 ["inputs"],"every 32-bit integer",
 "Not tested directly; only a few ASCII letters and one combining mark are ever resolved.",
 [PR+"grapheme_cluster_break.cpp",PR+"grapheme_cluster_break_data.hpp"],"binary search over the range table")
p("G02","Grapheme boundary decision follows the pairwise rules for every pair",
 "For every ordered pair of codepoints, whether there is a grapheme boundary between them is what rules GB3 to GB13 and GB999 of Unicode 9.0 give, in that order of precedence, when read over just the two adjacent codepoints. As documented, that pairwise reading never separates two regional indicators and never separates an emoji modifier from a preceding extend codepoint.",
 ["inputs"],"every ordered pair of codepoints",
 "Tests only exercise letter/letter and letter/mark pairs: 2 of 324 pairs of classes.",
 [GI,"include/u5e/props/grapheme_cluster_break.hpp"],"is_grapheme_boundary")
p("G03","Grapheme iteration partitions the text at exactly the boundaries",
 "Iterating the graphemes of any well-formed text, UTF-8 or UTF-32, owned string or view, yields non-empty consecutive graphemes which together cover every codepoint of the text exactly once, and two adjacent codepoints are in different graphemes if and only if there is a grapheme boundary between them. The iteration compares equal to the end exactly after the last grapheme, and an empty text has no grapheme.",
 ["inputs"],"every well-formed text in both encodings",
 "One literal of five codepoints in each encoding.",
 [GI,"include/u5e/basic_grapheme.hpp",ES],"find_end_of_grapheme and iterator increment")
p("G04","A grapheme iterator built at a position covers the grapheme there",
 "A grapheme iterator constructed at any position of a well-formed text, also halfway into a codepoint or at the end, denotes exactly the grapheme of the forward iteration that contains that position: it starts where that grapheme starts and ends where it ends, and continues with the graphemes that follow. At the end it equals the end.",
 ["inputs"],"every well-formed text, every position in it",
 "Only positions at the beginning and the end are constructed in tests.",
 [GI],"find_start_of_grapheme and find_end_of_grapheme")
p("G05","Grapheme iterators are equal exactly when on the same grapheme",
 "Two grapheme iterators over the same text compare equal if and only if they denote the same grapheme or both are at the end; compared with a codepoint iterator, equality holds if and only if that position is inside the grapheme, or both are at the end. Inequality is always the negation.",
 ["inputs"],"every well-formed text, every pair of positions",
 "Only compared with the end in a loop over one literal.",
 [GI],"operator== and operator!= of the grapheme iterator")
p("G06","Truncating on a grapheme boundary keeps exactly the whole graphemes",
 "Appending the range between two grapheme iterators of a text copies exactly the octets from the start of the first one's grapheme to the start of the last one's grapheme, for UTF-8 and UTF-32 and for owned strings and views. In particular a text truncated at an arbitrary position is the longest run of whole graphemes before the grapheme at that position.",
 ["inputs"],"every well-formed text, every pair of ordered positions",
 "No test; the one example only uses ASCII before the truncation point.",
 [ES,GI],"append of grapheme iterators")
p("D01","Canonical combining class of every codepoint follows the database",
 "For every integer, the canonical combining class is the one Unicode 9.0 assigns to that codepoint, and 0 for every codepoint or integer it does not list.",
 ["inputs"],"every 32-bit integer",
 "Six codepoints are tested out of 814 listed.",
 [PR+"canonical_combining_class.cpp",PR+"canonical_combining_class_data.hpp"],"binary search over the table")
p("D02","Canonical decomposition mapping of every codepoint follows the database",
 "For every integer, the canonical decomposition lookup yields the zero-terminated full (recursive) canonical decomposition Unicode 9.0 gives for that codepoint, and nothing if it has none. Decomposing a codepoint appends that sequence, or the codepoint itself when it has no decomposition, or the arithmetic decomposition of a Hangul syllable, and returns how many codepoints were appended.",
 ["inputs"],"every 32-bit integer, every previous output content",
 "Three codepoints are tested out of 2060 plus 11172 Hangul syllables.",
 [PR+"canonical_decomposition_mapping.cpp",PR+"canonical_decomposition_mapping_data.hpp","include/u5e/codepoint_decomposition.hpp","include/u5e/canonical_decomposition.hpp"],"binary search over the table, copy up to the terminator")
p("D03","Compatibility decomposition mapping of every codepoint follows the database",
 "For every integer, the compatibility decomposition lookup yields the zero-terminated full (recursive) compatibility decomposition Unicode 9.0 gives for that codepoint, and nothing if it has none. Decomposing a codepoint appends that sequence, or the codepoint itself when it has no decomposition, or the arithmetic decomposition of a Hangul syllable, and returns how many codepoints were appended.",
 ["inputs"],"every 32-bit integer, every previous output content",
 "Three codepoints are tested.",
 [PR+"compatibility_and_canonical_decomposition_mapping.cpp",PR+"compatibility_and_canonical_decomposition_mapping_data.hpp","include/u5e/codepoint_decomposition.hpp","include/u5e/compatibility_and_canonical_decomposition.hpp"],"binary search over the table, copy up to the terminator")
p("D04","Canonical composition of every pair follows the database",
 "For every ordered pair of integers, the composition lookup succeeds if and only if the pair is the canonical decomposition of a primary composite of Unicode 9.0 (composition exclusions, singletons and non-starter decompositions excluded, Hangul syllables included), and then yields that composite. When it fails it does not touch the result.",
 ["inputs"],"every ordered pair of 32-bit integers",
 "Three pairs are tested out of 2^64.",
 [PR+"canonical_composition_mapping.cpp",PR+"canonical_composition_mapping_data.hpp"],"binary search over pairs")
p("D05","Decomposing appends exactly what the resolver yields, for any resolver",
 "Decomposing a codepoint with any user supplied resolver (function, function object or lambda) asks it about that codepoint only, and appends exactly the zero-terminated sequence it yields to a UTF-32 output, whatever its length and values. It appends the codepoint itself when the resolver yields nothing, the arithmetic decomposition for a Hangul syllable without a mapping, returns how many codepoints were appended, and changes neither the previous output nor the mapping.",
 ["inputs"],"every codepoint, every mapping sequence, every previous output content",
 "The tests only use the two built-in tables, with sequences of at most two codepoints.",
 ["include/u5e/codepoint_decomposition.hpp"],"scan for the terminator and append of a view over the mapping")
N="include/u5e/"
nf=lambda x:[N+"normalization_form_%s.hpp"%x,N+"canonical_combining_order.hpp",N+"codepoint_decomposition.hpp",N+"filter.hpp"]
p("N01","Normalization form D is exact",
 "Normalizing any text grapheme by grapheme to form D, UTF-8 or UTF-32, appends exactly the Unicode 9.0 NFD of that text to the output: full canonical decomposition with the non-starters between starters stably ordered by combining class.",
 ["inputs"],"every sequence of codepoints","Two literals with one accent each.",nf("d")+[PR],"decompose, order, append")
p("N02","Normalization form C is exact",
 "Normalizing any text grapheme by grapheme to form C, UTF-8 or UTF-32, appends exactly the Unicode 9.0 NFC of that text to the output, including marks that compose with a starter they do not directly follow and chains of compositions.",
 ["inputs"],"every sequence of codepoints","Two literals with one accent each.",nf("c")+[N+"canonical_composition.hpp",PR],"decompose, order, recompose, append")
p("N03","Normalization form KD is exact",
 "Normalizing any text grapheme by grapheme to form KD, UTF-8 or UTF-32, appends exactly the Unicode 9.0 NFKD of that text to the output.",
 ["inputs"],"every sequence of codepoints","Two literals.",nf("kd")+[PR],"compatibility decompose, order, append")
p("N04","Normalization form KC is exact",
 "Normalizing any text grapheme by grapheme to form KC, UTF-8 or UTF-32, appends exactly the Unicode 9.0 NFKC of that text to the output.",
 ["inputs"],"every sequence of codepoints","One literal.",nf("kc")+[N+"canonical_composition.hpp",PR],"compatibility decompose, order, recompose, append")
p("N05","Canonical ordering is stable and never crosses starters",
 "The ordering step of every normalization form sorts each maximal run of non-starters by combining class, keeps codepoints of equal class in their original order, and moves nothing into, out of or across the starters. This holds for any combination of combining classes and for graphemes of any length.",
 ["inputs"],"every sequence of combining classes",
 "At most two marks are ever sorted in the tests.",
 [N+"canonical_combining_order.hpp",N+"normalization_form_d.hpp",N+"normalization_form_c.hpp",N+"normalization_form_kd.hpp",N+"normalization_form_kc.hpp"],"sort of the decomposed grapheme")
p("N06","In-place canonical composition follows the composition algorithm",
 "For any canonically ordered UTF-32 text, in-place composition leaves before the returned position exactly the result of the Unicode canonical composition algorithm (every mark tried against the last starter unless blocked, composites composed further) and adds the number of compositions performed to the counter. It never writes outside of the text.",
 ["inputs"],"every sequence of codepoints in canonical order",
 "Only pairs that are adjacent are composed in the tests.",
 [N+"canonical_composition.hpp",PR+"canonical_composition_mapping.cpp"],"in-place rewrite with separate read and write positions")
p("N07","Normalization forms are idempotent and mutually consistent",
 "Normalizing an already normalized text to the same form changes nothing, and the forms agree with each other: D of C equals D, C of D equals C, KD of D and of C equal KD, and KC of C and of KD equal KC.",
 ["inputs","histories"],"every text, every two-step sequence of normalizations",
 "No test normalizes twice.",nf("d")+nf("c")[:1]+[PR],"composition of the normalization functions")
p("N08","Normalization gives the same text in every encoding",
 "Normalizing a UTF-8 text gives exactly the UTF-8 encoding of the normalization of the same text in UTF-32, whatever mix of input and output encodings and of owned strings and views is used, and the returned counts are the same.",
 ["inputs"],"every text, every combination of encodings offered",
 "No test compares encodings.",nf("d")+[U,ES],"normalization templates over input and output storage types")
p("N09","Normalization returns the output length and only appends",
 "The number returned by filtering a text through any normalization form is exactly the number of codepoints appended to the output. Whatever the output held before is left unchanged in front of them, and the input text is not modified.",
 ["inputs","histories"],"every text, every previous content of the output",
 "Counts are compared for a few literals, always with an empty output.",nf("d")+nf("c")[:1]+nf("kd")[:1]+nf("kc")[:1],"counter of the filter and of the compositions")
p("F01","Filtering calls the operation once per element, in order, and sums",
 "Filtering a range calls the operation exactly once for each element, in order, with that element and the caller's output object, and returns the sum of the values returned by the operation. An empty range calls nothing and returns zero.",
 ["inputs"],"every range length, every element value, every returned value, codepoint and grapheme iterators",
 "One literal with a constant return value of one.",
 [N+"filter.hpp"],"filter loop")
p("H01","Results never depend on earlier calls",
 "Property lookups, boundary decisions and normalizations are functions of their arguments only: after any earlier calls with any arguments, a call returns exactly what it returns in a fresh process. Earlier results already handed out stay valid and unchanged.",
 ["histories","inputs"],"every pair of consecutive calls with arbitrary arguments",
 "Every test runs a fixed sequence of calls; the outcome of a call after another is never compared.",
 [PR,N+"normalization_form_d.hpp",N+"normalization_form_c.hpp",GI],"static tables, searched without state")
p("H02","Threads working on their own texts never interfere",
 "Property lookups, bounds checks, iteration, appending, conversion and normalization called at the same time from any threads, each on its own objects or reading the same text, have no data race. Whatever a call writes is either its own or protected against the other threads, so every call gives the result it gives alone.",
 ["schedules","inputs"],"every interleaving of two calls, every text and every argument",
 "No test starts a thread, and a race shows up only in rare schedules.",
 [PR,N+"normalization_form_d.hpp",N+"normalization_form_c.hpp",GI,ES],"functions without shared mutable state")
p("M01","Running out of memory loses nothing",
 "Normalization, appending, conversion, decomposition and the in-place steps release all the memory they took, except what their output holds. If any memory allocation fails, the caller gets std::bad_alloc or the complete result; nothing is leaked or freed twice, the input is unchanged and the previous content of the output is still at its front. A later call with enough memory gives the complete result.",
 ["fault_sequences","inputs"],"every subset of the allocations of a call failing, every text, every previous output content",
 "No test makes an allocation fail.",
 nf("c")+nf("kc")+[ES,U],"temporary strings owned by automatic objects")
p("T01","Mixing texts of different encodings does not compile",
 "Combining texts of different encodings (appending, comparing or assigning iterators of one to the other without an explicit conversion) is rejected at compile time.",
 ["programs"],"every client program",
 "A test that compiles cannot show that something does not compile.",
 [ES,U,"include/u5e/utf32ne.hpp","include/u5e/encoding_assertion.hpp"],"encoding is a template parameter of the string type")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
