#include "grapheme.hpp"
#ifndef MAXN
#define MAXN 3
#endif
struct Walk { template <class S> void operator()(S& src, const Text& t) {
  Part p; partition(p, t.cp, t.n); typedef basic_grapheme_iterator<decltype(src.s)> GI; GI it = src.s.grapheme_begin(), end = src.s.grapheme_end(); int post = sym_choice("post", 3);
  for (int g = 0; g < p.ng; g++) {
    sym_assert(it != end && !(it == end), "iteration ends before the last grapheme"); auto gr = *it;
    sym_assert(native(gr.codepoint_begin()) - src.s.native_cbegin() == src.startOf(p.start[g]), "start of a grapheme"); sym_assert(native(gr.codepoint_end()) - src.s.native_cbegin() == src.startOf(p.start[g + 1]), "end of a grapheme");
    int k = p.start[g]; for (auto c = gr.codepoint_begin(); c != gr.codepoint_end(); c++, k++) sym_assert((uint32_t)codepoint(*c).value == t.cp[k], "codepoint of a grapheme"); sym_assert(k == p.start[g + 1], "number of codepoints in a grapheme");
    if (post == 2) { GI keep(it), other = src.s.grapheme_end(); other = it; ++it; for (int k = 0; k < 2; k++) { auto was = k ? *keep : *other; sym_assert(native(was.codepoint_begin()) - src.s.native_cbegin() == src.startOf(p.start[g]) && native(was.codepoint_end()) - src.s.native_cbegin() == src.startOf(p.start[g + 1]), "copy of an iterator that moved on"); } }
    else if (post) { GI old = it++; sym_assert(native((*old).codepoint_begin()) - src.s.native_cbegin() == src.startOf(p.start[g]), "post-increment returns the previous grapheme"); } else { GI r = ++it; if (g + 1 < p.ng) sym_assert(native((*r).codepoint_begin()) - src.s.native_cbegin() == src.startOf(p.start[g + 1]), "pre-increment returns the iterator"); else sym_assert(r == end, "pre-increment returns the iterator"); }
    sym_assert(native(gr.codepoint_begin()) - src.s.native_cbegin() == src.startOf(p.start[g]) && native(gr.codepoint_end()) - src.s.native_cbegin() == src.startOf(p.start[g + 1]), "grapheme that is kept while the iterator moves on");
  }
  sym_assert(it == end && !(it != end) && end == it, "iteration does not end after the last grapheme"); sym_assert(it == src.s.codepoint_cend(), "end as a codepoint position"); sym_observe("graphemes", p.ng);
  sym_reach(p.ng == t.n ? "apart" : "together"); if (t.n == 0) sym_reach("empty");
} };
extern "C" void harness() { tables(); each_source(utext_n(MAXN), Walk()); }
