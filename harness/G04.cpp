#include "grapheme.hpp"
#ifndef MAXN
#define MAXN 2
#endif
struct At { template <class S> void operator()(S& src, const Text& t) {
  Part p; partition(p, t.cp, t.n); typedef basic_grapheme_iterator<decltype(src.s)> GI; int w = sym_pos("position", src.positions() + 1), c = src.cpAt(w), g = p.of[c], z = g < p.ng ? p.start[g + 1] : t.n;
  GI it(src.s.codepoint_cbegin(), src.s.codepoint_cend(), src.at(w)); sym_observe("g", g); if (g == p.ng) { sym_assert(it == src.s.grapheme_end(), "grapheme at the end of the text"); sym_reach("end"); return; } auto gr = *it; auto b = gr.codepoint_begin(), e = gr.codepoint_end();
  sym_assert(b == src.at(src.startOf(p.start[g])), "start of the grapheme at a position"); sym_assert(e == src.at(src.startOf(z)), "end of the grapheme at a position");
  int k = p.start[g]; for (auto i = b; i != e; i++, k++) sym_assert((uint32_t)codepoint(*i).value == t.cp[k], "codepoint of the grapheme at a position"); sym_assert(k == z, "number of codepoints in the grapheme at a position");
  { ++it; int y = g + 1 < p.ng ? p.start[g + 2] : t.n; if (g + 1 < p.ng) { auto nx = *it; sym_assert(nx.codepoint_begin() == src.at(src.startOf(z)) && nx.codepoint_end() == src.at(src.startOf(y)), "next grapheme after the one at a position"); } sym_assert((it == src.s.grapheme_end()) == (g + 1 == p.ng), "end after the grapheme at a position"); sym_reach(c == p.start[g] ? "first" : "later"); if (w != src.startOf(c)) sym_reach("halfway"); }
} };
extern "C" void harness() { tables(); each_source(utext_n(MAXN), At()); }
