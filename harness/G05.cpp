#include "grapheme.hpp"
#ifndef MAXN
#define MAXN 2
#endif
struct Eq { template <class S> void operator()(S& src, const Text& t) {
  Part p; partition(p, t.cp, t.n); typedef basic_grapheme_iterator<decltype(src.s)> GI; auto B = src.s.codepoint_cbegin(); auto E = src.s.codepoint_cend();
  int w = 0, g = 0; GI x(B, E); if (sym_choice("by", 2)) { g = sym_pos("steps", p.ng + 1); for (int i = 0; i < g; i++) ++x; } else { w = sym_pos("position", src.positions() + 1); x = GI(B, E, src.at(w)); g = p.of[src.cpAt(w)]; }
  int v = sym_pos("other", src.positions() + 1), h = p.of[src.cpAt(v)]; bool same = g == h;
  if (sym_choice("kind", 2)) { GI y(B, E, src.at(v)); bool r = x == y, q = y == x; sym_observe("eq", r); sym_assert(r == same, "equality of grapheme iterators"); sym_assert(q == same, "equality of grapheme iterators is symmetric"); sym_assert((x != y) == !same && (y != x) == !same, "inequality of grapheme iterators"); }
  else { auto y = src.at(v); bool r = x == y; sym_observe("eq", r); sym_assert(r == same, "equality with a codepoint position"); sym_assert((x != y) == !same, "inequality with a codepoint position"); }
  sym_reach(same ? "same" : "different"); if (g == p.ng && same) sym_reach("end");
} };
extern "C" void harness() { tables(); each_source(utext_n(MAXN), Eq()); }
