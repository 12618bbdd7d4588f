// views over exactly sized memory: every operation gives the reference result
// and touches nothing in front of the view or behind it
#include "grapheme.hpp"
#include <u5e/utf8_bounds.hpp>
#ifndef MAXN
#define MAXN 2
#endif
template <class IT> static void moveTo(IT& i, IT to, int n) { for (int k = 0; k < n && i != to; k++) ++i; }
template <class S> static void codepoints(Src<S>& src, const Text& t) {
  auto b = src.s.codepoint_cbegin(), e = src.s.codepoint_cend(); auto it = b; int k = 0;
  for (; it != e && k <= t.n; it++, k++) { codepoint c = *it; sym_observe("c", (unsigned)c.value); sym_assert(k < t.n && (uint32_t)c.value == t.cp[k], "codepoint of a view"); sym_assert((it == e) == false && (e == it) == false, "before the end of a view"); }
  sym_assert(k == t.n && it == e && e == it, "end of a view"); 
  for (; k > 0; k--) { --it; sym_assert((uint32_t)codepoint(*it).value == t.cp[k - 1], "codepoint of a view, backwards"); sym_assert(it != e && e != it, "before the end of a view, backwards"); }
  sym_assert(it == b, "begin of a view");
  int p = sym_pos("position", src.positions() + 1), c = src.cpAt(p); auto x = src.at(p); sym_assert((x == e) == (c == t.n) && (e == x) == (c == t.n) && (x != e) == (c != t.n), "position compared with the end of a view"); sym_assert((x == b) == (c == 0 || t.n == 0), "position compared with the begin of a view");
  if (c < t.n) { sym_assert((uint32_t)codepoint(*x).value == t.cp[c], "codepoint at a position of a view"); auto y = x; ++y; sym_assert(native(y) - native(b) == src.startOf(c + 1), "step from a position of a view"); }
  if (c > 0) { auto y = x; --y; sym_assert(native(y) - native(b) == src.startOf(c - 1), "step back from a position of a view"); }
  sym_reach("codepoints");
}
template <class S, class O> static void appended(Src<S>& src, const Text& t, O out) {
  typedef decltype(src.s.native_string) NS; int p = sym_pos("first", src.positions() + 1), q = p + sym_pos("more", src.positions() + 1 - p), a = src.startOf(src.cpAt(p)), z = src.startOf(src.cpAt(q)); int n0 = (int)out.native_string.size();
  out.template append<NS>(src.at(p), src.at(q)); sym_assert((int)out.native_string.size() == n0 + z - a, "length appended from a view"); for (int i = a; i < z; i++) { if (src.wide) sym_assert((uint32_t)out.native_string[n0 + i - a] == t.cp[i], "codepoint appended from a view"); else sym_assert((oct)out.native_string[n0 + i - a] == t.o[i], "octet appended from a view"); }
  sym_reach("append");
}
template <class S> static void graphemes(Src<S>& src, const Text& t) {
  Part p; partition(p, t.cp, t.n); typedef basic_grapheme_iterator<decltype(src.s)> GI; GI it = src.s.grapheme_begin(), end = src.s.grapheme_end(); auto B = src.s.codepoint_cbegin(), E = src.s.codepoint_cend(); int g = 0;
  for (; it != end && g <= p.ng; it++, g++) { sym_assert(g < p.ng, "grapheme behind the end of a view"); auto gr = *it; sym_assert(native(gr.codepoint_begin()) - native(B) == src.startOf(p.start[g]) && native(gr.codepoint_end()) - native(B) == src.startOf(p.start[g + 1]), "grapheme of a view"); }
  sym_assert(g == p.ng && it == end && it == E, "end of the graphemes of a view");
  int w = sym_pos("position", src.positions() + 1), h = p.of[src.cpAt(w)]; GI at(B, E, src.at(w)); sym_assert((at == end) == (h == p.ng) && (end == at) == (h == p.ng), "grapheme position compared with the end of a view");
  sym_assert((at == E) == (h == p.ng), "grapheme compared with the end of a view"); if (h < p.ng) { auto gr = *at; sym_assert(gr.codepoint_begin() == src.at(src.startOf(p.start[h])) && gr.codepoint_end() == src.at(src.startOf(p.start[h + 1])), "grapheme at a position of a view"); ++at; sym_assert((at == end) == (h + 1 == p.ng), "step from a grapheme of a view"); }
  sym_reach("graphemes");
}
extern "C" void harness() {
  tables(); Text t; int n = utext_n(MAXN); t.n = n; int what = sym_choice("what", 3);
  if (sym_choice("wide", 2)) { int* b = new int[n]; for (int i = 0; i < n; i++) b[i] = (int)(t.cp[i] = fill_or_any(i)); Src<utf32ne_string_view> s{utf32ne_string_view(SV32(b, n)), &t, true}; if (what == 0) codepoints(s, t); else if (what == 1) appended(s, t, utf32ne_string(std::basic_string<int>(2, 'x'))); else graphemes(s, t); for (int i = 0; i < n; i++) sym_assert((uint32_t)b[i] == t.cp[i], "content of the view"); }
  else { sym_text(t, n); char* b = exact(t.o, t.len); Src<utf8_string_view> s{utf8_string_view(SV(b, t.len)), &t, false}; if (what == 0) codepoints(s, t); else if (what == 1) appended(s, t, utf8_string(std::string("xy"))); else graphemes(s, t); sym_assert(sym_memeq(b, t.o, t.len), "content of the view"); }
}
