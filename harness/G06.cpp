#include "grapheme.hpp"
#ifndef MAXN
#define MAXN 2
#endif
template <class S, class OUT, class CH> static void cut(S& src, const Text& t, OUT out, const CH* pre, int npre) {
  Part p; partition(p, t.cp, t.n); typedef decltype(src.s) ES; typedef basic_grapheme_iterator<ES> GI; auto B = src.s.codepoint_cbegin(); auto E = src.s.codepoint_cend();
  int a = sym_pos("first", src.positions() + 1), z = a + sym_pos("more", src.positions() + 1 - a); int ga = p.of[src.cpAt(a)], gz = p.of[src.cpAt(z)];
  GI first(B, E, src.at(a)), last(B, E, src.at(z)); if (sym_choice("stepped", 2)) { first = src.s.grapheme_begin(); for (int i = 0; i < ga; i++) ++first; last = first; for (int i = ga; i < gz; i++) ++last; }
  typedef decltype(src.s.native_string) NS; OUT& r = out.template append<NS>(first, last); sym_assert(&r == &out, "append returns the target");
  int from = src.startOf(p.start[ga]), to = src.startOf(p.start[gz]); sym_observe("len", out.native_string.size()); sym_assert((int)out.native_string.size() == npre + to - from, "length after appending graphemes");
  for (int i = 0; i < npre; i++) sym_assert((CH)out.native_string[i] == pre[i], "previous content after appending graphemes");
  for (int i = from; i < to; i++) { CH x = (CH)out.native_string[npre + i - from], y = src.wide ? (CH)t.cp[i] : (CH)t.o[i]; sym_assert(x == y, "unit appended"); }
  sym_reach(from == to ? "nothing" : "appended");
}
struct Cut {
  template <class S> void narrow(S& src, const Text& t) { oct pre[3]; int n = sym_choice("before", 2) * 3; for (int i = 0; i < n; i++) pre[i] = sym_u("octet", 8); cut(src, t, utf8_string(std::string((char*)pre, n)), pre, n); }
  template <class S> void wide(S& src, const Text& t) { int pre[3]; int n = sym_choice("before", 2) * 3; for (int i = 0; i < n; i++) pre[i] = (int)sym_u("before", 32); cut(src, t, utf32ne_string(std::basic_string<int>(pre, n)), pre, n); }
  void operator()(Src<utf8_string>& s, const Text& t) { narrow(s, t); } void operator()(Src<utf8_string_view>& s, const Text& t) { narrow(s, t); }
  void operator()(Src<utf32ne_string>& s, const Text& t) { wide(s, t); } void operator()(Src<utf32ne_string_view>& s, const Text& t) { wide(s, t); } };
extern "C" void harness() { tables(); each_source(utext_n(MAXN), Cut()); }
