// graphemes, appending and normalization of any octets that pass the bounds check: every access inside, every operation ends
#include "norm.hpp"
#include <u5e/utf8_bounds.hpp>
#ifndef MAXN
#define MAXN 3
#endif
#ifdef OCTETS // some octets of each kind, which make codepoints of each kind
static oct octet() { static const oct a[] = {'a', 13, 0x80, 0x81, 0xbf, 0xcc, 0xcd, 0xe1, 0xe2, 0xf0, 0xfb, 0xfd, 0xfe, 0xff}; uint32_t k = sym_u("octet", 16); sym_assume(k < sizeof a); return a[k]; }
#else
static oct octet() { return sym_u("octet", 8); }
#endif
static oct o[MAXN + 1]; static int n; typedef utf8_string_view V; typedef V::const_iterator IT; typedef basic_grapheme_iterator<V> G;
static int at(IT i, const char* b) { return (int)(i.raw_iterator_ - b); }
extern "C" void harness() {
  norm_tables(); n = sym_choice("n", MAXN + 1); for (int i = 0; i < n; i++) o[i] = octet();
  char* b = exact(o, n); V v{SV(b, n)};
  if (!utf8_bounds<SV::const_iterator>::check(v.native_cbegin(), v.native_cend())) { sym_reach("rejected"); return; }
  int how = sym_choice("how", HOWS); IT e = v.codepoint_cend();
  switch (how) {
    case 0: { // from the beginning to the end
      int last = 0, steps = 0; G g = v.grapheme_begin(), end = v.grapheme_end(); while (g != end) { basic_grapheme<V> x = *g; int s = at(x.codepoint_begin(), b), f = at(x.codepoint_end(), b); sym_assert(s >= last && s <= f && f <= n, "grapheme outside of the text"); last = s; ++g; sym_assert(++steps <= n, "more graphemes than octets"); }
      sym_reach("graphemes"); break; }
    case 1: { // from a position
      int p = sym_choice("position", n + 1); G g(v.codepoint_cbegin(), e, IT(v.native_cbegin() + p)); basic_grapheme<V> x = *g; int s = at(x.codepoint_begin(), b), f = at(x.codepoint_end(), b); sym_assert(s >= 0 && s <= p && s <= f && f <= n, "grapheme outside of the text"); ++g; (void)(g == e); (void)(g != v.grapheme_end());
      utf8_string out; G first = v.grapheme_begin(), last(v.codepoint_cbegin(), e, IT(v.native_cbegin() + p)); out.append<SV>(first, last); sym_assert((int)out.native_string.size() <= n, "truncated text is longer"); sym_reach("position"); break; }
    case 2: { int p = sym_choice("position", n + 1), q = p + sym_choice("length", n + 1); if (q > n) return; utf8_string out; out.append<SV>(IT(v.native_cbegin() + p), IT(v.native_cbegin() + q)); sym_assert((int)out.native_string.size() <= n, "appended text is longer"); sym_reach("append"); break; }
    default: { utf32ne_string out; int k = normalize(how - 3, v, out); sym_assert(k == (int)out.native_string.size(), "returned count"); sym_reach("normalized"); } }
  sym_assert(sym_memeq(b, o, n), "the text has been modified");
}
