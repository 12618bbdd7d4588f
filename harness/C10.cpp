#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_bounds.hpp>
using namespace u5e;
#ifndef MAXN
#define MAXN 6
#endif
extern "C" NI int merge_announced(int o) { return o >= 0xff ? 8 : o >= 0xfe ? 7 : o >= 0xfc ? 6 : o >= 0xf8 ? 5 : o >= 0xf0 ? 4 : o >= 0xe0 ? 3 : o >= 0xc0 ? 2 : 1; }
template <class RAW> static void any(RAW b, const oct* o, int n) {
  bool r = utf8_bounds<RAW>::enforce(b, b + n), again = utf8_bounds<RAW>::check(b, b + n); oct want[MAXN + 1]; int head = 1, cut = 0, intact = 1;
  for (int i = 0; i < n; i++) { int cont = (o[i] & 0xc0) == 0x80, over = merge_announced(o[i]) > n - i; head &= cont; cut = over | (cut & cont); int bad = head | cut; want[i] = (oct)((o[i] & (bad - 1)) | ('?' & -bad)); intact &= !bad; }
  for (int i = 0; i < n; i++) { sym_observe("o", (oct)b[i]); sym_assert((oct)b[i] == want[i], "octet after enforcing the bounds"); }
  sym_observe("r", r); sym_assert(r == (intact != 0), "verdict of enforcing the bounds"); sym_assert(again, "repaired text does not pass the check");
  if (r) sym_reach("intact"); else sym_reach("repaired");
}
#ifdef SLICES
static void slice() {
  Text t; int n = sym_choice("n", SLICES + 1); sym_text(t, n); int p = sym_choice("from", t.len + 1), q = p + sym_choice("octets_taken", t.len + 1 - p); char* b = exact(t.o + p, q - p); bool r = utf8_bounds<char*>::enforce(b, b + (q - p)), whole = true;
  for (int i = p; i < q; i++) { int k = t.cpAt(i); bool in = t.off[k] >= p && t.off[k + 1] <= q; whole &= in; sym_assert((oct)b[i - p] == (in ? t.o[i] : (oct)'?'), "octet of a repaired slice"); }
  sym_assert(r == whole, "verdict on a slice"); sym_reach(whole ? "intact" : "repaired");
}
#endif
extern "C" void harness() {
#ifdef SLICES
  slice();
#else
  
#ifdef LONGRUN
  // a long run of the same octets with arbitrary ones at both ends
  static const oct fill[3][3] = {{'a', 'a', 'a'}, {0x80, 0xbf, 0x80}, {0xe2, 0x82, 0xac}}; const oct* g = fill[sym_choice("fill", 3)];
  int n = sym_choice("n", 2) ? MAXN : MAXN / 2 + 1; oct o[MAXN + 1]; for (int i = 0; i < n; i++) o[i] = i < 2 || i >= n - LONGRUN ? (oct)sym_u("octet", 8) : g[i % 3];
#else
  int n = sym_choice("n", MAXN + 1); oct o[MAXN + 1]; for (int i = 0; i < n; i++) o[i] = sym_u("octet", 8);
#endif
  switch (sym_choice("job", 3)) {
    case 0: { char* b = exact(o, n); any<char*>(b, o, n); break; }
    case 1: { unsigned char* b = (unsigned char*)exact(o, n); any<unsigned char*>(b, o, n); break; }
    default: { std::string s((char*)o, n); any<std::string::iterator>(s.begin(), o, n); } }
#endif
}
