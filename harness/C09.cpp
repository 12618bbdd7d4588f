#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_bounds.hpp>
using namespace u5e;
#ifndef MAXN
#define MAXN 10
#endif
// number of octets a lead octet announces
extern "C" NI int merge_announced(int o) { return o >= 0xff ? 8 : o >= 0xfe ? 7 : o >= 0xfc ? 6 : o >= 0xf8 ? 5 : o >= 0xf0 ? 4 : o >= 0xe0 ? 3 : o >= 0xc0 ? 2 : 1; }
template <class RAW> static void run(RAW b, const oct* o, int n) {
  bool r = utf8_bounds<RAW>::check(b, b + n); int want = 1;
  for (int i = 0; i < n; i++) { want &= merge_announced(o[i]) <= n - i; if (i == 0) want &= (o[0] & 0xc0) != 0x80; }
  sym_observe("accepted", r); sym_assert(r == (want != 0), "verdict of the bounds check");
  if (n) sym_assert(sym_memeq(&*b, o, n), "the bounds check changes the text"); 
  if (r) sym_reach("accepted"); else sym_reach("rejected");
}
extern "C" void harness() {
  
#ifdef LONGRUN
  // a long run of the same octets with arbitrary ones at both ends
  static const oct fill[3][3] = {{'a', 'a', 'a'}, {0x80, 0xbf, 0x80}, {0xe2, 0x82, 0xac}}; const oct* g = fill[sym_choice("fill", 3)];
  int n = sym_choice("n", 2) ? MAXN : MAXN / 2 + 1; oct o[MAXN + 1]; for (int i = 0; i < n; i++) o[i] = i < 2 || i >= n - LONGRUN ? (oct)sym_u("octet", 8) : g[i % 3];
#else
  int n = sym_choice("n", MAXN + 1); oct o[MAXN + 1]; for (int i = 0; i < n; i++) o[i] = sym_u("octet", 8);
#endif
  switch (sym_choice("job", 4)) {
    case 0: { char* b = exact(o, n); run<const char*>(b, o, n); break; }
    case 1: { unsigned char* b = (unsigned char*)exact(o, n); run<unsigned char*>(b, o, n); break; }
    case 2: { signed char* b = (signed char*)exact(o, n); run<signed char*>(b, o, n); break; }
    default: { std::string s((char*)o, n); run<std::string::const_iterator>(s.cbegin(), o, n); } }
}
