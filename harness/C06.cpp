#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <algorithm>
using namespace u5e;
#ifndef MAXN
#define MAXN 3
#endif
// what the buffer held: well-formed text of at least as many octets
static int old_text(oct* o, int need) {
  static const int shape[5][8] = {{1, 1, 1, 1, 1, 1, 1, 1}, {4, 4, 4, 4, 4, 4, 4, 4}, {3, 3, 3, 3, 3, 3, 3, 3}, {2, 4, 1, 3, 2, 4, 1, 3}, {3, 1, 2, 4, 2, 1, 4, 2}};
  int k = sym_choice("old", 5), len = 0; for (int i = 0; len < need || i == 0; i++) { int l = shape[k][i % 8]; ref_put(sym_cp("oldcp", l), l, o + len); len += l; } return len;
}
template <class IT, class CH> static void run(IT first, CH* data, int blen, const oct* old, const Text& t) {
  oct want[64]; memcpy(want, old, blen); memcpy(want, t.o, t.len);
  switch (sym_choice("how", 3)) {
    case 0: { utf8_iterator<IT> it(first); for (int i = 0; i < t.n; i++) { utf8_iterator<IT> at = it; *it = codepoint((int)t.cp[i]);
          codepoint c = *it; sym_observe("c", (unsigned)c.value); sym_assert((uint32_t)c.value == t.cp[i], "codepoint read back between write and increment"); sym_assert(it == at && at == it && !(it != at), "iterator compares equal with the codepoint just written");
          ++it; sym_assert(it.raw_iterator_ - first == t.off[i + 1], "increment after a write lands behind it"); } break; }
    case 1: { utf8_iterator<IT> it(first); for (int i = 0; i < t.n; i++) { *it = codepoint((int)t.cp[i]); utf8_iterator<IT> w = it++; sym_assert((uint32_t)codepoint(*w).value == t.cp[i], "codepoint at the position returned by post-increment"); } sym_assert(it.raw_iterator_ - first == t.len, "end of the writing"); break; }
    default: { codepoint src[MAXCP]; for (int i = 0; i < t.n; i++) src[i] = codepoint((int)t.cp[i]); utf8_iterator<IT> e = std::copy(src, src + t.n, utf8_iterator<IT>(first)); sym_assert(e.raw_iterator_ - first == t.len, "end returned by the copy algorithm"); } }
  for (int i = 0; i < blen; i++) sym_observe("o", (oct)data[i]);
  sym_assert(sym_memeq(data, want, blen), "octets after writing"); sym_reach("written"); if (t.len < blen) sym_reach("rest");
}
extern "C" void harness() {
  Text t; int n = sym_choice("n", MAXN + 1); sym_text(t, n); oct old[64]; int len = old_text(old, t.len);
  switch (sym_choice("job", 3)) {
    case 0: { char* b = exact(old, len); run(b, b, len, old, t); break; }
    case 1: { unsigned char* b = (unsigned char*)exact(old, len); run(b, b, len, old, t); break; }
    default: { utf8_string s{std::string((char*)old, len)}; run(s.native_string.begin(), &s.native_string[0], len, old, t); } }
}
