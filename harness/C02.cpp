#include "text.hpp"
#include <u5e/utf8_string.hpp>
using namespace u5e;
static const int N = 20;
// the sequence sits at `at` in a buffer of arbitrary octets
template <class RO, class RW, class CH> static void read_one(CH* b, RO ro, RW rw) {
  int at = sym_choice("at", 3), n = 1 + sym_choice("octets", 6), p = sym_choice("position", n); uint32_t c = sym_cp("cp", n, 0x7fffffff);
  oct o[N]; for (int i = 0; i < N; i++) o[i] = sym_u("octet", 8);
  ref_put(c, n, o + at); memcpy(b, o, N);
  utf8_const_iterator<RO> it(ro + at + p); codepoint v = *it; sym_observe("v", (unsigned)v.value);
  sym_assert((uint32_t)v.value == c, "codepoint read by a const iterator"); sym_assert((uint32_t)codepoint(*it).value == c, "codepoint read again by a const iterator");
  utf8_iterator<RW> mt(rw + at + p); codepoint w = *mt; sym_observe("w", (unsigned)w.value);
  sym_assert((uint32_t)w.value == c, "codepoint read by a mutable iterator"); sym_assert((uint32_t)codepoint(*mt).value == c, "codepoint read again by a mutable iterator");
  sym_assert(sym_memeq(b, o, N), "reading changes the text");
  sym_reach("read");
}
extern "C" void harness() {
  switch (sym_choice("job", 4)) {
    case 0: { char b[N]; read_one<const char*, char*>(b, b, b); break; }
    case 1: { unsigned char b[N]; read_one<const unsigned char*, unsigned char*>(b, b, b); break; }
    case 2: { signed char b[N]; read_one<const signed char*, signed char*>(b, b, b); break; }
    default: { std::string s(N, 'x'); read_one<std::string::const_iterator, std::string::iterator>(&s[0], s.cbegin(), s.begin()); } }
}
