#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <vector>
using namespace u5e;
static const int N = 16;
template <class IT, class CH> static void write_one(CH* b, IT first) {
  // the destination holds some codepoint where it is written to, the other octets are arbitrary
  oct before[N]; int at = sym_choice("at", 5), had = 1 + sym_choice("had", 4);
  for (int i = 0; i < N; i++) before[i] = sym_u("octet", 8);
  ref_put(sym_cp("old", had), had, before + at); memcpy(b, before, N);
  int n = 1 + sym_choice("octets", 4); uint32_t c = sym_cp("cp", n); sym_observe("cp", c);
  utf8_iterator<IT> it(first + at); *it = codepoint((int)c);
  oct want[N]; memcpy(want, before, N); ref_put(c, n, want + at);
  for (int i = 0; i < N; i++) sym_observe("o", (oct)b[i]);
  sym_assert(sym_memeq(b, want, N), "octets written through the iterator");
  sym_reach("written");
}
static void j_char() { char b[N]; write_one<char*>(b, b); }
static void j_uchar() { unsigned char b[N]; write_one<unsigned char*>(b, b); }
static void j_schar() { signed char b[N]; write_one<signed char*>(b, b); }
static void j_string() { std::string s(N, 'x'); write_one<std::string::iterator>(&s[0], s.begin()); }
static void j_convert() {
  int n = 1 + sym_choice("octets", 4), pre = sym_choice("pre", 3); uint32_t c = sym_cp("cp", n);
  std::string p; oct want[16]; for (int i = 0; i < pre; i++) { want[i] = sym_u("octet", 8); p.push_back((char)want[i]); }
  ref_put(c, n, want + pre); utf8_string out{p}; int v[1] = {(int)c};
  utf32ne_string_view in{std::experimental::basic_string_view<int>(v, 1)};
  out.append_from_utf32ne<std::experimental::basic_string_view<int>>(in.codepoint_cbegin(), in.codepoint_cend());
  sym_assert(out.native_string.size() == size_t(pre + n), "length after converting");
  sym_observe("len", out.native_string.size());
  sym_assert(sym_memeq(out.native_string.data(), want, pre + n), "octets after converting");
  sym_reach("converted");
}
extern "C" void harness() {
  switch (sym_choice("job", 5)) { case 0: j_char(); break; case 1: j_uchar(); break; case 2: j_schar(); break; case 3: j_string(); break; default: j_convert(); }
}
