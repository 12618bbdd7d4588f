#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
using namespace u5e;
#ifndef MAXN
#define MAXN 3
#endif
typedef std::experimental::basic_string_view<int> SV32;
#ifdef LONG
static int any(int i) { return i == long_at ? (int)sym_u("v", 32) : (int)long_fill(long_kind, i); }
#else
static int any(int) { return (int)sym_u("v", 32); }
#endif
extern "C" void harness() {
  int n = text_n(MAXN), kind = sym_choice("kind", 4), *v = new int[n]; static const int pres[4] = {0, 1, 13, 16};
  if (kind < 2) {
    Text t; sym_text(t, n); int npre = pres[sym_choice("before", 4)]; oct pre[16]; for (int i = 0; i < npre; i++) pre[i] = sym_u("octet", 8);
    for (int i = 0; i < n; i++) v[i] = (int)t.cp[i]; utf8_string out{std::string((char*)pre, npre)};
    if (kind == 0) { utf32ne_string s{std::basic_string<int>(v, n)}; utf8_string& r = out.append_from_utf32ne<std::basic_string<int>>(s.native_string.cbegin(), s.native_string.cend()); sym_assert(&r == &out, "converting returns the target"); for (int i = 0; i < n; i++) sym_assert(s.native_string[i] == v[i], "source after converting"); }
    else { utf32ne_string_view s{SV32(v, n)}; out.append_from_utf32ne<SV32>(s.codepoint_cbegin(), s.codepoint_cend()); }
    sym_observe("len", out.native_string.size()); sym_assert(out.native_string.size() == size_t(npre + t.len), "length after converting");
    sym_assert(sym_memeq(out.native_string.data(), pre, npre), "previous content after converting"); sym_assert(sym_memeq(out.native_string.data() + npre, t.o, t.len), "octets after converting");
    utf8_string::const_iterator it(out.native_string.cbegin() + npre); for (int i = 0; i < n; i++, ++it) sym_assert((uint32_t)codepoint(*it).value == t.cp[i], "codepoint decoded again"); sym_assert(it == out.codepoint_cend(), "end of the converted text");
    sym_reach("converted");
  } else {
    int npre = sym_choice("before", 4), w[4]; for (int i = 0; i < npre; i++) w[i] = (int)sym_u("before", 32); for (int i = 0; i < n; i++) v[i] = (int)any(i); utf32ne_string out{std::basic_string<int>(w, npre)};
    if (kind == 2) { utf32ne_string s{std::basic_string<int>(v, n)}; out.append_from_utf32ne<std::basic_string<int>>(s.native_string.cbegin(), s.native_string.cend()); }
    else { utf32ne_string_view s{SV32(v, n)}; out.append_from_utf32ne<SV32>(s.codepoint_cbegin(), s.codepoint_cend()); }
    sym_assert((int)out.native_string.size() == npre + n, "length after copying UTF-32"); for (int i = 0; i < npre + n; i++) { sym_observe("v", (unsigned)out.native_string[i]); sym_assert(out.native_string[i] == (i < npre ? w[i] : v[i - npre]), "codepoint after copying UTF-32"); }
    sym_reach("copied");
  }
}
