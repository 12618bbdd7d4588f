#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
using namespace u5e;
#ifndef MAXN
#define MAXN 2
#endif
typedef std::experimental::string_view SV; typedef std::experimental::basic_string_view<int> SV32;
static void expect(utf8_string& r, utf8_string& out, const oct* pre, int npre, const oct* add, int nadd) {
  sym_assert(&r == &out, "append returns the target"); sym_observe("len", out.native_string.size()); sym_assert(out.native_string.size() == size_t(npre + nadd), "length after appending");
  sym_assert(sym_memeq(out.native_string.data(), pre, npre), "previous content after appending"); sym_assert(sym_memeq(out.native_string.data() + npre, add, nadd), "octets appended");
}
static void j8() {
  Text t; int n = text_n(MAXN); sym_text(t, n); int p = sym_pos("first", t.len + 1), q = p + sym_pos("more", t.len + 1 - p); int a = t.off[t.cpAt(p)], z = t.off[t.cpAt(q)];
  int kind = sym_choice("kind", 4);
  if (kind == 3) { // to itself
    utf8_string s{std::string((char*)t.o, t.len)}; if (sym_choice("room", 2)) s.native_string.reserve(40);
    utf8_string& r = s.append(utf8_string::const_iterator(s.native_cbegin() + p), utf8_string::const_iterator(s.native_cbegin() + q)); expect(r, s, t.o, t.len, t.o + a, z - a); sym_reach("itself"); return; }
  static const int pres[4] = {0, 1, 14, 16}; int npre = pres[sym_choice("before", 4)]; oct pre[16]; for (int i = 0; i < npre; i++) pre[i] = sym_u("octet", 8);
  utf8_string out{std::string((char*)pre, npre)};
  if (kind == 0) { utf8_string s{std::string((char*)t.o, t.len)}; utf8_string& r = out.append(utf8_string::const_iterator(s.native_cbegin() + p), utf8_string::const_iterator(s.native_cbegin() + q)); expect(r, out, pre, npre, t.o + a, z - a); sym_assert(sym_memeq(s.native_string.data(), t.o, t.len), "source after appending"); }
  else if (kind == 1) { char* b = exact(t.o, t.len); utf8_string_view v{SV(b, t.len)}; utf8_string& r = out.append<SV>(utf8_string_view::const_iterator(v.native_cbegin() + p), utf8_string_view::const_iterator(v.native_cbegin() + q)); expect(r, out, pre, npre, t.o + a, z - a); }
  else { utf8_string s{std::string((char*)t.o, t.len)}; utf8_string& r = out.append<std::string>(utf8_string::const_iterator(s.native_cbegin() + p), utf8_string::const_iterator(s.native_cbegin() + q)); expect(r, out, pre, npre, t.o + a, z - a); }
  sym_reach(p != t.off[t.cpAt(p)] ? "halfway" : "appended");
}
static void j32() {
  int n = sym_choice("n", 6), v[6]; for (int i = 0; i < n; i++) v[i] = (int)sym_u("v", 32); int p = sym_choice("first", n + 1), q = p + sym_choice("more", n + 1 - p), npre = sym_choice("before", 5), w[12]; for (int i = 0; i < npre; i++) w[i] = (int)sym_u("before", 32);
  typedef utf32ne_string::const_iterator CI; utf32ne_string out{std::basic_string<int>(w, npre)}; int kind = sym_choice("kind", 3);
  if (kind == 0) { utf32ne_string s{std::basic_string<int>(v, n)}; out.append(CI(s.native_string.cbegin() + p), CI(s.native_string.cbegin() + q)); }
  else if (kind == 1) { int* b = new int[n]; memcpy(b, v, n * sizeof(int)); utf32ne_string_view s{SV32(b, n)}; out.append<SV32>(s.codepoint_cbegin() + p, s.codepoint_cbegin() + q); }
  else { for (int i = 0; i < n; i++) w[i] = v[i]; npre = n; out.native_string = std::basic_string<int>(v, n); out.append(CI(out.native_string.cbegin() + p), CI(out.native_string.cbegin() + q)); sym_reach("itself"); }
  sym_assert((int)out.native_string.size() == npre + q - p, "length after appending UTF-32"); for (int i = 0; i < npre; i++) sym_assert(out.native_string[i] == w[i], "previous content after appending UTF-32");
  for (int i = p; i < q; i++) { sym_observe("v", (unsigned)out.native_string[npre + i - p]); sym_assert(out.native_string[npre + i - p] == v[i], "codepoint appended"); }
  sym_reach("appended");
}
extern "C" void harness() { if (sym_choice("encoding", 2)) j32(); else j8(); }
