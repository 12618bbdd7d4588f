#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
using namespace u5e;
typedef std::experimental::string_view SV; typedef std::experimental::basic_string_view<int> SV32;
#ifdef LONG
static const int len[3] = {2, 31, LONG}, NLEN = 3, MAXL = LONG + 1;
#else
static const int len[6] = {0, 1, 7, 15, 16, 33}, NLEN = 6, MAXL = 34;
#endif
template <class IT> struct raw_of { static IT of(IT i) { return i; } };
template <class R> struct raw_of<utf8_iterator<R>> { static R of(utf8_iterator<R> i) { return i.raw_iterator_; } };
template <class R> struct raw_of<utf8_const_iterator<R>> { static R of(utf8_const_iterator<R> i) { return i.raw_iterator_; } };
template <class IT> static auto rawit(IT i) { return raw_of<IT>::of(i); }
// the string holds exactly these units and its positions delimit them
template <class ES, class U> static void holds(ES& s, const U* u, int n) {
  sym_assert((int)s.native_string.size() == n, "length of the content"); for (int i = 0; i < n; i++) sym_assert((U)s.native_string[i] == u[i], "content");
  sym_assert(s.native_end() - s.native_begin() == n && s.native_cend() - s.native_cbegin() == n, "native positions delimit the content"); sym_assert(s.native_begin() == s.native_string.begin() && s.native_cbegin() == s.native_string.cbegin(), "native begin is the begin of the content");
  sym_assert(rawit(s.codepoint_begin()) == s.native_string.begin() && rawit(s.codepoint_end()) == s.native_string.end(), "codepoint positions delimit the content"); sym_assert(rawit(s.codepoint_cbegin()) == s.native_string.cbegin() && rawit(s.codepoint_cend()) == s.native_string.cend(), "const codepoint positions delimit the content");
  auto it = s.native_cbegin(); for (int i = 0; i < n; i++, ++it) sym_assert((U)*it == u[i], "content between the native positions");
}
template <class ES, class U> static void val(const U* a, int na, const U* b, int nb, int bits) {
  typedef decltype(ES().native_string) NS; typedef typename NS::value_type CH; NS src((const CH*)a, na); const ES x(src); ES x1(src); holds(x1, a, na);
  if (na) { src[0] = (CH)~src[0]; holds(x1, a, na); src[0] = (CH)~src[0]; }
  int how = sym_choice("how", 4);
  if (how == 0) { ES y(x1); holds(y, a, na); if (na) { y.native_string[na - 1] = (CH)sym_u("new", bits); } y.native_string.push_back((CH)sym_u("new", bits)); holds(x1, a, na); sym_assert((int)y.native_string.size() == na + 1, "copy after changing it"); }
  else if (how == 1) { ES y(NS((const CH*)b, nb)); ES& r = (y = x1); sym_assert(&r == &y, "assignment returns the target"); holds(y, a, na); holds(x1, a, na); if (na) x1.native_string[0] = (CH)sym_u("new", bits); x1.native_string.clear(); holds(y, a, na); }
  else if (how == 2) { ES& self = x1; ES& r = (x1 = self); sym_assert(&r == &x1, "assignment to itself returns the target"); holds(x1, a, na); }
  else { ES y; holds(y, a, 0); y = x; holds(y, a, na); y = ES(NS((const CH*)b, nb)); holds(y, b, nb); holds(x1, a, na); ES z(std::move(y)); holds(z, b, nb); }
  sym_reach("held"); for (int i = 0; i < na && i < 2; i++) sym_observe("u", (unsigned)a[i]);
}
template <class V, class SVT, class U> static void view(const U* a, int na) {
  typedef typename SVT::value_type CH; CH* b = new CH[na]; memcpy(b, a, na * sizeof(CH)); V v{SVT(b, na)}; holds(v, a, na); sym_assert(v.native_string.data() == b, "view refers to the text"); V w{SVT()}; holds(w, a, 0); V& r = (w = v); sym_assert(&r == &w, "assignment returns the target"); holds(w, a, na); V c(v); holds(c, a, na); sym_assert(c.native_string.data() == b && w.native_string.data() == b, "view refers to the same text"); sym_reach("view");
}
extern "C" void harness() {
  int na = len[sym_choice("length", NLEN)], nb = len[sym_choice("other_length", NLEN)], kind = sym_choice("kind", 4);
  if (kind < 2) { oct a[MAXL], b[MAXL]; for (int i = 0; i < na; i++) a[i] = sym_u("a", 8); for (int i = 0; i < nb; i++) b[i] = sym_u("b", 8); if (kind) view<utf8_string_view, SV>(a, na); else val<utf8_string>(a, na, b, nb, 8); }
  else { int a[MAXL], b[MAXL]; for (int i = 0; i < na; i++) a[i] = (int)sym_u("a", 32); for (int i = 0; i < nb; i++) b[i] = (int)sym_u("b", 32); if (kind == 3) view<utf32ne_string_view, SV32>(a, na); else val<utf32ne_string>(a, na, b, nb, 32); }
}
