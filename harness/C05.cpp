#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
using namespace u5e;
#ifndef MAXN
#define MAXN 3
#endif
#ifndef WIDTH
#define WIDTH 4
#endif
template <class IT> static void cmp(const Text& t, IT b) {
  int p = sym_pos("p", t.len + 1), q = sym_pos("q", t.len + 1); IT x(b.raw_iterator_ + p), y(b.raw_iterator_ + q); bool want = t.cpAt(p) == t.cpAt(q);
  bool eq = x == y, ne = x != y, qe = y == x, en = y != x; sym_observe("eq", eq);
  sym_assert(eq == want, "equality of two positions"); sym_assert(qe == want, "equality is symmetric"); sym_assert(ne == !want && en == !want, "inequality is the negation of equality");
  sym_assert(x.raw_iterator_ == b.raw_iterator_ + p && y.raw_iterator_ == b.raw_iterator_ + q, "comparing moves an iterator");
  if (want && p != q) sym_reach("inside"); else if (!want) sym_reach("different");
}
extern "C" void harness() {
  Text t; int n = text_n(MAXN); sym_text(t, n, WIDTH, WIDTH > 4 ? 0x7fffffff : 0x10ffff);
  switch (sym_choice("job", 4)) {
    case 0: { utf8_string s{std::string((char*)t.o, t.len)}; cmp(t, s.codepoint_cbegin()); break; }
    case 1: { utf8_string s{std::string((char*)t.o, t.len)}; cmp(t, s.codepoint_begin()); break; }
    case 2: { char* b = exact(t.o, t.len); utf8_string_view v{std::experimental::string_view(b, t.len)}; cmp(t, v.codepoint_cbegin()); break; }
    default: { unsigned char* b = (unsigned char*)exact(t.o, t.len); cmp(t, utf8_iterator<unsigned char*>(b)); } }
}
