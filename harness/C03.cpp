#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
using namespace u5e;
#ifndef MAXN
#define MAXN 3
#endif
#ifndef WIDTH
#define WIDTH 4
#endif
template <class IT, class RAW> static void walk(const Text& t, IT b, IT e, RAW base) {
  IT it = b, old = b; int post = sym_choice("post", 2);
  for (int i = 0; i < t.n; i++) {
    sym_assert(it.raw_iterator_ - base == t.off[i], "step lands on the first octet of the next codepoint");
    sym_assert(it != e && !(it == e) && e != it, "iterator equals the end before the last codepoint");
    codepoint c = *it; sym_observe("c", (unsigned)c.value); sym_assert((uint32_t)c.value == t.cp[i], "codepoint visited");
    if (post) { IT before = it++; sym_assert(before == old && before.raw_iterator_ - base == t.off[i], "post-increment returns the previous position"); sym_assert((uint32_t)codepoint(*before).value == t.cp[i], "codepoint at the position returned by post-increment"); }
    else { IT& r = ++it; sym_assert(&r == &it, "pre-increment returns the iterator"); }
    old = it;
  }
  sym_assert(it.raw_iterator_ - base == t.len, "end of the iteration"); sym_assert(it == e && !(it != e) && e == it, "iterator does not equal the end after the last codepoint");
  sym_reach("walked");
}
extern "C" void harness() {
  Text t; int n = text_n(MAXN); sym_text(t, n, WIDTH, WIDTH > 4 ? 0x7fffffff : 0x10ffff);
  switch (sym_choice("job", 6)) {
    case 0: { utf8_string s{std::string((char*)t.o, t.len)}; walk(t, s.codepoint_cbegin(), s.codepoint_cend(), s.native_cbegin()); break; }
    case 1: { utf8_string s{std::string((char*)t.o, t.len)}; walk(t, s.codepoint_begin(), s.codepoint_end(), s.native_begin()); sym_assert(sym_memeq(s.native_string.data(), t.o, t.len), "iterating changes the text"); break; }
    case 2: { char* b = exact(t.o, t.len); utf8_string_view v{std::experimental::string_view(b, t.len)}; walk(t, v.codepoint_cbegin(), v.codepoint_cend(), v.native_cbegin()); break; }
    case 3: { char* b = exact(t.o, t.len); utf8_string_view v{std::experimental::string_view(b, t.len)}; typedef utf8_const_iterator<const char*> I; walk(t, I(v.native_begin()), I(v.native_end()), v.native_begin()); break; }
    case 4: { char* b = exact(t.o, t.len); typedef utf8_iterator<char*> I; walk(t, I(b), I(b + t.len), b); sym_assert(sym_memeq(b, t.o, t.len), "iterating changes the text"); break; }
    default: { unsigned char* b = (unsigned char*)exact(t.o, t.len); typedef utf8_const_iterator<const unsigned char*> I; walk(t, I(b), I(b + t.len), (const unsigned char*)b); } }
}
