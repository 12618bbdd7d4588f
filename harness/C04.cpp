#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
using namespace u5e;
#ifndef MAXN
#define MAXN 3
#endif
#ifndef WIDTH
#define WIDTH 4
#endif
template <class IT, class RAW> static void back(const Text& t, IT b, IT e, RAW base) {
  switch (sym_choice("how", 4)) {
    case 0: { IT it = e; for (int i = t.n; i-- > 0;) { sym_assert(it != b, "iterator equals the beginning too early"); IT& r = --it; sym_assert(&r == &it && it.raw_iterator_ - base == t.off[i], "decrement lands on the first octet of the previous codepoint"); codepoint c = *it; sym_observe("c", (unsigned)c.value); sym_assert((uint32_t)c.value == t.cp[i], "codepoint visited backwards"); }
        sym_assert(it == b, "beginning reached"); sym_reach("backwards"); break; }
    case 1: { IT it = e; for (int i = t.n; i-- > 0;) { IT old = it--; sym_assert(old.raw_iterator_ - base == t.off[i + 1], "post-decrement returns the previous position"); sym_assert(it.raw_iterator_ - base == t.off[i], "post-decrement lands on the first octet of the previous codepoint"); } break; }
    case 2: { typedef std::reverse_iterator<IT> R; R it(e), end(b); for (int i = t.n; i-- > 0;) { sym_assert(it != end, "reverse iterator equals its end too early"); codepoint c = *it; sym_observe("r", (unsigned)c.value); sym_assert((uint32_t)c.value == t.cp[i], "codepoint visited by the reverse iterator"); if (i & 1) ++it; else it++; }
        sym_assert(it == end && it.base() == b, "end of the reverse iterator"); sym_reach("reverse"); break; }
    default: { if (!t.len) break; int p = sym_pos("from", t.len + 1), k = t.cpAt(p); if (k == 0) break; IT it(b.raw_iterator_ + p); --it; sym_assert(it.raw_iterator_ - base == t.off[k - 1], "decrement from inside a codepoint arrives at the start of the previous one"); sym_assert((uint32_t)codepoint(*it).value == t.cp[k - 1], "codepoint before the position"); ++it; sym_assert(it.raw_iterator_ - base == t.off[k], "increment after decrement"); if (p != t.off[k]) sym_reach("halfway"); } }
}
extern "C" void harness() {
  Text t; int n = text_n(MAXN); sym_text(t, n, WIDTH, WIDTH > 4 ? 0x7fffffff : 0x10ffff);
  switch (sym_choice("job", 4)) {
    case 0: { utf8_string s{std::string((char*)t.o, t.len)}; back(t, s.codepoint_cbegin(), s.codepoint_cend(), s.native_cbegin()); break; }
    case 1: { utf8_string s{std::string((char*)t.o, t.len)}; back(t, s.codepoint_begin(), s.codepoint_end(), s.native_begin()); break; }
    case 2: { char* b = exact(t.o, t.len); utf8_string_view v{std::experimental::string_view(b, t.len)}; back(t, v.codepoint_cbegin(), v.codepoint_cend(), v.native_cbegin()); break; }
    default: { unsigned char* b = (unsigned char*)exact(t.o, t.len); typedef utf8_iterator<unsigned char*> I; back(t, I(b), I(b + t.len), b); } }
}
