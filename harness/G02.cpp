#include "props.hpp"
#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf32ne_string.hpp>
using namespace u5e;
template <class S> static void pair(S s) {
  basic_grapheme_iterator<S> it(s.codepoint_cbegin(), s.codepoint_cend()); int a = (int)sym_u("a", 32), b = (int)sym_u("b", 32);
  bool r = it.is_grapheme_boundary(codepoint(a), codepoint(b)); int want = merge_break_rule(summ_oracle_gcb(a), summ_oracle_gcb(b)); sym_observe("boundary", r);
  sym_assert_eq(r, want, "boundary between two codepoints"); if (r) sym_reach("boundary"); else sym_reach("together");
}
extern "C" void harness() {
  summ_oracle_gcb(0); summ_impl_gcb(0); sym_raw(1);
  if (sym_choice("encoding", 2)) pair(utf8_string(std::string())); else pair(utf32ne_string(std::basic_string<int>()));
}
