#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf8_bounds.hpp>
using namespace u5e;
#ifndef MAXN
#define MAXN 5
#endif
// any octets that pass the check; the buffer ends where the text ends
template <class IT, class RAW> static void run(RAW b, RAW e) {
  if (!utf8_bounds<RAW>::check(b, e)) { sym_reach("rejected"); return; }
  IT begin(b), end(e); int n = e - b, how = sym_choice("how", 6);
  if (how < 3) { IT it(b); int steps = 0; while (it.raw_iterator_ != e && steps++ <= n) {
      if (how == 1) { codepoint c = *it; sym_observe("c", (unsigned)c.value); if (sym_choice("bad", 1)) sym_end(); bool a = it == end, z = end == it; sym_assert(a == z, "comparison with the end"); sym_assert(a == (it.raw_iterator_ == e), "equal to the end before the end"); (void)(it == begin); }
      if (how == 2) { IT old = it++; codepoint c = *old; sym_observe("c", (unsigned)c.value); (void)(old == it); (void)(begin != it); } else ++it;
      sym_assert(it.raw_iterator_ >= b && it.raw_iterator_ <= e, "increment moves past the end of the text"); }
    sym_assert(it.raw_iterator_ == e, "the end is not reached in as many steps as octets"); sym_reach("forward"); }
  else { IT it(e); int steps = 0; while (it.raw_iterator_ != b && steps++ <= n) {
      IT old = it; --it; sym_assert(it.raw_iterator_ >= b && it.raw_iterator_ < old.raw_iterator_, "decrement moves past the beginning of the text");
      if (how == 4) { IT k = it; codepoint c = *k; sym_observe("c", (unsigned)c.value); (void)(k == old); (void)(old == k); (void)(k != end); (void)(k == begin); }
      if (how == 5) { IT k = it; ++k; sym_assert(k.raw_iterator_ >= b && k.raw_iterator_ <= e, "increment after decrement moves past the end of the text"); (void)(k == end); } }
    sym_assert(it.raw_iterator_ == b, "the beginning is not reached in as many steps as octets"); sym_reach("backward"); }
}
extern "C" void harness() {
  int n = sym_choice("n", MAXN + 1); oct o[MAXN + 1]; for (int i = 0; i < n; i++) o[i] = sym_u("octet", 8);
  switch (sym_choice("job", 3)) {
    case 0: { char* b = exact(o, n); utf8_string_view v{std::experimental::string_view(b, n)}; run<utf8_string_view::const_iterator>(v.native_cbegin(), v.native_cend()); break; }
    case 1: { unsigned char* b = (unsigned char*)exact(o, n); run<utf8_iterator<unsigned char*>>(b, b + n); break; }
    default: { signed char* b = (signed char*)exact(o, n); run<utf8_const_iterator<signed char*>>(b, b + n); } }
}
