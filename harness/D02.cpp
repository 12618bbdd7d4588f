// also D03 with -DKOMPAT: the lookup and the decomposition of one codepoint
#include "oracle.hpp"
#include <u5e/utf32ne_string.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
using namespace u5e;
#ifdef KOMPAT
#define RESOLVE props::compatibility_and_canonical_decomposition_mapping::resolve
#define DECOMPOSE compatibility_and_canonical_decomposition<utf32ne_string>
#define ORACLE summ_oracle_kdec
static const int W = 19;
#else
#define RESOLVE props::canonical_decomposition_mapping::resolve
#define DECOMPOSE canonical_decomposition<utf32ne_string>
#define ORACLE summ_oracle_dec
static const int W = 5;
#endif
extern "C" void harness() {
  int d[W + 1]; ORACLE(0, d, W); summ_oracle_kfa(0); sym_raw(1);
  int cp = (int)sym_u("cp", 32); int const* p = RESOLVE(cp); int n = 0; if (p) while (n < W && p[n]) n++;
  sym_assert(!p || (n > 0 && n < W), "lookup yields an empty or endless sequence"); sym_observe("n", n);
  bool hangul = cp >= 0xAC00 && cp < 0xD7A4; int h[4] = {0, 0, 0, 0}; int hn = 0; if (hangul) hn = hangul_dec(cp, h);
  bool known = false;
#ifdef KOMPAT
  // KF-A: either nothing, as recorded, or what the standard says
  if (!p) { sym_raw(0); known = summ_oracle_kfa(cp); sym_raw(1); if (known) sym_reach("KF-A"); }
#endif
  if (hangul && p) { sym_assert(n == hn, "lookup of a Hangul syllable: length"); for (int i = 0; i < n; i++) sym_assert(p[i] == h[i], "lookup of a Hangul syllable"); }
  else if (!known) {
    ORACLE(cp, d, W); sym_assert_eq(n, d[0], "number of codepoints in the decomposition");
    for (int i = 0; i < n; i++) { sym_observe("d", p[i]); sym_assert_eq(p[i], d[i + 1], "codepoint of the decomposition"); }
  }
  // decomposing appends exactly that, after what the output held
  utf32ne_string out; int pre = (int)sym_u("before", 32); out.native_string.push_back(pre);
  int r = DECOMPOSE(codepoint(cp), out); int wn = hangul ? hn : n ? n : 1;
  sym_assert(r == wn, "count returned by decomposing"); sym_assert((int)out.native_string.size() == 1 + wn, "length after decomposing"); sym_assert(out.native_string[0] == pre, "previous content");
  for (int i = 0; i < wn; i++) { int want = hangul ? h[i] : n ? p[i] : cp; sym_observe("o", (unsigned)out.native_string[1 + i]); sym_assert(out.native_string[1 + i] == want, "codepoint appended by decomposing"); }
  sym_reach(hangul ? "hangul" : n ? "decomposed" : "itself");
}
