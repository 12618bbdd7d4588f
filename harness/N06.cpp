// in-place canonical composition of canonically ordered text
#include "norm.hpp"
#include <u5e/canonical_composition.hpp>
#ifndef MAXN
#define MAXN 2
#endif
static int ccc(int c) { return summ_oracle_ccc(c); }
extern "C" void harness() {
  norm_tables(); int n = sym_choice("n", MAXN + 1); Seq s, r; s.n = 0; for (int i = 0; i < n; i++) { uint32_t c = fill_or_any(i);
    s.put((int)c); }
  int last = 0; for (int i = 0; i < n; i++) { int k = (int)sym_conc((uint64_t)ccc(s.c[i])); sym_assume(k == 0 || last <= k); last = k; }
  r = s; int k = ref_compose(r, [](int c) { return (int)sym_conc(summ_oracle_ccc(c)); }, [](int a, int b) { int x = summ_oracle_comp(a, b); return sym_conc(x != 0) ? x : 0; });
  int before = (int)(sym_u("counter", 32) & 0xffffff), count = before; utf32ne_string t{std::basic_string<int>(s.c, n)}; auto end = canonical_composition(t, &count);
  int len = (int)(end - t.codepoint_begin()); sym_observe("len", len); sym_observe("count", count - before); sym_assert(len == r.n, "number of codepoints after composition"); sym_assert(count == before + k, "number of compositions"); sym_assert((int)t.native_string.size() == n, "size of the text composed in place");
  for (int i = 0; i < r.n; i++) { sym_observe("c", (unsigned)t.native_string[i]); sym_assert(t.native_string[i] == r.c[i], "codepoint after composition"); }
  sym_reach(k == 0 ? "none" : k == 1 ? "one" : "chain"); if (k && r.n > 1 && r.n < n && sym_conc(r.c[1] != s.c[1])) sym_reach("gap"); (void)before;
}
