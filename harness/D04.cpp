#include "oracle.hpp"
#include <u5e/props/canonical_composition_mapping.hpp>
extern "C" void harness() {
  summ_oracle_comp_key(0); sym_raw(1); int a = (int)sym_u("a", 32), b = (int)sym_u("b", 32), before = (int)sym_u("before", 32); int r = before;
  bool lv = a >= 0x1100 && a < 0x1113 && b >= 0x1161 && b < 0x1176, lvt = a >= 0xAC00 && a < 0xD7A4 && (a - 0xAC00) % 28 == 0 && b > 0x11A7 && b < 0x11C3;
  bool ok = u5e::props::canonical_composition_mapping::resolve(a, b, &r);
  int want = lv ? 0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28 : lvt ? a + (b - 0x11A7) : summ_oracle_comp_key((uint64_t)(uint32_t)a << 32 | (uint32_t)b);
  sym_observe("ok", ok); sym_observe("r", (unsigned)r);
  if (ok) { sym_assert(r != 0, "composition yields nothing"); sym_assert_eq(r, want, "composite"); sym_reach("composed"); if (lv || lvt) sym_reach("hangul"); }
  else { sym_assert_eq(0, want, "pair that must compose"); sym_assert(r == before, "result touched by a failing lookup"); sym_reach("none"); }
}
