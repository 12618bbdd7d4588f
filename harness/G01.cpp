#include "oracle.hpp"
#include <u5e/props/grapheme_cluster_break.hpp>
using u5e::props::grapheme_cluster_break;
typedef grapheme_cluster_break G;
// the library's names for the values of the standard
static int value_of(int v) {
  switch (v) { case G::OTHER: return U_Other; case G::PREPEND: return U_Prepend; case G::CR: return U_CR; case G::LF: return U_LF; case G::CONTROL: return U_Control; case G::EXTEND: return U_Extend; case G::REGIONAL_INDICATOR: return U_Regional_Indicator; case G::SPACINGMARK: return U_SpacingMark;
    case G::L: return U_L; case G::V: return U_V; case G::T: return U_T; case G::LV: return U_LV; case G::LVT: return U_LVT; case G::E_BASE: return U_E_Base; case G::E_MODIFIER: return U_E_Modifier; case G::ZWJ: return U_ZWJ; case G::GLUE_AFTER_ZWJ: return U_Glue_After_Zwj; case G::E_BASE_GAZ: return U_E_Base_GAZ; }
  return -1;
}
extern "C" void harness() {
  summ_oracle_gcb(0); sym_raw(1); int cp = (int)sym_u("cp", 32); int got = G::resolve(u5e::codepoint(cp));
  sym_observe("value", got); sym_assert_eq(value_of(got), summ_oracle_gcb(cp), "grapheme cluster break value"); sym_reach(got == G::OTHER ? "other" : "listed");
}
