#include "oracle.hpp"
#include <u5e/props/canonical_combining_class.hpp>
extern "C" void harness() {
  summ_oracle_ccc(0); sym_raw(1); int cp = (int)sym_u("cp", 32); int got = u5e::props::canonical_combining_class::resolve(cp);
  sym_observe("class", got); sym_assert_eq(got, summ_oracle_ccc(cp), "canonical combining class"); sym_reach(got ? "nonzero" : "zero");
}
