// a codepoint is the 32-bit value it was made from
#include "sym.h"
#include <u5e/codepoint.hpp>
using namespace u5e;
#define NI __attribute__((noinline))
static NI codepoint pass(codepoint c) { return c; }
static NI int asint(int c) { return c; }
static constexpr codepoint fixed(0x1f600), fixed2(fixed), none;
static_assert(fixed2.value == 0x1f600 && none.value == 0 && fixed == 0x1f600 && 0x1f600 == fixed && fixed == fixed2, "constant expressions");
static void is(const codepoint& c, int v, const char* m) { sym_assert_eq(c.value, v, m); sym_assert_eq((int)c, v, "conversion to an integer"); sym_assert(asint(c) == v, "implicit conversion to an integer"); }
extern "C" void harness() {
  int x = (int)sym_u("x", 32), y = (int)sym_u("y", 32); codepoint_traits::int_type tx = x; bool eq = x == y;
  codepoint z; is(z, 0, "default construction"); codepoint a(x), b(y), c = x, d(tx); is(a, x, "construction from an integer"); is(c, x, "implicit construction"); is(d, x, "construction from its own integer type");
  codepoint e(a); is(e, x, "copy"); is(pass(a), x, "passed by value"); is(pass(x), x, "passed as integer"); is(codepoint(pass(b)), y, "moved");
  sym_assert((a == b) == eq, "comparison of two codepoints"); sym_assert((b == a) == eq, "comparison the other way round"); sym_assert(a == e, "a copy is equal");
  sym_assert((tx == b) == eq, "comparison of an integer with a codepoint"); sym_assert((b == tx) == eq, "comparison of a codepoint with an integer"); sym_assert((a == y) == eq && (y == a) == eq, "comparison with a plain integer");
  codepoint& r = (z = a); sym_assert(&r == &z, "assignment returns its target"); is(z, x, "assignment"); is(a, x, "source of an assignment");
  codepoint& q = (z = y); sym_assert(&q == &z, "assignment of an integer returns its target"); is(z, y, "assignment of an integer"); is(a, x, "a copy is independent");
  z = z; is(z, y, "assignment to itself"); e.value = y; is(e, y, "the value itself"); is(a, x, "the source of a copy"); (a = b) = x; is(a, x, "chained assignment"); is(b, y, "source of a chained assignment");
  int i = a; codepoint back(i); sym_assert_eq((int)back, (int)a, "there and back"); sym_assert(back == a, "there and back"); sym_observe("x", (uint32_t)(int)a); sym_observe("eq", a == b); sym_reach(a == b ? "equal" : "different");
}
