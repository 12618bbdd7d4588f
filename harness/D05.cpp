// decomposing with any resolver
#include "sym.h"
#include <u5e/utf32ne_string.hpp>
#include <u5e/codepoint_decomposition.hpp>
using namespace u5e;
static int seq[MAXSEQ + 8], cp, wrong; static bool have;
// a resolver that keeps state, a function, a lambda
struct Resolver { int calls = 0; int const* operator()(int c) { calls++; if (c != cp) wrong = 1; return have ? seq : nullptr; } };
static int const* resolver_fn(int c) { if (c != cp) wrong = 1; return have ? seq : nullptr; }
static int syllable(int c, int* h) { int i = c - 0xAC00; h[0] = 0x1100 + i / 588; h[1] = 0x1161 + i % 588 / 28; h[2] = 0x11A7 + i % 28; return i % 28 ? 3 : 2; }
static int call(utf32ne_string& out, int how) {
  if (how == 0) { Resolver r; return codepoint_decomposition<Resolver, utf32ne_string>(codepoint(cp), out, r); }
  if (how == 1) { typedef int const* F(int); return codepoint_decomposition<F, utf32ne_string>(codepoint(cp), out, *resolver_fn); }
  auto l = [](codepoint c) -> int const* { return resolver_fn((int)c); }; return codepoint_decomposition<decltype(l), utf32ne_string>(codepoint(cp), out, l);
}
extern "C" void harness() {
  wrong = 0; int how = sym_choice("resolver", 3), n, h[3], *w = seq; cp = (int)sym_u("cp", 32); bool hangul = cp >= 0xAC00 && cp <= 0xD7A3; have = !hangul && sym_choice("mapped", 2);
  if (have) { n = sym_choice("n", MAXSEQ + 1); for (int i = 0; i < n; i++) { seq[i] = (int)sym_u("to", 32); sym_assume(seq[i] != 0); } seq[n] = 0; for (int i = n + 1; i < MAXSEQ + 8; i++) seq[i] = 0x41; sym_reach(n ? "mapped" : "to nothing"); }
  else if (hangul) { n = (int)sym_conc(syllable(cp, h)); w = h; sym_reach("hangul"); }
  else { n = 1; w = &cp; sym_reach("itself"); }
  utf32ne_string out; int pre = sym_choice("before", 3), p[3]; for (int i = 0; i < pre; i++) { p[i] = (int)sym_u("unit", 32); out.native_string.push_back(p[i]); }
  int r = call(out, how), got = (int)out.native_string.size() - pre; sym_observe("n", n); 
  sym_assert(r == n, "returned count"); sym_assert(got == n, "length of the output"); for (int i = 0; i < pre; i++) sym_assert(out.native_string[i] == p[i], "previous content"); for (int i = 0; i < n; i++) { sym_observe("o", (unsigned)out.native_string[pre + i]); sym_assert_eq(out.native_string[pre + i], w[i], "codepoint of the output"); }
  sym_assert(!wrong, "the resolver is asked for another codepoint"); if (have) for (int i = n; i < MAXSEQ + 8; i++) sym_assert(seq[i] == (i == n ? 0 : 0x41), "the mapping is not changed");
}
