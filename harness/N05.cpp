// canonical ordering: marks of arbitrary classes between starters, in the ordering step itself and in all forms
#include "norm.hpp"
#include <u5e/canonical_combining_order.hpp>
#ifndef MAXN
#define MAXN 4
#endif
#include "marks.inc"
#define COUNT(a) (sizeof(a) / sizeof(a[0]))
static const int STARTER = 0x34f, BASE = 0x4e00;
// the ordering step by itself, where there is a function for it
template <class S> static auto order(S& s, int) -> decltype(canonical_ordering(s), true) { canonical_ordering(s); return true; }
template <class S> static bool order(S&, long) { return false; }
static int ccc(int c) { return summ_oracle_ccc(c); }
static void run(const int* c, int n) {
  Seq r; r.n = 0; for (int i = 0; i < n; i++) r.put(c[i]); ref_order(r, ccc); int how = sym_choice("how", 5); std::basic_string<int> in(c, n); utf32ne_string out;
  if (how == 4) { out = utf32ne_string(in); if (!order(out, 0)) return; sym_reach("step"); } else { utf32ne_string s(in); int k = normalize(how, s, out); sym_assert(k == n, "number of codepoints returned"); }
  sym_assert((int)out.native_string.size() == n, "number of codepoints after ordering"); for (int i = 0; i < n; i++) { sym_observe("o", (unsigned)out.native_string[i]); sym_assert(out.native_string[i] == r.c[i], "codepoint after ordering"); }
  bool moved = false; for (int i = 0; i < n; i++) if (sym_conc(r.c[i] != c[i])) moved = true; sym_reach(moved ? "moved" : "kept");
}
// every mix of marks and starters
static void mixed() {
  int n = sym_choice("n", MAXN + 1), c[MAXN + 1]; c[0] = sym_choice("base", 2) ? BASE : 0; int m = c[0] ? 1 : 0;
  for (int i = 0; i < n; i++) { if (i && sym_choice("starter", 2)) { c[m++] = STARTER; sym_reach("starter"); continue; } uint32_t k = sym_u("mark", 16); sym_assume(k < COUNT(marks2)); c[m++] = marks2[k]; }
  run(c, m);
}
// long runs: many marks of one or two classes, each a different one, and SYMS arbitrary marks among them
#ifdef LONG
static void longer() {
  static const int sizes[4] = {17, 18, 33, 40}; int n = sizes[sym_choice("length", LONG)], two = sym_choice("classes", 2), c[64], m = 0, pos = sym_choice("at", n); int x = 0, y = 0;
  c[m++] = BASE; for (int i = 0; i < n; i++) { if (i == pos) { uint32_t k = sym_u("mark", 16); sym_assume(k < COUNT(marks1)); c[m++] = marks1[k]; } else if (two && (i * 7 % 3) == 1) c[m++] = marks220[y++]; else c[m++] = marks230[x++]; }
  run(c, m); sym_reach("long");
}
#endif
extern "C" void harness() {
  norm_tables();
#ifdef LONG
  longer();
#else
  mixed();
#endif
}
