// normalizing twice: g(f(text)) = h(text)
#include "norm.hpp"
#ifndef MAXN
#define MAXN 2
#endif
// second form of first form equals one form
static const int rule[][3] = {{FD, FD, FD}, {FC, FC, FC}, {FKD, FKD, FKD}, {FKC, FKC, FKC}, {FC, FD, FD}, {FD, FC, FC}, {FD, FKD, FKD}, {FC, FKD, FKD}, {FC, FKC, FKC}, {FKD, FKC, FKC}, {FD, FKC, FKC}, {FKC, FKD, FKD}, {FKD, FD, FKD}, {FKC, FC, FKC}, {FKC, FD, FKD}, {FKD, FC, FKC}};
// KF-B: compatibility jamo are graphemes of their own, form KC leaves what they decompose to uncomposed
static bool jamo(int c) { return sym_conc((c >= 0x3131 && c <= 0x318e) || (c >= 0xffa0 && c <= 0xffdc)) != 0; }
static void seq(utf32ne_string& s, Seq& o) { o.n = 0; for (size_t i = 0; i < s.native_string.size(); i++) o.put(s.native_string[i]); }
static void compose(Seq& s) { ref_compose(s, [](int c) { return (int)sym_conc(summ_oracle_ccc(c)); }, [](int a, int b) { int r = summ_oracle_comp(a, b); return sym_conc(r != 0) ? r : 0; }); }
extern "C" void harness() {
  norm_tables(); int n = sym_choice("n", MAXN + 1), b[MAXN + 1]; for (int i = 0; i < n; i++) b[i] = (int)sym_u("cp", 32);
  const int* r = rule[sym_choice("rule", 16)]; utf32ne_string s{std::basic_string<int>(b, n)}, once, twice, want; normalize(r[0], s, once); normalize(r[1], once, twice); normalize(r[2], s, want);
  int m = (int)want.native_string.size(); sym_observe("length", m); bool kfb = false;
  if (r[1] == FKC || r[0] == FKC || r[2] == FKC) { int j = 0; for (int i = 0; i < n; i++) j += jamo(b[i]); kfb = j > 0; }
  if (kfb) { bool same = (int)twice.native_string.size() == m; for (int i = 0; same && i < m; i++) if (sym_conc(twice.native_string[i] != want.native_string[i])) same = false; if (!same) { sym_reach("KF-B"); Seq x, y; seq(twice, x); seq(want, y); compose(x); compose(y); sym_assert(x.n == y.n, "number of codepoints of the twice normalized text, composed"); for (int i = 0; i < x.n; i++) sym_assert(x.c[i] == y.c[i], "codepoint of the twice normalized text, composed"); return; } }
  sym_assert((int)twice.native_string.size() == m, "number of codepoints of the twice normalized text"); for (int i = 0; i < m; i++) { sym_observe("c", (unsigned)want.native_string[i]); sym_assert(twice.native_string[i] == want.native_string[i], "codepoint of the twice normalized text"); }
  sym_reach(r[0] == r[1] ? "idempotent" : "forms agree"); if (m > n) sym_reach("longer");
}
