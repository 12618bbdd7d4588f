// reference normalization of a text and the four forms of u5e
#pragma once
#include "grapheme.hpp"
#include <u5e/filter.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
enum { FD, FC, FKD, FKC };
static inline bool kompat(int f) { return f == FKD || f == FKC; }
static inline bool composes(int f) { return f == FC || f == FKC; }
static inline void norm_tables() {
  tables(); int d[DECW]; summ_oracle_ccc(0); summ_oracle_dec(0, d, 5); summ_oracle_kdec(0, d, DECW); summ_oracle_kfa(0); summ_oracle_comp(0, 0);
#ifndef ABSTRACT_PROPS
  summ_impl_ccc(0); summ_impl_dec(0, d, 6); summ_impl_kdec(0, d, DECW); summ_impl_comp(0, 0);
#endif
}
static inline void ref_dec1(int f, int c, Seq& o) {
  if (!kompat(f)) { ref_decompose(c, o, summ_oracle_dec, 5); return; }
#ifndef ABSTRACT_PROPS
  // KF-A: recorded codepoints that u5e leaves alone
  if (sym_conc(summ_oracle_kfa(c))) { int d[DECW]; summ_impl_kdec(c, d, DECW); if (!sym_conc(d[0])) { sym_reach("KF-A"); o.put(c); return; } }
#endif
  ref_decompose(c, o, summ_oracle_kdec, DECW);
}
// normalizes n codepoints, appending to o
static inline void ref_norm(int f, const uint32_t* cp, int n, Seq& o) {
  Seq s; s.n = 0; for (int i = 0; i < n; i++) ref_dec1(f, (int)cp[i], s);
  ref_order(s, [](int c) { return summ_oracle_ccc(c); });
  if (composes(f)) ref_compose(s, [](int c) { return (int)sym_conc(summ_oracle_ccc(c)); }, [](int a, int b) { int r = summ_oracle_comp(a, b); return sym_conc(r != 0) ? r : 0; });
  for (int i = 0; i < s.n; i++) o.put(s.c[i]);
}
template <class S, class O> static inline int normalize(int f, S& s, O& out) {
  switch (f) {
    case FD: return filter(s.grapheme_begin(), s.grapheme_end(), out, normalization_form_d<S, O>);
    case FC: return filter(s.grapheme_begin(), s.grapheme_end(), out, normalization_form_c<S, O>);
    case FKD: return filter(s.grapheme_begin(), s.grapheme_end(), out, normalization_form_kd<S, O>);
    default: return filter(s.grapheme_begin(), s.grapheme_end(), out, normalization_form_kc<S, O>);
  }
}
static inline bool same_text(utf32ne_string& o, const Seq& r) { if ((int)o.native_string.size() != r.n) return false; int d = 0; for (int i = 0; i < r.n; i++) d |= o.native_string[i] ^ r.c[i]; return d == 0; }
// the UTF-8 form of a reference text
struct Octets { int n; oct o[4 * SEQMAX]; };
static inline void ref_encode(const Seq& r, Octets& e) { e.n = 0; for (int i = 0; i < r.n; i++) { int l = (int)sym_conc((uint64_t)ref_len((uint32_t)r.c[i])); ref_put((uint32_t)r.c[i], l, e.o + e.n); e.n += l; } }
