// Reference: Unicode 9.0 properties and normalization, written from the
// standard (UAX #15, UAX #29), independent of u5e.
#pragma once
#include "sym.h"
#include "ucd.inc"
#define ONOI extern "C" __attribute__((noinline))
template <int N> static inline int range_find(const int (*t)[3], int c) { int lo = 0, hi = N; while (lo < hi) { int m = (lo + hi) / 2; if (c < t[m][0]) hi = m; else if (c > t[m][1]) lo = m + 1; else return t[m][2]; } return 0; }
ONOI int summ_oracle_ccc(int c) { return range_find<sizeof(u_ccc) / sizeof(u_ccc[0])>(u_ccc, c); }
ONOI int summ_oracle_gcb(int c) { return range_find<sizeof(u_gcb) / sizeof(u_gcb[0])>(u_gcb, c); }
// out[0] = number of codepoints (0: none), then the codepoints; not Hangul
template <int N, int W> static inline bool row_find(const int (*t)[W], int c, int* out, int n) {
  int lo = 0, hi = N; while (lo < hi) { int m = (lo + hi) / 2; if (c < t[m][0]) hi = m; else if (c > t[m][0]) lo = m + 1; else { for (int i = 0; i < n; i++) out[i] = i + 1 < W ? t[m][i + 1] : 0; return true; } } return false; }
ONOI void summ_oracle_dec(int c, int* out, int n) { for (int i = 0; i < n; i++) out[i] = 0; row_find<sizeof(u_dec) / sizeof(u_dec[0])>(u_dec, c, out, n); }
ONOI void summ_oracle_kdec(int c, int* out, int n) { for (int i = 0; i < n; i++) out[i] = 0; if (!row_find<sizeof(u_kdec) / sizeof(u_kdec[0])>(u_kdec, c, out, n)) row_find<sizeof(u_kdec_long) / sizeof(u_kdec_long[0])>(u_kdec_long, c, out, n); }
ONOI int summ_oracle_comp(int a, int b) {
  if (a >= 0x1100 && a < 0x1113 && b >= 0x1161 && b < 0x1176) return 0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
  if (a >= 0xAC00 && a < 0xD7A4 && (a - 0xAC00) % 28 == 0 && b > 0x11A7 && b < 0x11C3) return a + (b - 0x11A7);
  int lo = 0, hi = sizeof(u_comp) / sizeof(u_comp[0]);
  while (lo < hi) { int m = (lo + hi) / 2; if (a < u_comp[m][0]) hi = m; else if (a > u_comp[m][0]) lo = m + 1; else if (b < u_comp[m][1]) hi = m; else if (b > u_comp[m][1]) lo = m + 1; else return u_comp[m][2]; }
  return 0;
}
// the same by one key, without Hangul
ONOI int summ_oracle_comp_key(uint64_t k) {
  int lo = 0, hi = sizeof(u_comp) / sizeof(u_comp[0]);
  while (lo < hi) { int m = (lo + hi) / 2; uint64_t e = (uint64_t)(uint32_t)u_comp[m][0] << 32 | (uint32_t)u_comp[m][1]; if (k < e) hi = m; else if (k > e) lo = m + 1; else return u_comp[m][2]; }
  return 0;
}
static inline bool is_hangul_lv_t(int c) { return c >= 0xAC00 && c < 0xD7A4; }
static inline int hangul_dec(int c, int* out) { int s = c - 0xAC00; out[0] = 0x1100 + s / 588; out[1] = 0x1161 + (s % 588) / 28; if (s % 28 == 0) return 2; out[2] = 0x11A7 + s % 28; return 3; }
// ---- normalization of a sequence (UAX #15)
static const int DECW = 20;
#ifndef SEQMAX
#define SEQMAX 64
#endif
struct Seq { int n; int c[SEQMAX]; void put(int x) { c[n++] = x; } };
template <class DEC> static inline void ref_decompose(int c, Seq& out, DEC dec, int width) {
  if (is_hangul_lv_t(c)) { int h[3]; int k = hangul_dec(c, h); for (int i = 0; i < k; i++) out.put(h[i]); return; }
  int d[DECW]; dec(c, d, width); int k = (int)sym_conc(d[0]); if (!k) { out.put(c); return; } for (int i = 0; i < k; i++) out.put(d[i + 1]);
}
template <class CCC> static inline void ref_order(Seq& s, CCC ccc) { // insertion: stable, never crosses a starter
  for (int i = 1; i < s.n; i++) { int x = s.c[i], k = ccc(x); if (k == 0) continue; int j = i; while (j > 0) { int q = ccc(s.c[j - 1]); if (q == 0 || q <= k) break; s.c[j] = s.c[j - 1]; j--; } s.c[j] = x; }
}
template <class CCC, class COMP> static inline int ref_compose(Seq& s, CCC ccc, COMP comp) { // returns the number of compositions
  int starter = -1, last = -1, o = 0, n = 0; // last: class of the previous character kept after the starter, -1 if none
  for (int i = 0; i < s.n; i++) { int x = s.c[i], k = ccc(x);
    if (starter >= 0 && (last < 0 || (last != 0 && last < k))) { int r = comp(s.c[starter], x); if (r) { s.c[starter] = r; n++; continue; } }
    if (k == 0) { starter = o; last = -1; } else last = k;
    s.c[o++] = x; }
  s.n = o; return n;
}
#include "kf.inc"
ONOI int summ_oracle_kfa(int c) { return range_find<sizeof(u_kfa) / sizeof(u_kfa[0])>(u_kfa, c); }
// rules GB3 to GB999 of UAX #29 (Unicode 9.0) over two adjacent codepoints, in precedence order
ONOI int merge_break_rule(int a, int b) {
  if (a == U_CR && b == U_LF) return 0; // GB3
  if (a == U_Control || a == U_CR || a == U_LF) return 1; // GB4
  if (b == U_Control || b == U_CR || b == U_LF) return 1; // GB5
  if (a == U_L && (b == U_L || b == U_V || b == U_LV || b == U_LVT)) return 0; // GB6
  if ((a == U_LV || a == U_V) && (b == U_V || b == U_T)) return 0; // GB7
  if ((a == U_LVT || a == U_T) && b == U_T) return 0; // GB8
  if (b == U_Extend || b == U_ZWJ) return 0; // GB9
  if (b == U_SpacingMark) return 0; // GB9a
  if (a == U_Prepend) return 0; // GB9b
  if ((a == U_E_Base || a == U_E_Base_GAZ || a == U_Extend) && b == U_E_Modifier) return 0; // GB10, read over two codepoints
  if (a == U_ZWJ && (b == U_Glue_After_Zwj || b == U_E_Base_GAZ)) return 0; // GB11
  if (a == U_Regional_Indicator && b == U_Regional_Indicator) return 0; // GB12, GB13 read over two codepoints
  return 1; // GB999
}
