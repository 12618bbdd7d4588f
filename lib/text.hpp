// reference encoder/decoder and symbolic texts, shared by the harnesses
#pragma once
#include "sym.h"
#include <cstring>
typedef unsigned char oct;
#define NI __attribute__((noinline))
// length of the shortest UTF-8 form (up to six octets)
static inline int ref_len(uint32_t c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6; }
static const uint32_t ref_min[7] = {0, 0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000};
static const uint32_t ref_max[7] = {0, 0x7f, 0x7ff, 0xffff, 0x1fffff, 0x3ffffff, 0x7fffffff};
// writes the form of n octets; explicit masks keep the shape of every octet evident
static inline void ref_put(uint32_t c, int n, oct* o) {
  if (n == 1) { o[0] = c & 0x7f; return; }
  static const oct lead[7] = {0, 0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc}, mask[7] = {0, 0, 0x1f, 0x0f, 7, 3, 1};
  o[0] = lead[n] | ((c >> (6 * (n - 1))) & mask[n]);
  for (int i = 1; i < n; i++) o[i] = 0x80 | ((c >> (6 * (n - 1 - i))) & 0x3f);
}
#ifdef ALPHA
// one of a few codepoints that take part in every kind of step: letters and marks of several classes that compose and that do not, syllables, composites, singletons
#if ALPHA == 2
// ... or, of each class that graphemes are made of and of each length
static const uint32_t alpha[] = {'a', 13, 10, 0x7f, 0x301, 0x200d, 0x600, 0x903, 0x1100, 0x1161, 0x11a8, 0xac00, 0xac01, 0x1f1e6, 0x261d, 0x1f3fb, 0x2764, 0x1f466, 0xe0100};
#else
static const uint32_t alpha[] = {'a', 0x1e69, 0x1ea5, 0x301, 0x302, 0x316, 0x323, 0x327, 0x345, 0x34f, 0x344, 0x1fb6, 0x9c7, 0x9be, 0x1100, 0x1161, 0x11a8, 0xac00, 0xac01, 0xfb2c};
#endif
static inline uint32_t sym_alpha(const char* name) { uint32_t k = sym_u(name, 16); sym_assume(k < sizeof(alpha) / sizeof(alpha[0])); return alpha[k]; }
#endif
// a codepoint whose form has n octets; n is concrete
static inline uint32_t sym_cp(const char* name, int n, uint32_t top = 0x10ffff) {
#ifdef ALPHA
  uint32_t c = sym_alpha(name);
#else
  uint32_t c = sym_u(name, 32);
#endif
  uint32_t hi = ref_max[n] < top ? ref_max[n] : top;
  sym_assume(c >= ref_min[n]); sym_assume(c <= hi); return c;
}
#ifdef LONG
#ifndef PLACES
#define PLACES 8
#endif
static const int MAXCP = LONG + 2, MAXOCT = 4 * LONG + 8;
// a long text: the same few codepoints over and over (fills), except for one place that is arbitrary
static int long_n, long_at, long_kind; static uint32_t (*long_fill)(int, int);
static inline uint32_t fill_text(int k, int i) { static const uint32_t f[4] = {'a', 0xe9, 0x20ac, 0x1f600}; return k < 4 ? f[k] : f[i % 4]; }
static inline void long_text(int kinds, uint32_t (*fill)(int, int)) { 
#ifdef ONESIZE
  long_n = LONG;
#else
  long_n = sym_choice("long", 2) ? LONG : 17;
#endif
  long_kind = sym_choice("fill", kinds); long_fill = fill; switch (sym_choice("place", 3)) { case 0: long_at = 0; break; case 1: long_at = long_n / 2; break; default: long_at = long_n - 1; } }
static inline int sym_pos(const char* name, int n) { const int p[8] = {n - 1, 0, n / 2 + 1, n - 2, 1, n / 3, n - n / 4, n - 3}; int k = p[sym_choice(name, PLACES)]; return k < 0 ? 0 : k < n ? k : n - 1; }  // one of n positions
static inline int text_n(int) { long_text(5, fill_text); return long_n; }
#else
static const int MAXCP = 12, MAXOCT = 48;
static inline int text_n(int max) { return sym_choice("n", max + 1); }
static inline int sym_pos(const char* name, int n) { return sym_choice(name, n); }
#endif
struct Text { int n, len; uint32_t cp[MAXCP]; int off[MAXCP + 1], size[MAXCP]; oct o[MAXOCT];
  int cpAt(int p) const { for (int i = 0; i < n; i++) if (p < off[i + 1]) return i; return n; } };  // codepoint that octet p belongs to
// a text of n codepoints of at most maxlen octets each; one path per shape
static inline void sym_text(Text& t, int n, int maxlen = 4, uint32_t top = 0x10ffff) {
  t.n = n; t.len = 0;
  for (int i = 0; i < n; i++) {
#ifdef LONG
    if (i != long_at) { uint32_t c = t.cp[i] = long_fill(long_kind, i); t.off[i] = t.len; t.size[i] = ref_len(c); ref_put(c, t.size[i], t.o + t.len); t.len += t.size[i]; continue; }
#endif
    int l = 1 + sym_choice("octets", maxlen); t.off[i] = t.len; t.size[i] = l; t.cp[i] = sym_cp("cp", l, top); ref_put(t.cp[i], l, t.o + t.len); t.len += l; }
  t.off[n] = t.len;
}
// exact-size copy on the heap: nothing may be read outside of it
static inline char* exact(const void* p, int n) { char* r = new char[n]; memcpy(r, p, n); return r; }
