// texts with their reference partition into graphemes
#pragma once
#include "props.hpp"
#include "text.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
using namespace u5e;
typedef std::experimental::string_view SV; typedef std::experimental::basic_string_view<int> SV32;
struct Part { int n, ng, start[MAXCP + 1], of[MAXCP + 1]; };  // grapheme g covers codepoints start[g]..start[g+1]-1; of[n] = ng
static inline void tables() { summ_oracle_gcb(0); summ_impl_gcb(0); }
static inline void partition(Part& p, const uint32_t* cp, int n) {
  p.n = n; p.ng = 0; for (int i = 0; i < n; i++) { bool b = i == 0; if (i) b = sym_conc(merge_break_rule(summ_oracle_gcb((int)cp[i - 1]), summ_oracle_gcb((int)cp[i]))) != 0; if (b) p.start[p.ng++] = i; p.of[i] = p.ng - 1; }
  p.start[p.ng] = n; p.of[n] = p.ng;
}
// a text in one encoding; position k is an octet or a codepoint
template <class S> struct Src { S s; const Text* t; bool wide;
  typedef typename S::const_iterator IT;
  int positions() const { return wide ? t->n : t->len; }
  int cpAt(int p) const { return wide ? p : t->cpAt(p); }
  int startOf(int c) const { return wide ? c : t->off[c]; }
  IT at(int p) { return IT(s.native_cbegin() + p); } };
template <class IT> struct rawpos { static IT of(IT i) { return i; } };
template <class R> struct rawpos<utf8_const_iterator<R>> { static R of(utf8_const_iterator<R> i) { return i.raw_iterator_; } };
template <class IT> static inline auto native(IT i) { return rawpos<IT>::of(i); }
static inline uint32_t fill_or_any(int i) {
#ifdef LONG
  if (i != long_at) return long_fill(long_kind, i);
#endif
#ifdef ALPHA
  return sym_alpha("cp"); }
#else
  return sym_u("cp", 32); }
#endif
#ifdef LONG
// one codepoint per grapheme, one grapheme (marks, syllables, flags, emoji), many, texts that grow and shrink
static inline uint32_t fill_unicode(int k, int i) {
  static const uint32_t hangul[3] = {0x1100, 0x1161, 0x11a8}, marks[4] = {0x300, 0x323, 0x345, 0x301}, emoji[4] = {0x1f466, 0x1f3fd, 0x200d, 0x2764}, mix[5] = {'e', 0x301, 0x1f82, 0xac00, 0x11a8};
  switch (k) { case 0: return 'a'; case 1: return 0x301; case 2: return hangul[i % 3]; case 3: return marks[i % 4]; case 4: return emoji[i % 4]; case 5: return mix[i % 5]; case 6: return 0x1e69; case 7: return 0xac01; case 8: return 0x344; default: return 0xfdfa; } }
static inline int utext_n(int) { long_text(10, fill_unicode); return long_n; }
#else
static inline int utext_n(int max) { return text_n(max); }
#endif
template <class F> static inline void each_source(int n, F f) {
  Text t; t.n = n;
#if defined LONG && defined HALF
  int kind = 2 * sym_choice("storage", 2) + (long_kind & 1);
#else
  int kind = sym_choice("storage", 4);
#endif
 
  if (kind < 2) { sym_text(t, n); if (kind == 0) { Src<utf8_string> s{utf8_string(std::string((char*)t.o, t.len)), &t, false}; f(s, t); } else { char* b = exact(t.o, t.len); Src<utf8_string_view> s{utf8_string_view(SV(b, t.len)), &t, false}; f(s, t); } }
  else { int* b = new int[n]; for (int i = 0; i < n; i++) b[i] = (int)(t.cp[i] = fill_or_any(i)); 
    if (kind == 2) { Src<utf32ne_string> s{utf32ne_string(std::basic_string<int>(b, n)), &t, true}; f(s, t); } else { Src<utf32ne_string_view> s{utf32ne_string_view(SV32(b, n)), &t, true}; f(s, t); } }
}
