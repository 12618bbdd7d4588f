// N01-N04: -DFORM=0..3
#include "norm.hpp"
#ifndef MAXN
#define MAXN 2
#endif
#ifndef FORM
#define FORM FD
#endif
// KF-B: compatibility jamo are graphemes of their own, so that they are not composed with each other
static bool jamo(const Text& t) { if (FORM != FKC) return false; for (int i = 0; i < t.n; i++) if (sym_conc((t.cp[i] >= 0x3131 && t.cp[i] <= 0x318e) || (t.cp[i] >= 0xffa0 && t.cp[i] <= 0xffdc))) return true; return false; }
static void expect(utf32ne_string& o, const Seq& r) {
  sym_assert((int)o.native_string.size() == r.n, "number of codepoints"); for (int i = 0; i < r.n; i++) { sym_observe("o", (unsigned)o.native_string[i]); sym_assert(o.native_string[i] == r.c[i], "codepoint of the normalized text"); } }
static void expect(utf8_string& o, const Seq& r) { Octets e; ref_encode(r, e); sym_observe("len", o.native_string.size()); sym_assert((int)o.native_string.size() == e.n, "number of octets"); sym_assert(sym_memeq(o.native_string.data(), e.o, e.n), "octets of the normalized text"); }
struct Run {
  template <class S, class O> void go(Src<S>& src, const Text& t, O&) {
    O out; Seq r; r.n = 0; bool j = jamo(t);
    if (j) { Seq g; g.n = 0; Part p; partition(p, t.cp, t.n); for (int k = 0; k < p.ng; k++) ref_norm(FORM, t.cp + p.start[k], p.start[k + 1] - p.start[k], g); ref_norm(FORM, t.cp, t.n, r); if (g.n != r.n) { utf32ne_string u; normalize(FORM, src.s, u); if ((int)u.native_string.size() == g.n) { sym_reach("KF-B"); r = g; } } }
    else ref_norm(FORM, t.cp, t.n, r);
    normalize(FORM, src.s, out); expect(out, r); sym_reach(r.n > t.n ? "longer" : r.n < t.n ? "shorter" : "same"); if (t.n == 0) sym_reach("empty");
  }
  void operator()(Src<utf8_string>& s, const Text& t) { utf8_string o; go(s, t, o); }
  void operator()(Src<utf8_string_view>& s, const Text& t) { utf32ne_string o; go(s, t, o); }
  void operator()(Src<utf32ne_string>& s, const Text& t) { utf32ne_string o; go(s, t, o); }
  void operator()(Src<utf32ne_string_view>& s, const Text& t) { utf8_string o; for (int i = 0; i < t.n; i++) sym_assume(t.cp[i] <= 0x10ffff); go(s, t, o); }
};
extern "C" void harness() { norm_tables(); each_source(utext_n(MAXN), Run()); }
