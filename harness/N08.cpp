// the same text normalized from and to every encoding; counts and previous content (N08: encodings, N09: -DAPPEND)
#include "norm.hpp"
#ifndef MAXN
#define MAXN 2
#endif
static const int PRE[3] = {1, 3, 15};
template <class O> struct Out;
template <> struct Out<utf8_string> { utf8_string o; oct pre[16]; int np;
  Out(int n) : np(n) { for (int i = 0; i < n; i++) pre[i] = sym_u("before", 8); o = utf8_string(std::string((char*)pre, n)); }
  int size() const { return (int)o.native_string.size(); }
  void kept() { sym_assert(size() >= np && sym_memeq(o.native_string.data(), pre, np), "previous content of the output"); }
  int added() { int k = 0; for (int i = np; i < size(); i++) k += sym_conc((o.native_string[i] & 0xc0) != 0x80) != 0; return k; }
  void expect(const Seq& r) { static Octets e; ref_encode(r, e); sym_assert(size() - np == e.n, "number of octets"); sym_assert(sym_memeq(o.native_string.data() + np, e.o, e.n), "octets of the text normalized as UTF-32"); } };
template <> struct Out<utf32ne_string> { utf32ne_string o; int pre[16]; int np;
  Out(int n) : np(n) { for (int i = 0; i < n; i++) pre[i] = (int)sym_u("before", 32); o = utf32ne_string(std::basic_string<int>(pre, n)); }
  int size() const { return (int)o.native_string.size(); }
  void kept() { sym_assert(size() >= np, "previous content of the output"); for (int i = 0; i < np; i++) sym_assert(o.native_string[i] == pre[i], "previous content of the output"); }
  int added() { return size() - np; }
  void expect(const Seq& r) { sym_assert(size() - np == r.n, "number of codepoints"); for (int i = 0; i < r.n; i++) sym_assert(o.native_string[np + i] == r.c[i], "codepoint of the text normalized as UTF-32"); } };
static void unchanged(Src<utf8_string>& s, const Text& t) { sym_assert((int)s.s.native_string.size() == t.len && sym_memeq(s.s.native_string.data(), t.o, t.len), "input text after normalizing"); }
static void unchanged(Src<utf8_string_view>& s, const Text& t) { sym_assert((int)s.s.native_string.size() == t.len && sym_memeq(s.s.native_string.data(), t.o, t.len), "input text after normalizing"); }
template <class S> static void unchanged(Src<S>& s, const Text& t) { sym_assert((int)s.s.native_string.size() == t.n, "input text after normalizing"); for (int i = 0; i < t.n; i++) sym_assert((uint32_t)s.s.native_string[i] == t.cp[i], "input text after normalizing"); }
struct Run {
  template <class O, class S> void go(Src<S>& src, const Text& t) {
    int f = sym_choice("form", 4);
#ifdef APPEND
    Out<O> out(PRE[t.n < 2 ? sym_choice("previous", 3) : t.n % 2]); int k = normalize(f, src.s, out.o); sym_observe("count", k); out.kept(); sym_assert(out.added() == k, "returned count"); unchanged(src, t); sym_reach(k > t.n ? "longer" : k < t.n ? "shorter" : "same"); if (!t.n) sym_reach("empty");
    // a second text behind the first one
    if (t.n == 1) { int m = out.size(); O c(out.o); int q = normalize(f, src.s, out.o); sym_assert(q == k, "returned count of the second text"); sym_assert(out.size() - m == m - out.np, "length of the second text"); sym_reach("twice"); for (int i = 0; i < m; i++) sym_assert(out.o.native_string[i] == c.native_string[i], "output before the second text"); }
#else
    utf32ne_string u{std::basic_string<int>((const int*)t.cp, t.n)}, w; int k = normalize(f, u, w); Seq r; r.n = 0; for (size_t i = 0; i < w.native_string.size(); i++) r.put(w.native_string[i]);
    Out<O> out(0); int q = normalize(f, src.s, out.o); sym_observe("count", q); sym_assert(q == k, "returned count"); out.expect(r); sym_reach(r.n > t.n ? "longer" : r.n < t.n ? "shorter" : "same"); if (!t.n) sym_reach("empty");
#endif
  }
  template <class S> void operator()(Src<S>& s, const Text& t) {
    if (sym_choice("output", 2)) go<utf32ne_string>(s, t); else { if (s.wide) for (int i = 0; i < t.n; i++) sym_assume(t.cp[i] <= 0x10ffff); go<utf8_string>(s, t); } }
};
extern "C" void harness() { norm_tables(); each_source(utext_n(MAXN), Run()); }
