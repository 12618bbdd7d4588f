// memory: every allocation may fail; nothing is leaked, and what fails leaves the old content in front
#include "norm.hpp"
#include <u5e/canonical_combining_order.hpp>
#include <u5e/canonical_composition.hpp>
#include <new>
#ifdef SYM_NATIVE
#include <cstdlib>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" int sym_failing;
static int live_n = 0; static void up(const volatile void*, size_t) { live_n++; } static void down(const volatile void* p) { if (p) live_n--; }
extern "C" int sym_live() { static int on = __sanitizer_install_malloc_and_free_hooks(up, down); (void)on; return live_n; }
static void* take(size_t n) { if (sym_failing && sym_input("allocation fails", 1)) return nullptr; return malloc(n ? n : 1); }
void* operator new(size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
#endif
// content of a text, in memory that is not counted
template <class CH> struct Held { int n; CH* u; template <class NS> void take(const NS& s) { n = (int)s.size(); u = (CH*)sym_scratch(n * sizeof(CH)); for (int i = 0; i < n; i++) u[i] = (CH)s[i]; }
  template <class NS> void same(const NS& s, const char* m) const { sym_assert((int)s.size() == n, m); for (int i = 0; i < n; i++) sym_assert((CH)s[i] == u[i], m); } };
static NI void use(int) {}
// op(out) appends to out: with and without failing allocations
template <class O, class CH, class OP> static void faults(O& pre, OP op) {
  int base = sym_live(); Held<CH> all; { O out(pre); op(out); all.take(out.native_string); } int keep = (int)pre.native_string.size();
  { O out(pre); bool failed = false; sym_fail(1); try { op(out); sym_fail(0); } catch (std::bad_alloc&) { sym_fail(0); failed = true; } catch (...) { sym_fail(0); sym_assert(0, "another exception than std::bad_alloc"); }
    int n = (int)out.native_string.size(); if (!failed) { sym_reach("complete"); all.same(out.native_string, "result of a run that did not report a failure"); }
    else { sym_reach("failed"); sym_assert(n >= keep, "length after a failure"); for (int i = 0; i < keep; i++) sym_assert((CH)out.native_string[i] == 'b', "old content after a failure"); for (int i = 0; i < n; i++) use((int)out.native_string[i]); }
    sym_observe("n", n); }
  { O out(pre); op(out); all.same(out.native_string, "result after a failure"); }
  sym_assert(sym_live() == base, "memory is not released");
}
template <class O> static void before(O& o) { int n = sym_choice("before", PRE); static const int k[3] = {0, 14, 3}; for (int i = 0; i < k[n]; i++) o.native_string.push_back('b'); }
template <class S, class F> static void work(S& s, const Text& t, F f) {
  auto &in = s.s.native_string; typedef typename std::decay<decltype(in[0])>::type U; Held<U> src; src.take(in); utf8_string o8; utf32ne_string o32;
  if (sym_choice("to", 2)) { for (int i = 0; i < t.n; i++) sym_assume(t.cp[i] <= 0x10ffff); before(o8); f(s, o8, (oct*)0); } else { before(o32); f(s, o32, (int*)0); }
  src.same(in, "the input is unchanged");
}
// in place: the same with any failing allocations
static void inplace(const uint32_t* cp, int n) {
  int base = sym_live(); utf32ne_string a, b; for (int i = 0; i < n; i++) { a.native_string.push_back((int)cp[i]); b.native_string.push_back((int)cp[i]); } int ka = 0, kb = 0;
  canonical_ordering(a); int la = (int)(canonical_composition(a, &ka) - a.codepoint_begin());
  sym_fail(1); bool failed = false; try { canonical_ordering(b); int lb = (int)(canonical_composition(b, &kb) - b.codepoint_begin()); sym_fail(0); sym_assert(la == lb, "length with failing allocations"); } catch (std::bad_alloc&) { sym_fail(0); failed = true; }
  if (!failed) { sym_assert(ka == kb, "compositions with failing allocations"); for (int i = 0; i < la; i++) sym_assert(a.native_string[i] == b.native_string[i], "result in place with failing allocations"); sym_reach("in place"); }
  { utf32ne_string x, y; x.native_string.swap(a.native_string); y.native_string.swap(b.native_string); } sym_assert(sym_live() == base, "memory is not released");
}
extern "C" void harness() {
  if (sym_engine()) norm_tables(); else sym_reach("start"); sym_live(); int op = FROM + sym_choice("op", OPS);
  if (op < 4) each_source(utext_n(MAXN), [=](auto& s, Text& t) { typedef typename std::decay<decltype(s.s)>::type S;
      work(s, t, [=](auto& src, auto& pre, auto* u) { typedef typename std::decay<decltype(pre)>::type O; faults<O, typename std::decay<decltype(*u)>::type>(pre, [&](O& out) { normalize(op, src.s, out); }); }); });
  else if (op == 4) { // ranges of the same encoding, codepoints or graphemes; then the other encoding
    int what = sym_choice("what", 3);
    each_source(utext_n(MAXA), [=](auto& s, Text& t) { typedef typename std::decay<decltype(s.s)>::type S; typedef typename std::conditional<std::is_same<typename std::decay<decltype(s.s.native_string[0])>::type, int>::value, utf32ne_string, utf8_string>::type O; typedef typename std::conditional<std::is_same<O, utf8_string>::value, oct, int>::type U;
      O pre; before(pre); Held<U> src; src.take(s.s.native_string); typedef decltype(s.s.native_string) NS;
      faults<O, U>(pre, [&](O& out) { if (what == 2) { O copy(out); out = copy; copy.native_string.push_back('x'); } if (what) { out.template append<NS>(s.s.codepoint_cbegin(), s.s.codepoint_cend()); } else { auto g = s.s.grapheme_begin(), e = s.s.grapheme_end(); out.template append<NS>(g, e); } });
      src.same(s.s.native_string, "the input is unchanged"); }); }
  else if (op == 5) { int n = utext_n(MAXA); int* b = (int*)sym_scratch(4 * n); for (int i = 0; i < n; i++) { b[i] = (int)fill_or_any(i); sym_assume((uint32_t)b[i] <= 0x10ffff); } SV32 v(b, n); utf32ne_string_view w(v);
    if (sym_choice("to", 2)) { utf8_string pre; before(pre); faults<utf8_string, oct>(pre, [&](utf8_string& o) { o.template append_from_utf32ne<SV32>(v.cbegin(), v.cend()); }); } else { utf32ne_string pre; before(pre); faults<utf32ne_string, int>(pre, [&](utf32ne_string& o) { o.template append_from_utf32ne<SV32>(v.cbegin(), v.cend()); }); } }
  else if (op == 6) { int c = (int)sym_u("cp", 32), k = sym_choice("kompat", 2); utf32ne_string pre; before(pre); faults<utf32ne_string, int>(pre, [&](utf32ne_string& o) { if (k) compatibility_and_canonical_decomposition<utf32ne_string>(codepoint(c), o); else canonical_decomposition<utf32ne_string>(codepoint(c), o); }); }
  else { uint32_t cp[MAXCP]; int n = utext_n(MAXI); for (int i = 0; i < n; i++) cp[i] = fill_or_any(i); inplace(cp, n); }
}
