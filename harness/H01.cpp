// calls after other calls: -DLOOKUPS, -DBOUNDARY or normalization of -DN1 and then -DN2 codepoints
#include "norm.hpp"
static int* sh;
static int dirty() { int d = sym_choice("writes", 2); if (sym_engine()) sym_assume(d == sym_dirty()); return d; }
#if defined LOOKUPS
// which lookup, its arguments, the result: number of values, values
static const int W = 20; enum { CCC, GCB, DEC, KDEC, COMP };
static void want(int* m) { // the table of the lookup in the engine, the lookup itself in a fresh process
  int *o = m + 3; for (int i = 0; i < W; i++) o[i] = 0;
  switch (m[0]) { case CCC: o[0] = summ_impl_ccc(m[1]); break; case GCB: o[0] = summ_impl_gcb(m[1]); break; case DEC: summ_impl_dec(m[1], o, 6); break; case KDEC: summ_impl_kdec(m[1], o, W); break; default: o[0] = summ_impl_comp(m[1], m[2]); } }
static const int* seqOf(int f, int a) { return f == DEC ? props::canonical_decomposition_mapping::resolve(a) : props::compatibility_and_canonical_decomposition_mapping::resolve(a); }
// an earlier call; a sequence in memory that may change is handed back
extern "C" NI uint64_t join_earlier(int f, int a, int b) { int r; switch (f) { case CCC: props::canonical_combining_class::resolve(a); return 0; case GCB: props::grapheme_cluster_break::resolve(codepoint(a)); return 0; case COMP: props::canonical_composition_mapping::resolve(a, b, &r); return 0; } const int* p = seqOf(f, a); return sym_writable(p) ? (uint64_t)p : 0; }
#ifdef ALPHA
static int arg(const char* name) { return (int)sym_alpha(name); } static const int TWO = 1;
#else
static int arg(const char* name) { return (int)sym_u(name, 32); } static const int TWO = 2;
#endif
static void same(const int* p, const int* w, const char* len, const char* val) { int n = 0; if (p) while (n < W - 1 && sym_conc(p[n] != 0)) n++; sym_assert(n == w[0], len); for (int i = 0; i < n; i++) sym_assert(p[i] == w[i + 1], val); }
extern "C" void harness() {
  if (sym_engine()) norm_tables(); sh = (int*)sym_shared(4096); sym_fresh_init();
  int f = sym_choice("earlier", 5), a = arg("a"), b = f == COMP ? arg("b") : 0;
  sym_mark(); sym_direct(1); uint64_t p = join_earlier(f, a, b); sym_direct(0); if (!dirty()) { sym_reach("nothing written"); sym_reach("settled"); return; }
  sym_reach("written");
  if (sym_choice("two", TWO)) { int a2 = arg("a2"), b2 = f == COMP ? arg("b2") : 0; sym_direct(1); p = join_earlier(f, a2, b2); sym_direct(0); }
  int g = sym_choice("lookup", 5), c = (int)sym_u("c", 32), d = g == COMP ? (int)sym_u("d", 32) : 0; sh[0] = g; sh[1] = c; sh[2] = d;
  int held[W]; held[0] = 0; if (p) { const int* q = (const int*)p; int n = 0; while (n < W - 1 && sym_conc(q[n] != 0)) { held[n + 1] = q[n]; n++; } held[0] = n; }
  sym_fresh(want, sh); int* o = sh + 3; int r = 0;
  sym_direct(2);
  switch (g) {
    case CCC: sym_assert((int)props::canonical_combining_class::resolve(c) == o[0], "combining class after another call"); break;
    case GCB: sym_assert((int)props::grapheme_cluster_break::resolve(codepoint(c)) == o[0], "grapheme cluster break after another call"); break;
    case COMP: { bool ok = props::canonical_composition_mapping::resolve(c, d, &r); sym_assert((ok ? r : 0) == o[0], "composition after another call"); break; }
    default: same(seqOf(g, c), o, "length of the decomposition after another call", "decomposition after another call");
  }
  sym_direct(0); if (p) same((const int*)p, held, "length of an earlier decomposition", "earlier decomposition");
  sym_reach("settled");
}
#elif defined BOUNDARY
typedef basic_grapheme_iterator<utf32ne_string> GI;
extern "C" NI int join_decide(int a, int b) { utf32ne_string s; GI it(s.codepoint_cbegin(), s.codepoint_cend()); return it.is_grapheme_boundary(codepoint(a), codepoint(b)); }
extern "C" void harness() {
  if (sym_engine()) norm_tables(); sh = (int*)sym_shared(4096); sym_fresh_init(); int a = (int)sym_u("a", 32), b = (int)sym_u("b", 32); sym_mark(); join_decide(a, b); if (!dirty()) { sym_reach("nothing written"); sym_reach("settled"); return; }
  int c = (int)sym_u("c", 32), d = (int)sym_u("d", 32); sh[0] = c; sh[1] = d; sym_fresh([](int* m) { m[2] = join_decide(m[0], m[1]); }, sh); sym_assert(join_decide(c, d) == sh[2], "boundary decision after another one"); sym_reach("settled");
}
#else
// the forms, with the grapheme iteration that they need
static void put(const int* in, int* out) { utf32ne_string s{std::basic_string<int>(in + 2, in[1])}, o; out[0] = normalize(in[0], s, o); out[1] = (int)o.native_string.size(); for (int i = 0; i < out[1]; i++) out[2 + i] = o.native_string[i]; }
static NI void run(const int* in, utf32ne_string& o) { utf32ne_string s{std::basic_string<int>(in + 2, in[1])}; normalize(in[0], s, o); }
static NI void earlier(const int* in) { utf32ne_string o; run(in, o); }
extern "C" void harness() {
  if (sym_engine()) norm_tables(); sh = (int*)sym_shared(8192); sym_fresh_init(); int* t = new int[64]; t[0] = sym_choice("form", 4); t[1] = sym_choice("n", N1 + 1); for (int i = 0; i < t[1]; i++) t[2 + i] = (int)sym_u("cp", 32);
  sym_mark(); earlier(t); if (!dirty()) { sym_reach("nothing written"); sym_reach("settled"); return; }
  utf32ne_string first; run(t, first); std::basic_string<int> held(first.native_string);
  sh[0] = sym_choice("form", 4); sh[1] = sym_choice("n", N2 + 1); for (int i = 0; i < sh[1]; i++) sh[2 + i] = (int)sym_u("cp", 32);
  sym_fresh([](int* m) { put(m, m + 64); }, sh); int *w = sh + 64, *r = new int[128]; put(sh, r);
  sym_assert(r[0] == w[0], "returned count after another text"); sym_assert(r[1] == w[1], "length after another text"); for (int i = 0; i < w[1]; i++) sym_assert(r[2 + i] == w[2 + i], "codepoint of a text normalized after another one");
  for (size_t i = 0; i < held.size(); i++) sym_assert(first.native_string[i] == held[i], "earlier normalized text");
  sym_reach("settled");
}
#endif
