// calls in two threads: nothing that both can see is written without protection
#include "norm.hpp"
#include <u5e/utf8_bounds.hpp>
#ifdef SYM_NATIVE
#include <thread>
template <class F> static void threads(const F& f) { std::thread a(f), b(f); a.join(); b.join(); }
#else
template <class F> static NI void body(const F& f) { f(); }
template <class F> static NI void threads(const F& f) { sym_mark(); body(f); sym_assert(!sym_plain(), "memory that other threads see is written without protection"); }
#endif
static NI void use(int) {}
#ifdef LOOKUPS
extern "C" NI int join_lookup(int f, int a, int b) { int r = 0; const int* p = nullptr; switch (f) { case 0: use((int)props::canonical_combining_class::resolve(a)); break; case 1: use((int)props::grapheme_cluster_break::resolve(codepoint(a))); break; case 2: p = props::canonical_decomposition_mapping::resolve(a); break; case 3: p = props::compatibility_and_canonical_decomposition_mapping::resolve(a); break; default: use(props::canonical_composition_mapping::resolve(a, b, &r)); } if (p) use(*p); return 0; }
#endif
extern "C" void harness() {
#if defined LOOKUPS
  int f = sym_choice("lookup", 5), a = (int)sym_u("a", 32), b = f == 4 ? (int)sym_u("b", 32) : 0; sym_direct(1);
  threads([=] { join_lookup(f, a, b); });
  sym_direct(0); sym_reach("lookup");
#elif defined FORMS
  if (sym_engine()) norm_tables(); int form = sym_choice("form", 4), to = sym_choice("to", 2);
  // every thread has its own text and its own output; a view may refer to the same text
  each_source(utext_n(MAXN), [=](auto& s, Text& t) { if (to) for (int i = 0; i < t.n; i++) sym_assume(t.cp[i] <= 0x10ffff); auto& in = s.s;
    threads([&in, form, to] { auto mine(in); if (to) { utf8_string o; use(normalize(form, mine, o)); } else { utf32ne_string o; use(normalize(form, mine, o)); } }); });
  sym_reach("form");
#else
  if (sym_engine()) tables(); int what = sym_choice("what", 4);
  if (what == 0) { // any octets: the bounds
    int n = sym_choice("n", 5); oct o[4]; for (int i = 0; i < n; i++) o[i] = sym_u("octet", 8); const oct* p = o;
    threads([=] { std::string x((const char*)p, n); use(utf8_bounds<std::string::iterator>::check(x.begin(), x.end())); use(utf8_bounds<std::string::iterator>::enforce(x.begin(), x.end())); }); sym_reach("bounds"); }
  else each_source(utext_n(MAXN), [=](auto& s, Text& t) { auto& in = s.s; typedef typename std::decay<decltype(in)>::type S; const bool wide = s.wide; if (wide) for (int i = 0; i < t.n; i++) sym_assume(t.cp[i] <= 0x10ffff);
      if (what == 1) { threads([&in] { auto mine(in); int k = 0; for (auto i = mine.codepoint_cbegin(); i != mine.codepoint_cend(); ++i) k += (int)*i; for (auto i = mine.codepoint_cend(); i != mine.codepoint_cbegin();) { --i; k += (int)*i; } use(k); }); sym_reach("codepoints"); }
      else if (what == 2) { threads([&in] { auto mine(in); int k = 0; for (auto g = mine.grapheme_begin(); g != mine.grapheme_end(); ++g) { auto x = *g; for (auto i = x.codepoint_begin(); i != x.codepoint_end(); ++i) k += (int)*i; } use(k); }); sym_reach("graphemes"); }
      else { typedef decltype(in.native_string) NS; typedef typename std::conditional<std::is_same<typename std::decay<decltype(in.native_string[0])>::type, int>::value, utf32ne_string, utf8_string>::type O;
        threads([&in] { auto mine(in); O o; o.template append<NS>(mine.codepoint_cbegin(), mine.codepoint_cend()); auto g = mine.grapheme_begin(), e = mine.grapheme_end(); o.template append<NS>(g, e); O copy(o); copy = o; use((int)copy.native_string.size()); }); sym_reach("append"); } });
#endif
}
