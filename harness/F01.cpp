// filter calls the operation once per element, in order, and sums what it returns
#include "grapheme.hpp"
#include <u5e/filter.hpp>
#include <list>
#ifndef MAXN
#define MAXN 3
#endif
struct Log { int calls; int start[MAXN + 2], end[MAXN + 2]; int val[MAXN + 2]; int give[MAXN + 2]; bool foreign; Log* self; };
static void fresh(Log& l, int n) { l.calls = 0; l.foreign = false; l.self = &l; for (int i = 0; i < n + 1; i++) { uint32_t r = sym_u("returned", 32); sym_assume(r + 0x1000000u < 0x2000000u); l.give[i] = (int)r; } }
static void expect(Log& l, int n, int sum) { sym_assert(l.calls == n, "number of calls of the operation"); sym_assert(!l.foreign, "output object handed to the operation"); int s = 0; for (int i = 0; i < n; i++) s += l.give[i]; sym_observe("sum", (unsigned)sum); sym_assert(sum == s, "sum of the values returned"); sym_reach(n ? "called" : "empty"); }
static int note(Log& l, int v) { if (l.self != &l) l.foreign = true; if (l.calls > MAXN) { sym_assert(0, "operation called too often"); return 0; } l.val[l.calls] = v; return l.give[l.calls++]; }
static int on_int(const int& v, Log& l) { return note(l, v); }
static int on_cp(const codepoint c, Log& l) { return note(l, c.value); }
struct Obj { int bias; template <class T> int operator()(T v, Log& l) const { return note(l, codepoint(v).value + bias); } };
template <class S> static int on_gr(basic_grapheme<S> g, Log& l) { int k = 0, h = 0; for (auto c = g.codepoint_begin(); c != g.codepoint_end(); c++) { k++; h = h * 31 + codepoint(*c).value; } l.start[l.calls <= MAXN ? l.calls : 0] = k; return note(l, h); }
struct Walk { template <class S> void operator()(Src<S>& src, const Text& t) {
  Log l; fresh(l, t.n); int kind = sym_choice("elements", 4);
  if (kind == 0) { int r = filter(src.s.codepoint_begin(), src.s.codepoint_end(), l, on_cp); expect(l, t.n, r); for (int i = 0; i < t.n; i++) sym_assert((uint32_t)l.val[i] == t.cp[i], "element handed to the operation"); }
  else if (kind == 1) { Obj o = {7}; int r = filter(src.s.codepoint_cbegin(), src.s.codepoint_cend(), l, o); expect(l, t.n, r); for (int i = 0; i < t.n; i++) sym_assert((uint32_t)l.val[i] == t.cp[i] + 7, "element handed to the operation object"); }
  else if (kind == 2) { int a = sym_pos("from", t.n + 1); int r = filter(src.at(src.startOf(a)), src.s.codepoint_cend(), l, on_cp); expect(l, t.n - a, r); for (int i = a; i < t.n; i++) sym_assert((uint32_t)l.val[i - a] == t.cp[i], "element of a part of the text"); sym_reach("part"); }
  else { Part p; partition(p, t.cp, t.n); int r = filter(src.s.grapheme_begin(), src.s.grapheme_end(), l, on_gr<S>); expect(l, p.ng, r);
    for (int g = 0; g < p.ng; g++) { int h = 0; for (int i = p.start[g]; i < p.start[g + 1]; i++) h = h * 31 + (int)t.cp[i]; sym_assert(l.start[g] == p.start[g + 1] - p.start[g], "length of the grapheme handed to the operation"); sym_assert(l.val[g] == h, "grapheme handed to the operation"); } sym_reach("graphemes"); }
} };
static void ints() { int n = sym_choice("n", MAXN + 1); int* b = new int[n]; int v[MAXN + 1]; std::list<int> L; for (int i = 0; i < n; i++) { b[i] = v[i] = (int)sym_u("v", 32); L.push_back(v[i]); } Log l; fresh(l, n);
  int r = sym_choice("list", 2) ? filter(L.begin(), L.end(), l, on_int) : filter((const int*)b, (const int*)b + n, l, on_int); expect(l, n, r); for (int i = 0; i < n; i++) sym_assert(l.val[i] == v[i], "element of an array or list handed to the operation"); sym_reach("plain"); }
extern "C" void harness() { tables(); if (sym_choice("texts", 2)) each_source(utext_n(MAXN), Walk()); else ints(); }
