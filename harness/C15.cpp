// standard algorithms over codepoint iterators: the same as over an array of the codepoints
#include "norm.hpp"
#include <algorithm>
#include <numeric>
#include <vector>
#ifndef MAXN
#define MAXN 3
#endif
template <class B> static void algorithms(B b, B e, const int* c, int n) {
  int what = sym_choice("what", 6), x = 0; const int* ce = c + n;
  auto at = [&](B i) { int k = 0; B j = b; while (!(j == i)) { sym_assert(!(j == e), "iterator outside of the text"); ++j; k++; } return k; };
  switch (what) {
    case 0: { sym_assert((int)std::distance(b, e) == n, "std::distance"); std::vector<codepoint> v(b, e); sym_assert((int)v.size() == n, "std::vector"); for (int i = 0; i < n; i++) sym_assert(v[i].value == c[i], "std::vector");
      std::vector<int> w; std::copy(b, e, std::back_inserter(w)); sym_assert((int)w.size() == n, "std::copy"); for (int i = 0; i < n; i++) sym_assert(w[i] == c[i], "std::copy"); std::basic_string<int> s; std::reverse_copy(b, e, std::back_inserter(s)); for (int i = 0; i < n; i++) sym_assert(s[n - 1 - i] == c[i], "std::reverse_copy");
      int m[MAXCP + 1]; int* p = std::copy_backward(b, e, m + n); sym_assert(p == m, "std::copy_backward"); for (int i = 0; i < n; i++) sym_assert(m[i] == c[i], "std::copy_backward"); sym_reach("copied"); break; }
    case 1: { x = (int)sym_u("value", 32); int k = (int)(std::find(c, ce, x) - c); sym_assert(at(std::find(b, e, x)) == k, "std::find"); sym_assert(at(std::find(b, e, codepoint(x))) == k, "std::find"); sym_assert(std::count(b, e, codepoint(x)) == std::count(c, ce, x), "std::count");
      B part = std::find_if(b, e, [=](codepoint y) { return y.value > x; }); sym_assert(at(part) == std::find_if(c, ce, [=](int y) { return y > x; }) - c, "std::find_if"); sym_reach(k == n ? "absent" : "found"); break; }
    case 2: { int y[3], m = sym_choice("other", 3); for (int i = 0; i < m; i++) y[i] = (int)sym_u("other", 32); int less = std::lexicographical_compare(c, ce, y, y + m); sym_assert((int)std::lexicographical_compare(b, e, y, y + m) == less, "std::lexicographical_compare"); sym_assert(std::equal(b, e, y, y + m) == std::equal(c, ce, y, y + m), "std::equal");
      if (m) { auto s = std::search(b, e, y, y + m); sym_assert(at(s) == std::search(c, ce, y, y + m) - c, "std::search"); sym_assert(at(std::find_first_of(b, e, y, y + m)) == std::find_first_of(c, ce, y, y + m) - c, "std::find_first_of"); } sym_reach("compared"); break; }
    case 3: { sym_assert(at(std::max_element(b, e)) == std::max_element(c, ce) - c, "std::max_element"); sym_assert(at(std::adjacent_find(b, e)) == std::adjacent_find(c, ce) - c, "std::adjacent_find"); sym_assert(std::is_sorted(b, e) == std::is_sorted(c, ce), "std::is_sorted"); sym_reach("order"); break; }
    case 4: { // multi-pass: positions that are kept stay what they are
      std::vector<B> k; for (B i = b; i != e; i++) k.push_back(i); k.push_back(e); int i = sym_pos("i", n + 1), j = sym_pos("j", n + 1); B p = k[i], q(p); 
      if (i < n) { sym_assert((int)codepoint(*p) == c[i], "kept position"); sym_assert((int)codepoint(*p) == c[i], "kept position, read again"); } if (i <= j) std::advance(p, j - i); else { std::advance(p, j - i); } sym_assert(p == k[j], "std::advance"); sym_assert(q == k[i], "copy of an iterator that was moved"); sym_assert(k[i] == q, "kept position after moving a copy");
      if (i < n) { sym_assert((int)codepoint(*std::next(p, i - j)) == c[i], "std::next"); sym_assert((int)codepoint(*q) == c[i], "copy of an iterator that was moved"); } if (j > 0) sym_assert((int)codepoint(*std::prev(p)) == c[j - 1], "std::prev"); sym_assert((p == q) == (i == j), "equality"); sym_assert((p != q) == (i != j), "inequality"); std::swap(p, q); sym_assert(p == k[i] && q == k[j], "std::swap"); p = q; sym_assert(p == k[j], "assignment"); sym_reach("kept"); break; }
    default: { unsigned sum = 0; std::for_each(b, e, [&](codepoint y) { sum = sum * 3 + (unsigned)y.value; }); unsigned r = 0; for (int i = 0; i < n; i++) r = r * 3 + (unsigned)c[i]; sym_assert(sum == r, "std::for_each"); std::vector<codepoint> v; std::transform(b, e, std::back_inserter(v), [](codepoint y) { return codepoint(y.value ^ 1); }); sym_assert((int)v.size() == n, "std::transform"); for (int i = 0; i < n; i++) sym_assert(v[i].value == (c[i] ^ 1), "std::transform");
      std::reverse_iterator<B> rb(e), re(b); int k = n; for (auto i = rb; i != re; ++i) { k--; sym_assert(k >= 0 && (int)codepoint(*i) == c[k], "std::reverse_iterator"); } sym_assert(k == 0, "std::reverse_iterator"); sym_reach("each"); }
  }
}
struct Run {
  template <class S> void operator()(S& s, const Text& t) { int c[MAXCP + 1]; for (int i = 0; i < t.n; i++) c[i] = (int)t.cp[i]; auto& in = s.s; if (sym_choice("const", 2)) algorithms(in.codepoint_cbegin(), in.codepoint_cend(), c, t.n); else plain(in, c, t.n); }
  template <class S> void plain(S& in, const int* c, int n) { algorithms(in.codepoint_begin(), in.codepoint_end(), c, n); }
};
extern "C" void harness() { if (sym_engine()) tables(); each_source(utext_n(MAXN), Run()); }
