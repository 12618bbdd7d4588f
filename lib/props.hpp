// The property lookups of u5e, each executed symbolically once over its whole
// domain and then used as the table it computes (the real lookups are decided
// by D01-D04 and G01; H01 decides that they keep no state).
#pragma once
#include "oracle.hpp"
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#define XC extern "C" __attribute__((noinline))
#ifndef ABSTRACT_PROPS
XC int summ_impl_ccc(int c) { return (int)u5e::props::canonical_combining_class::resolve(c); }
XC int ovr__ZN3u5e5props25canonical_combining_class7resolveEi(int c) { return summ_impl_ccc(c); }
XC int summ_impl_gcb(int c) { return (int)u5e::props::grapheme_cluster_break::resolve(c); }
XC int ovr__ZN3u5e5props22grapheme_cluster_break7resolveENS_9codepointE(int c) { return summ_impl_gcb(c); }
static inline void impl_seq(const int* p, int* out, int n) { int k = 0; if (p) while (k < n - 1 && p[k]) { out[k + 1] = p[k]; k++; } out[0] = k; for (int i = k + 1; i < n; i++) out[i] = 0; }
static inline const int* impl_ptr(const int* d) { int k = (int)sym_conc((uint64_t)(unsigned)d[0]); if (!k) return nullptr; int* r = (int*)sym_scratch(4 * (k + 1)); for (int i = 0; i < k; i++) r[i] = d[i + 1]; r[k] = 0; return r; }
XC void summ_impl_dec(int c, int* out, int n) { impl_seq(u5e::props::canonical_decomposition_mapping::resolve(c), out, n); }
XC const int* ovr__ZN3u5e5props31canonical_decomposition_mapping7resolveEi(int c) { int d[6]; summ_impl_dec(c, d, 6); return impl_ptr(d); }
XC void summ_impl_kdec(int c, int* out, int n) { impl_seq(u5e::props::compatibility_and_canonical_decomposition_mapping::resolve(c), out, n); }
XC const int* ovr__ZN3u5e5props49compatibility_and_canonical_decomposition_mapping7resolveEi(int c) { int d[20]; summ_impl_kdec(c, d, 20); return impl_ptr(d); }
XC int summ_impl_comp(int a, int b) { int r = 0; return u5e::props::canonical_composition_mapping::resolve(a, b, &r) ? r : 0; }
XC bool ovr__ZN3u5e5props29canonical_composition_mapping7resolveEiiPi(int a, int b, int* r) { int x = summ_impl_comp(a, b); if (!sym_conc(x != 0)) return false; *r = x; return true; }
#endif
