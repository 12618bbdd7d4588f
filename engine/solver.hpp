// z3 back end: translation of terms, slicing, caching
#pragma once
#include <unistd.h>
#include "expr.hpp"
#include <z3.h>
#include <new>
#include <memory>
#include <chrono>
#include <unordered_set>

typedef std::vector<u64> Model;
typedef std::shared_ptr<const Ivs> Dom;

static inline double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver {
  Z3_context z; Z3_solver s; std::unordered_map<Node*, Z3_ast> cache; std::unordered_map<Node*, Z3_ast> lits; std::vector<Z3_ast> varAst; u64 nlit = 0;
  std::unordered_map<u64, std::pair<int, std::shared_ptr<Model>>> qcache;
  u64 queries = 0, hits = 0, nsat = 0, nunsat = 0, nunk = 0, resets = 0; double time = 0, maxq = 0;
  unsigned rlimit = 200000000; u64 astCount = 0; FILE* dump = nullptr; std::function<std::string()> where; double slowLog = getenv("U5SYM_SLOW") ? atof(getenv("U5SYM_SLOW")) : 0; u64 dumpEvery = 0;
  Solver() { init(); }
  void init() {
    Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true"); z = Z3_mk_context(c); Z3_del_config(c);
    Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); if (std::string(Z3_get_error_msg(c, e)).find("memory") != std::string::npos) std::get_new_handler()(); _exit(7); });
    Z3_symbol l = Z3_mk_string_symbol(z, "QF_BV"); (void)l;
    s = Z3_mk_solver_for_logic(z, l); Z3_solver_inc_ref(z, s);
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p); Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "rlimit"), rlimit); Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p);
  }
  void reset() { Z3_solver_dec_ref(z, s); Z3_del_context(z); cache.clear(); bcache.clear(); lits.clear(); varAst.clear(); nlit = 0; astCount = 0; resets++; init(); }
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(z, w); }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); astCount++; return a; }
  Z3_ast num(u64 v, unsigned w) { astCount++; return Z3_mk_unsigned_int64(z, v, bv(w)); }
  Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(z, b, num(1, 1), num(0, 1)); }
  Z3_ast leaf(const Piece& p, Node* arg, unsigned wout) {
    u64 m = maskw(wout), co = p.coef & m; if (!co) return num(p.c, wout);
    Z3_ast x = T(arg); if (arg->w < wout) x = Z3_mk_zero_ext(z, wout - arg->w, x); else if (arg->w > wout) x = Z3_mk_extract(z, wout - 1, 0, x);
    if (co != 1) { if ((co & (co - 1)) == 0) x = Z3_mk_bvshl(z, x, num(__builtin_ctzll(co), wout)); else x = Z3_mk_bvmul(z, x, num(co, wout)); }
    if (p.c & m) x = Z3_mk_bvadd(z, x, num(p.c & m, wout)); return x;
  }
  // booleans (w==1) are translated to Bool by B(), bit-vectors by T()
  std::unordered_map<Node*, Z3_ast> bcache;
  Z3_ast treeT(const Table1* t, Node* arg, size_t i, size_t j) {
    if (i == j) return leaf(t->p[i], arg, t->wout);
    size_t mid = (i + j + 1) / 2; Z3_ast c = Z3_mk_bvult(z, T(arg), num(t->p[mid].lo, arg->w)); Z3_ast l = treeT(t, arg, i, mid - 1), r = treeT(t, arg, mid, j); return Z3_mk_ite(z, c, l, r);
  }
  Z3_ast treeB(const Table1* t, Node* arg, size_t i, size_t j) {
    if (i == j) return (t->p[i].c & 1) ? Z3_mk_true(z) : Z3_mk_false(z);
    size_t mid = (i + j + 1) / 2; Z3_ast c = Z3_mk_bvult(z, T(arg), num(t->p[mid].lo, arg->w)); return Z3_mk_ite(z, c, treeB(t, arg, i, mid - 1), treeB(t, arg, mid, j));
  }
  Z3_ast row(const Table2* t, u32 r, Node* b, bool boolean) { // over b
    std::vector<Piece> ps; for (size_t i = 0; i < t->ys.size(); i++) ps.push_back({t->ys[i].first, i + 1 < t->ys.size() ? t->ys[i + 1].first - 1 : maskw(t->wb), 0, t->cell[(size_t)r * t->ny + t->ys[i].second]});
    Table1* q = internT1(t->wb, t->wout, ps); return boolean ? treeB(q, b, 0, q->p.size() - 1) : treeT(q, b, 0, q->p.size() - 1);
  }
  Z3_ast tree2(const Table2* t, std::vector<Z3_ast>& rows, Node* a, size_t i, size_t j) {
    if (i == j) return rows[t->xs[i].second];
    size_t mid = (i + j + 1) / 2; Z3_ast c = Z3_mk_bvult(z, T(a), num(t->xs[mid].first, t->wa)); return Z3_mk_ite(z, c, tree2(t, rows, a, i, mid - 1), tree2(t, rows, a, mid, j));
  }
  Z3_ast B(Node* n) {
    auto it = bcache.find(n); if (it != bcache.end()) return it->second;
    Z3_ast r; Z3_ast q[2];
    switch (n->k) {
      case K_CONST: r = n->cv ? Z3_mk_true(z) : Z3_mk_false(z); break;
      case K_EQ: r = n->a->w == 1 ? Z3_mk_iff(z, B(n->a), B(n->b)) : Z3_mk_eq(z, T(n->a), T(n->b)); break;
      case K_ULT: if (n->a->w == 1) { q[0] = Z3_mk_not(z, B(n->a)); q[1] = B(n->b); r = Z3_mk_and(z, 2, q); } else r = Z3_mk_bvult(z, T(n->a), T(n->b)); break;
      case K_SLT: r = Z3_mk_bvslt(z, T(n->a), T(n->b)); break;
      case K_AND: q[0] = B(n->a); q[1] = B(n->b); r = Z3_mk_and(z, 2, q); break;
      case K_OR: q[0] = B(n->a); q[1] = B(n->b); r = Z3_mk_or(z, 2, q); break;
      case K_XOR: r = n->b->isc() && n->b->cv ? Z3_mk_not(z, B(n->a)) : Z3_mk_xor(z, B(n->a), B(n->b)); break;
      case K_ITE: r = Z3_mk_ite(z, B(n->a), B(n->b), B(n->c)); break;
      case K_L1: r = treeB(n->t1, n->a, 0, n->t1->p.size() - 1); break;
      case K_L2: { std::vector<Z3_ast> rows; for (u32 i = 0; i < n->t2->nx; i++) rows.push_back(keep(row(n->t2, i, n->b, true))); r = tree2(n->t2, rows, n->a, 0, n->t2->xs.size() - 1); } break;
      case K_VAR: r = Z3_mk_eq(z, T(n), num(1, 1)); break;
      default: r = Z3_mk_eq(z, T(n), num(1, 1)); break;
    }
    bcache[n] = keep(r); return r;
  }
  Z3_ast T(Node* n) {
    auto it = cache.find(n); if (it != cache.end()) return it->second;
    Z3_ast r;
    switch (n->k) {
      case K_CONST: r = num(n->cv, n->w); break;
      case K_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%d", n->aux); r = Z3_mk_const(z, Z3_mk_string_symbol(z, nm), bv(n->w)); if (varAst.size() <= (size_t)n->aux) varAst.resize(n->aux + 1); varAst[n->aux] = r; } break;
      case K_ADD: r = Z3_mk_bvadd(z, T(n->a), T(n->b)); break; case K_MUL: r = Z3_mk_bvmul(z, T(n->a), T(n->b)); break;
      case K_UDIV: r = Z3_mk_bvudiv(z, T(n->a), T(n->b)); break; case K_SDIV: r = Z3_mk_bvsdiv(z, T(n->a), T(n->b)); break;
      case K_UREM: r = Z3_mk_bvurem(z, T(n->a), T(n->b)); break; case K_SREM: r = Z3_mk_bvsrem(z, T(n->a), T(n->b)); break;
      case K_SHL: r = Z3_mk_bvshl(z, T(n->a), T(n->b)); break; case K_LSHR: r = Z3_mk_bvlshr(z, T(n->a), T(n->b)); break; case K_ASHR: r = Z3_mk_bvashr(z, T(n->a), T(n->b)); break;
      case K_CONCAT: r = Z3_mk_concat(z, T(n->a), T(n->b)); break; case K_EXTRACT: r = Z3_mk_extract(z, n->aux + n->w - 1, n->aux, T(n->a)); break;
      case K_ZEXT: r = Z3_mk_zero_ext(z, n->w - n->a->w, T(n->a)); break; case K_SEXT: r = Z3_mk_sign_ext(z, n->w - n->a->w, T(n->a)); break;
      case K_AND: r = n->w == 1 ? b2bv(B(n)) : Z3_mk_bvand(z, T(n->a), T(n->b)); break;
      case K_OR: r = n->w == 1 ? b2bv(B(n)) : Z3_mk_bvor(z, T(n->a), T(n->b)); break;
      case K_XOR: r = n->w == 1 ? b2bv(B(n)) : Z3_mk_bvxor(z, T(n->a), T(n->b)); break;
      case K_EQ: case K_ULT: case K_SLT: r = b2bv(B(n)); break;
      case K_ITE: r = n->w == 1 ? b2bv(B(n)) : Z3_mk_ite(z, B(n->a), T(n->b), T(n->c)); break;
      case K_L1: r = n->w == 1 ? b2bv(B(n)) : treeT(n->t1, n->a, 0, n->t1->p.size() - 1); break;
      case K_L2: if (n->w == 1) r = b2bv(B(n)); else { std::vector<Z3_ast> rows; for (u32 i = 0; i < n->t2->nx; i++) rows.push_back(keep(row(n->t2, i, n->b, false))); r = tree2(n->t2, rows, n->a, 0, n->t2->xs.size() - 1); } break;
      default: abort();
    }
    cache[n] = keep(r); return r;
  }
  Z3_ast lit(Node* n) {
    auto it = lits.find(n); if (it != lits.end()) return it->second;
    char nm[32]; snprintf(nm, sizeof nm, "p%llu", (unsigned long long)nlit++); Z3_ast p = keep(Z3_mk_const(z, Z3_mk_string_symbol(z, nm), Z3_mk_bool_sort(z)));
    Z3_ast b = B(n); Z3_solver_assert(z, s, Z3_mk_implies(z, p, b)); lits[n] = p; return p;
  }
  // 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<Node*>& cs, std::shared_ptr<Model>* m) {
    std::vector<Node*> v; std::vector<const std::vector<u32>*> su;
    for (Node* c : cs) { if (c->isc()) { if (!c->cv) return 0; continue; } v.push_back(c); }
    std::sort(v.begin(), v.end(), [](Node* a, Node* b) { return a->id < b->id; }); v.erase(std::unique(v.begin(), v.end()), v.end());
    u64 h = 0x1234567; for (Node* c : v) h = hmix(hmix(h, c->id), 17);
    auto it = qcache.find(h); if (it != qcache.end() && (it->second.first != 1 || !m || it->second.second)) { hits++; if (m) *m = it->second.second; return it->second.first; }
    if (nlit > 4000 || astCount > 3000000) reset();
    double t0 = nowS(); std::vector<Z3_ast> as; for (Node* c : v) as.push_back(lit(c));
    Z3_lbool r = Z3_solver_check_assumptions(z, s, as.size(), as.data()); queries++;
    std::shared_ptr<Model> mm; int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) {
      nsat++; mm = std::make_shared<Model>(C.vars.size(), 0); Z3_model zm = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, zm);
      std::vector<u32> all; for (Node* c : v) all.insert(all.end(), c->sup->begin(), c->sup->end()); std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
      for (u32 x : all) { if (x >= varAst.size() || !varAst[x]) continue; Z3_ast o; if (Z3_model_eval(z, zm, varAst[x], true, &o)) { uint64_t val = 0; if (Z3_get_ast_kind(z, o) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(z, o, &val); (*mm)[x] = val; } }
      Z3_model_dec_ref(z, zm);
      Evaluator e(*mm); for (Node* c : v) if (!e(c)) { fprintf(stderr, "model does not satisfy %s\n", show(c).c_str()); _exit(8); }
    } else if (res == 0) nunsat++; else { nunk++; if (getenv("U5SYM_DEBUG")) fprintf(stderr, "unknown: %s\n", Z3_solver_get_reason_unknown(z, s)); }
    double dt = nowS() - t0; time += dt; if (slowLog && dt > slowLog) { std::string o; for (Node* c : v) o += "\n    " + show(c, 7).substr(0, 900); fprintf(stderr, "SLOW %.2fs res %d %s:%s\n", dt, res, where ? where().substr(0, 700).c_str() : "", o.c_str()); } maxq = std::max(maxq, dt);
    if (dump && dumpEvery && queries % dumpEvery == 0 && res >= 0) { // self-contained query for a second solver
      std::vector<Z3_ast> fs; for (Node* c : v) fs.push_back(B(c)); Z3_ast last = fs.empty() ? Z3_mk_true(z) : fs.back(); if (!fs.empty()) fs.pop_back();
      fprintf(dump, ";;QUERY %s\n%s\n", res ? "sat" : "unsat", Z3_benchmark_to_smtlib_string(z, "q", "QF_BV", res ? "sat" : "unsat", "", fs.size(), fs.data(), last)); }
    if (m) *m = mm; if (res >= 0) qcache[h] = {res, mm}; return res;
  }
};
