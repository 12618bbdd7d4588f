// Expression layer of u5sym: hash-consed bit-vector terms, with exact
// piecewise-affine tables for terms over one input and class tables for terms
// over two inputs.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <functional>

typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef unsigned __int128 u128; typedef __int128 s128;

enum Kind : uint8_t { K_CONST, K_VAR, K_ADD, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_SLT, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE, K_L1, K_L2 };

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline s64 sx(u64 v, unsigned w) { if (w >= 64) return (s64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (s64)((v ^ m) - m); }

struct Piece { u64 lo, hi, coef, c; };  // value = coef*x + c  (mod 2^w) for x in [lo,hi]
struct Table1 { u32 id; uint8_t win, wout; bool constOnly; std::vector<Piece> p; };
struct Table2 { u32 id; uint8_t wa, wb, wout; std::vector<std::pair<u64,u32>> xs, ys; /* start -> class */ u32 nx, ny; std::vector<u64> cell; };
typedef std::vector<std::pair<u64,u64>> Ivs;    // sorted disjoint closed intervals

struct Node {
  Kind k; uint8_t w; u32 id; int aux;           // aux: var index / extract low bit
  Node *a, *b, *c; u64 cv; Table1* t1; Table2* t2;
  const std::vector<u32>* sup; u64 kz, ko;      // support, known zero bits, known one bits
  u64 stamp, memo;
  bool isc() const { return k == K_CONST; }
};

struct VarInfo { std::string name; unsigned w; bool input; int seq; };

struct Ctx {
  std::vector<VarInfo> vars; std::vector<Node*> varNodes; std::vector<Node*> nodes;
  std::unordered_multimap<u64, Node*> cons; std::unordered_multimap<u64, Table1*> t1s; std::unordered_multimap<u64, Table2*> t2s;
  u32 nt1 = 0, nt2 = 0;
  std::map<std::vector<u32>, const std::vector<u32>*> sups; const std::vector<u32>* emptySup;
  std::function<void(Kind, Node*, Node*, Node*, Node*)> audit;   // (op,a,b,c,result) called on table folds
  u64 folds = 0;
  const std::function<const Ivs*(u32)>* domOf = nullptr;         // domain of the variables of the current state
  Ctx() { emptySup = sup({}); }
  const std::vector<u32>* sup(const std::vector<u32>& v) {
    auto it = sups.find(v); if (it != sups.end()) return it->second;
    auto* p = new std::vector<u32>(v); sups[v] = p; return p;
  }
  const std::vector<u32>* uni(const std::vector<u32>* a, const std::vector<u32>* b) {
    if (a == b || b->empty()) return a; if (a->empty()) return b;
    std::vector<u32> r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r)); return sup(r);
  }
};
extern Ctx C;

static inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }

static inline void knownBits(Node* n) {
  u64 m = maskw(n->w); n->kz = n->ko = 0;
  Node *a = n->a, *b = n->b;
  switch (n->k) {
    case K_CONST: n->ko = n->cv; n->kz = ~n->cv & m; break;
    case K_AND: n->ko = a->ko & b->ko; n->kz = a->kz | b->kz; break;
    case K_OR: n->ko = a->ko | b->ko; n->kz = a->kz & b->kz; break;
    case K_XOR: n->ko = (a->ko & b->kz) | (a->kz & b->ko); n->kz = (a->kz & b->kz) | (a->ko & b->ko); break;
    case K_SHL: if (b->isc() && b->cv < n->w) { n->ko = (a->ko << b->cv) & m; n->kz = ((a->kz << b->cv) | ((1ull << b->cv) - 1)) & m; } break;
    case K_LSHR: if (b->isc() && b->cv < n->w) { n->ko = a->ko >> b->cv; n->kz = (a->kz >> b->cv) | (m & ~(m >> b->cv)); } break;
    case K_ASHR: if (b->isc() && b->cv < n->w) { u64 top = m & ~(m >> b->cv), sb = 1ull << (n->w - 1);
        n->ko = a->ko >> b->cv; n->kz = (a->kz >> b->cv) & ~top; if (a->ko & sb) n->ko |= top; if (a->kz & sb) n->kz |= top; } break;
    case K_ZEXT: n->ko = a->ko; n->kz = a->kz | (m & ~maskw(a->w)); break;
    case K_SEXT: { u64 top = m & ~maskw(a->w), sb = 1ull << (a->w - 1); n->ko = a->ko; n->kz = a->kz; if (a->ko & sb) n->ko |= top; if (a->kz & sb) n->kz |= top; } break;
    case K_EXTRACT: n->ko = (a->ko >> n->aux) & m; n->kz = (a->kz >> n->aux) & m; break;
    case K_CONCAT: n->ko = ((a->ko << b->w) | b->ko) & m; n->kz = ((a->kz << b->w) | b->kz) & m; break;
    case K_ITE: n->ko = b->ko & n->c->ko; n->kz = b->kz & n->c->kz; break;
    case K_ADD: { // low known zeros
        u64 t = ~(a->kz & b->kz) & m; int z = t ? __builtin_ctzll(t) : n->w; n->kz = z ? maskw(z) & m : 0;
        // upper zeros: if both are small
        u64 ma = m & ~a->kz, mb = m & ~b->kz; u128 s = (u128)ma + mb; if (s <= m) { u64 top = (u64)s; int hb = top ? 64 - __builtin_clzll(top) : 0; n->kz |= m & ~maskw(hb ? hb : 0); if (!hb) n->kz = m; } } break;
    case K_MUL: { u64 ma = m & ~a->kz, mb = m & ~b->kz; u128 s = (u128)ma * mb; if (s <= m) { u64 top = (u64)s; int hb = top ? 64 - __builtin_clzll(top) : 0; n->kz |= hb ? (m & ~maskw(hb)) : m; } } break;
    case K_UDIV: { u64 ma = m & ~a->kz; if (b->isc() && b->cv) { u64 top = ma / b->cv; int hb = top ? 64 - __builtin_clzll(top) : 0; n->kz = hb ? (m & ~maskw(hb)) : m; } } break;
    case K_UREM: { if (b->isc() && b->cv) { u64 top = b->cv - 1; int hb = top ? 64 - __builtin_clzll(top) : 0; n->kz = hb ? (m & ~maskw(hb)) : m; } } break;
    case K_L1: if (n->t1->constOnly) { u64 o = m, z = m; for (auto& p : n->t1->p) { o &= p.c; z &= ~p.c; } n->ko = o; n->kz = z & m; } else {
        // bounds of affine pieces
        u64 mx = 0; bool ok = true; for (auto& p : n->t1->p) { if (!p.coef) { mx = std::max(mx, p.c); continue; }
          u64 v0 = (p.coef * p.lo + p.c) & m, v1 = (p.coef * p.hi + p.c) & m; u64 sc = p.coef; s64 cs = sx(sc, n->w);
          s128 d = (s128)cs * (s128)(p.hi - p.lo); s128 e = (s128)v0 + d; if (e < 0 || e > (s128)m) { ok = false; break; } mx = std::max(mx, std::max(v0, v1)); }
        if (ok) { int hb = mx ? 64 - __builtin_clzll(mx) : 0; n->kz = hb ? (m & ~maskw(hb)) : m; } } break;
    case K_L2: { u64 o = m, z = m; for (u64 v : n->t2->cell) { o &= v; z &= ~v; } n->ko = o; n->kz = z & m; } break;
    default: break;
  }
}

static inline Node* intern(Node t) {
  u64 h = hmix(hmix(hmix(t.k * 131 + t.w, t.aux), (u64)t.a), (u64)t.b); h = hmix(hmix(hmix(h, (u64)t.c), t.cv), (u64)t.t1 ^ (u64)t.t2);
  auto r = C.cons.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { Node* n = it->second;
    if (n->k == t.k && n->w == t.w && n->aux == t.aux && n->a == t.a && n->b == t.b && n->c == t.c && n->cv == t.cv && n->t1 == t.t1 && n->t2 == t.t2) return n; }
  Node* n = new Node(t); n->id = C.nodes.size(); C.nodes.push_back(n); n->stamp = 0;
  n->sup = C.emptySup;
  if (t.k == K_VAR) n->sup = C.sup({(u32)t.aux});
  else { if (t.a) n->sup = C.uni(n->sup, t.a->sup); if (t.b) n->sup = C.uni(n->sup, t.b->sup); if (t.c) n->sup = C.uni(n->sup, t.c->sup); }
  knownBits(n);
  C.cons.emplace(h, n); return n;
}
static inline Node raw(Kind k, unsigned w, Node* a = nullptr, Node* b = nullptr, Node* c = nullptr, int aux = 0) {
  Node n; memset(&n, 0, sizeof n); n.k = k; n.w = w; n.a = a; n.b = b; n.c = c; n.aux = aux; return n;
}
static inline Node* mkC(u64 v, unsigned w) { Node n = raw(K_CONST, w); n.cv = v & maskw(w); return intern(n); }
static inline Node* mkVar(const std::string& name, unsigned w, bool input, int seq = -1) {
  int i = C.vars.size(); C.vars.push_back({name, w, input, seq}); Node* n = intern(raw(K_VAR, w, nullptr, nullptr, nullptr, i)); C.varNodes.push_back(n); return n;
}

// ---- constant evaluation of one operation
static inline u64 ev(Kind k, unsigned w, unsigned wa, u64 a, unsigned wb, u64 b, u64 c, int aux) {
  u64 m = maskw(w);
  switch (k) {
    case K_ADD: return (a + b) & m; case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? (a / b) & m : m; case K_UREM: return b ? (a % b) : a;
    case K_SDIV: { s64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
    case K_SREM: { s64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << b) & m; case K_LSHR: return b >= w ? 0 : a >> b;
    case K_ASHR: { s64 x = sx(a, w); return (u64)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
    case K_EQ: return a == b; case K_ULT: return a < b; case K_SLT: return sx(a, wa) < sx(b, wa);
    case K_CONCAT: return ((a << wb) | b) & m; case K_EXTRACT: return (a >> aux) & m;
    case K_ZEXT: return a; case K_SEXT: return (u64)sx(a, wa) & m; case K_ITE: return a ? b : c;
    default: abort();
  }
}
static inline const Piece& findp(const Table1* t, u64 x) {
  size_t lo = 0, hi = t->p.size() - 1; while (lo < hi) { size_t mid = (lo + hi + 1) / 2; if (t->p[mid].lo <= x) lo = mid; else hi = mid - 1; } return t->p[lo];
}
static inline u64 ev1(const Table1* t, u64 x) { const Piece& p = findp(t, x); return (p.coef * x + p.c) & maskw(t->wout); }
static inline u32 cls(const std::vector<std::pair<u64,u32>>& s, u64 x) {
  size_t lo = 0, hi = s.size() - 1; while (lo < hi) { size_t mid = (lo + hi + 1) / 2; if (s[mid].first <= x) lo = mid; else hi = mid - 1; } return s[lo].second;
}
static inline u64 ev2(const Table2* t, u64 x, u64 y) { return t->cell[(size_t)cls(t->xs, x) * t->ny + cls(t->ys, y)]; }

// ---- evaluation under an assignment (missing = 0)
struct Evaluator {
  static u64& epoch() { static u64 e = 0; return e; }
  const std::vector<u64>* m; u64 e;
  Evaluator(const std::vector<u64>& mm) : m(&mm), e(++epoch()) {}
  u64 operator()(Node* n) {
    if (n->k == K_CONST) return n->cv;
    if (n->stamp == e) return n->memo;
    u64 r;
    switch (n->k) {
      case K_VAR: r = (u32)n->aux < m->size() ? (*m)[n->aux] & maskw(n->w) : 0; break;
      case K_L1: r = ev1(n->t1, (*this)(n->a)); break;
      case K_L2: r = ev2(n->t2, (*this)(n->a), (*this)(n->b)); break;
      case K_ITE: r = (*this)(n->a) ? (*this)(n->b) : (*this)(n->c); break;
      default: r = ev(n->k, n->w, n->a->w, (*this)(n->a), n->b ? n->b->w : 0, n->b ? (*this)(n->b) : 0, 0, n->aux);
    }
    n->stamp = e; n->memo = r; return r;
  }
};

// ---- tables
static inline Table1* internT1(unsigned win, unsigned wout, std::vector<Piece>& in) {
  std::vector<Piece> p; u64 m = maskw(wout);
  for (auto q : in) {
    q.coef &= m; q.c &= m;
    if (q.lo == q.hi && q.coef) { q.c = (q.coef * q.lo + q.c) & m; q.coef = 0; }
    if (!p.empty() && p.back().coef == q.coef && p.back().c == q.c) { p.back().hi = q.hi; continue; }
    p.push_back(q);
  }
  u64 h = win * 77 + wout; bool co = true; for (auto& q : p) { h = hmix(hmix(hmix(h, q.lo), q.coef), q.c); if (q.coef) co = false; }
  auto r = C.t1s.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { Table1* t = it->second;
    if (t->win == win && t->wout == wout && t->p.size() == p.size() && std::equal(p.begin(), p.end(), t->p.begin(), [](const Piece& a, const Piece& b) { return a.lo == b.lo && a.coef == b.coef && a.c == b.c; })) return t; }
  Table1* t = new Table1{C.nt1++, (uint8_t)win, (uint8_t)wout, co, p}; C.t1s.emplace(h, t); return t;
}
static inline Table2* internT2(Table2 t) {
  // canonical: merge equal rows, then equal columns, renumber by first appearance
  auto canonDim = [&](bool rows) {
    u32 n = rows ? t.nx : t.ny, o = rows ? t.ny : t.nx;
    std::map<std::vector<u64>, u32> seen; std::vector<u32> cm(n, ~0u); std::vector<std::vector<u64>> keep;
    auto& s = rows ? t.xs : t.ys; std::vector<std::pair<u64,u32>> ns;
    for (auto& e : s) {
      u32 c = e.second;
      if (cm[c] == ~0u) { std::vector<u64> v(o); for (u32 j = 0; j < o; j++) v[j] = rows ? t.cell[(size_t)c * t.ny + j] : t.cell[(size_t)j * t.ny + c];
        auto it = seen.find(v); if (it == seen.end()) { it = seen.emplace(v, (u32)keep.size()).first; keep.push_back(v); } cm[c] = it->second; }
      if (ns.empty() || ns.back().second != cm[c]) ns.push_back({e.first, cm[c]});
    }
    u32 nn = keep.size(); std::vector<u64> cell((size_t)nn * o);
    for (u32 i = 0; i < nn; i++) for (u32 j = 0; j < o; j++) { if (rows) cell[(size_t)i * o + j] = keep[i][j]; else cell[(size_t)j * nn + i] = keep[i][j]; }
    s = ns; t.cell = cell; if (rows) t.nx = nn; else t.ny = nn;
  };
  canonDim(true); canonDim(false);
  u64 h = t.wa * 3 + t.wb * 5 + t.wout * 7; for (auto& e : t.xs) h = hmix(hmix(h, e.first), e.second); for (auto& e : t.ys) h = hmix(hmix(h, e.first), e.second); for (u64 v : t.cell) h = hmix(h, v);
  auto r = C.t2s.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { Table2* q = it->second; if (q->wa == t.wa && q->wb == t.wb && q->wout == t.wout && q->xs == t.xs && q->ys == t.ys && q->cell == t.cell) return q; }
  t.id = C.nt2++; Table2* q = new Table2(t); C.t2s.emplace(h, q); return q;
}

// ---- forward declarations of the smart constructors
Node* mkOp(Kind k, unsigned w, Node* a, Node* b = nullptr, Node* c = nullptr, int aux = 0);
Node* apply1(Table1* t, Node* arg);
Node* apply2(Table2* t, Node* a, Node* b);
static inline Node* mkNot(Node* a) { return mkOp(K_XOR, 1, a, mkC(1, 1)); }
static inline Node* mkAnd(Node* a, Node* b) { return mkOp(K_AND, a->w, a, b); }
static inline Node* mkOr(Node* a, Node* b) { return mkOp(K_OR, a->w, a, b); }
static inline Node* mkAdd(Node* a, Node* b) { return mkOp(K_ADD, a->w, a, b); }
static inline Node* mkNeg(Node* a) { return mkOp(K_MUL, a->w, a, mkC(~0ull, a->w)); }
static inline Node* mkSub(Node* a, Node* b) { return mkAdd(a, mkNeg(b)); }
static inline Node* mkEq(Node* a, Node* b) { return mkOp(K_EQ, 1, a, b); }
static inline Node* mkUlt(Node* a, Node* b) { return mkOp(K_ULT, 1, a, b); }
static inline Node* mkSlt(Node* a, Node* b) { return mkOp(K_SLT, 1, a, b); }
static inline Node* mkIte(Node* c, Node* a, Node* b) { return mkOp(K_ITE, a->w, c, a, b); }
static inline Node* mkExt(Node* a, unsigned lo, unsigned w) { return mkOp(K_EXTRACT, w, a, nullptr, nullptr, lo); }
static inline Node* mkZx(Node* a, unsigned w) { return a->w == w ? a : mkOp(K_ZEXT, w, a); }
static inline Node* mkSx(Node* a, unsigned w) { return a->w == w ? a : mkOp(K_SEXT, w, a); }
static inline Node* mkInSet(Node* var, const Ivs& s) {
  std::vector<Piece> p; u64 mx = maskw(var->w), at = 0; bool done = false;
  for (auto& i : s) { if (i.first > at) p.push_back({at, i.first - 1, 0, 0}); p.push_back({i.first, i.second, 0, 1}); if (i.second == mx) { done = true; break; } at = i.second + 1; }
  if (!done) p.push_back({at, mx, 0, 0});
  return apply1(internT1(var->w, 1, p), var);
}
static inline Ivs trueSet(const Table1* t) { Ivs r; for (auto& p : t->p) if (p.c & 1) { if (!r.empty() && r.back().second + 1 == p.lo) r.back().second = p.hi; else r.push_back({p.lo, p.hi}); } return r; }
static inline Ivs isect(const Ivs& a, const Ivs& b) { Ivs r; size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { u64 lo = std::max(a[i].first, b[j].first), hi = std::min(a[i].second, b[j].second); if (lo <= hi) r.push_back({lo, hi}); if (a[i].second < b[j].second) i++; else j++; } return r; }
static inline Ivs compl_(const Ivs& a, u64 mx) { Ivs r; u64 at = 0; for (auto& i : a) { if (i.first > at) r.push_back({at, i.first - 1}); if (i.second == mx) return r; at = i.second + 1; } r.push_back({at, mx}); return r; }
static inline u128 card(const Ivs& a) { u128 n = 0; for (auto& i : a) n += (u128)(i.second - i.first) + 1; return n; }
std::string show(Node* n, int depth = 6);
