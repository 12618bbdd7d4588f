#include "expr.hpp"
Ctx C;
static const size_t MAXP = 60000, MAXCELL = 400000;

// ------------------------------------------------------------ piecewise views
// a term over exactly one variable, seen as pieces; nullptr when it is not
bool pwView(Node* n, u32 v, std::vector<Piece>& out) {
  u64 mx = maskw(C.vars[v].w);
  if (n->isc()) { out = {{0, mx, 0, n->cv}}; return true; }
  if (n->sup->size() != 1 || (*n->sup)[0] != v) return false;
  if (n->k == K_VAR) { out = {{0, mx, 1, 0}}; return true; }
  if (n->k == K_L1 && n->a->k == K_VAR) { out = n->t1->p; return true; }
  if (n->k == K_ADD && n->b->isc()) { if (!pwView(n->a, v, out)) return false; if (n->a->k == K_L1) return false; for (auto& p : out) p.c += n->b->cv; return true; }
  if (n->k == K_MUL && n->b->isc() && n->a->k == K_VAR) { out = {{0, mx, n->b->cv, 0}}; return true; }
  if (n->k == K_ZEXT && n->a->k == K_VAR) { out = {{0, mx, 1, 0}}; return true; }
  if (n->k == K_EXTRACT && n->aux == 0 && n->a->k == K_VAR) { out = {{0, mx, 1, 0}}; return true; }
  return false;
}
// split [lo,hi] so that coef*x+c (mod 2^w) does not wrap on each part; false when there would be too many
struct Mono { u64 lo, hi; s64 coef; u64 v0; };  // value(x) = v0 + coef*(x-lo), no wrap
static bool monos(const Piece& p, unsigned w, std::vector<Mono>& out, size_t lim = 300) {
  u64 m = maskw(w); s64 cs = sx(p.coef & m, w); u64 lo = p.lo;
  if (!cs) { out.push_back({p.lo, p.hi, 0, p.c & m}); return true; }
  for (size_t k = 0;; k++) {
    if (k > lim) return false;
    u64 v0 = (p.coef * lo + p.c) & m; u128 room = cs > 0 ? (u128)(m - v0) / (u64)cs : (u128)v0 / (u64)(-cs);
    u64 hi = (u128)lo + room >= p.hi ? p.hi : lo + (u64)room;
    out.push_back({lo, hi, cs, v0}); if (hi == p.hi) return true; lo = hi + 1;
  }
}
static inline u64 mval(const Mono& q, u64 x, unsigned w) { return (q.v0 + (u64)q.coef * (x - q.lo)) & maskw(w); }
// x range of q with value in [A,B]; false when empty
static bool pre(const Mono& q, u64 A, u64 B, u64& xl, u64& xh) {
  if (!q.coef) { if (q.v0 < A || q.v0 > B) return false; xl = q.lo; xh = q.hi; return true; }
  s128 v0 = q.v0, cs = q.coef, n = (s128)(q.hi - q.lo), l, h;
  auto fdiv = [](s128 a, s128 b) { s128 t = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) t--; return t; };
  auto cdiv = [&](s128 a, s128 b) { return -fdiv(-a, b); };
  if (cs > 0) { l = cdiv((s128)A - v0, cs); h = fdiv((s128)B - v0, cs); }
  else { l = cdiv(v0 - (s128)B, -cs); h = fdiv(v0 - (s128)A, -cs); }
  if (l < 0) l = 0; if (h > n) h = n; if (l > h) return false;
  xl = q.lo + (u64)l; xh = q.lo + (u64)h; return true;
}
static Node* fromPieces(u32 v, unsigned wout, std::vector<Piece>& ps) {
  Node* x = C.varNodes[v]; Table1* t = internT1(x->w, wout, ps);
  if (t->p.size() == 1) {
    u64 co = t->p[0].coef, c = t->p[0].c;
    if (!co) return mkC(c, wout);
    if (wout == x->w) { Node* r = x; if (co != 1) r = intern(raw(K_MUL, wout, x, mkC(co, wout))); if (c) r = intern(raw(K_ADD, wout, r, mkC(c, wout))); return r; }
    if (co == 1 && c == 0) return intern(wout > x->w ? raw(K_ZEXT, wout, x) : raw(K_EXTRACT, wout, x));
  }
  Node n = raw(K_L1, wout, x); n.t1 = t; return intern(n);
}
// values satisfying (v OP k), as unsigned intervals;  flip: (k OP v)
static void predIvs(Kind k, bool flip, u64 c, unsigned w, Ivs& o) {
  u64 m = maskw(w), sb = 1ull << (w - 1);
  if (k == K_EQ) o = {{c, c}};
  else if (k == K_ULT) { if (!flip) { if (c) o = {{0, c - 1}}; } else if (c < m) o = {{c + 1, m}}; }
  else { // SLT
    s64 s = sx(c, w), mn = sx(sb, w), mxs = sx(sb - 1, w); s128 L, H;
    if (!flip) { L = mn; H = (s128)s - 1; } else { L = (s128)s + 1; H = mxs; }
    if (L > H) return;
    if (L < 0 && H >= 0) { o.push_back({0, (u64)H & m}); o.push_back({(u64)(s64)L & m, m}); }
    else o.push_back({(u64)(s64)L & m, (u64)(s64)H & m});
  }
}
static Node* foldPW(Kind k, unsigned w, Node* a, Node* b, Node* c, int aux, u32 v) {
  Node* ops[3] = {a, b, c}; std::vector<Piece> P[3]; int n = c ? 3 : b ? 2 : 1;
  for (int i = 0; i < n; i++) if (!pwView(ops[i], v, P[i])) return nullptr;
  unsigned wv = C.vars[v].w; u64 mx = maskw(wv), m = maskw(w); std::vector<Piece> out;
  bool divlike = (k == K_UDIV || k == K_UREM || k == K_SDIV || k == K_SREM);
  const Ivs* dom = nullptr;
  if (divlike && C.domOf && wv > 8) { dom = (*C.domOf)(v); if (dom && (dom->empty() || card(*dom) > 2000000)) dom = nullptr; }
  if (wv <= 8) { // exhaustive
    size_t ix[3] = {0, 0, 0}; std::vector<u64> val(mx + 1);
    for (u64 x = 0; x <= mx; x++) { u64 o[3] = {0, 0, 0};
      for (int i = 0; i < n; i++) { while (P[i][ix[i]].hi < x) ix[i]++; o[i] = (P[i][ix[i]].coef * x + P[i][ix[i]].c) & maskw(ops[i]->w); }
      val[x] = ev(k, w, a->w, o[0], b ? b->w : 0, o[1], o[2], aux); }
    for (u64 x = 0; x <= mx;) { u64 y = x; u64 co = 0;
      if (x < mx) { co = (val[x + 1] - val[x]) & m; if (w == 1) co = val[x + 1] == val[x] ? 0 : 2; if (co == 2 && w == 1) { out.push_back({x, x, 0, val[x]}); x++; continue; }
        y = x + 1; while (y < mx && ((val[y + 1] - val[y]) & m) == co) y++; if (co && y - x < 3) { out.push_back({x, x, 0, val[x]}); x++; continue; } }
      out.push_back({x, y, co, (val[x] - co * x) & m}); x = y + 1; }
    return fromPieces(v, w, out);
  }
  size_t ix[3] = {0, 0, 0}; u64 at = 0;
  while (true) {
    u64 hi = mx; for (int i = 0; i < n; i++) { while (P[i][ix[i]].hi < at) ix[i]++; hi = std::min(hi, P[i][ix[i]].hi); }
    Piece q[3]; bool allc = true; for (int i = 0; i < n; i++) { q[i] = P[i][ix[i]]; q[i].lo = at; q[i].hi = hi; u64 mm = maskw(ops[i]->w); q[i].coef &= mm; q[i].c &= mm; if (at == hi) { q[i].c = (q[i].coef * at + q[i].c) & mm; q[i].coef = 0; } if (q[i].coef) allc = false; }
    if (out.size() > MAXP) return nullptr;
    if (allc) out.push_back({at, hi, 0, ev(k, w, a->w, q[0].c, b ? b->w : 0, q[1].c, q[2].c, aux)});
    else if ((k == K_LSHR || k == K_ASHR || k == K_AND || k == K_OR || k == K_XOR || (k == K_EXTRACT && aux) || divlike) && hi - at < 64) { // few values: one by one
      for (u64 x = at; x <= hi; x++) { u64 o[3]; for (int i = 0; i < 3; i++) o[i] = i < n ? (q[i].coef * x + q[i].c) & maskw(ops[i]->w) : 0; out.push_back({x, x, 0, ev(k, w, a->w, o[0], b ? b->w : 0, o[1], o[2], aux)}); if (x == hi) break; } }
    else switch (k) {
      case K_ADD: out.push_back({at, hi, q[0].coef + q[1].coef, q[0].c + q[1].c}); break;
      case K_MUL: if (!q[1].coef) out.push_back({at, hi, q[0].coef * q[1].c, q[0].c * q[1].c}); else if (!q[0].coef) out.push_back({at, hi, q[1].coef * q[0].c, q[1].c * q[0].c}); else return nullptr; break;
      case K_SHL: if (!q[1].coef && q[1].c < w) out.push_back({at, hi, q[0].coef << q[1].c, q[0].c << q[1].c}); else return nullptr; break;
      case K_ITE: if (q[0].coef) return nullptr; out.push_back(q[0].c ? Piece{at, hi, q[1].coef, q[1].c} : Piece{at, hi, q[2].coef, q[2].c}); break;
      case K_EXTRACT: if (aux) return nullptr; out.push_back({at, hi, q[0].coef, q[0].c}); break;
      case K_ZEXT: case K_SEXT: { std::vector<Mono> ms; if (!monos(q[0], a->w, ms)) return nullptr;
          u64 half = 1ull << (a->w - 1);
          for (auto& s : ms) { Ivs rg = k == K_ZEXT ? Ivs{{0, maskw(a->w)}} : Ivs{{0, half - 1}, {half, maskw(a->w)}};
            std::vector<Piece> tmp; for (auto& r : rg) { u64 xl, xh; if (pre(s, r.first, r.second, xl, xh)) { u64 val = mval(s, xl, a->w); if (k == K_SEXT) val = (u64)sx(val, a->w); tmp.push_back({xl, xh, (u64)s.coef, val - (u64)s.coef * xl}); } }
            std::sort(tmp.begin(), tmp.end(), [](const Piece& x, const Piece& y) { return x.lo < y.lo; }); for (auto& t : tmp) out.push_back(t); }
        } break;
      case K_EQ: case K_ULT: case K_SLT: {
          Piece f; u64 kc; bool flip = false; Kind kk = k;
          if (!q[1].coef) { f = q[0]; kc = q[1].c; } else if (!q[0].coef) { f = q[1]; kc = q[0].c; flip = true; }
          else { u64 mm = maskw(a->w);
            if (k == K_EQ) { f = {at, hi, (q[0].coef - q[1].coef) & mm, (q[0].c - q[1].c) & mm}; kc = 0; }
            else if (q[0].coef == q[1].coef && q[0].c == q[1].c) { out.push_back({at, hi, 0, 0}); break; }
            else return nullptr; }
          std::vector<Mono> ms; if (!monos(f, a->w, ms)) return nullptr; Ivs sat; predIvs(kk, flip, kc, a->w, sat);
          for (auto& s : ms) { Ivs xs; for (auto& r : sat) { u64 xl, xh; if (pre(s, r.first, r.second, xl, xh)) xs.push_back({xl, xh}); }
            std::sort(xs.begin(), xs.end()); u64 cur = s.lo; bool end = false;
            for (auto& r : xs) { if (r.first > cur) out.push_back({cur, r.first - 1, 0, 0}); out.push_back({r.first, r.second, 0, 1}); if (r.second == s.hi) { end = true; break; } cur = r.second + 1; }
            if (!end) out.push_back({cur, s.hi, 0, 0}); }
        } break;
      case K_UDIV: case K_UREM: case K_SDIV: case K_SREM: {
          if (q[1].coef || !q[1].c || !dom) return nullptr;
          u64 d = q[1].c; bool sg = k == K_SDIV || k == K_SREM; if (sg && (d >> (w - 1))) return nullptr;
          // only the part inside of the current domain matters; the rest is unconstrained (0)
          Ivs part = isect(*dom, Ivs{{at, hi}}); u64 cur = at; bool endd = false;
          for (auto& I : part) {
            if (I.first > cur) out.push_back({cur, I.first - 1, 0, 0});
            Piece f = q[0]; f.lo = I.first; f.hi = I.second; std::vector<Mono> ms; if (!monos(f, w, ms)) return nullptr;
            for (auto& s : ms) {
              if (s.coef != 1 && s.coef != -1 && s.coef != 0) return nullptr;
              u64 e0 = mval(s, s.lo, w), e1 = mval(s, s.hi, w), mn = std::min(e0, e1), mxv = std::max(e0, e1);
              if (sg && (mxv >> (w - 1))) return nullptr;
              if ((mxv / d - mn / d) > MAXP) return nullptr;
              std::vector<Piece> tmp;
              for (u64 qq = mn / d; qq <= mxv / d; qq++) { u64 xl, xh; if (!pre(s, qq * d, qq * d + d - 1, xl, xh)) continue;
                if (k == K_UDIV || k == K_SDIV) tmp.push_back({xl, xh, 0, qq}); else tmp.push_back({xl, xh, (u64)s.coef, (mval(s, xl, w) - qq * d) - (u64)s.coef * xl}); }
              std::sort(tmp.begin(), tmp.end(), [](const Piece& x, const Piece& y) { return x.lo < y.lo; }); for (auto& t : tmp) out.push_back(t);
            }
            if (I.second == hi) { endd = true; break; } cur = I.second + 1;
          }
          if (!endd) out.push_back({cur, hi, 0, 0});
        } break;
      case K_AND: { // x & (2^k-1) when it changes nothing, x & 0
          if (q[1].coef) return nullptr; if (!q[1].c) { out.push_back({at, hi, 0, 0}); break; }
          std::vector<Mono> ms; if (!monos(q[0], w, ms)) return nullptr; u64 mxv = 0; for (auto& s : ms) mxv = std::max(mxv, std::max(mval(s, s.lo, w), mval(s, s.hi, w)));
          int hb = mxv ? 64 - __builtin_clzll(mxv) : 0; if ((q[1].c & maskw(hb ? hb : 1)) == maskw(hb ? hb : 1)) out.push_back({at, hi, q[0].coef, q[0].c}); else return nullptr; } break;
      default: return nullptr;
    }
    if (hi == mx) break; at = hi + 1;
  }
  if (out.size() > MAXP) return nullptr;
  return fromPieces(v, w, out);
}

// ------------------------------------------------------------ two variables
struct Dim { std::vector<std::pair<u64,u32>> s; std::vector<u64> rep; };  // start -> class, class representative
static bool dimOf(const std::vector<Node*>& ops, u32 v, Dim& d) {
  std::vector<u64> starts = {0};
  for (Node* o : ops) {
    if (o->k == K_L1 && o->a->k == K_VAR && (u32)o->a->aux == v) { if (!o->t1->constOnly) return false; for (auto& p : o->t1->p) starts.push_back(p.lo); }
    else if (o->k == K_L2) { if ((u32)o->a->aux == v) for (auto& e : o->t2->xs) starts.push_back(e.first); else if ((u32)o->b->aux == v) for (auto& e : o->t2->ys) starts.push_back(e.first); }
  }
  std::sort(starts.begin(), starts.end()); starts.erase(std::unique(starts.begin(), starts.end()), starts.end());
  std::map<std::vector<u64>, u32> ids;
  for (u64 s : starts) { std::vector<u64> key;
    for (Node* o : ops) {
      if (o->k == K_L1 && (u32)o->a->aux == v) key.push_back(ev1(o->t1, s));
      else if (o->k == K_L2) { if ((u32)o->a->aux == v) key.push_back(cls(o->t2->xs, s)); else if ((u32)o->b->aux == v) key.push_back(cls(o->t2->ys, s)); } }
    auto it = ids.find(key); if (it == ids.end()) { it = ids.emplace(key, (u32)d.rep.size()).first; d.rep.push_back(s); }
    if (d.s.empty() || d.s.back().second != it->second) d.s.push_back({s, it->second}); }
  return true;
}
static bool tab2ok(Node* o, u32 x, u32 y) {
  if (o->isc()) return true;
  if (o->k == K_L1 && o->a->k == K_VAR) return o->t1->constOnly;
  if (o->k == K_L2 && o->a->k == K_VAR && o->b->k == K_VAR) return true;
  return false;
}
static Node* fromT2(Table2 t, u32 x, u32 y) {
  Table2* q = internT2(t);
  if (q->nx == 1 && q->ny == 1) return mkC(q->cell[0], q->wout);
  auto one = [&](const std::vector<std::pair<u64,u32>>& s, u32 v) { std::vector<Piece> ps; u64 mx = maskw(C.vars[v].w);
    for (size_t i = 0; i < s.size(); i++) ps.push_back({s[i].first, i + 1 < s.size() ? s[i + 1].first - 1 : mx, 0, q->cell[s[i].second]}); return fromPieces(v, q->wout, ps); };
  if (q->ny == 1) return one(q->xs, x);
  if (q->nx == 1) return one(q->ys, y);
  Node n = raw(K_L2, q->wout, C.varNodes[x], C.varNodes[y]); n.t2 = q; return intern(n);
}
static Node* fold2(unsigned w, const std::vector<Node*>& ops, u32 x, u32 y, const std::function<u64(const u64*)>& f) {
  for (Node* o : ops) if (!tab2ok(o, x, y)) return nullptr;
  Dim dx, dy; if (!dimOf(ops, x, dx) || !dimOf(ops, y, dy)) return nullptr;
  if ((u64)dx.rep.size() * dy.rep.size() > MAXCELL) return nullptr;
  Table2 t; t.wa = C.vars[x].w; t.wb = C.vars[y].w; t.wout = w; t.xs = dx.s; t.ys = dy.s; t.nx = dx.rep.size(); t.ny = dy.rep.size(); t.cell.resize((size_t)t.nx * t.ny);
  u64 o[4];
  for (u32 i = 0; i < t.nx; i++) for (u32 j = 0; j < t.ny; j++) {
    for (size_t k = 0; k < ops.size(); k++) { Node* n = ops[k];
      if (n->isc()) o[k] = n->cv; else if (n->k == K_L1) o[k] = ev1(n->t1, (u32)n->a->aux == x ? dx.rep[i] : dy.rep[j]);
      else { u64 p = (u32)n->a->aux == x ? dx.rep[i] : dy.rep[j], q = (u32)n->b->aux == x ? dx.rep[i] : dy.rep[j]; o[k] = ev2(n->t2, p, q); } }
    t.cell[(size_t)i * t.ny + j] = f(o) & maskw(w); }
  return fromT2(t, x, y);
}

// ------------------------------------------------------------ lookups
Node* apply1(Table1* t, Node* arg) {
  if (arg->isc()) return mkC(ev1(t, arg->cv), t->wout);
  if (t->p.size() == 1 && !t->p[0].coef) return mkC(t->p[0].c, t->wout);
  if (arg->k == K_VAR) { std::vector<Piece> ps = t->p; return fromPieces(arg->aux, t->wout, ps); }
  std::vector<Piece> P;
  if (arg->sup->size() == 1 && pwView(arg, (*arg->sup)[0], P)) {
    std::vector<Piece> out; bool ok = true;
    for (auto& q : P) {
      if (out.size() > MAXP) { ok = false; break; }
      if (!q.coef) { out.push_back({q.lo, q.hi, 0, ev1(t, q.c & maskw(arg->w))}); continue; }
      std::vector<Mono> ms; if (!monos(q, arg->w, ms)) { ok = false; break; }
      for (auto& s : ms) { u64 e0 = mval(s, s.lo, arg->w), e1 = mval(s, s.hi, arg->w), mn = std::min(e0, e1), mx = std::max(e0, e1);
        size_t i = &findp(t, mn) - &t->p[0]; std::vector<Piece> tmp;
        for (; i < t->p.size() && t->p[i].lo <= mx; i++) { u64 xl, xh; if (!pre(s, t->p[i].lo, t->p[i].hi, xl, xh)) continue;
          // value = tc*(arg)+tb , arg = q.coef*x+q.c
          if (t->p[i].coef && t->wout > t->win) { u64 a0 = mval(s, xl, arg->w); tmp.push_back({xl, xh, t->p[i].coef * (u64)s.coef, t->p[i].coef * a0 + t->p[i].c - t->p[i].coef * (u64)s.coef * xl}); }
          else { u64 a0 = mval(s, xl, arg->w); u64 co = t->p[i].coef * (u64)s.coef; tmp.push_back({xl, xh, co, t->p[i].coef * a0 + t->p[i].c - co * xl}); }
          if (tmp.size() > MAXP) { ok = false; break; } }
        std::sort(tmp.begin(), tmp.end(), [](const Piece& x, const Piece& y) { return x.lo < y.lo; }); for (auto& u : tmp) out.push_back(u); if (!ok) break; }
      if (!ok) break;
    }
    if (ok) return fromPieces((*arg->sup)[0], t->wout, out);
  }
  if (arg->k == K_L2 && t->constOnly) { Node* r = fold2(t->wout, {arg}, arg->a->aux, arg->b->aux, [&](const u64* o) { return ev1(t, o[0]); }); if (r) return r; }
  if (arg->k == K_ITE) return mkIte(arg->a, apply1(t, arg->b), apply1(t, arg->c));
  Node n = raw(K_L1, t->wout, arg); n.t1 = t; return intern(n);
}
// class table of one dimension as a const table
static Table1* dimTable(const std::vector<std::pair<u64,u32>>& s, unsigned w) { std::vector<Piece> ps; for (size_t i = 0; i < s.size(); i++) ps.push_back({s[i].first, i + 1 < s.size() ? s[i + 1].first - 1 : maskw(w), 0, s[i].second}); return internT1(w, 32, ps); }
Node* apply2(Table2* t, Node* a, Node* b) {
  auto line = [&](bool row, u32 c) { auto& s = row ? t->ys : t->xs; std::vector<Piece> ps; unsigned w = row ? t->wb : t->wa;
    for (size_t i = 0; i < s.size(); i++) ps.push_back({s[i].first, i + 1 < s.size() ? s[i + 1].first - 1 : maskw(w), 0, row ? t->cell[(size_t)c * t->ny + s[i].second] : t->cell[(size_t)s[i].second * t->ny + c]}); return internT1(w, t->wout, ps); };
  if (a->isc()) return apply1(line(true, cls(t->xs, a->cv)), b);
  if (b->isc()) return apply1(line(false, cls(t->ys, b->cv)), a);
  Node* ca = apply1(dimTable(t->xs, t->wa), a); Node* cb = apply1(dimTable(t->ys, t->wb), b);   // class terms
  auto leaf = [&](const u64* o) { return t->cell[(size_t)o[0] * t->ny + o[1]]; };
  auto isTab = [](Node* n) { return n->isc() || (n->k == K_L1 && n->a->k == K_VAR) || n->k == K_L2; };
  if (ca->isc() && cb->isc()) return mkC(t->cell[(size_t)ca->cv * t->ny + cb->cv], t->wout);
  if (isTab(ca) && isTab(cb)) {
    auto* su = C.uni(ca->sup, cb->sup);
    if (su->size() == 1) { u32 v = (*su)[0]; std::vector<Piece> A, B; if (pwView(ca, v, A) && pwView(cb, v, B)) { std::vector<Piece> out; size_t i = 0, j = 0; u64 at = 0, mx = maskw(C.vars[v].w);
        while (true) { while (A[i].hi < at) i++; while (B[j].hi < at) j++; u64 hi = std::min(A[i].hi, B[j].hi); out.push_back({at, hi, 0, t->cell[(size_t)A[i].c * t->ny + B[j].c]}); if (hi == mx) break; at = hi + 1; }
        return fromPieces(v, t->wout, out); } }
    if (su->size() == 2) { Node* r = fold2(t->wout, {ca, cb}, (*su)[0], (*su)[1], leaf); if (r) return r; }
  }
  if (a->k == K_ITE) return mkIte(a->a, apply2(t, a->b, b), apply2(t, a->c, b));
  if (b->k == K_ITE) return mkIte(b->a, apply2(t, a, b->b), apply2(t, a, b->c));
  Node n = raw(K_L2, t->wout, a, b); n.t2 = t; return intern(n);
}

// ------------------------------------------------------------ linear sums
typedef std::vector<std::pair<Node*, u64>> Lin;
static void linOf(Node* n, u64 f, Lin& l, u64& k, int depth = 0) {
  if (n->isc()) { k += f * n->cv; return; }
  if (n->k == K_ADD && depth < 64) { linOf(n->a, f, l, k, depth + 1); linOf(n->b, f, l, k, depth + 1); return; }
  if (n->k == K_MUL && n->b->isc()) { linOf(n->a, f * n->b->cv, l, k, depth + 1); return; }
  if (n->k == K_SHL && n->b->isc() && n->b->cv < n->w) { linOf(n->a, f << n->b->cv, l, k, depth + 1); return; }
  l.push_back({n, f});
}
static Node* mkLin(Lin& l, u64 k, unsigned w) {
  u64 m = maskw(w); std::sort(l.begin(), l.end(), [](const std::pair<Node*,u64>& a, const std::pair<Node*,u64>& b) { return a.first->id < b.first->id; });
  Lin r; for (auto& e : l) { if (!r.empty() && r.back().first == e.first) r.back().second += e.second; else r.push_back(e); }
  Node* s = nullptr;
  for (auto& e : r) { u64 f = e.second & m; if (!f) continue; Node* t = e.first;
    if (f != 1) { Node* fp = t->sup->size() == 1 ? foldPW(K_MUL, w, t, mkC(f, w), nullptr, 0, (*t->sup)[0]) : nullptr; t = fp ? fp : intern(raw(K_MUL, w, t, mkC(f, w))); }
    if (!s) s = t; else { Node* fp = nullptr; auto* su = C.uni(s->sup, t->sup); if (su->size() == 1) fp = foldPW(K_ADD, w, s, t, nullptr, 0, (*su)[0]); s = fp ? fp : intern(raw(K_ADD, w, s, t)); } }
  k &= m; if (!s) return mkC(k, w); if (!k) return s;
  Node* kc = mkC(k, w); if (s->sup->size() == 1) { Node* fp = foldPW(K_ADD, w, s, kc, nullptr, 0, (*s->sup)[0]); if (fp) return fp; }
  return intern(raw(K_ADD, w, s, kc));
}

Node* mkOp(Kind k, unsigned w, Node* a, Node* b, Node* c, int aux) {
  if (a->isc() && (!b || b->isc()) && (!c || c->isc())) return mkC(ev(k, w, a->w, a->cv, b ? b->w : 0, b ? b->cv : 0, c ? c->cv : 0, aux), w);
  u64 m = maskw(w);
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
  if (comm && (a->isc() || (!b->isc() && a->id > b->id))) std::swap(a, b);
  // neutral elements and known bits
  switch (k) {
    case K_ADD: if (b->isc() && !b->cv) return a; break;
    case K_MUL: if (b->isc()) { if (!b->cv) return b; if (b->cv == 1) return a; } break;
    case K_AND: if (a == b) return a; if (b->isc()) { if (!b->cv) return b; if (b->cv == m) return a; if (((b->cv | a->kz) & m) == m) return a; if (a->k == K_AND && a->b->isc()) return mkOp(K_AND, w, a->a, mkC(a->b->cv & b->cv, w));
        if (a->k == K_OR && a->b->isc()) { if (!(a->b->cv & b->cv)) return mkOp(K_AND, w, a->a, b); }
        if (a->k == K_OR) { if (!((~a->a->kz) & m & b->cv)) return mkOp(K_AND, w, a->b, b); if (!((~a->b->kz) & m & b->cv)) return mkOp(K_AND, w, a->a, b); } } break;
    case K_OR: if (a == b) return a; if (b->isc()) { if (!b->cv) return a; if (b->cv == m) return b; if (((a->ko | b->cv) == a->ko)) return a; } break;
    case K_XOR: if (a == b) return mkC(0, w); if (b->isc()) { if (!b->cv) return a; if (a->k == K_XOR && a->b->isc()) return mkOp(K_XOR, w, a->a, mkC(a->b->cv ^ b->cv, w)); } break;
    case K_SHL: case K_LSHR: case K_ASHR: if (b->isc()) { if (!b->cv) return a; if (b->cv >= w && k != K_ASHR) return mkC(0, w);
        if (k == K_ASHR && (a->kz >> (w - 1) & 1)) return mkOp(K_LSHR, w, a, b);
        if (k == K_LSHR && a->k == K_LSHR && a->b->isc() && a->b->cv + b->cv < w) return mkOp(K_LSHR, w, a->a, mkC(a->b->cv + b->cv, w));
        if (k == K_SHL) { Lin l; u64 kk = 0; if (a->k == K_ADD) { linOf(a, 1ull << b->cv, l, kk); return mkLin(l, kk, w); } } } break;
    case K_EQ: if (a == b) return mkC(1, 1); if (a->w == 1 && b->isc()) return b->cv ? a : mkNot(a);
      if ((a->ko & b->kz) | (a->kz & b->ko)) return mkC(0, 1);
      if (b->isc()) {
        if (a->k == K_ZEXT) { if (b->cv > maskw(a->a->w)) return mkC(0, 1); return mkEq(a->a, mkC(b->cv, a->a->w)); }
        if (a->k == K_SEXT) { u64 lv = b->cv & maskw(a->a->w); if (((u64)sx(lv, a->a->w) & maskw(a->w)) != b->cv) return mkC(0, 1); return mkEq(a->a, mkC(lv, a->a->w)); }
        if (a->k == K_ADD && a->b->isc()) return mkEq(a->a, mkC(b->cv - a->b->cv, a->w));
        if (a->k == K_XOR && a->b->isc()) return mkEq(a->a, mkC(b->cv ^ a->b->cv, a->w));
        if (a->k == K_ITE && a->b->isc() && a->c->isc()) { bool p = a->b->cv == b->cv, q = a->c->cv == b->cv; if (p && q) return mkC(1, 1); if (!p && !q) return mkC(0, 1); return p ? a->a : mkNot(a->a); }
      }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      break;
    case K_ULT: case K_SLT: if (a == b) return mkC(0, 1);
      { u64 mm = maskw(a->w), bias = k == K_SLT ? 1ull << (a->w - 1) : 0; 
        u64 amin = a->ko, amax = mm & ~a->kz, bmin = b->ko, bmax = mm & ~b->kz; bool known = true;
        if (bias) { bool ka = (a->ko | a->kz) & bias, kb = (b->ko | b->kz) & bias; known = ka && kb; amin ^= bias; amax ^= bias; bmin ^= bias; bmax ^= bias; }
        if (known) { if (amax < bmin) return mkC(1, 1); if (amin >= bmax) return mkC(0, 1); } }
      if (k == K_ULT && b->isc() && !b->cv) return mkC(0, 1);
      if (k == K_ULT && a->k == K_ZEXT && b->isc()) { if (b->cv > maskw(a->a->w)) return mkC(1, 1); return mkUlt(a->a, mkC(b->cv, a->a->w)); }
      if (k == K_SLT && a->k == K_SEXT && b->isc()) { s64 s = sx(b->cv, b->w); unsigned wa = a->a->w; if (s > sx((1ull << (wa - 1)) - 1, wa)) return mkC(1, 1); if (s <= sx(1ull << (wa - 1), wa)) return mkC(0, 1); return mkSlt(a->a, mkC((u64)s, wa)); }
      if (k == K_SLT && (a->kz >> (a->w - 1) & 1) && (b->kz >> (b->w - 1) & 1)) return mkUlt(a, b);
      break;
    case K_ITE: if (a->isc()) return a->cv ? b : c; if (b == c) return b;
      if (w == 1 && b->isc() && c->isc()) return b->cv ? a : mkNot(a);
      if (a->k == K_XOR && a->w == 1 && a->b->isc()) return mkIte(a->a, c, b);
      if (w == 1) { if (b->isc()) return b->cv ? mkOr(a, c) : mkAnd(mkNot(a), c); if (c->isc()) return c->cv ? mkOr(mkNot(a), b) : mkAnd(a, b); }
      break;
    case K_EXTRACT: if (aux == 0 && w == a->w) return a;
      if (a->k == K_EXTRACT) return mkExt(a->a, aux + a->aux, w);
      if (a->k == K_ZEXT || a->k == K_SEXT) { if (aux + w <= a->a->w) return mkExt(a->a, aux, w); if (aux == 0) return a->k == K_ZEXT ? mkZx(a->a, w) : mkSx(a->a, w); if (a->k == K_ZEXT && (unsigned)aux >= a->a->w) return mkC(0, w); }
      if (a->k == K_CONCAT) { if ((unsigned)aux >= a->b->w) return mkExt(a->a, aux - a->b->w, w); if (aux + w <= a->b->w) return mkExt(a->b, aux, w); }
      if (aux == 0 && (a->k == K_AND || a->k == K_OR || a->k == K_XOR || a->k == K_ADD || a->k == K_MUL)) { if (a->sup->size() >= 1 && !(a->k == K_ADD || a->k == K_MUL)) return mkOp(a->k, w, mkExt(a->a, 0, w), mkExt(a->b, 0, w)); }
      if (a->k == K_ITE && a->b->isc() && a->c->isc()) return mkIte(a->a, mkExt(a->b, aux, w), mkExt(a->c, aux, w));
      break;
    case K_ZEXT: if (a->k == K_ZEXT) return mkZx(a->a, w); break;
    case K_SEXT: if (a->k == K_SEXT) return mkSx(a->a, w); if (a->k == K_ZEXT) return mkZx(a->a, w); if (a->kz >> (a->w - 1) & 1) return mkZx(a, w); break;
    case K_CONCAT: if (a->isc() && !a->cv) return mkZx(b, w);
      if (a->k == K_EXTRACT && b->k == K_EXTRACT && a->a == b->a && (unsigned)a->aux == b->aux + b->w) return mkExt(a->a, b->aux, w); break;
    default: break;
  }
  const std::vector<u32>* su = a->sup; if (b) su = C.uni(su, b->sup); if (c) su = C.uni(su, c->sup);
  Node* r = nullptr;
  if (su->size() == 1) r = foldPW(k, w, a, b, c, aux, (*su)[0]);
  else if (su->size() == 2) {
    bool hasL2 = a->k == K_L2 || (b && b->k == K_L2) || (c && c->k == K_L2);
    if (w == 1 || hasL2 || k == K_ITE) { std::vector<Node*> ops = {a}; if (b) ops.push_back(b); if (c) ops.push_back(c); unsigned wa = a->w, wb = b ? b->w : 0;
      r = fold2(w, ops, (*su)[0], (*su)[1], [&](const u64* o) { return ev(k, w, wa, o[0], wb, o[1], o[2], aux); }); }
  }
  if (r) { C.folds++; if (C.audit) C.audit(k, a, b, c, r); return r; }
  if (k == K_ADD || (k == K_MUL && b->isc())) { Lin l; u64 kk = 0; if (k == K_ADD) { linOf(a, 1, l, kk); linOf(b, 1, l, kk); } else linOf(a, b->cv, l, kk); return mkLin(l, kk, w); }
  if (k == K_EQ && !b->isc()) { // a == b with common linear parts
    if (a->k == K_ADD || b->k == K_ADD) { Lin l; u64 kk = 0; linOf(a, 1, l, kk); linOf(b, ~0ull, l, kk); Node* d = mkLin(l, kk, a->w); if (d->isc()) return mkC(d->cv == 0, 1); }
  }
  Node n = raw(k, w, a, b, c, aux); Node* x = intern(n);
  if (((x->kz | x->ko) & m) == m) return mkC(x->ko, w);
  return x;
}

std::string show(Node* n, int d) {
  static const char* nm[] = {"c", "v", "+", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>", ">>s", "==", "<u", "<s", "++", "ext", "zx", "sx", "ite", "L1", "L2"};
  char buf[64];
  if (n->isc()) { snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)n->cv); return buf; }
  if (n->k == K_VAR) return C.vars[n->aux].name;
  if (d == 0) return "..";
  std::string s = std::string("(") + nm[n->k] + std::to_string(n->w);
  if (n->k == K_L1) s += "#" + std::to_string(n->t1->id) + "[" + std::to_string(n->t1->p.size()) + "]";
  if (n->k == K_L2) s += "#" + std::to_string(n->t2->id) + "[" + std::to_string(n->t2->nx) + "x" + std::to_string(n->t2->ny) + "]";
  if (n->k == K_EXTRACT) s += "@" + std::to_string(n->aux);
  for (Node* o : {n->a, n->b, n->c}) if (o) s += " " + show(o, d - 1);
  return s + ")";
}
