// ------------------------------------------------------------------ execution
static Val getOp(State& s, Opnd& o) {
  if (o.slot >= 0) { Val& v = s.fr.back().r[o.slot]; if (v.n && !s.conc.empty()) { auto it = s.conc.find(v.n); if (it != s.conc.end()) { v = Val(it->second); } } return v; }
  if (o.slot == -1) return o.v;
  if (o.slot == -100000) return Val(0);
  unsigned b = -2 - o.slot; if (b > 64) throw Kill{"undefined value of unsupported type"}; return Val(freshUndef(b), 0);
}
static inline void setR(State& s, DInst& I, const Val& v) { if (I.dst >= 0) s.fr.back().r[I.dst] = v; }
static void emitViolation(State& s, const std::string& msg, std::shared_ptr<Model> m);
static std::string jstr(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string cstr(State& s, u64 addr) { std::string r; for (int i = 0; i < 4000; i++) { Val v = loadMem(s, addr + i, 8); if (v.n || !v.c) break; r += (char)v.c; } return r; }
static const char* internS(const std::string& s) { static std::set<std::string> pool; return pool.insert(s).first->c_str(); }

static void enter(State& s, DFunc* f, std::vector<Val>& args, int dst, unsigned dstw) {
  decode(f); if (f->bl.empty()) throw Kill{"call of " + f->nice.substr(0, 160) + " which has no body"};
  if (s.fr.size() > 400) throw Viol{"recursion deeper than 400 calls"};
  static std::set<DFunc*> seen; if (seen.insert(f).second) ST.funcs.insert(f->nice);
  Frame fr; fr.f = f; fr.bb = 0; fr.ip = 0; fr.r.resize(f->nslots); fr.dst = dst; fr.dstw = dstw;
  for (size_t i = 0; i < args.size() && i < f->F->arg_size(); i++) {
    fr.r[i] = args[i];
    Argument* A = f->F->getArg(i); if (A->hasByValAttr()) { u64 sz = DL->getTypeAllocSize(A->getParamByValType()); Obj* o = newObj(s, sz, 's', "byval"); fr.allocas.push_back(o->id); copyMem(s, addrOf(o->id), args[i].c, sz); fr.r[i] = Val(addrOf(o->id)); }
  }
  s.fr.push_back(std::move(fr));
}
static void jump(State& s, int to) {
  Frame& f = s.fr.back(); int from = f.bb; DBlock& b = f.f->bl[to];
  if (!b.phis.empty()) { for (auto& p : b.phis) if (p.first == from) { std::vector<Val> v; v.reserve(p.second.size()); for (auto& e : p.second) v.push_back(getOp(s, e.second)); for (size_t i = 0; i < v.size(); i++) f.r[p.second[i].first] = v[i]; break; } }
  f.bb = to; f.ip = 0;
}
// branch on a condition: true -> continue with taken, false likewise; forks when both are possible
static bool branch(State& s, Node* c, const std::function<void(State&)>& onFalse) {
  Dec d = decide(s, c); if (!d.t && !d.f) throw Kill{"inconsistent"};
  if (d.t && d.f) {
    State* o = cloneS(s); curS = o; bool ok = true; try { addC(*o, mkNot(c)); } catch (Kill&) { ok = false; } 
    if (ok) { if (d.mf) o->model = d.mf; o->path.push_back(mkNot(c)); onFalse(*o); curList->push_back(o); } else delete o;
    curS = &s; addC(s, c); if (d.mt) s.model = d.mt; s.path.push_back(c); return true;
  }
  return d.t;
}
// a condition over two variables that is a union of few boxes: case split on the rows, so that what is known stays per variable
static u32 splitMax = getenv("U5SYM_SPLIT") ? atoi(getenv("U5SYM_SPLIT")) : 64;
static Node* splitL2(State& s, Node* c) {
  for (int round = 0; round < 4; round++) {
    Node* u = under(s, c); Node* q = u->k == K_XOR && u->w == 1 && u->b->isc() ? u->a : u;
    if (q->k != K_L2 || q->w != 1 || q->a->k != K_VAR || q->b->k != K_VAR) return u;
    u32 x = q->a->aux, y = q->b->aux; if (inResidual(s, x) || inResidual(s, y)) return u;
    bool rows = q->t2->nx <= q->t2->ny; u32 n = rows ? q->t2->nx : q->t2->ny; if (n > (s.inSumm ? std::max(splitMax, 64u) : splitMax)) return u; auto& st = rows ? q->t2->xs : q->t2->ys; u32 v = rows ? x : y; u64 mx = maskw(C.vars[v].w);
    std::vector<Ivs> sets; for (u32 k = 0; k < n; k++) { Ivs iv; for (size_t i = 0; i < st.size(); i++) if (st[i].second == k) iv.push_back({st[i].first, i + 1 < st.size() ? st[i + 1].first - 1 : mx}); iv = isect(domIv(s, v), iv); if (!iv.empty()) sets.push_back(iv); }
    if (sets.size() < 2) return u;
    u64 cur = evalIn(s, C.varNodes[v]); size_t me = 0; for (size_t k = 0; k < sets.size(); k++) for (auto& I : sets[k]) if (cur >= I.first && cur <= I.second) me = k;
    for (size_t k = 0; k < sets.size(); k++) if (k != me) { State* o = cloneS(s); curS = o; domSet(*o, v, sets[k]); auto m = std::make_shared<Model>(o->model ? *o->model : Model()); m->resize(C.vars.size(), 0); (*m)[v] = sets[k][0].first; o->model = m; o->path.push_back(mkInSet(C.varNodes[v], sets[k])); curList->push_back(o); }
    curS = &s; domSet(s, v, sets[me]); s.path.push_back(mkInSet(C.varNodes[v], sets[me]));
  }
  return c;
}
static Node* cmpNode(unsigned p, Node* a, Node* b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkNot(mkUlt(b, a)); case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkNot(mkUlt(a, b));
    case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SLE: return mkNot(mkSlt(b, a)); case CmpInst::ICMP_SGT: return mkSlt(b, a); case CmpInst::ICMP_SGE: return mkNot(mkSlt(a, b));
  } throw Kill{"comparison not supported"};
}
static double asD(u64 v, unsigned w) { if (w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }
static Val ite(Node* c, const Val& a, const Val& b, unsigned w) {
  if (c->isc()) return c->cv ? a : b; if (a.a || b.a) throw Kill{"select of aggregates"}; return Val(mkIte(c, N(a, w), N(b, w)), 0);
}
struct Res { State* s; Val v; };
static Node* recognize(State& s, Node* n);
static void runUntil(State* init, size_t depth, std::vector<Res>& out, bool& lost);
static bool trySummary(State& s, DFunc* f, std::vector<Val>& args, DInst& I);

// clz as a term, by halving
static Node* ctlzNode(Node* x, unsigned w) {
  Node* r = mkC(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExt(x, i, 1), mkC(1, 1)), mkC(w - 1 - i, w), r); return r;
}
static void checkBool(State& s, Node* c, const std::string& msg) {   // assertion
  ST.asserts++;
  if (c->isc()) { ST.assertsTriv++; if (!c->cv) throw Viol{msg}; return; }
  if (!s.raw) { Node* u = under(s, c); if (u->isc()) { ST.assertsTriv++; if (!u->cv) throw Viol{msg}; return; } c = u; }
  ST.assertsQ++;
  std::vector<Node*> cs = slice(s, c); cs.push_back(mkNot(c)); std::shared_ptr<Model> m; int r = SOL->check(cs, &m);
  if (r < 0) throw Kill{"solver gave up on an assertion"};
  if (r == 1) { State t; t.model = s.model; setModel(t, m, cs); emitViolation(s, msg, t.model); std::shared_ptr<Model> m2; std::vector<Node*> c2 = slice(s, c); c2.push_back(c); if (SOL->check(c2, &m2) != 1) throw Kill{""}; setModel(s, m2, c2); addC(s, c); }
}
static Ivs ivSingle(u64 v) { return Ivs{{v, v}}; }

// exceptions: types by the name of their type information; a handler takes its type and those derived from it
static const char* baseType(const char* t) {
  static const std::map<std::string, const char*> lib = {{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
  auto it = lib.find(t); if (it != lib.end()) return it->second; auto* g = M->getNamedGlobal(t); if (!g || !g->hasInitializer()) return nullptr; auto* st = dyn_cast<ConstantStruct>(g->getInitializer()); if (!st || st->getNumOperands() != 3) return nullptr; auto* b = dyn_cast<GlobalValue>(st->getOperand(2)->stripPointerCasts()); return b ? internS(b->getName().str()) : nullptr;
}
static bool typeIs(const char* t, const char* want) { if (!*want) return true; for (; t; t = baseType(t)) if (!strcmp(t, want)) return true; return false; }
static const char* catches(Frame& f, const char* type, bool& cleanup) { // the clause that takes it
  cleanup = false; DInst& I = f.f->bl[f.bb].in[f.ip]; if (I.op != Instruction::Invoke || I.t1 < 0) return nullptr; DInst& L = f.f->bl[I.t1].in[0]; if (L.op != Instruction::LandingPad) throw Kill{"exception handling"}; cleanup = L.cleanup;
  for (auto* c : L.lp) if (typeIs(type, c)) return c; return nullptr;
}
static void popFrame(State& s) { for (u64 id : s.fr.back().allocas) if (id >= baseN) s.rec[id - baseN] = ObjP(); s.fr.pop_back(); if (s.fr.size() == s.noOverTill) { s.noOver = false; s.noOverTill = 0; } }
static void unwind(State& s, u64 ex, const char* type) {
  bool found = false, cu; for (size_t i = s.fr.size(); i-- > 1 && !found;) if (catches(s.fr[i], type, cu)) found = true;
  if (!found) throw Viol{"uncaught exception " + demangle(type)};
  for (s.unw++;; popFrame(s)) { Frame& f = s.fr.back(); const char* c = catches(f, type, cu); if (!c && !cu) continue;
    jump(s, f.f->bl[f.bb].in[f.ip].t1); DInst& L = f.f->bl[f.bb].in[0]; u64 sel = 0; if (c) { auto* g = *c ? M->getNamedValue(c) : nullptr; sel = g ? globalId[g] : 0x7fffffff; } Val v; v.a = std::make_shared<std::vector<Val>>(); v.a->push_back(Val(ex)); v.a->push_back(Val(sel)); f.r[L.dst] = v; f.ip = 1; return; }
}
static const char* typeOf(State& s, u64 ex) { for (auto& e : s.exc) if (e.first == ex) return e.second; throw Kill{"exception of unknown type"}; }
static void throwNew(State& s, const char* type) { Obj* o = newObj(s, 64, 'e', "exception"); s.exc.push_back({addrOf(o->id), type}); unwind(s, addrOf(o->id), type); }

static bool joinCall(State& s, DFunc* f, std::vector<Val>& args, DInst& I);
static void doCall(State& s, DInst& I, DFunc* f, std::vector<Val>& args) {
  // engine and library functions
  if (f->native) { Frame& fr = s.fr.back(); int ip = fr.ip; size_t depth = s.fr.size(); if (f->native(s, I, args)) { if (s.fr.size() == depth) { Frame& g = s.fr.back(); (void)ip; if (I.t0 >= 0) jump(s, I.t0); else g.ip++; } } return; }
  if (f->ignore) { if (I.dst >= 0 && !s.fr.back().r[I.dst].a) setR(s, I, Val(0)); if (I.t0 >= 0) jump(s, I.t0); else s.fr.back().ip++; return; }
  if (f->over && !s.noOver) f = f->over;
  if (f->summ && !s.inSumm && trySummary(s, f, args, I)) { if (I.t0 >= 0) jump(s, I.t0); else s.fr.back().ip++; return; }
  if (f->summ && !s.inSumm && !s.noOver) { s.noOver = true; s.noOverTill = s.fr.size(); } // no summary: as it is
  if (f->join && !noMerge && joinCall(s, f, args, I)) return;
  if (f->merge && !noMerge && !s.apart) {
    size_t depth = s.fr.size(); size_t pathN = s.path.size(); u64 om = s.minW; int hl = s.heapLive; u64 mark = s.nextId;
    State* w = new State(s); w->minW = ~0ull; enter(*w, f, args, I.dst, I.w);
    std::vector<Res> out; bool lost = false; runUntil(w, depth, out, lost); curS = &s;
    if (out.empty()) throw Kill{""};
    bool clean = !lost && out.size() > 1; u64 steps = 0; for (auto& r : out) { steps = std::max(steps, r.s->steps); if (r.s->minW < mark || r.s->heapLive != hl || r.s->unw != s.unw || r.s->inputs.size() != s.inputs.size()) clean = false; }
    if (clean) for (auto& r : out) { r.v = r.s->fr.back().r[I.dst]; if (r.v.a) clean = false; }
    if (clean) {
      std::function<Val(std::vector<size_t>&, size_t)> build = [&](std::vector<size_t>& ix, size_t k) -> Val {
        if (ix.size() == 1) return out[ix[0]].v;
        Node* L = nullptr; for (size_t i : ix) if (out[i].s->path.size() > k) { L = out[i].s->path[k]; break; } if (!L) return out[ix[0]].v;
        std::vector<size_t> A, B; for (size_t i : ix) { if (out[i].s->path.size() > k && out[i].s->path[k] == L) A.push_back(i); else B.push_back(i); }
        Val a = build(A, k + 1); if (B.empty()) return a; Val b = build(B, k + 1); return ite(L, a, b, I.w); };
      std::vector<size_t> all; for (size_t i = 0; i < out.size(); i++) all.push_back(i);
      Val v = build(all, pathN); ST.merges++;
      s.steps = steps; s.fr.back().r[I.dst] = v; for (auto& r : out) delete r.s; if (I.t0 >= 0) jump(s, I.t0); else s.fr.back().ip++; return;
    }
    // separate continuations (the call has already returned in each of them)
    for (auto& r : out) r.s->minW = std::min(om, r.s->minW);
    for (size_t i = 1; i < out.size(); i++) curList->push_back(out[i].s);
    State* t = out[0].s; s = *t; delete t; return;
  }
  if (I.t0 >= 0) { } // invoke: the frame jumps on return
  enter(s, f, args, I.dst, I.w);
}

static void ret(State& s, const Val& v) {
  Frame f = std::move(s.fr.back()); s.fr.pop_back();
  for (u64 id : f.allocas) { if (id >= baseN) s.rec[id - baseN] = ObjP(); }
  if (s.fr.empty()) return;
  if (s.fr.size() == s.noOverTill) { s.noOver = false; s.noOverTill = 0; }
  Frame& g = s.fr.back(); DInst& I = g.f->bl[g.bb].in[g.ip];
  if (I.dst >= 0) g.r[I.dst] = v;
  if (I.t0 >= 0 && I.op == Instruction::Invoke) jump(s, I.t0); else g.ip++;
}

static void intrinsic(State& s, DInst& I) {
  auto A = [&](int i) { return getOp(s, I.o[i]); };
  auto next = [&](const Val& v) { setR(s, I, v); s.fr.back().ip++; };
  unsigned w = I.w;
  switch (I.intr) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(s, A(2), 64), d = concretize(s, A(0), 64), a = concretize(s, A(1), 64); copyMem(s, d, a, n); s.fr.back().ip++; return; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = concretize(s, A(2), 64), d = concretize(s, A(0), 64); Val v = A(1); for (u64 i = 0; i < n; i++) storeMem(s, d + i, v, 8); s.fr.back().ip++; return; }
    case Intrinsic::ctlz: { Val x = A(0); if (!x.n) { u64 v = x.c & maskw(w); if (!v) { if (A(1).c & 1) { next(Val(freshUndef(w), 0)); return; } next(Val(w)); return; } next(Val(w - (64 - __builtin_clzll(v)))); return; }
        Node* r = ctlzNode(x.n, w); if (A(1).c & 1) { Node* z = mkEq(x.n, mkC(0, w)); if (!z->isc() || z->cv) r = mkIte(z, freshUndef(w), r); } next(Val(r, 0)); return; }
    case Intrinsic::cttz: { Val x = A(0); if (!x.n) { u64 v = x.c & maskw(w); next(Val(v ? __builtin_ctzll(v) : w)); return; } Node* r = mkC(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkEq(mkExt(x.n, i, 1), mkC(1, 1)), mkC(i, w), r); next(Val(r, 0)); return; }
    case Intrinsic::ctpop: { Val x = A(0); if (!x.n) { next(Val(__builtin_popcountll(x.c & maskw(w)))); return; } Node* r = mkC(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZx(mkExt(x.n, i, 1), w)); next(Val(r, 0)); return; }
    case Intrinsic::bswap: { Node* x = N(A(0), w); Node* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Node* b = mkExt(x, 8 * i, 8); r = r ? mkOp(K_CONCAT, r->w + 8, r, b) : b; } next(Val(r, 0)); return; }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { Node *a = N(A(0), w), *b = N(A(1), w); bool sg = I.intr == Intrinsic::smax || I.intr == Intrinsic::smin, mx = I.intr == Intrinsic::umax || I.intr == Intrinsic::smax; Node* lt = sg ? mkSlt(a, b) : mkUlt(a, b); next(Val(mx ? mkIte(lt, b, a) : mkIte(lt, a, b), 0)); return; }
    case Intrinsic::abs: { Node* a = N(A(0), w); next(Val(mkIte(mkSlt(a, mkC(0, w)), mkNeg(a), a), 0)); return; }
    case Intrinsic::usub_sat: { Node *a = N(A(0), w), *b = N(A(1), w); next(Val(mkIte(mkUlt(a, b), mkC(0, w), mkSub(a, b)), 0)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { Val c = A(2); u64 k = concretize(s, c, w) % w; Node *a = N(A(0), w), *b = N(A(1), w); Node* r; if (I.intr == Intrinsic::fshl) r = k ? mkOr(mkOp(K_SHL, w, a, mkC(k, w)), mkOp(K_LSHR, w, b, mkC(w - k, w))) : a; else r = k ? mkOr(mkOp(K_SHL, w, a, mkC(w - k, w)), mkOp(K_LSHR, w, b, mkC(k, w))) : b; next(Val(r, 0)); return; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned ww = I.w2; Val x = A(0), y = A(1); Val r; r.a = std::make_shared<std::vector<Val>>(2);
        if (I.intr == Intrinsic::umul_with_overflow || I.intr == Intrinsic::smul_with_overflow) { u64 a = concretize(s, x, ww), b = concretize(s, y, ww); bool sg = I.intr == Intrinsic::smul_with_overflow; s128 p = sg ? (s128)sx(a, ww) * sx(b, ww) : (s128)((u128)a * b); bool ov = sg ? p != (s128)sx((u64)p & maskw(ww), ww) : ((u128)p >> ww) != 0; (*r.a)[0] = Val((u64)p & maskw(ww)); (*r.a)[1] = Val(ov); }
        else { Node *a = N(x, ww), *b = N(y, ww); bool sub = I.intr == Intrinsic::usub_with_overflow || I.intr == Intrinsic::ssub_with_overflow, sg = I.intr == Intrinsic::sadd_with_overflow || I.intr == Intrinsic::ssub_with_overflow; Node* q = sub ? mkSub(a, b) : mkAdd(a, b); Node* ov;
          if (!sg) ov = sub ? mkUlt(a, b) : mkUlt(q, a); else { Node* z = mkC(0, ww); Node *na = mkSlt(a, z), *nb = mkSlt(b, z), *nq = mkSlt(q, z); if (sub) nb = mkNot(nb); ov = mkAnd(mkEq(na, nb), mkNot(mkEq(na, nq))); }
          (*r.a)[0] = Val(q, 0); (*r.a)[1] = Val(ov, 0); } next(r); return; }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: next(A(0)); return;
    case Intrinsic::is_constant: next(Val(0)); return;
    case Intrinsic::objectsize: next(Val(~0ull)); return;
    case Intrinsic::stacksave: next(Val(0)); return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: throw Viol{"trap"};
    case Intrinsic::eh_typeid_for: next(Val(A(0).c >> 32)); return;
    case Intrinsic::threadlocal_address: next(A(0)); return;
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::fabs: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::round: case Intrinsic::sqrt: case Intrinsic::log2: case Intrinsic::log: { double d = asD(concretize(s, A(0), w), w), r = 0; switch (I.intr) { case Intrinsic::ceil: r = ceil(d); break; case Intrinsic::floor: r = floor(d); break; case Intrinsic::fabs: r = fabs(d); break; case Intrinsic::trunc: r = trunc(d); break; case Intrinsic::rint: r = rint(d); break; case Intrinsic::round: r = round(d); break; case Intrinsic::sqrt: r = sqrt(d); break; case Intrinsic::log2: r = log2(d); break; case Intrinsic::log: r = log(d); break; } next(Val(fromD(r, w))); return; }
    case Intrinsic::fmuladd: { double a = asD(concretize(s, A(0), w), w), b = asD(concretize(s, A(1), w), w), c = asD(concretize(s, A(2), w), w); next(Val(fromD(w == 32 ? (double)((float)a * (float)b + (float)c) : a * b + c, w))); return; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::dbg_assign: 
      if (I.dst >= 0) setR(s, I, Val(0)); s.fr.back().ip++; return;
    default: throw Kill{"intrinsic not supported: " + Intrinsic::getBaseName(I.intr).str()};
  }
}

// symbolic address: a table when every possible address can be read, otherwise made concrete
static Val loadSym(State& s, const Val& p, unsigned bits) {
  Node* n = under(s, p.n);
  if (n->isc()) return loadMem(s, n->cv, bits);
  if (n->sup->size() == 1 && !s.conc.count(n)) {
    u32 v = (*n->sup)[0]; Ivs d = domIv(s, v);
    if (card(d) <= 1200) {
      std::vector<Piece> ps; bool ok = true; u64 at = 0, mx = maskw(C.vars[v].w); Model m(v + 1, 0);
      for (auto& I : d) { for (u64 x = I.first;; x++) { m[v] = x; Evaluator e(m); u64 a = e(n); ObjP* o = find(s, a >> 32); s64 off = (s64)(a & 0xffffffffull) - (s64)BIAS; if (!o || off < 0 || (u64)off + (bits + 7) / 8 > (*o)->size) { ok = false; break; }
          bool cc = true; if (!(*o)->tag.empty()) for (unsigned i = 0; i < (bits + 7) / 8; i++) if ((*o)->tag[off + i] != 1) cc = false; if (!cc) { ok = false; break; }
          Val r = loadMem(s, a, bits); if (x > at) ps.push_back({at, x - 1, 0, ps.empty() ? r.c : ps.back().c}); ps.push_back({x, x, 0, r.c}); at = x + 1; if (x == I.second) break; } if (!ok) break; }
      if (ok) { if (at && at <= mx) ps.push_back({at, mx, 0, ps.back().c}); Table1* t = internT1(C.vars[v].w, bits, ps); return Val(apply1(t, C.varNodes[v]), 0); }
    }
  }
  return loadMem(s, concretize(s, p, 64), bits);
}

// a table over one input with at most k different values left
static bool few(State& s, Node* u, size_t k) { if (u->a->k != K_VAR) return false; Ivs d = domIv(s, u->a->aux); std::set<u64> vs; auto& P = u->t1->p; size_t i = 0; for (auto& I : d) { while (P[i].hi < I.first) i++; for (size_t j = i; j < P.size() && P[j].lo <= I.second; j++) { vs.insert(P[j].c); if (vs.size() > k) return false; } } return true; }
static void step(State& s) {
  Frame& f = s.fr.back(); DInst& I = f.f->bl[f.bb].in[f.ip]; ST.instrs++; 
  if (++s.steps > maxSteps) throw Viol{"does not terminate (more than " + std::to_string(maxSteps) + " instructions)"};
  auto A = [&](int i) { return getOp(s, I.o[i]); };
  switch (I.op) {
    case Instruction::Ret: { Val v; if (!I.o.empty()) v = A(0); ret(s, v); return; }
    case Instruction::Br: { if (I.t1 < 0) { jump(s, I.t0); return; } Val c = A(0); bool t; if (!c.n) t = c.c & 1; else { int t1 = I.t1; Node* cn = splitL2(s, c.n); if (cn->isc()) t = cn->cv & 1; else t = branch(s, cn, [t1](State& o) { jump(o, t1); }); } jump(s, t ? I.t0 : I.t1); return; }
    case Instruction::Switch: { Val c = A(0); if (!c.n) { u64 v = c.c & maskw(I.w2); for (auto& e : I.cases) if (e.first == v) { jump(s, e.second); return; } jump(s, I.t0); return; }
        // group by target
        std::map<int, Node*> g; for (auto& e : I.cases) { Node* q = mkEq(c.n, mkC(e.first, I.w2)); auto it = g.find(e.second); if (it == g.end()) g[e.second] = q; else it->second = mkOr(it->second, q); }
        for (auto& e : g) { if (e.first == I.t0) continue; bool neg = false; // take e or continue with the rest in this state
          Dec d = decide(s, e.second); if (d.t && d.f) { State* o = cloneS(s); curS = o; try { addC(*o, e.second); if (d.mt) o->model = d.mt; o->path.push_back(e.second); jump(*o, e.first); curList->push_back(o); } catch (Kill&) { delete o; } curS = &s; Node* q = mkNot(e.second); addC(s, q); if (d.mf) s.model = d.mf; s.path.push_back(q); neg = true; }
          else if (d.t) { jump(s, e.first); return; } (void)neg; }
        jump(s, I.t0); return; }
    case Instruction::Unreachable: throw Viol{"reached code that must not be reached"};
    case Instruction::Alloca: { u64 n = concretize(s, A(0), I.w2) * I.goff; if (n > (1u << 28)) throw Kill{"huge stack object"}; Obj* o = newObj(s, n, 's', internS(I.I->hasName() ? I.I->getName().str() : "stack")); s.fr.back().allocas.push_back(o->id); setR(s, I, Val(addrOf(o->id))); break; }
    case Instruction::Load: { if (I.w > 64) { throw Kill{"load of unsupported type"}; } Val p = A(0); setR(s, I, p.n ? loadSym(s, p, I.w) : loadMem(s, p.c, I.w)); break; }
    case Instruction::Store: { Val v = A(0), p = A(1); if (v.n && I.w2 == 32 && !s.raw) v = Val(recognize(s, v.n), 0); if (v.a || I.w2 > 64) { // aggregate
          if (!v.a) throw Kill{"store of unsupported type"}; auto* st = dyn_cast<StructType>(cast<StoreInst>(I.I)->getValueOperand()->getType()); if (!st) throw Kill{"store of array"}; u64 a = concretize(s, p, 64); auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeMem(s, a + L->getElementOffset(i), (*v.a)[i], bitsOf(st->getElementType(i))); break; }
        u64 a = p.n ? concretize(s, p, 64) : p.c; s.atom = I.atomic; storeMem(s, a, v, I.w2); s.atom = false; break; }
    case Instruction::GetElementPtr: { Val p = A(0);
        // an offset that takes few values: one path per value, so that addresses and sizes stay concrete
        if (!s.inSumm) for (size_t k = 0; k < I.gep.size(); k++) { Val x = A(k + 1); if (!x.n) continue; Node* u = under(s, x.n); bool small = (~u->kz & maskw(u->w)) < 16; if (u->isc() || small || (u->k == K_L1 && u->t1->constOnly && few(s, u, 8))) s.conc[x.n] = concretize(s, x, I.gep[k].first); }
        if (!p.n) { u64 c = p.c + I.goff; bool sym = false; for (size_t k = 0; k < I.gep.size(); k++) { Val x = A(k + 1); if (x.n) { sym = true; break; } c += (u64)sx(x.c, I.gep[k].first) * I.gep[k].second; } if (!sym) { setR(s, I, Val(c)); break; } }
        Node* r = mkAdd(N(p, 64), mkC(I.goff, 64)); for (size_t k = 0; k < I.gep.size(); k++) { Val x = A(k + 1); Node* q = mkSx(N(x, I.gep[k].first), 64); r = mkAdd(r, mkOp(K_MUL, 64, q, mkC(I.gep[k].second, 64))); } setR(s, I, Val(r, 0)); break; }
    case Instruction::ICmp: { Val a = A(0), b = A(1); unsigned w = I.w2; if (w > 64) throw Kill{"wide comparison"}; setR(s, I, Val(cmpNode(I.pred, N(a, w), N(b, w)), 0)); break; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Val a = A(0), b = A(1); unsigned w = I.w; if (w > 64) throw Kill{"wide integer"}; static const std::map<unsigned, Kind> km = {{Instruction::Add, K_ADD}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV}, {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}, {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR}, {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}};
        if (I.op >= Instruction::UDiv && I.op <= Instruction::SRem && I.op != Instruction::FDiv && I.op != Instruction::FRem) { Node* z = mkEq(N(b, w), mkC(0, w)); if (z->isc()) { if (z->cv) throw Viol{"division by zero"}; } else checkBool(s, mkNot(z), "division by zero"); }
        if (I.op == Instruction::Shl || I.op == Instruction::LShr || I.op == Instruction::AShr) { Node* ok = mkUlt(N(b, w), mkC(w, w)); if (ok->isc() && !ok->cv) { setR(s, I, Val(freshUndef(w), 0)); break; } if (!ok->isc()) { Node* q = mkOp(km.at(I.op), w, N(a, w), N(b, w)); setR(s, I, Val(mkIte(ok, q, freshUndef(w)), 0)); break; } }
        if (!a.n && !b.n) { u64 r = I.op == Instruction::Sub ? (a.c - b.c) & maskw(w) : ev(km.at(I.op), w, w, a.c & maskw(w), w, b.c & maskw(w), 0, 0); setR(s, I, Val(r)); break; }
        if (I.op == Instruction::Sub) setR(s, I, Val(mkSub(N(a, w), N(b, w)), 0)); else setR(s, I, Val(mkOp(km.at(I.op), w, N(a, w), N(b, w)), 0)); break; }
    case Instruction::ZExt: { Val a = A(0); if (I.w > 64) throw Kill{"wide integer"}; setR(s, I, a.n ? Val(mkZx(a.n, I.w), 0) : Val(a.c & maskw(I.w2))); break; }
    case Instruction::SExt: { Val a = A(0); if (I.w > 64) throw Kill{"wide integer"}; setR(s, I, a.n ? Val(mkSx(a.n, I.w), 0) : Val((u64)sx(a.c, I.w2) & maskw(I.w))); break; }
    case Instruction::Trunc: { Val a = A(0); setR(s, I, a.n ? Val(mkExt(a.n, 0, I.w), 0) : Val(a.c & maskw(I.w))); break; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val a = A(0); if (I.w < I.w2) { setR(s, I, a.n ? Val(mkExt(a.n, 0, I.w), 0) : Val(a.c & maskw(I.w))); } else if (I.w > I.w2) setR(s, I, a.n ? Val(mkZx(a.n, I.w), 0) : a); else setR(s, I, a); break; }
    case Instruction::Freeze: setR(s, I, A(0)); break;
    case Instruction::Select: { Val c = A(0), a = A(1), b = A(2); if (!c.n) { setR(s, I, (c.c & 1) ? a : b); break; } Node* q = under(s, c.n); if (q->isc()) { setR(s, I, q->cv ? a : b); break; } if (a.a || b.a || I.w > 64) throw Kill{"select of aggregates"}; setR(s, I, ite(q, a, b, I.w)); break; }
    case Instruction::ExtractValue: { Val v = A(0); for (unsigned i : I.idx) { if (!v.a) throw Kill{"extractvalue"}; v = Val((*v.a)[i]); } setR(s, I, v); break; }
    case Instruction::InsertValue: { Val v = A(0), x = A(1); if (I.idx.size() != 1 || !v.a) throw Kill{"insertvalue"}; Val r; r.a = std::make_shared<std::vector<Val>>(*v.a); (*r.a)[I.idx[0]] = x; setR(s, I, r); break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { double a = asD(concretize(s, A(0), I.w), I.w), b = asD(concretize(s, A(1), I.w), I.w), r = 0; if (I.w == 32) { float x = a, y = b, z; z = I.op == Instruction::FAdd ? x + y : I.op == Instruction::FSub ? x - y : I.op == Instruction::FMul ? x * y : x / y; r = z; } else r = I.op == Instruction::FAdd ? a + b : I.op == Instruction::FSub ? a - b : I.op == Instruction::FMul ? a * b : a / b; setR(s, I, Val(fromD(r, I.w))); break; }
    case Instruction::FNeg: setR(s, I, Val(fromD(-asD(concretize(s, A(0), I.w), I.w), I.w))); break;
    case Instruction::FCmp: { double a = asD(concretize(s, A(0), I.w2), I.w2), b = asD(concretize(s, A(1), I.w2), I.w2); bool un = std::isnan(a) || std::isnan(b), r; switch (I.pred) { case CmpInst::FCMP_OEQ: r = a == b; break; case CmpInst::FCMP_OGT: r = a > b; break; case CmpInst::FCMP_OGE: r = a >= b; break; case CmpInst::FCMP_OLT: r = a < b; break; case CmpInst::FCMP_OLE: r = a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break; case CmpInst::FCMP_UNE: r = a != b; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = !(a <= b); break; case CmpInst::FCMP_UGE: r = !(a < b); break; case CmpInst::FCMP_ULT: r = !(a >= b); break; case CmpInst::FCMP_ULE: r = !(a > b); break; default: throw Kill{"fcmp"}; } setR(s, I, Val(r)); break; }
    case Instruction::SIToFP: setR(s, I, Val(fromD((double)sx(concretize(s, A(0), I.w2), I.w2), I.w))); break;
    case Instruction::UIToFP: setR(s, I, Val(fromD((double)(concretize(s, A(0), I.w2) & maskw(I.w2)), I.w))); break;
    case Instruction::FPToSI: setR(s, I, Val((u64)(s64)asD(concretize(s, A(0), I.w2), I.w2) & maskw(I.w))); break;
    case Instruction::FPToUI: setR(s, I, Val((u64)asD(concretize(s, A(0), I.w2), I.w2) & maskw(I.w))); break;
    case Instruction::FPExt: case Instruction::FPTrunc: setR(s, I, Val(fromD(asD(concretize(s, A(0), I.w2), I.w2), I.w))); break;
    case Instruction::AtomicRMW: { Val p = A(0), x = A(1); u64 a = concretize(s, p, 64); unsigned w = I.w; Val old = loadMem(s, a, w); Node *o = N(old, w), *v = N(x, w), *r; switch (cast<AtomicRMWInst>(I.I)->getOperation()) { case AtomicRMWInst::Add: r = mkAdd(o, v); break; case AtomicRMWInst::Sub: r = mkSub(o, v); break; case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Or: r = mkOr(o, v); break; case AtomicRMWInst::And: r = mkAnd(o, v); break; default: throw Kill{"atomicrmw"}; } s.atom = true; storeMem(s, a, Val(r, 0), w); s.atom = false; setR(s, I, old); break; }
    case Instruction::Fence: break;
    case Instruction::Resume: { Val v = A(0); if (!v.a) throw Kill{"exception handling"}; u64 ex = (*v.a)[0].c; popFrame(s); unwind(s, ex, typeOf(s, ex)); return; }
    case Instruction::LandingPad: throw Kill{"exception handling"};
    case Instruction::AtomicCmpXchg: { Val p = A(0), e = A(1), n = A(2); unsigned w = I.w2; auto* cx = cast<AtomicCmpXchgInst>(I.I); w = bitsOf(cx->getNewValOperand()->getType()); u64 a = concretize(s, p, 64); Val old = loadMem(s, a, w); Node* same = mkEq(N(old, w), N(e, w)); s.atom = true; storeMem(s, a, Val(mkIte(same, N(n, w), N(old, w)), 0), w); s.atom = false; Val r; r.a = std::make_shared<std::vector<Val>>(); r.a->push_back(old); r.a->push_back(Val(same, 0)); setR(s, I, r); break; }
    case Instruction::Call: case Instruction::Invoke: {
        if (I.intr) { intrinsic(s, I); return; }
        std::vector<Val> args; size_t na = cast<CallBase>(I.I)->arg_size(); args.reserve(na); for (size_t i = 0; i < na; i++) args.push_back(A(i));
        DFunc* c = I.callee; if (!c) { if (I.o.size() <= na) throw Kill{"inline assembler"}; u64 a = concretize(s, A(na), 64); auto it = fnById.find(a >> 32); if (it == fnById.end() || offOf(a)) throw Viol{"call of something that is not a function"}; c = it->second; }
        doCall(s, I, c, args); return; }
    default: throw Kill{"instruction not supported: " + std::string(I.I->getOpcodeName())};
  }
  s.fr.back().ip++;
}

// ------------------------------------------------------------------ results of paths
static std::string inputsJson(const Model& m, State& s) {
  std::string r = "["; bool first = true;
  for (u32 i : s.inputs) { char b[64]; snprintf(b, sizeof b, "%llu", (unsigned long long)(i < m.size() ? m[i] & maskw(C.vars[i].w) : 0)); r += (first ? "" : ","); r += "{\"name\":" + jstr(C.vars[i].name) + ",\"bits\":" + std::to_string(C.vars[i].w) + ",\"value\":" + b + "}"; first = false; }
  return r + "]";
}
static int violLocal = 0;
static void emitViolation(State& s, const std::string& msg, std::shared_ptr<Model> m) {
  int k = SH->viol.fetch_add(1); violLocal++;
  if (dbg) { fprintf(stderr, "VIOL %s at %s\n", msg.c_str(), locOf(s).c_str()); }
  if (k < maxViol) { static const Model empty; FILE* f = fopen((outDir + "/viol." + std::to_string(getpid()) + "." + std::to_string(violLocal)).c_str(), "w");
    if (f) { std::string tags = "["; for (size_t i = 0; i < s.tags.size(); i++) tags += (i ? "," : "") + jstr(s.tags[i]); fprintf(f, "{\"msg\":%s,\"where\":%s,\"summary\":%s,\"tags\":%s],\"inputs\":%s}\n", jstr(msg).c_str(), jstr(locOf(s)).c_str(), s.inSumm ? "true" : "false", tags.c_str(), inputsJson(m ? *m : empty, s).c_str()); fclose(f); } }
  if (k + 1 >= maxViol) SH->stop = 1;
}
static void finishPath(State& s) {
  ST.paths++; u64 n = SH->paths.fetch_add(1); for (auto* t : s.tags) ST.reach[t]++;
  // vacuity and validation: a model of the complete path condition, replayed on the real code
  bool take = false; if (SH->samples < maxSamples) { u64 h = hmix(seed * 7919 + n, 13); take = n < 4 || h % (1 + n / sampleEvery) == 0; }
  if (take) { std::vector<Node*> cs = slice(s, nullptr, true); std::shared_ptr<Model> m; int r = SOL->check(cs, &m); if (r == 0) fatal("a finished path is infeasible"); if (r == 1) { SH->samples.fetch_add(1); m = std::make_shared<Model>(*m); m->resize(C.vars.size(), 0); for (u32 v : s.inputs) if (!inResidual(s, v)) { Ivs d = domIv(s, v); auto& I = d[hmix(hmix(seed, n), v) % d.size()]; u64 sp = I.second - I.first; (*m)[v] = I.first + (sp == ~0ull ? hmix(n, v) : hmix(hmix(seed + 1, n), v) % (sp + 1)); } Evaluator e(*m); for (Node* c : cs) if (!e(c)) fatal("sample does not satisfy its path");
      FILE* f = fopen((outDir + "/samples." + std::to_string(getpid())).c_str(), "a"); if (f) { std::string o = "["; bool undef = false; for (size_t i = 0; i < s.obs.size(); i++) { for (u32 v : *s.obs[i].second->sup) if (!C.vars[v].input) undef = true; o += (i ? "," : "") + std::string("[") + jstr(s.obs[i].first) + "," + std::to_string(e(s.obs[i].second)) + "]"; } std::string tags = "["; for (size_t i = 0; i < s.tags.size(); i++) tags += (i ? "," : "") + jstr(s.tags[i]);
          fprintf(f, "{\"inputs\":%s,\"observed\":%s],\"tags\":%s],\"undef\":%s}\n", inputsJson(*m, s).c_str(), o.c_str(), tags.c_str(), undef ? "true" : "false"); fclose(f); } } }
}
static void writeStats() {
  FILE* f = fopen((outDir + "/stats." + std::to_string(getpid())).c_str(), "w"); if (!f) return;
  fprintf(f, "{\"paths\":%llu,\"killed\":%llu,\"instrs\":%llu,\"branches\":%llu,\"forks\":%llu,\"asserts\":%llu,\"asserts_concrete\":%llu,\"asserts_solver\":%llu,\"incomplete\":%llu,\"merges\":%llu,\"summaries\":%llu,\"summary_leaves\":%llu,\"concretizations\":%llu,\"fast\":%llu,\"folds\":%llu,\"audits\":%llu,", (unsigned long long)ST.paths, (unsigned long long)ST.killed, (unsigned long long)ST.instrs, (unsigned long long)ST.branches, (unsigned long long)ST.forks, (unsigned long long)ST.asserts, (unsigned long long)ST.assertsTriv, (unsigned long long)ST.assertsQ, (unsigned long long)ST.incomplete, (unsigned long long)ST.merges, (unsigned long long)ST.summaries, (unsigned long long)ST.sumLeaves, (unsigned long long)ST.concretizations, (unsigned long long)ST.fastDecides, (unsigned long long)C.folds, (unsigned long long)ST.audits);
  fprintf(f, "\"queries\":%llu,\"query_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"nodes\":%zu,", (unsigned long long)SOL->queries, (unsigned long long)SOL->hits, (unsigned long long)SOL->nsat, (unsigned long long)SOL->nunsat, (unsigned long long)SOL->nunk, SOL->time, SOL->maxq, C.nodes.size());
  auto mp = [&](const char* k, std::map<std::string, u64>& m) { fprintf(f, "\"%s\":{", k); bool c = false; for (auto& e : m) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(e.first).c_str(), (unsigned long long)e.second); c = true; } fprintf(f, "},"); };
  mp("reach", ST.reach); mp("incomplete_why", ST.incompleteWhy); mp("notes", ST.notes);
  fprintf(f, "\"functions\":["); bool c = false; for (auto& e : ST.funcs) { fprintf(f, "%s%s", c ? "," : "", jstr(e).c_str()); c = true; } fprintf(f, "]}\n"); fclose(f);
}
static void killed(State& s, const std::string& why) { ST.killed++; if (!why.empty() && why != "inconsistent" && why != "assume") { ST.incomplete++; ST.incompleteWhy[why]++; if (dbg) fprintf(stderr, "INCOMPLETE %s at %s\n", why.c_str(), locOf(s).c_str()); } }

static std::vector<std::pair<State*, std::string>> summErr;
// a timer asks from time to time whether the time is up; once it is, every state ends at its next step
static volatile sig_atomic_t tick = 0;
static bool timeUp() { if (SH->stop || nowS() > deadline) return true; tick = 0; return false; }
static void startTimer() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) { tick = 1; }; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr); struct itimerval t = {{0, 200000}, {0, 200000}}; setitimer(ITIMER_REAL, &t, nullptr); }
// run one state until it returns to the given depth or ends
static bool runOne(State* s, size_t depth, bool& lost) {
  curS = s;
  try { while (s->fr.size() > depth) { step(*s); if (tick && timeUp()) { if (!SH->stop) throw Kill{"time limit"}; throw Kill{"stopped"}; } } return true; }
  catch (Kill& k) { killed(*s, k.why); lost = true; }
  catch (std::bad_alloc&) { killed(*s, "memory limit"); lost = true; }
  catch (Viol& v) { // make sure that the path is feasible, with a model of all of it
    lost = true; std::vector<Node*> cs = slice(*s, nullptr, true); std::shared_ptr<Model> m; int r = SOL->check(cs, &m); if (r == 1 && s->inSumm) summErr.push_back({new State(*s), v.msg}); else if (r == 1) emitViolation(*s, v.msg, m); else if (r < 0) killed(*s, "solver gave up on a failing path"); else fatal("failing path is infeasible"); }
  return false;
}
static void runUntil(State* init, size_t depth, std::vector<Res>& out, bool& lost) {
  std::vector<State*> list, *save = curList; curList = &list; State* saveS = curS; list.push_back(init);
  // the value returned is in the destination register of the caller's frame
  while (!list.empty()) { State* s = list.back(); list.pop_back(); bool l = false; 
    if (runOne(s, depth, l)) { out.push_back({s, Val()}); } else { lost |= l; delete s; } }
  curList = save; curS = saveS;
}

// ------------------------------------------------------------------ summaries
bool pwView(Node* n, u32 v, std::vector<Piece>& out);
struct Summary { bool ok = false; std::vector<Node*> vars, outs; std::vector<std::pair<Node*, std::string>> errs; bool pure = true; };
static std::map<std::pair<DFunc*, u64>, Summary*> sums;
static State* pristine = nullptr;
static Node* subst(Node* n, const std::vector<Node*>& from, const std::vector<Node*>& to, std::unordered_map<Node*, Node*>& memo) {
  if (n->isc()) return n; for (size_t i = 0; i < from.size(); i++) if (n == from[i]) return to[i];
  auto it = memo.find(n); if (it != memo.end()) return it->second; Node* r;
  if (n->k == K_L1) r = apply1(n->t1, subst(n->a, from, to, memo)); else if (n->k == K_L2) r = apply2(n->t2, subst(n->a, from, to, memo), subst(n->b, from, to, memo)); else if (n->k == K_VAR) r = n;
  else r = mkOp(n->k, n->w, subst(n->a, from, to, memo), n->b ? subst(n->b, from, to, memo) : nullptr, n->c ? subst(n->c, from, to, memo) : nullptr, n->aux);
  memo[n] = r; return r;
}
struct Leaf { State* s; std::vector<Node*> out; };
static Node* leafCond(State& s, const std::vector<Node*>& vars) { Node* c = mkC(1, 1); for (Node* v : vars) { Dom d = domGet(s, v->aux); if (d) c = mkAnd(c, mkInSet(v, *d)); } for (Node* p : s.pc) c = mkAnd(c, p); return c; }
static Node* buildOut(std::vector<Leaf>& L, size_t k, const std::vector<Node*>& vars) {
  std::vector<size_t> gen; unsigned w = 0; for (auto& l : L) w = l.out[k]->w; Node* res;
  if (vars.size() == 1) {
    u32 x = vars[0]->aux; std::vector<Piece> ps;
    for (size_t i = 0; i < L.size(); i++) { std::vector<Piece> P; if (!L[i].s->pc.empty() || !pwView(L[i].out[k], x, P)) { gen.push_back(i); continue; }
      size_t j = 0; for (auto& I : domIv(*L[i].s, x)) { while (j > 0 && P[j].lo > I.first) j--; while (P[j].hi < I.first) j++; for (size_t q = j; q < P.size() && P[q].lo <= I.second; q++) ps.push_back({std::max(P[q].lo, I.first), std::min(P[q].hi, I.second), P[q].coef, P[q].c}); } }
    std::sort(ps.begin(), ps.end(), [](const Piece& a, const Piece& b) { return a.lo < b.lo; }); std::vector<Piece> full; u64 at = 0, mx = maskw(vars[0]->w); bool end = false;
    for (auto& p : ps) { if (p.lo > at) full.push_back({at, p.lo - 1, 0, 0}); full.push_back(p); if (p.hi == mx) { end = true; break; } at = p.hi + 1; } if (!end) full.push_back({at, mx, 0, 0});
    res = apply1(internT1(vars[0]->w, w, full), vars[0]);
  } else {
    u32 x = vars[0]->aux, y = vars[1]->aux; std::set<u64> bx = {0}, by = {0}; u64 mxx = maskw(vars[0]->w), mxy = maskw(vars[1]->w); std::vector<size_t> box;
    for (size_t i = 0; i < L.size(); i++) { if (!L[i].s->pc.empty()) { gen.push_back(i); continue; } Ivs dx = domIv(*L[i].s, x), dy = domIv(*L[i].s, y); bool cst = L[i].out[k]->isc(), pts = !cst && card(dx) * card(dy) <= 20000 && card(dx) <= 2000 && card(dy) <= 2000; if (!cst && !pts) { gen.push_back(i); continue; } box.push_back(i);
      for (auto& I : dx) { if (pts) for (u64 v = I.first;; v++) { bx.insert(v); if (v == I.second) break; } bx.insert(I.first); if (I.second < mxx) bx.insert(I.second + 1); } for (auto& I : dy) { if (pts) for (u64 v = I.first;; v++) { by.insert(v); if (v == I.second) break; } by.insert(I.first); if (I.second < mxy) by.insert(I.second + 1); } }
    std::vector<u64> X(bx.begin(), bx.end()), Y(by.begin(), by.end()); if ((u64)X.size() * Y.size() > 6000000) return nullptr;
    Table2 t; t.wa = vars[0]->w; t.wb = vars[1]->w; t.wout = w; t.nx = X.size(); t.ny = Y.size(); t.cell.assign(X.size() * Y.size(), 0); for (size_t i = 0; i < X.size(); i++) t.xs.push_back({X[i], (u32)i}); for (size_t i = 0; i < Y.size(); i++) t.ys.push_back({Y[i], (u32)i});
    for (size_t i : box) { Node* o = L[i].out[k]; for (auto& I : domIv(*L[i].s, x)) for (size_t a = std::lower_bound(X.begin(), X.end(), I.first) - X.begin(); a < X.size() && X[a] <= I.second; a++) for (auto& J : domIv(*L[i].s, y)) for (size_t b = std::lower_bound(Y.begin(), Y.end(), J.first) - Y.begin(); b < Y.size() && Y[b] <= J.second; b++) {
          u64 v; if (o->isc()) v = o->cv; else { Model m(std::max(x, y) + 1, 0); m[x] = X[a]; m[y] = Y[b]; Evaluator e(m); v = e(o); } t.cell[a * t.ny + b] = v; } }
    res = apply2(internT2(t), vars[0], vars[1]);
  }
  for (size_t i : gen) res = mkIte(leafCond(*L[i].s, vars), L[i].out[k], res);
  return res;
}
// a call whose paths come together again, also in what they left in memory (a function of its integer arguments)
static bool joinCall(State& s, DFunc* f, std::vector<Val>& args, DInst& I) {
  size_t depth = s.fr.size(); u64 om = s.minW; int hl = s.heapLive; u64 mark = s.nextId; std::vector<Node*> vars; for (auto& a : args) if (a.n) { if (a.n->k != K_VAR) return false; if (std::find(vars.begin(), vars.end(), a.n) == vars.end()) vars.push_back(a.n); }
  if (vars.empty() || vars.size() > 2) return false;
  State* w = new State(s); w->minW = ~0ull; enter(*w, f, args, I.dst, I.w); std::vector<Res> out; bool lost = false; runUntil(w, depth, out, lost); curS = &s; if (out.empty()) throw Kill{""};
  bool ok = !lost; u64 steps = 0, low = ~0ull, lowP = s.minP; std::set<u64> ids;
  for (auto& r : out) { State& q = *r.s; steps = std::max(steps, q.steps); low = std::min(low, q.minW); lowP = std::min(lowP, q.minP); if (q.unw != s.unw) { ok = false; continue; } if (q.heapLive != hl || q.fr.back().r[I.dst].a || q.tags.size() != s.tags.size() || q.obs.size() != s.obs.size() || q.inputs.size() != s.inputs.size()) ok = false;
    for (u64 k = mark - baseN; k < q.rec.size(); k++) if (q.rec[k]) ok = false;
    for (auto& e : q.mod) { auto it = s.mod.find(e.first); if (it == s.mod.end() || it->second.o != e.second.o) ids.insert(e.first); } for (u64 k = 0; k < std::min<u64>(mark - baseN, q.rec.size()); k++) if (q.rec[k].o != s.rec[k].o) ids.insert(baseN + k); }
  if (ok) for (u64 id : ids) for (auto& r : out) if (!find(*r.s, id)) ok = false;
  if (ok) {
    std::vector<Leaf> L; for (auto& r : out) { Leaf l; l.s = r.s; l.out.resize(1); L.push_back(l); }
    auto joinV = [&](const std::function<Val(State&)>& get, unsigned bits, Val& res) { bool same = true; Val first = get(*L[0].s); for (auto& l : L) { Val v = get(*l.s); if (v.n != first.n || (!v.n && v.c != first.c)) same = false; l.out[0] = N(v, bits); } if (same) { res = first; return true; } for (auto& l : L) l.out[0] = under(*l.s, l.out[0]); if (vars.size() == 1) { int odd = 0; std::vector<Piece> P; for (auto& l : L) if (!l.s->pc.empty() || !pwView(l.out[0], vars[0]->aux, P)) odd++; if (odd > 40) return false; } Node* n = buildOut(L, 0, vars); if (!n) return false; res = Val(n, 0); return true; };
    std::vector<std::pair<u64, Val>> W; Val rv; bool good = joinV([&](State& q) { return q.fr.back().r[I.dst]; }, I.w, rv);
    for (u64 id : ids) { u64 size = (*find(s, id))->size; for (u64 o = 0; good && o < size; o += 4) { unsigned n = std::min<u64>(4, size - o);
        bool same = true; Obj* p0 = find(*L[0].s, id)->o; for (auto& l : L) { Obj* p = find(*l.s, id)->o; if (p != p0) for (unsigned i = 0; i < n && same; i++) { int t = p->tag.empty() ? 1 : p->tag[o + i], t0 = p0->tag.empty() ? 1 : p0->tag[o + i]; if (t != t0 || (t == 1 && p->b[o + i] != p0->b[o + i]) || (t == 2 && (p->s[o + i].n != p0->s[o + i].n || p->s[o + i].i != p0->s[o + i].i))) same = false; } if (!same) break; }
        if (same) { Obj* b = find(s, id)->o; bool as = true; for (unsigned i = 0; i < n; i++) { int t = p0->tag.empty() ? 1 : p0->tag[o + i], tb = b->tag.empty() ? 1 : b->tag[o + i]; if (t != tb || (t == 1 && p0->b[o + i] != b->b[o + i]) || (t == 2 && (p0->s[o + i].n != b->s[o + i].n || p0->s[o + i].i != b->s[o + i].i))) as = false; } if (as) continue; }
        for (unsigned i = 0; i < n; i += n == 4 ? 4 : 1) { Val v; unsigned bits = n == 4 ? 32 : 8; good = good && joinV([&](State& q) { return loadMem(q, addrOf(id) + o + i, bits); }, bits, v); W.push_back({addrOf(id) + o + i, v}); if (bits == 8) W.back().first |= 1ull << 63; } } }
    if (good) { ST.merges++; for (auto& e : W) storeMem(s, e.first & ~(1ull << 63), e.second, e.first >> 63 ? 8 : 32); s.minW = std::min(om, low); s.minP = lowP; s.steps = steps; s.fr.back().r[I.dst] = rv; for (auto& r : out) delete r.s; if (I.t0 >= 0) jump(s, I.t0); else s.fr.back().ip++; return true; }
  }
  for (auto& r : out) r.s->minW = std::min(om, r.s->minW); for (size_t i = 1; i < out.size(); i++) curList->push_back(out[i].s); State* t = out[0].s; s = *t; delete t; return true;
}
static Summary* summarize(DFunc* f, unsigned nint, std::vector<unsigned> ws, bool outPtr, u64 nout) {
  auto key = std::make_pair(f, nout); auto it = sums.find(key); if (it != sums.end()) return it->second;
  Summary* S = new Summary(); sums[key] = S; double t0 = nowS();
  if (nint < 1 || nint > 2) return S;
  State* s = new State(*pristine); s->inSumm = 1; s->noOver = true; s->inputs.clear(); std::vector<Val> args; for (unsigned i = 0; i < nint; i++) { Node* v = mkVar(f->nice + "#" + std::to_string(i), ws[i], false); S->vars.push_back(v); args.push_back(Val(v, 0)); }
  u64 oid = 0; if (outPtr) { Obj* o = newObj(*s, nout * 4, 'h', "summary result"); o->tag.clear(); oid = o->id; args.push_back(Val(addrOf(oid))); args.push_back(Val(nout)); }
  // a caller frame that receives the result
  Frame fr = pristine->fr[0]; fr.r.resize(std::max<size_t>(fr.r.size(), 1)); s->fr.clear(); s->fr.push_back(fr); State* saveS = curS; auto* saveD = C.domOf;
  static DInst dummy; (void)dummy; u64 mark = s->nextId; s->minW = ~0ull; enter(*s, f, args, 0, f->retw);
  std::vector<State*> list, *save = curList; curList = &list; list.push_back(s); std::vector<Leaf> leaves; bool bad = false; auto saveErr = std::move(summErr); summErr.clear(); u64 inc0 = ST.incomplete;
  while (!list.empty()) { State* q = list.back(); list.pop_back(); bool l = false; curS = q; 
    if (runOne(q, 1, l)) { Leaf lf; lf.s = q; if (outPtr) for (u64 i = 0; i < nout; i++) lf.out.push_back(N(loadMem(*q, addrOf(oid) + 4 * i, 32), 32)); else lf.out.push_back(N(q->fr[0].r[0], f->retw)); for (auto& o : lf.out) o = under(*q, o); if (q->minW < mark && q->minW != oid) S->pure = false; q->fr.clear(); q->rec.clear(); q->mod.clear(); leaves.push_back(lf); }
    else delete q; if (SH->stop || nowS() > deadline || nowS() - t0 > 40) { bad = true; break; } if (ST.incomplete != inc0) bad = true; }
  curList = save; curS = nullptr;
  if (!bad) {
    S->ok = true; ST.summaries++; ST.sumLeaves += leaves.size(); size_t n = outPtr ? nout : 1; std::vector<Leaf> all = leaves;
    for (size_t k = 0; k < n; k++) { if (leaves.empty()) { S->outs.push_back(mkC(0, outPtr ? 32 : f->retw)); continue; } Node* o = buildOut(leaves, k, S->vars); if (!o) { S->ok = false; break; } S->outs.push_back(o); }
    std::map<std::string, Node*> em; for (auto& e : summErr) { Node* c = leafCond(*e.first, S->vars); auto it2 = em.find(e.second); if (it2 == em.end()) em[e.second] = c; else it2->second = mkOr(it2->second, c); } for (auto& e : em) S->errs.push_back({e.second, e.first});
  }
  for (auto& l : leaves) delete l.s; for (auto& e : summErr) delete e.first; summErr = std::move(saveErr); curS = saveS; (void)saveD;
  ST.notes["summary " + f->nice + (S->ok ? "" : " (failed)")] = leaves.size(); if (!S->pure) ST.notes["summary " + f->nice + " writes to memory (ignored: purity is checked by H01)"] = 1;
  if (dbg) { fprintf(stderr, "summary %s: %zu leaves, ok=%d, %.2fs", f->nice.c_str(), leaves.size(), S->ok, nowS() - t0); for (auto* o : S->outs) { fprintf(stderr, " %s", show(o, 2).substr(0, 200).c_str()); if (o != S->outs[0]) break; } fprintf(stderr, "\n"); }
  return S;
}
// a codepoint spelled out as octets and decoded again is the codepoint: proved by the solver, then rewritten
static Node* recognize0(State& s, Node* n, u32 v) {
  Ivs d = domIv(s, v); std::vector<u64> pts; for (auto& I : d) { pts.push_back(I.first); pts.push_back(I.second); pts.push_back(I.first + (I.second - I.first) / 2); pts.push_back(I.first + (I.second - I.first) / 3); if (pts.size() > 40) break; }
  Model m(v + 1, 0); u64 off = 0; bool first = true; for (u64 p : pts) { m[v] = p; Evaluator e(m); u64 o = (e(n) - p) & maskw(n->w); if (first) { off = o; first = false; } else if (o != off) return n; }
  Node* cand = mkAdd(C.varNodes[v], mkC(off, n->w)); Node* ne = mkNot(mkEq(n, cand)); std::shared_ptr<Model> mm;
  if (d.size() > 2) { std::vector<Node*> cs = {mkInSet(C.varNodes[v], Ivs{{d.front().first, d.back().second}}), ne}; if (SOL->check(cs, &mm) == 0) return cand; } // first over the hull of the domain
  std::vector<Node*> cs; for (auto& e : s.doms) if (e.v == v) cs.push_back(e.n); cs.push_back(ne); if (SOL->check(cs, &mm) == 0) return cand; return n;
}
// a table of one variable outside of its domain is as it suits: fewer pieces, often constant ones
static Node* restrict2(State& s, Node* n);
static Node* restrictDom(State& s, Node* n) {
  if (n->k == K_L2) return restrict2(s, n);
  if (n->k != K_L1 || n->a->k != K_VAR || n->t1->p.size() < 3) return n; u32 v = n->a->aux; Node* dn = nullptr; Dom d; for (auto& e : s.doms) if (e.v == v) { dn = e.n; d = e.d; } if (!d) return n;
  static std::map<std::pair<Node*, Node*>, Node*> memo; auto key = std::make_pair(n, dn); auto it = memo.find(key); if (it != memo.end()) return it->second;
  std::vector<Piece> out; auto& P = n->t1->p; size_t pi = 0; u64 mx = maskw(n->a->w), m = maskw(n->w);
  for (auto& I : *d) { while (P[pi].hi < I.first) pi++; for (size_t k = pi; k < P.size() && P[k].lo <= I.second; k++) {
      Piece q = P[k]; q.lo = std::max(q.lo, I.first); q.hi = std::min(q.hi, I.second); if (q.lo == q.hi) { q.c = (q.coef * q.lo + q.c) & m; q.coef = 0; }
      if (!out.empty()) { Piece& o = out.back(); if (((o.coef * q.lo + o.c) & m) == ((q.coef * q.lo + q.c) & m) && (q.lo == q.hi || o.coef == q.coef)) { o.hi = q.hi; continue; } o.hi = q.lo - 1; }
      out.push_back(q); } }
  out.front().lo = 0; out.back().hi = mx; Node* r = apply1(internT1(n->a->w, n->w, out), n->a); memo[key] = r; return r;
}
// the same for a class table: only the classes that its operands can have
static Ivs rangeOf(State& s, Node* n) {
  if (n->k == K_VAR) return domIv(s, n->aux); std::vector<u64> v; if (n->k == K_L2) v = n->t2->cell; else if (n->k == K_L1 && n->t1->constOnly) for (auto& p : n->t1->p) v.push_back(p.c & maskw(n->w)); else return Ivs{{0, maskw(n->w)}};
  std::sort(v.begin(), v.end()); Ivs r; for (u64 x : v) { if (!r.empty() && x <= r.back().second) continue; if (!r.empty() && x == r.back().second + 1) r.back().second = x; else r.push_back({x, x}); } return r;
}
static Node* restrict2(State& s, Node* n) {
  if (n->t2->nx * n->t2->ny < 16) return n; Node *a = n->a, *b = n->b; if (a->k != K_VAR) a = restrictDom(s, a); if (b->k != K_VAR) b = restrictDom(s, b);
  if (a->isc() || b->isc()) return apply2(n->t2, a, b);
  static std::map<std::vector<Node*>, Table2*> memo; auto domN = [&](Node* v) -> Node* { if (v->k != K_VAR) return v; for (auto& e : s.doms) if (e.v == (u32)v->aux) return e.n; return nullptr; };
  std::vector<Node*> key = {n, domN(a), domN(b)}; auto it = memo.find(key); Table2* q;
  if (it != memo.end()) q = it->second;
  else {
    Table2 t; t.wa = n->t2->wa; t.wb = n->t2->wb; t.wout = n->t2->wout; std::vector<u32> cx, cy;
    auto dim = [](const std::vector<std::pair<u64,u32>>& st, const Ivs& d, u32 nc, std::vector<std::pair<u64,u32>>& out, std::vector<u32>& classes) { std::vector<u32> ren(nc, ~0u); size_t i = 0;
      for (auto& I : d) { while (i + 1 < st.size() && st[i + 1].first <= I.first) i++; for (size_t k = i; k < st.size() && st[k].first <= I.second; k++) { u32& c = ren[st[k].second]; if (c == ~0u) { c = classes.size(); classes.push_back(st[k].second); } if (out.empty()) out.push_back({0, c}); else if (out.back().second != c) out.push_back({std::max(st[k].first, I.first), c}); } } };
    dim(n->t2->xs, rangeOf(s, a), n->t2->nx, t.xs, cx); dim(n->t2->ys, rangeOf(s, b), n->t2->ny, t.ys, cy); t.nx = cx.size(); t.ny = cy.size(); t.cell.resize((size_t)t.nx * t.ny);
    for (u32 i = 0; i < t.nx; i++) for (u32 j = 0; j < t.ny; j++) t.cell[(size_t)i * t.ny + j] = n->t2->cell[(size_t)cx[i] * n->t2->ny + cy[j]];
    q = internT2(t); memo[key] = q;
  }
  return apply2(q, a, b);
}
static Node* recognize(State& s, Node* n) {
  n = restrictDom(s, under(s, n)); if (n->isc() || n->k == K_VAR || n->sup->size() != 1) return n; u32 v = (*n->sup)[0]; std::vector<Piece> P; if (C.vars[v].w != n->w || pwView(n, v, P)) return n;
  static std::map<std::pair<Node*, Node*>, Node*> memo; Node* d = nullptr; for (auto& e : s.doms) if (e.v == v) d = e.n; auto key = std::make_pair(n, d); auto it = memo.find(key); if (it != memo.end()) return it->second; Node* r = recognize0(s, n, v); memo[key] = r; return r;
}
static bool trySummary(State& s, DFunc* f, std::vector<Val>& args, DInst& I) {
  unsigned nint = 0; bool outPtr = false; u64 nout = 1; std::vector<unsigned> ws; Function* F = f->F;
  for (auto& A : F->args()) { if (A.getType()->isPointerTy()) { outPtr = true; break; } if (!A.getType()->isIntegerTy() || bitsOf(A.getType()) > 64) return false; nint++; ws.push_back(bitsOf(A.getType())); }
  if (outPtr) { if (F->arg_size() != nint + 2) return false; if (args[nint].n || args[nint + 1].n) return false; nout = args[nint + 1].c & 0xffffffff; } else if (!f->retw || f->retw > 64) return false;
  bool sym = false; for (unsigned i = 0; i < nint; i++) if (args[i].n) sym = true;
  auto key = std::make_pair(f, nout); if (!sym && sums.count(key) && !sums[key]->ok) return false;
  auto saveDom = curS; Summary* S = summarize(f, nint, ws, outPtr, nout); curS = saveDom; if (!S->ok) return false;
  std::vector<Node*> to; for (unsigned i = 0; i < nint; i++) to.push_back(s.raw ? N(args[i], ws[i]) : recognize(s, N(args[i], ws[i])));
  std::unordered_map<Node*, Node*> memo; for (auto& e : S->errs) { Node* c = mkNot(subst(e.first, S->vars, to, memo)); checkBool(s, c, e.second + " (in " + f->nice + ")"); }
  if (outPtr) { for (u64 k = 0; k < nout; k++) { Node* r = subst(S->outs[k], S->vars, to, memo); if (!s.raw) r = restrictDom(s, under(s, r)); storeMem(s, args[nint].c + 4 * k, Val(r, 0), 32); } if (I.dst >= 0) setR(s, I, Val(0)); }
  else { Node* r = subst(S->outs[0], S->vars, to, memo); if (!s.raw) r = restrictDom(s, under(s, r)); setR(s, I, Val(r, 0)); }
  return true;
}
