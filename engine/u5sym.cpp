#include <sys/resource.h>
#include <csignal>
// u5sym: symbolic execution of LLVM bitcode with z3.
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <set>
#include <deque>
#include <atomic>
#include <cmath>
using namespace llvm;

// ------------------------------------------------------------------ options, shared counters
static std::string outDir = "."; static double deadline = 1e18, tStart; static int maxWorkers = 8; static u64 maxSteps = 3000000; static int maxViol = 6; static u64 seed = 1;
static int sampleEvery = 8; static unsigned maxSamples = 120; static bool dbg = false; static u64 auditEvery = 0; static bool noMerge = false; static bool rawMode = false;
struct Shared { std::atomic<int> workers, viol, stop; std::atomic<u64> paths, samples; };
static Shared* SH;
static Solver* SOL;
struct Stats { u64 paths = 0, killed = 0, instrs = 0, branches = 0, forks = 0, asserts = 0, assertsTriv = 0, assertsQ = 0, incomplete = 0, merges = 0, audits = 0, summaries = 0, sumLeaves = 0, concretizations = 0, fastDecides = 0; std::map<std::string, u64> reach, incompleteWhy; std::set<std::string> funcs; std::map<std::string, u64> notes; } ST;

// ------------------------------------------------------------------ memory
struct SymB { Node* n; u32 i; };
struct Obj {
  int rc; u64 id; u32 size; char kind; /* g lobal, c onst, s tack, h eap, f unction */ bool ro; std::vector<uint8_t> b; std::vector<uint8_t> tag; /* empty = all concrete; 0 undef 1 conc 2 sym */ std::vector<SymB> s; const char* name;
};
struct ObjP { Obj* o; ObjP() : o(nullptr) {} ObjP(Obj* p) : o(p) { if (o) o->rc++; } ObjP(const ObjP& q) : o(q.o) { if (o) o->rc++; } ObjP(ObjP&& q) : o(q.o) { q.o = nullptr; }
  ObjP& operator=(ObjP q) { std::swap(o, q.o); return *this; } ~ObjP() { if (o && --o->rc == 0) delete o; } Obj* operator->() const { return o; } explicit operator bool() const { return o; } };
static const u64 BIAS = 0x80000000ull;
static inline u64 addrOf(u64 id) { return (id << 32) + BIAS; }

struct Agg; 
struct Val { u64 c; Node* n; std::shared_ptr<std::vector<Val>> a; Val() : c(0), n(nullptr) {} Val(u64 v) : c(v), n(nullptr) {} Val(Node* x, int) : c(0), n(x) { if (x->isc()) { c = x->cv; n = nullptr; } } };

// ------------------------------------------------------------------ decoded code
struct Opnd { int slot; Val v; };
struct DFunc; 
struct DInst { Instruction* I; unsigned op; int dst; unsigned w, w2; std::vector<Opnd> o; std::vector<std::pair<unsigned,u64>> gep; u64 goff; int t0, t1; DFunc* callee; int intr; std::vector<std::pair<u64,int>> cases; std::vector<unsigned> idx; unsigned pred; bool isF; u64 align; bool atomic = false, cleanup = false; std::vector<const char*> lp; };
struct DBlock { std::vector<DInst> in; std::vector<std::pair<int,std::vector<std::pair<int,Opnd>>>> phis; /* pred block -> (dst, opnd,width) */ };
typedef struct State State;
struct DFunc { Function* F; std::string name, nice; bool decoded = false; int nslots = 0; std::vector<DBlock> bl; u64 id; int retw = 0; bool merge = false, summ = false, join = false; DFunc* over = nullptr; bool (*native)(State&, DInst&, std::vector<Val>&) = nullptr; bool ignore = false; };

struct Frame { DFunc* f; int bb, ip; std::vector<Val> r; int dst; unsigned dstw; std::vector<u64> allocas; };
struct DomE { u32 v; Dom d; Node* n; };
struct State {
  std::vector<Frame> fr; std::vector<ObjP> rec; std::map<u64, ObjP> mod; u64 nextId; // rec[i] has id baseN+i
  std::vector<Node*> pc; std::vector<DomE> doms; std::shared_ptr<Model> model; std::vector<Node*> path; std::map<Node*, u64> conc;
  u64 steps = 0; u64 minW = ~0ull; int heapLive = 0; int inSumm = 0; std::vector<std::pair<const char*, Node*>> obs; u64 chain = 0; std::vector<const char*> tags; std::vector<u32> inputs; size_t noOverTill = 0; bool noOver = false, raw = false, apart = false; u64 mark = ~0ull; std::shared_ptr<State> saved, snap; std::set<u64> shared;
  std::vector<std::pair<u64, const char*>> exc; std::vector<u64> caught; u32 unw = 0; /* exceptions: objects and their types, being handled, unwindings so far */ bool failOn = false; int pend = -1; /* allocations may fail; decision for the next one */ u64 minP = ~0ull; int locks = 0; bool atom = false; /* oldest object written without any protection */
};
static std::vector<ObjP> base; static u64 baseN = 0;
static std::map<u64, DFunc*> fnById; static std::map<std::string, DFunc*> fnByName; static std::unordered_map<const Value*, u64> globalId;
static Module* M; static const DataLayout* DL;

[[noreturn]] static void fatal(const std::string& m) { fprintf(stderr, "u5sym: %s\n", m.c_str()); FILE* f = fopen((outDir + "/fatal." + std::to_string(getpid())).c_str(), "w"); if (f) { fprintf(f, "%s\n", m.c_str()); fclose(f); } _exit(9); }
struct Kill { std::string why; };        // path ends without an answer
struct Viol { std::string msg; };        // property violation on this path

static inline ObjP* find(State& s, u64 id) {
  if (id < baseN) { auto it = s.mod.find(id); if (it != s.mod.end()) return it->second ? &it->second : nullptr; return base[id] ? &base[id] : nullptr; }
  u64 k = id - baseN; if (k >= s.rec.size() || !s.rec[k]) return nullptr; return &s.rec[k];
}
static Obj* newObj(State& s, u32 size, char kind, const char* name, uint8_t fillTag = 0) {
  Obj* o = new Obj(); o->rc = 0; o->id = s.nextId++; o->size = size; o->kind = kind; o->ro = false; o->b.resize(size); o->name = name; if (fillTag == 0 && size) o->tag.assign(size, 0); s.rec.push_back(ObjP(o)); return o;
}
static std::string locOf(State& s) {
  std::string r; int k = 0;
  for (auto it = s.fr.rbegin(); it != s.fr.rend() && k < 8; ++it, ++k) { auto& d = it->f->bl[it->bb]; Instruction* I = it->ip < (int)d.in.size() ? d.in[it->ip].I : nullptr; r += (k ? " < " : "") + it->f->nice; if (I && I->getDebugLoc()) { auto* sc = cast<DIScope>(I->getDebugLoc().getScope()); std::string fn = sc->getFilename().str(); size_t p = fn.rfind('/'); r += "@" + fn.substr(p == std::string::npos ? 0 : p + 1) + ":" + std::to_string(I->getDebugLoc().getLine()); } }
  return r;
}
static Obj* access(State& s, u64 addr, u64 n, bool write) {
  u64 id = addr >> 32; s64 off = (s64)(addr & 0xffffffffull) - (s64)BIAS;
  ObjP* p = find(s, id);
  if (!p) { if (addr < 4096) throw Viol{"null pointer " + std::string(write ? "write" : "read")}; throw Viol{std::string(write ? "write" : "read") + " of memory that is not (any more) allocated"}; }
  Obj* o = p->o;
  if (off < 0 || (u64)off + n > o->size) throw Viol{std::string(write ? "write" : "read") + " out of bounds: offset " + std::to_string(off) + ", " + std::to_string(n) + " octets, of object '" + (o->name ? o->name : "?") + "' of " + std::to_string(o->size) + " octets"};
  if (write) {
    if (o->ro) throw Viol{"write to constant object '" + std::string(o->name ? o->name : "?") + "'"};
    if (id < s.minW) s.minW = id; if (id < s.minP && !s.atom && !s.locks && o->kind != 't') s.minP = id;
    if (id < baseN) { auto it = s.mod.find(id); if (it == s.mod.end()) { Obj* c = new Obj(*o); c->rc = 0; it = s.mod.emplace(id, ObjP(c)).first; } else if (it->second->rc > 1) { Obj* c = new Obj(*it->second.o); c->rc = 0; it->second = ObjP(c); } return it->second.o; }
    if (o->rc > 1) { Obj* c = new Obj(*o); c->rc = 0; s.rec[id - baseN] = ObjP(c); return c; }
  }
  return o;
}
static inline u32 offOf(u64 addr) { return (u32)((addr & 0xffffffffull) - BIAS); }
static Node* byteNode(const SymB& c) { return c.n->w == 8 ? c.n : mkExt(c.n, c.i * 8, 8); }
static u64 undefCount = 0;
static Node* freshUndef(unsigned w) { return mkVar("undef" + std::to_string(undefCount++), w, false); }
static Val loadMem(State& s, u64 addr, unsigned bits) {
  unsigned n = (bits + 7) / 8; Obj* o = access(s, addr, n, false); u32 f = offOf(addr);
  bool allc = true; if (!o->tag.empty()) for (unsigned i = 0; i < n; i++) if (o->tag[f + i] != 1) { allc = false; break; }
  if (allc) { u64 v = 0; memcpy(&v, &o->b[f], n); return Val(v & maskw(bits)); }
  for (unsigned i = 0; i < n; i++) if (o->tag[f + i] == 0) { // undefined octets become fresh unconstrained inputs
    Obj* p = o; if (o->rc > 1 || o->id < baseN) { bool ro = o->ro; o->ro = false; u64 mw = s.minW, mp = s.minP; p = access(s, addr, n, true); s.minW = mw; s.minP = mp; p->ro = ro; o->ro = ro; o = p; }
    if (p->s.empty()) p->s.resize(p->size); p->s[f + i] = {freshUndef(8), 0}; p->tag[f + i] = 2; }
  if (o->tag[f] == 2 && o->s[f].i == 0 && o->s[f].n->w == n * 8) { Node* q = o->s[f].n; bool same = true; for (unsigned i = 0; i < n; i++) if (o->tag[f + i] != 2 || o->s[f + i].n != q || o->s[f + i].i != i) { same = false; break; } if (same) return Val(bits == q->w ? q : mkExt(q, 0, bits), 0); }
  Node* r = nullptr; for (unsigned i = 0; i < n; i++) { Node* x = o->tag[f + i] == 2 ? byteNode(o->s[f + i]) : mkC(o->b[f + i], 8); r = r ? mkOp(K_CONCAT, r->w + 8, x, r) : x; }
  if (r->w != bits) r = mkExt(r, 0, bits); return Val(r, 0);
}
static void storeMem(State& s, u64 addr, const Val& v, unsigned bits) {
  unsigned n = (bits + 7) / 8; Obj* o = access(s, addr, n, true); u32 f = offOf(addr);
  if (!v.n) { u64 c = v.c & maskw(bits); memcpy(&o->b[f], &c, n); if (!o->tag.empty()) memset(&o->tag[f], 1, n); return; }
  Node* q = v.n; if (q->w < n * 8) q = mkZx(q, n * 8);
  if (o->tag.empty()) o->tag.assign(o->size, 1); if (o->s.empty()) o->s.resize(o->size);
  for (unsigned i = 0; i < n; i++) { o->tag[f + i] = 2; o->s[f + i] = {q, i}; }
}
static void copyMem(State& s, u64 d, u64 a, u64 n) {
  if (!n) return; Obj* src = access(s, a, n, false); u32 fs = offOf(a); ObjP hold(src);
  std::vector<uint8_t> b(src->b.begin() + fs, src->b.begin() + fs + n), t; std::vector<SymB> sy; if (!src->tag.empty()) t.assign(src->tag.begin() + fs, src->tag.begin() + fs + n); if (!src->s.empty()) sy.assign(src->s.begin() + fs, src->s.begin() + fs + n);
  hold = ObjP(); Obj* o = access(s, d, n, true); u32 f = offOf(d); memcpy(&o->b[f], b.data(), n);
  if (t.empty()) { if (!o->tag.empty()) memset(&o->tag[f], 1, n); }
  else { if (o->tag.empty()) o->tag.assign(o->size, 1); memcpy(&o->tag[f], t.data(), n); if (!sy.empty()) { if (o->s.empty()) o->s.resize(o->size); std::copy(sy.begin(), sy.end(), o->s.begin() + f); } }
}
static Node* N(const Val& v, unsigned w) { return v.n ? v.n : mkC(v.c, w); }

// ------------------------------------------------------------------ constraints
static State* curS = nullptr;
static Dom domGet(State& s, u32 v) { for (auto& e : s.doms) if (e.v == v) return e.d; return nullptr; }
static const std::function<const Ivs*(u32)> domFn = [](u32 v) -> const Ivs* { if (!curS) return nullptr; for (auto& e : curS->doms) if (e.v == v) return e.d.get(); return nullptr; };
static Ivs domIv(State& s, u32 v) { Dom d = domGet(s, v); if (d) return *d; return Ivs{{0, maskw(C.vars[v].w)}}; }
static void domSet(State& s, u32 v, Ivs iv) { auto d = std::make_shared<const Ivs>(std::move(iv)); Node* n = mkInSet(C.varNodes[v], *d); for (auto& e : s.doms) if (e.v == v) { e.d = d; e.n = n; return; } s.doms.push_back({v, d, n}); }
static u64 evalIn(State& s, Node* n) { static const Model empty; Evaluator e(s.model ? *s.model : empty); return e(n); }
static bool inResidual(State& s, u32 v) { for (Node* p : s.pc) if (std::binary_search(p->sup->begin(), p->sup->end(), v)) return true; return false; }
static bool isVarL1(Node* c) { return c->k == K_L1 && c->a->k == K_VAR && c->w == 1; }
static bool has(State& s, Node* c) { return std::find(s.pc.begin(), s.pc.end(), c) != s.pc.end(); }
// constraints relevant for the variables of c
static std::vector<Node*> slice(State& s, Node* c, bool all = false) {
  std::vector<u32> vs(c ? *c->sup : std::vector<u32>()); std::vector<char> used(s.pc.size(), 0); std::vector<Node*> r; bool ch = true;
  if (all) { r = s.pc; for (auto& e : s.doms) r.push_back(e.n); return r; }
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : *s.pc[i]->sup) if (std::find(vs.begin(), vs.end(), v) != vs.end()) { hit = true; break; }
      if (hit) { used[i] = 1; r.push_back(s.pc[i]); for (u32 v : *s.pc[i]->sup) if (std::find(vs.begin(), vs.end(), v) == vs.end()) { vs.push_back(v); ch = true; } } } }
  for (auto& e : s.doms) if (std::find(vs.begin(), vs.end(), e.v) != vs.end()) r.push_back(e.n);
  return r;
}
static void setModel(State& s, std::shared_ptr<Model> part, const std::vector<Node*>& cs) {
  auto m = std::make_shared<Model>(s.model ? *s.model : Model()); m->resize(C.vars.size(), 0);
  for (Node* c : cs) for (u32 v : *c->sup) (*m)[v] = v < part->size() ? (*part)[v] : 0; s.model = m;
}
static void addC(State& s, Node* c) {
  if (c->isc()) { if (!c->cv) throw Kill{"inconsistent"}; return; }
  if (c->k == K_AND && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
  if (c->k == K_XOR && c->w == 1 && c->b->isc() && c->a->k == K_OR) { addC(s, mkNot(c->a->a)); addC(s, mkNot(c->a->b)); return; }
  if (isVarL1(c)) { u32 v = c->a->aux; Ivs i = isect(domIv(s, v), trueSet(c->t1)); if (i.empty()) throw Kill{"inconsistent"}; domSet(s, v, i); return; }
  if (!has(s, c)) s.pc.push_back(c);
}
// term simplified with the domains of the current state
static Node* under(State& s, Node* n) {
  if (n->isc()) return n; auto it = s.conc.find(n); if (it != s.conc.end()) return mkC(it->second, n->w);
  if (n->k == K_VAR) { Dom d = domGet(s, n->aux); if (d && d->size() == 1 && (*d)[0].first == (*d)[0].second) return mkC((*d)[0].first, n->w); return n; }
  if (n->sup->size() == 1) { u32 v = (*n->sup)[0]; Dom d = domGet(s, v); if (d) { if (d->size() == 1 && (*d)[0].first == (*d)[0].second) { Model m(v + 1, 0); m[v] = (*d)[0].first; Evaluator e(m); return mkC(e(n), n->w); }
      if (n->k == K_L1 && n->a->k == K_VAR) { bool first = true; u64 val = 0, co = 0; size_t pi = 0; auto& P = n->t1->p; for (auto& I : *d) { while (P[pi].hi < I.first) pi++; for (size_t k = pi; k < P.size() && P[k].lo <= I.second; k++) {
              u64 pc_ = P[k].c, pco = P[k].coef; if (pco && I.first == I.second) { pc_ = (pco * I.first + pc_) & maskw(n->w); pco = 0; }
              if (first) { val = pc_; co = pco; first = false; } else if (val != pc_ || co != pco) goto no1; } } if (!co) return mkC(val, n->w);
          if (co == 1 && n->w == C.vars[v].w) return mkAdd(C.varNodes[v], mkC(val, n->w)); no1:; } } return n; }
  if (n->k == K_L2 && n->a->k == K_VAR && n->b->k == K_VAR) { Dom da = domGet(s, n->a->aux), db = domGet(s, n->b->aux); if (!da && !db) return n;
    auto classes = [](const std::vector<std::pair<u64,u32>>& st, const Ivs& d, u32 n) { std::vector<char> m(n, 0); std::vector<u32> r; size_t i = 0; for (auto& I : d) { while (i + 1 < st.size() && st[i + 1].first <= I.first) i++; for (size_t k = i; k < st.size() && st[k].first <= I.second; k++) if (!m[st[k].second]) { m[st[k].second] = 1; r.push_back(st[k].second); } } return r; };
    Ivs fa = domIv(s, n->a->aux), fb = domIv(s, n->b->aux); auto ca = classes(n->t2->xs, fa, n->t2->nx), cb = classes(n->t2->ys, fb, n->t2->ny);
    u64 v0 = n->t2->cell[(size_t)ca[0] * n->t2->ny + cb[0]]; bool same = true; for (u32 i : ca) { for (u32 j : cb) if (n->t2->cell[(size_t)i * n->t2->ny + j] != v0) { same = false; break; } if (!same) break; } if (same) return mkC(v0, n->w);
    // only one class on one side: depends on the other variable only
    if (ca.size() == 1 || cb.size() == 1) return apply2(n->t2, ca.size() == 1 ? mkC([&] { for (auto& e : n->t2->xs) if (e.second == ca[0]) return e.first; return (u64)0; }(), n->t2->wa) : n->a, cb.size() == 1 ? mkC([&] { for (auto& e : n->t2->ys) if (e.second == cb[0]) return e.first; return (u64)0; }(), n->t2->wb) : n->b);
    return n; }
  if (n->w == 1 && n->k == K_XOR && n->b->isc()) { Node* a = under(s, n->a); return a == n->a ? n : mkNot(a); }
  if (n->w == 1 && (n->k == K_AND || n->k == K_OR)) { Node *a = under(s, n->a), *b = under(s, n->b); return a == n->a && b == n->b ? n : mkOp(n->k, 1, a, b); }
  return n;
}
struct Dec { bool t, f; std::shared_ptr<Model> mt, mf; };  // feasibility, models (null = keep the state's model)
static Dec decide(State& s, Node* c, bool force = false) {
  ST.branches++; if (c->isc()) return {c->cv != 0, c->cv == 0, nullptr, nullptr};
  Node* u = under(s, c); if (u->isc() && !force) { ST.fastDecides++; return {u->cv != 0, u->cv == 0, nullptr, nullptr}; } if (!force) c = u;
  if (!force) { if (has(s, c)) return {true, false, nullptr, nullptr}; if (has(s, mkNot(c))) return {false, true, nullptr, nullptr}; }
  bool v = evalIn(s, c) & 1;
  if (!force && isVarL1(c)) { u32 x = c->a->aux; Ivs d = domIv(s, x), ts = isect(d, trueSet(c->t1)), fs; if (ts.empty()) return {false, true, nullptr, nullptr}; fs = isect(d, compl_(trueSet(c->t1), maskw(c->a->w))); if (fs.empty()) return {true, false, nullptr, nullptr};
    if (!inResidual(s, x)) { ST.fastDecides++; auto m = std::make_shared<Model>(s.model ? *s.model : Model()); m->resize(C.vars.size(), 0); (*m)[x] = v ? fs[0].first : ts[0].first; Dec r{true, true, nullptr, nullptr}; (v ? r.mf : r.mt) = m; return r; } }
  Node* other = v ? mkNot(c) : c; std::vector<Node*> cs = slice(s, c); cs.push_back(other); std::shared_ptr<Model> m; int r = SOL->check(cs, &m);
  if (r < 0) throw Kill{"solver gave up"};
  if (r == 0) return {v, !v, nullptr, nullptr};
  State tmp; tmp.model = s.model; setModel(tmp, m, cs); Dec d{true, true, nullptr, nullptr}; (v ? d.mf : d.mt) = tmp.model; return d;
}

// ------------------------------------------------------------------ work lists
static std::vector<State*>* curList = nullptr;   // list that forked states go to
static State* cloneS(State& s) { ST.forks++; return new State(s); }

static Node* splitL2(State& s, Node* c);
struct Restart {};
// make a term concrete: other values are explored by re-executing the instruction
static u64 concretize(State& s, const Val& v, unsigned w) {
  if (!v.n) return v.c; Node* n = under(s, v.n); if (n->isc()) return n->cv;
  auto it = s.conc.find(n); if (it != s.conc.end()) return it->second;
  u64 x = evalIn(s, n); Node* c = splitL2(s, mkEq(n, mkC(x, n->w))); ST.concretizations++; if (c->isc()) { s.conc[n] = x; s.conc[v.n] = x; return x; }
  Dec d = decide(s, c);
  if (d.f && d.t) { if (++s.chain > 6000) throw Kill{"too many values for a symbolic size or address"};
    State* o = cloneS(s); curS = o; try { addC(*o, mkNot(c)); if (d.mf) o->model = d.mf; o->path.push_back(mkNot(c)); curList->push_back(o); } catch (Kill& k) { delete o; } curS = &s; addC(s, c); if (d.mt) s.model = d.mt; s.path.push_back(c); }
  s.conc[n] = x; s.conc[v.n] = x; return x;
}

// ------------------------------------------------------------------ decoding
static unsigned bitsOf(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isVoidTy()) return 0; return 0xffff; }
static Val constVal(Constant* c);
static u64 constInt(Constant* c) { Val v = constVal(c); if (v.n) fatal("symbolic constant"); return v.c; }
static DFunc* dfunc(Function* F);
static Val constVal(Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() <= 64) return Val(ci->getValue().getZExtValue()); throw Kill{"wide constant"}; } return Val(ci->getZExtValue()); }
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (auto* f = dyn_cast<ConstantFP>(c)) return Val(f->getValueAPF().bitcastToAPInt().getZExtValue());
  if (auto* f = dyn_cast<Function>(c)) return Val(addrOf(dfunc(f)->id));
  if (auto* g = dyn_cast<GlobalAlias>(c)) return constVal(g->getAliasee());
  if (isa<GlobalVariable>(c)) { auto it = globalId.find(c); if (it == globalId.end()) throw Kill{"unknown global"}; return Val(addrOf(it->second)); }
  if (isa<UndefValue>(c)) { Type* t = c->getType(); if (t->isAggregateType()) { Val v; v.a = std::make_shared<std::vector<Val>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.a->push_back(constVal(UndefValue::get(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()))); return v; } return Val(0); }
  if (c->getType()->isAggregateType()) { Val v; v.a = std::make_shared<std::vector<Val>>(); unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.a->push_back(constVal(c->getAggregateElement(i))); return v; }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off); return Val(constInt(e->getOperand(0)) + off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: return Val(constInt(e->getOperand(0)) & maskw(bitsOf(e->getType())));
      case Instruction::Sub: return Val((constInt(e->getOperand(0)) - constInt(e->getOperand(1))) & maskw(bitsOf(e->getType())));
      case Instruction::Add: return Val((constInt(e->getOperand(0)) + constInt(e->getOperand(1))) & maskw(bitsOf(e->getType())));
      case Instruction::Trunc: return Val(constInt(e->getOperand(0)) & maskw(bitsOf(e->getType())));
      case Instruction::ICmp: { u64 a = constInt(e->getOperand(0)), b = constInt(e->getOperand(1)); switch (e->getPredicate()) { case CmpInst::ICMP_EQ: return Val(a == b); case CmpInst::ICMP_NE: return Val(a != b); case CmpInst::ICMP_ULT: return Val(a < b); default: break; } }
    }
  }
  std::string t; raw_string_ostream os(t); c->print(os); throw Kill{"constant not supported: " + os.str()};
}
static const char* internS(const std::string& s);
static std::map<Function*, DFunc*> dfs;
static DFunc* dfunc(Function* F) { auto it = dfs.find(F); if (it != dfs.end()) return it->second; fatal("function without entry: " + F->getName().str()); }
static void writeInit(Obj* o, u64 off, Constant* c) {
  Type* t = c->getType(); u64 sz = DL->getTypeAllocSize(t);
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* a = dyn_cast<ConstantDataSequential>(c)) { StringRef r = a->getRawDataValues(); memcpy(&o->b[off], r.data(), r.size()); return; }
  if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) writeInit(o, off + L->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) writeInit(o, off + i * es, c->getAggregateElement(i)); return; }
  u64 v = constInt(c); memcpy(&o->b[off], &v, std::min<u64>(8, sz));
}
static void decode(DFunc* d) {
  if (d->decoded) return; d->decoded = true; Function* F = d->F; std::map<Value*, int> slot; std::map<BasicBlock*, int> bi;
  for (auto& A : F->args()) slot[&A] = d->nslots++;
  int nb = 0; for (auto& B : *F) { bi[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = d->nslots++; }
  auto op = [&](Value* v) { Opnd o; o.slot = -1; auto it = slot.find(v); if (it != slot.end()) o.slot = it->second; else if (auto* c = dyn_cast<Constant>(v)) { if (isa<UndefValue>(c) && !c->getType()->isAggregateType()) o.slot = -2 - (int)bitsOf(c->getType()); else o.v = constVal(c); } else o.slot = -100000; return o; };
  d->bl.resize(nb);
  for (auto& B : *F) { DBlock& b = d->bl[bi[&B]];
    std::map<BasicBlock*, size_t> pi;
    for (auto& I : B) {
      if (auto* p = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { BasicBlock* pb = p->getIncomingBlock(i); if (!pi.count(pb)) { pi[pb] = b.phis.size(); b.phis.push_back({bi[pb], {}}); } auto& L = b.phis[pi[pb]].second; bool dup = false; for (auto& e : L) if (e.first == slot[&I]) dup = true; if (!dup) L.push_back({slot[&I], op(p->getIncomingValue(i))}); } continue; }
      DInst x; x.I = &I; x.op = I.getOpcode(); x.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; x.w = bitsOf(I.getType()); x.w2 = I.getNumOperands() ? bitsOf(I.getOperand(0)->getType()) : 0; x.goff = 0; x.t0 = x.t1 = -1; x.callee = nullptr; x.intr = 0; x.pred = 0; x.isF = I.getType()->isFloatingPointTy() || (I.getNumOperands() && I.getOperand(0)->getType()->isFloatingPointTy()); x.align = 0;
      try {
      switch (I.getOpcode()) {
        case Instruction::Br: { auto* br = cast<BranchInst>(&I); x.t0 = bi[br->getSuccessor(0)]; if (br->isConditional()) { x.t1 = bi[br->getSuccessor(1)]; x.o.push_back(op(br->getCondition())); } } break;
        case Instruction::Switch: { auto* sw = cast<SwitchInst>(&I); x.o.push_back(op(sw->getCondition())); x.t0 = bi[sw->getDefaultDest()]; for (auto& c : sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bi[c.getCaseSuccessor()]}); } break;
        case Instruction::GetElementPtr: { auto* g = cast<GetElementPtrInst>(&I); x.o.push_back(op(g->getPointerOperand())); u64 off = 0;
            for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) { Value* ix = it.getOperand(); if (auto* st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { u64 sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sc; else { x.gep.push_back({bitsOf(ix->getType()), sc}); x.o.push_back(op(ix)); } } } x.goff = off; } break;
        case Instruction::Call: case Instruction::Invoke: { auto* cb = cast<CallBase>(&I); for (auto& a : cb->args()) { if (isa<MetadataAsValue>(a)) { Opnd o; o.slot = -100000; x.o.push_back(o); } else x.o.push_back(op(a)); }
            if (auto* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases())) { if (f->isIntrinsic()) x.intr = f->getIntrinsicID(); x.callee = dfunc(f); } else x.o.push_back(op(cb->getCalledOperand()));
            if (auto* iv = dyn_cast<InvokeInst>(&I)) { x.t0 = bi[iv->getNormalDest()]; x.t1 = bi[iv->getUnwindDest()]; } } break;
        case Instruction::LandingPad: { auto* lp = cast<LandingPadInst>(&I); x.cleanup = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isFilter(i)) throw Kill{"exception specification"}; Value* t = lp->getClause(i)->stripPointerCasts(); x.lp.push_back(isa<GlobalValue>(t) ? internS(t->getName().str()) : ""); } } break;
        case Instruction::Alloca: { auto* al = cast<AllocaInst>(&I); x.goff = DL->getTypeAllocSize(al->getAllocatedType()); x.o.push_back(op(al->getArraySize())); x.w2 = bitsOf(al->getArraySize()->getType()); } break;
        case Instruction::ExtractValue: x.o.push_back(op(I.getOperand(0))); for (unsigned i : cast<ExtractValueInst>(&I)->indices()) x.idx.push_back(i); break;
        case Instruction::InsertValue: x.o.push_back(op(I.getOperand(0))); x.o.push_back(op(I.getOperand(1))); for (unsigned i : cast<InsertValueInst>(&I)->indices()) x.idx.push_back(i); break;
        case Instruction::Store: x.atomic = cast<StoreInst>(&I)->isAtomic(); x.w2 = bitsOf(I.getOperand(0)->getType()); x.o.push_back(op(I.getOperand(0))); x.o.push_back(op(I.getOperand(1))); break;
        default: if (auto* c = dyn_cast<CmpInst>(&I)) x.pred = c->getPredicate(); for (auto& o : I.operands()) { if (isa<BasicBlock>(o)) continue; x.o.push_back(op(o)); }
      }
      } catch (Kill& k) { x.op = 9999; x.o.clear(); }
      b.in.push_back(x);
    } }
}

#include "exec.inc"
#include "native.inc"
