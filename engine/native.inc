// ------------------------------------------------------------------ harness interface and library functions
#define NAT(name) static bool name(State& s, DInst& I, std::vector<Val>& a)
static std::map<std::string, Node*> inputVars;
NAT(n_input) { std::string nm = cstr(s, concretize(s, a[0], 64)); unsigned bits = concretize(s, a[1], 32); std::string key = nm + "/" + std::to_string(bits) + "/" + std::to_string(s.inputs.size()); auto it = inputVars.find(key); if (it == inputVars.end()) it = inputVars.emplace(key, mkVar(nm, bits, true, s.inputs.size())).first;
  s.inputs.push_back(it->second->aux); setR(s, I, Val(mkZx(it->second, 64), 0)); return true; }
NAT(n_assume) { Val c = a[0]; Node* q = under(s, mkNot(mkEq(N(c, 32), mkC(0, 32)))); if (q->isc()) { if (!q->cv) throw Kill{"assume"}; return true; } Dec d = decide(s, q); if (!d.t) throw Kill{"assume"}; if (d.f) { addC(s, q); if (d.mt) s.model = d.mt; } return true; }
NAT(n_assert) { Node* q = mkNot(mkEq(N(a[0], 32), mkC(0, 32))); checkBool(s, q, cstr(s, concretize(s, a[1], 64))); return true; }
// equality whose decision is left to the solver: nothing is rewritten
NAT(n_asserteq) { Node *x = N(a[0], 32), *y = N(a[1], 32); ST.asserts++; std::string msg = cstr(s, concretize(s, a[2], 64)); if (x->isc() && y->isc()) { ST.assertsTriv++; if (x->cv != y->cv) throw Viol{msg}; return true; }
  ST.assertsQ++; Node* e = intern(raw(K_EQ, 1, x, y)); Node* ne = intern(raw(K_XOR, 1, e, mkC(1, 1))); std::vector<Node*> cs = slice(s, ne); cs.push_back(ne); std::shared_ptr<Model> m; int r = SOL->check(cs, &m); if (r < 0) throw Kill{"solver gave up on an assertion"};
  if (r == 1) { State t; t.model = s.model; setModel(t, m, cs); emitViolation(s, msg, t.model); throw Kill{""}; } return true; }
NAT(n_raw) { s.raw = concretize(s, a[0], 32); return true; }
NAT(n_reach) { s.tags.push_back(internS(cstr(s, concretize(s, a[0], 64)))); return true; }
NAT(n_observe) { s.obs.push_back({internS(cstr(s, concretize(s, a[0], 64))), N(a[1], 64)}); return true; }
NAT(n_conc) { setR(s, I, Val(concretize(s, a[0], 64))); return true; }
NAT(n_engine) { setR(s, I, Val(1)); return true; }
NAT(n_path) { throw Kill{"assume"}; }
NAT(n_memeq) { u64 p = concretize(s, a[0], 64), q = concretize(s, a[1], 64), n = concretize(s, a[2], 64); Node* r = mkC(1, 1); u64 i = 0;
  while (i < n) { unsigned k = 1; if (i + 4 <= n) { Val x = loadMem(s, p + i, 32), y = loadMem(s, q + i, 32); bool one = C.uni(N(x, 32)->sup, N(y, 32)->sup)->size() < 2; if (one ? !x.n || x.n->k != K_CONCAT || !y.n || y.n->k != K_CONCAT : N(x, 32) == N(y, 32)) { k = 4; r = mkAnd(r, mkEq(N(x, 32), N(y, 32))); } } if (k == 1) { Val x = loadMem(s, p + i, 8), y = loadMem(s, q + i, 8); r = mkAnd(r, mkEq(N(x, 8), N(y, 8))); } i += k; if (r->isc() && !r->cv) break; }
  setR(s, I, Val(mkZx(r, 32), 0)); return true; }
NAT(n_dirty) { setR(s, I, Val(s.minW < s.mark ? 1 : 0)); return true; }       // has memory that existed at the last sym_mark been written?
NAT(n_mark) { s.mark = s.nextId; s.minW = s.minP = ~0ull; return true; }
// what runs between fresh_begin and fresh_end sees the memory of the last sym_fresh_init and leaves no trace but in shared memory
static void memFrom(State& s, State& q) { u64 n = q.nextId; std::map<u64, ObjP> keep; for (u64 id : s.shared) if (id < n && id >= baseN && s.rec[id - baseN]) keep[id] = s.rec[id - baseN];
  for (u64 k = 0; k < n - baseN; k++) s.rec[k] = k < q.rec.size() ? q.rec[k] : ObjP(); s.mod = q.mod; for (auto& e : keep) s.rec[e.first - baseN] = e.second; }
NAT(n_freshi) { s.snap = nullptr; s.saved = nullptr; auto q = std::make_shared<State>(s); q->fr.clear(); s.snap = q; return true; }
NAT(n_freshb) { auto q = std::make_shared<State>(s); q->fr.clear(); q->snap = q->saved = nullptr; s.saved = q; memFrom(s, *s.snap); return true; }
NAT(n_freshe) { auto q = s.saved; s.saved = nullptr; memFrom(s, *q); s.minW = q->minW; s.heapLive = q->heapLive; return true; }
NAT(n_shared) { u64 n = concretize(s, a[0], 64); Obj* o = newObj(s, n, 'h', "shared", 1); s.shared.insert(o->id); setR(s, I, Val(addrOf(o->id))); return true; }
NAT(n_writable) { u64 p = concretize(s, a[0], 64); ObjP* o = p ? find(s, p >> 32) : nullptr; setR(s, I, Val(o && !(*o)->ro ? 1 : 0)); return true; }
NAT(n_nosumm) { u64 on = concretize(s, a[0], 32); s.inSumm = on ? 1 : 0; s.noOver = s.inSumm; s.apart = on == 2; return true; }
// an allocation that fails, if it may: an input of its own decides
static bool fails(State& s) {
  if (!s.failOn) return false;
  if (s.pend < 0) { std::string key = "allocation fails/1/" + std::to_string(s.inputs.size()); auto it = inputVars.find(key); if (it == inputVars.end()) it = inputVars.emplace(key, mkVar("allocation fails", 1, true, s.inputs.size())).first; Node* v = it->second; s.inputs.push_back(v->aux);
    State* o = cloneS(s); o->pend = 1; domSet(*o, v->aux, Ivs{{1, 1}}); auto m = std::make_shared<Model>(o->model ? *o->model : Model()); m->resize(C.vars.size(), 0); (*m)[v->aux] = 1; o->model = m; o->path.push_back(mkEq(v, mkC(1, 1))); curList->push_back(o);
    domSet(s, v->aux, Ivs{{0, 0}}); m = std::make_shared<Model>(s.model ? *s.model : Model()); m->resize(C.vars.size(), 0); (*m)[v->aux] = 0; s.model = m; s.path.push_back(mkEq(v, mkC(0, 1))); s.pend = 0; }
  bool r = s.pend; s.pend = -1; return r;
}
NAT(n_new) { u64 n = concretize(s, a[0], 64); if (n > (1ull << 26)) throw Viol{"allocation of " + std::to_string(n) + " octets"}; if (fails(s)) { if (I.callee->name.rfind("_Zn", 0) == 0 && I.callee->name.find("nothrow") == std::string::npos) { throwNew(s, "_ZTISt9bad_alloc"); return false; } setR(s, I, Val(0)); return true; } Obj* o = newObj(s, n, 'h', "heap"); s.heapLive++; setR(s, I, Val(addrOf(o->id))); return true; }
NAT(n_scratch) { Obj* o = newObj(s, concretize(s, a[0], 64), 'h', "scratch"); setR(s, I, Val(addrOf(o->id))); return true; }
NAT(n_fail) { s.failOn = concretize(s, a[0], 32); return true; }
NAT(n_live) { setR(s, I, Val((u64)(u32)s.heapLive)); return true; }
NAT(n_plain) { setR(s, I, Val(s.minP < s.mark ? 1 : 0)); return true; }
NAT(n_lock) { s.locks++; if (I.dst >= 0) setR(s, I, Val(0)); return true; }
NAT(n_unlock) { if (s.locks) s.locks--; if (I.dst >= 0) setR(s, I, Val(0)); return true; }
NAT(n_calloc) { u64 n = concretize(s, a[0], 64) * concretize(s, a[1], 64); if (n > (1ull << 26)) throw Viol{"allocation of " + std::to_string(n) + " octets"}; if (fails(s)) { setR(s, I, Val(0)); return true; } Obj* o = newObj(s, n, 'h', "heap", 1); s.heapLive++; setR(s, I, Val(addrOf(o->id))); return true; }
NAT(n_free) { u64 p = concretize(s, a[0], 64); if (!p) return true; u64 id = p >> 32; ObjP* o = find(s, id); if (!o || (*o)->kind != 'h' || offOf(p)) throw Viol{"free of something that is not allocated"}; if (id < s.minW) s.minW = id; if (id < s.minP && !s.locks) s.minP = id; s.heapLive--; if (id < baseN) s.mod[id] = ObjP(); else s.rec[id - baseN] = ObjP(); return true; }
NAT(n_realloc) { u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); if (fails(s)) { setR(s, I, Val(0)); return true; } Obj* o = newObj(s, n, 'h', "heap"); s.heapLive++; u64 na = addrOf(o->id); if (p) { ObjP* q = find(s, p >> 32); if (!q) throw Viol{"realloc of something that is not allocated"}; copyMem(s, na, p, std::min<u64>(n, (*q)->size)); std::vector<Val> b{Val(p)}; n_free(s, I, b); } setR(s, I, Val(na)); return true; }
NAT(n_memcpy) { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), f = concretize(s, a[1], 64); copyMem(s, d, f, n); if (I.dst >= 0) setR(s, I, Val(d)); return true; }
NAT(n_memset) { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64); Val v = a[1]; if (v.n) v = Val(mkExt(v.n, 0, 8), 0); for (u64 i = 0; i < n; i++) storeMem(s, d + i, v, 8); if (I.dst >= 0) setR(s, I, Val(d)); return true; }
NAT(n_memcmp) { u64 n = concretize(s, a[2], 64), p = concretize(s, a[0], 64), q = concretize(s, a[1], 64); Node* r = mkC(0, 32); std::vector<Node*> x, y; for (u64 i = 0; i < n; i++) { x.push_back(N(loadMem(s, p + i, 8), 8)); y.push_back(N(loadMem(s, q + i, 8), 8)); } for (u64 i = n; i-- > 0;) r = mkIte(mkEq(x[i], y[i]), r, mkSub(mkZx(x[i], 32), mkZx(y[i], 32))); setR(s, I, Val(r, 0)); return true; }
NAT(n_guard) { u64 p = concretize(s, a[0], 64); Val v = loadMem(s, p, 8); if (!v.c) s.locks++; setR(s, I, Val(v.c ? 0 : 1)); return true; }
NAT(n_guardrel) { u64 p = concretize(s, a[0], 64); storeMem(s, p, Val(1), 8); if (s.locks) s.locks--; return true; }
NAT(n_throw) { throw Viol{"exception or abnormal end: " + I.callee->nice}; }
NAT(n_cxathrow) { u64 p = concretize(s, a[0], 64), t = concretize(s, a[1], 64); const char* name = nullptr; for (auto& e : globalId) if (e.second == t >> 32) name = internS(e.first->getName().str()); if (!name) throw Kill{"exception of unknown type"}; s.exc.push_back({p, name}); unwind(s, p, name); return false; }
NAT(n_cxaalloc) { Obj* o = newObj(s, concretize(s, a[0], 64), 'e', "exception"); setR(s, I, Val(addrOf(o->id))); return true; }
NAT(n_cxafree) { return true; }
NAT(n_begin) { u64 p = concretize(s, a[0], 64); s.caught.push_back(p); if (I.dst >= 0) setR(s, I, Val(p)); return true; }
NAT(n_end) { if (!s.caught.empty()) s.caught.pop_back(); return true; }
NAT(n_rethrow) { if (s.caught.empty()) throw Viol{"rethrow without exception"}; u64 p = s.caught.back(); unwind(s, p, typeOf(s, p)); return false; }
NAT(n_libthrow) { std::string n = I.callee->name; const char* t = "_ZTISt9exception"; static const std::map<std::string, const char*> k = {{"length_error", "_ZTISt12length_error"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"out_of_range", "_ZTISt12out_of_range"}, {"logic_error", "_ZTISt11logic_error"}, {"invalid_argument", "_ZTISt16invalid_argument"}, {"runtime_error", "_ZTISt13runtime_error"}, {"range_error", "_ZTISt11range_error"}, {"bad_function_call", "_ZTISt17bad_function_call"}}; size_t best = 0; for (auto& e : k) if (n.find("__throw_" + e.first) != std::string::npos && e.first.size() > best) { best = e.first.size(); t = e.second; } throwNew(s, t); return false; }
NAT(n_dead) { throw Kill{"assume"}; }
static const std::map<std::string, bool (*)(State&, DInst&, std::vector<Val>&)> natives = {
  {"sym_input", n_input}, {"sym_assume", n_assume}, {"sym_assert", n_assert}, {"sym_assert_eq", n_asserteq}, {"sym_raw", n_raw}, {"sym_reach", n_reach}, {"sym_observe", n_observe}, {"sym_conc", n_conc}, {"sym_engine", n_engine}, {"sym_memeq", n_memeq}, {"sym_end", n_path}, {"sym_dirty", n_dirty}, {"sym_fresh_init", n_freshi}, {"sym_fresh_begin", n_freshb}, {"sym_fresh_end", n_freshe}, {"sym_shared", n_shared}, {"sym_writable", n_writable}, {"sym_mark", n_mark}, {"sym_direct", n_nosumm},
  {"_Znwm", n_new}, {"_Znam", n_new}, {"_ZnwmRKSt9nothrow_t", n_new}, {"_ZnamRKSt9nothrow_t", n_new}, {"malloc", n_new}, {"calloc", n_calloc}, {"realloc", n_realloc}, {"free", n_free},
  {"_ZdlPv", n_free}, {"_ZdaPv", n_free}, {"_ZdlPvm", n_free}, {"_ZdaPvm", n_free}, {"_ZdlPvRKSt9nothrow_t", n_free}, {"_ZdaPvRKSt9nothrow_t", n_free},
  {"memcpy", n_memcpy}, {"memmove", n_memcpy}, {"memset", n_memset}, {"memcmp", n_memcmp}, {"bcmp", n_memcmp},
  {"__cxa_guard_acquire", n_guard}, {"__cxa_guard_release", n_guardrel}, {"__cxa_guard_abort", n_unlock}, {"__cxa_throw", n_cxathrow}, {"__cxa_rethrow", n_rethrow}, {"__cxa_allocate_exception", n_cxaalloc}, {"__cxa_free_exception", n_cxafree}, {"__cxa_begin_catch", n_begin}, {"__cxa_end_catch", n_end}, {"sym_scratch", n_scratch}, {"sym_fail", n_fail}, {"sym_live", n_live}, {"sym_plain", n_plain}, {"pthread_mutex_lock", n_lock}, {"pthread_mutex_unlock", n_unlock}, {"pthread_rwlock_wrlock", n_lock}, {"pthread_rwlock_rdlock", n_lock}, {"pthread_rwlock_unlock", n_unlock}, {"abort", n_throw}, {"exit", n_throw}, {"_Exit", n_throw}, {"_exit", n_throw}, {"__assert_fail", n_throw}, {"_ZSt9terminatev", n_throw}, {"__clang_call_terminate", n_throw}, {"__cxa_pure_virtual", n_throw}, {"__cxa_bad_cast", n_throw} };
static const std::set<std::string> ignored = {"__cxa_atexit", "printf", "puts", "putchar", "fprintf", "fputs", "fwrite", "fflush", "sym_label", "__cxa_thread_atexit"};

// ------------------------------------------------------------------ main
static std::vector<pid_t> kids; static pid_t rootPid = 0; static double lastSplit = 0;
static void worker(std::vector<State*>& list, bool root) {
  curList = &list;
  while (!list.empty()) {
    if (SH->stop) { for (auto* s : list) { (void)s; ST.incomplete++; ST.incompleteWhy["stopped"]++; } break; }
    if (nowS() > deadline) { for (auto* s : list) { (void)s; ST.incomplete++; ST.incompleteWhy["time limit"]++; } break; }
    if (list.size() > 1 && nowS() - lastSplit > 0.01 && SH->workers.load() < maxWorkers) {
      if (SH->workers.fetch_add(1) < maxWorkers) {
        lastSplit = nowS(); fflush(nullptr); pid_t p = fork();
        if (p == 0) { startTimer(); std::vector<State*> keep; for (size_t i = 0; i < list.size(); i += 2) keep.push_back(list[i]); list.swap(keep); ST = Stats(); C.folds = 0; SOL->queries = SOL->hits = SOL->nsat = SOL->nunsat = SOL->nunk = 0; SOL->time = SOL->maxq = 0; kids.clear(); violLocal = 0; lastSplit = nowS(); if (SOL->dump) SOL->dump = nullptr; worker(list, false); }
        else if (p > 0) { kids.push_back(p); std::vector<State*> keep; for (size_t i = 0; i < list.size(); i++) { if (i & 1) keep.push_back(list[i]); else delete list[i]; } list.swap(keep); }
        else SH->workers.fetch_sub(1);
      } else SH->workers.fetch_sub(1);
    }
    State* s = list.back(); list.pop_back(); bool l = false;
    if (runOne(s, 1, l)) { curS = s; finishPath(*s); }
    delete s;
  }
  writeStats();
  SH->workers.fetch_sub(1); int bad = 0; for (pid_t p : kids) { int st = 0; waitpid(p, &st, 0); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { FILE* f = fopen((outDir + "/killed." + std::to_string(p)).c_str(), "w"); if (f) fclose(f); } else if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad = 1; fprintf(stderr, "worker ended abnormally (%d)\n", st); } }
  if (bad) { FILE* f = fopen((outDir + "/fatal.child").c_str(), "w"); if (f) { fputs("a worker ended abnormally\n", f); fclose(f); } }
  if (!root) _exit(bad ? 9 : 0);
}

static void auditFold(Kind k, Node* a, Node* b, Node* c, Node* r) {
  static u64 n = 0; if (k == K_UDIV || k == K_UREM || k == K_SDIV || k == K_SREM) return; if (++n % auditEvery) return; if (r->sup->size() == 0) {}
  Node t = raw(k, r->w, a, b, c, 0); if (k == K_EXTRACT) return; Node* plain = intern(t); Node d = raw(K_EQ, 1, plain, r); Node* e = intern(d); Node nx = raw(K_XOR, 1, e, mkC(1, 1)); Node* ne = intern(nx);
  std::shared_ptr<Model> m; int q = SOL->check({ne}, &m); ST.audits++; if (q == 1) fatal("table rewriting is wrong: " + show(plain, 4) + " vs " + show(r, 4));
}

int main(int argc, char** argv) {
  std::string file, entry = "harness"; double limit = 600; std::string dumpFile; u64 dumpEvery = 50;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--out") outDir = nx(); else if (a == "--entry") entry = nx(); else if (a == "--time") limit = atof(nx().c_str()); else if (a == "--workers") maxWorkers = atoi(nx().c_str()); else if (a == "--split") splitMax = atoi(nx().c_str()); else if (a == "--steps") maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--samples") maxSamples = atoi(nx().c_str()); else if (a == "--sample-every") sampleEvery = atoi(nx().c_str()); else if (a == "--debug") dbg = true; else if (a == "--audit") auditEvery = strtoull(nx().c_str(), 0, 10); else if (a == "--no-merge") noMerge = true; else if (a == "--max-viol") maxViol = atoi(nx().c_str()); else if (a == "--dump") dumpFile = nx(); else if (a == "--dump-every") dumpEvery = strtoull(nx().c_str(), 0, 10); else file = a; }
  std::set_new_handler([] { FILE* f = fopen((outDir + "/killed." + std::to_string(getpid())).c_str(), "w"); if (f) fclose(f); SH->workers.fetch_sub(1); _exit(getpid() == rootPid ? 8 : 0); });
  rootPid = getpid(); { struct rlimit rl = {12ull << 30, 12ull << 30}; setrlimit(RLIMIT_AS, &rl); }
  tStart = nowS(); deadline = tStart + limit; startTimer();
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (SH) Shared(); SH->workers = 1;
  SOL = new Solver(); SOL->where = [] { return curS ? locOf(*curS) : std::string(); }; C.domOf = &domFn; if (auditEvery) C.audit = auditFold;
  if (!dumpFile.empty()) { SOL->dump = fopen(dumpFile.c_str(), "w"); SOL->dumpEvery = dumpEvery; }
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod = parseIRFile(file, err, ctx); if (!mod) { err.print("u5sym", errs()); return 9; }
  M = mod.get(); DL = &M->getDataLayout();
  for (auto& F : *M) { if (F.isDeclaration()) continue; std::string n = F.getName().str(); F.removeFnAttr(Attribute::OptimizeNone); std::string dm = demangle(n); bool ours = n.rfind("ovr_", 0) == 0 || dm.find("summ_") != std::string::npos || dm.find("u5e::") == 0 || dm.find("merge_") == 0 || n == entry || natives.count(n) || F.getReturnType()->isIntegerTy(1); if (ours) { F.addFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); } else if (dm.rfind("std::", 0) == 0 || dm.find("__gnu_cxx::") != std::string::npos) F.removeFnAttr(Attribute::NoInline); }
  { PassBuilder pb; LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam; pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam); ModulePassManager mpm;
    if (auto e = pb.parsePassPipeline(mpm, "function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp;no-sink-common-insts;no-hoist-common-insts>),cgscc(inline),function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp;no-sink-common-insts;no-hoist-common-insts>)")) { errs() << toString(std::move(e)) << "\n"; return 9; } mpm.run(*M, mam); }
  if (dbg && getenv("U5SYM_DUMPIR")) { std::error_code ec; raw_fd_ostream os(getenv("U5SYM_DUMPIR"), ec); M->print(os, nullptr); }
  // objects of functions and globals
  State* s = new State(); s->nextId = 1; base.push_back(ObjP());
  auto addBase = [&](Obj* o) { base.push_back(ObjP(o)); s->nextId++; };
  for (auto& F : *M) { Obj* o = new Obj(); o->rc = 0; o->id = s->nextId; o->size = 0; o->kind = 'f'; o->ro = true; o->name = internS(F.getName().str()); DFunc* d = new DFunc(); d->F = &F; d->name = F.getName().str(); d->nice = demangle(d->name); size_t par = d->nice.find('('); if (par != std::string::npos && par > 0) d->nice = d->nice.substr(0, par); d->id = o->id; d->retw = F.getReturnType()->isVoidTy() ? 0 : bitsOf(F.getReturnType()); dfs[&F] = d; fnById[o->id] = d; fnByName[d->name] = d; addBase(o);
    auto it = natives.find(d->name); if (it != natives.end()) d->native = it->second; else if (ignored.count(d->name)) d->ignore = true; else if (F.isDeclaration() && (d->name.find("St") != std::string::npos && d->name.find("__throw_") != std::string::npos)) d->native = n_libthrow;
    else if (!F.isDeclaration()) { if (d->nice.find("summ_") != std::string::npos && d->nice.find("::summ_") == std::string::npos) d->summ = true; else if (d->nice.rfind("join_", 0) == 0) d->join = true; else if (F.getReturnType()->isIntegerTy(1) || d->nice.rfind("merge_", 0) == 0) d->merge = true; } }
  for (auto& e : fnByName) if (e.first.rfind("ovr_", 0) == 0) { auto it = fnByName.find(e.first.substr(4)); if (it != fnByName.end()) it->second->over = e.second; }
  for (auto& G : M->globals()) { Obj* o = new Obj(); o->rc = 0; o->id = s->nextId; u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0; if (G.isDeclaration() && sz < 64) sz = 64; o->size = sz; o->kind = G.isThreadLocal() ? 't' : 'g'; o->ro = false; o->name = internS(demangle(G.getName().str())); o->b.resize(sz); globalId[&G] = o->id; addBase(o); }
  for (auto& G : M->globals()) if (G.hasInitializer()) { Obj* o = base[globalId[&G]].o; try { writeInit(o, 0, G.getInitializer()); } catch (Kill& k) { fatal("initializer of " + std::string(o->name) + ": " + k.why); } o->ro = G.isConstant(); }
  baseN = s->nextId;
  // root frame
  DFunc* root = new DFunc(); root->decoded = true; root->name = root->nice = "(root)"; root->nslots = 1; root->bl.resize(1); DInst ri; ri.I = nullptr; ri.op = Instruction::Call; ri.dst = 0; ri.w = 64; ri.w2 = 0; ri.t0 = ri.t1 = -1; ri.callee = nullptr; ri.intr = 0; ri.pred = 0; ri.isF = false; ri.goff = 0; ri.align = 0; root->bl[0].in.assign(4, ri);
  Frame rf; rf.f = root; rf.bb = 0; rf.ip = 0; rf.r.resize(1); rf.dst = 0; rf.dstw = 64; 
  std::vector<State*> list; curList = &list; std::vector<Val> none; 
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, Function*>> cs; for (auto& o : arr->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); } std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      u64 ms = maxSteps; maxSteps = 50000000; for (auto& c : cs) { s->fr.clear(); s->fr.push_back(rf); enter(*s, dfs[c.second], none, 0, 0); bool l = false; if (!runOne(s, 1, l)) fatal("a static initializer did not run: " + dfs[c.second]->nice); if (!list.empty()) fatal("static initializer forks"); s->steps = 0; } maxSteps = ms; }
  // freeze what exists now
  for (auto& e : s->mod) base[e.first] = e.second; s->mod.clear(); for (auto& o : s->rec) { if (o) o->rc += 0; base.push_back(o); } s->rec.clear(); baseN = s->nextId; s->minW = ~0ull; s->heapLive = 0; s->path.clear();
  s->fr.clear(); s->fr.push_back(rf); pristine = new State(*s);
  auto it = fnByName.find(entry); if (it == fnByName.end()) fatal("no function " + entry);
  enter(*s, it->second, none, 0, 0); list.push_back(s);
  worker(list, true);
  FILE* f = fopen((outDir + "/done").c_str(), "w"); if (f) { fprintf(f, "%.3f\n", nowS() - tStart); fclose(f); }
  _exit(0);
}
