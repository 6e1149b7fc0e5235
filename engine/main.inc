static DFunc *g_entry = nullptr;
// ------------------------------------------------------------------ one path
struct Sample { std::vector<std::string> in, ob; };
static std::vector<Sample> g_samples;
static size_t g_maxPathInstr = 0;

static std::string hexs(const std::string &s) { static const char *h = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; } return r; }
static std::vector<std::string> inputLines(const std::vector<Input> &in, const std::vector<int> &pv, std::map<int, uint64_t> &m) {
  std::vector<std::string> r;
  for (auto &i : in) {
    if (i.kind == 'b') { std::string b; for (int k = 0; k < i.n; k++) b.push_back((char)m[pv[i.var + k]]); r.push_back("b " + i.name + " " + (i.n ? hexs(b) : "-")); }
    else if (i.kind == 'v') r.push_back("v " + i.name + " " + std::to_string(m[pv[i.var]]));
    else r.push_back("c " + i.name + " " + std::to_string(i.v));
  }
  return r;
}

void Interp::runPath(const Prefix &p) {
  arena.reset(); objs.clear(); st.clear(); S.reset(); inputs.clear(); pathVars.clear(); nextVar = 0; obs.clear(); obsName.clear(); obsW.clear();
  instrs = 0; liveHeap = 0; sites.clear(); pre = p; prePos = 0; cur.clear();
  objs.reserve(g_ro.size() + 256);
  for (Obj *g : g_ro) {
    if (!g || g->ro) { objs.push_back(g); continue; }
    Obj *o = (Obj *)arena.get(sizeof(Obj)); *o = *g;
    o->data = (uint8_t *)arena.get(g->size ? g->size : 1); memcpy(o->data, g->data, g->size);
    objs.push_back(o);
  }
  int end = 0;
  try {
    run(g_entry);
  } catch (PathEnd &e) { end = e.kind; }
  catch (Unsup &u) { unsupported.insert(u.what); end = 2; }
  stats.instrs += instrs; if (instrs > g_maxPathInstr) g_maxPathInstr = instrs;
  if (nextVar > stats.maxVars) stats.maxVars = nextVar;
  if (end == 1) { stats.dropped++; return; }
  stats.paths++;
  if (end == 0 && optSamples) {
    uint64_t n = stats.paths; int slot = -1;
    if ((int)g_samples.size() < optSamples) { slot = (int)g_samples.size(); }
    else if (rnd() % n < (uint64_t)optSamples) slot = (int)(rnd() % optSamples);
    if (slot >= 0) {
      std::map<int, uint64_t> m; std::vector<Expr *> cs; S.slice(nullptr, cs);
      if (S.z3check(cs, nullptr, &m, &pathVars) == 1) {
        Sample s; s.in = inputLines(inputs, pathVars, m);
        for (size_t i = 0; i < obs.size(); i++) {
          uint64_t v = obs[i].e ? M.eval(obs[i].e, [&](int k) { return m[k]; }) : obs[i].v;
          s.ob.push_back("o " + obsName[i] + " " + std::to_string(v));
        }
        if (slot < (int)g_samples.size()) g_samples[slot] = s; else g_samples.push_back(s);
      }
    }
  }
}

// ------------------------------------------------------------------ work sharing
struct Shared {
  pthread_mutex_t mu; std::atomic<int> idle; std::atomic<int> stop; std::atomic<int> items; std::atomic<uint64_t> errs;
  int head, tail; // ring of slots
};
static const int NSLOT = 512; static const size_t SLOTB = 1 << 16;
static Shared *sh; static uint8_t *slots; static int W = 1;
static bool pushShared(const Prefix &p) {
  if (p.size() * 9 + 4 > SLOTB) return false;
  pthread_mutex_lock(&sh->mu);
  bool ok = sh->items.load() < NSLOT;
  if (ok) {
    uint8_t *q = slots + (size_t)sh->tail * SLOTB; uint32_t n = (uint32_t)p.size(); memcpy(q, &n, 4); q += 4;
    for (auto &d : p) { memcpy(q, &d.v, 8); q[8] = d.taken; q += 9; }
    sh->tail = (sh->tail + 1) % NSLOT; sh->items++;
  }
  pthread_mutex_unlock(&sh->mu);
  return ok;
}
static bool popShared(Prefix &p) {
  if (sh->items.load() == 0) return false;
  pthread_mutex_lock(&sh->mu);
  bool ok = sh->items.load() > 0;
  if (ok) {
    uint8_t *q = slots + (size_t)sh->head * SLOTB; uint32_t n; memcpy(&n, q, 4); q += 4; p.resize(n);
    for (auto &d : p) { memcpy(&d.v, q, 8); d.taken = q[8]; q += 9; }
    sh->head = (sh->head + 1) % NSLOT; sh->items--; sh->idle--;
  }
  pthread_mutex_unlock(&sh->mu);
  return ok;
}

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
static std::string jlist(const std::vector<std::string> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + jstr(v[i]); return r + "]"; }
static std::vector<std::string> g_labels;

static void writeOut(const std::string &path, bool complete, double wall) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) { perror("symx: output"); _exit(3); }
  fprintf(f, "{\"complete\":%s,\"paths\":%llu,\"dropped\":%llu,\"instrs\":%llu,\"decisions\":%llu,\"asserts\":%llu,\"asserts_solver\":%llu,\"errs\":%llu,\"max_vars\":%llu,\"max_path_instrs\":%llu,",
          complete ? "true" : "false", (unsigned long long)stats.paths, (unsigned long long)stats.dropped, (unsigned long long)stats.instrs, (unsigned long long)stats.decisions,
          (unsigned long long)stats.asserts, (unsigned long long)stats.assertsSolver, (unsigned long long)stats.errs, (unsigned long long)stats.maxVars, (unsigned long long)g_maxPathInstr);
  fprintf(f, "\"z3\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cached\":%llu,\"decided_by_kept_model\":%llu,\"decided_by_bounds\":%llu,\"seconds\":%.3f},\"table_decisions\":%llu,\"wall\":%.3f,",
          (unsigned long long)S.st.z3, (unsigned long long)S.st.z3sat, (unsigned long long)S.st.z3unsat, (unsigned long long)S.st.z3unk, (unsigned long long)S.st.cacheHits, (unsigned long long)S.st.reused, (unsigned long long)S.st.bounds, S.st.z3s, (unsigned long long)S.st.fast, wall);
  fprintf(f, "\"violations\":["); bool first = true;
  for (auto &kv : violations) {
    Violation &v = kv.second;
    fprintf(f, "%s{\"key\":%s,\"kind\":%s,\"msg\":%s,\"trace\":%s,\"count\":%d,\"inputs\":%s}", first ? "" : ",", jstr(v.key).c_str(), jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.trace).c_str(), v.count, jlist(v.lines).c_str());
    first = false;
  }
  fprintf(f, "],\"reached\":{"); first = true;
  for (auto &kv : reached) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  fprintf(f, "},\"assert_hits\":{"); first = true;
  for (auto &kv : assertHit) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  fprintf(f, "},\"labels\":%s,\"unsupported\":%s,\"functions\":[", jlist(g_labels).c_str(), jlist(std::vector<std::string>(unsupported.begin(), unsupported.end())).c_str()); first = true;
  for (DFunc *d : funcs) if (d->executed && d->inRepo) {
    std::string bits; size_t c = 0; for (uint8_t b : d->covered) { c += b; bits += b ? '1' : '0'; }
    fprintf(f, "%s{\"name\":%s,\"file\":%s,\"total\":%zu,\"bits\":\"%s\"}", first ? "" : ",", jstr(d->F->getName().str()).c_str(), jstr(d->file).c_str(), d->covered.size(), bits.c_str());
    first = false;
  }
  fprintf(f, "],\"samples\":["); first = true;
  for (auto &s : g_samples) { fprintf(f, "%s{\"in\":%s,\"obs\":%s}", first ? "" : ",", jlist(s.in).c_str(), jlist(s.ob).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
}

static void worker(int id, const std::string &out, double deadline, double t0) {
  Interp in; std::deque<Prefix> work; in.work = &work; rngState ^= (optSeed + 1) * 0x9E3779B97F4A7C15ull + id * 7919; for (int i = 0; i < 8; i++) rnd();
  bool complete = true, idle = false;
  if (id == 0) work.push_back(Prefix()); else { sh->idle++; idle = true; }
  for (;;) {
    if (sh->stop.load()) { complete = complete && work.empty() && sh->items.load() == 0; break; }
    if (work.empty()) {
      if (!idle) { sh->idle++; idle = true; }
      Prefix p;
      if (popShared(p)) { idle = false; work.push_back(std::move(p)); }
      else if (sh->idle.load() >= W && sh->items.load() == 0) break;
      else { usleep(300); continue; }
    }
    if (nowS() > deadline) { complete = false; sh->stop = 1; break; }
    Prefix p = std::move(work.back()); work.pop_back();
    uint64_t e0 = stats.errs;
    in.runPath(p);
    if (stats.errs != e0 && sh->errs.fetch_add(stats.errs - e0) > 4000) { complete = false; sh->stop = 1; }
    while (work.size() > 1 && sh->idle.load() > sh->items.load()) {
      if (!pushShared(work.front())) break;
      work.pop_front();
    }
    if (M.count > 4000000) { M.clear(); S.clear(); }
  }
  writeOut(out + "." + std::to_string(id), complete, nowS() - t0);
}

static void collectLabels(const Function *F, std::set<const Function *> &seen, std::set<std::string> &out) {
  if (!seen.insert(F).second) return;
  for (auto &B : *F) for (auto &I : B) {
    if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *T = CB->getCalledFunction()) if (T->getName() == "sx_reach") {
      if (auto *G = dyn_cast<GlobalVariable>(CB->getArgOperand(0)->stripPointerCasts())) if (G->hasInitializer()) if (auto *CD = dyn_cast<ConstantDataSequential>(G->getInitializer())) out.insert(CD->isCString() ? CD->getAsCString().str() : "");
    }
    for (auto &U : I.operands()) if (auto *T = dyn_cast<Function>(U.get()->stripPointerCasts())) collectLabels(T, seen, out);
  }
}

// (double)strtold(...) is read by a model that gives the double; other long doubles are not modelled
static void longDouble() {
  Function *F = Mod->getFunction("strtold"), *G = Mod->getFunction("vf_strtold"); if (!F || !G) return;
  std::vector<CallBase *> calls; for (User *u : F->users()) if (auto *c = dyn_cast<CallInst>(u)) calls.push_back(c);
  for (CallBase *c : calls) {
    bool all = true; for (User *u : c->users()) all &= isa<FPTruncInst>(u) && u->getType()->isDoubleTy(); if (!all) continue;
    auto *n = CallInst::Create(G, {c->getArgOperand(0), c->getArgOperand(1)}, "", c); std::vector<Instruction *> tr; for (User *u : c->users()) tr.push_back(cast<Instruction>(u));
    for (auto *t : tr) { t->replaceAllUsesWith(n); t->eraseFromParent(); } c->eraseFromParent();
  }
}
int main(int argc, char **argv) {
  std::string file, entry = "vf_main", out = "symx.out"; double limit = 60;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(++i < argc ? argv[i] : ""); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--workers") W = atoi(nx().c_str());
    else if (a == "--time") limit = atof(nx().c_str()); else if (a == "--samples") optSamples = atoi(nx().c_str());
    else if (a == "--seed") optSeed = strtoull(nx().c_str(), 0, 10); else if (a == "--max-instr") optMaxInstr = strtoull(nx().c_str(), 0, 10);
    else if (a == "--pure") optPure = true; else if (a == "--z3-timeout") S.timeoutMs = (unsigned)atoi(nx().c_str());
    else if (a == "--case") { std::string c = nx(); size_t e = c.find('='); optCase[c.substr(0, e)] = strtoull(c.c_str() + e + 1, 0, 10); }
    else file = a;
  }
  LLVMContext ctx; SMDiagnostic d; Mod = parseIRFile(file, d, ctx);
  if (!Mod) { d.print("symx", errs()); return 3; }
  DL = &Mod->getDataLayout();
  Function *E = Mod->getFunction(entry);
  if (!E || E->isDeclaration()) { fprintf(stderr, "symx: no function %s\n", entry.c_str()); return 3; }
  longDouble();
  for (auto &F : *Mod) fid(&F);
  g_ro.push_back(nullptr);
  size_t id = 1;
  for (auto &G : Mod->globals()) globId[&G] = id++;
  try {
    for (auto &G : Mod->globals()) {
      Obj *o = (Obj *)calloc(1, sizeof(Obj)); o->kind = K_GLOBAL; o->live = true; o->ro = G.isConstant();
      uint64_t sz = G.getName().startswith("llvm.") ? 0 : DL->getTypeAllocSize(G.getValueType()).getFixedValue();
      if (sz > (1 << OBJ_SHIFT) - 2 * OBJ_OFF) { fprintf(stderr, "symx: huge global %s\n", G.getName().str().c_str()); return 3; }
      o->size = (uint32_t)sz; o->data = (uint8_t *)calloc(1, sz ? sz : 1);
      if (sz) { if (G.hasInitializer()) writeInit(o->data, G.getInitializer()); else { o->live = false; } }
      g_ro.push_back(o);
    }
  } catch (Unsup &u) { fprintf(stderr, "symx: initialiser: %s\n", u.what.c_str()); return 3; }
  std::set<const Function *> seen; std::set<std::string> labs; collectLabels(E, seen, labs); g_labels.assign(labs.begin(), labs.end());
  g_entry = funcs[fid(E)];
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared();
  slots = (uint8_t *)mmap(nullptr, NSLOT * SLOTB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&sh->mu, &ma);
  double t0 = nowS(), deadline = t0 + limit;
  if (W <= 1) { W = 1; worker(0, out, deadline, t0); fflush(nullptr); _exit(0); }
  std::vector<pid_t> ps;
  for (int i = 0; i < W; i++) { pid_t p = fork(); if (p == 0) { worker(i, out, deadline, t0); fflush(nullptr); _exit(0); } ps.push_back(p); }
  int rc = 0;
  for (size_t k = 0; k < ps.size(); k++) {
    int s; pid_t p = wait(&s);
    if (p > 0 && (!WIFEXITED(s) || WEXITSTATUS(s))) { rc = 4; sh->stop = 1; }
  }
  fflush(nullptr); _exit(rc);
}
