// symx: bounded symbolic execution of LLVM IR (one path at a time, by
// re-execution of decision prefixes, spread over worker processes).
#include "solver.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <pthread.h>
#include <atomic>
#include <deque>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
std::vector<VarInfo> g_vars;
static ExprMgr M;
static Solver S(M);

struct Val { uint64_t v; Expr *e; };
static inline Val C(uint64_t v) { return Val{v, nullptr}; }
static inline Val mkV(Expr *e) { if (e->op == O_CONST) return Val{e->k, nullptr}; return Val{0, e}; }
static inline Expr *X(const Val &v, unsigned w) { return v.e ? v.e : M.cst(v.v, w); }

// ------------------------------------------------------------------ memory
struct Obj {
  uint32_t size; uint8_t kind; bool live; bool ro; // kind: 0 global 1 stack 2 heap
  uint8_t *data; Expr **sh; uint8_t *init;
  uint32_t site;
};
enum { K_GLOBAL, K_STACK, K_HEAP };
static const uint64_t OBJ_SHIFT = 22, OBJ_OFF = 1 << 16, FUNC_BASE = 0x700000000000ull;
static inline uint64_t baseOf(size_t id) { return ((uint64_t)id << OBJ_SHIFT) + OBJ_OFF; }

struct Arena {
  std::vector<char *> blocks; size_t bi = 0, off = 0; static const size_t BS = 1 << 20;
  void *get(size_t n) {
    n = (n + 15) & ~15ull;
    if (n > BS) { void *p = calloc(1, n); return p; }
    if (blocks.empty()) blocks.push_back((char *)malloc(BS));
    if (off + n > BS) { bi++; off = 0; if (bi == blocks.size()) blocks.push_back((char *)malloc(BS)); }
    void *p = blocks[bi] + off; off += n; memset(p, 0, n); return p;
  }
  void reset() { bi = 0; off = 0; }
};
static Arena arena;

// ------------------------------------------------------------------ program
struct Opd { int32_t s; }; // >=0 register slot; <0 constant index ~s
struct DInst {
  uint16_t op; uint8_t w, w2; int32_t dst; Opd a, b, c;
  uint64_t imm; const Instruction *I; int32_t aux; int32_t aux2;
};
struct Move { int32_t dst; Opd src; int n; };
struct Edge { int32_t block; std::vector<Move> moves; };
struct DFunc {
  const Function *F; int nslots = 0; std::vector<int> argSlot; std::vector<int> argN;
  std::vector<DInst> code; std::vector<int> blockStart; std::vector<Edge> edges;
  std::vector<std::vector<Opd>> callArgs; std::vector<std::vector<std::pair<uint64_t, int>>> switches;
  std::vector<std::vector<std::pair<Opd, uint64_t>>> geps;
  std::vector<Val> consts; std::vector<uint8_t> covered; bool decoded = false; int builtin = -1;
  std::string file; bool inRepo = false; bool executed = false;
};
static std::unique_ptr<Module> Mod;
static const DataLayout *DL;
static std::vector<DFunc *> funcs;
static std::unordered_map<const Function *, int> funcId;
struct GlobInit { size_t id; };
static std::vector<Obj *> g_ro;      // initial image of the global objects (by id)
static std::unordered_map<const GlobalVariable *, size_t> globId;

struct PathEnd { int kind; }; // 0 done, 1 dropped (assume), 2 error
struct Unsup { std::string what; };

// ------------------------------------------------------------------ decisions
struct Dec { uint64_t v; uint8_t taken; };
typedef std::vector<Dec> Prefix;

struct Frame {
  DFunc *f; int pc; Val *regs; std::vector<size_t> allocas; uint64_t va; int retDst; int retN;
  int edgeAfter; // for invoke (unused)
};
struct Input { char kind; std::string name; int var; int n; uint64_t v; }; // kind: b bytes, v var, c choice
struct Violation { std::string key, kind, msg, trace; std::vector<std::string> lines; int count = 1; };

static std::vector<std::string> inputLines(const std::vector<Input> &in, const std::vector<int> &pv, std::map<int, uint64_t> &m);
struct Stats {
  uint64_t paths = 0, dropped = 0, instrs = 0, decisions = 0, asserts = 0, assertsSolver = 0, errs = 0, maxVars = 0;
};
static Stats stats;
static std::map<std::string, Violation> violations;
static std::map<std::string, uint64_t> reached;
static std::map<std::string, uint64_t> assertHit;
static std::set<std::string> unsupported;
static std::vector<std::string> samples;
static int optSamples = 3; static uint64_t optSeed = 1; static int optMaxViol = 40;
static std::map<std::string, uint64_t> optCase;
static uint64_t optMaxInstr = 3000000; static bool optPure = false;
static uint64_t rngState = 88172645463325252ull;
static uint64_t rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }

struct Interp {
  std::vector<Obj *> objs; std::vector<Frame> st; Prefix pre; size_t prePos = 0; Prefix cur;
  std::deque<Prefix> *work = nullptr;
  std::vector<Input> inputs; std::vector<int> pathVars; size_t nextVar = 0; std::vector<Val> obs; std::vector<std::string> obsName;
  std::vector<int> obsW; std::vector<size_t> garbage; uint64_t instrs = 0; size_t liveHeap = 0;
  std::vector<std::string> sites;

  std::string where(int depth = 6) {
    std::string r;
    for (int i = (int)st.size() - 1; i >= 0 && depth-- > 0; --i) {
      Frame &f = st[i]; const Instruction *I = f.f->code[std::max(0, f.pc - 1)].I;
      r += f.f->F->getName().str();
      if (I && I->getDebugLoc()) r += ":" + std::to_string(I->getDebugLoc().getLine());
      if (i && depth > 0) r += " < ";
    }
    return r;
  }
  // innermost function that belongs to the code under test
  std::string siteFn() {
    for (int i = (int)st.size() - 1; i >= 0; --i) if (st[i].f->inRepo) return st[i].f->F->getName().str();
    return st.empty() ? "?" : st.back().f->F->getName().str();
  }
  // ---------------------------------------------------------------- variables
  Expr *newVar(unsigned w, bool fp = false) {
    size_t i = nextVar++;
    while (g_vars.size() <= i) g_vars.push_back(VarInfo{0, false});
    // variable indices are reused between paths; the width is part of the identity
    if (g_vars[i].w == 0) g_vars[i] = VarInfo{(uint8_t)w, fp};
    else if (g_vars[i].w != w) { // take the next index with this width or a fresh one
      while (i < g_vars.size() && g_vars[i].w != 0 && g_vars[i].w != w) i++;
      if (i >= g_vars.size()) g_vars.push_back(VarInfo{(uint8_t)w, fp});
      g_vars[i].w = (uint8_t)w;
      nextVar = i + 1;
    }
    S.need((int)i);
    pathVars.push_back((int)i);
    return M.var((int)i, w);
  }
  // ---------------------------------------------------------------- reports
  bool fillModel(Expr *extra, std::map<int, uint64_t> &m) { return S.model(extra, pathVars, m); }
  void report(const std::string &kind, const std::string &key, const std::string &msg, Expr *extra) {
    auto it = violations.find(key);
    if (it != violations.end()) { it->second.count++; return; }
    std::map<int, uint64_t> m;
    std::vector<Expr *> cs; S.slice(nullptr, cs);
    int r = S.z3check(cs, extra, &m, &pathVars);
    if (r == 0) return;   // the path itself is infeasible
    if (r < 0) { unsupported.insert("solver gave no answer for a violation candidate: " + key); return; }
    Violation v; v.key = key; v.kind = kind; v.msg = msg; v.trace = where(); v.lines = inputLines(inputs, pathVars, m);
    violations[key] = v;
  }
  [[noreturn]] void err(const std::string &kind, const std::string &msg) {
    stats.errs++;
    report("error", kind + "@" + siteFn(), msg + " [" + where() + "]", nullptr);
    throw PathEnd{2};
  }
  // ---------------------------------------------------------------- branching
  bool decide(Expr *c) {
    if (c->op == O_CONST) return c->k;
    if (prePos < pre.size()) {
      Dec d = pre[prePos++]; cur.push_back(d);
      if (!d.v || S.byteVar(c)) S.add(d.taken ? c : M.mkNot(c)); // v: implied by the path condition
      return d.taken;
    }
    int t, f;
    if (optPure) { t = S.may(c, true); f = t == 0 ? 1 : S.may(M.mkNot(c), true); } else S.sides(c, M.mkNot(c), t, f);
    if (t == 0) { if (S.byteVar(c)) S.add(M.mkNot(c)); cur.push_back({1, 0}); return false; }
    if (f == 0) { if (S.byteVar(c)) S.add(c); cur.push_back({1, 1}); return true; }
    stats.decisions++;
    Prefix alt = cur; alt.push_back({0, 0});
    work->push_back(std::move(alt));
    cur.push_back({0, 1});
    S.add(c);
    return true;
  }
  uint64_t choose(uint64_t n) {
    if (n == 0) throw PathEnd{1};
    if (prePos < pre.size()) { Dec d = pre[prePos++]; cur.push_back(d); return d.v; }
    for (uint64_t i = n - 1; i >= 1; --i) { Prefix alt = cur; alt.push_back({i, 1}); work->push_back(std::move(alt)); stats.decisions++; }
    cur.push_back({0, 1});
    return 0;
  }
  uint64_t concretize(Expr *e) {
    if (e->op == O_CONST) return e->k;
    for (;;) {
      uint64_t v; bool taken;
      if (prePos < pre.size()) {
        Dec d = pre[prePos++]; cur.push_back(d); v = d.v; taken = d.taken;
        Expr *q = M.bin(O_EQ, e, M.cst(v, e->w));
        S.add(taken ? q : M.mkNot(q));
        if (taken) return v;
        continue;
      }
      std::vector<Expr *> cs; S.slice(e, cs);
      int r = !optPure && S.fits(cs, e) ? 1 : S.solve(cs, e->w == 1 ? M.bin(O_OR, e, M.mkNot(e)) : M.bin(O_ULE, M.cst(0, e->w), e));
      if (r != 1) { if (r < 0) unsupported.insert("solver gave no answer while enumerating a value"); throw PathEnd{1}; }
      v = S.value(e);
      Expr *q = M.bin(O_EQ, e, M.cst(v, e->w));
      if (S.may(M.mkNot(q)) != 0) {
        Prefix alt = cur; alt.push_back({v, 0}); work->push_back(std::move(alt)); stats.decisions++;
      }
      cur.push_back({v, 1}); S.add(q);
      return v;
    }
  }
  uint64_t conc(const Val &v) { return v.e ? concretize(v.e) : v.v; }
  // ---------------------------------------------------------------- memory
  size_t newObj(uint32_t size, int kind, bool zero) {
    Obj *o = (Obj *)arena.get(sizeof(Obj));
    o->size = size; o->kind = (uint8_t)kind; o->live = true;
    o->data = (uint8_t *)arena.get(size ? size : 1);
    if (!zero && size) o->init = (uint8_t *)arena.get(size);
    objs.push_back(o);
    return objs.size() - 1;
  }
  Obj *find(uint64_t addr, uint64_t n, bool write, uint32_t &off) {
    uint64_t id = addr >> OBJ_SHIFT;
    if (addr < 65536) err("null-deref", "access to address " + std::to_string(addr));
    if (id >= objs.size() || id == 0) err("wild-pointer", "access to an address of no object");
    Obj *o = objs[id];
    if (!o->live) err(o->kind == K_HEAP ? "use-after-free" : "use-after-return", "access to an object that is gone");
    int64_t d = (int64_t)(addr - baseOf(id));
    if (d < 0 || (uint64_t)d + n > o->size)
      err("out-of-bounds", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " at offset " + std::to_string(d) + " of an object of " + std::to_string(o->size));
    if (write && o->ro) err("write-const", "write to read-only memory");
    off = (uint32_t)d;
    return o;
  }
  Expr *byteAt(Obj *o, uint32_t i) {
    if (o->sh && o->sh[i]) return o->sh[i];
    if (o->init && !o->init[i]) {
      Expr *v = newVar(8);
      if (!o->sh) o->sh = (Expr **)arena.get(o->size * sizeof(Expr *));
      o->sh[i] = v; o->init[i] = 1;
      return v;
    }
    return M.cst(o->data[i], 8);
  }
  bool plain(Obj *o, uint32_t off, unsigned n) {
    if (o->sh) for (unsigned i = 0; i < n; i++) if (o->sh[off + i]) return false;
    if (o->init) for (unsigned i = 0; i < n; i++) if (!o->init[off + i]) return false;
    return true;
  }
  Val load(uint64_t addr, unsigned w) {
    unsigned n = (w + 7) / 8; uint32_t off; Obj *o = find(addr, n, false, off);
    if (plain(o, off, n)) {
      uint64_t v = 0; memcpy(&v, o->data + off, n);
      return C(v & maskw(w));
    }
    Expr *e = byteAt(o, off);
    for (unsigned i = 1; i < n; i++) e = M.concat(byteAt(o, off + i), e);
    if (w < n * 8) e = M.extract(e, 0, w);
    return mkV(e);
  }
  void store(uint64_t addr, const Val &v, unsigned w) {
    unsigned n = (w + 7) / 8; uint32_t off; Obj *o = find(addr, n, true, off);
    if (o->init) memset(o->init + off, 1, n);
    if (!v.e) {
      uint64_t k = v.v & maskw(w);
      memcpy(o->data + off, &k, n);
      if (o->sh) for (unsigned i = 0; i < n; i++) o->sh[off + i] = nullptr;
      return;
    }
    Expr *e = w < n * 8 ? M.zext(v.e, n * 8) : v.e;
    if (!o->sh) o->sh = (Expr **)arena.get(o->size * sizeof(Expr *));
    for (unsigned i = 0; i < n; i++) {
      Expr *b = M.extract(e, i * 8, 8, false);
      if (b->op == O_CONST) { o->data[off + i] = (uint8_t)b->k; o->sh[off + i] = nullptr; }
      else o->sh[off + i] = b;
    }
  }
  void copy(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    uint32_t so, dof; Obj *os = find(s, n, false, so), *od = find(d, n, true, dof);
    if (plain(os, so, (unsigned)n)) {
      memmove(od->data + dof, os->data + so, n);
      if (od->init) memset(od->init + dof, 1, n);
      if (od->sh) memset(od->sh + dof, 0, n * sizeof(Expr *));
      return;
    }
    std::vector<Expr *> t(n);
    for (uint64_t i = 0; i < n; i++) t[i] = byteAt(os, so + (uint32_t)i);
    if (!od->sh) od->sh = (Expr **)arena.get(od->size * sizeof(Expr *));
    for (uint64_t i = 0; i < n; i++) {
      if (t[i]->op == O_CONST) { od->data[dof + i] = (uint8_t)t[i]->k; od->sh[dof + i] = nullptr; }
      else od->sh[dof + i] = t[i];
      if (od->init) od->init[dof + i] = 1;
    }
  }
  std::string cstr(uint64_t addr) {
    std::string r;
    for (int i = 0; i < 400; i++) { Val v = load(addr + i, 8); uint64_t c = conc(v); if (!c) break; r.push_back((char)c); }
    return r;
  }
  uint64_t alloc(uint64_t n) {
    if (n > (1 << OBJ_SHIFT) - 2 * OBJ_OFF) err("huge-allocation", "allocation of " + std::to_string(n) + " bytes is outside the modelled sizes");
    size_t id = newObj((uint32_t)n, K_HEAP, false);
    objs[id]->site = (uint32_t)sites.size(); sites.push_back(where(5)); liveHeap++;
    return baseOf(id);
  }
  void release(uint64_t p) {
    if (!p) return;
    uint64_t id = p >> OBJ_SHIFT;
    if (id >= objs.size() || id == 0 || objs[id]->kind != K_HEAP || p != baseOf(id)) err("invalid-free", "free of a pointer that malloc did not return");
    if (!objs[id]->live) err("double-free", "free of freed memory");
    objs[id]->live = false; liveHeap--;
  }
  // ---------------------------------------------------------------- running
  void run(DFunc *f);
  void call(DFunc *f, std::vector<Val> &args, std::vector<uint8_t> &argw, int dst, int n, size_t nfixedSlots);
  bool builtin(int b, const CallBase *I, std::vector<Val> &a, Val &r);
  void runPath(const Prefix &p);
};

// ------------------------------------------------------------------ decode
enum DOp : uint16_t {
  D_BIN, D_ICMP, D_FCMP, D_LOAD, D_STORE, D_GEP, D_BR, D_CBR, D_SWITCH, D_RET, D_CALL, D_SELECT, D_CAST, D_ALLOCA,
  D_EXTRACTV, D_INSERTV, D_UNREACH, D_FNEG, D_NOP, D_MOV, D_UNSUP,
};
static int slotsOf(Type *T) {
  if (T->isVoidTy()) return 0;
  if (auto *ST = dyn_cast<StructType>(T)) { int n = 0; for (Type *E : ST->elements()) n += slotsOf(E); return n; }
  if (auto *AT = dyn_cast<ArrayType>(T)) return (int)AT->getNumElements() * slotsOf(AT->getElementType());
  return 1;
}
static unsigned widthOf(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  return 0;
}
static int aggOff(Type *T, ArrayRef<unsigned> idx) {
  int o = 0;
  for (unsigned i : idx) {
    if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; j++) o += slotsOf(ST->getElementType(j)); T = ST->getElementType(i); }
    else { auto *AT = cast<ArrayType>(T); o += (int)i * slotsOf(AT->getElementType()); T = AT->getElementType(); }
  }
  return o;
}
static int fid(const Function *F) {
  auto it = funcId.find(F);
  if (it != funcId.end()) return it->second;
  DFunc *d = new DFunc; d->F = F; funcs.push_back(d); funcId[F] = (int)funcs.size() - 1;
  if (auto *SP = F->getSubprogram()) { if (SP->getFile()) { d->file = SP->getFile()->getFilename().str(); if (!d->file.empty() && d->file[0] != '/') d->file = SP->getFile()->getDirectory().str() + "/" + d->file; } }
  d->inRepo = d->file.find("/source/") != std::string::npos || d->file.find("/includes/argus") != std::string::npos;
  return (int)funcs.size() - 1;
}
static uint64_t constVal(const Constant *K);
static size_t globalObj(const GlobalVariable *G) { return globId.at(G); }
static uint64_t constVal(const Constant *K) {
  if (auto *CI = dyn_cast<ConstantInt>(K)) { if (CI->getBitWidth() > 64) throw Unsup{"wide integer constant"}; return CI->getZExtValue(); }
  if (isa<ConstantPointerNull>(K) || isa<UndefValue>(K) || isa<ConstantAggregateZero>(K)) return 0;
  if (auto *CF = dyn_cast<ConstantFP>(K)) return CF->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto *F = dyn_cast<Function>(K)) return FUNC_BASE + 16ull * fid(F);
  if (auto *G = dyn_cast<GlobalVariable>(K)) return baseOf(globalObj(G));
  if (auto *A = dyn_cast<GlobalAlias>(K)) return constVal(A->getAliasee());
  if (auto *CE = dyn_cast<ConstantExpr>(K)) {
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0); auto *GO = cast<GEPOperator>(CE);
        if (!GO->accumulateConstantOffset(*DL, off)) throw Unsup{"constant gep"};
        return constVal(CE->getOperand(0)) + off.getZExtValue();
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constVal(CE->getOperand(0)) & maskw(widthOf(CE->getType()));
      case Instruction::Trunc: return constVal(CE->getOperand(0)) & maskw(widthOf(CE->getType()));
      case Instruction::Add: return (constVal(CE->getOperand(0)) + constVal(CE->getOperand(1))) & maskw(widthOf(CE->getType()));
      case Instruction::Sub: return (constVal(CE->getOperand(0)) - constVal(CE->getOperand(1))) & maskw(widthOf(CE->getType()));
      default: throw Unsup{"constant expression"};
    }
  }
  throw Unsup{"constant"};
}
static void flatten(const Constant *K, std::vector<Val> &out) {
  Type *T = K->getType();
  if (slotsOf(T) == 1 && !T->isStructTy() && !T->isArrayTy()) { out.push_back(C(constVal(K))); return; }
  unsigned n = T->isStructTy() ? T->getStructNumElements() : (unsigned)T->getArrayNumElements();
  for (unsigned i = 0; i < n; i++) {
    Constant *E = K->getAggregateElement(i);
    if (!E) throw Unsup{"aggregate constant"};
    flatten(E, out);
  }
}
static void writeInit(uint8_t *p, const Constant *K) {
  Type *T = K->getType();
  if (isa<ConstantAggregateZero>(K) || isa<UndefValue>(K)) return;
  if (auto *CD = dyn_cast<ConstantDataSequential>(K)) { StringRef r = CD->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
  if (auto *ST = dyn_cast<StructType>(T)) {
    const StructLayout *L = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) writeInit(p + L->getElementOffset(i), K->getAggregateElement(i));
    return;
  }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(AT->getElementType());
    for (unsigned i = 0; i < AT->getNumElements(); i++) writeInit(p + i * es, K->getAggregateElement(i));
    return;
  }
  uint64_t v = constVal(K); memcpy(p, &v, DL->getTypeStoreSize(T));
}

#include "decode.inc"
#include "run.inc"
#include "main.inc"
