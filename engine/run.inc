void Interp::call(DFunc *f, std::vector<Val> &args, std::vector<uint8_t> &argw, int dst, int n, size_t nfixed) {
  if (!f->decoded) decode(f);
  if (st.size() > 400) err("stack-overflow", "call depth over 400");
  Frame fr; fr.f = f; fr.pc = 0; fr.regs = (Val *)arena.get(sizeof(Val) * (f->nslots + 1)); fr.va = 0; fr.retDst = dst; fr.retN = n;
  f->executed = true;
  size_t need = 0; for (int k : f->argN) need += k;
  if (args.size() < need) { unsupported.insert("call of " + f->F->getName().str() + " with too few arguments"); throw PathEnd{2}; }
  size_t at = 0;
  for (size_t i = 0; i < f->argSlot.size(); i++) for (int k = 0; k < f->argN[i]; k++) fr.regs[f->argSlot[i] + k] = args[at++];
  for (auto &A : f->F->args()) if (A.hasByValAttr()) {
    uint64_t sz = DL->getTypeAllocSize(A.getParamByValType());
    size_t id = newObj((uint32_t)sz, K_STACK, false);
    int s = f->argSlot[A.getArgNo()];
    copy(baseOf(id), conc(fr.regs[s]), sz);
    fr.regs[s] = C(baseOf(id)); fr.allocas.push_back(id);
  }
  if (f->F->isVarArg()) {
    size_t extra = args.size() - at;
    size_t id = newObj((uint32_t)(extra * 8), K_STACK, false);
    for (size_t i = 0; i < extra; i++) {
      Val v = args[at + i]; unsigned w = argw[at + i];
      if (w < 64) v = v.e ? mkV(M.zext(v.e, 64)) : C(v.v & maskw(w));
      store(baseOf(id) + 8 * i, v, 64);
    }
    fr.va = baseOf(id); fr.allocas.push_back(id);
  }
  st.push_back(std::move(fr));
}

static Val binop(Interp *in, unsigned op, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e) {
    switch (op) {
      case O_ADD: return C((a.v + b.v) & maskw(w));
      case O_SUB: return C((a.v - b.v) & maskw(w));
      default: return C(ExprMgr::fold((Op)op, w, 0, w, a.v & maskw(w), b.v & maskw(w), 0) & maskw(w));
    }
  }
  return mkV(M.bin((Op)op, X(a, w), X(b, w)));
}
static Val cmpInt(unsigned pred, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e) {
    uint64_t x = a.v & maskw(w), y = b.v & maskw(w); int64_t p = sx64(x, w), q = sx64(y, w);
    switch (pred) {
      case CmpInst::ICMP_EQ: return C(x == y); case CmpInst::ICMP_NE: return C(x != y);
      case CmpInst::ICMP_UGT: return C(x > y); case CmpInst::ICMP_UGE: return C(x >= y);
      case CmpInst::ICMP_ULT: return C(x < y); case CmpInst::ICMP_ULE: return C(x <= y);
      case CmpInst::ICMP_SGT: return C(p > q); case CmpInst::ICMP_SGE: return C(p >= q);
      case CmpInst::ICMP_SLT: return C(p < q); case CmpInst::ICMP_SLE: return C(p <= q);
    }
  }
  Expr *x = X(a, w), *y = X(b, w);
  switch (pred) {
    case CmpInst::ICMP_EQ: return mkV(M.bin(O_EQ, x, y)); case CmpInst::ICMP_NE: return mkV(M.mkNot(M.bin(O_EQ, x, y)));
    case CmpInst::ICMP_UGT: return mkV(M.bin(O_ULT, y, x)); case CmpInst::ICMP_UGE: return mkV(M.bin(O_ULE, y, x));
    case CmpInst::ICMP_ULT: return mkV(M.bin(O_ULT, x, y)); case CmpInst::ICMP_ULE: return mkV(M.bin(O_ULE, x, y));
    case CmpInst::ICMP_SGT: return mkV(M.bin(O_SLT, y, x)); case CmpInst::ICMP_SGE: return mkV(M.bin(O_SLE, y, x));
    case CmpInst::ICMP_SLT: return mkV(M.bin(O_SLT, x, y)); default: return mkV(M.bin(O_SLE, x, y));
  }
}
static Val cmpF(unsigned pred, unsigned w, const Val &a, const Val &b) {
  Expr *x = X(a, w), *y = X(b, w);
  Expr *un = M.bin(O_FUNO, x, y), *eq = M.bin(O_FOEQ, x, y), *lt = M.bin(O_FOLT, x, y), *gt = M.bin(O_FOLT, y, x), *le = M.bin(O_FOLE, x, y), *ge = M.bin(O_FOLE, y, x);
  switch (pred) {
    case CmpInst::FCMP_FALSE: return C(0); case CmpInst::FCMP_TRUE: return C(1);
    case CmpInst::FCMP_OEQ: return mkV(eq); case CmpInst::FCMP_OGT: return mkV(gt); case CmpInst::FCMP_OGE: return mkV(ge);
    case CmpInst::FCMP_OLT: return mkV(lt); case CmpInst::FCMP_OLE: return mkV(le);
    case CmpInst::FCMP_ONE: return mkV(M.bin(O_OR, lt, gt)); case CmpInst::FCMP_ORD: return mkV(M.mkNot(un)); case CmpInst::FCMP_UNO: return mkV(un);
    case CmpInst::FCMP_UEQ: return mkV(M.bin(O_OR, un, eq)); case CmpInst::FCMP_UGT: return mkV(M.bin(O_OR, un, gt)); case CmpInst::FCMP_UGE: return mkV(M.bin(O_OR, un, ge));
    case CmpInst::FCMP_ULT: return mkV(M.bin(O_OR, un, lt)); case CmpInst::FCMP_ULE: return mkV(M.bin(O_OR, un, le)); default: return mkV(M.mkNot(eq));
  }
}

void Interp::run(DFunc *f0) {
  std::vector<Val> args; std::vector<uint8_t> argw;
  call(f0, args, argw, -1, 0, 0);
  while (!st.empty()) {
    Frame *fr = &st.back(); DFunc *f = fr->f; Val *R = fr->regs;
    DInst &d = f->code[fr->pc]; f->covered[fr->pc] = 1; fr->pc++;
    if (++instrs > optMaxInstr) err("no-termination", "more than " + std::to_string(optMaxInstr) + " instructions on one path");
    auto get = [&](Opd o) -> Val {
      if (o.s >= 0) return R[o.s];
      Val v = f->consts[~o.s];
      if (v.e == SENT) return mkV(newVar((unsigned)v.v));
      return v;
    };
    auto go = [&](int e) {
      Edge &E = f->edges[e];
      if (!E.moves.empty()) {
        Val tmp[64]; std::vector<Val> big; Val *t = tmp; size_t n = 0;
        for (auto &m : E.moves) n += m.n;
        if (n > 64) { big.resize(n); t = big.data(); }
        size_t k = 0;
        for (auto &m : E.moves) { if (m.n == 1) t[k++] = get(m.src); else for (int i = 0; i < m.n; i++) t[k++] = m.src.s >= 0 ? R[m.src.s + i] : f->consts[~m.src.s + i]; }
        k = 0;
        for (auto &m : E.moves) for (int i = 0; i < m.n; i++) R[m.dst + i] = t[k++];
      }
      fr->pc = f->blockStart[E.block];
    };
    switch (d.op) {
      case D_NOP: break;
      case D_MOV: R[d.dst] = get(d.a); break;
      case D_BIN: {
        Val a = get(d.a), b = get(d.b);
        if (d.imm == O_UDIV || d.imm == O_SDIV || d.imm == O_UREM || d.imm == O_SREM) {
          Val z = cmpInt(CmpInst::ICMP_EQ, d.w, b, C(0));
          if (z.e ? decide(z.e) : z.v) err("division-by-zero", "division by zero");
        }
        R[d.dst] = binop(this, (unsigned)d.imm, d.w, a, b); break;
      }
      case D_FNEG: R[d.dst] = mkV(M.un(O_FNEG, X(get(d.a), d.w), d.w)); break;
      case D_ICMP: R[d.dst] = cmpInt((unsigned)d.imm, d.w2, get(d.a), get(d.b)); break;
      case D_FCMP: R[d.dst] = cmpF((unsigned)d.imm, d.w2, get(d.a), get(d.b)); break;
      case D_LOAD: {
        uint64_t p = conc(get(d.a));
        if (!d.aux) { R[d.dst] = load(p, d.w); break; }
        unsupported.insert("aggregate load"); throw PathEnd{2};
      }
      case D_STORE: {
        if (d.aux) { unsupported.insert("aggregate store"); throw PathEnd{2}; }
        uint64_t p = conc(get(d.b)); store(p, get(d.a), d.w); break;
      }
      case D_GEP: {
        Val p = get(d.a); uint64_t k = d.imm; Expr *e = p.e; uint64_t base = p.v;
        for (auto &g : f->geps[d.aux]) {
          Val i = get(g.first); unsigned iw = (unsigned)(g.second >> 56); uint64_t sz = g.second & ((1ull << 56) - 1);
          if (!i.e) k += (uint64_t)sx64(i.v, iw) * sz;
          else { Expr *t = M.bin(O_MUL, M.sext(i.e, 64), M.cst(sz, 64)); e = e ? M.bin(O_ADD, e, t) : M.bin(O_ADD, t, M.cst(base, 64)); }
        }
        if (e) R[d.dst] = mkV(M.bin(O_ADD, e, M.cst(k, 64))); else R[d.dst] = C(base + k);
        break;
      }
      case D_BR: go(d.aux); break;
      case D_CBR: {
        Val c = get(d.a); bool t = c.e ? decide(c.e) : (c.v & 1);
        go(t ? d.aux : d.aux2); break;
      }
      case D_SWITCH: {
        Val c = get(d.a); int target = d.aux2;
        for (auto &k : f->switches[d.aux]) {
          Val q = cmpInt(CmpInst::ICMP_EQ, d.w2, c, C(k.first));
          if (q.e ? decide(q.e) : q.v) { target = k.second; break; }
        }
        go(target); break;
      }
      case D_RET: {
        std::vector<Val> rv;
        for (int i = 0; i < d.aux; i++) rv.push_back(d.a.s >= 0 ? R[d.a.s + i] : (f->consts[~d.a.s + i].e == SENT ? get(d.a) : f->consts[~d.a.s + i]));
        for (size_t id : fr->allocas) objs[id]->live = false;
        int dst = fr->retDst, n = fr->retN; st.pop_back();
        if (!st.empty() && dst >= 0) for (int i = 0; i < n && i < (int)rv.size(); i++) st.back().regs[dst + i] = rv[i];
        break;
      }
      case D_SELECT: {
        Val c = get(d.a);
        if (!c.e) R[d.dst] = (c.v & 1) ? get(d.b) : get(d.c);
        else R[d.dst] = mkV(M.ite(c.e, X(get(d.b), d.w), X(get(d.c), d.w)));
        break;
      }
      case D_CAST: {
        Val a = get(d.a);
        switch (d.imm) {
          case Instruction::Trunc: R[d.dst] = a.e ? mkV(M.extract(a.e, 0, d.w)) : C(a.v & maskw(d.w)); break;
          case Instruction::ZExt: R[d.dst] = a.e ? mkV(M.zext(a.e, d.w)) : C(a.v & maskw(d.w2)); break;
          case Instruction::SExt: R[d.dst] = a.e ? mkV(M.sext(a.e, d.w)) : C((uint64_t)sx64(a.v, d.w2) & maskw(d.w)); break;
          case Instruction::PtrToInt: R[d.dst] = a.e ? mkV(d.w < 64 ? M.extract(a.e, 0, d.w) : a.e) : C(a.v & maskw(d.w)); break;
          case Instruction::IntToPtr: R[d.dst] = a.e ? mkV(M.zext(a.e, 64)) : a; break;
          case Instruction::BitCast: R[d.dst] = a; break;
          case Instruction::FPExt: R[d.dst] = mkV(M.un(O_FPEXT, X(a, 32), 64)); break;
          case Instruction::FPTrunc: R[d.dst] = mkV(M.un(O_FPTRUNC, X(a, 64), 32)); break;
          case Instruction::SIToFP: R[d.dst] = mkV(M.un(O_SITOFP, X(a, d.w2), d.w)); break;
          case Instruction::UIToFP: R[d.dst] = mkV(M.un(O_UITOFP, X(a, d.w2), d.w)); break;
          case Instruction::FPToSI: R[d.dst] = mkV(M.un(O_FPTOSI, X(a, d.w2), d.w)); break;
          case Instruction::FPToUI: R[d.dst] = mkV(M.un(O_FPTOUI, X(a, d.w2), d.w)); break;
          default: unsupported.insert("cast"); throw PathEnd{2};
        }
        break;
      }
      case D_ALLOCA: {
        uint64_t n = d.imm * conc(get(d.a));
        if (n > (1 << OBJ_SHIFT) - 2 * OBJ_OFF) { unsupported.insert("huge stack array"); throw PathEnd{2}; }
        size_t id = newObj((uint32_t)n, K_STACK, false); fr->allocas.push_back(id); R[d.dst] = C(baseOf(id)); break;
      }
      case D_EXTRACTV: for (int i = 0; i < d.aux; i++) R[d.dst + i] = d.a.s >= 0 ? R[d.a.s + d.imm + i] : f->consts[~d.a.s + d.imm + i]; break;
      case D_INSERTV: {
        for (int i = 0; i < d.aux; i++) R[d.dst + i] = d.a.s >= 0 ? R[d.a.s + i] : f->consts[~d.a.s + i];
        if (d.aux2 == 1) R[d.dst + d.imm] = get(d.b);
        else for (int i = 0; i < d.aux2; i++) R[d.dst + d.imm + i] = d.b.s >= 0 ? R[d.b.s + i] : f->consts[~d.b.s + i];
        break;
      }
      case D_CALL: {
        const CallBase *CB = cast<CallBase>(d.I);
        uint64_t t = d.w2 ? d.imm : conc(get(d.a));
        if (t == 0) err("null-call", "call through a null function pointer");
        if (t < FUNC_BASE || (t - FUNC_BASE) / 16 >= funcs.size()) err("wild-call", "call through a pointer that is no function");
        DFunc *g = funcs[(t - FUNC_BASE) / 16];
        std::vector<Val> a; std::vector<uint8_t> aw; unsigned i = 0;
        for (Opd o : f->callArgs[d.aux]) {
          Type *T = CB->getArgOperand(i++)->getType(); int n = slotsOf(T);
          if (n == 1) { a.push_back(get(o)); aw.push_back((uint8_t)std::max(1u, widthOf(T))); }
          else for (int k = 0; k < n; k++) { a.push_back(o.s >= 0 ? R[o.s + k] : f->consts[~o.s + k]); aw.push_back(64); }
        }
        if (g->builtin == -1) { g->builtin = builtinOf(g->F); if (g->builtin == -1) g->builtin = -2; }
        if (g->builtin >= 0) {
          if (g->builtin >= B_INTR && g->builtin >= I_SADDO && g->builtin <= I_UMULO) {
            unsigned w = widthOf(CB->getArgOperand(0)->getType()); Val x = a[0], y = a[1];
            Op o = g->builtin == I_SADDO || g->builtin == I_UADDO ? O_ADD : g->builtin == I_SSUBO || g->builtin == I_USUBO ? O_SUB : O_MUL;
            Val r = binop(this, o, w, x, y), ov;
            if (!x.e && !y.e) {
              int64_t p = sx64(x.v, w), q = sx64(y.v, w); __int128 sr = o == O_ADD ? (__int128)p + q : o == O_SUB ? (__int128)p - q : (__int128)p * q;
              unsigned __int128 ux = x.v & maskw(w), uy = y.v & maskw(w), ur = o == O_ADD ? ux + uy : o == O_SUB ? ux - uy : ux * uy;
              bool sgn = g->builtin == I_SADDO || g->builtin == I_SSUBO || g->builtin == I_SMULO;
              ov = C(sgn ? sr != (__int128)sx64(r.v, w) : ur != (unsigned __int128)(r.v & maskw(w)));
            } else {
              Expr *ex = X(x, w), *ey = X(y, w), *er = X(r, w), *z = M.cst(0, w);
              auto neg = [&](Expr *e) { return M.bin(O_SLT, e, z); };
              if (g->builtin == I_SADDO || g->builtin == I_SSUBO || g->builtin == I_SMULO) { // bounds that hold for every value
                ExprMgr::SB bx = M.sb(ex), by = M.sb(ey); __int128 half = (__int128)1 << (w - 1), lo, hi;
                if (o == O_ADD) lo = bx.lo + by.lo, hi = bx.hi + by.hi; else if (o == O_SUB) lo = bx.lo - by.hi, hi = bx.hi - by.lo;
                else if (w > 62) lo = -half - 1, hi = half;
                else { __int128 c[4] = {bx.lo * by.lo, bx.lo * by.hi, bx.hi * by.lo, bx.hi * by.hi}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); }
                if (lo >= -half && hi < half) { R[d.dst] = r; R[d.dst + 1] = C(0); break; }
              }
              switch (g->builtin) {
                case I_SADDO: ov = mkV(M.bin(O_AND, M.bin(O_EQ, neg(ex), neg(ey)), M.mkNot(M.bin(O_EQ, neg(er), neg(ex))))); break;
                case I_SSUBO: ov = mkV(M.bin(O_AND, M.mkNot(M.bin(O_EQ, neg(ex), neg(ey))), M.mkNot(M.bin(O_EQ, neg(er), neg(ex))))); break;
                case I_UADDO: ov = mkV(M.bin(O_ULT, er, ex)); break;
                case I_USUBO: ov = mkV(M.bin(O_ULT, ex, ey)); break;
                case I_SMULO: ov = mkV(M.bin(O_SMULO, ex, ey)); break;
                default: ov = mkV(M.bin(O_UMULO, ex, ey)); break;
              }
            }
            R[d.dst] = r; R[d.dst + 1] = ov; break;
          }
          if (g->builtin == I_VASTART) { uint64_t p = conc(a[0]); store(p, C(48), 32); store(p + 4, C(304), 32); store(p + 8, C(fr->va), 64); store(p + 16, C(0), 64); break; }
          Val r = C(0);
          if (!builtin(g->builtin, CB, a, r)) { unsupported.insert("intrinsic " + g->F->getName().str()); throw PathEnd{2}; }
          if (d.dst >= 0) R[d.dst] = r;
          break;
        }
        if (g->F->isDeclaration()) { unsupported.insert("external function without a model: " + g->F->getName().str()); throw PathEnd{2}; }
        call(g, a, aw, d.dst, d.aux2, 0);
        break;
      }
      case D_UNREACH: err("unreachable", "unreachable code reached"); break;
      default: {
        std::string s; raw_string_ostream os(s); if (d.I) d.I->print(os);
        unsupported.insert("unsupported instruction: " + s); throw PathEnd{2};
      }
    }
  }
}

bool Interp::builtin(int b, const CallBase *I, std::vector<Val> &a, Val &r) {
  auto w0 = [&]() { return widthOf(I->getArgOperand(0)->getType()); };
  switch (b) {
    case B_BYTES: {
      uint64_t p = conc(a[0]), n = conc(a[1]); std::string nm = cstr(conc(a[2]));
      Input in{'b', nm, -1, (int)n, 0};
      for (uint64_t i = 0; i < n; i++) { Expr *v = newVar(8); if (i == 0) in.var = (int)pathVars.size() - 1; store(p + i, Val{0, v}, 8); }
      inputs.push_back(in); return true;
    }
    case B_VAR: case B_FVAR: {
      unsigned w = b == B_FVAR ? 64 : (unsigned)conc(a[0]); std::string nm = cstr(conc(a[b == B_FVAR ? 0 : 1]));
      Expr *v = newVar(w); inputs.push_back(Input{'v', nm, (int)pathVars.size() - 1, (int)w, 0});
      r = mkV(b == B_FVAR ? v : M.zext(v, 64)); return true;
    }
    case B_CHOOSE: {
      uint64_t n = conc(a[0]); std::string nm = cstr(conc(a[1])); uint64_t v;
      auto it = optCase.find(nm);
      if (it != optCase.end()) { v = it->second; if (v >= n) throw PathEnd{1}; } else v = choose(n);
      inputs.push_back(Input{'c', nm, -1, 0, v}); r = C(v); return true;
    }
    case B_ASSUME: {
      Val c = a[0];
      if (!c.e) { if (!(c.v & maskw(w0()))) throw PathEnd{1}; return true; }
      Expr *q = M.mkNot(M.bin(O_EQ, c.e, M.cst(0, c.e->w)));
      if (q->op == O_CONST) { if (!q->k) throw PathEnd{1}; return true; }
      if (prePos >= pre.size()) { if (S.may(q) == 0) throw PathEnd{1}; }
      S.add(q); return true;
    }
    case B_ASSERT: {
      Val c = a[0]; stats.asserts++; std::string msg = cstr(conc(a[1])); assertHit[msg]++;
      if (!c.e) {
        if (!(c.v & maskw(w0()))) { report("assert", "assert:" + msg, msg, nullptr); throw PathEnd{2}; }
        return true;
      }
      Expr *q = M.mkNot(M.bin(O_EQ, c.e, M.cst(0, c.e->w)));
      if (q->op == O_CONST) { if (!q->k) { report("assert", "assert:" + msg, msg, nullptr); throw PathEnd{2}; } return true; }
      if (prePos < pre.size()) { S.add(q); return true; } // decided when the prefix was first run
      stats.assertsSolver++;
      int f = S.may(M.mkNot(q), true);
      if (f == 1) { report("assert", "assert:" + msg, msg, M.mkNot(q)); if (S.may(q) == 0) throw PathEnd{2}; }
      if (f < 0) unsupported.insert("solver gave no answer for: " + msg);
      S.add(q); return true;
    }
    case B_REACH: reached[cstr(conc(a[0]))]++; return true;
    case B_ALLOC: r = C(alloc(conc(a[0]))); return true;
    case B_FREE: release(conc(a[0])); return true;
    case B_LIVE: r = C(liveHeap); return true;
    case B_HEAPSIZE: { uint64_t id = conc(a[0]) >> OBJ_SHIFT; if (id >= objs.size() || !id || objs[id]->kind != K_HEAP || !objs[id]->live || conc(a[0]) != baseOf(id)) err("invalid-free", "realloc of a pointer that is not a live allocation"); r = C(objs[id]->size); return true; }
    case B_LEAKSITE: { return true; }
    case B_END: throw PathEnd{0};
    case B_CONC: r = C(conc(a[0])); return true;
    case B_ISSYM: r = C(a[0].e != nullptr); return true;
    case B_OBS: { obs.push_back(a[1]); obsName.push_back(cstr(conc(a[0]))); obsW.push_back(64); return true; }
    case B_LOG: { fprintf(stderr, "log: %s %llu%s\n", cstr(conc(a[0])).c_str(), (unsigned long long)a[1].v, a[1].e ? " (symbolic)" : ""); return true; }
    case B_ERROR: err("modelled-error", cstr(conc(a[0]))); 
    case B_READABLE: { uint64_t p = conc(a[0]), n = conc(a[1]); uint32_t off; if (n) find(p, n, false, off); return true; }
    case B_FMTD: {
      uint64_t p = conc(a[0]), n = conc(a[1]); std::string f = cstr(conc(a[2])); double dv = bits2d(conc(a[3]), 64); char buf[512];
      int k = snprintf(buf, sizeof buf, f.c_str(), dv); if (k > 511) k = 511;
      for (int i = 0; i <= k && (uint64_t)i < n; i++) store(p + i, C((uint8_t)buf[i]), 8);
      r = C((uint64_t)k); return true;
    }
    case B_STRTOD: case B_STRTOF: case B_STRTOLD: {
      std::string s = cstr(conc(a[0])); char *e; double v = b == B_STRTOD ? strtod(s.c_str(), &e) : b == B_STRTOLD ? (double)strtold(s.c_str(), &e) : (double)strtof(s.c_str(), &e);
      if (conc(a[1])) store(conc(a[1]), C(conc(a[0]) + (uint64_t)(e - s.c_str())), 64);
      r = C(d2bits(v, 64)); return true;
    }
    case I_MEMCPY: { uint64_t n = conc(a[2]); if (n) copy(conc(a[0]), conc(a[1]), n); return true; }
    case I_MEMSET: { uint64_t p = conc(a[0]), n = conc(a[2]); if (!n) return true; uint32_t off; find(p, n, true, off); for (uint64_t i = 0; i < n; i++) store(p + i, a[1], 8); return true; }
    case I_VACOPY: copy(conc(a[0]), conc(a[1]), 24); return true;
    case I_TRAP: err("undefined-behaviour", "arithmetic the language leaves undefined (overflow, shift, ...)");
    case I_FABS: r = mkV(M.un(O_FABS, X(a[0], w0()), w0())); return true;
    case I_EXPECT: r = a[0]; return true;
    case I_SMAX: case I_SMIN: case I_UMAX: case I_UMIN: {
      unsigned w = w0(); Expr *x = X(a[0], w), *y = X(a[1], w);
      Expr *lt = M.bin(b == I_SMAX || b == I_SMIN ? O_SLT : O_ULT, x, y);
      r = mkV(b == I_SMAX || b == I_UMAX ? M.ite(lt, y, x) : M.ite(lt, x, y)); return true;
    }
    case I_ABS: { unsigned w = w0(); Expr *x = X(a[0], w); r = mkV(M.ite(M.bin(O_SLT, x, M.cst(0, w)), M.bin(O_SUB, M.cst(0, w), x), x)); return true; }
    case I_ISCONST: r = C(0); return true;
    case I_OBJSIZE: r = C(conc(a[1]) ? 0 : ~0ull); return true;
    case I_FMULADD: { unsigned w = w0(); r = mkV(M.bin(O_FADD, M.bin(O_FMUL, X(a[0], w), X(a[1], w)), X(a[2], w))); return true; }
    case I_STACKSAVE: r = C(0); return true;
    case I_POPC: { unsigned w = w0(); Expr *x = X(a[0], w), *n = M.cst(0, w); for (unsigned i = 0; i < w; i++) n = M.bin(O_ADD, n, M.zext(M.extract(x, i, 1), w)); r = mkV(n); return true; }
    case I_CTLZ: case I_CTTZ: {
      unsigned w = w0(); Expr *x = X(a[0], w), *n = M.cst(w, w);
      for (unsigned i = 0; i < w; i++) { unsigned bit = b == I_CTLZ ? i : w - 1 - i; n = M.ite(M.extract(x, bit, 1), M.cst(b == I_CTLZ ? w - 1 - bit : bit, w), n); }
      r = mkV(n); return true;
    }
    case I_FPCLASS: {
      unsigned w = w0(), ew = w == 64 ? 11 : 8, mw = w - ew - 1; if (w != 32 && w != 64) return false;
      Expr *x = X(a[0], w), *s = M.extract(x, w - 1, 1), *e = M.extract(x, mw, ew), *m = M.extract(x, 0, mw); uint64_t k = conc(a[1]);
      Expr *ns = M.mkNot(s), *e1 = M.bin(O_EQ, e, M.cst(maskw(ew), ew)), *e0 = M.bin(O_EQ, e, M.cst(0, ew)), *m0 = M.bin(O_EQ, m, M.cst(0, mw)), *q = M.extract(m, mw - 1, 1), *mn = M.mkNot(m0);
      Expr *nan = M.bin(O_AND, e1, mn), *inf = M.bin(O_AND, e1, m0), *nor = M.bin(O_AND, M.mkNot(e1), M.mkNot(e0)), *sub = M.bin(O_AND, e0, mn), *zer = M.bin(O_AND, e0, m0);
      Expr *cl[10] = {M.bin(O_AND, nan, M.mkNot(q)), M.bin(O_AND, nan, q), M.bin(O_AND, inf, s), M.bin(O_AND, nor, s), M.bin(O_AND, sub, s), M.bin(O_AND, zer, s), M.bin(O_AND, zer, ns), M.bin(O_AND, sub, ns), M.bin(O_AND, nor, ns), M.bin(O_AND, inf, ns)};
      Expr *o = M.cst(0, 1); for (int i = 0; i < 10; i++) if (k >> i & 1) o = M.bin(O_OR, o, cl[i]);
      r = mkV(o); return true;
    }
    case I_UADDSAT: { unsigned w = w0(); Expr *x = X(a[0], w), *s = M.bin(O_ADD, x, X(a[1], w)); r = mkV(M.ite(M.bin(O_ULT, s, x), M.cst(~0ull, w), s)); return true; }
    case I_FSHL: {
      bool left = cast<Function>(I->getCalledOperand())->getIntrinsicID() == Intrinsic::fshl;
      unsigned w = w0(); uint64_t k = conc(a[2]) & maskw(w); k %= w; Expr *x = X(a[0], w), *y = X(a[1], w);
      if (!k) { r = left ? a[0] : a[1]; return true; }
      unsigned l = (unsigned)(left ? k : w - k);
      r = mkV(M.bin(O_OR, M.bin(O_SHL, x, M.cst(l, w)), M.bin(O_LSHR, y, M.cst(w - l, w)))); return true;
    }
    case I_BSWAP: { unsigned w = w0(); Expr *x = X(a[0], w), *q = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *by = M.extract(x, i, 8); q = q ? M.concat(q, by) : by; } r = mkV(q); return true; }
    case I_USUBSAT: { unsigned w = w0(); Expr *x = X(a[0], w), *y = X(a[1], w); r = mkV(M.ite(M.bin(O_ULT, x, y), M.cst(0, w), M.bin(O_SUB, x, y))); return true; }
    default: return false;
  }
}
