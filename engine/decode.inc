static Expr *const SENT = (Expr *)1; // marks an undef operand: a fresh unconstrained value at each use
static const std::vector<std::string> BUILTINS = {
  "sx_bytes", "sx_var", "sx_choose", "sx_assume", "sx_assert", "sx_reach", "sx_alloc", "sx_free", "sx_live", "sx_end",
  "sx_conc", "sx_is_sym", "sx_obs", "sx_log", "sx_fmt_double", "sx_strtod", "sx_fvar", "sx_heap_size", "sx_leak_site",
  "sx_error", "sx_readable", "sx_strtof", "sx_strtold",
};
enum { B_BYTES, B_VAR, B_CHOOSE, B_ASSUME, B_ASSERT, B_REACH, B_ALLOC, B_FREE, B_LIVE, B_END, B_CONC, B_ISSYM, B_OBS, B_LOG,
       B_FMTD, B_STRTOD, B_FVAR, B_HEAPSIZE, B_LEAKSITE, B_ERROR, B_READABLE, B_STRTOF, B_STRTOLD, B_INTR = 100 };
enum { I_NONE = B_INTR, I_MEMCPY, I_MEMSET, I_NOP, I_VASTART, I_VACOPY, I_SADDO, I_UADDO, I_SSUBO, I_USUBO, I_SMULO, I_UMULO,
       I_TRAP, I_FABS, I_EXPECT, I_SMAX, I_SMIN, I_UMAX, I_UMIN, I_ABS, I_ISCONST, I_OBJSIZE, I_FMULADD, I_STACKSAVE, I_UADDSAT, I_USUBSAT, I_BSWAP, I_FSHL, I_POPC, I_CTLZ, I_CTTZ, I_FPCLASS };

static int builtinOf(const Function *F) {
  StringRef n = F->getName();
  for (size_t i = 0; i < BUILTINS.size(); i++) if (n == BUILTINS[i]) return (int)i;
  if (!n.startswith("llvm.")) return -1;
  switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return I_MEMCPY;
    case Intrinsic::memset: return I_MEMSET;
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    case Intrinsic::vaend: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: return I_NOP;
    case Intrinsic::vastart: return I_VASTART;
    case Intrinsic::vacopy: return I_VACOPY;
    case Intrinsic::sadd_with_overflow: return I_SADDO;
    case Intrinsic::uadd_with_overflow: return I_UADDO;
    case Intrinsic::ssub_with_overflow: return I_SSUBO;
    case Intrinsic::usub_with_overflow: return I_USUBO;
    case Intrinsic::smul_with_overflow: return I_SMULO;
    case Intrinsic::umul_with_overflow: return I_UMULO;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return I_TRAP;
    case Intrinsic::fabs: return I_FABS;
    case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::expect_with_probability: return I_EXPECT;
    case Intrinsic::ctpop: return I_POPC;
    case Intrinsic::ctlz: return I_CTLZ;
    case Intrinsic::cttz: return I_CTTZ;
    case Intrinsic::is_fpclass: return I_FPCLASS;
    case Intrinsic::smax: return I_SMAX;
    case Intrinsic::smin: return I_SMIN;
    case Intrinsic::umax: return I_UMAX;
    case Intrinsic::umin: return I_UMIN;
    case Intrinsic::abs: return I_ABS;
    case Intrinsic::is_constant: return I_ISCONST;
    case Intrinsic::objectsize: return I_OBJSIZE;
    case Intrinsic::fmuladd: return I_FMULADD;
    case Intrinsic::stacksave: return I_STACKSAVE;
    case Intrinsic::uadd_sat: return I_UADDSAT;
    case Intrinsic::usub_sat: return I_USUBSAT;
    case Intrinsic::fshl: return I_FSHL;
    case Intrinsic::fshr: return I_FSHL;
    case Intrinsic::bswap: return I_BSWAP;
    default: return I_NONE;
  }
}

static void decode(DFunc *f) {
  f->decoded = true;
  const Function &F = *f->F;
  std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, int> bb;
  int n = 0;
  for (auto &A : F.args()) { slot[&A] = n; f->argSlot.push_back(n); int k = slotsOf(A.getType()); f->argN.push_back(k); n += k; }
  int bi = 0;
  for (auto &B : F) { bb[&B] = bi++; for (auto &I : B) { int k = slotsOf(I.getType()); if (k) { slot[&I] = n; n += k; } } }
  f->nslots = n;
  auto opd = [&](const Value *V) -> Opd {
    auto it = slot.find(V);
    if (it != slot.end()) return Opd{it->second};
    int at = (int)f->consts.size();
    if (isa<UndefValue>(V) && widthOf(V->getType())) { f->consts.push_back(Val{widthOf(V->getType()), SENT}); return Opd{~at}; }
    if (auto *K = dyn_cast<Constant>(V)) { flatten(K, f->consts); return Opd{~at}; }
    throw Unsup{"operand"};
  };
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) -> int {
    Edge e; e.block = bb[to];
    for (auto &P : to->phis()) { Move m; m.dst = slot[&P]; m.n = slotsOf(P.getType()); m.src = opd(P.getIncomingValueForBlock(from)); e.moves.push_back(m); }
    f->edges.push_back(e);
    return (int)f->edges.size() - 1;
  };
  f->blockStart.resize(bi);
  for (auto &B : F) {
    f->blockStart[bb[&B]] = (int)f->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      DInst d; memset(&d, 0, sizeof d); d.I = &I; d.dst = slot.count(&I) ? slot[&I] : -1;
      d.w = (uint8_t)widthOf(I.getType());
      try {
        if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
          d.op = D_BIN; d.a = opd(I.getOperand(0)); d.b = opd(I.getOperand(1));
          if (!d.w) throw Unsup{"vector or wide arithmetic"};
          switch (BO->getOpcode()) {
            case Instruction::Add: d.imm = O_ADD; break; case Instruction::Sub: d.imm = O_SUB; break;
            case Instruction::Mul: d.imm = O_MUL; break; case Instruction::UDiv: d.imm = O_UDIV; break;
            case Instruction::SDiv: d.imm = O_SDIV; break; case Instruction::URem: d.imm = O_UREM; break;
            case Instruction::SRem: d.imm = O_SREM; break; case Instruction::And: d.imm = O_AND; break;
            case Instruction::Or: d.imm = O_OR; break; case Instruction::Xor: d.imm = O_XOR; break;
            case Instruction::Shl: d.imm = O_SHL; break; case Instruction::LShr: d.imm = O_LSHR; break;
            case Instruction::AShr: d.imm = O_ASHR; break; case Instruction::FAdd: d.imm = O_FADD; break;
            case Instruction::FSub: d.imm = O_FSUB; break; case Instruction::FMul: d.imm = O_FMUL; break;
            case Instruction::FDiv: d.imm = O_FDIV; break; default: throw Unsup{"binary operator"};
          }
        } else if (auto *IC = dyn_cast<ICmpInst>(&I)) {
          d.op = D_ICMP; d.a = opd(I.getOperand(0)); d.b = opd(I.getOperand(1)); d.w2 = (uint8_t)widthOf(I.getOperand(0)->getType()); d.imm = IC->getPredicate();
          if (!d.w2) throw Unsup{"wide compare"};
        } else if (auto *FC = dyn_cast<FCmpInst>(&I)) {
          d.op = D_FCMP; d.a = opd(I.getOperand(0)); d.b = opd(I.getOperand(1)); d.w2 = (uint8_t)widthOf(I.getOperand(0)->getType()); d.imm = FC->getPredicate();
          if (!d.w2) throw Unsup{"wide compare"};
        } else if (isa<LoadInst>(I)) {
          d.op = D_LOAD; d.a = opd(I.getOperand(0));
          if (!d.w) { d.aux = 1; }
        } else if (isa<StoreInst>(I)) {
          d.op = D_STORE; d.a = opd(I.getOperand(0)); d.b = opd(I.getOperand(1)); d.w = (uint8_t)widthOf(I.getOperand(0)->getType());
          if (!d.w) d.aux = 1;
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          d.op = D_GEP; d.a = opd(G->getPointerOperand());
          std::vector<std::pair<Opd, uint64_t>> vs; uint64_t off = 0; std::vector<std::pair<int, int>> ws;
          for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
            Value *V = it.getOperand();
            if (StructType *ST = it.getStructTypeOrNull()) off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(V)->getZExtValue());
            else {
              uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
              if (auto *CI = dyn_cast<ConstantInt>(V)) off += (uint64_t)CI->getSExtValue() * sz;
              else vs.push_back({opd(V), sz | ((uint64_t)widthOf(V->getType()) << 56)});
            }
          }
          d.imm = off; d.aux = (int)f->geps.size(); f->geps.push_back(vs);
        } else if (auto *BR = dyn_cast<BranchInst>(&I)) {
          if (BR->isUnconditional()) { d.op = D_BR; d.aux = edge(&B, BR->getSuccessor(0)); }
          else { d.op = D_CBR; d.a = opd(BR->getCondition()); d.aux = edge(&B, BR->getSuccessor(0)); d.aux2 = edge(&B, BR->getSuccessor(1)); }
        } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
          d.op = D_SWITCH; d.a = opd(SW->getCondition()); d.w2 = (uint8_t)widthOf(SW->getCondition()->getType());
          std::vector<std::pair<uint64_t, int>> cs;
          for (auto &c : SW->cases()) cs.push_back({c.getCaseValue()->getZExtValue(), edge(&B, c.getCaseSuccessor())});
          d.aux2 = edge(&B, SW->getDefaultDest());
          d.aux = (int)f->switches.size(); f->switches.push_back(cs);
        } else if (auto *R = dyn_cast<ReturnInst>(&I)) {
          d.op = D_RET; if (R->getReturnValue()) { d.a = opd(R->getReturnValue()); d.aux = slotsOf(R->getReturnValue()->getType()); }
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (CB->isInlineAsm()) throw Unsup{"inline assembly"};
          d.op = D_CALL; const Function *T = CB->getCalledFunction();
          if (T && T->isIntrinsic()) {
            int b = builtinOf(T);
            if (b == I_NOP) { d.op = D_NOP; f->code.push_back(d); continue; }
          }
          std::vector<Opd> as;
          for (auto &A : CB->args()) as.push_back(opd(A.get()));
          d.aux = (int)f->callArgs.size(); f->callArgs.push_back(as);
          d.aux2 = slotsOf(I.getType());
          if (T) d.imm = FUNC_BASE + 16ull * fid(T), d.w2 = 1; else d.a = opd(CB->getCalledOperand());
        } else if (isa<SelectInst>(I)) {
          d.op = D_SELECT; d.a = opd(I.getOperand(0)); d.b = opd(I.getOperand(1)); d.c = opd(I.getOperand(2));
          if (!d.w) throw Unsup{"aggregate select"};
        } else if (auto *CI = dyn_cast<CastInst>(&I)) {
          d.op = D_CAST; d.a = opd(I.getOperand(0)); d.w2 = (uint8_t)widthOf(I.getOperand(0)->getType()); d.imm = CI->getOpcode();
          if (!d.w || !d.w2) throw Unsup{"wide cast"};
        } else if (auto *AI = dyn_cast<AllocaInst>(&I)) {
          d.op = D_ALLOCA; d.imm = DL->getTypeAllocSize(AI->getAllocatedType()); d.a = opd(AI->getArraySize());
        } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
          d.op = D_EXTRACTV; d.a = opd(EV->getAggregateOperand()); d.imm = aggOff(EV->getAggregateOperand()->getType(), EV->getIndices()); d.aux = slotsOf(I.getType());
        } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
          d.op = D_INSERTV; 
          if (isa<UndefValue>(IV->getAggregateOperand())) { d.a = Opd{~(int)f->consts.size()}; for (int k = 0; k < slotsOf(I.getType()); k++) f->consts.push_back(C(0)); }
          else d.a = opd(IV->getAggregateOperand());
          d.b = opd(IV->getInsertedValueOperand()); d.imm = aggOff(I.getType(), IV->getIndices());
          d.aux = slotsOf(I.getType()); d.aux2 = slotsOf(IV->getInsertedValueOperand()->getType());
        } else if (isa<UnreachableInst>(I)) d.op = D_UNREACH;
        else if (I.getOpcode() == Instruction::FNeg) { d.op = D_FNEG; d.a = opd(I.getOperand(0)); }
        else if (isa<FreezeInst>(I)) { d.op = D_MOV; d.a = opd(I.getOperand(0)); }
        else throw Unsup{"instruction"};
      } catch (Unsup &u) {
        d.op = D_UNSUP; 
      }
      f->code.push_back(d);
    }
  }
  f->covered.assign(f->code.size(), 0);
}
