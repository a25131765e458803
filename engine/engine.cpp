#include "engine.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Linker/Linker.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
static const uint8_t HEAPFILL = 0xBE, STACKFILL = 0xA7;
static LLVMContext ctx;

void Engine::load(const std::vector<std::string>& files) {
  for (auto& f : files) {
    SMDiagnostic err; auto m = parseIRFile(f, err, ctx);
    if (!m) { err.print("symx", errs()); exit(3); }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m), Linker::Flags::None)) { fprintf(stderr, "link failed %s\n", f.c_str()); exit(3); }
  }
  DL = &M->getDataLayout();
  // symx_<name> overrides an undefined external <name>
  std::vector<Function*> fs; for (auto& f : *M) fs.push_back(&f);
  for (auto* f : fs) if (f->isDeclaration() && !f->isIntrinsic()) {
    if (Function* r = M->getFunction("symx_" + f->getName().str())) if (!r->isDeclaration()) f->replaceAllUsesWith(r);
  }
}
FuncInfo* Engine::fi(Function* f) {
  auto it = finfo.find(f); if (it != finfo.end()) return it->second;
  auto* x = new FuncInfo; x->F = f; finfo[f] = x; return x;
}
unsigned Engine::bits(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isVectorTy() || t->isStructTy() || t->isArrayTy()) return (unsigned)DL->getTypeSizeInBits(t);
  if (t->isHalfTy() || t->isBFloatTy()) return 16;
  return 0;
}
static Type* elemTy(Type* t, unsigned i) {
  if (auto* st = dyn_cast<StructType>(t)) return st->getElementType(i);
  if (auto* at = dyn_cast<ArrayType>(t)) return at->getElementType();
  return cast<FixedVectorType>(t)->getElementType();
}
static unsigned elemCount(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) return st->getNumElements();
  if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements();
  return cast<FixedVectorType>(t)->getNumElements();
}
static bool isAggTy(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static SVal zeroOf(Type* t) {
  if (isAggTy(t)) { std::vector<SVal> v; for (unsigned i = 0; i < elemCount(t); i++) v.push_back(zeroOf(elemTy(t, i))); return mkAgg(std::move(v)); }
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) return SVal(mkConst(0, t->getIntegerBitWidth()));
  return SVal((uint64_t)0);
}
static SVal fpConst(const APFloat& f, Type* t) {
  if (t->isX86_FP80Ty()) { APFloat d = f; bool l; d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return SVal(d.bitcastToAPInt().getZExtValue()); }
  return SVal(f.bitcastToAPInt().getZExtValue());
}
SVal Engine::constVal(Constant* c) { return constVal0(c); }
SVal Engine::constVal0(Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) return SVal(ci->getZExtValue());
    if (w > 128) { fatal = "wide const"; return SVal(mkConst(0,128)); }
    u128 v = (u128)ci->getValue().extractBitsAsZExtValue(64, 0) | ((u128)ci->getValue().extractBitsAsZExtValue(w - 64, 64) << 64);
    return SVal(mkConst(v, w));
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) return fpConst(cf->getValueAPF(), t);
  if (isa<ConstantPointerNull>(c)) return SVal((uint64_t)0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (auto* cs = dyn_cast<ConstantDataSequential>(c)) { std::vector<SVal> v; for (unsigned i = 0; i < cs->getNumElements(); i++) v.push_back(constVal0(cs->getElementAsConstant(i))); return mkAgg(std::move(v)); }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<SVal> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal0(cast<Constant>(ca->getOperand(i)))); return mkAgg(std::move(v)); }
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal0(ga->getAliasee());
    auto it = gaddr.find(gv); if (it == gaddr.end()) { fprintf(stderr, "no addr for %s\n", gv->getName().str().c_str()); return SVal((uint64_t)0); }
    return SVal(it->second);
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(ce); APInt off(64, 0); g->accumulateConstantOffset(*DL, off);
        return SVal(constVal0(cast<Constant>(g->getPointerOperand())).c + off.getZExtValue()); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { SVal v = constVal0(ce->getOperand(0)); unsigned w = bits(t); if (w < 64) v.c &= mask64(w); return v; }
      case Instruction::Trunc: { SVal v = constVal0(ce->getOperand(0)); v.c &= mask64(bits(t)); return v; }
      case Instruction::Sub: return SVal((constVal0(ce->getOperand(0)).c - constVal0(ce->getOperand(1)).c) & mask64(bits(t)));
      case Instruction::Add: return SVal((constVal0(ce->getOperand(0)).c + constVal0(ce->getOperand(1)).c) & mask64(bits(t)));
      case Instruction::ICmp: return cmp(ce->getPredicate(), constVal0(ce->getOperand(0)), constVal0(ce->getOperand(1)), bits(ce->getOperand(0)->getType()));
      default: break;
    }
  }
  if (isa<BlockAddress>(c)) return SVal((uint64_t)0);
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unhandled constant %s\n", s.c_str()); fatal = "constant"; return SVal((uint64_t)0);
}
void Engine::initConst(State& s, uint64_t addr, Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
    Obj* o = s.mem.findW(addr); StringRef d = ca->getRawDataValues(); memcpy(&s.mem.contentsW(o)->b[addr - o->base], d.data(), d.size()); return; }
  if (isa<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < c->getNumOperands(); i++) initConst(s, addr + sl->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
  if (isa<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initConst(s, addr + i * es, cast<Constant>(c->getOperand(i))); return; }
  storeT(s, addr, t, constVal(c));
}
void Engine::setupGlobals() {
  State& s = init;
  for (auto& f : *M) { uint64_t a = s.mem.alloc(16, OK_FUNC, 0); gaddr[&f] = a; FuncInfo* x = fi(&f); x->addr = a; funcByAddr[a] = x; }
  for (auto& g : M->globals()) { uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64; if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 256); gaddr[&g] = s.mem.alloc(sz, OK_GLOBAL, 0); }
  for (auto& g : M->globals()) { if (g.hasInitializer()) initConst(s, gaddr[&g], g.getInitializer());
    else if (g.getName() == "__libc_single_threaded") { Obj* o = s.mem.findW(gaddr[&g]); s.mem.contentsW(o)->b[0] = 1; } }
  for (auto& g : M->globals()) if (g.isConstant() && g.hasInitializer()) s.mem.findW(gaddr[&g])->ro = true;
  auto gv = [&](const char* n) -> uint64_t { if (auto* g = M->getNamedGlobal(n)) return gaddr[g] + 16; return 0; };
  tiVtSi = gv("_ZTVN10__cxxabiv120__si_class_type_infoE"); tiVtVmi = gv("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); tiVtClass = gv("_ZTVN10__cxxabiv117__class_type_infoE");
}
uint64_t Engine::funcAddr(const std::string& n) { auto* f = M->getFunction(n); return f ? gaddr[f] : 0; }

// ---------------------------------------------------------------- compile
void Engine::compile(FuncInfo* fn) {
  if (fn->compiled) return; fn->compiled = true;
  Function& F = *fn->F;
  std::unordered_map<const llvm::Value*, int> reg; unsigned n = 0;
  for (auto& a : F.args()) { reg[&a] = n; fn->args.push_back({(int)n, bits(a.getType())}); n++; }
  std::unordered_map<const BasicBlock*, uint32_t> bid; uint32_t bi = 0;
  for (auto& B : F) { bid[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  fn->nregs = n; fn->blocks.resize(bi);
  auto opnd = [&](llvm::Value* v) -> Opnd { Opnd o; auto it = reg.find(v); if (it != reg.end()) { o.reg = it->second; return o; }
    if (auto* c = dyn_cast<Constant>(v)) o.v = constVal(c); return o; };
  for (auto& B : F) {
    BlockInfo& bb = fn->blocks[bid[&B]]; bb.start = fn->code.size(); bb.bb = &B;
    for (auto& P : B.phis()) {
      for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
        uint32_t pb = bid[P.getIncomingBlock(i)];
        auto it = bb.predIdx.find(pb); uint32_t ix;
        if (it == bb.predIdx.end()) { ix = bb.phis.size(); bb.predIdx[pb] = ix; bb.phis.emplace_back(); } else ix = it->second;
        bool dup = false; for (auto& mv : bb.phis[ix]) if (mv.dst == reg[&P]) dup = true;
        if (!dup) bb.phis[ix].push_back({reg[&P], opnd(P.getIncomingValue(i))});
      }
    }
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      Inst in; in.op = I.getOpcode(); in.I = &I; in.ty = I.getType(); if (!I.getType()->isVoidTy()) { in.dst = reg[&I]; in.w = bits(I.getType()); }
      in.isScalar = !isAggTy(I.getType());
      switch (I.getOpcode()) {
        case Instruction::Br: { auto& b = cast<BranchInst>(I); if (b.isConditional()) { in.o.push_back(opnd(b.getCondition())); in.t1 = bid[b.getSuccessor(0)]; in.t2 = bid[b.getSuccessor(1)]; } else in.t1 = bid[b.getSuccessor(0)]; break; }
        case Instruction::Switch: { auto& b = cast<SwitchInst>(I); in.o.push_back(opnd(b.getCondition())); in.w = bits(b.getCondition()->getType()); in.t1 = bid[b.getDefaultDest()]; for (auto& c : b.cases()) in.scaled.push_back({(int)bid[c.getCaseSuccessor()], (int64_t)c.getCaseValue()->getZExtValue()}); break; }
        case Instruction::GetElementPtr: {
          auto& g = cast<GetElementPtrInst>(I); in.o.push_back(opnd(g.getPointerOperand()));
          if (g.getType()->isVectorTy()) {  }
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            llvm::Value* ix = it.getOperand();
            if (auto* st = it.getStructTypeOrNull()) in.coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            else { int64_t sc = (int64_t)it.getSequentialElementStride(*DL); if (auto* ci = dyn_cast<ConstantInt>(ix)) in.coff += ci->getSExtValue() * sc; else { in.scaled.push_back({(int)in.o.size(), sc, bits(ix->getType()->getScalarType())}); in.o.push_back(opnd(ix)); in.o.back().v.g = nullptr; in.w2 = bits(ix->getType()->getScalarType()); } }
          }
          break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto& c = cast<CallBase>(I);
          llvm::Value* cv = c.getCalledOperand()->stripPointerCasts();
          if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
          in.callee = dyn_cast<Function>(cv);
          if (in.callee) in.cf = fi(in.callee);
          for (auto& a : c.args()) { if (a->getType()->isMetadataTy()) in.o.push_back(Opnd()); else in.o.push_back(opnd(a)); }
          in.o.push_back(opnd(c.getCalledOperand()));
          if (auto* iv = dyn_cast<InvokeInst>(&I)) { in.t1 = bid[iv->getNormalDest()]; in.t2 = bid[iv->getUnwindDest()]; }
          if (in.callee && in.callee->isDeclaration()) {
            std::string nm = in.callee->getName().str();
            in.handler = findHandler(nm);
          } else if (in.callee) { int h = -1; auto it = handlerIdx.find(in.callee->getName().str()); if (it != handlerIdx.end()) h = it->second; in.handler = h; }
          break; }
        case Instruction::ExtractValue: { for (auto& op : I.operands()) in.o.push_back(opnd(op)); for (unsigned x : cast<ExtractValueInst>(I).indices()) in.scaled.push_back({(int)x, 0}); break; }
        case Instruction::InsertValue: { for (auto& op : I.operands()) in.o.push_back(opnd(op)); for (unsigned x : cast<InsertValueInst>(I).indices()) in.scaled.push_back({(int)x, 0}); break; }
        case Instruction::ICmp: case Instruction::FCmp: in.pred = cast<CmpInst>(I).getPredicate(); for (auto& op : I.operands()) in.o.push_back(opnd(op)); in.w2 = bits(I.getOperand(0)->getType()->getScalarType()); break;
        case Instruction::Alloca: { auto& a = cast<AllocaInst>(I); in.o.push_back(opnd(a.getArraySize())); in.coff = DL->getTypeAllocSize(a.getAllocatedType()); break; }
        case Instruction::Load: in.o.push_back(opnd(I.getOperand(0))); in.pred = cast<LoadInst>(I).isAtomic(); break;
        case Instruction::Store: for (auto& op : I.operands()) in.o.push_back(opnd(op)); in.ty = I.getOperand(0)->getType(); in.w = bits(in.ty); in.pred = cast<StoreInst>(I).isAtomic(); break;
        case Instruction::AtomicRMW: for (auto& op : I.operands()) in.o.push_back(opnd(op)); in.pred = cast<AtomicRMWInst>(I).getOperation(); break;
        case Instruction::AtomicCmpXchg: for (auto& op : I.operands()) in.o.push_back(opnd(op)); in.ty = I.getOperand(1)->getType(); in.w = bits(in.ty); break;
        case Instruction::LandingPad: break;
        default: for (auto& op : I.operands()) { if (isa<BasicBlock>(op)) in.o.push_back(Opnd()); else in.o.push_back(opnd(op)); } if (I.getNumOperands()) in.w2 = bits(I.getOperand(0)->getType()->getScalarType()); in.w = in.dst >= 0 ? bits(I.getType()->getScalarType()) : 0; break;
      }
      fn->code.push_back(std::move(in));
    }
  }
}
// ---------------------------------------------------------------- values
SVal Engine::norm(State& s, SVal v) {
  if (!v.e || s.fixed.empty()) return v;
  for (uint32_t id : *v.e->syms) if (!s.fixed.count(id)) return v;
  u128 r = evalExpr(v.e, s.model);
  return SVal(mkConst(r, v.e->width));
}
SVal Engine::get(State& s, const Opnd& o) {
  if (o.reg < 0) return o.v;
  SVal& r = s.F().regs[o.reg];
  if (r.e && !s.fixed.empty()) { SVal v = norm(s, r); if (!v.e) r = v; return v; }
  return r;
}
static Kind binKind(unsigned op) {
  switch (op) {
    case Instruction::Add: return K_ADD; case Instruction::Sub: return K_SUB; case Instruction::Mul: return K_MUL; case Instruction::UDiv: return K_UDIV; case Instruction::SDiv: return K_SDIV;
    case Instruction::URem: return K_UREM; case Instruction::SRem: return K_SREM; case Instruction::And: return K_AND; case Instruction::Or: return K_OR; case Instruction::Xor: return K_XOR;
    case Instruction::Shl: return K_SHL; case Instruction::LShr: return K_LSHR; case Instruction::AShr: return K_ASHR;
  }
  abort();
}
SVal Engine::binop(unsigned op, const SVal& a, const SVal& b, unsigned w) {
  if (a.g) { std::vector<SVal> r; for (size_t i = 0; i < a.g->v.size(); i++) r.push_back(binop(op, a.g->v[i], b.g->v[i], w)); return mkAgg(std::move(r)); }
  if (!a.e && !b.e && w <= 64) {
    uint64_t m = mask64(w), x = a.c, y = b.c;
    switch (op) {
      case Instruction::Add: return SVal((x + y) & m); case Instruction::Sub: return SVal((x - y) & m); case Instruction::Mul: return SVal((x * y) & m);
      case Instruction::And: return SVal(x & y); case Instruction::Or: return SVal(x | y); case Instruction::Xor: return SVal(x ^ y);
      case Instruction::Shl: return SVal(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return SVal(y >= w ? 0 : x >> y);
      default: return SVal((uint64_t)evalBin(binKind(op), x, y, w));
    }
  }
  return SVal(mkBin(binKind(op), toEx(a, w), toEx(b, w)));
}
SVal Engine::fbinop(unsigned op, const SVal& a, const SVal& b, unsigned w) {
  if (a.g) { std::vector<SVal> r; for (size_t i = 0; i < a.g->v.size(); i++) r.push_back(fbinop(op, a.g->v[i], b.g->v[i], w)); return mkAgg(std::move(r)); }
  Kind k = op == Instruction::FAdd ? K_FADD : op == Instruction::FSub ? K_FSUB : op == Instruction::FMul ? K_FMUL : op == Instruction::FDiv ? K_FDIV : K_FREM;
  if (w == 80) w = 64;
  if (!a.e && !b.e) return SVal((uint64_t)evalFBin(k, a.c, b.c, w));
  return SVal(mkFBin(k, toEx(a, w), toEx(b, w)));
}
SVal Engine::cmp(unsigned p, const SVal& a, const SVal& b, unsigned w) {
  if (a.g) { std::vector<SVal> r; for (size_t i = 0; i < a.g->v.size(); i++) r.push_back(cmp(p, a.g->v[i], b.g->v[i], w)); return mkAgg(std::move(r)); }
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c; int64_t sx = sext64(x, w), sy = sext64(y, w);
    switch (p) {
      case CmpInst::ICMP_EQ: return SVal((uint64_t)(x == y)); case CmpInst::ICMP_NE: return SVal((uint64_t)(x != y));
      case CmpInst::ICMP_ULT: return SVal((uint64_t)(x < y)); case CmpInst::ICMP_ULE: return SVal((uint64_t)(x <= y)); case CmpInst::ICMP_UGT: return SVal((uint64_t)(x > y)); case CmpInst::ICMP_UGE: return SVal((uint64_t)(x >= y));
      case CmpInst::ICMP_SLT: return SVal((uint64_t)(sx < sy)); case CmpInst::ICMP_SLE: return SVal((uint64_t)(sx <= sy)); case CmpInst::ICMP_SGT: return SVal((uint64_t)(sx > sy)); case CmpInst::ICMP_SGE: return SVal((uint64_t)(sx >= sy));
    }
  }
  Ex x = toEx(a, w), y = toEx(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return SVal(mkEq(x, y)); case CmpInst::ICMP_NE: return SVal(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_ULT: return SVal(mkBin(K_ULT, x, y)); case CmpInst::ICMP_ULE: return SVal(mkBin(K_ULE, x, y)); case CmpInst::ICMP_UGT: return SVal(mkBin(K_ULT, y, x)); case CmpInst::ICMP_UGE: return SVal(mkBin(K_ULE, y, x));
    case CmpInst::ICMP_SLT: return SVal(mkBin(K_SLT, x, y)); case CmpInst::ICMP_SLE: return SVal(mkBin(K_SLE, x, y)); case CmpInst::ICMP_SGT: return SVal(mkBin(K_SLT, y, x)); case CmpInst::ICMP_SGE: return SVal(mkBin(K_SLE, y, x));
  }
  abort();
}
Ex isNanE(Ex a);
static Ex nanE(Ex a) { return a->isConst() ? mkNot(mkFBin(K_FEQ, a, a)) : isNanE(a); }
SVal Engine::fcmp(unsigned p, const SVal& a, const SVal& b, unsigned w) {
  if (a.g) { std::vector<SVal> r; for (size_t i = 0; i < a.g->v.size(); i++) r.push_back(fcmp(p, a.g->v[i], b.g->v[i], w)); return mkAgg(std::move(r)); }
  if (w == 80) w = 64;
  Ex x = toEx(a, w), y = toEx(b, w);
  auto EQ = [&] { return mkFBin(K_FEQ, x, y); }; auto LT = [&] { return mkFBin(K_FLT, x, y); }; auto LE = [&] { return mkFBin(K_FLE, x, y); };
  auto GT = [&] { return mkFBin(K_FLT, y, x); }; auto GE = [&] { return mkFBin(K_FLE, y, x); };
  auto UNO = [&] { return mkOr(nanE(x), nanE(y)); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return SVal((uint64_t)0); case CmpInst::FCMP_TRUE: return SVal((uint64_t)1);
    case CmpInst::FCMP_OEQ: return SVal(EQ()); case CmpInst::FCMP_OGT: return SVal(GT()); case CmpInst::FCMP_OGE: return SVal(GE()); case CmpInst::FCMP_OLT: return SVal(LT()); case CmpInst::FCMP_OLE: return SVal(LE());
    case CmpInst::FCMP_ONE: return SVal(mkOr(LT(), GT())); case CmpInst::FCMP_ORD: return SVal(mkNot(UNO())); case CmpInst::FCMP_UNO: return SVal(UNO());
    case CmpInst::FCMP_UEQ: return SVal(mkNot(mkOr(LT(), GT()))); case CmpInst::FCMP_UGT: return SVal(mkNot(LE())); case CmpInst::FCMP_UGE: return SVal(mkNot(LT())); case CmpInst::FCMP_ULT: return SVal(mkNot(GE())); case CmpInst::FCMP_ULE: return SVal(mkNot(GT())); case CmpInst::FCMP_UNE: return SVal(mkNot(EQ()));
  }
  abort();
}
SVal Engine::castop(unsigned op, const SVal& a, unsigned w, unsigned w2) { // w dest, w2 src
  if (a.g) { std::vector<SVal> r; for (auto& x : a.g->v) r.push_back(castop(op, x, w, w2)); return mkAgg(std::move(r)); }
  switch (op) {
    case Instruction::ZExt: if (!a.e && w <= 64) return a; return SVal(mkZExt(toEx(a, w2), w));
    case Instruction::SExt: if (!a.e && w <= 64) return SVal((uint64_t)sext64(a.c, w2) & mask64(w)); return SVal(mkSExt(toEx(a, w2), w));
    case Instruction::Trunc: if (!a.e) return SVal(a.c & mask64(w)); return SVal(mkExtract(a.e, 0, w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (w == w2) return a; if (!a.e) return SVal(a.c & mask64(w)); return SVal(w < w2 ? mkExtract(a.e, 0, w) : mkZExt(a.e, w));
    case Instruction::FPToSI: return SVal(mkFUn(K_FTOSI, toEx(a, w2 == 80 ? 64 : w2), w));
    case Instruction::FPToUI: return SVal(mkFUn(K_FTOUI, toEx(a, w2 == 80 ? 64 : w2), w));
    case Instruction::SIToFP: return SVal(mkFUn(K_SITOF, toEx(a, w2), w == 80 ? 64 : w));
    case Instruction::UIToFP: return SVal(mkFUn(K_UITOF, toEx(a, w2), w == 80 ? 64 : w));
    case Instruction::FPExt: if (w == 80) { if (w2 == 64) return a; w = 64; } return SVal(mkFUn(K_FEXT, toEx(a, w2), w));
    case Instruction::FPTrunc: if (w2 == 80) { if (w == 64) return a; w2 = 64; } return SVal(mkFUn(K_FTRUNC, toEx(a, w2), w));
  }
  abort();
}
SVal Engine::select(const SVal& c, const SVal& a, const SVal& b, Type* t) {
  if (c.g) { std::vector<SVal> r; for (size_t i = 0; i < c.g->v.size(); i++) r.push_back(select(c.g->v[i], a.g->v[i], b.g->v[i], elemTy(t, i))); return mkAgg(std::move(r)); }
  if (!c.e) return c.c & 1 ? a : b;
  if (a.g) { std::vector<SVal> r; for (size_t i = 0; i < a.g->v.size(); i++) r.push_back(select(c, a.g->v[i], b.g->v[i], elemTy(t, i))); return mkAgg(std::move(r)); }
  unsigned w = bits(t); if (w == 80) w = 64;
  return SVal(mkIte(c.e, toEx(a, w), toEx(b, w)));
}
static Ex flatten(Engine& E, const SVal& v, Type* t) {
  if (v.g) { Ex r = nullptr; for (unsigned i = 0; i < v.g->v.size(); i++) { Ex x = flatten(E, v.g->v[i], elemTy(t, i)); r = r ? mkConcat(x, r) : x; } return r; }
  return E.toEx(v, E.bits(t));
}
SVal Engine::bitcastVal(const SVal& v, Type* from, Type* to) {
  if (!isAggTy(from) && !isAggTy(to)) return v;
  if (from == to) return v;
  // element-wise regroup via bytes
  std::vector<Ex> bytes;
  auto push = [&](const SVal& x, unsigned w) { Ex e = toEx(x, w); if (w < 8) return false; for (unsigned i = 0; i < w; i += 8) bytes.push_back(mkExtract(e, i, 8)); return true; };
  bool ok = true;
  if (isAggTy(from)) { for (unsigned i = 0; i < v.g->v.size(); i++) ok &= push(v.g->v[i], bits(elemTy(from, i))); }
  else if (bits(from) >= 8 && !(isAggTy(to) && bits(elemTy(to, 0)) < 8)) push(v, bits(from)); else ok = false;
  if (!ok || (isAggTy(to) && bits(elemTy(to, 0)) < 8)) { // bit granular
    Ex all = flatten(*this, v, from);
    if (!isAggTy(to)) return SVal(all);
    std::vector<SVal> r; unsigned ew = bits(elemTy(to, 0)); for (unsigned i = 0; i < elemCount(to); i++) r.push_back(SVal(mkExtract(all, i * ew, ew))); return mkAgg(std::move(r));
  }
  auto grab = [&](size_t off, unsigned w) { Ex r = nullptr; for (unsigned i = 0; i < w / 8; i++) r = r ? mkConcat(bytes[off + i], r) : bytes[off + i]; return SVal(r); };
  if (!isAggTy(to)) return grab(0, bits(to));
  std::vector<SVal> r; unsigned ew = bits(elemTy(to, 0)); for (unsigned i = 0; i < elemCount(to); i++) r.push_back(grab(i * ew / 8, ew)); return mkAgg(std::move(r));
}
// ---------------------------------------------------------------- constraints
Ex Engine::simpRec(State& s, Ex e, unsigned& budget) {
  if (e->isConst()) return e;
  auto f = s.facts.find(e); if (f != s.facts.end()) return f->second;
  if (e->kind == K_SYM) { auto g = s.fixed.find(e->imm); return g == s.fixed.end() ? e : mkConst(g->second, e->width); }
  auto it = s.memo->find(e); if (it != s.memo->end()) return it->second;
  if (!budget) return e; budget--;
  Ex r;
  if (e->kind == K_ITE) { Ex c = simpRec(s, e->a, budget); if (c->isConst()) r = simpRec(s, c->val ? e->b : e->c, budget); else { Ex t = simpRec(s, e->b, budget), f2 = simpRec(s, e->c, budget); r = c == e->a && t == e->b && f2 == e->c ? e : mkIte(c, t, f2); } }
  else { Ex a = e->a ? simpRec(s, e->a, budget) : nullptr, b = e->b ? simpRec(s, e->b, budget) : nullptr, c = e->c ? simpRec(s, e->c, budget) : nullptr; r = a == e->a && b == e->b && c == e->c ? e : rebuild(e, a, b, c); }
  if (r != e && !r->isConst()) { auto g = s.facts.find(r); if (g != s.facts.end()) r = g->second; }
  if (budget) s.memo->emplace(e, r);
  return r;
}
Ex Engine::simp(State& s, Ex e) {
  if (e->isConst() || s.facts.empty()) return e;
  auto f = s.facts.find(e); if (f != s.facts.end()) return f->second;
  if (!e->ite && e->width != 1) return e;
  if (!s.memo) s.memo = std::make_shared<std::unordered_map<Ex, Ex>>();
  unsigned budget = 3000; return simpRec(s, e, budget);
}
void Engine::addPC(State& s, Ex c) {
  if (c->isConst()) return;
  if (c->kind == K_AND) { addPC(s, c->a); addPC(s, c->b); return; }
  if (c->kind == K_XOR && c->a->isConst() && c->b->kind == K_OR) { addPC(s, mkNot(c->b->a)); addPC(s, mkNot(c->b->b)); return; }
  { Ex d = simp(s, c); if (d != c) { if (d->isConst()) { if (d->val) return; } else { addPC(s, d); return; } } }
  for (size_t i = s.pc.size(); i-- > 0 && i + 40 > s.pc.size();) if (s.pc[i] == c) return;
  s.pc.push_back(c); s.memo.reset();
  s.facts[c] = mkTrue(); s.facts[mkNot(c)] = mkFalse();
  if (c->kind == K_EQ && c->a->isConst() && c->b->kind == K_SYM) s.fixed[c->b->imm] = c->a->val;
  else if (c->kind == K_EQ && c->a->isConst()) s.facts[c->b] = c->a;
  else if (c->kind == K_SYM) s.fixed[c->imm] = 1;
  else if (c->kind == K_XOR && c->a->isConst() && c->b->kind == K_SYM) s.fixed[c->b->imm] = 0;
}
bool Engine::feasible(State& s, Ex c, Model& m) {
  if (evalExpr(c, s.model)) { m = s.model; return true; }
  SatRes r = solver.sat(s.pc, c, s.model, m);
  if (r == UNKNOWN) { inconclusive++; return false; }
  return r == SAT;
}
State* Engine::clone(State& s) { State* n = new State(s); n->id = nextStateId++; n->depth++; if (n->depth > maxDepth) maxDepth = n->depth; forks++; return n; }
int Engine::branch(State& s, Ex cond, bool& taken, bool) {
  // decides for the current state; a clone following the other side is left un-advanced on the worklist
  cond = simp(s, cond); if (cond->isConst()) { taken = cond->val; return taken; }
  bool v = evalExpr(cond, s.model) != 0;
  Ex other = v ? mkNot(cond) : cond;
  Model m; SatRes r = solver.sat(s.pc, other, s.model, m);
  taken = v;
  if (r == UNKNOWN) { inconclusive++; }
  if (r == SAT) { State* n = clone(s); n->model = m; addPC(*n, other); work.push_back(n); addPC(s, v ? cond : mkNot(cond)); return 2; }
  return v;
}
bool Engine::assume(State& s, Ex c) {
  c = simp(s, c); if (c->isConst()) return c->val;
  Model m; if (!feasible(s, c, m)) return false;
  s.model = m; addPC(s, c); return true;
}
uint64_t Engine::concretize(State& s, const SVal& v0, unsigned w) {
  SVal v = simpV(s, v0);
  if (!v.e) return v.c;
  u128 x = evalExpr(v.e, s.model); Ex eq = mkEq(mkConst(x, v.e->width), v.e);
  Model m; SatRes r = solver.sat(s.pc, mkNot(eq), s.model, m);
  if (r == UNKNOWN) inconclusive++;
  if (r == SAT) { State* n = clone(s); n->model = m; addPC(*n, mkNot(eq)); work.push_back(n); }
  addPC(s, eq);
  return (uint64_t)x;
}
// ---------------------------------------------------------------- memory
SVal Engine::readObj(const Obj* o, uint64_t off, unsigned n) {
  const Contents* c = o->c;
  bool symb = false;
  if (!c->s.empty()) for (unsigned i = 0; i < n; i++) if (c->s[off + i]) { symb = true; break; }
  if (!symb && n <= 8) { uint64_t v = 0; memcpy(&v, &c->b[off], n); return SVal(v); }
  Ex r = nullptr; for (unsigned i = 0; i < n; i++) { Ex b = !c->s.empty() && c->s[off + i] ? c->s[off + i] : mkConst(c->b[off + i], 8); r = r ? mkConcat(b, r) : b; }
  return SVal(r);
}
SVal Engine::readN(State& s, uint64_t addr, unsigned n) { const Obj* o = s.mem.find(addr); return simpV(s, readObj(o, addr - o->base, n)); }
void Engine::writeN(State& s, uint64_t addr, unsigned n, const SVal& v) {
  Obj* o = s.mem.findW(addr); Contents* c = s.mem.contentsW(o); uint64_t off = addr - o->base;
  if (!v.e) { memcpy(&c->b[off], &v.c, n); if (!c->s.empty()) for (unsigned i = 0; i < n; i++) c->s[off + i] = nullptr; return; }
  Ex e = v.e; if (e->width < n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) { Ex b = mkExtract(e, i * 8, 8); if (b->isConst()) { c->b[off + i] = (uint8_t)b->val; if (!c->s.empty()) c->s[off + i] = nullptr; } else { if (c->s.empty()) c->s.assign(c->b.size(), nullptr); c->s[off + i] = b; } }
}
SVal Engine::loadT(State& s, uint64_t addr, Type* t) {
  if (isAggTy(t)) {
    std::vector<SVal> v; unsigned n = elemCount(t);
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < n; i++) v.push_back(loadT(s, addr + sl->getElementOffset(i), elemTy(t, i))); }
    else if (t->isVectorTy() && bits(elemTy(t, 0)) < 8) { unsigned tb = bits(t); SVal raw = readN(s, addr, (tb + 7) / 8); Ex e = toEx(raw, ((tb + 7) / 8) * 8); unsigned ew = bits(elemTy(t, 0)); for (unsigned i = 0; i < n; i++) v.push_back(SVal(mkExtract(e, i * ew, ew))); }
    else { uint64_t es = DL->getTypeAllocSize(elemTy(t, 0)); for (unsigned i = 0; i < n; i++) v.push_back(loadT(s, addr + i * es, elemTy(t, 0))); }
    return mkAgg(std::move(v));
  }
  if (t->isX86_FP80Ty()) return readN(s, addr, 8);
  unsigned w = bits(t), n = (w + 7) / 8; SVal v = readN(s, addr, n);
  if (w % 8) { if (v.e) return SVal(mkExtract(v.e, 0, w)); v.c &= mask64(w); }
  return v;
}
void Engine::storeT(State& s, uint64_t addr, Type* t, const SVal& v) {
  if (isAggTy(t)) {
    unsigned n = elemCount(t);
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < n; i++) storeT(s, addr + sl->getElementOffset(i), elemTy(t, i), v.g->v[i]); }
    else if (t->isVectorTy() && bits(elemTy(t, 0)) < 8) { Ex e = flatten(*this, v, t); unsigned nb = (e->width + 7) / 8; writeN(s, addr, nb, SVal(mkZExt(e, nb * 8))); }
    else { uint64_t es = DL->getTypeAllocSize(elemTy(t, 0)); for (unsigned i = 0; i < n; i++) storeT(s, addr + i * es, elemTy(t, 0), v.g->v[i]); }
    return;
  }
  if (t->isX86_FP80Ty()) { writeN(s, addr, 8, v); writeN(s, addr + 8, 8, SVal((uint64_t)0)); return; }
  unsigned w = bits(t), n = (w + 7) / 8;
  if (v.e && v.e->width < n * 8) { writeN(s, addr, n, SVal(mkZExt(v.e, n * 8))); return; }
  writeN(s, addr, n, v);
}
bool Engine::checkAccess(State& s, uint64_t addr, uint64_t n, bool w, std::string& why) {
  const Obj* o = s.mem.find(addr); char b[160];
  if (!o || o->kind == OK_FUNC) { snprintf(b, 160, "%s of %llu bytes at invalid address 0x%llx", w ? "write" : "read", (unsigned long long)n, (unsigned long long)addr); why = addr < 4096 ? std::string("null pointer ") + (w ? "write" : "read") + (getenv("SYMX_ADDR") ? std::string(" ") + b : std::string()) : b; return false; }
  if (o->freed) { why = std::string("use after free (") + (w ? "write" : "read") + ")"; return false; }
  uint64_t off = addr - o->base;
  if (off > o->size || n > o->size - off) { snprintf(b, 160, "out-of-bounds %s of %llu bytes at offset %llu of a %llu-byte %s object", w ? "write" : "read", (unsigned long long)n, (unsigned long long)off, (unsigned long long)o->size, o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : "global"); why = b; return false; }
  if (w && o->ro) { why = "write to constant"; return false; }
  return true;
}
static unsigned tzE(Ex e) {
  switch (e->kind) {
    case K_CONST: { if (e->val == 0) return e->width; unsigned n = 0; while (!((e->val >> n) & 1)) n++; return n; }
    case K_CONCAT: { unsigned l = tzE(e->b); return l < e->b->width ? l : e->b->width + tzE(e->a); }
    case K_ADD: case K_SUB: case K_OR: case K_XOR: return std::min(tzE(e->a), tzE(e->b));
    case K_AND: return std::max(tzE(e->a), tzE(e->b));
    case K_MUL: return std::min<unsigned>(e->width, tzE(e->a) + tzE(e->b));
    case K_ZEXT: case K_SEXT: { unsigned l = tzE(e->a); return l == e->a->width ? e->width : l; }
    case K_ITE: return std::min(tzE(e->b), tzE(e->c));
    case K_EXTRACT: { unsigned l = tzE(e->a); return l > e->imm ? std::min<unsigned>(l - e->imm, e->width) : 0; }
    default: return 0;
  }
}
HR Engine::resolve(State& s, const SVal& addr0, uint64_t n, bool w, uint64_t& out, bool& symbolic, Ex& off, uint64_t& lo, uint64_t& hi, uint64_t& stride) {
  symbolic = false; std::string why; SVal addr = addr0.e ? simpV(s, addr0) : addr0;
  if (!addr.e) { if (checkAccess(s, addr.c, n, w, why)) { out = addr.c; return H_DONE; } return fault(s, "memory", why); }
  uint64_t a0 = (uint64_t)evalExpr(addr.e, s.model);
  const Obj* o = s.mem.find(a0);
  if (!o || o->kind == OK_FUNC || o->freed || n > o->size || a0 - o->base > o->size - n || (w && o->ro)) {
    checkAccess(s, a0, n, w, why); if (why.empty()) why = "invalid access";
    // the fault is feasible under the current model: report, then look for a feasible valid address
    report(s, "memory: " + why, why, s.model);
    uint64_t slot = a0 >> SLOT_BITS; Ex c;
    if (o && o->kind != OK_FUNC && !o->freed && n <= o->size && !(w && o->ro)) { Ex of = mkBin(K_SUB, addr.e, mkConst(o->base, 64)); c = mkBin(K_ULE, of, mkConst(o->size - n, 64)); Model m; if (feasible(s, c, m)) { s.model = m; addPC(s, c); return H_RETRY; } }
    c = mkNot(mkEq(mkConst(slot, 64 - SLOT_BITS), mkExtract(addr.e, SLOT_BITS, 64 - SLOT_BITS)));
    static int guard = 0; if (++guard > 200) { endPath(s, false); return H_DEAD; }
    if (!assume(s, c)) { endPath(s, false); return H_DEAD; }
    return H_RETRY;
  }
  Ex of = mkBin(K_SUB, addr.e, mkConst(o->base, 64));
  Ex inb = mkBin(K_ULE, of, mkConst(o->size - n, 64));
  if (!inb->isConst()) {
    Model m; SatRes r = solver.sat(s.pc, mkNot(inb), s.model, m);
    if (r == UNKNOWN) inconclusive++;
    if (r == SAT) { State* c = clone(s); c->model = m; addPC(*c, mkNot(inb)); work.push_back(c); addPC(s, inb); }
  } else if (!inb->val) { return fault(s, "memory", "out-of-bounds access"); }
  uint64_t maxOff = o->size - n; if (of->umax < maxOff) maxOff = (uint64_t)of->umax;
  stride = 1ULL << std::min(tzE(of), 20u);
  if (maxOff / stride > 4096) { out = concretize(s, addr, 64); return H_DONE; }
  uint64_t cap = w ? opt.iteWriteCap : opt.iteReadCap;
  lo = 0; hi = maxOff;
  if (maxOff / stride + 1 > cap) {
    // tighten with the solver (binary search on bounds)
    auto can = [&](Ex c) { Model m; if (evalExpr(c, s.model)) return true; return solver.sat(s.pc, c, s.model, m) != UNSAT; };
    uint64_t L = 0, H = maxOff; while (L < H) { uint64_t mid = L + (H - L) / 2; if (can(mkBin(K_ULE, of, mkConst(mid, 64)))) H = mid; else L = mid + 1; } lo = L / stride * stride;
    L = lo; H = maxOff; while (L < H) { uint64_t mid = L + (H - L + 1) / 2; if (can(mkBin(K_ULE, mkConst(mid, 64), of))) L = mid; else H = mid - 1; } hi = L;
    if ((hi - lo) / stride + 1 > cap) { out = concretize(s, addr, 64); return H_DONE; }
  }
  if (lo == hi) { out = o->base + lo; return H_DONE; }
  symbolic = true; off = of; out = o->base; return H_DONE;
}
HR Engine::load(State& s, const Inst& in, const SVal& addr, Type* t, SVal& out) {
  uint64_t n = DL->getTypeStoreSize(t), a, lo, hi, st; bool symb; Ex off;
  if (!addr.e) { // fast path
    const Obj* o = s.mem.find(addr.c);
    if (o && !o->freed && o->kind != OK_FUNC) { uint64_t of = addr.c - o->base; if (of <= o->size && n <= o->size - of) {
      if (!isAggTy(t) && n <= 8 && o->c->s.empty()) { uint64_t v = 0; memcpy(&v, &o->c->b[of], n); if (in.w < 64) v &= mask64(bits(t)); out = SVal(v); return H_DONE; }
      out = loadT(s, addr.c, t); return H_DONE; } }
  }
  HR r = resolve(s, addr, n, false, a, symb, off, lo, hi, st); if (r != H_DONE) return r;
  if (!symb) { out = loadT(s, a, t); return H_DONE; }
  if (isAggTy(t)) { a = concretize(s, addr, 64); out = loadT(s, a, t); return H_DONE; }
  unsigned w = bits(t); SVal acc = loadT(s, a + hi / st * st > a + hi ? a + hi : a + lo + (hi - lo) / st * st, t); Ex r0 = toEx(acc, w);
  for (uint64_t x = lo; x + st <= lo + (hi - lo) / st * st; x += st) { Ex v = toEx(loadT(s, a + x, t), w); r0 = mkIte(mkEq(mkConst(x, 64), off), v, r0); }
  out = SVal(r0); return H_DONE;
}
HR Engine::store(State& s, const Inst& in, const SVal& addr, Type* t, const SVal& v) {
  uint64_t n = DL->getTypeStoreSize(t), a, lo, hi, st; bool symb; Ex off;
  HR r = resolve(s, addr, n, true, a, symb, off, lo, hi, st); if (r != H_DONE) return r;
  if (!symb) { storeT(s, a, t, v); return H_DONE; }
  if (isAggTy(t) || st < n) { a = concretize(s, addr, 64); storeT(s, a, t, v); return H_DONE; }
  unsigned w = bits(t);
  for (uint64_t x = lo; x <= hi; x += st) { Ex old = toEx(loadT(s, a + x, t), w); storeT(s, a + x, t, SVal(mkIte(mkEq(mkConst(x, 64), off), toEx(v, w), old))); }
  return H_DONE;
}
HR Engine::copyMem(State& s, uint64_t d, uint64_t sr, uint64_t n) {
  if (n == 0) return H_DONE; std::string why;
  if (!checkAccess(s, sr, n, false, why) || !checkAccess(s, d, n, true, why)) return fault(s, "memory", "memcpy/memmove: " + why);
  const Obj* so = s.mem.find(sr); uint64_t soff = sr - so->base;
  std::vector<uint8_t> tb(so->c->b.begin() + soff, so->c->b.begin() + soff + n); std::vector<Ex> ts;
  if (!so->c->s.empty()) ts.assign(so->c->s.begin() + soff, so->c->s.begin() + soff + n);
  bool any = false; for (Ex e : ts) if (e) { any = true; break; }
  Obj* dob = s.mem.findW(d); Contents* c = s.mem.contentsW(dob); uint64_t doff = d - dob->base;
  memcpy(&c->b[doff], tb.data(), n);
  if (any) { if (c->s.empty()) c->s.assign(c->b.size(), nullptr); std::copy(ts.begin(), ts.end(), c->s.begin() + doff); }
  else if (!c->s.empty()) std::fill(c->s.begin() + doff, c->s.begin() + doff + n, nullptr);
  return H_DONE;
}
std::string Engine::cstr(State& s, uint64_t a, bool* ok, size_t max) {
  std::string r; if (ok) *ok = true;
  while (r.size() < max) { const Obj* o = s.mem.find(a); if (!o || a - o->base >= o->size) break; SVal v = readN(s, a, 1); if (v.e) { if (ok) *ok = false; r += (char)evalExpr(v.e, s.model); a++; continue; } if (!v.c) break; r += (char)v.c; a++; }
  return r;
}
uint64_t Engine::mallocN(State& s, uint64_t n, uint8_t kind) { s.liveHeap += n; uint64_t a = s.mem.alloc(n, OK_HEAP, HEAPFILL); s.mem.findW(a)->allocKind = kind; return a; }
HR Engine::freePtr(State& s, uint64_t p, uint8_t kind) {
  if (!p) return H_DONE;
  const Obj* o = s.mem.find(p);
  if (!o || o->kind != OK_HEAP || o->base != p) return fault(s, "memory", "free of a pointer that is not an allocation");
  if (o->freed) return fault(s, "memory", "double free");
  if (o->allocKind != kind) return fault(s, "memory", "allocation/deallocation function mismatch");
  Obj* w = s.mem.findW(p); w->freed = true; s.liveHeap -= w->size; if (--w->c->rc == 0) delete w->c; w->c = new Contents; return H_DONE;
}
// ---------------------------------------------------------------- faults / reports
std::string Engine::fname(const Inst& in) { return in.I->getFunction()->getName().str(); }
std::string Engine::trace(State& s) {
  std::string r; int n = 0;
  for (auto it = s.T().st.rbegin(); it != s.T().st.rend() && n < 12; ++it, ++n) {
    std::string d = demangle(it->f->F->getName().str()); if (d.size() > 140) d = d.substr(0, 140) + "...";
    r += "  #" + std::to_string(n) + " " + d;
    if (it->pc < it->f->code.size()) if (const DebugLoc& dl = it->f->code[it->pc].I->getDebugLoc()) { r += " at "; auto* sc = cast<DIScope>(dl.getScope()); r += sc->getFilename().str() + ":" + std::to_string(dl.getLine()); }
    r += "\n";
  }
  return r;
}
void Engine::report(State& s, const std::string& key, const std::string& msg, const Model& m, bool known) {
  int& c = violCount[key]; c++;
  if (c > 1 || (int)violations.size() >= opt.maxViol * 4) return;
  Violation v; v.key = key; v.msg = msg; v.trace = trace(s); v.known = known;
  for (auto& in : s.inputs) { u128 x = evalExpr(in.e, m); char b[64]; if (in.width > 64) snprintf(b, 64, "%llx%016llx", (unsigned long long)(x >> 64), (unsigned long long)x); else snprintf(b, 64, "%llx", (unsigned long long)x); v.inputs.push_back({in.name, in.width, b, in.aux}); }
  v.sched = s.sched; violations.push_back(v);
  if (opt.verbose) fprintf(stderr, "VIOL %s\n%s", key.c_str(), v.trace.c_str());
}
HR Engine::fault(State& s, const std::string& kind, const std::string& msg) {
  report(s, kind + ": " + msg, msg, s.model);
  endPath(s, false); return H_DEAD;
}
void Engine::endPath(State& s, bool ok) {
  paths++;
  if (ok && s.th.size() == 1 && (psamples.size() < opt.maxSamples || (rng() % paths) < opt.maxSamples)) {
    PathSample ps; for (auto& in : s.inputs) { u128 x = evalExpr(in.e, s.model); char b[64]; if (in.width > 64) snprintf(b, 64, "%llx%016llx", (unsigned long long)(x >> 64), (unsigned long long)x); else snprintf(b, 64, "%llx", (unsigned long long)x); ps.inputs.push_back({in.name, in.width, b, in.aux}); }
    for (auto& r : s.reached) ps.reached.push_back(r);
    for (auto& o : s.outExprs) { char b[64]; snprintf(b, 64, "%llx", (unsigned long long)evalExpr(o.second, s.model)); ps.outs.push_back(o.first + "=" + b); }
    if (psamples.size() < opt.maxSamples) psamples.push_back(ps); else psamples[rng() % psamples.size()] = ps;
  }
  for (auto& r : s.reached) reachedAll.insert(r);
  if (samples.size() < 4 || (paths % 997 == 0 && samples.size() < 12)) {
    std::string t; for (auto& in : s.inputs) { if (t.size() > 300) { t += " ..."; break; } u128 x = evalExpr(in.e, s.model); char b[64]; snprintf(b, 64, "%s=0x%llx ", in.name.c_str(), (unsigned long long)x); t += b; }
    samples.push_back("pathcond=" + std::to_string(s.pc.size()) + " steps=" + std::to_string(s.steps) + " witness: " + t);
  }
}
// ---------------------------------------------------------------- control
void Engine::jump(State& s, uint32_t bb) {
  Frame& f = s.F(); f.prevBB = f.curBB; f.curBB = bb; BlockInfo& b = f.f->blocks[bb]; f.pc = b.start;
  if (!b.phis.empty()) {
    auto& mv = b.phis[b.predIdx[f.prevBB]];
    if (mv.size() == 1) { f.regs[mv[0].dst] = get(s, mv[0].src); return; }
    std::vector<SVal> tmp; tmp.reserve(mv.size()); for (auto& m : mv) tmp.push_back(get(s, m.src));
    for (size_t i = 0; i < mv.size(); i++) f.regs[mv[i].dst] = std::move(tmp[i]);
  }
}
HR Engine::pushCall(State& s, FuncInfo* f, std::vector<SVal>& args, const Inst* call, size_t) {
  compile(f); f->hits++;
  if (s.T().st.size() > 4000) return fault(s, "stack", "call stack overflow");
  s.T().st.emplace_back(); Frame& fr = s.F(); fr.f = f; fr.regs.resize(f->nregs); fr.call = call; fr.stackMark = s.T().stackSlot;
  for (size_t i = 0; i < f->args.size() && i < args.size(); i++) fr.regs[f->args[i].first] = args[i];
  for (size_t i = f->args.size(); i < args.size(); i++) fr.varargs.push_back(args[i]);
  fr.pc = f->blocks[0].start; return H_JUMP;
}
HR Engine::finishCall(State& s, const Inst& in, SVal ret) {
  Frame& f = s.F(); if (in.dst >= 0) f.regs[in.dst] = std::move(ret);
  if (in.op == Instruction::Invoke) jump(s, in.t1); else f.pc++;
  return H_JUMP;
}
static void popFrame(State& s) {
  Frame& f = s.F();
  for (uint64_t a : f.allocas) { Obj* o = s.mem.findW(a); if (o) { o->freed = true; if (o->c && --o->c->rc == 0) delete o->c; o->c = new Contents; } }
  uint64_t mk = f.stackMark; s.T().st.pop_back(); s.T().stackSlot = mk;
}
void Engine::popTop(State& s) { popFrame(s); }
HR Engine::doReturn(State& s, SVal v) {
  const Inst* call = s.F().call; uint32_t tr = s.F().tryId;
  popFrame(s);
  if (s.T().st.empty()) {
    Thread& t = s.T();
    if (!t.tdtors.empty()) { auto [fn, arg] = t.tdtors.back(); t.tdtors.pop_back(); auto it = funcByAddr.find(fn); if (it != funcByAddr.end() && !it->second->F->isDeclaration()) { std::vector<SVal> a{SVal(arg)}; s.T().retval = v.c; return pushCall(s, it->second, a, nullptr, 1); } }
    t.stat = T_DONE; t.retval = v.c;
    if (s.cur == 0) { endPath(s, true); return H_DEAD; }
    return switchAway(s, true);
  }
  if (tr) v = SVal((uint64_t)0);
  if (!call) { return H_JUMP; } // callback frame without a caller instruction (static init)
  return finishCall(s, *call, v);
}
bool Engine::typeMatch(State& s, uint64_t c, uint64_t t) {
  if (c == 0 || c == t) return true;
  if (!t) return false;
  const Obj* o = s.mem.find(t); if (!o || o->kind != OK_GLOBAL || o->size < 16) return false;
  uint64_t vt = readN(s, t, 8).c;
  if (tiVtSi && vt == tiVtSi) return typeMatch(s, c, readN(s, t + 16, 8).c);
  if (tiVtVmi && vt == tiVtVmi) { uint64_t n = readN(s, t + 20, 4).c; for (uint64_t i = 0; i < n; i++) if (typeMatch(s, c, readN(s, t + 24 + 16 * i, 8).c)) return true; }
  return false;
}
HR Engine::throwExc(State& s, uint64_t obj) { s.exc[obj].handlers = 0; s.T().uncaught++; return unwind(s, obj); }
HR Engine::unwind(State& s, uint64_t obj) {
  // current frame's function is abandoned from its call site onwards
  uint64_t ti = s.exc[obj].ti; std::string tr = trace(s);
  while (true) {
    Frame& f = s.F(); const Inst* in = f.pc < f.f->code.size() ? &f.f->code[f.pc] : nullptr;
    if (in && in->op == Instruction::Invoke) {
      BasicBlock* ub = cast<InvokeInst>(in->I)->getUnwindDest(); auto* lp = ub->getLandingPadInst();
      uint64_t sel = 0; bool take = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) { SVal cv = constVal(cast<Constant>(lp->getClause(i))); if (typeMatch(s, cv.c, ti)) { if (!ehIds.count(cv.c)) ehIds[cv.c] = ehIdNext++; sel = ehIds[cv.c]; take = true; break; } }
        else { auto* arr = cast<Constant>(lp->getClause(i)); bool m = false; for (unsigned j = 0; j < arr->getNumOperands(); j++) if (typeMatch(s, constVal(cast<Constant>(arr->getOperand(j))).c, ti)) m = true; if (!m) { sel = (uint64_t)-1 & 0xffffffff; take = true; break; } }
      }
      if (take) {
        jump(s, in->t2);
        Frame& g = s.F(); const Inst& lpi = g.f->code[g.pc]; // landingpad
        g.regs[lpi.dst] = mkAgg({SVal(obj), SVal(sel)}); g.pc++;
        return H_JUMP;
      }
    }
    if (f.tryId) { // symx_try boundary: an escaping exception ends the attempt with code 2
      const Inst* call = f.call; popFrame(s); s.T().uncaught = s.T().uncaught ? s.T().uncaught - 1 : 0; return finishCall(s, *call, SVal((uint64_t)2));
    }
    popFrame(s);
    if (s.T().st.empty()) {
      std::string tn = "?"; for (auto& g : M->globals()) if (gaddr[&g] == ti) tn = demangle(g.getName().str());
      // report with the throwing trace
      int& c = violCount["exception: uncaught " + tn]; 
      if (c == 0) { s.T().st.emplace_back(); s.T().st.back().f = fi(&*M->begin()); report(s, "exception: uncaught " + tn, "uncaught exception " + tn, s.model); if (!violations.empty()) violations.back().trace = tr; s.T().st.pop_back(); }
      endPath(s, false); return H_DEAD;
    }
  }
}
// Straight-line AT&T vector code on 32-bit lanes (loads, stores, shuffles, adds), as used by the Hadamard kernels.
HR Engine::inlineAsm(State& s, const Inst& in, const std::string& as) {
  auto* cb = cast<CallBase>(in.I); std::map<int, std::vector<SVal>> R; auto reg = [&](int r) -> std::vector<SVal>& { auto& v = R[r]; if (v.empty()) v.resize(16); return v; };
  struct Op { int kind; int r = 0; unsigned lanes = 0; int64_t imm = 0; uint64_t addr = 0; };
  size_t p = 0; auto bad = [&](const std::string& l) { return fault(s, "engine", "inline asm " + l); };
  if (!cb->getType()->isVoidTy() && in.dst >= 0 && !in.ty->isStructTy()) { // one vector operation from registers to a register, as Eigen writes them
    auto* ia = cast<InlineAsm>(cb->getCalledOperand()); int tied = -1, arg = 0; bool plain = true; for (auto& c : ia->ParseConstraints()) { if (c.Type == InlineAsm::isOutput && c.isIndirect) plain = false; else if (c.Type == InlineAsm::isInput) { if (!c.Codes.empty() && c.Codes[0] == "0") tied = arg; arg++; } }
    char mn[32] = ""; unsigned o[3] = {0, 0, 0}; int k = sscanf(as.c_str(), " %31s $%u, $%u, $%u", mn, &o[0], &o[1], &o[2]) - 1; std::string m = mn; unsigned w = m.size() > 2 && m.substr(m.size() - 2) == "pd" ? 64 : 32; bool vex = m[0] == 'v'; if (vex) m = m.substr(1); int na = (int)cb->arg_size();
    auto opnd = [&](unsigned n) { return get(s, in.o[n ? n - 1 : tied]); }; auto okop = [&](unsigned n) { return n ? (int)n - 1 < na : tied >= 0; };
    auto lanes = [&](std::vector<SVal> v, const std::function<SVal(std::vector<SVal>&)>& f) { if (!v[0].g) return f(v); std::vector<SVal> r; for (size_t i = 0; i < v[0].g->v.size(); i++) { std::vector<SVal> x; for (auto& y : v) x.push_back(y.g->v[i]); r.push_back(f(x)); } return mkAgg(std::move(r)); };
    if (plain && as.find('\n') == std::string::npos) {
      if ((m == "minps" || m == "maxps" || m == "minpd" || m == "maxpd") && k == (vex ? 3 : 2) && o[k - 1] == 0 && okop(o[0]) && okop(o[1])) { bool mx = m[1] == 'a'; return finishCall(s, in, lanes({opnd(o[1]), opnd(o[0])}, [&](std::vector<SVal>& v) { Ex p = toEx(v[0], w), q = toEx(v[1], w); return SVal(mkIte(mx ? mkFBin(K_FLT, q, p) : mkFBin(K_FLT, p, q), p, q)); })); }
      if ((m == "fmadd231ps" || m == "fmadd231pd") && k == 3 && o[2] == 0 && okop(0) && okop(o[0]) && okop(o[1])) return finishCall(s, in, lanes({opnd(o[1]), opnd(o[0]), opnd(0)}, [&](std::vector<SVal>& v) { return SVal(mkFma(toEx(v[0], w), toEx(v[1], w), toEx(v[2], w))); }));
    } }
  if (!cb->getType()->isVoidTy()) return bad("with outputs: " + as + " / " + cast<InlineAsm>(cb->getCalledOperand())->getConstraintString());
  while (p < as.size()) {
    size_t e = as.find_first_of("\n;", p); if (e == std::string::npos) e = as.size(); std::string l = as.substr(p, e - p); p = e + 1; size_t b = l.find_first_not_of(" \t"); if (b == std::string::npos) continue; l = l.substr(b); if (l[0] == '#') continue;
    size_t sp = l.find_first_of(" \t"); std::string mn = l.substr(0, sp); std::vector<std::string> ops; if (sp != std::string::npos) { std::string rest = l.substr(sp), cur; for (char c : rest) { if (c == ',') { ops.push_back(cur); cur.clear(); } else if (c != ' ' && c != '\t') cur += c; } if (!cur.empty()) ops.push_back(cur); }
    std::vector<Op> o; for (auto& x : ops) {
      Op q; if (x.compare(0, 2, "$$") == 0) { q.kind = 0; q.imm = strtoll(x.c_str() + 2, nullptr, 0); }
      else if (x[0] == '%' && x.size() > 4 && (x[1] == 'x' || x[1] == 'y' || x[1] == 'z') && x.compare(2, 2, "mm") == 0) { q.kind = 1; q.lanes = x[1] == 'x' ? 4 : x[1] == 'y' ? 8 : 16; q.r = atoi(x.c_str() + 4); }
      else { size_t q0 = x.find("($"); if (q0 == std::string::npos || x.back() != ')') return bad(l); int64_t disp = q0 ? strtoll(x.substr(0, q0).c_str(), nullptr, 0) : 0; size_t n0 = q0 + 2; if (x[n0] == '{') n0++; unsigned n = atoi(x.c_str() + n0); if (n >= cb->arg_size()) return bad(l); q.kind = 2; q.addr = concretize(s, get(s, in.o[n]), 64) + disp; }
      o.push_back(q); }
    bool vex = mn[0] == 'v'; std::string m = vex ? mn.substr(1) : mn; auto isr = [&](size_t i) { return i < o.size() && o[i].kind == 1; };
    if (m == "zeroupper" || m == "zeroall" || m == "nop") continue;
    if (m == "movups" || m == "movaps") {
      if (o.size() != 2) return bad(l); unsigned n = o[o[0].kind == 1 ? 0 : 1].lanes; if (!n) return bad(l); std::vector<SVal> v;
      auto mem = [&](uint64_t a, bool w) { std::string why; if (!checkAccess(s, a, n * 4, w, why)) { fault(s, "memory", why); return false; } if (m == "movaps" && a % (n * 4)) { fault(s, "memory", "misaligned vector access"); return false; } return true; };
      if (isr(0)) v.assign(reg(o[0].r).begin(), reg(o[0].r).begin() + n); else if (o[0].kind == 2) { if (!mem(o[0].addr, false)) return H_DEAD; for (unsigned i = 0; i < n; i++) v.push_back(readN(s, o[0].addr + 4 * i, 4)); } else return bad(l);
      if (isr(1)) { auto& d = reg(o[1].r); for (unsigned i = 0; i < 16; i++) if (i < n) d[i] = v[i]; else if (vex) d[i] = SVal(); } else if (o[1].kind == 2) { if (!mem(o[1].addr, true)) return H_DEAD; for (unsigned i = 0; i < n; i++) writeN(s, o[1].addr + 4 * i, 4, v[i]); } else return bad(l);
      continue; }
    // register forms: [imm,] src2, [src1,] dst
    size_t k = !o.empty() && o[0].kind == 0 ? 1 : 0; unsigned imm = k ? (unsigned)o[0].imm : 0; bool unary = m == "permilps"; size_t want = k + (unary ? 2 : vex ? 3 : 2); if (o.size() != want) return bad(l); for (size_t i = k; i < o.size(); i++) if (!isr(i)) return bad(l);
    unsigned n = o.back().lanes; std::vector<SVal> y = reg(o[k].r), x = unary ? y : reg(o[vex ? k + 1 : k].r), r(16); if (!vex) { x = reg(o.back().r); }
    bool needImm = m == "shufps" || m == "permilps" || m == "blendps" || m == "perm2f128"; if (needImm != (k == 1)) return bad(l);
    for (unsigned i = 0; i < n; i++) { unsigned lane = i & ~3u;
      if (m == "addps") r[i] = fbinop(Instruction::FAdd, x[i], y[i], 32); else if (m == "subps") r[i] = fbinop(Instruction::FSub, x[i], y[i], 32); else if (m == "mulps") r[i] = fbinop(Instruction::FMul, x[i], y[i], 32);
      else if (m == "addsubps") r[i] = fbinop(i & 1 ? Instruction::FAdd : Instruction::FSub, x[i], y[i], 32);
      else if (m == "xorps") r[i] = o[k].r == (vex ? o[k + 1].r : o.back().r) ? SVal() : binop(Instruction::Xor, x[i], y[i], 32);
      else if (m == "shufps") r[i] = (i & 3) < 2 ? x[lane + (imm >> (2 * (i & 3)) & 3)] : y[lane + (imm >> (2 * (i & 3)) & 3)];
      else if (m == "permilps") r[i] = y[lane + (imm >> (2 * (i & 3)) & 3)];
      else if (m == "blendps") r[i] = imm >> i & 1 ? y[i] : x[i];
      else if (m == "perm2f128" && n == 8) { unsigned sel = imm >> (i < 4 ? 0 : 4); if (sel & 8) r[i] = SVal(); else { auto& src = sel & 2 ? y : x; r[i] = src[(sel & 1) * 4 + (i & 3)]; } }
      else return bad(l); }
    auto& d = reg(o.back().r); for (unsigned i = 0; i < 16; i++) if (i < n) d[i] = r[i]; else if (vex) d[i] = SVal();
  }
  return finishCall(s, in, SVal());
}
HR Engine::doCall(State& s, const Inst& in) {
  auto* cb = cast<CallBase>(in.I);
  FuncInfo* target = in.cf; int h = in.handler;
  if (!target) {
    if (cb->isInlineAsm()) {
      auto* ia = cast<InlineAsm>(cb->getCalledOperand()); std::string as = ia->getAsmString();
      SVal ret = in.dst >= 0 ? zeroOf(in.ty) : SVal(); size_t ns = as.find_first_not_of(" \t\n;");
      if (in.dst >= 0 && (ns == std::string::npos || as[ns] == '#') && as.find('\n') == std::string::npos) { // an optimisation barrier: outputs are the inputs tied to them
        std::vector<SVal> outs; unsigned arg = 0; auto cs = ia->ParseConstraints(); int no = 0; for (auto& c : cs) if (c.Type == InlineAsm::isOutput && !c.isIndirect) no++; outs.resize(no); std::vector<bool> have(no, false);
        for (auto& c : cs) { if (c.Type == InlineAsm::isOutput && c.isIndirect) arg++; else if (c.Type == InlineAsm::isInput) { if (!c.Codes.empty() && isdigit(c.Codes[0][0])) { int k = atoi(c.Codes[0].c_str()); if (k < no) { outs[k] = get(s, in.o[arg]); have[k] = true; } } arg++; } }
        for (int k = 0; k < no; k++) if (!have[k]) return fault(s, "engine", "inline asm with an unbound output"); if (no == 1) ret = outs[0]; else ret = mkAgg(std::vector<SVal>(outs)); return finishCall(s, in, ret); }
      if (as.empty() || as.find("pause") != std::string::npos || as.find("cpuid") != std::string::npos || as.find("xgetbv") != std::string::npos || as.find("prefetch") != std::string::npos) return finishCall(s, in, ret);
      return inlineAsm(s, in, as);
    }
    SVal fp = get(s, in.o.back()); uint64_t a = concretize(s, fp, 64);
    auto it = funcByAddr.find(a);
    if (it == funcByAddr.end()) return fault(s, "memory", a < 4096 ? "call through null function pointer" : "call through invalid function pointer");
    target = it->second; h = -1;
    if (target->F->isDeclaration()) h = findHandler(target->F->getName().str()); else { auto hi = handlerIdx.find(target->F->getName().str()); if (hi != handlerIdx.end()) h = hi->second; }
  }
  size_t na = in.o.size() - 1;
  if (h >= 0) {
    std::vector<SVal> args; args.reserve(na); for (size_t i = 0; i < na; i++) args.push_back(get(s, in.o[i]));
    SVal ret; HR r = handlers[h](*this, s, in, args, ret);
    if (r == H_DONE) return finishCall(s, in, std::move(ret));
    return r;
  }
  if (target->F->isDeclaration()) {
    std::string nm = target->F->getName().str(); unmodelled.insert(nm);
    if (opt.verbose) fprintf(stderr, "unmodelled external %s (%s)\n%s", nm.c_str(), demangle(nm).c_str(), trace(s).c_str());
    truncated++; endPath(s, false); return H_DEAD;
  }
  std::vector<SVal> args; args.reserve(na);
  for (size_t i = 0; i < na; i++) {
    SVal v = get(s, in.o[i]);
    if (cb->isByValArgument(i)) { Type* t = cb->getParamByValType(i); uint64_t n = DL->getTypeAllocSize(t); Thread& T = s.T(); uint64_t a = s.mem.alloc(n, OK_STACK, 0); (void)T; HR r = copyMem(s, a, concretize(s, v, 64), n); if (r != H_DONE) return r; v = SVal(a); }
    args.push_back(v);
  }
  return pushCall(s, target, args, &in, na);
}
