#include "engine.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <unistd.h>
using namespace llvm;

static Type* elemTy(Type* t, unsigned i) {
  if (auto* st = dyn_cast<StructType>(t)) return st->getElementType(i);
  if (auto* at = dyn_cast<ArrayType>(t)) return at->getElementType();
  return cast<FixedVectorType>(t)->getElementType();
}
static inline HR setr(State& s, const Inst& in, SVal v) { Frame& f = s.F(); f.regs[in.dst] = std::move(v); f.pc++; return H_DONE; }

static SVal rmwOp(Engine& E, unsigned op, const SVal& old, const SVal& v, unsigned w) {
  switch (op) {
    case AtomicRMWInst::Xchg: return v;
    case AtomicRMWInst::Add: return E.binop(Instruction::Add, old, v, w);
    case AtomicRMWInst::Sub: return E.binop(Instruction::Sub, old, v, w);
    case AtomicRMWInst::And: return E.binop(Instruction::And, old, v, w);
    case AtomicRMWInst::Or: return E.binop(Instruction::Or, old, v, w);
    case AtomicRMWInst::Xor: return E.binop(Instruction::Xor, old, v, w);
    case AtomicRMWInst::Nand: return E.binop(Instruction::Xor, E.binop(Instruction::And, old, v, w), SVal(mask64(w)), w);
    case AtomicRMWInst::Max: { SVal c = E.cmp(CmpInst::ICMP_SGT, old, v, w); return c.e ? SVal(mkIte(c.e, E.toEx(old, w), E.toEx(v, w))) : (c.c ? old : v); }
    case AtomicRMWInst::Min: { SVal c = E.cmp(CmpInst::ICMP_SLT, old, v, w); return c.e ? SVal(mkIte(c.e, E.toEx(old, w), E.toEx(v, w))) : (c.c ? old : v); }
    case AtomicRMWInst::UMax: { SVal c = E.cmp(CmpInst::ICMP_UGT, old, v, w); return c.e ? SVal(mkIte(c.e, E.toEx(old, w), E.toEx(v, w))) : (c.c ? old : v); }
    case AtomicRMWInst::UMin: { SVal c = E.cmp(CmpInst::ICMP_ULT, old, v, w); return c.e ? SVal(mkIte(c.e, E.toEx(old, w), E.toEx(v, w))) : (c.c ? old : v); }
    case AtomicRMWInst::FAdd: return E.fbinop(Instruction::FAdd, old, v, w);
    case AtomicRMWInst::FSub: return E.fbinop(Instruction::FSub, old, v, w);
  }
  abort();
}

HR Engine::exec(State& s, const Inst& in) {
  switch (in.op) {
    case Instruction::Br: {
      if (in.o.empty()) { jump(s, in.t1); return H_DONE; }
      SVal c = get(s, in.o[0]);
      if (!c.e) { jump(s, (c.c & 1) ? in.t1 : in.t2); return H_DONE; }
      bool taken; branch(s, c.e, taken, true);
      jump(s, taken ? in.t1 : in.t2); return H_DONE;
    }
    case Instruction::Switch: {
      SVal c = get(s, in.o[0]);
      if (!c.e) { for (auto& k : in.scaled) if ((uint64_t)k.second == c.c) { jump(s, k.first); return H_DONE; } jump(s, in.t1); return H_DONE; }
      // group cases by target; take the target of the current model, fork the rest
      uint64_t v = (uint64_t)evalExpr(c.e, s.model); int tgt = -1;
      for (auto& k : in.scaled) if ((uint64_t)k.second == v) { tgt = k.first; break; }
      Ex cond;
      if (tgt >= 0) { cond = mkFalse(); for (auto& k : in.scaled) if (k.first == tgt) cond = mkOr(cond, mkEq(mkConst((uint64_t)k.second, c.e->width), c.e)); if ((uint32_t)tgt == in.t1) { tgt = -1; } }
      if (tgt < 0) { cond = mkTrue(); for (auto& k : in.scaled) if ((uint32_t)k.first != in.t1) cond = mkAnd(cond, mkNot(mkEq(mkConst((uint64_t)k.second, c.e->width), c.e))); }
      bool taken; branch(s, cond, taken, true); // clone re-executes the switch under the negation
      jump(s, tgt >= 0 ? tgt : in.t1); return H_DONE;
    }
    case Instruction::Ret: { SVal v; if (!in.o.empty()) v = get(s, in.o[0]); return doReturn(s, std::move(v)); }
    case Instruction::Alloca: {
      SVal n = get(s, in.o[0]); uint64_t cnt = n.e ? concretize(s, n, 64) : n.c; uint64_t sz = in.coff * cnt; Thread& T = s.T(); uint64_t a;
      uint64_t slots = (sz >> SLOT_BITS) + 1;
      if (T.stackBase && T.stackSlot + slots <= 8192) { a = s.mem.place(T.stackBase + T.stackSlot, sz, OK_STACK, 0xA7); T.stackSlot += slots; }
      else a = s.mem.alloc(sz, OK_STACK, 0xA7);
      s.F().allocas.push_back(a); return setr(s, in, SVal(a));
    }
    case Instruction::Load: {
      if (in.pred) { bool go; HR r = schedPoint(s, go); if (!go) return r; }
      SVal a = get(s, in.o[0]), out; HR r = load(s, in, a, in.ty, out); if (r != H_DONE) return r; if (out.e) out = simpV(s, out); return setr(s, in, std::move(out)); }
    case Instruction::Store: {
      if (in.pred) { bool go; HR r = schedPoint(s, go); if (!go) return r; }
      SVal v = get(s, in.o[0]), a = get(s, in.o[1]); HR r = store(s, in, a, in.ty, v); if (r != H_DONE) return r; s.F().pc++; return H_DONE; }
    case Instruction::GetElementPtr: {
      SVal b = get(s, in.o[0]);
      if (b.g || in.I->getType()->isVectorTy()) { // vector gep
        auto* vt = cast<FixedVectorType>(in.I->getType()); std::vector<SVal> r;
        for (unsigned l = 0; l < vt->getNumElements(); l++) {
          SVal acc = b.g ? b.g->v[l] : b; acc = binop(Instruction::Add, acc, SVal(in.coff), 64);
          for (auto& sc : in.scaled) { SVal ix = get(s, in.o[sc.first]); if (ix.g) ix = ix.g->v[l]; unsigned w = sc.iw; if (w < 64) ix = castop(Instruction::SExt, ix, 64, w); acc = binop(Instruction::Add, acc, binop(Instruction::Mul, ix, SVal((uint64_t)sc.second), 64), 64); }
          r.push_back(acc);
        }
        return setr(s, in, mkAgg(std::move(r)));
      }
      SVal acc = b.e ? SVal(mkBin(K_ADD, b.e, mkConst(in.coff, 64))) : SVal(b.c + in.coff);
      for (auto& sc : in.scaled) {
        SVal ix = get(s, in.o[sc.first]); unsigned iw = sc.iw;
        if (iw < 64) ix = castop(Instruction::SExt, ix, 64, iw);
        if (!ix.e && !acc.e) acc.c += ix.c * (uint64_t)sc.second;
        else acc = binop(Instruction::Add, acc, binop(Instruction::Mul, ix, SVal((uint64_t)sc.second), 64), 64);
      }
      return setr(s, in, std::move(acc));
    }
    case Instruction::Call: case Instruction::Invoke: return doCall(s, in);
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      return setr(s, in, binop(in.op, get(s, in.o[0]), get(s, in.o[1]), in.w));
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      SVal a = get(s, in.o[0]), b = get(s, in.o[1]);
      if (!b.g) {
        if (!b.e) { if (b.c == 0) return fault(s, "arith", "integer division by zero"); }
        else { Ex z = mkEq(mkConst(0, in.w), b.e); Model m; if (feasible(s, z, m)) { Model keep = s.model; s.model = m; report(s, "arith: integer division by zero", "integer division by zero", m); s.model = keep; if (!assume(s, mkNot(z))) { endPath(s, false); return H_DEAD; } } }
        if (in.op == Instruction::SDiv && !a.e && !b.e && in.w >= 32 && a.c == (1ULL << (in.w - 1)) && b.c == mask64(in.w)) return fault(s, "arith", "signed division overflow");
      } else for (auto& x : b.g->v) if (!x.e && x.c == 0) return fault(s, "arith", "integer division by zero");
      return setr(s, in, binop(in.op, a, b, in.w));
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      return setr(s, in, fbinop(in.op, get(s, in.o[0]), get(s, in.o[1]), in.w));
    case Instruction::FNeg: {
      SVal a = get(s, in.o[0]); unsigned w = in.w == 80 ? 64 : in.w; SVal sg((uint64_t)1 << (w - 1));
      if (a.g) { std::vector<SVal> r; for (auto& x : a.g->v) r.push_back(binop(Instruction::Xor, x, sg, w)); return setr(s, in, mkAgg(std::move(r))); }
      return setr(s, in, binop(Instruction::Xor, a, sg, w)); }
    case Instruction::ICmp: return setr(s, in, cmp(in.pred, get(s, in.o[0]), get(s, in.o[1]), in.w2));
    case Instruction::FCmp: return setr(s, in, fcmp(in.pred, get(s, in.o[0]), get(s, in.o[1]), in.w2));
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      SVal a = get(s, in.o[0]);
      if (opt.forkCmp && a.e && !a.g && a.e->width == 1 && in.op == Instruction::ZExt) { bool taken; branch(s, a.e, taken, true); a = SVal((uint64_t)taken); } // branchless code: take both sides apart
      return setr(s, in, castop(in.op, a, in.w, in.w2)); }
    case Instruction::BitCast: return setr(s, in, bitcastVal(get(s, in.o[0]), in.I->getOperand(0)->getType(), in.ty));
    case Instruction::AddrSpaceCast: case Instruction::Freeze: return setr(s, in, get(s, in.o[0]));
    case Instruction::Select: {
      SVal c = get(s, in.o[0]);
      if (!c.g && !c.e) return setr(s, in, get(s, in.o[(c.c & 1) ? 1 : 2]));
      SVal a = get(s, in.o[1]), b = get(s, in.o[2]);
      if (opt.forkCmp && !c.g && !in.ty->isFPOrFPVectorTy()) { bool taken; branch(s, c.e, taken, true); return setr(s, in, taken ? a : b); }
      if (!c.g && in.ty->isPointerTy()) { // selecting between pointers into different objects: fork rather than merge
        uint64_t pa = a.e ? (uint64_t)evalExpr(a.e, s.model) : a.c, pb = b.e ? (uint64_t)evalExpr(b.e, s.model) : b.c;
        const Obj *oa = s.mem.find(pa), *ob = s.mem.find(pb);
        if (a.e || b.e || oa != ob || !oa) { bool taken; branch(s, c.e, taken, true); return setr(s, in, taken ? a : b); }
      }
      return setr(s, in, select(c, a, b, in.ty)); }
    case Instruction::ExtractValue: { SVal a = get(s, in.o[0]); for (auto& k : in.scaled) { SVal t = a.g->v[k.first]; a = t; } if (a.e) a = norm(s, a); return setr(s, in, std::move(a)); }
    case Instruction::InsertValue: {
      SVal a = get(s, in.o[0]), v = get(s, in.o[1]);
      std::function<SVal(const SVal&, size_t)> rec = [&](const SVal& x, size_t d) -> SVal { if (d == in.scaled.size()) return v; std::vector<SVal> c = x.g->v; c[in.scaled[d].first] = rec(x.g->v[in.scaled[d].first], d + 1); return mkAgg(std::move(c)); };
      return setr(s, in, rec(a, 0)); }
    case Instruction::ExtractElement: {
      SVal a = get(s, in.o[0]), ix = get(s, in.o[1]); uint64_t i = ix.e ? concretize(s, ix, 64) : ix.c; if (i >= a.g->v.size()) return fault(s, "memory", "vector index");
      return setr(s, in, a.g->v[i]); }
    case Instruction::InsertElement: {
      SVal a = get(s, in.o[0]), v = get(s, in.o[1]), ix = get(s, in.o[2]); uint64_t i = ix.e ? concretize(s, ix, 64) : ix.c; if (i >= a.g->v.size()) return fault(s, "memory", "vector index");
      std::vector<SVal> c = a.g->v; c[i] = v; return setr(s, in, mkAgg(std::move(c))); }
    case Instruction::ShuffleVector: {
      auto& sv = cast<ShuffleVectorInst>(*in.I); SVal a = get(s, in.o[0]), b = get(s, in.o[1]); size_t n = a.g->v.size(); std::vector<SVal> r;
      for (int m : sv.getShuffleMask()) r.push_back(m < 0 ? SVal((uint64_t)0) : (size_t)m < n ? a.g->v[m] : b.g->v[m - n]);
      return setr(s, in, mkAgg(std::move(r))); }
    case Instruction::Fence: { bool go; HR r = schedPoint(s, go); if (!go) return r; s.F().pc++; return H_DONE; }
    case Instruction::AtomicRMW: {
      bool go; HR r = schedPoint(s, go); if (!go) return r;
      SVal a = get(s, in.o[0]), v = get(s, in.o[1]), old; r = load(s, in, a, in.ty, old); if (r != H_DONE) return r;
      SVal nv = rmwOp(*this, in.pred, old, v, in.w); r = store(s, in, a, in.ty, nv); if (r != H_DONE) return r; return setr(s, in, std::move(old)); }
    case Instruction::AtomicCmpXchg: {
      bool go; HR r = schedPoint(s, go); if (!go) return r;
      SVal a = get(s, in.o[0]), exp = get(s, in.o[1]), nv = get(s, in.o[2]), old; r = load(s, in, a, in.ty, old); if (r != H_DONE) return r;
      SVal eq = cmp(CmpInst::ICMP_EQ, old, exp, in.w); bool t = eq.c & 1;
      if (eq.e) branch(s, eq.e, t, true);
      if (t) { r = store(s, in, a, in.ty, nv); if (r != H_DONE) return r; }
      return setr(s, in, mkAgg({old, SVal((uint64_t)t)})); }
    case Instruction::LandingPad: s.F().pc++; return H_DONE;
    case Instruction::Resume: { SVal a = get(s, in.o[0]); return unwind(s, a.g->v[0].c); }
    case Instruction::Unreachable: return fault(s, "engine", "reached code the compiler proved unreachable (undefined behaviour)");
  }
  std::string t; raw_string_ostream os(t); in.I->print(os);
  return fault(s, "engine", "unhandled instruction " + t);
}
// ---------------------------------------------------------------- threads
bool Engine::runnable(State& s, Thread& t) {
  switch (t.stat) {
    case T_RUN: return true;
    case T_MUTEX: { auto& m = s.mtx[t.waitAddr]; return m.owner < 0; }
    case T_RDLOCK: return s.rw[t.waitAddr].writer < 0;
    case T_WRLOCK: { auto& m = s.rw[t.waitAddr]; return m.writer < 0 && m.readers.empty(); }
    case T_JOIN: return s.th[t.waitAddr].stat == T_DONE;
    case T_COND: case T_FUTEX: return t.timed;
    case T_DONE: return false;
  }
  return false;
}
static unsigned liveThreads(State& s) { unsigned n = 0; for (auto& t : s.th) if (t.stat != T_DONE) n++; return n; }
static void wake(Thread& t) { if ((t.stat == T_COND || t.stat == T_FUTEX) && t.timed) { t.timedOut = true; } t.stat = T_RUN; }
// called before a visible operation: proceed=true -> perform it now
HR Engine::schedPoint(State& s, bool& proceed) {
  proceed = true;
  if (s.th.size() < 2 || liveThreads(s) < 2) return H_DONE;
  Thread& t = s.T();
  if (t.schedDone) { t.schedDone = false; return H_DONE; }
  schedPoints++;
  t.spin++;
  if (opt.replay && s.sched.size() < opt.replaySched.size()) { int c = opt.replaySched[s.sched.size()]; s.sched.push_back(c); if (c == s.cur || c < 0 || (size_t)c >= s.th.size()) return H_DONE; t.schedDone = true; s.cur = c; s.T().spin = 0; wake(s.T()); proceed = false; return H_JUMP; }
  bool force = t.spin > 24;
  if (force || s.preempt < opt.preemptBound) {
    t.schedDone = true;
    std::vector<int> cand; for (auto& o : s.th) if (o.id != s.cur && runnable(s, o) && !(o.timed && (o.stat == T_COND || o.stat == T_FUTEX))) cand.push_back(o.id);
    if (force && !cand.empty()) { t.spin = 0; int nx = cand[0]; for (int c : cand) if (c > s.cur) { nx = c; break; } s.cur = nx; wake(s.T()); s.sched.push_back(nx); proceed = false; return H_JUMP; }
    if (!force) for (int c : cand) { State* n = clone(s); n->preempt++; n->T().spin = 0; n->cur = c; wake(n->T()); n->sched.push_back(c); work.push_back(n); }
    s.T().schedDone = false;
  }
  s.sched.push_back(s.cur);
  return H_DONE;
}
// the current thread has become blocked or finished
HR Engine::switchAway(State& s, bool) {
  std::vector<int> cand; for (auto& o : s.th) if (o.id != s.cur && runnable(s, o)) cand.push_back(o.id);
  if (runnable(s, s.T())) cand.push_back(s.cur);
  if (cand.empty()) {
    if (s.th[0].stat == T_DONE) { endPath(s, true); return H_DEAD; }
    std::string d = "deadlock:"; for (auto& t : s.th) { static const char* nm[] = {"run", "mutex", "rdlock", "wrlock", "cond", "join", "futex", "done"}; d += " t" + std::to_string(t.id) + "=" + nm[t.stat]; }
    return fault(s, "deadlock", d);
  }
  s.T().spin = 0;
  if (opt.replay && s.sched.size() < opt.replaySched.size()) { int c = opt.replaySched[s.sched.size()]; for (int x : cand) if (x == c) { cand = {c}; break; } }
  for (size_t i = 1; i < cand.size(); i++) { State* n = clone(s); n->cur = cand[i]; wake(n->T()); n->sched.push_back(cand[i]); work.push_back(n); }
  s.cur = cand[0]; wake(s.T()); s.sched.push_back(s.cur);
  return H_JUMP;
}
HR Engine::block(State& s) { return switchAway(s, true); }
int Engine::newThread(State& s, uint64_t fn, uint64_t arg) {
  Thread t; t.id = s.th.size(); t.stackBase = s.mem.nextSlot; s.mem.nextSlot += 8192;
  s.th.push_back(std::move(t)); int id = s.th.size() - 1; int save = s.cur; s.cur = id;
  std::vector<SVal> a{SVal(arg)}; pushCall(s, funcByAddr[fn], a, nullptr, 1);
  s.cur = save; return id;
}
// ---------------------------------------------------------------- main loop
bool Engine::stepState(State& s) {
  uint64_t budget = 0, zc = solver.st.z3calls;
  while (true) {
    if (s.T().st.empty()) { // helper thread finished through a callback frame
      HR r = switchAway(s, true); if (r == H_DEAD) return false; continue; }
    Frame& f = s.F(); const Inst& in = f.f->code[f.pc];
    s.steps++; steps++;
    if ((++budget & 0xff) == 0 || solver.st.z3calls != zc) { zc = solver.st.z3calls;
      if (elapsed() > opt.maxTime) { truncated++; stop = true; endPath(s, false); return false; }
    }
    if (s.steps > opt.maxStepsPath) { truncated++; stepLimited++; if (opt.verbose) fprintf(stderr, "step limit\n%s", trace(s).c_str()); endPath(s, false); return false; }
    HR r = exec(s, in);
    if (r == H_DEAD) return false;
    if (!fatal.empty()) { fprintf(stderr, "fatal: %s\n", fatal.c_str()); stop = true; return false; }
    if (fatalStop) { stop = true; return false; }
  }
}
static long rssMB() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b * 4096 / 1048576; }
void Engine::loop() {
  while (!work.empty() && !stop) {
    size_t ix = work.size() - 1;
    if (opt.randomSearch && work.size() > 1 && (rng() & 3) == 0) ix = rng() % work.size();
    State* s = work[ix]; work[ix] = work.back(); work.pop_back();
    stepState(*s); delete s;
    if (opt.maxPaths && paths >= opt.maxPaths) break;
    if ((int)violations.size() >= opt.maxViol) break;
    if ((paths & 63) == 0 && rssMB() > opt.maxMemMB) { memLimited = true; break; }
  }
  if (!work.empty()) { leftover = work.size(); for (auto* s : work) delete s; work.clear(); }
}
void Engine::runEntry(const std::string& name) {
  Function* f = M->getFunction(name); if (!f) { fatal = "entry " + name + " not found"; return; }
  State* s = new State(init); s->id = nextStateId++;
  Thread t; t.stackBase = s->mem.nextSlot; s->mem.nextSlot += 8192; s->th.push_back(std::move(t));
  // static constructors, in order, then the entry function: pushed in reverse
  std::vector<std::pair<uint64_t, Function*>> ctors;
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto& op : arr->operands()) { auto* st = cast<ConstantStruct>(op); if (auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<SVal> none; pushCall(*s, fi(f), none, nullptr, 0);
  for (size_t i = ctors.size(); i-- > 0;) pushCall(*s, fi(ctors[i].second), none, nullptr, 0);
  work.push_back(s); loop();
}
