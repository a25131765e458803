#include "engine.h"
#include "llvm/Demangle/Demangle.h"
using namespace llvm;
typedef std::vector<SVal> Args;
#define H [](Engine & E, State & s, const Inst& in, Args& a, SVal& ret) -> HR
static uint64_t C(Engine& E, State& s, const SVal& v, unsigned w = 64) { return v.e ? E.concretize(s, v, w) : v.c; }
static void record(State& s, const std::string& n, Ex e, unsigned w, bool aux = false) { s.inputs.push_back({n, e, w, aux}); }
static std::string uniq(State& s, const std::string& n) { int k = s.nameCount[n]++; return n + "#" + std::to_string(k); }
static Engine* GE;
static SVal freshSym(State& s, const std::string& base, unsigned w) { std::string n = uniq(s, base); if (GE->opt.replay && w <= 64 && s.inputs.size() < GE->opt.replayIn.size()) { uint64_t v = strtoull(GE->opt.replayIn[s.inputs.size()].c_str(), nullptr, 16); record(s, n, mkConst(v, w), w); return SVal(v); } Ex e = mkSym(n, w); record(s, n, e, w); return SVal(e); }
static SVal mapv(const SVal& v, const std::function<SVal(const SVal&)>& f) { if (!v.g) return f(v); std::vector<SVal> r; for (auto& x : v.g->v) r.push_back(mapv(x, f)); return mkAgg(std::move(r)); }
static SVal map2(const SVal& x, const SVal& y, const std::function<SVal(const SVal&, const SVal&)>& f) { if (!x.g) return f(x, y); std::vector<SVal> r; for (size_t i = 0; i < x.g->v.size(); i++) r.push_back(map2(x.g->v[i], y.g->v[i], f)); return mkAgg(std::move(r)); }
static unsigned sw(Engine& E, Type* t) { return E.bits(t->getScalarType()); }
static unsigned retw(Engine& E, const Inst& in) { return sw(E, in.I->getType()); }
static SVal ite(Engine& E, const SVal& c, const SVal& x, const SVal& y, unsigned w) { if (!c.e) return c.c & 1 ? x : y; return SVal(mkIte(c.e, E.toEx(x, w), E.toEx(y, w))); }
static void dec(Ex e, std::vector<Ex>& b) { for (unsigned i = 0; i < e->width; i += 8) b.push_back(mkExtract(e, i, 8)); }
static HR fillMem(Engine& E, State& s, uint64_t d, const SVal& v, uint64_t n) {
  if (!n) return H_DONE; std::string why; if (!E.checkAccess(s, d, n, true, why)) return E.fault(s, "memory", "memset: " + why);
  Obj* o = s.mem.findW(d); Contents* c = s.mem.contentsW(o); uint64_t off = d - o->base;
  if (!v.e) { memset(&c->b[off], (int)v.c, n); if (!c->s.empty()) std::fill(c->s.begin() + off, c->s.begin() + off + n, nullptr); }
  else { Ex b = mkExtract(v.e, 0, 8); if (c->s.empty()) c->s.assign(c->b.size(), nullptr); std::fill(c->s.begin() + off, c->s.begin() + off + n, b); }
  return H_DONE;
}
static SVal cmpBytes(Engine& E, State& s, uint64_t p, uint64_t q, uint64_t n, bool eqOnly) {
  if (eqOnly) { Ex r = mkTrue(); for (uint64_t i = 0; i < n; i++) { SVal x = E.readN(s, p + i, 1), y = E.readN(s, q + i, 1); if (!x.e && !y.e) { if (x.c != y.c) return SVal((uint64_t)1); continue; } r = mkAnd(r, mkEq(E.toEx(x, 8), E.toEx(y, 8))); } return SVal(mkZExt(mkNot(r), 32)); }
  Ex r = mkConst(0, 32);
  for (uint64_t i = n; i-- > 0;) { SVal x = E.readN(s, p + i, 1), y = E.readN(s, q + i, 1); if (!x.e && !y.e) { if (x.c != y.c) r = mkConst(x.c < y.c ? 0xffffffffu : 1u, 32); continue; } Ex ex = E.toEx(x, 8), ey = E.toEx(y, 8); r = mkIte(mkEq(ex, ey), r, mkIte(mkBin(K_ULT, ex, ey), mkConst(0xffffffffu, 32), mkConst(1, 32))); }
  return SVal(r);
}
static HR doMalloc(Engine& E, State& s, const SVal& sz, uint8_t kind, SVal& ret, bool zero = false) {
  uint64_t n = C(E, s, sz);
  if (n > (256ull << 20)) { ret = SVal((uint64_t)0); return H_DONE; }
  ret = SVal(E.mallocN(s, n, kind)); if (zero && n) return fillMem(E, s, ret.c, SVal((uint64_t)0), n); return H_DONE;
}
static uint64_t excAlloc(Engine& E, State& s, uint64_t n) { return E.mallocN(s, n, 9); }
static HR throwBadAlloc(Engine& E, State& s, const char* cls = "_ZTISt9bad_alloc", const char* vt = "_ZTVSt9bad_alloc") {
  uint64_t o = excAlloc(E, s, 8); auto* g = E.M->getNamedGlobal(cls); auto* v = E.M->getNamedGlobal(vt);
  s.exc[o] = {}; s.exc[o].ti = g ? E.gaddr[g] : 0; if (v) E.writeN(s, o, 8, SVal(E.gaddr[v] + 16));
  return E.throwExc(s, o);
}
static HR opNew(Engine& E, State& s, const SVal& sz, uint8_t kind, SVal& ret) { HR r = doMalloc(E, s, sz, kind, ret); if (r != H_DONE) return r; if (!ret.c) return throwBadAlloc(E, s); return H_DONE; }

// ----- check / known
static std::string strArg(Engine& E, State& s, const SVal& v) { return E.cstr(s, v.c); }
static HR doCheck(Engine& E, State& s, Ex cond, const std::string& msg, const std::string& knownId, Ex knownPred) {
  E.checks++; E.checkCounts[msg]++; cond = E.simp(s, cond);
  if (cond->isConst() && cond->val) return H_DONE;
  E.checksSolver++;
  Ex bad = mkNot(cond), badNew = knownPred ? mkAnd(bad, mkNot(knownPred)) : bad;
  Model m;
  auto test = [&](Ex e, Model& out) -> SatRes { if (evalExpr(e, s.model)) { out = s.model; return SAT; } return E.solver.sat(s.pc, e, s.model, out); };
  SatRes r = test(badNew, m);
  if (r == UNKNOWN) { E.inconclusive++; E.inconclusiveMsgs.insert(msg); }
  if (r == SAT) { Model keep = s.model; s.model = m; E.report(s, "check: " + msg, msg, m); s.model = keep; }
  if (knownPred) { Model m2; SatRes q = test(mkAnd(bad, knownPred), m2); if (q == SAT) { if (!E.knownHits[knownId]++) E.report(s, "known " + knownId + ": " + msg, msg, m2, true); } else if (q == UNKNOWN) E.inconclusive++; }
  if (!E.assume(s, cond)) { E.endPath(s, false); return H_DEAD; }
  return H_DONE;
}
static Ex boolEx(Engine& E, const SVal& v) { if (!v.e) return mkConst(v.c & 0xff ? 1 : 0, 1); return mkNot(mkEq(mkConst(0, v.e->width), v.e)); }

void Engine::reg(const std::string& n, Handler h) { handlerIdx[n] = handlers.size(); handlers.push_back(std::move(h)); handlerNames.push_back(n); }
int Engine::findHandler(const std::string& n) {
  auto it = handlerIdx.find(n); if (it != handlerIdx.end()) return it->second;
  if (n.rfind("llvm.", 0) == 0) { // strip type suffixes
    std::string k = n;
    while (true) { size_t p = k.rfind('.'); if (p == std::string::npos || p <= 4) break; k = k.substr(0, p); it = handlerIdx.find(k); if (it != handlerIdx.end()) { handlerIdx[n] = it->second; return it->second; } }
  }
  return -1;
}
static SVal popcnt(Engine& E, const SVal& v, unsigned w) { if (!v.e) return SVal((uint64_t)__builtin_popcountll(v.c)); Ex r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZExt(mkExtract(v.e, i, 1), w)); return SVal(r); }
static SVal ctz(Engine& E, const SVal& v, unsigned w) { if (!v.e) return SVal((uint64_t)(v.c ? __builtin_ctzll(v.c) : w)); Ex r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(v.e, i, 1), mkConst(i, w), r); return SVal(r); }
static SVal clz(Engine& E, const SVal& v, unsigned w) { if (!v.e) return SVal((uint64_t)(v.c ? __builtin_clzll(v.c) - (64 - w) : w)); Ex r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(v.e, i, 1), mkConst(w - 1 - i, w), r); return SVal(r); }
static SVal ovf(Engine& E, unsigned op, bool sgn, const SVal& x, const SVal& y, unsigned w, SVal& of) {
  unsigned W = op == Instruction::Mul ? 2 * w : w + 1;
  if (!x.e && !y.e && w <= 64) {
    s128 X = sgn ? (s128)sext64(x.c, w) : (s128)(u128)x.c, Y = sgn ? (s128)sext64(y.c, w) : (s128)(u128)y.c; s128 R; bool o;
    if (!sgn && op == Instruction::Mul) { u128 r = (u128)x.c * (u128)y.c; o = r > (u128)mask64(w); of = SVal((uint64_t)o); return SVal((uint64_t)r & mask64(w)); }
    R = op == Instruction::Add ? X + Y : op == Instruction::Sub ? X - Y : X * Y;
    uint64_t t = (uint64_t)R & mask64(w); s128 back = sgn ? (s128)sext64(t, w) : (s128)(u128)t; o = back != R; of = SVal((uint64_t)o); return SVal(t);
  }
  Ex a = sgn ? mkSExt(E.toEx(x, w), W) : mkZExt(E.toEx(x, w), W), b = sgn ? mkSExt(E.toEx(y, w), W) : mkZExt(E.toEx(y, w), W);
  Ex r = mkBin(op == Instruction::Add ? K_ADD : op == Instruction::Sub ? K_SUB : K_MUL, a, b); Ex t = mkExtract(r, 0, w);
  of = SVal(mkNot(mkEq(sgn ? mkSExt(t, W) : mkZExt(t, W), r))); return SVal(t);
}
static SVal sat(Engine& E, unsigned op, bool sgn, const SVal& x, const SVal& y, unsigned w) {
  SVal of; SVal r = ovf(E, op, sgn, x, y, w, of); SVal lim;
  if (!sgn) lim = SVal(op == Instruction::Add ? mask64(w) : 0);
  else { SVal neg = E.cmp(CmpInst::ICMP_SLT, x, SVal((uint64_t)0), w); lim = ite(E, neg, SVal(1ULL << (w - 1)), SVal(mask64(w - 1)), w); }
  return ite(E, of, lim, r, w);
}
static SVal funnel(Engine& E, bool left, const SVal& hi, const SVal& lo, const SVal& sh, unsigned w) {
  if (!hi.e && !lo.e && !sh.e) { unsigned k = sh.c % w; u128 x = ((u128)hi.c << w) | lo.c; if (left) return SVal((uint64_t)((x << k) >> w) & mask64(w)); return SVal((uint64_t)(x >> k) & mask64(w)); }
  Ex x = mkConcat(E.toEx(hi, w), E.toEx(lo, w)); Ex k = mkBin(K_AND, E.toEx(sh, w), mkConst(w - 1, w)); k = mkZExt(k, 2 * w);
  return SVal(left ? mkExtract(mkBin(K_SHL, x, k), w, w) : mkExtract(mkBin(K_LSHR, x, k), 0, w));
}
static SVal isfpclass(Engine& E, const SVal& v, unsigned w, unsigned mask) {
  unsigned mb = w == 32 ? 23 : 52; unsigned eb = w - 1 - mb; Ex x = E.toEx(v, w); Ex sgn = mkExtract(x, w - 1, 1), ex = mkExtract(x, mb, eb), man = mkExtract(x, 0, mb);
  Ex e1 = mkEq(mkConst(mask64(eb), eb), ex), e0 = mkEq(mkConst(0, eb), ex), m0 = mkEq(mkConst(0, mb), man), q = mkExtract(man, mb - 1, 1); Ex ns = mkNot(sgn); Ex r = mkFalse();
  auto A = [](Ex p, Ex q) { return mkAnd(p, q); };
  if (mask & 1) r = mkOr(r, A(A(e1, mkNot(m0)), mkNot(q))); if (mask & 2) r = mkOr(r, A(e1, q));
  if (mask & 4) r = mkOr(r, A(A(e1, m0), sgn)); if (mask & 512) r = mkOr(r, A(A(e1, m0), ns));
  if (mask & 8) r = mkOr(r, A(A(mkNot(e1), mkNot(e0)), sgn)); if (mask & 256) r = mkOr(r, A(A(mkNot(e1), mkNot(e0)), ns));
  if (mask & 16) r = mkOr(r, A(A(e0, mkNot(m0)), sgn)); if (mask & 128) r = mkOr(r, A(A(e0, mkNot(m0)), ns));
  if (mask & 32) r = mkOr(r, A(A(e0, m0), sgn)); if (mask & 64) r = mkOr(r, A(A(e0, m0), ns));
  return SVal(r);
}
static bool isNaNc(uint64_t v, unsigned w) { return w == 32 ? (v & 0x7fffffff) > 0x7f800000 : (v & 0x7fffffffffffffffULL) > 0x7ff0000000000000ULL; }
static Ex nanEx(Ex e) { return mkNot(mkFBin(K_FEQ, e, e)); }
static SVal fminmax(Engine& E, bool mx, const SVal& x, const SVal& y, unsigned w) {
  Ex a = E.toEx(x, w), b = E.toEx(y, w); Ex c = mx ? mkFBin(K_FLT, a, b) : mkFBin(K_FLT, b, a);
  return SVal(mkIte(nanEx(a), b, mkIte(nanEx(b), a, mkIte(c, b, a))));
}
static HR concMath(Engine& E, State& s, const Inst& in, Args& a, SVal& ret, double (*f)(double), float (*ff)(float)) {
  unsigned w = retw(E, in); if (w == 80) w = 64;
  std::vector<SVal> lanes; bool ok = true;
  ret = mapv(a[0], [&](const SVal& v) { uint64_t x = v.e ? (ok = false, 0) : v.c; if (w == 32) { float t; uint32_t u = x; memcpy(&t, &u, 4); t = ff ? ff(t) : (float)f(t); memcpy(&u, &t, 4); return SVal((uint64_t)u); } double t; memcpy(&t, &x, 8); t = f(t); memcpy(&x, &t, 8); return SVal(x); });
  if (!ok) { // symbolic argument: over-approximate by an unconstrained result
    ret = freshSym(s, "math", w); s.inputs.back().aux = true; E.unmodelled.insert("math:" + in.callee->getName().str());
  }
  return H_DONE;
}
static HR roundOp(Engine& E, const Inst& in, Args& a, SVal& ret, Kind k) { unsigned w = retw(E, in); ret = mapv(a[0], [&](const SVal& v) { return SVal(mkFUn(k, E.toEx(v, w), w)); }); return H_DONE; }
static SVal red(Engine& E, const SVal& v, const std::function<SVal(const SVal&, const SVal&)>& f) { SVal r = v.g->v[0]; for (size_t i = 1; i < v.g->v.size(); i++) r = f(r, v.g->v[i]); return r; }
static HR lockMutex(Engine& E, State& s, uint64_t m, bool tryOnly, SVal& ret) {
  bool go; HR r = E.schedPoint(s, go); if (!go) return r;
  std::string why; if (!E.checkAccess(s, m, 40, false, why)) return E.fault(s, "memory", "mutex: " + why);
  auto& x = s.mtx[m]; uint64_t kind = E.readN(s, m + 16, 4).c;
  if (x.owner < 0) { x.owner = s.cur; x.count = 1; ret = SVal((uint64_t)0); return H_DONE; }
  if (x.owner == s.cur && (kind & 3) == 1) { x.count++; ret = SVal((uint64_t)0); return H_DONE; }
  if (tryOnly) { ret = SVal((uint64_t)16); return H_DONE; }
  if (x.owner == s.cur) return E.fault(s, "deadlock", "thread relocks a non-recursive mutex it owns");
  s.T().stat = T_MUTEX; s.T().waitAddr = m; return E.block(s);
}
static HR unlockMutex(Engine& E, State& s, uint64_t m, SVal& ret) {
  auto& x = s.mtx[m]; if (x.owner != s.cur) return E.fault(s, "sync", "unlock of a mutex not held by this thread");
  if (--x.count == 0) x.owner = -1; ret = SVal((uint64_t)0); return H_DONE;
}
static HR condWait(Engine& E, State& s, uint64_t c, uint64_t m, bool timed, SVal& ret) {
  Thread& t = s.T();
  if (t.condPhase == 0) { // release the mutex and sleep
    auto& x = s.mtx[m]; if (x.owner != s.cur) return E.fault(s, "sync", "condition wait without holding the mutex");
    x.owner = -1; x.count = 0; t.condPhase = 1; t.stat = T_COND; t.waitAddr = c; t.timed = timed; t.timedOut = false; return E.block(s);
  }
  auto& x = s.mtx[m]; if (x.owner >= 0) { t.stat = T_MUTEX; t.waitAddr = m; return E.block(s); }
  x.owner = s.cur; x.count = 1; t.condPhase = 0; t.timed = false; ret = SVal((uint64_t)(t.timedOut ? 110 : 0)); t.timedOut = false; return H_DONE;
}
static HR condSignal(Engine& E, State& s, uint64_t c, bool all, SVal& ret) {
  bool go; HR r = E.schedPoint(s, go); if (!go) return r;
  std::vector<int> w; for (auto& t : s.th) if (t.stat == T_COND && t.waitAddr == c) w.push_back(t.id);
  if (all) { for (int i : w) { s.th[i].stat = T_RUN; s.th[i].timedOut = false; } }
  else if (!w.empty()) { s.th[w[0]].stat = T_RUN; s.th[w[0]].timedOut = false; }
  ret = SVal((uint64_t)0); return H_DONE;
}

void Engine::registerHandlers() {
GE = this;
  auto nop = H { ret = SVal((uint64_t)0); return H_DONE; };
  for (auto n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.value", "llvm.dbg.declare", "llvm.dbg.label", "llvm.experimental.noalias.scope.decl", "llvm.invariant.start", "llvm.invariant.end", "llvm.prefetch", "llvm.stackrestore", "llvm.va_end", "llvm.donothing", "llvm.assume", "llvm.sideeffect", "llvm.var.annotation", "llvm.x86.sse.sfence", "llvm.x86.sse2.mfence", "llvm.x86.sse2.lfence", "llvm.x86.sse2.pause", "llvm.stacksave", "llvm.x86.avx.vzeroupper", "llvm.pseudoprobe", "__cxa_atexit", "__cpu_indicator_init", "atexit", "usleep", "__gmon_start__", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_condattr_init", "pthread_condattr_setclock", "pthread_condattr_destroy", "pthread_mutexattr_init", "pthread_mutexattr_destroy", "pthread_setname_np", "pthread_setaffinity_np", "pthread_attr_init", "pthread_attr_destroy", "__cxa_call_unexpected"}) reg(n, nop);
  reg("pthread_mutexattr_settype", H { E.writeN(s, a[0].c, 4, SVal(a[1].c)); ret = SVal((uint64_t)0); return H_DONE; });
  auto id = H { ret = a[0]; return H_DONE; };
  for (auto n : {"llvm.expect", "llvm.expect.with.probability", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ssa.copy", "llvm.ptr.annotation", "llvm.annotation", "llvm.arithmetic.fence", "llvm.canonicalize"}) reg(n, id);
  reg("llvm.is.constant", H { ret = SVal((uint64_t)0); return H_DONE; });
  reg("llvm.objectsize", H { ret = SVal(a[1].c ? (uint64_t)0 : ~0ULL); return H_DONE; });
  reg("llvm.trap", H { return E.fault(s, "abort", "trap"); });
  reg("llvm.ubsantrap", H { return E.fault(s, "ub", "undefined behaviour trap " + std::to_string(a[0].c)); });
  reg("llvm.debugtrap", H { return E.fault(s, "abort", "trap"); });
  reg("llvm.eh.typeid.for", H { uint64_t t = a[0].c; if (!E.ehIds.count(t)) E.ehIds[t] = E.ehIdNext++; ret = SVal(E.ehIds[t]); return H_DONE; });
  reg("llvm.threadlocal.address", H {
    if (s.cur == 0) { ret = a[0]; return H_DONE; }
    auto& t = s.T().tls; auto it = t.find(a[0].c); if (it != t.end()) { ret = SVal(it->second); return H_DONE; }
    const Obj* o = E.init.mem.find(a[0].c); uint64_t p = s.mem.alloc(o->size, OK_GLOBAL, 0); Obj* w = s.mem.findW(p); s.mem.contentsW(w)->b = o->c->b; t[a[0].c] = p; ret = SVal(p); return H_DONE; });
  auto mcpy = H { uint64_t d = C(E, s, a[0]), q = C(E, s, a[1]), n = C(E, s, a[2]); ret = SVal(d); return E.copyMem(s, d, q, n); };
  for (auto n : {"llvm.memcpy", "llvm.memcpy.inline", "llvm.memmove", "memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}) reg(n, mcpy);
  auto mset = H { uint64_t d = C(E, s, a[0]), n = C(E, s, a[2]); ret = SVal(d); SVal v = a[1]; if (!v.e) v.c &= 0xff; return fillMem(E, s, d, v, n); };
  for (auto n : {"llvm.memset", "llvm.memset.inline", "memset", "__memset_chk"}) reg(n, mset);
  reg("memcmp", H { uint64_t p = C(E, s, a[0]), q = C(E, s, a[1]), n = C(E, s, a[2]); std::string why; if (n && (!E.checkAccess(s, p, n, false, why) || !E.checkAccess(s, q, n, false, why))) return E.fault(s, "memory", "memcmp: " + why); ret = cmpBytes(E, s, p, q, n, false); return H_DONE; });
  reg("bcmp", H { uint64_t p = C(E, s, a[0]), q = C(E, s, a[1]), n = C(E, s, a[2]); std::string why; if (n && (!E.checkAccess(s, p, n, false, why) || !E.checkAccess(s, q, n, false, why))) return E.fault(s, "memory", "bcmp: " + why); ret = cmpBytes(E, s, p, q, n, true); return H_DONE; });
  // integer intrinsics
  auto mm = [](unsigned pred) -> Handler { return [pred](Engine& E, State& s, const Inst& in, Args& a, SVal& ret) -> HR { unsigned w = retw(E, in); ret = map2(a[0], a[1], [&](const SVal& x, const SVal& y) { return ite(E, E.cmp(pred, x, y, w), x, y, w); }); return H_DONE; }; };
  reg("llvm.umin", mm(CmpInst::ICMP_ULT)); reg("llvm.umax", mm(CmpInst::ICMP_UGT)); reg("llvm.smin", mm(CmpInst::ICMP_SLT)); reg("llvm.smax", mm(CmpInst::ICMP_SGT));
  reg("llvm.abs", H { unsigned w = retw(E, in); ret = mapv(a[0], [&](const SVal& x) { return ite(E, E.cmp(CmpInst::ICMP_SLT, x, SVal((uint64_t)0), w), E.binop(Instruction::Sub, SVal((uint64_t)0), x, w), x, w); }); return H_DONE; });
  reg("llvm.ctpop", H { unsigned w = retw(E, in); ret = mapv(a[0], [&](const SVal& x) { return popcnt(E, x, w); }); return H_DONE; });
  reg("llvm.cttz", H { unsigned w = retw(E, in); ret = mapv(a[0], [&](const SVal& x) { return ctz(E, x, w); }); return H_DONE; });
  reg("llvm.ctlz", H { unsigned w = retw(E, in); ret = mapv(a[0], [&](const SVal& x) { return clz(E, x, w); }); return H_DONE; });
  reg("llvm.bswap", H { unsigned w = retw(E, in); ret = mapv(a[0], [&](const SVal& x) { Ex e = E.toEx(x, w); Ex r = nullptr; for (unsigned i = 0; i < w; i += 8) { Ex b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } return SVal(r); }); return H_DONE; });
  reg("llvm.bitreverse", H { unsigned w = retw(E, in); ret = mapv(a[0], [&](const SVal& x) { Ex e = E.toEx(x, w); Ex r = nullptr; for (unsigned i = 0; i < w; i++) { Ex b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } return SVal(r); }); return H_DONE; });
  reg("llvm.fshl", H { unsigned w = retw(E, in); if (a[0].g) { std::vector<SVal> r; for (size_t i = 0; i < a[0].g->v.size(); i++) r.push_back(funnel(E, true, a[0].g->v[i], a[1].g->v[i], a[2].g->v[i], w)); ret = mkAgg(r); } else ret = funnel(E, true, a[0], a[1], a[2], w); return H_DONE; });
  reg("llvm.fshr", H { unsigned w = retw(E, in); if (a[0].g) { std::vector<SVal> r; for (size_t i = 0; i < a[0].g->v.size(); i++) r.push_back(funnel(E, false, a[0].g->v[i], a[1].g->v[i], a[2].g->v[i], w)); ret = mkAgg(r); } else ret = funnel(E, false, a[0], a[1], a[2], w); return H_DONE; });
  auto ov = [](unsigned op, bool sg) -> Handler { return [op, sg](Engine& E, State& s, const Inst& in, Args& a, SVal& ret) -> HR { unsigned w = E.bits(cast<StructType>(in.I->getType())->getElementType(0)); SVal of; SVal r = ovf(E, op, sg, a[0], a[1], w, of); ret = mkAgg({r, of}); return H_DONE; }; };
  reg("llvm.uadd.with.overflow", ov(Instruction::Add, false)); reg("llvm.usub.with.overflow", ov(Instruction::Sub, false)); reg("llvm.umul.with.overflow", ov(Instruction::Mul, false));
  reg("llvm.sadd.with.overflow", ov(Instruction::Add, true)); reg("llvm.ssub.with.overflow", ov(Instruction::Sub, true)); reg("llvm.smul.with.overflow", ov(Instruction::Mul, true));
  auto st = [](unsigned op, bool sg) -> Handler { return [op, sg](Engine& E, State& s, const Inst& in, Args& a, SVal& ret) -> HR { unsigned w = retw(E, in); ret = map2(a[0], a[1], [&](const SVal& x, const SVal& y) { return sat(E, op, sg, x, y, w); }); return H_DONE; }; };
  reg("llvm.uadd.sat", st(Instruction::Add, false)); reg("llvm.usub.sat", st(Instruction::Sub, false)); reg("llvm.sadd.sat", st(Instruction::Add, true)); reg("llvm.ssub.sat", st(Instruction::Sub, true));
  // floating point
  reg("llvm.fabs", H { unsigned w = retw(E, in); if (w == 80) w = 64; ret = mapv(a[0], [&](const SVal& x) { return E.binop(Instruction::And, x, SVal(mask64(w - 1)), w); }); return H_DONE; });
  handlerIdx["fabs"] = handlerIdx["fabsf"] = handlerIdx["llvm.fabs"];
  reg("llvm.copysign", H { unsigned w = retw(E, in); ret = map2(a[0], a[1], [&](const SVal& x, const SVal& y) { return E.binop(Instruction::Or, E.binop(Instruction::And, x, SVal(mask64(w - 1)), w), E.binop(Instruction::And, y, SVal(1ULL << (w - 1)), w), w); }); return H_DONE; });
  reg("llvm.sqrt", H { return roundOp(E, in, a, ret, K_FSQRT); }); handlerIdx["sqrt"] = handlerIdx["sqrtf"] = handlerIdx["llvm.sqrt"];
  reg("llvm.floor", H { return roundOp(E, in, a, ret, K_FFLOOR); }); handlerIdx["floor"] = handlerIdx["floorf"] = handlerIdx["llvm.floor"];
  reg("llvm.ceil", H { return roundOp(E, in, a, ret, K_FCEIL); }); handlerIdx["ceil"] = handlerIdx["ceilf"] = handlerIdx["llvm.ceil"];
  reg("llvm.trunc", H { return roundOp(E, in, a, ret, K_FRTZ); }); handlerIdx["trunc"] = handlerIdx["truncf"] = handlerIdx["llvm.trunc"];
  reg("llvm.rint", H { return roundOp(E, in, a, ret, K_FROUNDEVEN); }); for (auto n : {"llvm.nearbyint", "llvm.roundeven", "rint", "rintf", "nearbyint", "nearbyintf"}) handlerIdx[n] = handlerIdx["llvm.rint"];
  reg("llvm.round", H { return roundOp(E, in, a, ret, K_FROUNDAWAY); }); handlerIdx["round"] = handlerIdx["roundf"] = handlerIdx["llvm.round"];
  auto fmaH = H { unsigned w = retw(E, in); if (a[0].g) { std::vector<SVal> r; for (size_t i = 0; i < a[0].g->v.size(); i++) r.push_back(SVal(mkFma(E.toEx(a[0].g->v[i], w), E.toEx(a[1].g->v[i], w), E.toEx(a[2].g->v[i], w)))); ret = mkAgg(r); } else ret = SVal(mkFma(E.toEx(a[0], w), E.toEx(a[1], w), E.toEx(a[2], w))); return H_DONE; };
  for (auto n : {"llvm.fma", "fma", "fmaf"}) reg(n, fmaH);
  reg("llvm.fmuladd", H { unsigned w = retw(E, in); auto f = [&](const SVal& x, const SVal& y, const SVal& z) { return E.fbinop(Instruction::FAdd, E.fbinop(Instruction::FMul, x, y, w), z, w); }; if (a[0].g) { std::vector<SVal> r; for (size_t i = 0; i < a[0].g->v.size(); i++) r.push_back(f(a[0].g->v[i], a[1].g->v[i], a[2].g->v[i])); ret = mkAgg(r); } else ret = f(a[0], a[1], a[2]); return H_DONE; });
  auto fmm = [](bool mx) -> Handler { return [mx](Engine& E, State& s, const Inst& in, Args& a, SVal& ret) -> HR { unsigned w = retw(E, in); ret = map2(a[0], a[1], [&](const SVal& x, const SVal& y) { return fminmax(E, mx, x, y, w); }); return H_DONE; }; };
  for (auto n : {"llvm.minnum", "llvm.minimum", "fmin", "fminf"}) reg(n, fmm(false));
  for (auto n : {"llvm.maxnum", "llvm.maximum", "fmax", "fmaxf"}) reg(n, fmm(true));
  reg("llvm.is.fpclass", H { unsigned w = sw(E, cast<CallBase>(in.I)->getArgOperand(0)->getType()); unsigned mk = a[1].c; ret = mapv(a[0], [&](const SVal& x) { return isfpclass(E, x, w, mk); }); return H_DONE; });
  reg("llvm.fptoui.sat", H { unsigned w = retw(E, in), fw = sw(E, cast<CallBase>(in.I)->getArgOperand(0)->getType()); if (a[0].e || a[0].g) { ret = freshSym(s, "fptoui_sat", w); return H_DONE; } double d; if (fw == 32) { float f; uint32_t u = a[0].c; memcpy(&f, &u, 4); d = f; } else memcpy(&d, &a[0].c, 8); if (!(d > 0)) ret = SVal((uint64_t)0); else if (d >= std::ldexp(1.0, w)) ret = SVal(mask64(w)); else ret = SVal((uint64_t)d); return H_DONE; });
  struct MF { const char* n; double (*f)(double); float (*g)(float); };
  static const MF mf[] = {{"exp", ::exp, ::expf}, {"log", ::log, ::logf}, {"log2", ::log2, ::log2f}, {"log10", ::log10, ::log10f}, {"exp2", ::exp2, ::exp2f}, {"sin", ::sin, ::sinf}, {"cos", ::cos, ::cosf}, {"log1p", ::log1p, ::log1pf}, {"erf", ::erf, ::erff}, {"tan", ::tan, ::tanf}, {"lgamma", ::lgamma, ::lgammaf}, {"acos", ::acos, ::acosf}, {"atan", ::atan, ::atanf}};
  for (auto& m : mf) for (std::string n : {std::string("llvm.") + m.n, std::string(m.n), std::string(m.n) + "f"}) reg(n, [m](Engine& E, State& s, const Inst& in, Args& a, SVal& ret) -> HR { return concMath(E, s, in, a, ret, m.f, m.g); });
  reg("logl", [](Engine& E, State& s, const Inst& in, Args& a, SVal& ret) -> HR { return concMath(E, s, in, a, ret, ::log, nullptr); });
  reg("llvm.pow", H { unsigned w = retw(E, in); if (a[0].e || a[1].e) { ret = freshSym(s, "math", w); s.inputs.back().aux = true; return H_DONE; } if (w == 32) { float x, y; uint32_t u = a[0].c; memcpy(&x, &u, 4); u = a[1].c; memcpy(&y, &u, 4); x = powf(x, y); memcpy(&u, &x, 4); ret = SVal((uint64_t)u); } else { double x, y; memcpy(&x, &a[0].c, 8); memcpy(&y, &a[1].c, 8); x = pow(x, y); uint64_t u; memcpy(&u, &x, 8); ret = SVal(u); } return H_DONE; });
  handlerIdx["pow"] = handlerIdx["powf"] = handlerIdx["llvm.pow"];
  reg("ldexp", H { double x; memcpy(&x, &a[0].c, 8); x = ldexp(x, (int)a[1].c); uint64_t u; memcpy(&u, &x, 8); ret = SVal(u); return H_DONE; });
  auto lr = H { Ex r = mkFUn(K_FROUNDAWAY, E.toEx(a[0], sw(E, cast<CallBase>(in.I)->getArgOperand(0)->getType())), sw(E, cast<CallBase>(in.I)->getArgOperand(0)->getType())); ret = SVal(mkFUn(K_FTOSI, r, retw(E, in))); return H_DONE; };
  for (auto n : {"llvm.lround", "llvm.llround", "lround", "lroundf", "llround", "llroundf"}) reg(n, lr);
  auto lri = H { unsigned w = sw(E, cast<CallBase>(in.I)->getArgOperand(0)->getType()); Ex r = mkFUn(K_FROUNDEVEN, E.toEx(a[0], w), w); ret = SVal(mkFUn(K_FTOSI, r, retw(E, in))); return H_DONE; };
  for (auto n : {"llvm.lrint", "llvm.llrint", "lrint", "lrintf", "llrint", "llrintf"}) reg(n, lri);
  // vector reductions
  auto vr = [](unsigned op) -> Handler { return [op](Engine& E, State& s, const Inst& in, Args& a, SVal& ret) -> HR { unsigned w = retw(E, in); ret = red(E, a[0], [&](const SVal& x, const SVal& y) { return E.binop(op, x, y, w); }); return H_DONE; }; };
  reg("llvm.vector.reduce.add", vr(Instruction::Add)); reg("llvm.vector.reduce.or", vr(Instruction::Or)); reg("llvm.vector.reduce.and", vr(Instruction::And)); reg("llvm.vector.reduce.xor", vr(Instruction::Xor)); reg("llvm.vector.reduce.mul", vr(Instruction::Mul));
  auto vm = [](unsigned p) -> Handler { return [p](Engine& E, State& s, const Inst& in, Args& a, SVal& ret) -> HR { unsigned w = retw(E, in); ret = red(E, a[0], [&](const SVal& x, const SVal& y) { return ite(E, E.cmp(p, x, y, w), x, y, w); }); return H_DONE; }; };
  reg("llvm.vector.reduce.umin", vm(CmpInst::ICMP_ULT)); reg("llvm.vector.reduce.umax", vm(CmpInst::ICMP_UGT)); reg("llvm.vector.reduce.smin", vm(CmpInst::ICMP_SLT)); reg("llvm.vector.reduce.smax", vm(CmpInst::ICMP_SGT));
  reg("llvm.vector.reduce.fadd", H { unsigned w = retw(E, in); SVal r = a[0]; for (auto& x : a[1].g->v) r = E.fbinop(Instruction::FAdd, r, x, w); ret = r; return H_DONE; });
  reg("llvm.vector.reduce.fmul", H { unsigned w = retw(E, in); SVal r = a[0]; for (auto& x : a[1].g->v) r = E.fbinop(Instruction::FMul, r, x, w); ret = r; return H_DONE; });
  reg("llvm.vector.reduce.fmax", H { unsigned w = retw(E, in); ret = red(E, a[0], [&](const SVal& x, const SVal& y) { return fminmax(E, true, x, y, w); }); return H_DONE; });
  reg("llvm.vector.reduce.fmin", H { unsigned w = retw(E, in); ret = red(E, a[0], [&](const SVal& x, const SVal& y) { return fminmax(E, false, x, y, w); }); return H_DONE; });
  reg("llvm.masked.load", H {
    auto* vt = cast<FixedVectorType>(in.I->getType()); uint64_t p = C(E, s, a[0]); uint64_t es = E.DL->getTypeAllocSize(vt->getElementType()); std::vector<SVal> r; bool m512 = a.size() > 2; SVal mask = a[2], pass = a[3]; (void)m512;
    for (unsigned i = 0; i < vt->getNumElements(); i++) { uint64_t m = C(E, s, mask.g->v[i]); if (m & 1) { std::string why; if (!E.checkAccess(s, p + i * es, es, false, why)) return E.fault(s, "memory", why); r.push_back(E.loadT(s, p + i * es, vt->getElementType())); } else r.push_back(pass.g->v[i]); }
    ret = mkAgg(std::move(r)); return H_DONE; });
  reg("llvm.masked.store", H {
    auto* vt = cast<FixedVectorType>(cast<CallBase>(in.I)->getArgOperand(0)->getType()); uint64_t p = C(E, s, a[1]); uint64_t es = E.DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) C(E, s, a[3].g->v[i]);
    for (unsigned i = 0; i < vt->getNumElements(); i++) { uint64_t m = C(E, s, a[3].g->v[i]); if (m & 1) { std::string why; if (!E.checkAccess(s, p + i * es, es, true, why)) return E.fault(s, "memory", why); E.storeT(s, p + i * es, vt->getElementType(), a[0].g->v[i]); } }
    return H_DONE; });
  reg("llvm.masked.gather", H {
    auto* vt = cast<FixedVectorType>(in.I->getType()); uint64_t es = E.DL->getTypeAllocSize(vt->getElementType()); std::vector<SVal> r;
    for (unsigned i = 0; i < vt->getNumElements(); i++) { uint64_t m = C(E, s, a[2].g->v[i]); if (m & 1) { uint64_t p = C(E, s, a[0].g->v[i]); std::string why; if (!E.checkAccess(s, p, es, false, why)) return E.fault(s, "memory", why); r.push_back(E.loadT(s, p, vt->getElementType())); } else r.push_back(a[3].g->v[i]); }
    ret = mkAgg(std::move(r)); return H_DONE; });
  // x86 intrinsics that clang does not lower to generic IR
  auto pmadd = [](bool ub) -> Handler { return [ub](Engine& E, State& s, const Inst& in, Args& a, SVal& ret) -> HR {
    size_t n = a[0].g->v.size() / 2; std::vector<SVal> r; unsigned iw = ub ? 8 : 16, ow = ub ? 16 : 32;
    for (size_t i = 0; i < n; i++) { auto prod = [&](size_t j) { SVal x = E.castop(ub ? Instruction::ZExt : Instruction::SExt, a[0].g->v[j], 32, iw), y = E.castop(Instruction::SExt, a[1].g->v[j], 32, iw); return E.binop(Instruction::Mul, x, y, 32); };
      SVal sum = E.binop(Instruction::Add, prod(2 * i), prod(2 * i + 1), 32);
      if (ub) { SVal hi = ite(E, E.cmp(CmpInst::ICMP_SGT, sum, SVal((uint64_t)32767), 32), SVal((uint64_t)32767), sum, 32); hi = ite(E, E.cmp(CmpInst::ICMP_SLT, hi, SVal((uint64_t)(uint32_t)-32768), 32), SVal((uint64_t)(uint32_t)-32768), hi, 32); sum = E.castop(Instruction::Trunc, hi, ow, 32); }
      r.push_back(sum); }
    ret = mkAgg(std::move(r)); return H_DONE; }; };
  for (auto n : {"llvm.x86.sse2.pmadd.wd", "llvm.x86.avx2.pmadd.wd", "llvm.x86.avx512.pmaddw.d.512"}) reg(n, pmadd(false));
  for (auto n : {"llvm.x86.ssse3.pmadd.ub.sw.128", "llvm.x86.avx2.pmadd.ub.sw", "llvm.x86.avx512.pmaddubs.w.512"}) reg(n, pmadd(true));
  auto psad = H { size_t n = a[0].g->v.size() / 8; std::vector<SVal> r; for (size_t i = 0; i < n; i++) { SVal acc((uint64_t)0); for (size_t j = 0; j < 8; j++) { SVal x = E.castop(Instruction::ZExt, a[0].g->v[i * 8 + j], 64, 8), y = E.castop(Instruction::ZExt, a[1].g->v[i * 8 + j], 64, 8); SVal d = ite(E, E.cmp(CmpInst::ICMP_UGT, x, y, 64), E.binop(Instruction::Sub, x, y, 64), E.binop(Instruction::Sub, y, x, 64), 64); acc = E.binop(Instruction::Add, acc, d, 64); } r.push_back(acc); } ret = mkAgg(std::move(r)); return H_DONE; };
  for (auto n : {"llvm.x86.sse2.psad.bw", "llvm.x86.avx2.psad.bw", "llvm.x86.avx512.psad.bw.512"}) reg(n, psad);
  auto pshufb = H { size_t n = a[0].g->v.size(); std::vector<SVal> r; for (size_t i = 0; i < n; i++) { SVal k = a[1].g->v[i]; size_t lane = i & ~(size_t)15; if (!k.e) { r.push_back((k.c & 0x80) ? SVal((uint64_t)0) : a[0].g->v[lane + (k.c & 15)]); continue; } Ex e = mkConst(0, 8); Ex lo = mkExtract(k.e, 0, 4); Ex acc = mkConst(0, 8); for (unsigned j = 16; j-- > 0;) acc = mkIte(mkEq(mkConst(j, 4), lo), E.toEx(a[0].g->v[lane + j], 8), acc); r.push_back(SVal(mkIte(mkExtract(k.e, 7, 1), e, acc))); } ret = mkAgg(std::move(r)); return H_DONE; };
  for (auto n : {"llvm.x86.ssse3.pshuf.b.128", "llvm.x86.avx2.pshuf.b", "llvm.x86.avx512.pshuf.b.512"}) reg(n, pshufb);
  auto packs = [](unsigned iw, bool us) -> Handler { return [iw, us](Engine& E, State& s, const Inst& in, Args& a, SVal& ret) -> HR { size_t n = a[0].g->v.size(); unsigned per = 128 / iw; std::vector<SVal> r; unsigned ow = iw / 2; int64_t lo = us ? 0 : -(1LL << (ow - 1)), hi = us ? (1LL << ow) - 1 : (1LL << (ow - 1)) - 1; auto cl = [&](const SVal& v) { SVal t = ite(E, E.cmp(CmpInst::ICMP_SGT, v, SVal((uint64_t)hi & mask64(iw)), iw), SVal((uint64_t)hi & mask64(iw)), v, iw); t = ite(E, E.cmp(CmpInst::ICMP_SLT, t, SVal((uint64_t)lo & mask64(iw)), iw), SVal((uint64_t)lo & mask64(iw)), t, iw); return E.castop(Instruction::Trunc, t, ow, iw); };
    for (size_t l = 0; l < n; l += per) { for (unsigned j = 0; j < per; j++) r.push_back(cl(a[0].g->v[l + j])); for (unsigned j = 0; j < per; j++) r.push_back(cl(a[1].g->v[l + j])); } ret = mkAgg(std::move(r)); return H_DONE; }; };
  for (auto p : {"sse2", "avx2"}) { std::string q = std::string("llvm.x86.") + p; bool x = q.find("sse2") != std::string::npos; reg(q + ".packsswb" + (x ? ".128" : ""), packs(16, false)); reg(q + ".packssdw" + (x ? ".128" : ""), packs(32, false)); reg(q + ".packuswb" + (x ? ".128" : ""), packs(16, true)); }
  reg("llvm.x86.sse41.packusdw", packs(32, true)); reg("llvm.x86.avx2.packusdw", packs(32, true));
  auto movmsk = H { unsigned ew = sw(E, cast<CallBase>(in.I)->getArgOperand(0)->getType()); Ex r = nullptr; for (auto& x : a[0].g->v) { Ex b = mkExtract(E.toEx(x, ew), ew - 1, 1); r = r ? mkConcat(b, r) : b; } ret = SVal(mkZExt(r, 32)); return H_DONE; };
  for (auto n : {"llvm.x86.sse2.pmovmskb.128", "llvm.x86.avx2.pmovmskb", "llvm.x86.sse.movmsk.ps", "llvm.x86.sse2.movmsk.pd", "llvm.x86.avx.movmsk.ps.256", "llvm.x86.avx.movmsk.pd.256"}) reg(n, movmsk);
  auto maxps = [](bool mx) -> Handler { return [mx](Engine& E, State& s, const Inst& in, Args& a, SVal& ret) -> HR { unsigned w = retw(E, in); ret = map2(a[0], a[1], [&](const SVal& x, const SVal& y) { Ex p = E.toEx(x, w), q = E.toEx(y, w); return SVal(mkIte(mx ? mkFBin(K_FLT, q, p) : mkFBin(K_FLT, p, q), p, q)); }); return H_DONE; }; };
  for (auto n : {"llvm.x86.sse.max.ps", "llvm.x86.avx.max.ps.256", "llvm.x86.avx512.max.ps.512", "llvm.x86.sse2.max.pd", "llvm.x86.avx.max.pd.256"}) reg(n, maxps(true));
  for (auto n : {"llvm.x86.sse.min.ps", "llvm.x86.avx.min.ps.256", "llvm.x86.avx512.min.ps.512", "llvm.x86.sse2.min.pd", "llvm.x86.avx.min.pd.256"}) reg(n, maxps(false));
  auto cvtdq = H { unsigned fw = sw(E, cast<CallBase>(in.I)->getArgOperand(0)->getType()); ret = mapv(a[0], [&](const SVal& x) { return SVal(mkFUn(K_FTOSI, mkFUn(K_FROUNDEVEN, E.toEx(x, fw), fw), 32)); }); return H_DONE; };
  for (auto n : {"llvm.x86.sse2.cvtps2dq", "llvm.x86.avx.cvt.ps2dq.256", "llvm.x86.avx512.mask.cvtps2dq.512"}) reg(n, cvtdq);
  auto cvttdq = H { unsigned fw = sw(E, cast<CallBase>(in.I)->getArgOperand(0)->getType()); ret = mapv(a[0], [&](const SVal& x) { return SVal(mkFUn(K_FTOSI, E.toEx(x, fw), 32)); }); return H_DONE; };
  for (auto n : {"llvm.x86.sse2.cvttps2dq", "llvm.x86.avx.cvtt.ps2dq.256"}) reg(n, cvttdq);
  auto rnd = H { unsigned w = retw(E, in); uint64_t m = a.back().c & 7; Kind k = m == 1 ? K_FFLOOR : m == 2 ? K_FCEIL : m == 3 ? K_FRTZ : K_FROUNDEVEN; ret = mapv(a[0], [&](const SVal& x) { return SVal(mkFUn(k, E.toEx(x, w), w)); }); return H_DONE; };
  for (auto n : {"llvm.x86.sse41.round.ps", "llvm.x86.avx.round.ps.256"}) reg(n, rnd);
  auto hadd = H { unsigned w = retw(E, in); size_t n = a[0].g->v.size(), per = 128 / w; std::vector<SVal> r; for (size_t l = 0; l < n; l += per) for (int q = 0; q < 2; q++) for (size_t j = 0; j < per; j += 2) r.push_back(E.fbinop(Instruction::FAdd, a[q].g->v[l + j], a[q].g->v[l + j + 1], w)); ret = mkAgg(std::move(r)); return H_DONE; };
  for (auto n : {"llvm.x86.sse3.hadd.ps", "llvm.x86.avx.hadd.ps.256", "llvm.x86.sse3.hadd.pd", "llvm.x86.avx.hadd.pd.256"}) reg(n, hadd);
  auto phadd = H { unsigned w = retw(E, in); size_t n = a[0].g->v.size(), per = 128 / w; std::vector<SVal> r; for (size_t l = 0; l < n; l += per) for (int q = 0; q < 2; q++) for (size_t j = 0; j < per; j += 2) r.push_back(E.binop(Instruction::Add, a[q].g->v[l + j], a[q].g->v[l + j + 1], w)); ret = mkAgg(std::move(r)); return H_DONE; };
  for (auto n : {"llvm.x86.ssse3.phadd.d.128", "llvm.x86.avx2.phadd.d", "llvm.x86.ssse3.phadd.w.128", "llvm.x86.avx2.phadd.w"}) reg(n, phadd);
  auto permvar = H { unsigned w = retw(E, in); size_t n = a[0].g->v.size(); std::vector<SVal> r; for (size_t i = 0; i < n; i++) { uint64_t k = C(E, s, a[1].g->v[i]); r.push_back(a[0].g->v[k & (n - 1)]); } ret = mkAgg(std::move(r)); return H_DONE; };
  for (auto n : {"llvm.x86.avx2.permd", "llvm.x86.avx2.permps"}) reg(n, permvar);
  // sequential FP ops of AVX512 with rounding argument
  // ---- allocation
  reg("malloc", H { return doMalloc(E, s, a[0], 1, ret); });
  reg("calloc", H { uint64_t n = C(E, s, a[0]), m = C(E, s, a[1]); if (m && n > (256ull << 20) / m) { ret = SVal((uint64_t)0); return H_DONE; } return doMalloc(E, s, SVal(n * m), 1, ret, true); });
  reg("aligned_alloc", H { C(E, s, a[0]); return doMalloc(E, s, a[1], 1, ret); });
  reg("posix_memalign", H { uint64_t out = C(E, s, a[0]); SVal p; HR r = doMalloc(E, s, a[2], 1, p); if (r != H_DONE) return r; if (!p.c) { ret = SVal((uint64_t)12); return H_DONE; } E.writeN(s, out, 8, p); ret = SVal((uint64_t)0); return H_DONE; });
  reg("realloc", H { uint64_t p = C(E, s, a[0]), n = C(E, s, a[1]); if (n > (256ull << 20)) { ret = SVal((uint64_t)0); return H_DONE; } if (!p) return doMalloc(E, s, SVal(n), 1, ret); const Obj* o = s.mem.find(p); if (!o || o->freed || o->base != p || o->kind != OK_HEAP) return E.fault(s, "memory", "realloc of invalid pointer"); uint64_t os = o->size; uint64_t q = E.mallocN(s, n, 1); HR r = E.copyMem(s, q, p, std::min(os, n)); if (r != H_DONE) return r; r = E.freePtr(s, p, 1); ret = SVal(q); return r; });
  reg("free", H { return E.freePtr(s, C(E, s, a[0]), 1); });
  for (auto n : {"_Znwm", "_ZnwmSt11align_val_t"}) reg(n, H { return opNew(E, s, a[0], 2, ret); });
  for (auto n : {"_Znam", "_ZnamSt11align_val_t"}) reg(n, H { return opNew(E, s, a[0], 3, ret); });
  for (auto n : {"_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) reg(n, H { return doMalloc(E, s, a[0], 2, ret); });
  for (auto n : {"_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_tRKSt9nothrow_t"}) reg(n, H { return doMalloc(E, s, a[0], 3, ret); });
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdlPvSt11align_val_tRKSt9nothrow_t"}) reg(n, H { return E.freePtr(s, C(E, s, a[0]), 2); });
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t", "_ZdaPvSt11align_val_tRKSt9nothrow_t"}) reg(n, H { return E.freePtr(s, C(E, s, a[0]), 3); });
  reg("malloc_usable_size", H { const Obj* o = s.mem.find(a[0].c); ret = SVal(o ? o->size : 0); return H_DONE; });
  // ---- exceptions
  reg("__cxa_allocate_exception", H { uint64_t p = excAlloc(E, s, C(E, s, a[0])); s.exc[p] = {}; ret = SVal(p); return H_DONE; });
  reg("__cxa_free_exception", H { s.exc.erase(a[0].c); return H_DONE; });
  reg("__cxa_init_primary_exception", H { auto& x = s.exc[a[0].c]; x.ti = a[1].c; x.dtor = a[2].c; ret = a[0]; return H_DONE; });
  reg("__cxa_throw", H { auto& x = s.exc[a[0].c]; x.ti = a[1].c; x.dtor = a[2].c; return E.throwExc(s, a[0].c); });
  reg("__cxa_rethrow", H { if (s.T().caught.empty()) return E.fault(s, "abort", "rethrow without exception"); uint64_t o = s.T().caught.back(); s.exc[o].rethrown = true; s.T().uncaught++; return E.unwind(s, o); });
  reg("__cxa_begin_catch", H { s.T().caught.push_back(a[0].c); auto& x = s.exc[a[0].c]; x.handlers++; x.rethrown = false; if (s.T().uncaught) s.T().uncaught--; ret = a[0]; return H_DONE; });
  reg("__cxa_get_exception_ptr", id);
  reg("__cxa_end_catch", H {
    if (s.T().caught.empty()) return H_DONE; uint64_t o = s.T().caught.back(); s.T().caught.pop_back(); auto& x = s.exc[o]; x.handlers--;
    if (x.handlers <= 0 && !x.rethrown && x.refs == 0 && x.dtor) { auto it = E.funcByAddr.find(x.dtor); x.dtor = 0; if (it != E.funcByAddr.end() && !it->second->F->isDeclaration()) { Args v{SVal(o)}; return E.pushCall(s, it->second, v, &in, 1); } }
    return H_DONE; });
  reg("_Unwind_Resume", H { return E.unwind(s, a[0].c); });
  reg("__cxa_current_exception_type", H { ret = SVal(s.T().caught.empty() ? 0 : s.exc[s.T().caught.back()].ti); return H_DONE; });
  reg("_ZSt17current_exceptionv", H { uint64_t o = s.T().caught.empty() ? 0 : s.T().caught.back(); if (o) s.exc[o].refs++; E.writeN(s, a[0].c, 8, SVal(o)); ret = a[0]; return H_DONE; });
  reg("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", H { uint64_t o = E.readN(s, a[0].c, 8).c; if (o) s.exc[o].refs++; return H_DONE; });
  reg("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", H { uint64_t o = E.readN(s, a[0].c, 8).c; if (o) { s.exc[o].refs--; E.writeN(s, a[0].c, 8, SVal((uint64_t)0)); } return H_DONE; });
  reg("_ZNSt15__exception_ptr13exception_ptrC1EPv", H { E.writeN(s, a[0].c, 8, a[1]); if (a[1].c) s.exc[a[1].c].refs++; return H_DONE; });
  handlerIdx["_ZNSt15__exception_ptr13exception_ptrC2EPv"] = handlerIdx["_ZNSt15__exception_ptr13exception_ptrC1EPv"];
  reg("_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", H { uint64_t o = E.readN(s, a[1].c, 8).c; if (o) s.exc[o].refs++; E.writeN(s, a[0].c, 8, SVal(o)); return H_DONE; });
  handlerIdx["_ZNSt15__exception_ptr13exception_ptrC2ERKS0_"] = handlerIdx["_ZNSt15__exception_ptr13exception_ptrC1ERKS0_"];
  reg("_ZNSt15__exception_ptr13exception_ptrD1Ev", H { uint64_t o = E.readN(s, a[0].c, 8).c; if (o) s.exc[o].refs--; return H_DONE; });
  handlerIdx["_ZNSt15__exception_ptr13exception_ptrD2Ev"] = handlerIdx["_ZNSt15__exception_ptr13exception_ptrD1Ev"];
  reg("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", H { uint64_t o = E.readN(s, a[0].c, 8).c; s.exc[o].refs++; s.exc[o].rethrown = true; s.T().uncaught++; return E.unwind(s, o); });
  reg("_ZSt18uncaught_exceptionv", H { ret = SVal((uint64_t)(s.T().uncaught > 0)); return H_DONE; });
  reg("_ZSt19uncaught_exceptionsv", H { ret = SVal((uint64_t)s.T().uncaught); return H_DONE; });
  reg("__dynamic_cast", H { // (obj, src, dst, hint)
    uint64_t p = C(E, s, a[0]); uint64_t vt = C(E, s, E.readN(s, p, 8)); uint64_t ti = E.readN(s, vt - 8, 8).c; int64_t top = (int64_t)E.readN(s, vt - 16, 8).c; uint64_t full = p + top;
    std::function<int64_t(uint64_t, uint64_t)> off = [&](uint64_t t, uint64_t want) -> int64_t { if (t == want) return 0; uint64_t v = E.readN(s, t, 8).c; if (E.tiVtSi && v == E.tiVtSi) return off(E.readN(s, t + 16, 8).c, want); if (E.tiVtVmi && v == E.tiVtVmi) { uint64_t n = E.readN(s, t + 20, 4).c; for (uint64_t i = 0; i < n; i++) { int64_t fl = (int64_t)E.readN(s, t + 32 + 16 * i, 8).c; if (fl & 1) continue; int64_t o = off(E.readN(s, t + 24 + 16 * i, 8).c, want); if (o >= 0) return o + (fl >> 8); } } return -1; };
    int64_t o = off(ti, a[2].c); ret = SVal(o < 0 ? 0 : full + o); return H_DONE; });
  reg("__cxa_guard_acquire", H { ret = SVal((uint64_t)(E.readN(s, a[0].c, 1).c == 0)); return H_DONE; });
  reg("__cxa_guard_release", H { E.writeN(s, a[0].c, 1, SVal((uint64_t)1)); return H_DONE; });
  reg("__cxa_guard_abort", nop);
  reg("__cxa_thread_atexit", H { s.T().tdtors.push_back({a[0].c, a[1].c}); ret = SVal((uint64_t)0); return H_DONE; });
  reg("__cxa_pure_virtual", H { return E.fault(s, "abort", "pure virtual call"); });
  reg("__cxa_throw_bad_array_new_length", H { return throwBadAlloc(E, s, "_ZTISt20bad_array_new_length", "_ZTVSt20bad_array_new_length"); });
  handlerIdx["_ZSt28__throw_bad_array_new_lengthv"] = handlerIdx["__cxa_throw_bad_array_new_length"];
  reg("_ZSt17__throw_bad_allocv", H { return throwBadAlloc(E, s); });
  reg("__cxa_bad_cast", H { return throwBadAlloc(E, s, "_ZTISt8bad_cast", "_ZTVSt8bad_cast"); });
  reg("__errno_location", H { Thread& t = s.T(); if (!t.errnoObj) t.errnoObj = s.mem.alloc(4, OK_GLOBAL, 0); ret = SVal(t.errnoObj); return H_DONE; });
  reg("abort", H { return E.fault(s, "abort", "abort() called"); });
  reg("_ZSt9terminatev", H { return E.fault(s, "abort", "std::terminate called"); });
  reg("__clang_call_terminate", H { return E.fault(s, "abort", "std::terminate called (exception escaped a noexcept function)"); });
  reg("exit", H { return E.fault(s, "abort", "exit() called"); }); handlerIdx["_exit"] = handlerIdx["exit"];
  reg("__assert_fail", H { return E.fault(s, "assert", "assertion failed: " + strArg(E, s, a[0])); });
  reg("_ZSt21__glibcxx_assert_failPKciS0_S0_", H { return E.fault(s, "assert", "libstdc++ assertion: " + strArg(E, s, a[3])); });
  reg("__stack_chk_fail", H { return E.fault(s, "abort", "stack smashing"); });
  // ---- varargs (x86-64 va_list: all in the overflow area)
  reg("llvm.va_start", H {
    Frame& f = s.F(); uint64_t n = f.varargs.size(); uint64_t o = s.mem.alloc(n * 8 + 8, OK_STACK, 0); for (uint64_t i = 0; i < n; i++) E.writeN(s, o + 8 * i, 8, f.varargs[i].e ? SVal(mkZExt(f.varargs[i].e, 64)) : f.varargs[i]);
    E.writeN(s, a[0].c, 4, SVal((uint64_t)48)); E.writeN(s, a[0].c + 4, 4, SVal((uint64_t)304)); E.writeN(s, a[0].c + 8, 8, SVal(o)); E.writeN(s, a[0].c + 16, 8, SVal((uint64_t)0)); return H_DONE; });
  reg("llvm.va_copy", H { return E.copyMem(s, a[0].c, a[1].c, 24); });
  // ---- threads
  reg("pthread_create", H { bool go; HR r = E.schedPoint(s, go); if (!go) return r; uint64_t fn = C(E, s, a[2]); int t = E.newThread(s, fn, a[3].c); E.writeN(s, a[0].c, 8, SVal((uint64_t)t + 0x1000)); ret = SVal((uint64_t)0); s.T().afterCreate = true; return H_DONE; });
  reg("pthread_join", H { uint64_t t = C(E, s, a[0]) - 0x1000; if (t >= s.th.size()) return E.fault(s, "sync", "join of an invalid thread"); if (s.th[t].stat != T_DONE) { s.T().stat = T_JOIN; s.T().waitAddr = t; return E.block(s); } ret = SVal((uint64_t)0); return H_DONE; });
  reg("pthread_detach", H { ret = SVal((uint64_t)0); return H_DONE; });
  reg("pthread_self", H { ret = SVal((uint64_t)s.cur + 0x1000); return H_DONE; });
  reg("pthread_equal", H { ret = SVal((uint64_t)(C(E, s, a[0]) == C(E, s, a[1]))); return H_DONE; });
  reg("gettid", H { ret = SVal((uint64_t)s.cur + 100); return H_DONE; });
  reg("pthread_mutex_lock", H { return lockMutex(E, s, C(E, s, a[0]), false, ret); });
  reg("pthread_mutex_trylock", H { return lockMutex(E, s, C(E, s, a[0]), true, ret); });
  reg("pthread_mutex_unlock", H { return unlockMutex(E, s, C(E, s, a[0]), ret); });
  reg("pthread_rwlock_rdlock", H { bool go; HR r = E.schedPoint(s, go); if (!go) return r; auto& x = s.rw[C(E, s, a[0])]; if (x.writer == s.cur) { ret = SVal((uint64_t)35); return H_DONE; } if (x.writer >= 0) { s.T().stat = T_RDLOCK; s.T().waitAddr = a[0].c; return E.block(s); } x.readers.push_back(s.cur); ret = SVal((uint64_t)0); return H_DONE; });
  reg("pthread_rwlock_wrlock", H { bool go; HR r = E.schedPoint(s, go); if (!go) return r; auto& x = s.rw[C(E, s, a[0])]; if (x.writer == s.cur) return E.fault(s, "deadlock", "rwlock relocked by its writer"); if (x.writer >= 0 || !x.readers.empty()) { for (int q : x.readers) if (q == s.cur) return E.fault(s, "deadlock", "rwlock upgrade while holding a read lock"); s.T().stat = T_WRLOCK; s.T().waitAddr = a[0].c; return E.block(s); } x.writer = s.cur; ret = SVal((uint64_t)0); return H_DONE; });
  reg("pthread_rwlock_tryrdlock", H { bool go; HR r = E.schedPoint(s, go); if (!go) return r; auto& x = s.rw[C(E, s, a[0])]; if (x.writer >= 0) { ret = SVal((uint64_t)16); return H_DONE; } x.readers.push_back(s.cur); ret = SVal((uint64_t)0); return H_DONE; });
  reg("pthread_rwlock_trywrlock", H { bool go; HR r = E.schedPoint(s, go); if (!go) return r; auto& x = s.rw[C(E, s, a[0])]; if (x.writer >= 0 || !x.readers.empty()) { ret = SVal((uint64_t)16); return H_DONE; } x.writer = s.cur; ret = SVal((uint64_t)0); return H_DONE; });
  reg("pthread_rwlock_unlock", H { auto& x = s.rw[C(E, s, a[0])]; if (x.writer == s.cur) x.writer = -1; else { bool f = false; for (size_t i = 0; i < x.readers.size(); i++) if (x.readers[i] == s.cur) { x.readers.erase(x.readers.begin() + i); f = true; break; } if (!f) return E.fault(s, "sync", "rwlock unlock without holding it"); } ret = SVal((uint64_t)0); return H_DONE; });
  reg("pthread_cond_wait", H { return condWait(E, s, C(E, s, a[0]), C(E, s, a[1]), false, ret); });
  auto tw = H { return condWait(E, s, C(E, s, a[0]), C(E, s, a[1]), true, ret); };
  reg("pthread_cond_timedwait", tw); reg("pthread_cond_clockwait", tw);
  reg("pthread_cond_signal", H { return condSignal(E, s, C(E, s, a[0]), false, ret); });
  reg("pthread_cond_broadcast", H { return condSignal(E, s, C(E, s, a[0]), true, ret); });
  reg("sched_yield", H { ret = SVal((uint64_t)0); if (s.th.size() > 1 && !s.T().schedDone) { s.T().schedDone = true; std::vector<int> cand; for (auto& o : s.th) if (o.id != s.cur && E.runnable(s, o)) cand.push_back(o.id); if (E.opt.replay && s.sched.size() < E.opt.replaySched.size()) cand = {E.opt.replaySched[s.sched.size()]}; if (!cand.empty()) { for (size_t i = 1; i < cand.size() && s.preempt < E.opt.preemptBound; i++) { State* n = E.clone(s); n->preempt++; n->cur = cand[i]; n->sched.push_back(cand[i]); if (n->T().stat != T_RUN) { n->T().timedOut = n->T().timed; n->T().stat = T_RUN; } E.work.push_back(n); } int nx = cand[0]; for (int c : cand) if (c > s.cur) { nx = c; break; } s.cur = nx; if (s.T().stat != T_RUN) { s.T().timedOut = s.T().timed; s.T().stat = T_RUN; } s.sched.push_back(nx); return H_JUMP; } } s.T().schedDone = false; return H_DONE; });
  handlerIdx["pthread_yield"] = handlerIdx["sched_yield"];
  for (auto n : {"nanosleep", "clock_nanosleep"}) handlerIdx[n] = handlerIdx["sched_yield"];
  reg("syscall", H {
    uint64_t nr = a[0].c; if (nr != 202) { return E.fault(s, "engine", "syscall " + std::to_string(nr)); }
    uint64_t op = a[2].c & 127; uint64_t ad = a[1].c;
    if (op == 0 || op == 9) { Thread& t = s.T(); if (t.condPhase == 1) { t.condPhase = 0; bool to = t.timedOut; t.timed = false; t.timedOut = false; if (to) { if (!t.errnoObj) t.errnoObj = s.mem.alloc(4, OK_GLOBAL, 0); E.writeN(s, t.errnoObj, 4, SVal((uint64_t)110)); ret = SVal(~0ULL); } else ret = SVal((uint64_t)0); return H_DONE; }
      bool go; HR r = E.schedPoint(s, go); if (!go) return r; SVal cur = E.readN(s, ad, 4); if (cur.e || cur.c != (a[3].c & 0xffffffff)) { if (!t.errnoObj) t.errnoObj = s.mem.alloc(4, OK_GLOBAL, 0); E.writeN(s, t.errnoObj, 4, SVal((uint64_t)11)); ret = SVal(~0ULL); return H_DONE; }
      t.condPhase = 1; t.stat = T_FUTEX; t.waitAddr = ad; t.timed = a.size() > 4 && a[4].c != 0; t.timedOut = false; return E.block(s); }
    if (op == 1 || op == 10) { bool go; HR r = E.schedPoint(s, go); if (!go) return r; uint64_t n = 0; for (auto& t : s.th) if (n < a[3].c && t.stat == T_FUTEX && t.waitAddr == ad) { t.stat = T_RUN; t.timedOut = false; n++; } ret = SVal(n); return H_DONE; }
    return E.fault(s, "engine", "futex op"); });
  handlerIdx["symx_raw_syscall"] = handlerIdx["syscall"];
  // ---- symx API
  auto sym = [](unsigned w) -> Handler { return [w](Engine& E, State& s, const Inst& in, Args& a, SVal& ret) -> HR { ret = freshSym(s, strArg(E, s, a[0]), w); return H_DONE; }; };
  reg("symx_u8", sym(8)); reg("symx_u16", sym(16)); reg("symx_u32", sym(32)); reg("symx_u64", sym(64)); reg("symx_f32", sym(32)); reg("symx_f64", sym(64));
  reg("symx_bool", H { SVal v = freshSym(s, strArg(E, s, a[0]), 1); ret = SVal(mkZExt(E.toEx(v, 1), retw(E, in))); return H_DONE; });
  reg("symx_bytes", H { uint64_t p = a[0].c, n = C(E, s, a[1]); std::string nm = strArg(E, s, a[2]), why; if (n && !E.checkAccess(s, p, n, true, why)) return E.fault(s, "engine", "symx_bytes " + why); for (uint64_t i = 0; i < n; i++) E.writeN(s, p + i, 1, freshSym(s, nm, 8)); return H_DONE; });
  reg("symx_range", H { // (lo, hi, name) inclusive
    SVal v = freshSym(s, strArg(E, s, a[2]), 64); Ex c = mkAnd(mkBin(K_ULE, E.toEx(a[0], 64), E.toEx(v, 64)), mkBin(K_ULE, E.toEx(v, 64), E.toEx(a[1], 64))); if (!E.assume(s, c)) { E.endPath(s, false); return H_DEAD; } ret = E.norm(s, v); return H_DONE; });
  reg("symx_concretize", H { ret = SVal(C(E, s, a[0])); return H_DONE; });
  reg("symx_assume", H { Ex c = boolEx(E, a[0]); E.assumes++; if (!E.assume(s, c)) { E.infeasible++; return H_DEAD; } return H_DONE; });
  reg("symx_check", H { return doCheck(E, s, boolEx(E, a[0]), strArg(E, s, a[1]), "", nullptr); });
  reg("symx_check_known", H { return doCheck(E, s, boolEx(E, a[0]), strArg(E, s, a[1]), strArg(E, s, a[2]), boolEx(E, a[3])); });
  reg("symx_fail", H { return E.fault(s, "check", strArg(E, s, a[0])); });
  reg("symx_known_fail", H { std::string id = strArg(E, s, a[1]); if (!E.knownHits[id]++) E.report(s, "known " + id + ": " + strArg(E, s, a[0]), strArg(E, s, a[0]), s.model, true); E.endPath(s, false); return H_DEAD; });
  reg("symx_reach", H { s.reached.insert(strArg(E, s, a[0])); return H_DONE; });
  reg("symx_out", H { SVal v = a[1]; uint64_t x = v.e ? (uint64_t)evalExpr(v.e, s.model) : v.c; (void)x; s.outExprs.push_back({strArg(E, s, a[0]), E.toEx(v, 64)}); return H_DONE; });
  reg("symx_param", H { std::string k = strArg(E, s, a[0]); auto it = E.opt.params.find(k); ret = it != E.opt.params.end() ? SVal((uint64_t)it->second) : a[1]; return H_DONE; });
  reg("symx_is_symbolic", H { ret = SVal((uint64_t)(a[0].e != nullptr)); return H_DONE; });
  reg("symx_in_engine", H { ret = SVal((uint64_t)1); return H_DONE; });
  reg("symx_heap_live", H { ret = SVal((uint64_t)s.liveHeap); return H_DONE; });
  reg("symx_trace", H { if (E.opt.verbose) { fprintf(stderr, "TRACE %s", strArg(E, s, a[0]).c_str()); for (size_t i = 1; i < a.size(); i++) { if (a[i].e) fprintf(stderr, " %s", exprStr(a[i].e, 6).c_str()); else fprintf(stderr, " %lld", (long long)a[i].c); } fprintf(stderr, "\n"); } return H_DONE; });
  reg("symx_end_path", H { E.endPath(s, true); return H_DEAD; });
  reg("symx_thread_count", H { ret = SVal((uint64_t)s.th.size()); return H_DONE; });
  reg("symx_try", H { uint64_t fn = C(E, s, a[0]); auto it = E.funcByAddr.find(fn); if (it == E.funcByAddr.end()) return E.fault(s, "engine", "symx_try"); Args v{a[1]}; HR r = E.pushCall(s, it->second, v, &in, 1); s.F().tryId = ++s.tryCounter; return r; });
  reg("symx_abort_try", H {
    SVal code = a[0]; while (true) { Frame& f = s.F(); if (f.tryId) { const Inst* call = f.call; E.popTop(s); s.T().caught.clear(); s.T().uncaught = 0; return E.finishCall(s, *call, code); } E.popTop(s); if (s.T().st.empty()) return E.fault(s, "engine", "abort_try without try"); } });
  // time
  reg("time", H { if (a[0].c) E.writeN(s, a[0].c, 8, SVal((uint64_t)1700000000)); ret = SVal((uint64_t)1700000000); return H_DONE; });
  reg("getpid", H { ret = SVal((uint64_t)4242); return H_DONE; });
  reg("getenv", H { ret = SVal((uint64_t)0); return H_DONE; });
}
