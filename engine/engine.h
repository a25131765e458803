#pragma once
#include "state.h"
#include <chrono>
enum HR { H_DONE, H_RETRY, H_DEAD, H_JUMP };
struct Engine;
typedef std::function<HR(Engine&, State&, const Inst&, std::vector<SVal>&, SVal&)> Handler;
struct Violation { std::string key, msg, trace; std::vector<std::tuple<std::string, unsigned, std::string, bool>> inputs; std::vector<int> sched; bool known = false; };
struct Options { bool replay = false; std::vector<std::string> replayIn; std::vector<int> replaySched; double maxTime = 600; uint64_t maxSteps = 0; uint64_t maxStepsPath = 200000000; int preemptBound = 2; std::map<std::string, int64_t> params; uint64_t maxPaths = 0; bool verbose = false; uint64_t concretizeCap = 4096; int maxViol = 8; std::map<std::string, std::vector<uint64_t>> fixedInputs; bool races = false; int forkCmp = 0; uint64_t seed = 1; bool randomSearch = false; long maxMemMB = 6000; uint64_t maxSamples = 16; uint64_t iteReadCap = 512, iteWriteCap = 64; };

struct Engine {
  std::unique_ptr<llvm::Module> M; const llvm::DataLayout* DL;
  Options opt; Solver solver;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
  std::unordered_map<uint64_t, FuncInfo*> funcByAddr;
  std::unordered_map<const llvm::Function*, FuncInfo*> finfo;
  std::unordered_map<std::string, int> handlerIdx; std::vector<Handler> handlers; std::vector<std::string> handlerNames;
  std::unordered_map<unsigned, int> intrHandler;
  std::vector<State*> work;
  std::vector<Violation> violations; std::map<std::string, int> violCount;
  std::map<std::string, uint64_t> knownHits; std::set<std::string> knownIds;
  std::set<std::string> reachedAll; std::set<std::string> unmodelled;
  uint64_t nextStateId = 1, paths = 0, infeasible = 0, steps = 0, forks = 0, checks = 0, checksSolver = 0, truncated = 0, inconclusive = 0, maxDepth = 0, schedPoints = 0;
  std::map<std::string, uint64_t> checkCounts; uint64_t assumes = 0; std::set<std::string> inconclusiveMsgs; void popTop(State& s);
  std::vector<std::string> samples; struct PathSample { std::vector<std::tuple<std::string, unsigned, std::string, bool>> inputs; std::vector<std::string> reached, outs; }; std::vector<PathSample> psamples; uint64_t stepLimited = 0, leftover = 0; bool memLimited = false, fatalStop = false; uint64_t rngs = 88172645463325252ULL; uint64_t rng() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }
  std::string fatal; bool stop = false; std::chrono::steady_clock::time_point t0;
  State init; uint64_t ehIdNext = 1; std::unordered_map<uint64_t, uint64_t> ehIds;
  uint64_t tiVtSi = 0, tiVtVmi = 0, tiVtClass = 0;

  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  // setup
  void load(const std::vector<std::string>& files);
  void setupGlobals(); void initConst(State& s, uint64_t addr, llvm::Constant* c);
  SVal constVal(llvm::Constant* c); SVal constVal0(llvm::Constant* c);
  FuncInfo* fi(llvm::Function* f); void compile(FuncInfo* f);
  void registerHandlers(); void reg(const std::string& n, Handler h); int findHandler(const std::string& n);
  // run
  void runEntry(const std::string& name); void loop(); bool stepState(State& s); // false: state finished
  State* clone(State& s);
  HR exec(State& s, const Inst& in);
  HR doCall(State& s, const Inst& in); HR inlineAsm(State& s, const Inst& in, const std::string& as);
  HR pushCall(State& s, FuncInfo* f, std::vector<SVal>& args, const Inst* call, size_t nfixed);
  HR finishCall(State& s, const Inst& in, SVal ret);
  HR doReturn(State& s, SVal v);
  void jump(State& s, uint32_t bb);
  HR throwExc(State& s, uint64_t obj); HR unwind(State& s, uint64_t obj);
  bool typeMatch(State& s, uint64_t catchTi, uint64_t throwTi);
  // values
  SVal get(State& s, const Opnd& o);
  SVal norm(State& s, SVal v); Ex simp(State& s, Ex e); Ex simpRec(State& s, Ex e, unsigned& budget);
  SVal simpV(State& s, SVal v) { v = norm(s, std::move(v)); if (v.e) { Ex x = simp(s, v.e); if (x != v.e) return SVal(x); } return v; }
  Ex toEx(const SVal& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
  SVal binop(unsigned op, const SVal& a, const SVal& b, unsigned w);
  SVal fbinop(unsigned op, const SVal& a, const SVal& b, unsigned w);
  SVal cmp(unsigned pred, const SVal& a, const SVal& b, unsigned w);
  SVal fcmp(unsigned pred, const SVal& a, const SVal& b, unsigned w);
  SVal castop(unsigned op, const SVal& a, unsigned w, unsigned w2);
  SVal select(const SVal& c, const SVal& a, const SVal& b, llvm::Type* t);
  unsigned bits(llvm::Type* t);
  SVal bitcastVal(const SVal& v, llvm::Type* from, llvm::Type* to);
  // constraints
  void addPC(State& s, Ex c);
  // 1: true only, 0: false only, 2: forked (current follows `cur` value in out)
  int branch(State& s, Ex cond, bool& taken, bool retryOther);
  bool feasible(State& s, Ex c, Model& m);
  bool assume(State& s, Ex c);
  uint64_t concretize(State& s, const SVal& v, unsigned w);
  // memory
  HR load(State& s, const Inst& in, const SVal& addr, llvm::Type* t, SVal& out);
  HR store(State& s, const Inst& in, const SVal& addr, llvm::Type* t, const SVal& v);
  SVal loadT(State& s, uint64_t addr, llvm::Type* t); void storeT(State& s, uint64_t addr, llvm::Type* t, const SVal& v);
  SVal readN(State& s, uint64_t addr, unsigned n); SVal readObj(const Obj* o, uint64_t off, unsigned n);
  void writeN(State& s, uint64_t addr, unsigned n, const SVal& v);
  bool checkAccess(State& s, uint64_t addr, uint64_t n, bool w, std::string& why);
  HR resolve(State& s, const SVal& addr, uint64_t n, bool w, uint64_t& out, bool& symbolic, Ex& off, uint64_t& lo, uint64_t& hi, uint64_t& stride);
  HR copyMem(State& s, uint64_t d, uint64_t sr, uint64_t n);
  std::string cstr(State& s, uint64_t a, bool* ok = nullptr, size_t max = 4096);
  uint64_t mallocN(State& s, uint64_t n, uint8_t kind); HR freePtr(State& s, uint64_t p, uint8_t kind);
  // faults
  HR fault(State& s, const std::string& kind, const std::string& msg);
  void report(State& s, const std::string& key, const std::string& msg, const Model& m, bool known = false);
  std::string trace(State& s);
  void endPath(State& s, bool ok);
  // threads
  HR schedPoint(State& s, bool& proceed); HR block(State& s); bool runnable(State& s, Thread& t); HR switchAway(State& s, bool forced);
  int newThread(State& s, uint64_t fn, uint64_t arg);
  std::string fname(const Inst& in);
  uint64_t funcAddr(const std::string& n);
};
