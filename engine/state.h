#pragma once
#include "expr.h"
#include "solver.h"
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"

struct Agg;
struct SVal {
  uint64_t c = 0; Ex e = nullptr; Agg* g = nullptr;
  SVal() {}
  SVal(uint64_t x) : c(x) {}
  SVal(Ex x) : e(x) { if (x->isConst() && x->width <= 64) { c = x->c64(); e = nullptr; } }
  inline SVal(const SVal& o); inline SVal(SVal&& o) noexcept : c(o.c), e(o.e), g(o.g) { o.g = nullptr; }
  inline SVal& operator=(const SVal& o); inline SVal& operator=(SVal&& o) noexcept;
  inline ~SVal();
  bool sym() const { return e != nullptr; }
};
struct Agg { int rc = 1; std::vector<SVal> v; };
inline SVal::SVal(const SVal& o) : c(o.c), e(o.e), g(o.g) { if (g) g->rc++; }
inline SVal::~SVal() { if (g && --g->rc == 0) delete g; }
inline SVal& SVal::operator=(const SVal& o) { if (this != &o) { if (o.g) o.g->rc++; if (g && --g->rc == 0) delete g; c = o.c; e = o.e; g = o.g; } return *this; }
inline SVal& SVal::operator=(SVal&& o) noexcept { if (this != &o) { if (g && --g->rc == 0) delete g; c = o.c; e = o.e; g = o.g; o.g = nullptr; } return *this; }
inline SVal mkAgg(std::vector<SVal> v) { SVal r; r.g = new Agg; r.g->v = std::move(v); return r; }

// ---------- memory ----------
struct Contents { int rc = 1; std::vector<uint8_t> b; std::vector<Ex> s; };
enum ObjKind : uint8_t { OK_NONE, OK_HEAP, OK_STACK, OK_GLOBAL, OK_FUNC, OK_CONT };
struct Obj { uint64_t base = 0, size = 0; ObjKind kind = OK_NONE; bool freed = false, ro = false; uint8_t allocKind = 0; Contents* c = nullptr; };
constexpr unsigned SLOT_BITS = 20; constexpr unsigned PAGE = 64;
struct Page { int rc = 1; Obj o[PAGE]; };
struct Memory {
  std::vector<Page*> pages; uint64_t nextSlot = 16;
  Memory() {}
  Memory(const Memory& m) : pages(m.pages), nextSlot(m.nextSlot) { for (auto p : pages) if (p) p->rc++; }
  Memory& operator=(const Memory&) = delete;
  ~Memory() { for (auto p : pages) drop(p); }
  static void drop(Page* p) { if (p && --p->rc == 0) { for (auto& o : p->o) if (o.c && --o.c->rc == 0) delete o.c; delete p; } }
  Page* wpage(uint64_t pi) {
    if (pi >= pages.size()) pages.resize(pi + 64, nullptr);
    Page*& p = pages[pi];
    if (!p) p = new Page;
    else if (p->rc > 1) { Page* n = new Page; for (unsigned i = 0; i < PAGE; i++) { n->o[i] = p->o[i]; if (n->o[i].c) n->o[i].c->rc++; } p->rc--; p = n; }
    return p;
  }
  const Obj* slotObj(uint64_t slot) const { uint64_t pi = slot / PAGE; if (pi >= pages.size() || !pages[pi]) return nullptr; const Obj* o = &pages[pi]->o[slot % PAGE]; if (o->kind == OK_NONE) return nullptr; if (o->kind == OK_CONT) return slotObj(o->base >> SLOT_BITS); return o; }
  const Obj* find(uint64_t addr) const { return slotObj(addr >> SLOT_BITS); }
  Obj* findW(uint64_t addr) {
    const Obj* o = find(addr); if (!o) return nullptr; uint64_t slot = o->base >> SLOT_BITS;
    Obj* w = &wpage(slot / PAGE)->o[slot % PAGE];
    return w;
  }
  Contents* contentsW(Obj* o) { if (o->c->rc > 1) { Contents* n = new Contents; n->b = o->c->b; n->s = o->c->s; o->c->rc--; o->c = n; } return o->c; }
  uint64_t alloc(uint64_t size, ObjKind k, uint8_t fill) {
    uint64_t slot = nextSlot; uint64_t n = (size >> SLOT_BITS) + 1; nextSlot += n;
    return place(slot, size, k, fill);
  }
  uint64_t place(uint64_t slot, uint64_t size, ObjKind k, uint8_t fill) {
    uint64_t n = (size >> SLOT_BITS) + 1;
    Obj* o = &wpage(slot / PAGE)->o[slot % PAGE];
    if (o->c && --o->c->rc == 0) delete o->c;
    o->base = slot << SLOT_BITS; o->size = size; o->kind = k; o->freed = false; o->ro = false; o->allocKind = 0;
    o->c = new Contents; o->c->b.assign(size, fill);
    for (uint64_t i = 1; i < n; i++) { Obj* q = &wpage((slot + i) / PAGE)->o[(slot + i) % PAGE]; q->kind = OK_CONT; q->base = slot << SLOT_BITS; }
    return slot << SLOT_BITS;
  }
};

struct FuncInfo; struct Inst;
struct Frame {
  FuncInfo* f = nullptr; uint32_t pc = 0; uint32_t prevBB = 0, curBB = 0;
  std::vector<SVal> regs; std::vector<uint64_t> allocas; std::vector<SVal> varargs; uint64_t vaObj = 0;
  uint64_t stackMark = 0;
  const Inst* call = nullptr; // call instruction in the caller
  uint32_t tryId = 0;         // nonzero: frame started by symx_try
};
enum TStat : uint8_t { T_RUN, T_MUTEX, T_RDLOCK, T_WRLOCK, T_COND, T_JOIN, T_FUTEX, T_DONE };
struct Thread { int id = 0; std::vector<Frame> st; TStat stat = T_RUN; uint64_t waitAddr = 0, waitAddr2 = 0; bool schedDone = false, timed = false, timedOut = false; uint64_t errnoObj = 0; std::map<uint64_t, uint64_t> tls; uint64_t retval = 0; std::vector<uint64_t> caught; uint64_t stackSlot = 0, stackBase = 0; int spin = 0; int condPhase = 0; bool afterCreate = false; bool detached=false; std::vector<std::pair<uint64_t,uint64_t>> tdtors; uint64_t uncaught=0; };
struct MutexSt { int owner = -1; int count = 0; };
struct RwSt { int writer = -1; std::vector<int> readers; };
struct Input { std::string name; Ex e; unsigned width; bool aux; };
struct ExcInfo { uint64_t ti = 0, dtor = 0; int handlers = 0; bool rethrown = false; int refs = 0; };
struct KnownHit { std::string id, msg; };

struct State {
  uint64_t id = 0;
  std::vector<Thread> th; int cur = 0;
  Memory mem;
  std::vector<Ex> pc;
  Model model;
  std::unordered_map<Ex, Ex> facts;           // expression -> constant implied by pc
  std::shared_ptr<std::unordered_map<Ex, Ex>> memo;
  std::unordered_map<uint32_t, u128> fixed;   // symbol id -> value implied by pc
  std::vector<Input> inputs; std::map<std::string, int> nameCount;
  std::map<uint64_t, MutexSt> mtx; std::map<uint64_t, RwSt> rw;
  std::map<uint64_t, ExcInfo> exc;
  std::set<std::string> reached; std::vector<std::pair<std::string, Ex>> outExprs;
  uint64_t steps = 0; int preempt = 0; uint32_t depth = 0; uint32_t tryCounter = 0; 
  std::vector<int> sched;
  uint64_t nextStack = 0; uint64_t symMalloc = 0; int64_t liveHeap = 0;
  Thread& T() { return th[cur]; }
  Frame& F() { return th[cur].st.back(); }
};

struct Opnd { int reg = -1; SVal v; };
struct PhiMove { int dst; Opnd src; };
struct Inst {
  unsigned op; llvm::Instruction* I = nullptr; int dst = -1; unsigned w = 0, w2 = 0;
  std::vector<Opnd> o;
  // gep
  uint64_t coff = 0; struct Sc { int first; int64_t second; unsigned iw = 64; }; std::vector<Sc> scaled; // operand idx, scale, index width
  uint32_t t1 = 0, t2 = 0; // block targets
  llvm::Type* ty = nullptr; unsigned pred = 0;
  llvm::Function* callee = nullptr; FuncInfo* cf = nullptr; int handler = -1; bool isScalar = true;
};
struct BlockInfo { uint32_t start = 0; std::vector<std::vector<PhiMove>> phis; std::unordered_map<uint32_t, uint32_t> predIdx; llvm::BasicBlock* bb; };
struct FuncInfo { llvm::Function* F; bool compiled = false; unsigned nregs = 0; std::vector<Inst> code; std::vector<BlockInfo> blocks; std::vector<std::pair<int, unsigned>> args; uint64_t addr = 0; uint64_t hits = 0; };
