// Hash-consed bit-vector / floating-point expressions for the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cfenv>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Kind : uint8_t {
  K_CONST, K_SYM,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE,
  // floating point on IEEE bit patterns (width 32 or 64)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FSQRT, K_FMA,
  K_FEQ, K_FLT, K_FLE, // ordered comparisons
  K_FTOSI, K_FTOUI, K_SITOF, K_UITOF, K_FEXT, K_FTRUNC,
  K_FFLOOR, K_FCEIL, K_FRTZ, K_FROUNDEVEN, K_FROUNDAWAY,
};

struct Expr {
  Kind kind;
  uint16_t width;
  uint32_t id;
  uint32_t hash;
  uint32_t imm;          // extract offset / sym id
  const Expr *a, *b, *c;
  u128 val;              // const value
  const std::vector<uint32_t>* syms; // sorted symbol ids
  u128 umax;             // unsigned upper bound
  bool ite = false;      // contains an if-then-else
  mutable uint64_t evalGen = 0;
  mutable u128 evalVal = 0;
  mutable void* z3 = nullptr;
  bool isConst() const { return kind == K_CONST; }
  uint64_t c64() const { return (uint64_t)val; }
};
typedef const Expr* Ex;

struct SymInfo { std::string name; unsigned width; };

struct ExprPool {
  std::vector<std::vector<Expr*>> buckets;
  size_t count = 0;
  std::vector<SymInfo> symInfo;
  std::unordered_map<std::string, Ex> symByName;
  std::vector<std::vector<uint32_t>*> symsetStore;
  std::unordered_map<std::string, const std::vector<uint32_t>*> symsetIntern;
  const std::vector<uint32_t>* emptySet;
  char* chunk = nullptr; size_t chunkLeft = 0;
  ExprPool();
  Expr* alloc();
  Ex intern(Expr&& proto);
  const std::vector<uint32_t>* unite(const std::vector<uint32_t>* x, const std::vector<uint32_t>* y);
};
extern ExprPool pool;

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline s128 sextW(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); v &= maskW(w); return (s128)((v ^ m) - m); }
inline int64_t sext64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); v &= mask64(w); return (int64_t)((v ^ m) - m); }

Ex mkConst(u128 v, unsigned w);
Ex mkSym(const std::string& name, unsigned w);
Ex mkBin(Kind k, Ex a, Ex b);
Ex mkNot(Ex a);              // width-1 logical not / bitwise not
Ex mkExtract(Ex a, unsigned off, unsigned w);
Ex mkConcat(Ex hi, Ex lo);
Ex mkZExt(Ex a, unsigned w);
Ex mkSExt(Ex a, unsigned w);
Ex mkIte(Ex c, Ex t, Ex f);
Ex mkFUn(Kind k, Ex a, unsigned w);     // conversions & unary FP
Ex mkFBin(Kind k, Ex a, Ex b);
Ex mkFma(Ex a, Ex b, Ex c);
inline Ex mkTrue() { static Ex t = mkConst(1, 1); return t; }
inline Ex mkFalse() { static Ex f = mkConst(0, 1); return f; }
inline Ex mkAnd(Ex a, Ex b) { return mkBin(K_AND, a, b); }
inline Ex mkOr(Ex a, Ex b) { return mkBin(K_OR, a, b); }
inline Ex mkEq(Ex a, Ex b) { return mkBin(K_EQ, a, b); }

// concrete semantics
u128 evalBin(Kind k, u128 a, u128 b, unsigned w);
u128 evalFUn(Kind k, u128 a, unsigned wa, unsigned w);
u128 evalFBin(Kind k, u128 a, u128 b, unsigned w);
u128 evalFma(u128 a, u128 b, u128 c, unsigned w);

struct OrderFact { Kind k; Ex a, b; bool full; }; // full: the node includes the test that neither side is NaN
extern std::unordered_map<Ex, OrderFact> orderFacts; extern std::unordered_map<Ex, Ex> nanTests;
Ex isNanE(Ex a);
struct Model {
  std::vector<u128> v; // by sym id; missing => 0
  u128 get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
  void set(uint32_t id, u128 x) { if (id >= v.size()) v.resize(id + 1, 0); v[id] = x; }
};
Ex rebuild(Ex e, Ex a, Ex b, Ex c);          // same operator on new operands
u128 evalExpr(Ex e, const Model& m);      // full, memoised per call
std::string exprStr(Ex e, int depth = 6);
