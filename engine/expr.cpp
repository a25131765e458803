#include "expr.h"
ExprPool pool;
ExprPool::ExprPool() : buckets(1 << 20) { emptySet = new std::vector<uint32_t>(); }
Expr* ExprPool::alloc() {
  if (chunkLeft < sizeof(Expr)) { chunkLeft = sizeof(Expr) * 8192; void* p = nullptr; if (posix_memalign(&p, 64, chunkLeft)) abort(); chunk = (char*)p; }
  Expr* e = (Expr*)chunk; chunk += sizeof(Expr); chunkLeft -= sizeof(Expr); return e;
}
const std::vector<uint32_t>* ExprPool::unite(const std::vector<uint32_t>* x, const std::vector<uint32_t>* y) {
  if (x == y || y->empty()) return x;
  if (x->empty()) return y;
  std::vector<uint32_t> r; r.reserve(x->size() + y->size());
  std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
  if (r.size() == x->size()) return x;
  if (r.size() == y->size()) return y;
  std::string key((const char*)r.data(), r.size() * 4);
  auto it = symsetIntern.find(key);
  if (it != symsetIntern.end()) return it->second;
  auto* p = new std::vector<uint32_t>(std::move(r));
  symsetIntern.emplace(std::move(key), p);
  return p;
}
static inline uint32_t mixh(uint32_t h, uint64_t x) { uint64_t z = (uint64_t)h * 0x9E3779B97F4A7C15ULL ^ x; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ULL; z ^= z >> 32; return (uint32_t)z; }
static u128 computeUmax(const Expr& e);
Ex ExprPool::intern(Expr&& p) {
  uint32_t h = mixh(p.kind * 131 + p.width, p.imm);
  h = mixh(h, (uint64_t)p.val); h = mixh(h, (uint64_t)(p.val >> 64));
  h = mixh(h, p.a ? p.a->id + 1 : 0); h = mixh(h, p.b ? p.b->id + 1 : 0); h = mixh(h, p.c ? p.c->id + 1 : 0);
  p.hash = h;
  auto& b = buckets[h & (buckets.size() - 1)];
  for (Expr* e : b)
    if (e->hash == h && e->kind == p.kind && e->width == p.width && e->imm == p.imm && e->a == p.a && e->b == p.b && e->c == p.c && e->val == p.val) return e;
  Expr* e = alloc(); new (e) Expr(p); e->id = (uint32_t)count++;
  const std::vector<uint32_t>* s = emptySet;
  if (e->kind == K_SYM) { s = new std::vector<uint32_t>{e->imm}; }
  if (e->a) s = unite(s, e->a->syms);
  if (e->b) s = unite(s, e->b->syms);
  if (e->c) s = unite(s, e->c->syms);
  e->syms = s;
  e->umax = computeUmax(*e); e->ite = e->kind == K_ITE || (e->a && e->a->ite) || (e->b && e->b->ite) || (e->c && e->c->ite);
  b.push_back(e);
  if (count > buckets.size() * 2) {
    std::vector<std::vector<Expr*>> nb(buckets.size() * 4);
    for (auto& bb : buckets) for (Expr* x : bb) nb[x->hash & (nb.size() - 1)].push_back(x);
    buckets.swap(nb);
  }
  return e;
}
static u128 computeUmax(const Expr& e) {
  u128 m = maskW(e.width);
  switch (e.kind) {
    case K_CONST: return e.val;
    case K_ZEXT: return e.a->umax;
    case K_AND: return std::min(e.a->umax, e.b->umax);
    case K_OR: case K_XOR: { u128 x = e.a->umax | e.b->umax; u128 r = x; for (int s = 1; s < 128; s <<= 1) r |= r >> s; return r & m; }
    case K_ADD: { u128 s = e.a->umax + e.b->umax; if (e.width < 127 && s <= m) return s; return m; }
    case K_MUL: { if (e.a->umax < ((u128)1 << 63) && e.b->umax < ((u128)1 << 63)) { u128 s = e.a->umax * e.b->umax; if (s <= m) return s; } return m; }
    case K_UDIV: if (e.b->isConst() && e.b->val) return e.a->umax / e.b->val; return m;
    case K_UREM: if (e.b->isConst() && e.b->val) return std::min(e.a->umax, e.b->val - 1); return e.a->umax;
    case K_LSHR: if (e.b->isConst()) return e.b->val >= e.width ? 0 : e.a->umax >> (unsigned)e.b->val; return e.a->umax;
    case K_SHL: if (e.b->isConst() && e.b->val < e.width) { u128 t = e.a->umax << (unsigned)e.b->val; if ((t >> (unsigned)e.b->val) == e.a->umax && t <= m) return t; } return m;
    case K_ITE: return std::max(e.b->umax, e.c->umax);
    case K_CONCAT: return (e.a->umax << e.b->width) | maskW(e.b->width) ? ((e.a->umax << e.b->width) | e.b->umax | (e.a->umax ? maskW(e.b->width) : 0)) : m;
    case K_EXTRACT: if (e.imm == 0) return std::min(m, e.a->umax); { u128 s = e.a->umax >> e.imm; return std::min(m, s); }
    default: return m;
  }
}
static Ex node(Kind k, unsigned w, Ex a, Ex b = nullptr, Ex c = nullptr, uint32_t imm = 0, u128 v = 0) {
  Expr p; p.kind = k; p.width = w; p.a = a; p.b = b; p.c = c; p.imm = imm; p.val = v; p.id = 0; p.hash = 0; p.syms = nullptr; p.umax = 0;
  return pool.intern(std::move(p));
}
Ex mkConst(u128 v, unsigned w) { return node(K_CONST, w, nullptr, nullptr, nullptr, 0, v & maskW(w)); }
Ex mkSym(const std::string& name, unsigned w) {
  std::string key = name + "#" + std::to_string(w);
  auto it = pool.symByName.find(key);
  if (it != pool.symByName.end()) return it->second;
  uint32_t id = pool.symInfo.size(); pool.symInfo.push_back({name, w});
  Ex e = node(K_SYM, w, nullptr, nullptr, nullptr, id);
  pool.symByName[key] = e; return e;
}
u128 evalBin(Kind k, u128 a, u128 b, unsigned w) {
  u128 m = maskW(w);
  switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: return b == 0 ? m : a / b;
    case K_UREM: return b == 0 ? a : a % b;
    case K_SDIV: { s128 x = sextW(a, w), y = sextW(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case K_SREM: { s128 x = sextW(a, w), y = sextW(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case K_ASHR: { s128 x = sextW(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
    case K_SLT: return sextW(a, w) < sextW(b, w); case K_SLE: return sextW(a, w) <= sextW(b, w);
    default: abort();
  }
}
static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
static bool commut(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ; }
Ex mkNot(Ex a) { return mkBin(K_XOR, a, mkConst(maskW(a->width), a->width)); }
static bool isNotOf(Ex x, Ex y) { // x == ~y
  return x->kind == K_XOR && x->a->isConst() && x->a->val == maskW(x->width) && x->b == y;
}
Ex mkBin(Kind k, Ex a, Ex b) {
  if (a->width != b->width) { fprintf(stderr, "width mismatch kind %d: %u %u\n", k, a->width, b->width); abort(); }
  unsigned w = a->width;
  unsigned rw = isCmp(k) ? 1 : w;
  if (a->isConst() && b->isConst()) return mkConst(evalBin(k, a->val, b->val, w), rw);
  if (commut(k)) { if (b->isConst() || (!a->isConst() && b->id < a->id)) std::swap(a, b); } // const on the left
  u128 m = maskW(w);
  switch (k) {
    case K_ADD:
      if (a->isConst()) {
        if (a->val == 0) return b;
        if (b->kind == K_ADD && b->a->isConst()) return mkBin(K_ADD, mkConst(a->val + b->a->val, w), b->b);
        if (b->kind == K_SUB && b->a->isConst()) return mkBin(K_SUB, mkConst(a->val + b->a->val, w), b->b);
        if (b->kind == K_ITE && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkConst(a->val + b->b->val, w), mkConst(a->val + b->c->val, w));
      } else if (a->kind == K_ADD && a->a->isConst()) return mkBin(K_ADD, a->a, mkBin(K_ADD, a->b, b));
      else if (b->kind == K_ADD && b->a->isConst()) return mkBin(K_ADD, b->a, mkBin(K_ADD, a, b->b));
      if (w == 1) return mkBin(K_XOR, a, b);
      // (x - y) + y -> x
      if (a->kind == K_SUB && a->b == b) return a->a;
      if (b->kind == K_SUB && b->b == a) return b->a;
      break;
    case K_SUB:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(K_ADD, mkConst((m + 1) - b->val, w), a);
      if (w == 1) return mkBin(K_XOR, a, b);
      if (a->kind == K_ADD) { if (a->b == b) return a->a; if (a->a == b) return a->b; 
        if (b->kind == K_ADD && a->a->isConst() && b->a->isConst()) { if (a->b == b->b) return mkConst(a->a->val - b->a->val, w);
          return mkBin(K_ADD, mkConst(a->a->val - b->a->val, w), mkBin(K_SUB, a->b, b->b)); }
        if (a->a->isConst()) return mkBin(K_ADD, a->a, mkBin(K_SUB, a->b, b)); }
      if (b->kind == K_ADD && b->a->isConst()) return mkBin(K_ADD, mkConst((m + 1) - b->a->val, w), mkBin(K_SUB, a, b->b));
      break;
    case K_MUL:
      if (a->isConst()) {
        if (a->val == 0) return a; if (a->val == 1) return b;
        if ((a->val & (a->val - 1)) == 0) { unsigned s = 0; while (!((a->val >> s) & 1)) s++; return mkBin(K_SHL, b, mkConst(s, w)); }
      }
      if (w == 1) return mkBin(K_AND, a, b);
      break;
    case K_UDIV:
      if (b->isConst()) { if (b->val == 1) return a;
        if (b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(K_LSHR, a, mkConst(s, w)); }
        if (b->val && a->umax < b->val) return mkConst(0, w);
        if (b->val && a->kind==K_ZEXT && b->val <= maskW(a->a->width)) return mkZExt(mkBin(K_UDIV,a->a,mkConst(b->val,a->a->width)),w);
        if (b->val && a->umax < ((u128)1<<32) && w>40) { unsigned nw=1; while (maskW(nw) < a->umax || maskW(nw) < b->val) nw++; return mkZExt(mkBin(K_UDIV,mkExtract(a,0,nw),mkConst(b->val,nw)),w);} }
      if (a->isConst() && a->val == 0 ) return mkIte(mkEq(b, mkConst(0, w)), mkConst(m, w), mkConst(0, w));
      break;
    case K_UREM:
      if (b->isConst()) { if (b->val == 1) return mkConst(0, w);
        if (b->val && (b->val & (b->val - 1)) == 0) return mkBin(K_AND, mkConst(b->val - 1, w), a);
        if (b->val && a->umax < b->val) return a;
        if (b->val && a->kind==K_ZEXT && b->val <= maskW(a->a->width)) return mkZExt(mkBin(K_UREM,a->a,mkConst(b->val,a->a->width)),w);
        if (b->val && a->umax < ((u128)1<<32) && w>40) { unsigned nw=1; while (maskW(nw) < a->umax || maskW(nw) < b->val) nw++; return mkZExt(mkBin(K_UREM,mkExtract(a,0,nw),mkConst(b->val,nw)),w);} }
      break;
    case K_SDIV: if (b->isConst() && b->val == 1) return a;
      if (w > 1 && a->umax < ((u128)1 << (w - 1)) && b->umax < ((u128)1 << (w - 1)) && b->isConst() && b->val) return mkBin(K_UDIV, a, b);
      break;
    case K_SREM: if (b->isConst() && b->val == 1) return mkConst(0, w);
      if (w > 1 && a->umax < ((u128)1 << (w - 1)) && b->umax < ((u128)1 << (w - 1)) && b->isConst() && b->val) return mkBin(K_UREM, a, b);
      break;
    case K_AND:
      if (a == b) return a;
      if (a->isConst()) {
        if (a->val == 0) return a; if (a->val == m) return b;
        if (b->kind == K_AND && b->a->isConst()) return mkBin(K_AND, mkConst(a->val & b->a->val, w), b->b);
        // low mask -> zext(extract)
        if ((a->val & (a->val + 1)) == 0) { if (b->umax <= a->val) { u128 r = b->umax; for (int s = 1; s < 128; s <<= 1) r |= r >> s; if (r <= a->val) return b; }
          unsigned n = 0; while ((a->val >> n) & 1) n++; return mkZExt(mkExtract(b, 0, n), w); }
        if (b->kind == K_ZEXT && a->val > maskW(b->a->width)) return mkBin(K_AND, mkConst(a->val & maskW(b->a->width), w), b);
        if (b->kind == K_ZEXT && a->val <= maskW(b->a->width)) return mkZExt(mkBin(K_AND, mkConst(a->val, b->a->width), b->a), w);
        if (b->kind == K_ITE && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkConst(a->val & b->b->val, w), mkConst(a->val & b->c->val, w));
      }
      if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(0, w);
      if (w == 1) { // absorption
        if (a->kind == K_AND && (a->a == b || a->b == b)) return a;
        if (b->kind == K_AND && (b->a == a || b->b == a)) return b;
        if (a->kind == K_OR && (a->a == b || a->b == b)) return b;
        if (b->kind == K_OR && (b->a == a || b->b == a)) return a;
      }
      break;
    case K_OR:
      if (a == b) return a;
      if (a->isConst()) { if (a->val == 0) return b; if (a->val == m) return a; }
      if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(m, w);
      if (w == 1) {
        if (a->kind == K_OR && (a->a == b || a->b == b)) return a;
        if (b->kind == K_OR && (b->a == a || b->b == a)) return b;
        if (a->kind == K_AND && (a->a == b || a->b == b)) return b;
        if (b->kind == K_AND && (b->a == a || b->b == a)) return a;
      }
      // disjoint zext / shl pattern -> concat
      { Ex sh = nullptr, lo = nullptr;
        if (a->kind == K_SHL && a->b->isConst()) { sh = a; lo = b; } else if (b->kind == K_SHL && b->b->isConst()) { sh = b; lo = a; }
        if (sh && lo->umax <= maskW((unsigned)sh->b->val) && sh->b->val < w && sh->b->val > 0) {
          unsigned s = (unsigned)sh->b->val; return mkConcat(mkExtract(sh->a, 0, w - s), mkExtract(lo, 0, s)); }
        // concat(x,0) | lo
        Ex cc = nullptr;
        if (a->kind == K_CONCAT && a->b->isConst() && a->b->val == 0) { cc = a; lo = b; } else if (b->kind == K_CONCAT && b->b->isConst() && b->b->val == 0) { cc = b; lo = a; }
        if (cc && lo->umax <= maskW(cc->b->width)) return mkConcat(cc->a, mkExtract(lo, 0, cc->b->width));
      }
      break;
    case K_XOR:
      if (a == b) return mkConst(0, w);
      if (a->isConst()) {
        if (a->val == 0) return b;
        if (b->kind == K_XOR && b->a->isConst()) return mkBin(K_XOR, mkConst(a->val ^ b->a->val, w), b->b);
        if (w == 1 && a->val == 1) {
          if (b->kind == K_ULT) return mkBin(K_ULE, b->b, b->a);
          if (b->kind == K_ULE) return mkBin(K_ULT, b->b, b->a);
          if (b->kind == K_SLT) return mkBin(K_SLE, b->b, b->a);
          if (b->kind == K_SLE) return mkBin(K_SLT, b->b, b->a);
        }
        if (b->kind == K_ITE && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkConst(a->val ^ b->b->val, w), mkConst(a->val ^ b->c->val, w));
        if (b->kind == K_CONCAT) return mkConcat(mkBin(K_XOR, mkConst(a->val >> b->b->width, b->a->width), b->a), mkBin(K_XOR, mkConst(a->val, b->b->width), b->b));
      }
      break;
    case K_SHL:
      if (b->isConst()) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
      break;
    case K_LSHR:
      if (b->isConst()) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val; return mkZExt(mkExtract(a, s, w - s), w); }
      break;
    case K_ASHR:
      if (b->isConst()) { if (b->val == 0) return a; unsigned s = b->val >= w ? w - 1 : (unsigned)b->val; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case K_EQ:
      if (a == b) return mkTrue();
      if (w == 1) { if (a->isConst()) return a->val ? b : mkNot(b); }
      if (a->isConst()) {
        if (a->val > b->umax) return mkFalse();
        if (b->kind == K_ZEXT) { if (a->val > maskW(b->a->width)) return mkFalse(); return mkEq(mkConst(a->val, b->a->width), b->a); }
        if (b->kind == K_SEXT) { u128 lo = a->val & maskW(b->a->width); if (((u128)sextW(lo, b->a->width) & m) != a->val) return mkFalse(); return mkEq(mkConst(lo, b->a->width), b->a); }
        if (b->kind == K_ADD && b->a->isConst()) return mkEq(mkConst(a->val - b->a->val, w), b->b);
        if (b->kind == K_SUB && b->a->isConst()) return mkEq(mkConst(b->a->val - a->val, w), b->b);
        if (b->kind == K_XOR && b->a->isConst()) return mkEq(mkConst(a->val ^ b->a->val, w), b->b);
        if (b->kind == K_CONCAT) return mkAnd(mkEq(mkConst(a->val >> b->b->width, b->a->width), b->a), mkEq(mkConst(a->val, b->b->width), b->b));
        if (b->kind == K_ITE) {
          bool tc = b->b->isConst(), fc = b->c->isConst();
          if (tc && fc) { bool t = b->b->val == a->val, f = b->c->val == a->val; if (t && f) return mkTrue(); if (t) return b->a; if (f) return mkNot(b->a); return mkFalse(); }
          if (tc) return b->b->val == a->val ? mkOr(b->a, mkEq(a, b->c)) : mkAnd(mkNot(b->a), mkEq(a, b->c));
          if (fc) return b->c->val == a->val ? mkOr(mkNot(b->a), mkEq(a, b->b)) : mkAnd(b->a, mkEq(a, b->b));
        }
        if (b->kind == K_MUL && b->a->isConst() && b->a->val > 1 && b->b->umax <= m / b->a->val) { if (a->val % b->a->val) return mkFalse(); return mkEq(mkConst(a->val / b->a->val, w), b->b); }
        if (b->kind == K_SUB && a->val == 0) return mkEq(b->a, b->b);
        if (b->kind == K_OR && a->val == 0) return mkAnd(mkEq(a, b->a), mkEq(a, b->b));
        if (b->kind == K_XOR && a->val == 0) return mkEq(b->a, b->b);
      } else {
        if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
        if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
        if (a->kind == K_ADD && b->kind == K_ADD) { if (a->a == b->a) return mkEq(a->b, b->b); if (a->b == b->b) return mkEq(a->a, b->a); 
            if (a->a==b->b) return mkEq(a->b,b->a); if (a->b==b->a) return mkEq(a->a,b->b);}
        if (a->kind == K_ADD && (a->b == b)) return mkEq(mkConst(0, w), a->a);
        if (b->kind == K_ADD && (b->b == a)) return mkEq(mkConst(0, w), b->a);
        if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->a->width == b->a->width) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
      }
      break;
    case K_ULT:
      if (a == b) return mkFalse();
      if (b->isConst()) { if (b->val == 0) return mkFalse(); if (a->umax < b->val) return mkTrue(); if (b->val == 1) return mkEq(mkConst(0, w), a);
        if (a->kind == K_ZEXT) { if (b->val > maskW(a->a->width)) return mkTrue(); return mkBin(K_ULT, a->a, mkConst(b->val, a->a->width)); } 
        if (b->val == m) return mkNot(mkEq(b, a)); }
      if (a->isConst()) { if (a->val == m) return mkFalse(); if (b->umax <= a->val) return mkFalse(); if (a->val == 0) return mkNot(mkEq(a, b));
        if (b->kind == K_ZEXT) { if (a->val >= maskW(b->a->width)) return mkFalse(); return mkBin(K_ULT, mkConst(a->val, b->a->width), b->a); } }
      if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mkBin(K_ULT, a->a, b->a);
      if (w == 1) return mkAnd(mkNot(a), b);
      if (a->kind == K_ITE && a->b->isConst() && a->c->isConst() && b->isConst()) { return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b)); }
      if (b->kind == K_ITE && b->b->isConst() && b->c->isConst() && a->isConst()) { return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c)); }
      break;
    case K_ULE:
      if (a == b) return mkTrue();
      if (a->isConst()) { if (a->val == 0) return mkTrue(); return mkBin(K_ULT, mkConst(a->val - 1, w), b); }
      if (b->isConst()) { if (b->val == m) return mkTrue(); return mkBin(K_ULT, a, mkConst(b->val + 1, w)); }
      if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mkBin(K_ULE, a->a, b->a);
      if (w == 1) return mkOr(mkNot(a), b);
      break;
    case K_SLT: case K_SLE:
      if (a == b) return k == K_SLE ? mkTrue() : mkFalse();
      if (w > 1) {
        u128 half = (u128)1 << (w - 1);
        bool an = a->umax < half, bn = b->umax < half;
        if (an && bn) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
        if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->width == b->a->width) return mkBin(k, a->a, b->a);
        if (a->kind == K_SEXT && b->isConst()) { s128 bv = sextW(b->val, w); unsigned aw = a->a->width; s128 hi = ((s128)1 << (aw - 1)) - 1, lo = -((s128)1 << (aw - 1));
          if (bv > hi) return mkTrue(); if (bv < lo) return mkFalse(); return mkBin(k, a->a, mkConst((u128)bv, aw)); }
        if (b->kind == K_SEXT && a->isConst()) { s128 av = sextW(a->val, w); unsigned bw = b->a->width; s128 hi = ((s128)1 << (bw - 1)) - 1, lo = -((s128)1 << (bw - 1));
          if (av > hi) return mkFalse(); if (av < lo) return mkTrue(); return mkBin(k, mkConst((u128)av, bw), b->a); }
        if (a->kind == K_ITE && a->b->isConst() && a->c->isConst() && b->isConst()) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
        if (b->kind == K_ITE && b->b->isConst() && b->c->isConst() && a->isConst()) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
        // sign test
        if (k == K_SLT && b->isConst() && b->val == 0) return mkEq(mkConst(1, 1), mkExtract(a, w - 1, 1));
        if (k == K_SLT && a->isConst() && a->val == m) return mkEq(mkConst(0, 1), mkExtract(b, w - 1, 1));
        if (k == K_SLE && a->isConst() && a->val == 0) return mkEq(mkConst(0, 1), mkExtract(b, w - 1, 1));
      }
      break;
    default: break;
  }
  return node(k, rw, a, b);
}
Ex mkExtract(Ex a, unsigned off, unsigned w) {
  if (off == 0 && w == a->width) return a;
  if (off + w > a->width) { fprintf(stderr, "bad extract %u %u of %u\n", off, w, a->width); abort(); }
  switch (a->kind) {
    case K_CONST: return mkConst(a->val >> off, w);
    case K_EXTRACT: return mkExtract(a->a, off + a->imm, w);
    case K_CONCAT: { unsigned lw = a->b->width;
      if (off >= lw) return mkExtract(a->a, off - lw, w);
      if (off + w <= lw) return mkExtract(a->b, off, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off)); }
    case K_ZEXT: { unsigned iw = a->a->width;
      if (off >= iw) return mkConst(0, w);
      if (off + w <= iw) return mkExtract(a->a, off, w);
      return mkZExt(mkExtract(a->a, off, iw - off), w); }
    case K_SEXT: { unsigned iw = a->a->width;
      if (off + w <= iw) return mkExtract(a->a, off, w);
      if (off < iw) return mkSExt(mkExtract(a->a, off, iw - off), w);
      return mkSExt(mkExtract(a->a, iw - 1, 1), w); }
    case K_ITE: if ((a->b->isConst() || a->b->kind == K_CONCAT || a->b->kind == K_ZEXT || a->b->kind==K_ITE) && (a->c->isConst() || a->c->kind == K_CONCAT || a->c->kind == K_ZEXT || a->c->kind==K_ITE|| a->c->kind==K_SYM)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w)); break;
    case K_AND: case K_OR: case K_XOR: return mkBin(a->kind, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case K_ADD: case K_MUL: case K_SUB: if (off == 0 && (a->a->isConst() || a->b->isConst() || a->a->kind == K_ZEXT || a->b->kind == K_ZEXT|| a->a->kind == K_SEXT || a->b->kind == K_SEXT)) return mkBin(a->kind, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    default: break;
  }
  return node(K_EXTRACT, w, a, nullptr, nullptr, off);
}
Ex mkConcat(Ex hi, Ex lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->width) | lo->val, w);
  if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
  if (hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->a == lo->a && hi->imm == lo->imm + lo->width) return mkExtract(hi->a, lo->imm, w);
  // extract == whole sym case: lo may be concat already
  if (lo->kind == K_CONCAT && lo->a->kind == K_EXTRACT && hi->kind == K_EXTRACT && hi->a == lo->a->a && hi->imm == lo->a->imm + lo->a->width)
    return mkConcat(mkExtract(hi->a, lo->a->imm, hi->width + lo->a->width), lo->b);
  if (hi->kind == K_ZEXT && hi->width > hi->a->width) return mkZExt(mkConcat(hi->a, lo), w);
  // keep right-assoc: concat(concat(a,b),c) -> concat(a,concat(b,c))
  if (hi->kind == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->kind == K_ITE && lo->kind == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->isConst() && lo->kind == K_CONCAT && lo->a->isConst()) return mkConcat(mkConcat(hi, lo->a), lo->b);
  if (hi->kind == K_ITE && hi->b->isConst() && hi->c->isConst() && lo->isConst()) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
  if (lo->kind == K_ITE && lo->b->isConst() && lo->c->isConst() && hi->isConst()) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
  return node(K_CONCAT, w, hi, lo);
}
Ex mkZExt(Ex a, unsigned w) {
  if (w == a->width) return a;
  if (a->isConst()) return mkConst(a->val, w);
  if (a->kind == K_ZEXT) return mkZExt(a->a, w);
  if (a->kind == K_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkConst(a->b->val, w), mkConst(a->c->val, w));
  return node(K_ZEXT, w, a);
}
Ex mkSExt(Ex a, unsigned w) {
  if (w == a->width) return a;
  if (a->isConst()) return mkConst((u128)sextW(a->val, a->width), w);
  if (a->kind == K_SEXT) return mkSExt(a->a, w);
  if (a->kind == K_ZEXT) return mkZExt(a->a, w);
  if (a->kind == K_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  if (a->umax < ((u128)1 << (a->width - 1))) return mkZExt(a, w);
  return node(K_SEXT, w, a);
}
Ex mkIte(Ex c, Ex t, Ex f) {
  if (c->isConst()) return c->val ? t : f;
  if (t == f) return t;
  if (c->kind == K_XOR && c->a->isConst()) return mkIte(c->b, f, t);
  if (t->width == 1) {
    if (t->isConst() && f->isConst()) return t->val ? c : mkNot(c);
    if (t->isConst()) return t->val ? mkOr(c, f) : mkAnd(mkNot(c), f);
    if (f->isConst()) return f->val ? mkOr(mkNot(c), t) : mkAnd(c, t);
  }
  if (t->kind == K_ITE && t->a == c) return mkIte(c, t->b, f);
  if (f->kind == K_ITE && f->a == c) return mkIte(c, t, f->c);
  return node(K_ITE, t->width, c, t, f);
}
Ex rebuild(Ex e, Ex a, Ex b, Ex c) {
  switch (e->kind) {
    case K_CONST: case K_SYM: return e;
    case K_CONCAT: return mkConcat(a, b);
    case K_EXTRACT: return mkExtract(a, e->imm, e->width);
    case K_ZEXT: return mkZExt(a, e->width);
    case K_SEXT: return mkSExt(a, e->width);
    case K_ITE: return mkIte(a, b, c);
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: case K_FEQ: case K_FLT: case K_FLE: return mkFBin(e->kind, a, b);
    case K_FMA: return mkFma(a, b, c);
    case K_FSQRT: case K_FTOSI: case K_FTOUI: case K_SITOF: case K_UITOF: case K_FEXT: case K_FTRUNC: case K_FFLOOR: case K_FCEIL: case K_FRTZ: case K_FROUNDEVEN: case K_FROUNDAWAY: return mkFUn(e->kind, a, e->width);
    default: return mkBin(e->kind, a, b);
  }
}
// ---------- floating point ----------
static double asD(u128 v, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; } double d; uint64_t x = (uint64_t)v; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; }
static u128 fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
u128 evalFBin(Kind k, u128 a, u128 b, unsigned w) {
  if (w == 32) { float x = asF(a), y = asF(b);
    switch (k) { case K_FADD: return fromF(x + y); case K_FSUB: return fromF(x - y); case K_FMUL: return fromF(x * y); case K_FDIV: return fromF(x / y); case K_FREM: return fromF(fmodf(x, y));
      case K_FEQ: return x == y; case K_FLT: return x < y; case K_FLE: return x <= y; default: abort(); } }
  double x = asD(a, 64), y = asD(b, 64);
  switch (k) { case K_FADD: return fromD(x + y); case K_FSUB: return fromD(x - y); case K_FMUL: return fromD(x * y); case K_FDIV: return fromD(x / y); case K_FREM: return fromD(fmod(x, y));
    case K_FEQ: return x == y; case K_FLT: return x < y; case K_FLE: return x <= y; default: abort(); }
}
u128 evalFma(u128 a, u128 b, u128 c, unsigned w) { return w == 32 ? fromF(fmaf(asF(a), asF(b), asF(c))) : fromD(fma(asD(a, 64), asD(b, 64), asD(c, 64))); }
u128 evalFUn(Kind k, u128 a, unsigned wa, unsigned w) {
  switch (k) {
    case K_FSQRT: return w == 32 ? fromF(sqrtf(asF(a))) : fromD(sqrt(asD(a, 64)));
    case K_FTOSI: { double d = asD(a, wa); if (!(d >= -0x1p63 && d < 0x1p63)) return (u128)1 << (w - 1); int64_t i = (int64_t)d; if (w < 64 && (i > (int64_t)mask64(w - 1) || i < -(int64_t)mask64(w - 1) - 1)) return (u128)1 << (w - 1); return (u128)(s128)i & maskW(w); }
    case K_FTOUI: { double d = asD(a, wa); if (!(d > -1 && d < 0x1p64)) return maskW(w); uint64_t i = (uint64_t)d; return i & maskW(w); }
    case K_SITOF: { int64_t i = (int64_t)sextW(a, wa); return w == 32 ? fromF((float)i) : fromD((double)i); }
    case K_UITOF: { uint64_t i = (uint64_t)a; return w == 32 ? fromF((float)i) : fromD((double)i); }
    case K_FEXT: return fromD((double)asF(a));
    case K_FTRUNC: return fromF((float)asD(a, 64));
    case K_FFLOOR: return w == 32 ? fromF(floorf(asF(a))) : fromD(floor(asD(a, 64)));
    case K_FCEIL: return w == 32 ? fromF(ceilf(asF(a))) : fromD(ceil(asD(a, 64)));
    case K_FRTZ: return w == 32 ? fromF(truncf(asF(a))) : fromD(trunc(asD(a, 64)));
    case K_FROUNDEVEN: return w == 32 ? fromF(nearbyintf(asF(a))) : fromD(nearbyint(asD(a, 64)));
    case K_FROUNDAWAY: return w == 32 ? fromF(roundf(asF(a))) : fromD(round(asD(a, 64)));
    default: abort();
  }
}
// drops the distinction of zeros, which comparisons do not see
static Ex anyZero(Ex x) {
  u128 negz = (u128)1 << (x->width - 1);
  if (x->kind == K_ITE && x->b->isConst() && x->b->val == 0 && x->a->kind == K_EQ) { Ex c = x->a, k = c->a->isConst() ? c->a : c->b, v = c->a->isConst() ? c->b : c->a; if (k->isConst() && (k->val == negz || k->val == 0) && (v == x->c || (x->c->kind == K_XOR && x->c->a->isConst() && x->c->a->val == negz && x->c->b == v))) return anyZero(x->c); }
  if (x->kind == K_XOR && x->a->isConst() && x->a->val == negz) { Ex y = anyZero(x->b); if (y != x->b) return mkBin(K_XOR, x->a, y); }
  return x;
}
// an upper bound of the magnitude (infinity: unknown or possibly not a number)
static double magBound(Ex x, int d = 6) {
  const double inf = __builtin_inf(), slack = 1.001;
  if (x->isConst()) { double v = asD(x->val, x->width); return std::isfinite(v) ? fabs(v) : inf; }
  double r = inf;
  switch (x->kind) {
    case K_UITOF: r = (double)x->a->umax * slack; break;
    case K_SITOF: r = ldexp(1.0, x->a->width - 1) * slack; break;
    case K_FADD: case K_FSUB: if (d) r = (magBound(x->a, d - 1) + magBound(x->b, d - 1)) * slack; break;
    case K_FMUL: if (d) { double p = magBound(x->a, d - 1); if (p < inf) { double q = magBound(x->b, d - 1); r = q < inf ? p * q * slack + 1e-30 : inf; } } break;
    case K_ITE: if (d) r = std::max(magBound(x->b, d - 1), magBound(x->c, d - 1)); break;
    case K_XOR: if (d && x->a->isConst() && x->a->val == ((u128)1 << (x->width - 1))) r = magBound(x->b, d - 1); break;
    default: break;
  }
  return r < (x->width == 32 ? 1e38 : 1e307) ? r : inf;
}
Ex isNanE(Ex a) {
  a = anyZero(a);
  if (a->kind == K_XOR && a->a->isConst() && a->a->val == ((u128)1 << (a->width - 1))) a = a->b;
  if (std::isfinite(magBound(a))) return mkFalse(); // else: exponent all ones and mantissa nonzero
  unsigned w = a->width, eb = w == 32 ? 8 : 11, mb = w == 32 ? 23 : 52;
  return mkAnd(mkEq(mkConst(maskW(eb), eb), mkExtract(a, mb, eb)), mkNot(mkEq(mkConst(0, mb), mkExtract(a, 0, mb))));
}
static bool constNan(Ex a) { return a->isConst() && (a->width == 32 ? std::isnan(asF(a->val)) : std::isnan(asD(a->val, 64))); }
static Ex bothZero(Ex a, Ex b) { unsigned w = a->width; return mkAnd(mkEq(mkConst(0, w - 1), mkExtract(a, 0, w - 1)), mkEq(mkConst(0, w - 1), mkExtract(b, 0, w - 1))); }
static Ex notNan2(Ex a, Ex b) {
  Ex r = mkTrue();
  if (!a->isConst()) r = mkAnd(r, mkNot(isNanE(a)));
  if (!b->isConst()) r = mkAnd(r, mkNot(isNanE(b)));
  return r;
}
static bool neverNegZero(Ex x, int d = 4) {
  if (x->isConst()) return x->val != ((u128)1 << (x->width - 1));
  if (x->kind == K_UITOF || x->kind == K_SITOF) return true;
  if (x->kind == K_FMUL && x->a == x->b) return true;
  if (x->kind == K_FADD && d) return neverNegZero(x->a, d - 1) || neverNegZero(x->b, d - 1); // -0 only from -0 + -0
  if (x->kind == K_ITE && d) { Ex c = x->a; if (c->kind == K_EQ && x->b->isConst() && x->b->val == 0 && (c->a == x->c || c->b == x->c) && (c->a->isConst() ? c->a : c->b)->isConst() && (c->a->isConst() ? c->a : c->b)->val == ((u128)1 << (x->width - 1))) return true; return neverNegZero(x->b, d - 1) && neverNegZero(x->c, d - 1); }
  return false;
}
std::unordered_map<Ex, OrderFact> orderFacts; std::unordered_map<Ex, Ex> nanTests; // what expanded comparisons mean
static Ex ordered(Ex r, Kind k, Ex a, Ex b, bool full) { if (!r->isConst() && r->kind != K_SYM && orderFacts.size() < 2000000) { auto it = orderFacts.find(r); if (it == orderFacts.end() || !it->second.full) orderFacts[r] = {k, a, b, full}; } return r; }
Ex mkFBin(Kind k, Ex a, Ex b) {
  unsigned w = a->width;
  if (a->isConst() && b->isConst()) return mkConst(evalFBin(k, a->val, b->val, w), (k == K_FEQ || k == K_FLT || k == K_FLE) ? 1 : w);
  u128 negz = (u128)1 << (w - 1);
  switch (k) {
    case K_FEQ: case K_FLT: case K_FLE: {
      if (constNan(a) || constNan(b)) return mkFalse();
      a = anyZero(a); b = anyZero(b);
      if (a->isConst() && b->isConst()) return mkFBin(k, a, b);
      // push through ITE with constants
      if (a->kind == K_ITE && a->b->isConst() && a->c->isConst() && b->isConst()) return mkIte(a->a, mkFBin(k, a->b, b), mkFBin(k, a->c, b));
      if (b->kind == K_ITE && b->b->isConst() && b->c->isConst() && a->isConst()) return mkIte(b->a, mkFBin(k, a, b->b), mkFBin(k, a, b->c));
      Ex nn = notNan2(a, b), z = bothZero(a, b);
      if (!a->isConst()) nanTests[isNanE(a)] = a; if (!b->isConst()) nanTests[isNanE(b)] = b;
      if (k == K_FEQ) return ordered(mkAnd(nn, ordered(mkOr(mkEq(a, b), z), k, a, b, nn->isConst())), k, a, b, true);
      Ex sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
      // monotone key comparison on sign-magnitude
      Ex t = mkTrue();
      Ex sam = mkEq(sa, t), sbm = mkEq(sb, t);
      Ex mlt = mkBin(K_ULT, a, b), mgt = mkBin(K_ULT, b, a);
      Ex lt = mkIte(sam, mkIte(sbm, mgt, mkNot(z)), mkIte(sbm, mkFalse(), mlt));
      if (k == K_FLT) return ordered(mkAnd(nn, ordered(lt, k, a, b, nn->isConst())), k, a, b, true);
      return ordered(mkAnd(nn, ordered(mkOr(lt, mkOr(mkEq(a, b), z)), k, a, b, nn->isConst())), k, a, b, true);
    }
    case K_FADD:
      if (a->isConst() && a->val == negz) return b;  // -0 + x = x (up to NaN payload)
      if (b->isConst() && b->val == negz) return a;
      if ((a->isConst() || b->isConst()) ) {
        Ex z = a->isConst() ? a : b, x = a->isConst() ? b : a;
        if (z->val == 0) { // +0 + x = x unless x = -0
          if (neverNegZero(x)) return x;
          return mkIte(mkEq(mkConst(negz, w), x), mkConst(0, w), x);
        }
      }
      if (b->id < a->id) std::swap(a, b);
      break;
    case K_FSUB:
      if (a->isConst() && a->val == 0) return mkIte(mkEq(mkConst(0, w), b), mkConst(0, w), mkBin(K_XOR, mkConst(negz, w), b)); // 0 - x = -x unless x = 0
      if (b->isConst() && b->val == 0) return a;  // x - (+0) = x
      if (b->isConst() && b->val == negz) return mkIte(mkEq(mkConst(negz, w), a), mkConst(0, w), a);
      break;
    case K_FMUL: {
      auto isNeg = [&](Ex x) { return x->kind == K_XOR && x->a->isConst() && x->a->val == negz; };
      if (isNeg(a) || isNeg(b)) { bool n = isNeg(a) != isNeg(b); Ex m = mkFBin(K_FMUL, isNeg(a) ? a->b : a, isNeg(b) ? b->b : b); return n ? mkBin(K_XOR, mkConst(negz, w), m) : m; } // signs come out of products
      if (b->isConst() || (!a->isConst() && b->id < a->id)) std::swap(a, b);
      if (a->isConst() && a->val == (w == 32 ? fromF(1.0f) : fromD(1.0))) return b;
      if (a->isConst() && a->val == (w == 32 ? fromF(-1.0f) : fromD(-1.0))) return mkBin(K_XOR, mkConst(negz, w), b);
      break; }
    case K_FDIV:
      if (b->isConst() && b->val == (w == 32 ? fromF(1.0f) : fromD(1.0))) return a;
      break;
    default: break;
  }
  if (a->kind == K_ITE && a->b->isConst() && a->c->isConst() && b->isConst()) return mkIte(a->a, mkFBin(k, a->b, b), mkFBin(k, a->c, b));
  if (b->kind == K_ITE && b->b->isConst() && b->c->isConst() && a->isConst()) return mkIte(b->a, mkFBin(k, a, b->b), mkFBin(k, a, b->c));
  return node(k, w, a, b);
}
Ex mkFma(Ex a, Ex b, Ex c) {
  unsigned w = a->width;
  if (a->isConst() && b->isConst() && c->isConst()) return mkConst(evalFma(a->val, b->val, c->val, w), w);
  // fma(x, y, -0 or exact zero product) simplifications
  u128 negz = (u128)1 << (w - 1);
  if (c->isConst() && c->val == negz) return mkFBin(K_FMUL, a, b);
  if (a->isConst() && b->isConst() && ((a->val & ~negz) == 0 || (b->val & ~negz) == 0)) return mkFBin(K_FADD, mkConst(evalFBin(K_FMUL, a->val, b->val, w), w), c);
  { u128 one = w == 32 ? fromF(1.0f) : fromD(1.0); if (a->isConst() && a->val == one) return mkFBin(K_FADD, b, c); if (b->isConst() && b->val == one) return mkFBin(K_FADD, a, c); }
  if (c->isConst() && c->val == 0) { // x*y + 0 : rounds identically, -0 -> +0
    return mkFBin(K_FADD, c, mkFBin(K_FMUL, a, b)); }
  return node(K_FMA, w, a, b, c);
}
Ex mkFUn(Kind k, Ex a, unsigned w) {
  if (a->isConst()) return mkConst(evalFUn(k, a->val, a->width, w), w);
  if (a->kind == K_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkFUn(k, a->b, w), mkFUn(k, a->c, w));
  if (k == K_SITOF || k == K_UITOF) {
    if (a->kind == K_ZEXT) { // narrow the integer operand
      return mkFUn(K_UITOF, a->a, w); }
    if (k == K_SITOF && a->kind == K_SEXT) return mkFUn(K_SITOF, a->a, w);
  }
  if (k == K_FTRUNC && a->kind == K_FEXT) return a->a;
  return node(k, w, a);
}
// ---------- evaluation ----------
static uint64_t g_gen = 0;
static u128 ev(Ex e, const Model& m) {
  if (e->kind == K_CONST) return e->val;
  if (e->kind == K_SYM) return m.get(e->imm) & maskW(e->width);
  if (e->evalGen == g_gen) return e->evalVal;
  // iterative post-order to avoid deep recursion
  static thread_local std::vector<Ex> st; size_t base = st.size(); st.push_back(e);
  while (st.size() > base) {
    Ex x = st.back();
    if (x->kind == K_CONST || x->kind == K_SYM || x->evalGen == g_gen) { st.pop_back(); continue; }
    auto done = [&](Ex y) { return !y || y->kind == K_CONST || y->kind == K_SYM || y->evalGen == g_gen; };
    auto V = [&](Ex y) -> u128 { return y->kind == K_CONST ? y->val : y->kind == K_SYM ? (m.get(y->imm) & maskW(y->width)) : y->evalVal; };
    if (x->kind == K_ITE) {
      if (!done(x->a)) { st.push_back(x->a); continue; }
      Ex br = V(x->a) ? x->b : x->c;
      if (!done(br)) { st.push_back(br); continue; }
      x->evalVal = V(br); x->evalGen = g_gen; st.pop_back(); continue;
    }
    bool ok = true;
    for (Ex y : {x->a, x->b, x->c}) if (!done(y)) { st.push_back(y); ok = false; }
    if (!ok) continue;
    u128 r;
    switch (x->kind) {
      case K_CONCAT: r = (V(x->a) << x->b->width) | V(x->b); break;
      case K_EXTRACT: r = (V(x->a) >> x->imm) & maskW(x->width); break;
      case K_ZEXT: r = V(x->a); break;
      case K_SEXT: r = (u128)sextW(V(x->a), x->a->width) & maskW(x->width); break;
      case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: case K_FEQ: case K_FLT: case K_FLE: r = evalFBin(x->kind, V(x->a), V(x->b), x->a->width); break;
      case K_FMA: r = evalFma(V(x->a), V(x->b), V(x->c), x->width); break;
      case K_FSQRT: case K_FTOSI: case K_FTOUI: case K_SITOF: case K_UITOF: case K_FEXT: case K_FTRUNC: case K_FFLOOR: case K_FCEIL: case K_FRTZ: case K_FROUNDEVEN: case K_FROUNDAWAY:
        r = evalFUn(x->kind, V(x->a), x->a->width, x->width); break;
      default: r = evalBin(x->kind, V(x->a), V(x->b), x->a->width); break;
    }
    x->evalVal = r; x->evalGen = g_gen; st.pop_back();
  }
  return e->evalVal;
}
u128 evalExpr(Ex e, const Model& m) { ++g_gen; return ev(e, m); }
u128 evalExprSameGen(Ex e, const Model& m) { return ev(e, m); }
void newEvalGen() { ++g_gen; }

static const char* kn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","frem","fsqrt","fma","feq","flt","fle","ftosi","ftoui","sitof","uitof","fext","ftrunc","floor","ceil","frtz","frne","frna"};
std::string exprStr(Ex e, int d) {
  if (e->kind == K_CONST) { char b[64]; if (e->val >> 64) snprintf(b, 64, "0x%llx%016llx:%u", (unsigned long long)(e->val >> 64), (unsigned long long)e->val, e->width); else snprintf(b, 64, "%llu:%u", (unsigned long long)e->val, e->width); return b; }
  if (e->kind == K_SYM) return pool.symInfo[e->imm].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + kn[e->kind];
  if (e->kind == K_EXTRACT) s += "[" + std::to_string(e->imm) + "+" + std::to_string(e->width) + "]";
  for (Ex x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}
