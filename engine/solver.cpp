#include "solver.h"
#include <z3.h>
#include <chrono>
#include <map>
void newEvalGen(); u128 evalExprSameGen(Ex e, const Model& m);
static Z3_context C; static std::unordered_map<Ex, Z3_ast> bvMap, fpMap; static Z3_sort F32, F64; static Z3_ast RNE, RTZ, RTN, RTP, RNA;
static std::vector<Z3_ast> symAst;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context_rc(cfg); Z3_set_error_handler(C, zerr);
  F32 = Z3_mk_fpa_sort_single(C); Z3_inc_ref(C, Z3_sort_to_ast(C, F32)); F64 = Z3_mk_fpa_sort_double(C); Z3_inc_ref(C, Z3_sort_to_ast(C, F64));
  auto I = [&](Z3_ast a) { Z3_inc_ref(C, a); return a; };
  RNE = I(Z3_mk_fpa_round_nearest_ties_to_even(C)); RTZ = I(Z3_mk_fpa_round_toward_zero(C)); RTN = I(Z3_mk_fpa_round_toward_negative(C)); RTP = I(Z3_mk_fpa_round_toward_positive(C)); RNA = I(Z3_mk_fpa_round_nearest_ties_to_away(C));
}
static Z3_ast toBV(Ex e); static Z3_ast toFP(Ex e); static Z3_ast toBool(Ex e);
static bool fpNode(Ex e) { switch (e->kind) { case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: case K_FSQRT: case K_FMA: case K_SITOF: case K_UITOF: case K_FEXT: case K_FTRUNC: case K_FFLOOR: case K_FCEIL: case K_FRTZ: case K_FROUNDEVEN: case K_FROUNDAWAY: return true; default: return false; } }
static Z3_ast keep(std::unordered_map<Ex, Z3_ast>& m, Ex e, Z3_ast a) { Z3_inc_ref(C, a); m[e] = a; return a; }
static Z3_ast toFP(Ex e) {
  auto it = fpMap.find(e); if (it != fpMap.end()) return it->second;
  Z3_sort s = e->width == 32 ? F32 : F64; Z3_ast r;
  switch (e->kind) {
    case K_FADD: r = Z3_mk_fpa_add(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K_FSUB: r = Z3_mk_fpa_sub(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K_FMUL: r = Z3_mk_fpa_mul(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K_FDIV: r = Z3_mk_fpa_div(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K_FREM: r = Z3_mk_fpa_rem(C, toFP(e->a), toFP(e->b)); break; // approx: IEEE remainder
    case K_FSQRT: r = Z3_mk_fpa_sqrt(C, RNE, toFP(e->a)); break;
    case K_FMA: r = Z3_mk_fpa_fma(C, RNE, toFP(e->a), toFP(e->b), toFP(e->c)); break;
    case K_SITOF: r = Z3_mk_fpa_to_fp_signed(C, RNE, toBV(e->a), s); break;
    case K_UITOF: r = Z3_mk_fpa_to_fp_unsigned(C, RNE, toBV(e->a), s); break;
    case K_FEXT: case K_FTRUNC: r = Z3_mk_fpa_to_fp_float(C, RNE, toFP(e->a), s); break;
    case K_FFLOOR: r = Z3_mk_fpa_round_to_integral(C, RTN, toFP(e->a)); break;
    case K_FCEIL: r = Z3_mk_fpa_round_to_integral(C, RTP, toFP(e->a)); break;
    case K_FRTZ: r = Z3_mk_fpa_round_to_integral(C, RTZ, toFP(e->a)); break;
    case K_FROUNDEVEN: r = Z3_mk_fpa_round_to_integral(C, RNE, toFP(e->a)); break;
    case K_FROUNDAWAY: r = Z3_mk_fpa_round_to_integral(C, RNA, toFP(e->a)); break;
    default: r = Z3_mk_fpa_to_fp_bv(C, toBV(e), s); break;
  }
  return keep(fpMap, e, r);
}
static Z3_ast bool2bv(Z3_ast b) { static Z3_ast one = nullptr, zero = nullptr; if (!one) { Z3_sort s = Z3_mk_bv_sort(C, 1); one = Z3_mk_unsigned_int64(C, 1, s); Z3_inc_ref(C, one); zero = Z3_mk_unsigned_int64(C, 0, s); Z3_inc_ref(C, zero); } return Z3_mk_ite(C, b, one, zero); }
static std::unordered_map<Ex, Z3_ast> boolMap;
// comparison of two floats given by their bit patterns (no arithmetic involved) as plain bit-vector logic
static Z3_ast R(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_sort bvs(unsigned w) { static std::unordered_map<unsigned, Z3_sort> m; auto it = m.find(w); if (it != m.end()) return it->second; Z3_sort s = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); return m[w] = s; }
static Z3_ast num(uint64_t v, unsigned w) { static std::map<std::pair<uint64_t, unsigned>, Z3_ast> m; auto k = std::make_pair(v, w); auto it = m.find(k); if (it != m.end()) return it->second; return m[k] = R(Z3_mk_unsigned_int64(C, v, bvs(w))); }
struct FKey { Z3_ast nan, zero, key; };
static std::unordered_map<Ex, FKey> fkeys;
static FKey fkey(Ex e) {
  auto it = fkeys.find(e); if (it != fkeys.end()) return it->second;
  unsigned w = e->width; Z3_ast x = toBV(e); uint64_t top = 1ull << (w - 1), inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull; FKey k;
  Z3_ast mag = R(Z3_mk_bvand(C, x, num(top - 1, w))); k.nan = R(Z3_mk_bvugt(C, mag, num(inf, w))); k.zero = R(Z3_mk_eq(C, mag, num(0, w)));
  Z3_ast neg = R(Z3_mk_bvuge(C, x, num(top, w))), nx = R(Z3_mk_bvnot(C, x)), px = R(Z3_mk_bvor(C, x, num(top, w))); k.key = R(Z3_mk_ite(C, neg, nx, px));
  fkeys[e] = k; return k;
}
static Z3_ast bvCompare(Ex e) {
  FKey a = fkey(e->a), b = fkey(e->b); Z3_ast z[2] = {a.zero, b.zero}; Z3_ast bz = R(Z3_mk_and(C, 2, z)); Z3_ast core;
  if (e->kind == K_FEQ) { Z3_ast o[2] = {R(Z3_mk_eq(C, a.key, b.key)), bz}; core = R(Z3_mk_or(C, 2, o)); }
  else if (e->kind == K_FLT) { Z3_ast o[2] = {R(Z3_mk_bvult(C, a.key, b.key)), R(Z3_mk_not(C, bz))}; core = R(Z3_mk_and(C, 2, o)); }
  else { Z3_ast o[2] = {R(Z3_mk_bvule(C, a.key, b.key)), bz}; core = R(Z3_mk_or(C, 2, o)); }
  Z3_ast f[3] = {R(Z3_mk_not(C, a.nan)), R(Z3_mk_not(C, b.nan)), core}; return Z3_mk_and(C, 3, f);
}
static Z3_ast toBool(Ex e) { // width-1 expr as Bool
  auto it = boolMap.find(e); if (it != boolMap.end()) return it->second;
  Z3_ast r;
  switch (e->kind) {
    case K_CONST: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K_EQ: if (e->a->width == 1) r = Z3_mk_iff(C, toBool(e->a), toBool(e->b)); else r = Z3_mk_eq(C, toBV(e->a), toBV(e->b)); break;
    case K_ULT: r = Z3_mk_bvult(C, toBV(e->a), toBV(e->b)); break;
    case K_ULE: r = Z3_mk_bvule(C, toBV(e->a), toBV(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(C, toBV(e->a), toBV(e->b)); break;
    case K_SLE: r = Z3_mk_bvsle(C, toBV(e->a), toBV(e->b)); break;
    case K_AND: { Z3_ast a[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(C, 2, a); break; }
    case K_OR: { Z3_ast a[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(C, 2, a); break; }
    case K_XOR: if (e->a->isConst() && e->a->val == 1) r = Z3_mk_not(C, toBool(e->b)); else r = Z3_mk_xor(C, toBool(e->a), toBool(e->b)); break;
    case K_ITE: r = Z3_mk_ite(C, toBool(e->a), toBool(e->b), toBool(e->c)); break;
    case K_FEQ: case K_FLT: case K_FLE: if (!fpNode(e->a) && !fpNode(e->b)) { r = bvCompare(e); break; }
      if (e->kind == K_FEQ) r = Z3_mk_fpa_eq(C, toFP(e->a), toFP(e->b));
      else if (e->kind == K_FLT) r = Z3_mk_fpa_lt(C, toFP(e->a), toFP(e->b)); else r = Z3_mk_fpa_leq(C, toFP(e->a), toFP(e->b));
      break;
    default: { Z3_ast one = num(1, 1); r = Z3_mk_eq(C, toBV(e), one); break; }
  }
  return keep(boolMap, e, r);
}
static Z3_ast toBV(Ex e) {
  auto it = bvMap.find(e); if (it != bvMap.end()) return it->second;
  Z3_ast r; unsigned w = e->width;
  switch (e->kind) {
    case K_CONST: { Z3_sort s = Z3_mk_bv_sort(C, w); if (w <= 64) r = Z3_mk_unsigned_int64(C, e->c64(), s); else { Z3_ast lo = Z3_mk_unsigned_int64(C, (uint64_t)e->val, Z3_mk_bv_sort(C, 64)); Z3_inc_ref(C, lo); Z3_ast hi = Z3_mk_unsigned_int64(C, (uint64_t)(e->val >> 64), Z3_mk_bv_sort(C, w - 64)); Z3_inc_ref(C, hi); r = Z3_mk_concat(C, hi, lo); } break; }
    case K_SYM: { auto& si = pool.symInfo[e->imm]; r = Z3_mk_const(C, Z3_mk_string_symbol(C, (si.name + "!" + std::to_string(e->imm)).c_str()), Z3_mk_bv_sort(C, w)); if (symAst.size() <= e->imm) symAst.resize(e->imm + 1, nullptr); symAst[e->imm] = r; break; }
    case K_ADD: r = Z3_mk_bvadd(C, toBV(e->a), toBV(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(C, toBV(e->a), toBV(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(C, toBV(e->a), toBV(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(C, toBV(e->a), toBV(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(C, toBV(e->a), toBV(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(C, toBV(e->a), toBV(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(C, toBV(e->a), toBV(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(C, toBV(e->a), toBV(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(C, toBV(e->a), toBV(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(C, toBV(e->a), toBV(e->b)); break;
    case K_AND: case K_OR: case K_XOR:
      if (w == 1) r = bool2bv(toBool(e));
      else if (e->kind == K_AND) r = Z3_mk_bvand(C, toBV(e->a), toBV(e->b));
      else if (e->kind == K_OR) r = Z3_mk_bvor(C, toBV(e->a), toBV(e->b));
      else if (e->a->isConst() && e->a->val == maskW(w)) r = Z3_mk_bvnot(C, toBV(e->b));
      else r = Z3_mk_bvxor(C, toBV(e->a), toBV(e->b));
      break;
    case K_CONCAT: r = Z3_mk_concat(C, toBV(e->a), toBV(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(C, e->imm + w - 1, e->imm, toBV(e->a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(C, w - e->a->width, toBV(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(C, w - e->a->width, toBV(e->a)); break;
    case K_ITE: if (w == 1) r = bool2bv(toBool(e)); else r = Z3_mk_ite(C, toBool(e->a), toBV(e->b), toBV(e->c)); break;
    case K_FTOSI: r = Z3_mk_fpa_to_sbv(C, RTZ, toFP(e->a), w); break;
    case K_FTOUI: r = Z3_mk_fpa_to_ubv(C, RTZ, toFP(e->a), w); break;
    default:
      if (fpNode(e)) r = Z3_mk_fpa_to_ieee_bv(C, toFP(e));
      else if (w == 1) r = bool2bv(toBool(e));
      else { fprintf(stderr, "toBV kind %d\n", e->kind); abort(); }
  }
  return keep(bvMap, e, r);
}
static const bool noInc = getenv("SYMX_NOINC") != nullptr;
static u128 numeral(Z3_ast v, unsigned w) {
  if (w <= 64) { uint64_t x = 0; if (!Z3_get_numeral_uint64(C, v, &x)) return 0; return x; }
  const char* s = Z3_get_numeral_string(C, v); u128 r = 0; for (; *s >= '0' && *s <= '9'; s++) r = r * 10 + (*s - '0'); return r;
}
static bool hasFP(Ex e, std::unordered_map<Ex, bool>& seen) {
  std::vector<Ex> st{e};
  while (!st.empty()) { Ex x = st.back(); st.pop_back(); if (!x || x->isConst() || x->kind == K_SYM) continue; if (!seen.emplace(x, true).second) continue; if (x->kind >= K_FADD && x->kind != K_FEQ && x->kind != K_FLT && x->kind != K_FLE) return true; st.push_back(x->a); st.push_back(x->b); st.push_back(x->c); }
  return false;
}
static std::unordered_map<uint32_t, std::vector<std::vector<uint32_t>>> cores; static size_t coreCount; static std::unordered_map<Z3_ast, Ex> litEx;
static Z3_solver inc = nullptr; static std::unordered_map<Ex, Z3_ast> incLit;
static bool extractModel(Z3_solver s, const std::vector<Ex>& cs, Model& m) {
  Z3_model zm = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, zm);
  std::vector<uint32_t> syms; for (Ex e : cs) syms.insert(syms.end(), e->syms->begin(), e->syms->end());
  std::sort(syms.begin(), syms.end()); syms.erase(std::unique(syms.begin(), syms.end()), syms.end());
  for (uint32_t id : syms) { Z3_ast v; if (id < symAst.size() && symAst[id] && Z3_model_eval(C, zm, symAst[id], true, &v)) { Z3_inc_ref(C, v); m.set(id, numeral(v, pool.symInfo[id].width)); Z3_dec_ref(C, v); } else m.set(id, 0); }
  Z3_model_dec_ref(C, zm);
  newEvalGen(); for (Ex e : cs) if (!evalExprSameGen(e, m)) { if (getenv("SYMX_MODELDBG")) fprintf(stderr, "model mismatch: %s\n", exprStr(e, 12).c_str()); return false; }
  return true;
}
// assumption-based incremental SAT over the bit-blasted constraints (no FP arithmetic involved)
static SatRes incCheck(const std::vector<Ex>& cs, Model& m, unsigned timeoutMs) {
  if (inc && incLit.size() > 6000) { for (auto& [e, l] : incLit) Z3_dec_ref(C, l); incLit.clear(); litEx.clear(); Z3_solver_dec_ref(C, inc); inc = nullptr; }
  if (!inc) { { const char* k = getenv("SYMX_INC"); inc = !k ? Z3_mk_simple_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, k)); } Z3_solver_inc_ref(C, inc); }
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeoutMs); Z3_solver_set_params(C, inc, p); Z3_params_dec_ref(C, p);
  std::vector<Z3_ast> as;
  for (Ex e : cs) { auto it = incLit.find(e); if (it == incLit.end()) { Z3_ast l = Z3_mk_fresh_const(C, "k", Z3_mk_bool_sort(C)); Z3_inc_ref(C, l); Z3_ast im = Z3_mk_implies(C, l, toBool(e)); Z3_inc_ref(C, im); Z3_solver_assert(C, inc, im); Z3_dec_ref(C, im); it = incLit.emplace(e, l).first; litEx[l] = e; } as.push_back(it->second); }
  Z3_lbool r = Z3_solver_check_assumptions(C, inc, (unsigned)as.size(), as.data());
  if (r == Z3_L_FALSE) {
    Z3_ast_vector v = Z3_solver_get_unsat_core(C, inc); Z3_ast_vector_inc_ref(C, v); unsigned n = Z3_ast_vector_size(C, v);
    if (n && n <= 12) { std::vector<uint32_t> ids; for (unsigned i = 0; i < n; i++) { auto it = litEx.find(Z3_ast_vector_get(C, v, i)); if (it == litEx.end()) { ids.clear(); break; } ids.push_back(it->second->id); } if (!ids.empty()) { std::sort(ids.begin(), ids.end()); if (coreCount > 20000) { cores.clear(); coreCount = 0; } cores[ids.back()].push_back(ids); coreCount++; } }
    Z3_ast_vector_dec_ref(C, v); return UNSAT; }
  if (r == Z3_L_UNDEF) return UNKNOWN;
  return extractModel(inc, cs, m) ? SAT : UNKNOWN;
}
SatRes Solver::z3check(const std::vector<Ex>& cs, Model& m) {
  auto t0 = std::chrono::steady_clock::now();
  st.z3calls++;
  bool fp = false; { std::unordered_map<Ex, bool> seen; for (Ex e : cs) if (hasFP(e, seen)) { fp = true; break; } }
  if (!fp && !noInc) { SatRes r = incCheck(cs, m, std::min(timeoutMs, 3000u)); if (r != UNKNOWN) { double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); st.seconds += dt; st.maxq = std::max(st.maxq, dt); if (r == SAT) st.sat++; else st.unsat++; return r; } m = Model(); }
  Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, fp ? "QF_BVFP" : "QF_BV"));
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeoutMs); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  for (Ex e : cs) Z3_solver_assert(C, s, toBool(e));
  Z3_lbool r = Z3_solver_check(C, s);
  SatRes res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (res == SAT && !extractModel(s, cs, m)) res = UNKNOWN;
  Z3_solver_dec_ref(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (dt > 2 && getenv("SYMX_SLOW")) { fprintf(stderr, "slow query %.1fs res=%d n=%zu\n", dt, res, cs.size()); for (Ex e : cs) fprintf(stderr, "   %s\n", exprStr(e, 7).substr(0, 400).c_str()); }
  st.seconds += dt; st.maxq = std::max(st.maxq, dt);
  if (res == UNKNOWN) st.unknown++; else if (res == SAT) st.sat++; else st.unsat++;
  return res;
}
void Solver::slice(const std::vector<Ex>& pc, Ex cond, std::vector<Ex>& out) {
  std::vector<bool> want(pool.symInfo.size(), false), used(pc.size(), false);
  for (uint32_t s : *cond->syms) want[s] = true;
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = pc.size(); i-- > 0;) if (!used[i]) {
      bool hit = false; for (uint32_t s : *pc[i]->syms) if (want[s]) { hit = true; break; }
      if (hit) { used[i] = true; for (uint32_t s : *pc[i]->syms) if (!want[s]) { want[s] = true; ch = true; } }
    } }
  for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
}
// Float comparisons alone: a cycle a < b <= ... <= a among values known not to be NaN has no solution.
static bool orderUnsat(const std::vector<Ex>& cs) {
  struct Lit { Ex e; bool pos; }; std::vector<Lit> st, lits; for (Ex e : cs) st.push_back({e, true});
  std::unordered_map<Ex, int> node; std::vector<Ex> nodes; std::unordered_map<Ex, bool> num; std::vector<Lit> todo;
  auto isNot = [](Ex e) { return e->kind == K_XOR && e->width == 1 && e->a->isConst(); };
  auto number = [&](Ex x) { if (x->isConst() || isNanE(x)->isConst()) return true; auto it = num.find(x); return it != num.end(); };
  while (!st.empty()) { Lit l = st.back(); st.pop_back(); if (isNot(l.e)) { st.push_back({l.e->b, (bool)(l.pos ^ (l.e->a->val != 0))}); continue; }
    auto f = orderFacts.find(l.e); auto nt = nanTests.find(l.e);
    if (nt != nanTests.end() && !l.pos) num[nt->second] = true;
    if (f != orderFacts.end()) { lits.push_back(l); if (f->second.full && l.pos) { num[f->second.a] = true; num[f->second.b] = true; } }
    if (l.e->width == 1 && ((l.e->kind == K_AND && l.pos) || (l.e->kind == K_OR && !l.pos))) { st.push_back({l.e->a, l.pos}); st.push_back({l.e->b, l.pos}); } }
  if (lits.size() < 2) return false;
  auto id = [&](Ex x) { auto it = node.find(x); if (it != node.end()) return it->second; int n = (int)nodes.size(); node[x] = n; nodes.push_back(x); return n; };
  struct Edge { int a, b; bool strict; }; std::vector<Edge> ed; std::vector<std::pair<int, int>> ne;
  for (auto& l : lits) { auto& f = orderFacts[l.e]; if (!number(f.a) || !number(f.b)) continue; int a = id(f.a), b = id(f.b);
    if (l.pos) { if (f.k == K_FLT) ed.push_back({a, b, true}); else ed.push_back({a, b, false}); if (f.k == K_FEQ) ed.push_back({b, a, false}); }
    else if (f.k == K_FLT) ed.push_back({b, a, false}); else if (f.k == K_FLE) ed.push_back({b, a, true}); else ne.push_back({a, b}); }
  int n = (int)nodes.size(); if (n > 64 || ed.empty()) return false;
  for (int i = 0; i < n; i++) if (nodes[i]->isConst()) for (int j = 0; j < n; j++) if (i != j && nodes[j]->isConst() && nodes[i]->width == nodes[j]->width) { if (evalExpr(mkFBin(K_FLT, nodes[i], nodes[j]), Model())) ed.push_back({i, j, true}); else if (evalExpr(mkFBin(K_FLE, nodes[i], nodes[j]), Model())) ed.push_back({i, j, false}); }
  std::vector<uint64_t> le(n, 0), lt(n, 0); for (auto& e : ed) { le[e.a] |= 1ull << e.b; if (e.strict) lt[e.a] |= 1ull << e.b; }
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (le[i] >> k & 1) { bool s = lt[i] >> k & 1; le[i] |= le[k]; lt[i] |= lt[k]; if (s) lt[i] |= le[k]; }
  for (int i = 0; i < n; i++) if (lt[i] >> i & 1) return true;
  for (auto& p : ne) if ((le[p.first] >> p.second & 1) && (le[p.second] >> p.first & 1)) return true;
  return false;
}
SatRes Solver::sat(const std::vector<Ex>& pc, Ex cond, const Model& base, Model& m) {
  st.queries++;
  if (cond->isConst()) { if (!cond->val) return UNSAT; m = base; return SAT; }
  std::vector<Ex> cs; slice(pc, cond, cs); cs.push_back(cond);
  std::sort(cs.begin(), cs.end(), [](Ex a, Ex b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::string key; key.reserve(cs.size() * 4); for (Ex e : cs) key.append((const char*)&e->id, 4);
  auto it0 = cache.find(key);
  if (it0 == cache.end() && coreCount) { // a known unsatisfiable subset
    std::vector<uint32_t> ids; ids.reserve(cs.size()); for (Ex e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end());
    for (uint32_t id : ids) { auto ci = cores.find(id); if (ci == cores.end()) continue; for (auto& c : ci->second) if (c.size() <= ids.size() && std::includes(ids.begin(), ids.end(), c.begin(), c.end())) { st.coreHits++; cache[key] = {UNSAT, Model()}; return UNSAT; } }
  }
  auto overlay = [&](const Model& q) { m = base; for (Ex e : cs) for (uint32_t s : *e->syms) m.set(s, q.get(s)); };
  auto it = cache.find(key);
  if (it != cache.end()) { st.cacheHits++; if (it->second.r == SAT) overlay(it->second.m); return it->second.r; }
  for (size_t i = 0; i < recent.size(); i++) {
    newEvalGen(); bool ok = true;
    for (size_t j = cs.size(); j-- > 0;) if (!evalExprSameGen(cs[j], recent[i])) { ok = false; break; }
    if (ok) { st.modelHits++; Model q = recent[i]; if (i > 2) { recent.erase(recent.begin() + i); recent.push_front(q); } overlay(q); cache[key] = {SAT, q}; return SAT; }
  }
  if (orderUnsat(cs)) { st.orderHits++; if (st.orderHits <= 40 || st.orderHits % 997 == 0) { Model q; if (z3check(cs, q) == SAT) { fprintf(stderr, "order closure disagrees with z3\n"); abort(); } } // spot check
    cache[key] = {UNSAT, Model()}; return UNSAT; }
  Model q; SatRes r = z3check(cs, q);
  cache[key] = {r, q};
  if (r == SAT) { recent.push_front(q); if (recent.size() > 24) recent.pop_back(); overlay(q); }
  return r;
}
