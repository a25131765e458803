//@property P28
//@cxx -mavx2 -mfma -I/usr/include/eigen3
//@case exact mode=0 n=3 wide=1 reach=found,padded,refused --fork 1
//@case exact4 thorough mode=0 n=4 wide=1 reach=found,padded,refused --fork 1
//@case narrow mode=0 n=3 wide=0 reach=found --fork 1
//@case narrow4 thorough mode=0 n=4 wide=0 reach=found --fork 1
//@case beam mode=1 n=4 reach=found --fork 1
//@case pair mode=2 n=3 reach=found --fork 1
//@case walk mode=3 n=3 wide=1 reach=found,blocked --fork 1
//@case walk-narrow mode=3 n=3 wide=0 reach=found,blocked --fork 1
//@case walk4 thorough mode=3 n=4 wide=1 reach=found,blocked --fork 1
//@case fill mode=4 n=4 reach=found,padded --fork 1
//@bound searching: 3 (thorough: 4) rows, 5 shapes of neighbourhood, 2 entries, every result count up to one more than the rows and every candidate list length; exact distances and the estimate of every edge are arbitrary floats up to 1e30 in size; any set of rows may be blocked; two searches take turns after up to 40 steps
#include "symx.h"
#include "vfs.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include <space/rabitq_space.hpp>
static const int MAXN = 40; typedef uint32_t I; static const I NONE = ~0u;
// a quantized space whose exact distances and whose estimates (one per edge) are whatever the harness says
static float EX[MAXN], EST[8][32]; static I EDGE[MAXN][32]; static float ROW[MAXN]; static I ENTRY; static int N;
struct Sp {
  using DataTypeAlias = float; using DistanceTypeAlias = float; using IDTypeAlias = I; using DistDataType = float; static constexpr bool has_scalar_data = false; static constexpr size_t kDegreeBound = 32;
  static float dist(const float* a, const float* b, size_t) { return EX[(int)(*a < 0 ? *b : *a)]; }
  size_t get_dim() const { return 1; } size_t get_data_size() const { return 4; } I get_capacity() const { return N; } I get_data_num() const { return N; } float get_distance(I i, I) const { return EX[i]; } void fit(const float*, I) {} void set_metric_function() {} alaya::DistFuncRaBitQ<float, float> get_dist_func() const { return &dist; }
  I get_ep() const { return ENTRY; } const float* get_data_by_id(I i) const { return &ROW[i < MAXN ? i : 0]; } const I* get_edges(I i) const { return EDGE[i]; } I* get_edges(I i) { return EDGE[i]; } void prefetch_by_id(I) const {} void prefetch_by_address(const float*) const {}
  struct QueryComputer { I c = 0; void load_centroid(I i) { c = i; } const I* get_edges() const { return EDGE[c]; } float get_exact_qr_c_dist() const { return EX[c]; } const float* est_data() const { return EST[c]; } float operator()(size_t i) const { return EST[c][i]; } };
  QueryComputer get_query_computer(const float*) const { return QueryComputer(); } QueryComputer get_query_computer(I) const { return QueryComputer(); }
};
namespace alaya { template <> struct is_rabitq_space<Sp> : std::true_type {}; }
#include <executor/jobs/graph_search_job.hpp>
using namespace alaya;
static int lt(float a, float b) { return (int)symx_concretize(a < b); }
static float big(const char* n) { float d = symx_f32(n); symx_assume(d >= -1e30f && d <= 1e30f); return d; }
static const I X = NONE; static const int NSH = 5; static const I SH[NSH][4][3] = {{{1, 2, 3}, {0, 2, 3}, {0, 1, 3}, {0, 1, 2}}, {{1, X, X}, {2, X, X}, {3, X, X}, {0, X, X}}, {{1, 2, X}, {3, X, X}, {X, X, X}, {1, X, X}}, {{1, X, X}, {0, X, X}, {1, 3, X}, {2, 0, X}}, {{2, 1, X}, {0, 2, X}, {3, 1, X}, {1, 0, X}}};
static bool REACH[4]; static int EDGES;
static void topology(int n, int sh, bool same) { // same: estimates are exact
  N = n; ENTRY = (I)symx_pick(0, 1, "entry"); EDGES = 0; for (int i = 0; i < n; i++) { EX[i] = big("x"); ROW[i] = (float)i; REACH[i] = i == (int)ENTRY; }
  for (int i = 0; i < n; i++) { int k = 0; for (int j = 0; j < 3; j++) if (SH[sh][i][j] < (I)n) { EDGE[i][k] = SH[sh][i][j]; EST[i][k] = same ? EX[EDGE[i][k]] : big("e"); k++; EDGES++; } for (; k < 32; k++) { EDGE[i][k] = i; EST[i][k] = EX[i]; } }
  for (int r = 0; r < n; r++) for (int i = 0; i < n; i++) if (REACH[i]) for (int j = 0; j < 32; j++) REACH[EDGE[i][j]] = true;
}
static int judge(const I* ids, int k, const bool* ok, bool exact) {
  int cnt = 0, can = 0; bool in[4] = {}; for (int i = 0; i < N; i++) can += ok[i];
  for (int i = 0; i < k; i++) { if (ids[i] == NONE) { for (int j = i; j < k; j++) symx_check(ids[j] == NONE, "results come before padding"); symx_reach("padded"); break; }
    symx_check(ids[i] < (I)N && ok[ids[i]], "only stored, reachable and allowed rows are found"); symx_check(!in[ids[i]], "no row is found twice"); in[ids[i]] = true; if (i) symx_check(!lt(EX[ids[i]], EX[ids[i - 1]]), "results are in ascending order of exact distance"); cnt++; }
  if (exact) { symx_check(cnt == std::min(k, can), "as many rows as possible are found"); for (int i = 0; i < N; i++) if (ok[i] && !in[i]) for (int j = 0; j < cnt; j++) symx_check(!lt(EX[i], EX[ids[j]]), "no nearer row is missed"); }
  return cnt;
}
static void run(coro::task<> t) { int n = 0; while (!t.is_ready() && n++ < 4000) t.resume(); symx_check(t.is_ready(), "a search ends"); t.promise().result(); }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), n = (int)symx_param("n", 3), wide = (int)symx_param("wide", 1); vfs_put("/d/.k", "", 0); const float q[1] = {-1};
  if (mode <= 3) {
    int sh = symx_pick(0, NSH - 1, "shape"); topology(n, sh, mode == 1); auto sp = std::make_shared<Sp>(); auto g = std::make_shared<Graph<float, I>>(n, 2); GraphSearchJob<Sp> j(sp, g);
    int ef = wide ? EDGES + 1 : symx_pick(1, n - 1, "ef"), k = wide ? symx_pick(1, n + 1, "k") : mode == 1 ? ef : symx_pick(1, ef, "k"); if (ef < k) ef = k;
    if (mode == 0) {
      std::vector<I> a(k + 1, 77), b(k + 1, 77); j.rabitq_search_solo(q, k, a.data(), ef); symx_check(a[k] == 77, "nothing is written past the results"); int c = judge(a.data(), k, REACH, wide); if (sh == 0) symx_check(c == std::min(k, n), "rows next to found rows make up for missing results"); symx_check(c > 0, "something is found");
      j.rabitq_search_solo(q, k, b.data(), ef); for (int i = 0; i <= k; i++) symx_check(a[i] == b[i], "the same search finds the same rows again");
      std::vector<I> d(k + 1, 77); run(j.rabitq_search(q, k, d.data(), ef)); for (int i = 0; i <= k; i++) symx_check(a[i] == d[i], "a suspended search finds the same rows"); if (wide && sh == 1) { I r[4]; symx_check(symx_attempt([&] { j.rabitq_search_solo(q, 3, r, 2); }) == 2 && symx_attempt([&] { run(j.rabitq_search(q, 3, r, 2)); }) == 2 && symx_attempt([&] { j.make_vector_iterator(q, SearchInfo{3, 2}); }) == 2, "a candidate list shorter than the result is refused"); symx_reach("refused"); } symx_reach("found");
    }
    else if (mode == 1) { // estimates are exact: the beam ends only when nothing nearer is next to it
      std::vector<I> a(k, 77); j.rabitq_search_solo(q, k, a.data(), ef); int c = judge(a.data(), k, REACH, false); bool in[4] = {}; for (int i = 0; i < c; i++) in[a[i]] = true; int can = 0; for (int i = 0; i < n; i++) can += REACH[i];
      if (sh == 1 || sh == 2) for (int i = 0; i < c; i++) for (int e = 0; e < 32; e++) { I v = EDGE[a[i]][e]; symx_check(in[v] || (c == k && !lt(EX[v], EX[a[c - 1]])), "a row next to a found row is found too unless it is no nearer"); } if (can <= ef) symx_check(c > 0, "found"); symx_reach("found");
    } else if (mode == 2) { // two searches take turns
      std::vector<I> a(k, 77), b(k, 77), c(k, 77); if (k == n + 1) symx_end_path(); j.rabitq_search_solo(q, k, a.data(), ef); { auto s = j.rabitq_search(q, k, b.data(), ef), t = j.rabitq_search(q, k, c.data(), ef); int w = symx_pick(1, 40, "turn"); if (w > 4 && w % 9) symx_end_path(); for (int i = 0; i < w && !s.is_ready(); i++) s.resume(); int m = 0; while ((!s.is_ready() || !t.is_ready()) && m++ < 4000) { if (!t.is_ready()) t.resume(); if (!s.is_ready()) s.resume(); } symx_check(s.is_ready() && t.is_ready(), "searches end"); s.promise().result(); t.promise().result(); }
      for (int i = 0; i < k; i++) symx_check(a[i] == b[i] && a[i] == c[i], "searches that take turns do not disturb each other"); symx_reach("found");
    } else {
      uint32_t m = symx_pick(0, (1 << n) - 1, "blocked"); DynamicBitset bl(n); bool ok[4]; for (int i = 0; i < n; i++) { if (m >> i & 1) bl.set(i); ok[i] = REACH[i] && !(m >> i & 1); } bool any = false; for (int i = 0; i < n; i++) any |= ok[i]; if (m) symx_reach("blocked");
      std::vector<I> a(k, 77); j.rabitq_search_solo(q, k, a.data(), SearchInfo{(uint32_t)k, (uint32_t)ef}, &bl); int c = judge(a.data(), k, ok, wide);
      auto it = j.make_vector_iterator(q, SearchInfo{(uint32_t)k, (uint32_t)ef}, m || symx_bool("null") ? &bl : nullptr); bool seen[4] = {}; int cnt = 0, can = 0; for (int i = 0; i < n; i++) can += ok[i];
      while (it->has_next()) { symx_check(it->has_next(), "asking twice changes nothing"); auto x = it->next(); symx_check(x.has_value(), "a candidate was promised"); symx_check(x->id_ < (I)n && ok[x->id_] && !seen[x->id_], "each allowed row once"); symx_check(x->distance_ == EX[x->id_], "its exact distance"); seen[x->id_] = true; cnt++; } symx_check(!it->next().has_value(), "nothing after the end"); if (wide || sh == 0) symx_check(cnt == can, "every allowed row is visited"); symx_check(c == std::min(k, cnt), "the search returns what the walk visits");
      auto i2 = j.make_vector_iterator(q, SearchInfo{(uint32_t)k, (uint32_t)ef}, &bl); std::vector<I> bi; std::vector<float> bd; i2->next_batch(k, bi, bd); symx_check(bi.size() == bd.size() && (int)bi.size() == std::min(k, cnt), "a batch holds what is left up to its size"); for (size_t i = 0; i < bi.size(); i++) symx_check(ok[bi[i]] && bd[i] == EX[bi[i]], "batch of allowed rows"); symx_reach("found");
    }
  } else { // a list too short to hold a row next to several found ones
    N = 4; ENTRY = 0; for (int i = 0; i < 4; i++) { EX[i] = big("x"); ROW[i] = (float)i; REACH[i] = true; } int lead = symx_pick(1, 2, "lead"); I o = 3 - lead; float far = symx_pick(0, 1, "far") ? 1e9f : 1.1f;
    for (int k = 0; k < 32; k++) { EDGE[0][k] = k == 1 ? o : lead; EST[0][k] = k == 0 ? 1.0f : k == 1 ? 1.2f : 1.5f; for (int i = 1; i < 3; i++) { EDGE[i][k] = k ? 0 : 3; EST[i][k] = k ? 9.0f : far; } EDGE[3][k] = 3; EST[3][k] = 9; }
    static const int EF[] = {1, 2, 3, 4, 5, 8, 34, 70}; int ef = EF[symx_pick(0, 7, "ef")], k = symx_pick(1, 5, "k"); if (ef < k) symx_end_path(); auto sp = std::make_shared<Sp>(); auto g = std::make_shared<Graph<float, I>>(4, 2); GraphSearchJob<Sp> j(sp, g); std::vector<I> a(k + 1, 77), b(k + 1, 77); j.rabitq_search_solo(q, k, a.data(), ef); int c = judge(a.data(), k, REACH, false); if (k > 2 || ef > 40) symx_check(c >= std::min(k, 3), "rows next to found rows make up for missing results"); run(j.rabitq_search(q, k, b.data(), ef)); for (int i = 0; i < k; i++) symx_check(a[i] == b[i], "a suspended search finds the same rows"); symx_check(a[k] == 77 && b[k] == 77, "nothing is written past the results"); symx_reach("found");
  }
}
