//@property P26
//@cxx -mavx2 -mfma -I/usr/include/eigen3
//@case q-auto mode=0 hint=0 reach=all,some,none --fork 1
//@case q-prefilter mode=0 hint=1 reach=all,some,none --fork 1
//@case q-iterative mode=0 hint=2 reach=all,some,none --fork 1
//@case q-indexed mode=0 hint=3 reach=all,some,none --fork 1
//@case q-estimates mode=1 hint=0 reach=all,some --fork 1
//@case q-sparse mode=2 hint=0 reach=some
//@case q-refusals mode=3 hint=0 reach=refused
//@bound quantized (RaBitQ) indexes: 3 rows with arbitrary finite distances in 3 shapes of neighbourhood, estimates equal to them or arbitrary, every k, candidate lists of k and longer than the number of edges; 40 rows with 1 to 6 matching ones
//@assume the quantized space is a stand-in whose distances and estimates are arbitrary (its own computations are checked by P28)
#include "symx.h"
#include "vfs.h"
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
#include <space/rabitq_space.hpp>
static const int MAXN = 40; typedef uint32_t I; static const I NONE = ~0u;
static float EX[MAXN], EST[MAXN][32]; static I EDGE[MAXN][32]; static float ROW[MAXN]; static I ENTRY; static int N;
struct Sp {
  using DataTypeAlias = float; using DistanceTypeAlias = float; using IDTypeAlias = I; using DistDataType = float; static constexpr bool has_scalar_data = true; static constexpr size_t kDegreeBound = 32; alaya::RocksDBStorage<I>* db = nullptr;
  static float dist(const float* a, const float* b, size_t) { return EX[(int)(*a < 0 ? *b : *a)]; }
  size_t get_dim() const { return 1; } size_t get_data_size() const { return 4; } I get_capacity() const { return N; } I get_data_num() const { return N; } float get_distance(I i, I) const { return EX[i]; } void fit(const float*, I) {} void set_metric_function() {} alaya::DistFuncRaBitQ<float, float> get_dist_func() const { return &dist; }
  I get_ep() const { return ENTRY; } const float* get_data_by_id(I i) const { return &ROW[i < MAXN ? i : 0]; } const I* get_edges(I i) const { return EDGE[i]; } I* get_edges(I i) { return EDGE[i]; } void prefetch_by_id(I) const {} void prefetch_by_address(const float*) const {} alaya::RocksDBStorage<I>* get_scalar_storage() const { return db; }
  struct QueryComputer { I c = 0; void load_centroid(I i) { c = i; } const I* get_edges() const { return EDGE[c]; } float get_exact_qr_c_dist() const { return EX[c]; } const float* est_data() const { return EST[c]; } float operator()(size_t i) const { return EST[c][i]; } };
  QueryComputer get_query_computer(const float*) const { return QueryComputer(); } QueryComputer get_query_computer(I) const { return QueryComputer(); }
};
namespace alaya { template <> struct is_rabitq_space<Sp> : std::true_type {}; }
#include <executor/jobs/graph_hybrid_search_job.hpp>
using namespace alaya;
static int lt(float a, float b) { return (int)symx_concretize(a < b); }
static float big(const char* n) { float d = symx_f32(n); symx_assume(d >= -1e30f && d <= 1e30f); return d; }
static const I X = NONE; static const I SH[3][3][3] = {{{1, 2, X}, {0, 2, X}, {0, 1, X}}, {{1, X, X}, {2, X, X}, {0, X, X}}, {{2, 1, X}, {0, X, X}, {0, 1, X}}};
static MetadataFilter filter(int k) { MetadataFilter f; switch (k) { case 0: break; case 1: f.add_eq("x", int64_t(1)); break; case 2: f.add_gt("x", int64_t(0)); break; case 3: f.add_eq("x", int64_t(7)); break; default: f.add_in("x", {int64_t(2), int64_t(5)}); } return f; }
static bool wants(int k, int x) { switch (k) { case 0: return true; case 1: return x == 1; case 2: return x >= 1; case 3: return false; default: return x == 2; } }
static bool ok[MAXN]; static std::string item(I i) { return "r" + std::to_string(i); }
static void judge(const std::vector<I>& ids, const std::vector<std::string>& res, int k, bool whole, bool exact) {
  int can = 0, cnt = 0; for (int i = 0; i < N; i++) can += ok[i]; std::vector<char> in(N);
  for (int i = 0; i < k; i++) { if (ids[i] == NONE) { for (int j = i; j < k; j++) symx_check(res[j].empty() && ids[j] == NONE, "results come before empty places"); break; }
    symx_check(ids[i] < (I)N && ok[ids[i]], "only rows accepted by the filter are found"); symx_check(!in[ids[i]], "no row is found twice"); in[ids[i]] = true; symx_check(res[i] == item(ids[i]), "each result carries its own item id"); if (i) symx_check(!lt(EX[ids[i]], EX[ids[i - 1]]), "nearest first"); cnt++; }
  if (whole) symx_check(cnt == std::min(k, can), "as many rows as possible are found"); if (exact) for (int i = 0; i < N; i++) if (ok[i] && !in[i]) for (int j = 0; j < cnt; j++) symx_check(!lt(EX[i], EX[ids[j]]), "no nearer row is missed");
  symx_reach(can == N ? "all" : can ? "some" : "none");
}
static void run(coro::task<> t) { int c = 0; while (!t.is_ready() && c++ < 50) t.resume(); symx_check(t.is_ready(), "a search ends"); t.promise().result(); }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), hint = (int)symx_param("hint", 0); vfs_put("/d/.k", "", 0); const float q[1] = {-1}; int x[MAXN]; bool small = mode != 2; N = small ? 3 : 40; ENTRY = (I)(mode || !small ? 0 : symx_pick(0, 1, "entry"));
  int fk = mode == 3 ? 1 : mode == 1 ? (int)symx_pick(0, 1, "filter") : small ? symx_pick(0, 4, "filter") : symx_pick(0, 1, "filter") + 1, edges = 0; bool idx = mode == 1 ? false : mode != 0 ? symx_bool("indexed") : hint == 3 || (hint == 0 && symx_bool("indexed")); int sh = mode == 3 || !small ? 0 : symx_pick(0, 2, "shape");
  for (int i = 0; i < N; i++) { ROW[i] = (float)i; if (small) { EX[i] = big("x"); x[i] = i == 0 ? 2 : i == 1 || mode == 1 ? 1 : (int)symx_pick(0, 2, "v") - 1; } else { EX[i] = (float)((i * 17) % 40); x[i] = 0; } }
  if (!small) { int p = symx_pick(0, 2, "place"), c = symx_pick(1, 6, "matching"); for (int i = 0; i < c; i++) x[(p * 11 + i * i * 3) % N] = 1; }
  for (int i = 0; i < N; i++) { int k = 0; if (small) { for (int j = 0; j < 3; j++) if (SH[sh][i][j] != X) { EDGE[i][k] = SH[sh][i][j]; EST[i][k] = mode == 1 ? big("e") : EX[EDGE[i][k]]; k++; edges++; } } else for (; k < 3; edges++, k++) { EDGE[i][k] = (i + (k == 0 ? 1 : k == 1 ? 7 : 13)) % N; EST[i][k] = EX[EDGE[i][k]]; } for (; k < 32; k++) { EDGE[i][k] = i; EST[i][k] = EX[i]; } }
  std::vector<ScalarData> sd; for (int i = 0; i < N; i++) { MetadataMap m; if (x[i] >= 0) m.emplace("x", int64_t(x[i])); sd.push_back(ScalarData(item(i), "", m)); ok[i] = wants(fk, x[i]); }
  RocksDBConfig c; c.db_path_ = "/d/db"; if (idx) c.indexed_fields_ = {"x"}; RocksDBStorage<I> db(c); symx_check(db.batch_insert(0, sd.begin(), sd.end()), "rows are stored"); auto s = std::make_shared<Sp>(); s->db = &db; GraphHybridSearchJob<Sp> j(s); auto f = filter(fk);
  if (mode == 3) { I ids[3]; std::string r[3]; symx_check(symx_attempt([&] { j.rabitq_hybrid_search_solo(q, SearchInfo{0, 3}, ids, f, r); }) == 2 && symx_attempt([&] { j.rabitq_hybrid_search_solo(q, SearchInfo{3, 2}, ids, f, r); }) == 2 && symx_attempt([&] { j.hybrid_search_brute_force_solo(q, ids, 0, f, r); }) == 2, "no results or too few candidates are refused"); symx_reach("refused"); return; }
  int k = symx_pick(1, 3, "k"); bool longlist = mode == 1 ? false : symx_bool("long"); int h = mode == 0 ? hint % 3 : symx_pick(0, 2, "hint"); SearchInfo si{(uint32_t)k, longlist ? (uint32_t)edges + 1 : (uint32_t)k, (FilterExecHint)h}; int can = 0; for (int i = 0; i < N; i++) can += ok[i]; bool scan = can < N && fk && h != 2;
  std::vector<I> a(k, 5), b(k, 5), d(k, 5); std::vector<std::string> ra(k, "?"), rb(k, "?"), rc(k, "?"); j.rabitq_hybrid_search_solo(q, si, a.data(), f, ra.data()); judge(a, ra, k, longlist || scan, longlist && h != 2);
  if (h == 0) { std::vector<I> e(k, 5); std::vector<std::string> re(k, "?"); j.rabitq_hybrid_search_solo(q, k, e.data(), si.ef_, f, re.data()); symx_check(e == a && re == ra, "both forms of the call answer alike"); }
  run(j.rabitq_hybrid_search(q, si, b.data(), f, rb.data())); symx_check(a == b && ra == rb, "the coroutine gives the same answer"); run(j.hybrid_search_brute_force(q, d.data(), k, f, rc.data())); judge(d, rc, k, fk != 0, fk != 0);
}
