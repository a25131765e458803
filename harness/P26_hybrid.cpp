//@property P26
//@case auto mode=0 n=3 hint=0 reach=all,some,none
//@case prefilter mode=0 n=3 hint=1 reach=all,some,none
//@case iterative mode=0 n=3 hint=2 reach=all,some,none
//@case indexed mode=0 n=3 hint=3 reach=all,some,none
//@case auto4 thorough mode=0 n=4 hint=0 reach=all,some,none
//@case prefilter4 thorough mode=0 n=4 hint=1 reach=all,some,none
//@case iterative4 thorough mode=0 n=4 hint=2 reach=all,some,none
//@case indexed4 thorough mode=0 n=4 hint=3 reach=all,some,none
//@case graph mode=5 n=6 hint=0 reach=some
//@case removed mode=1 n=3 reach=some,none
//@case removed4 thorough mode=1 n=4 reach=some,none
//@case rerank mode=2 n=3 reach=all,some,none
//@case sparse mode=3 n=40 reach=some,none
//@case batches mode=6 n=1030 reach=some
//@case refusals mode=4 n=3 reach=refused
//@bound collections of 3 (thorough 4) rows with arbitrary finite distances, a field over 2 values or absent, filters of 8 shapes, indexed and unindexed, every k up to the row count with candidate lists of k and n, all execution hints, one removed row; 6 rows, 4 or 5 of them matching, 2 arbitrary distances among fixed ones, searched through the graph; 1030 rows with 2 or 6 matching ones around the scan batch boundary; 40 rows with up to 6 matching ones at picked places, in a connected graph and in one of two unconnected parts
#include "symx.h"
#include "vfs.h"
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
#include <executor/jobs/graph_hybrid_search_job.hpp>
#include <space/raw_space.hpp>
using namespace alaya;
typedef uint32_t I; static const I NONE = ~0u;
typedef RawSpace<float, float, I, SequentialStorage<float, I>, ScalarData> S; typedef RawSpace<float> R; typedef Graph<float, I> G;
static int lt(float a, float b) { return (int)symx_concretize(a < b); }
static MetadataFilter filter(int k) { MetadataFilter f; switch (k) { case 0: break; case 1: f.add_eq("x", int64_t(1)); break; case 2: f.add_gt("x", int64_t(0)); break; case 3: f.add_ge("x", int64_t(1)); break; case 4: f.add_eq("x", int64_t(7)); break; case 5: f.add_ge("x", int64_t(1)); f.add_lt("x", int64_t(2)); break; case 6: f.add_in("x", {int64_t(1), int64_t(2)}); break; default: { MetadataFilter g; g.add_eq("x", int64_t(2)); f.add_sub_filter(g); } } return f; }
static bool wants(int k, int x) { switch (k) { case 0: return true; case 1: return x == 1; case 2: case 3: case 6: return x >= 1; case 4: return false; case 5: return x == 1; default: return x == 2; } }
static int n; static float key[1100]; static bool ok[1100], dead[1100]; static std::string item(I i) { return "r" + std::to_string(i); }
static void judge(const std::vector<I>& ids, const std::vector<std::string>& res, int k, bool whole, bool exact) {
  int can = 0, cnt = 0; for (int i = 0; i < n; i++) can += ok[i]; std::vector<char> in(n);
  for (int i = 0; i < k; i++) { if (ids[i] == NONE || res[i].empty()) { for (int j = i; j < k; j++) symx_check(res[j].empty() && (ids[j] == NONE || dead[ids[j]]), "results come before empty places"); break; }
    symx_check(ids[i] < (I)n && ok[ids[i]], "only rows accepted by the filter are found"); symx_check(!in[ids[i]], "no row is found twice"); in[ids[i]] = true; symx_check(res[i] == item(ids[i]), "each result carries its own item id"); if (i) symx_check(!lt(key[ids[i]], key[ids[i - 1]]), "nearest first"); cnt++; }
  if (whole) symx_check(cnt == std::min(k, can), "as many rows as possible are found"); if (exact) for (int i = 0; i < n; i++) if (ok[i] && !in[i]) for (int j = 0; j < cnt; j++) symx_check(!lt(key[i], key[ids[j]]), "no nearer row is missed");
  symx_reach(can == n ? "all" : can ? "some" : "none");
}
static void run(coro::task<> t) { int c = 0; while (!t.is_ready() && c++ < 50) t.resume(); symx_check(t.is_ready(), "a search ends"); t.promise().result(); }
static std::shared_ptr<G> graph(bool split = false) { if (split) { auto g = std::make_shared<G>(n, 3); for (int i = 0; i < n; i++) { I e[3] = {(I)(i % 8 == 0 ? (i + 8) % n : i % 8 == 7 ? (i + 2) % n : i + 1), NONE, NONE}; g->insert(e); } g->eps_ = {0}; return g; } int m = n < 3 ? n : 3; auto g = std::make_shared<G>(n, m); for (int i = 0; i < n; i++) { I e[3]; int k = 0; for (int j = 1; j <= m; j++) { I v = (i + j * (n > 8 ? (j == 1 ? 1 : j == 2 ? 7 : 13) : 1)) % n; if (v != (I)i) e[k++] = v; } while (k < m) e[k++] = NONE; g->insert(e); } g->eps_ = {(I)(n > 8 ? 5 : 1)}; return g; }
template <class J> static void all(J& j, float* q, int fk, SearchInfo si, bool exact, bool split = false) {
  auto f = filter(fk); int k = si.topk_; std::vector<I> a(k, 5), b(k, 5), c(k, 5); std::vector<std::string> ra(k, "?"), rb(k, "?"), rc(k, "?"); bool full = si.ef_ >= (uint32_t)n && !split;
  j.hybrid_search_solo(q, a.data(), si, f, ra.data()); judge(a, ra, k, full || si.filter_exec_hint_ != FilterExecHint::kIterativeFilter, exact && full);
  run(j.hybrid_search(q, b.data(), si, f, rb.data())); symx_check(a == b && ra == rb, "the coroutine gives the same answer");
  run(j.hybrid_search_brute_force(q, c.data(), k, f, rc.data())); judge(c, rc, k, fk != 0, fk != 0); 
}
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), hint = (int)symx_param("hint", 0); n = (int)symx_param("n", 4); vfs_put("/d/.k", "", 0); float one[1] = {1}; std::vector<float> data(n + 1); int x[1100]; std::vector<ScalarData> sd;
  int fk = mode >= 4 ? 1 : symx_pick(mode == 3 ? 1 : 0, 7, "filter"); if (mode == 3 && fk == 4) symx_end_path(); bool idx = mode == 3 ? symx_bool("indexed") : hint == 3 || ((hint == 0 || mode == 1) && symx_bool("indexed"));
  if (mode == 3) { for (int i = 0; i < n; i++) { x[i] = 0; data[i] = (float)((i * 17) % 40); } int p = symx_pick(0, 2, "place"); int at[3] = {p * 11, (p * 7 + 20) % n, (p * 5 + 2) % n}; int c = symx_pick(0, 3, "matching"); for (int i = 0; i < c; i++) x[at[i]] = 1 + i % 2; if (c == 3) for (int i = 0; i < 3; i++) x[(at[i] + 3) % n] = 1 + i % 2; }
  else if (mode == 6) { static const int AT[] = {0, 1022, 1023, 1024, 1025, 1029}; for (int i = 0; i < n; i++) { x[i] = 0; data[i] = (float)((i * 17) % 1031 + 1); } int m = 2 * symx_pick(0, 3, "first"); for (int i = 0; i < 6; i++) if (m == 6 || i == m || i == (m + 3) % 6) x[AT[i]] = 1; }
  else if (mode == 5) { int no = symx_pick(0, n - 1, "unmatched"), no2 = symx_pick(0, 1, "two") ? (no + 2) % n : no; for (int i = 0; i < n; i++) { x[i] = i == no || i == no2 ? 0 : 1; data[i] = 1.5f * (float)(i + 1); if (i % 3 == 1) { data[i] = symx_f32("d"); symx_assume(data[i] != 0 && data[i] >= -1e38f && data[i] <= 1e38f); } } fk = symx_bool("eq") ? 1 : 3; }
  else for (int i = 0; i < n; i++) { x[i] = i == 0 ? 2 : i == 1 ? 1 : (int)symx_pick(0, 2, "x") - 1; data[i] = symx_f32("d"); symx_assume(data[i] != 0 && data[i] >= -1e38f && data[i] <= 1e38f); }
  for (int i = 0; i < n; i++) { MetadataMap m; if (x[i] >= 0) m.emplace("x", int64_t(x[i])); sd.push_back(ScalarData(item(i), "", m)); key[i] = -data[i]; ok[i] = wants(fk, x[i]); }
  RocksDBConfig c; c.db_path_ = "/d/db"; if (idx) c.indexed_fields_ = {"x"}; 
  auto s = std::make_shared<S>(n, 1, MetricType::IP, c); s->fit(data.data(), n, sd.data()); bool split = mode == 3 && symx_bool("split"); auto g = graph(split);
  if (mode == 2) { // exact distances differ from the search space's
    auto b = std::make_shared<R>(n, 1, MetricType::IP); std::vector<float> e(n + 1); for (int i = 0; i < n; i++) { e[i] = symx_f32("e"); symx_assume(e[i] != 0 && e[i] >= -1e38f && e[i] <= 1e38f); key[i] = -e[i]; } b->fit(e.data(), n); GraphHybridSearchJob<S, R> j(s, g, b); uint32_t k = symx_pick(1, n, "k"); SearchInfo si{k, (uint32_t)n, (FilterExecHint)symx_pick(0, 2, "hint")}; all(j, one, fk, si, si.filter_exec_hint_ != FilterExecHint::kIterativeFilter); return; }
  GraphHybridSearchJob<S> j(s, g, s);
  if (mode == 4) { I ids[3]; std::string r[3]; auto f = filter(1); symx_check(symx_attempt([&] { j.hybrid_search_solo(one, ids, SearchInfo{0, 3}, f, r); }) == 2 && symx_attempt([&] { j.hybrid_search_solo(one, ids, SearchInfo{3, 2}, f, r); }) == 2 && symx_attempt([&] { j.hybrid_search_brute_force_solo(one, ids, 0, f, r); }) == 2, "no results or too few candidates are refused"); symx_check(symx_attempt([&] { GraphHybridSearchJob<S> bad(s, nullptr, s); }) == 2 && symx_attempt([&] { GraphHybridSearchJob<S> bad(s, g, nullptr); }) == 2, "graph and vectors are needed"); symx_reach("refused"); return; }
  if (mode == 1) { int r = symx_pick(0, n - 1, "removed"); s->remove((I)r); ok[r] = false; dead[r] = true; }
  uint32_t k = mode == 6 ? 6 : mode == 5 ? 1 : mode == 3 ? symx_pick(1, 3, "k") : symx_pick(1, n, "k"); uint32_t ef = mode == 6 ? 6 : symx_bool("ef") ? (uint32_t)n : k; int h = mode == 0 ? hint % 3 : mode == 6 ? 0 : mode == 5 ? symx_pick(0, 1, "hint") : (int)symx_pick(0, 2, "hint"); SearchInfo si{k, ef, (FilterExecHint)h};
  all(j, one, fk, si, h != 2, split);
}
