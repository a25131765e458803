//@property P23
//@case plain mode=0 n=4 reach=exact,beam,padded,refused
//@case plain-more thorough mode=0 n=4 shapes=6 all=1 reach=exact,beam,padded
//@case rerank mode=1 n=3 reach=exact,beam,padded,refused
//@case masked mode=2 n=3 reach=exact,padded,refused
//@case masked-more thorough mode=2 n=4 shapes=6 reach=exact,padded,refused
//@case removed-more thorough mode=3 n=4 shapes=6 all=1 reach=removed
//@case removed mode=3 n=4 reach=removed
//@bound graphs of 4 (reranked 3) rows in 4 (thorough 6) shapes with 2 neighbours per row and 1 or 2 entry points, all finite distances from the query, every k <= ef <= 5, every blocked set and every removed set
#include "symx.h"
#include "vfs.h"
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
#include <executor/jobs/graph_search_job.hpp>
#include <space/raw_space.hpp>
using namespace alaya;
typedef uint32_t I; static const I NONE = ~0u; typedef RawSpace<float> R;
struct Q : RawSpace<float> { using RawSpace<float>::RawSpace; }; // a search space unlike the build space
typedef Graph<float, I> G;
static const I X = NONE; static const I SH[6][4][2] = {{{1, 3}, {0, 2}, {1, 3}, {2, 0}}, {{1, X}, {2, X}, {3, X}, {X, X}}, {{1, 2}, {0, X}, {3, 0}, {X, X}}, {{1, X}, {0, X}, {3, X}, {2, X}}, {{X, X}, {0, 3}, {0, 1}, {1, 2}}, {{2, 3}, {3, 2}, {1, 0}, {0, 1}}};
static int lt(float a, float b) { return (int)symx_concretize(a < b); }
static float big(const char* n) { float d = symx_f32(n); symx_assume(d != 0 && d >= -1e38f && d <= 1e38f); return d; }
static std::shared_ptr<G> graph(int n, int sh, bool reach[4], std::vector<I>& eps) {
  auto g = std::make_shared<G>(n + 1, 2); for (int i = 0; i < n; i++) { I e[2]; int k = 0; for (int j = 0; j < 2; j++) if (SH[sh][i][j] < (I)n) e[k++] = SH[sh][i][j]; while (k < 2) e[k++] = NONE; g->insert(e); }
  eps = {0}; if (symx_bool("ep")) eps = {(I)n - 1, 0}; g->eps_ = eps; for (int i = 0; i < 4; i++) reach[i] = false; for (I e : eps) reach[e] = true;
  for (int r = 0; r < n; r++) for (int i = 0; i < n; i++) if (reach[i]) for (int j = 0; j < 2; j++) { I v = g->at(i, j); if (v == NONE) break; reach[v] = true; } return g;
}
// ids/d: the answer; key: distances from the query; ok: rows allowed; what else could have been found
static void judge(const std::vector<I>& ids, const std::vector<float>* d, int k, const float* key, int n, const bool* ok, bool exact) {
  int cnt = 0, can = 0; for (int i = 0; i < n; i++) can += ok[i]; bool in[4] = {};
  for (int i = 0; i < k; i++) { if (ids[i] == NONE) { for (int j = i; j < k; j++) { symx_check(ids[j] == NONE, "results come before padding"); if (d) symx_check((*d)[j] == std::numeric_limits<float>::max(), "padding has the largest distance"); } symx_reach("padded"); break; }
    symx_check(ids[i] < (I)n && ok[ids[i]], "only stored, reachable and allowed rows are found"); symx_check(!in[ids[i]], "no row is found twice"); in[ids[i]] = true; if (d) symx_check((*d)[i] == key[ids[i]], "the reported distance belongs to the row"); if (i) symx_check(!lt(key[ids[i]], key[ids[i - 1]]), "results are in ascending order"); cnt++; }
  if (exact) { symx_check(cnt == std::min(k, can), "as many rows as possible are found"); for (int i = 0; i < n; i++) if (ok[i] && !in[i]) for (int j = 0; j < cnt; j++) symx_check(!lt(key[i], key[ids[j]]), "no nearer row is missed"); symx_reach("exact"); }
}
// the beam ends only when nothing nearer is next to it: every neighbour of a found row is found or not nearer than the last one
static void beam(G& g, const std::vector<I>& ids, int ef, const float* key, const std::vector<I>& eps) {
  int cnt = 0; bool in[4] = {}; for (; cnt < ef && ids[cnt] != NONE; cnt++) in[ids[cnt]] = true; symx_check(cnt > 0, "something is found"); auto fine = [&](I v) { symx_check(in[v] || (cnt == ef && !lt(key[v], key[ids[cnt - 1]])), "a row next to a found row is found too unless it is no nearer"); };
  for (I e : eps) fine(e); for (int i = 0; i < cnt; i++) for (int j = 0; j < 2; j++) { I v = g.at(ids[i], j); if (v == NONE) break; fine(v); } symx_reach("beam");
}
static void run(coro::task<> t) { int n = 0; while (!t.is_ready() && n++ < 200) t.resume(); symx_check(t.is_ready(), "a search ends"); t.promise().result(); }
template <class J> static std::vector<I> search(J& j, float* q, int k, int ef, const float* key, int n, const bool* ok, bool exact, bool upd) {
  std::vector<I> a(k, 77), b(k, 77), c(k, 77), e(k, 77); std::vector<float> db(k, 77), de(k, 77);
  j.search_solo(q, a.data(), k, ef); j.search_solo(q, b.data(), db.data(), k, ef); run(j.search(q, c.data(), k, ef)); run(j.search(q, e.data(), de.data(), k, ef));
  judge(a, nullptr, k, key, n, ok, exact); judge(b, &db, k, key, n, ok, exact); judge(c, nullptr, k, key, n, ok, exact); judge(e, &de, k, key, n, ok, exact); 
  if (upd) { std::vector<I> u(k, 77); j.search_solo_updated(q, u.data(), ef, k); judge(u, nullptr, k, key, n, ok, exact); } return b;
}
template <class J> static void refusals(J& j, float* q) {
  I a[3]; float d[3]; symx_check(symx_attempt([&] { j.search_solo(q, a, 3, 2); }) == 2 && symx_attempt([&] { j.search_solo(q, a, d, 3, 2); }) == 2 && symx_attempt([&] { run(j.search(q, a, 3, 2)); }) == 2 && symx_attempt([&] { run(j.search(q, a, d, 3, 2)); }) == 2 && symx_attempt([&] { j.search_solo_updated(q, a, 2, 3); }) == 2 && symx_attempt([&] { j.make_vector_iterator(q, SearchInfo{3, 2}); }) == 2, "a candidate list shorter than the result is refused"); symx_reach("refused");
}
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), n = (int)symx_param("n", 4), all = (int)symx_param("all", 0); vfs_put("/d/.k", "", 0); float one[1] = {1}; float key[4], data[5] = {};
  int sh = symx_pick(0, symx_param("shapes", 4) - 1, "shape"); bool reach[4]; std::vector<I> eps; auto g = graph(n, sh, reach, eps); int ef = symx_pick(1, n + 1, "ef"), k = symx_pick(1, ef, "k"); if (!all && k != ef && k != 2 && !(mode == 1 && ef == n)) symx_end_path(); bool full = ef >= n;
  for (int i = 0; i < n; i++) { data[i] = big("d"); key[i] = -data[i]; };
  if (mode == 0) {
    auto s = std::make_shared<R>(n + 1, 1, MetricType::IP); s->fit(data, n); GraphSearchJob<R> j(s, g); auto b = search(j, one, k, ef, key, n, reach, full, true); if (k == ef) beam(*g, b, ef, key, eps); if (sh == 0 && ef == 1) refusals(j, one);
  } else if (mode == 1) { // search distances and exact distances are unrelated
    auto s = std::make_shared<Q>(n + 1, 1, MetricType::IP); s->fit(data, n); auto b = std::make_shared<R>(n + 1, 1, MetricType::IP); float ex[4], bd[5] = {}; for (int i = 0; i < n; i++) { bd[i] = big("x"); ex[i] = -bd[i]; }; b->fit(bd, n); GraphSearchJob<Q, R> j(s, g, nullptr, b);
    std::vector<I> all_(ef, 77); j.search_solo_updated(one, all_.data(), ef, ef); judge(all_, nullptr, ef, key, n, reach, full); beam(*g, all_, ef, key, eps); bool in[4] = {}; for (I i : all_) if (i != NONE) in[i] = true; search(j, one, k, ef, ex, n, in, true, false); if (sh == 0 && ef == 1) refusals(j, one); symx_check(symx_attempt([&] { GraphSearchJob<Q, R> bad(s, g); }) == 2, "reranking needs exact vectors");
  } else if (mode == 2) {
    auto s = std::make_shared<R>(n + 1, 1, MetricType::IP); s->fit(data, n); GraphSearchJob<R> j(s, g); uint32_t m = symx_pick(0, (1 << n) - 1, "mask"); if (n == 4 && !all && m != 0 && m != 15 && m % 3 != 1) symx_end_path(); DynamicBitset bl(n); bool ok[4]; for (int i = 0; i < n; i++) { if (m >> i & 1) bl.set(i); ok[i] = reach[i] && !(m >> i & 1); }
    std::vector<I> a(k, 77); j.search_solo(one, a.data(), SearchInfo{(uint32_t)k, (uint32_t)ef}, &bl); judge(a, nullptr, k, key, n, ok, full);
    auto it = j.make_vector_iterator(one, SearchInfo{(uint32_t)k, (uint32_t)ef}, &bl); bool seen[4] = {}; int cnt = 0, can = 0; for (int i = 0; i < n; i++) can += ok[i];
    while (it->has_next()) { symx_check(it->has_next(), "asking twice changes nothing"); auto c = it->next(); symx_check(c.has_value(), "a candidate was promised"); symx_check(c->id_ < (I)n && ok[c->id_] && !seen[c->id_], "each allowed row once"); symx_check(c->distance_ == key[c->id_], "its own distance"); seen[c->id_] = true; cnt++; } symx_check(!it->next().has_value(), "nothing after the end"); if (full) symx_check(cnt == can, "every allowed row is visited");
    auto i2 = j.make_vector_iterator(one, SearchInfo{(uint32_t)k, (uint32_t)ef}, &bl); std::vector<I> bi; std::vector<float> bd; i2->next_batch(k, bi, bd); symx_check(bi.size() == bd.size() && (int)bi.size() == std::min(k, cnt), "a batch holds what is left up to its size"); for (size_t i = 0; i < bi.size(); i++) symx_check(ok[bi[i]] && bd[i] == key[bi[i]], "batch of allowed rows");
    j.search_solo(one, a.data(), SearchInfo{(uint32_t)k, (uint32_t)ef}, nullptr); judge(a, nullptr, k, key, n, reach, full); if (sh == 0 && ef == 1) refusals(j, one);
  } else {
    auto s = std::make_shared<R>(n + 1, 1, MetricType::IP); s->fit(data, n); GraphSearchJob<R> j(s, g); uint32_t m = symx_pick(1, (1 << n) - 1, "removed"); if (n == 4 && !all && m % 3 == 1) symx_end_path(); for (int i = 0; i < n; i++) if (m >> i & 1) { s->remove(i); key[i] = std::numeric_limits<float>::max(); }
    auto b = search(j, one, k, ef, key, n, reach, full, true); if (k == ef) beam(*g, b, ef, key, eps); symx_reach("removed"); // removed rows still lead to live ones and rank behind all of them
  }
}
