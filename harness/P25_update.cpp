//@property P25
//@case small mode=0 m=4 cap=4 start=2 steps=2 reach=inserted,removed
//@case full mode=0 m=4 cap=3 start=2 steps=3 reach=inserted,removed,full
//@case small-long thorough mode=0 m=4 cap=4 start=2 steps=3 reach=inserted,removed,full
//@case tight mode=0 m=1 cap=4 start=2 steps=2 reach=inserted,removed,dropped
//@case tight-long thorough mode=0 m=2 cap=5 start=3 steps=3 reach=inserted,removed,dropped
//@case split mode=1 m=3 cap=4 start=2 steps=2 reach=inserted,removed
//@case items mode=2 m=3 cap=3 start=1 steps=4 reach=inserted,removed,refused,full
//@case items-tight mode=2 m=1 cap=4 start=2 steps=3 reach=inserted,removed
//@case items-fault mode=3 m=3 cap=5 start=1 steps=2 reach=inserted,failed
//@case items-fault-sq8 mode=4 kind=8 m=3 cap=5 start=1 steps=2 reach=inserted,failed
//@case items-fault-sq4 mode=4 kind=4 m=3 cap=5 start=1 steps=2 reach=inserted,failed
//@bound index of capacity 4..5 with 2..4 neighbours per row, starting from 1..3 rows, every history of 2..3 insert and remove steps with arbitrary pairwise distances and candidate list sizes 2 and 4; item ids from a small set, one failing database write at every position
#include "symx.h"
#include "vfs.h"
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
#include <executor/jobs/graph_update_job.hpp>
#include <space/raw_space.hpp>
#include <space/sq8_space.hpp>
#include <space/sq4_space.hpp>
using namespace alaya;
typedef uint32_t I; static const I NONE = ~0u;
// Row i holds the number i; the distance of any two rows is an arbitrary value of this table.
static float D[6][6];
template <class B> struct Tab : B { using B::B; struct C { Tab& s; int q; float operator()(I u) const { if (!s.data_valid(u)) return std::numeric_limits<float>::max(); return D[q][u]; } }; C get_query_computer(const float* q) { return C{*this, (int)q[0]}; } C get_query_computer(I i) { return C{*this, (int)i}; } bool data_valid(I u) { return gone.size() <= u || !gone[u]; } std::vector<char> gone; 
  I remove(I id) { I r = B::remove(id); mark(r); return r; } I remove(const std::string& s) { I r = B::remove(s); mark(r); return r; } void mark(I r) { if (r != NONE) { if (gone.size() <= r) gone.resize(r + 1); gone[r] = 1; } } };
typedef RawSpace<float> RB; typedef RawSpace<float, float, I, SequentialStorage<float, I>, ScalarData> RS;
typedef Tab<SQ8Space<float, float, I, SequentialStorage<uint8_t, I>, ScalarData>> T8; typedef Tab<SQ4Space<float, float, I, SequentialStorage<uint8_t, I>, ScalarData>> T4; typedef Tab<RB> T; typedef Tab<RS> TS; typedef Graph<float, I> G;
static int lt(float a, float b) { return (int)symx_concretize(a < b); }
static bool MASK[6]; // removed
static int n, M;
static void structure(G& g) {
  for (int i = 0; i < n; i++) { bool end = false; for (int j = 0; j < M; j++) { I v = g.at(i, j); if (v == NONE) { end = true; continue; } symx_check(!end, "neighbours come before the empty places"); symx_check(v < (I)n, "a neighbour is a stored row"); symx_check(v != (I)i, "no row is its own neighbour"); for (int k = 0; k < j; k++) symx_check(g.at(i, k) != v, "no neighbour is listed twice"); } }
}
static std::vector<I> list(G& g, int i) { std::vector<I> r; for (int j = 0; j < M; j++) if (g.at(i, j) != NONE) r.push_back(g.at(i, j)); return r; }
static bool has(const std::vector<I>& v, I x) { return std::find(v.begin(), v.end(), x) != v.end(); }
template <class J> static void find_all(J& j, int q, float* dist) { // every live row is found, nearest first
  std::vector<I> ids(n); std::vector<float> d(n); float v[1] = {(float)q}; j.search_solo(v, ids.data(), d.data(), n, n); int live = 0; for (int i = 0; i < n; i++) live += !MASK[i]; bool in[6] = {};
  for (int i = 0; i < n; i++) { if (i < live) { symx_check(ids[i] < (I)n && !MASK[ids[i]] && !in[ids[i]], "every live row is found once, before any removed one"); in[ids[i]] = true; symx_check(d[i] == dist[ids[i]], "with its own distance"); if (i) symx_check(!lt(d[i], d[i - 1]), "nearest first"); } else symx_check(ids[i] == NONE || (ids[i] < (I)n && MASK[ids[i]] && d[i] == std::numeric_limits<float>::max()), "a removed row is never found as a live one"); }
}
template <class Sp, class Bd> static void history(std::shared_ptr<Sp> s, std::shared_ptr<Bd> b, int cap, int start, int items) {
  constexpr bool split = !std::is_same_v<Sp, Bd>; constexpr bool scalar = Sp::has_scalar_data; int steps = (int)symx_param("steps", 2);
  for (int i = 0; i < 6; i++) for (int j = 0; j < i; j++) { float d = 0; if (i < cap) { d = symx_f32("d"); symx_assume(d >= -1e38f && d <= 1e38f); } D[i][j] = D[j][i] = d; D[i][i] = -2e38f; } float vec[6] = {0, 1, 2, 3, 4, 5}; std::string item[6]; bool used[3] = {};
  if constexpr (scalar) { ScalarData sd[2] = {ScalarData("a", "", {}), ScalarData("b", "", {})}; s->fit(vec, start, sd); item[0] = "a"; used[0] = true; if (start > 1) { item[1] = "b"; used[1] = true; } } else s->fit(vec, start); if constexpr (split) b->fit(vec, start);
  auto g = std::make_shared<G>(cap, M); for (int i = 0; i < start; i++) { std::vector<I> e(M, NONE); int k = 0; for (int j = 0; j < start; j++) if (j != i && k < M) e[k++] = j; g->insert(e.data()); } g->eps_ = {0}; n = start;
  auto sj = std::make_shared<GraphSearchJob<Sp, Bd>>(s, g, nullptr, b); GraphUpdateJob<Sp, Bd> u(sj); structure(*g);
  for (int st = 0; st < steps; st++) {
    int op = symx_pick(0, 1, "op");
    if (op == 0) {
      std::vector<std::vector<I>> old; for (int i = 0; i < n; i++) old.push_back(list(*g, i)); uint32_t ef = symx_bool("wide") ? 6 : M; float v[1] = {(float)n}; ScalarData sd; const ScalarData* sp = nullptr; int it = 0; bool dup = false; std::vector<I> near(M, NONE);
      if constexpr (scalar) { it = symx_pick(0, 2, "item"); sd = ScalarData(std::string(1, 'a' + it), "doc", {}); sp = &sd; dup = used[it]; }
      bool full = n == cap; if (!full) { GraphSearchJob<Sp, Bd> probe(s, g, sj->job_context_, b); probe.search_solo_updated(v, near.data(), ef, M); }
      vfs.ops = 0; if (items == 2) vfs.fail_at = symx_pick(0, 2, "at"); I id = 77; int rc = symx_attempt([&] { id = u.insert_and_update(v, ef, sp); }); bool fault = items == 2 && vfs.failed; vfs.fail_at = ~0ull; vfs.failed = false;
      if (dup) { symx_check(rc == 2, "an item id in use is refused"); symx_reach("refused"); }
      else if (full) { symx_check(rc == 0 && id == NONE, "a full index refuses a row"); symx_reach("full"); }
      else if (rc == 2) { symx_check(fault, "a row is refused only for a reason"); if constexpr (scalar) { symx_check(s->get_scalar_storage()->item_id_available(sd.item_id), "a failed insert leaves no item behind"); } MASK[n] = true; n++; symx_reach("failed"); }
      else {
        symx_check(rc == 0 && id == (I)n, "rows are numbered in order"); n++; if constexpr (scalar) { used[it] = true; item[id] = sd.item_id; symx_check(s->get_scalar_data(id).item_id == sd.item_id && s->get_scalar_data(sd.item_id).first == id, "the item is stored with its row"); } if constexpr (std::is_same_v<typename Sp::DataTypeAlias, std::remove_cvref_t<decltype(*s->get_data_by_id(id))>>) symx_check(s->get_data_by_id(id)[0] == (float)id, "the vector is stored"); if constexpr (split) symx_check(b->get_data_num() == (I)n && b->get_data_by_id(id)[0] == (float)id, "both spaces hold the row"); symx_check(s->get_data_num() == (I)n, "one row more"); structure(*g); symx_reach("inserted");
        auto mine = list(*g, id); for (I x : near) if (x != NONE) symx_check(has(mine, x), "a new row is linked to the rows found for it"); symx_check(!mine.empty(), "a new row is linked");
        for (int k = 0; k < (int)id; k++) { auto now = list(*g, k); if (!has(mine, k)) { symx_check(now == old[k], "rows not near the new one keep their neighbours"); continue; } if (MASK[k]) continue;
          for (I x : now) { bool src = x == id || has(old[k], x); for (I r : old[k]) if (MASK[r] && has(old[r], x)) src = true; symx_check(src, "neighbours come from the row's surroundings"); }
          auto kept = [&](I x, const char* w) { if (has(now, x)) return; symx_check((int)now.size() == M, w); for (I y : now) symx_check(!MASK[y] && !lt(D[k][x], D[k][y]), w); symx_reach("dropped"); }; kept(id, "the new row is linked back unless nearer rows fill the list"); for (I x : old[k]) if (!MASK[x]) kept(x, "a neighbour is dropped only for nearer ones"); for (I r : old[k]) if (MASK[r]) for (I x : old[r]) if (!MASK[x] && x != (I)k) kept(x, "rows behind a removed neighbour are linked instead of it"); }
      }
    } else {
      int r = symx_pick(0, n - 1, "row"); bool was = MASK[r]; if (was) symx_end_path(); if (scalar && symx_bool("byitem")) { if constexpr (scalar) u.remove(item[r]); } else u.remove((I)r); MASK[r] = true; structure(*g); symx_reach("removed");
      if constexpr (scalar) { used[item[r][0] - 'a'] = false; symx_check(s->get_scalar_storage()->item_id_available(item[r]) && symx_attempt([&] { u.remove(item[r]); }) == 2, "a removed item is gone"); }
    }
    structure(*g); if (M >= cap - 1) { float key[6]; for (int i = 0; i < 6; i++) key[i] = D[n < 6 ? n : 5][i]; find_all(*sj, n < 6 ? n : 5, key); }
  }
}
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), cap = (int)symx_param("cap", 4), start = (int)symx_param("start", 2); M = (int)symx_param("m", 4); vfs_put("/d/.k", "", 0);
  if (mode == 0) { auto s = std::make_shared<T>(cap, 1, MetricType::L2); history(s, s, cap, start, 0); }
  else if (mode == 1) { auto s = std::make_shared<T>(cap, 1, MetricType::L2); struct B2 : T { using T::T; }; auto b = std::make_shared<B2>(cap, 1, MetricType::L2); history(s, b, cap, start, 0); }
  else if (mode == 4) { RocksDBConfig c; c.db_path_ = "/d/db"; auto b = std::make_shared<T>(cap, 1, MetricType::L2); if (symx_param("kind", 8) == 8) history(std::make_shared<T8>(cap, 1, MetricType::L2, c), b, cap, start, 2); else history(std::make_shared<T4>(cap, 1, MetricType::L2, c), b, cap, start, 2); }
  else { RocksDBConfig c; c.db_path_ = "/d/db"; auto s = std::make_shared<TS>(cap, 1, MetricType::L2, c); history(s, s, cap, start, mode == 3 ? 2 : 1); }
}
