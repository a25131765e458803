//@property P15
//@case bitset quick which=0 n=3 reach=set,unset
//@case bitset thorough which=0 n=4 reach=set,unset time=900
//@case visited which=1 reach=set,unset
//@case epoch which=2 reach=set,unset
//@case hash quick which=3 n=3 reach=set,unset
//@case hash thorough which=3 big=1 n=2 reach=set,unset time=900
//@case laserhash quick which=4 n=3 reach=set,unset
//@case laserhash thorough which=4 big=1 n=2 reach=set,unset time=900
//@case sparse quick which=5 n=4 reach=set,unset
//@case sparse thorough which=5 n=5 reach=set,unset time=900
//@case hier quick which=6 n=3 reach=set,unset,first
//@case hier thorough which=6 n=4 reach=set,unset,first time=900
//@case epochwrap which=7 reach=wrapped
//@case list which=8 reach=wrapped
//@case range which=9 reach=refused
//@case pools which=10 --preempt 2 reach=pooled
//@bound sequences of 3 to 4 (thorough 4 to 5) insertions, removals or clears with arbitrary ids below 200 (1200 for the hierarchical set), then a query for an arbitrary id; tag counters run through a full wrap-around; two threads borrowing sets from a pool with up to 2 preemptions
//@assume ids are below the announced size, and the id 2^32-1 is never used (it marks empty)
#include "symx.h"
#include <thread>
#include <utils/query_utils.hpp>
#include <utils/rabitq_utils/search_utils/visited_pool.hpp>
#include <third_party/ngt/hashset.hpp>
#include <index/graph/hnsw/visited_list_pool.hpp>
#include <index/graph/diskann/visited_bitset.hpp>
using namespace alaya;
template <class S, class RST, class CLR> void seq(S& s, uint32_t lim, RST rst, CLR clr, bool hasReset, bool hasClear) {
  int n = (int)symx_param("n", 4); uint32_t id[8]; bool in[8] = {}; int k = 0; // id[i] inserted/removed at step i
  uint32_t q = (uint32_t)symx_range(0, lim - 1, "query"); bool want = false;
  for (int i = 0; i < n; i++) { int op = symx_pick(0, 2, "op"); if ((op == 1 && !hasReset) || (op == 2 && !hasClear)) symx_end_path(); if (op == 2) { clr(); want = false; continue; } uint32_t x = (uint32_t)symx_range(0, lim - 1, "id"); if (op == 0) { s.set(x); want = want | (x == q); } else { rst(x); want = want & (x != q); } if constexpr (requires { s.find_first_set(); }) { id[k] = x; k++; } }
  bool got = false; if constexpr (requires { s.test(q); }) got = s.test(q); else got = s.get(q); symx_check(got == want, "exactly the inserted ids are members"); symx_reach(want ? "set" : "unset");
  if constexpr (requires { s.find_first_set(); }) { uint32_t m = ~0u; for (int i = 0; i < k; i++) m = id[i] < m ? id[i] : m; symx_check(s.find_first_set() == (int)m, "the first member is the smallest"); symx_reach("first"); }
}
extern "C" void symx_main() {
  int w = (int)symx_param("which", 0);
  if (w == 0) { uint32_t n = symx_pick(0, 1, "n") ? 200 : 64; DynamicBitset s(n); symx_check(s.size() == n, "size"); if (symx_bool("all")) { s.set_all(); uint32_t q = symx_range(0, n - 1, "q"), r = symx_range(0, n - 1, "r"); s.reset(r); symx_check(s.get(q) == (q != r), "all but one"); return; } seq(s, n, [&](uint32_t x) { s.reset(x); }, [&] { s.clear(); }, true, true); }
  if (w == 1) { diskann::VisitedBitset s; s.resize(200); if (symx_bool("tas")) { uint32_t a = symx_range(0, 199, "a"), b = symx_range(0, 199, "b"); symx_check(s.test_and_set(a), "a new id is reported new"); symx_check(s.test_and_set(b) == (a != b), "an id is new once"); uint32_t q = symx_range(0, 199, "q"); symx_check(s.test(q) == (q == a || q == b), "members"); s.clear(); symx_check(!s.test(q) && s.test_and_set(q), "cleared"); return; } seq(s, 200, [](uint32_t) {}, [&] { s.clear(); }, false, true); }
  if (w == 2) { EpochVisitedSet<uint32_t> s(20); symx_check(s.size() == 20, "size"); seq(s, 20, [](uint32_t) {}, [&] { if (symx_bool("resize")) s.resize(20); else s.clear(); }, false, true); }
  if (w == 3) { HashBasedBooleanSet s(symx_param("big", 0) ? 100 : 0); seq(s, 0xffffffffu, [](uint32_t) {}, [&] { s.clear(); }, false, true); }
  if (w == 4) { laser::HashBasedBooleanSet s(symx_param("big", 0) ? 100 : 0); seq(s, 0xffffffffu, [](uint32_t) {}, [&] { s.clear(); }, false, true); }
  if (w == 5) { SparseBitset s; seq(s, 200, [&](uint32_t x) { s.reset(x); }, [] {}, true, false); }
  if (w == 6) { uint32_t n = symx_bool("big") ? 1200 : 65; HierarchicalBitset s(n); symx_check(s.find_first_set() == -1, "an empty set has no first member"); seq(s, n, [](uint32_t) {}, [] {}, false, false); }
  if (w == 7) { EpochVisitedSet<uint8_t> s(20); uint32_t a = symx_range(0, 19, "a"), q = symx_range(0, 19, "q"); static const int at[] = {0, 1, 57, 253, 254, 255}; int when = at[symx_pick(0, 5, "when")]; for (int i = 0; i < 600; i++) { if (i == when) { s.set(a); symx_check(s.get(q) == (a == q), "members"); } s.clear(); symx_check(!s.get(q), "a cleared set is empty, also when its counter wraps"); } symx_reach("wrapped"); }
  if (w == 8) { VisitedListPool p(1, 6); auto* v = p.get_free_visited_list(); uint32_t a = symx_pick(0, 5, "a"); v->mass_[a] = v->cur_v_; for (uint32_t q = 0; q < 6; q++) symx_check((v->mass_[q] == v->cur_v_) == (q == a), "members"); p.release_visited_list(v); for (int i = 0; i < 66000; i++) { v = p.get_free_visited_list(); if (v->mass_[a] == v->cur_v_ || v->mass_[(a + 1) % 6] == v->cur_v_) symx_fail("a fresh list is empty, also when its counter wraps"); p.release_visited_list(v); } auto* x = p.get_free_visited_list(); auto* y = p.get_free_visited_list(); symx_check(x != y, "borrowed lists are distinct"); p.release_visited_list(x); p.release_visited_list(y); symx_reach("wrapped"); }
  if (w == 9) { diskann::VisitedBitset s; uint64_t n = symx_pick(0, 130, "n"); s.resize(n); uint32_t x = symx_u32("x"); bool t = false; try { int op = symx_pick(0, 2, "op"); if (op == 0) s.set(x); else if (op == 1) (void)s.test(x); else (void)s.test_and_set(x); } catch (const std::out_of_range&) { t = true; } symx_check(t == (x >= n), "an id beyond the size is refused, every other accepted"); symx_check(s.size_bits() == n, "size"); if (t) symx_reach("refused"); }
  if (w == 10) { static EpochVisitedPool<uint32_t> p(1, 8); static HashSetPool h(1, 8); auto body = [&](uint32_t mine, uint32_t other) { auto* s = p.acquire(); symx_check(!s->get(1) && !s->get(2), "a borrowed set is empty"); s->set(mine); symx_check(s->get(mine) && !s->get(other), "a borrowed set is not shared"); p.release(s); auto* g = h.acquire(); symx_check(!g->get(1) && !g->get(2), "a borrowed set is empty"); g->set(mine); symx_check(g->get(mine) && !g->get(other), "a borrowed set is not shared"); h.release(g); }; std::thread t([&] { body(1, 2); }); body(2, 1); t.join(); symx_reach("pooled"); }
}
