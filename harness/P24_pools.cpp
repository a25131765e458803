//@property P24
//@case linear which=0 n=4 cap=2 quick
//@case linear3 which=0 n=5 cap=3 thorough
//@case searchbuf which=1 n=4 cap=2 quick
//@case searchbuf3 which=1 n=5 cap=3 thorough
//@case laserbuf which=2 n=4 cap=2 quick
//@case vamanaq which=3 n=4 cap=2 quick
//@case vamanaq3 which=3 n=5 cap=3 thorough
//@case result which=4 n=4 cap=2 quick reach=full,evict
//@case linear_big which=0 n=4 cap=4 reach=popped,full
//@case searchbuf_big which=1 n=4 cap=4 reach=popped,full
//@case vamanaq_big which=3 n=4 cap=4 reach=popped,full
//@reach popped full evict
//@bound histories of up to 4 (thorough 5) insertions of distinct ids with any finite float distances, a pop allowed between any two, capacities 2..4
//@assume ids inserted at most once; id < 2^31 (the search loops guarantee both)
#include "symx.h"
#include <utils/query_utils.hpp>
#include <utils/rabitq_utils/search_utils/buffer.hpp>
#include <index/graph/laser/utils/buffer.hpp>
#include <index/graph/vamana/robust_prune.hpp>
static int lt(float a, float b) { return (int)symx_concretize(a < b); }
struct A0 { alaya::LinearPool<float, uint32_t> p; A0(int n, int c) : p(n, c) {} void insert(uint32_t i, float d) { p.insert(i, d); } bool has() { return p.has_next(); } uint32_t pop() { return p.pop() & 0x7fffffff; } size_t size() { return p.size(); } uint32_t id(int i) { return p.id(i); } float dist(int i) { return p.dist(i); } };
struct A1 { alaya::SearchBuffer<float> p; A1(int n, int c) : p(c) {} void insert(uint32_t i, float d) { p.insert(i, d); } bool has() { return p.has_next(); } uint32_t pop() { return p.pop(); } size_t size() { return p.size(); } uint32_t id(int i) { return p.data()[i].id_ & 0x7fffffff; } float dist(int i) { return p.data()[i].distance_; } };
struct A2 { alaya::laser::buffer::SearchBuffer p; size_t n_ = 0, c_; A2(int n, int c) : p(c), c_(c) {} void insert(uint32_t i, float d) { if (!p.is_full(d)) p.insert(i, d); } bool has() { return p.has_next(); } uint32_t pop() { return p.pop(); } };
struct A3 { alaya::vamana::NeighborPriorityQueue p; A3(int n, int c) : p(c) {} void insert(uint32_t i, float d) { p.insert(alaya::vamana::Neighbor(i, d)); } bool has() { return p.has_unexpanded_node(); } uint32_t pop() { return p.closest_unexpanded().id; } size_t size() { return p.size(); } uint32_t id(int i) { return p[i].id; } float dist(int i) { return p[i].distance; } };
template <class A> void run(int n, int cap) {
  A a(16, cap); float d[8]; bool popped[8] = {};
  for (int i = 0; i < n; i++) {
    d[i] = symx_f32("d"); symx_assume(d[i] >= -3e38f && d[i] <= 3e38f);
    a.insert(i + 1, d[i]);
    if (symx_bool("pop") && a.has()) {
      uint32_t id = a.pop(); symx_check(id >= 1 && id <= (uint32_t)i + 1, "pop returns an inserted id"); int k = (int)symx_concretize(id) - 1;
      symx_check(!popped[k], "no entry is handed out twice"); popped[k] = true; symx_reach("popped");
      // at most cap-1 inserted entries are strictly nearer, and every nearer one that still fits was handed out before
      int nearer = 0; for (int j = 0; j <= i; j++) nearer += lt(d[j], d[k]); symx_check(nearer < cap, "popped entry belongs to the nearest `capacity`");
      for (int j = 0; j <= i; j++) if (!popped[j]) symx_check(!(d[j] < d[k]), "pop returns the nearest entry not handed out yet");
    }
  }
  int want = n < cap ? n : cap; if (n >= cap) symx_reach("full"); if (n > cap) symx_reach("evict");
  if constexpr (requires { a.size(); }) {
    symx_check(a.size() == (size_t)want, "holds min(inserted, capacity) entries");
    for (int i = 0; i < want; i++) {
      uint32_t id = (uint32_t)symx_concretize(a.id(i)); symx_check(id >= 1 && id <= (uint32_t)n, "stored id was inserted"); float x = a.dist(i);
      symx_check(x == d[id - 1], "stored distance belongs to its id");
      if (i) symx_check(!(x < a.dist(i - 1)), "ascending distances");
      for (int j = 0; j < i; j++) symx_check(a.id(j) != id, "no duplicate entry");
      int less = 0; for (int j = 0; j < n; j++) less += lt(d[j], x); symx_check(less <= i, "i-th entry is the i-th nearest");
    }
  }
  // draining yields every remaining entry once
  int left = 0; while (a.has() && left < 10) { uint32_t id = (uint32_t)symx_concretize(a.pop()); symx_check(id >= 1 && id <= (uint32_t)n && !popped[id - 1], "drain hands out each entry once"); popped[id - 1] = true; int nearer = 0; for (int j = 0; j < n; j++) nearer += lt(d[j], d[id - 1]); symx_check(nearer < cap, "drained entry is within capacity"); left++; symx_reach("popped"); }
  for (int k = 0; k < n; k++) if (!popped[k]) { int le = 0; for (int j = 0; j < n; j++) le += j != k && !lt(d[k], d[j]); symx_check(le >= cap, "only entries beyond the capacity are dropped"); }
}
static void result(int n, int cap) {
  alaya::laser::buffer::ResultBuffer r(cap); float d[8]; for (int i = 0; i < n; i++) { d[i] = symx_f32("d"); symx_assume(d[i] >= -3e38f && d[i] <= 3e38f); r.insert(i + 1, d[i]); }
  uint32_t out[8]; r.copy_results(out); int want = n < cap ? n : cap; if (n >= cap) symx_reach("full"); if (n > cap) symx_reach("evict");
  for (int i = 0; i < want; i++) { uint32_t id = (uint32_t)symx_concretize(out[i]); symx_check(id >= 1 && id <= (uint32_t)n, "result id was inserted"); for (int j = 0; j < i; j++) symx_check(out[j] != id, "no duplicate result"); int less = 0; for (int j = 0; j < n; j++) less += lt(d[j], d[id - 1]); symx_check(less <= i, "results are the nearest, ascending"); if (i) symx_check(!(d[id - 1] < d[out[i - 1] - 1]), "ascending results"); }
}
extern "C" void symx_main() {
  int w = symx_param("which", 0), n = symx_param("n", 4), c = symx_param("cap", 2);
  if (w == 0) run<A0>(n, c); else if (w == 1) run<A1>(n, c); else if (w == 2) run<A2>(n, c); else if (w == 3) run<A3>(n, c); else result(n, c);
}
