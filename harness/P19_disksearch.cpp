//@property P19
//@case single mode=0 segs=1 n=3 metric=1 reach=hits
//@case merge2 mode=0 segs=2 n=3 metric=1 reach=hits
//@case merge3 mode=0 segs=3 n=3 metric=1 reach=hits
//@case merge4 thorough mode=0 segs=2 n=4 metric=1 reach=hits
//@case l2 mode=1 reach=hits
//@case cos mode=2 reach=hits,refused
//@case refuse mode=3 reach=hits,refused
//@case batch mode=4 --preempt 2 reach=batched
//@case batch-error mode=5 --preempt 1 reach=threw
//@bound 3 (thorough 4) rows with arbitrary finite values and arbitrary distinct labels in 1 to 3 segments, every result size 1..4 (inner product, one dimension); squared distance with up to 5 dimensions over small whole values; two queries on two threads with 2 preemptions
#include "symx.h"
#include "vfs.h"
#include <memory>
#include <cmath>
#include <cstring>
#include <string>
#include <index/disk/disk_collection.hpp>
using namespace alaya; using namespace alaya::disk;
static bool fin(float v) { uint32_t b; memcpy(&b, &v, 4); return (b & 0x7f800000) != 0x7f800000; }
static DiskCollection* make(MetricType m, uint32_t dim) { vfs_put("/d/x", "x", 1); return new DiskCollection("/d/c", dim, m, DiskIndexType::Flat); }
static void judge(const std::vector<DiskSearchHit>& h, const float* dist, const uint64_t* lab, int n, uint64_t k) { // exact k best by (distance, label)
  symx_check(h.size() == (k < (uint64_t)n ? k : n), "the number of results is the smaller of the request and the collection"); bool sorted = true, exact = true, best = true;
  for (size_t i = 0; i < h.size(); i++) { bool found = false; for (int j = 0; j < n; j++) found = found | ((h[i].label == lab[j]) & (h[i].distance == dist[j])); exact = exact & found; if (i) sorted = sorted & ((h[i - 1].distance < h[i].distance) | ((h[i - 1].distance == h[i].distance) & (h[i - 1].label < h[i].label))); }
  for (int j = 0; j < n && h.size(); j++) { bool in = false; for (auto& x : h) in = in | (x.label == lab[j]); auto& w = h.back(); best = best & (in | (w.distance < dist[j]) | ((w.distance == dist[j]) & (w.label < lab[j]))); }
  symx_check(exact, "every result is a stored row with its exact distance"); symx_check(sorted, "results come nearest first, ties by label, each row once"); symx_check(best, "no omitted row is nearer than a returned one"); symx_reach("hits");
}
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0); DiskSearchOptions o;
  if (mode == 0) {
    int segs = (int)symx_param("segs", 1), n = (int)symx_param("n", 3); auto* c = make(MetricType::IP, 1); float v[4], dist[4]; uint64_t lab[4]; for (int i = 0; i < n; i++) { v[i] = symx_f32("v"); symx_assume(fin(v[i])); dist[i] = -v[i]; lab[i] = 1000 + symx_u8("label"); for (int j = 0; j < i; j++) symx_assume(lab[j] != lab[i]); }
    int per = (n + segs - 1) / segs; for (int i = 0; i < n; i += per) { int m = i + per > n ? n - i : per; c->add_batch(v + i, lab + i, m); c->flush(); } symx_check(c->size() == (uint64_t)n, "all rows are counted"); o.top_k = symx_pick(1, n + 1, "k"); float q = 1; judge(c->search(&q, o), dist, lab, n, o.top_k);
  } else if (mode == 1) {
    int dim = symx_pick(1, 5, "dim"); auto* c = make(MetricType::L2, dim); float v[2][5] = {}, q[5] = {}; int at = symx_pick(0, dim - 1, "at"); uint64_t lab[2] = {7, 5}; float dist[2]; for (int i = 0; i < 2; i++) for (int j = 0; j < dim; j++) v[i][j] = 1 + j; for (int j = 0; j < dim; j++) q[j] = 1 + j; int a = symx_pick(0, 3, "a"), b = symx_pick(0, 3, "b"), qq = symx_pick(0, 3, "q"); v[0][at] = a; v[1][at] = b; q[at] = qq; dist[0] = (a - qq) * (a - qq); dist[1] = (b - qq) * (b - qq);
    bool two = symx_bool("two"); float flat[10]; for (int i = 0; i < 2; i++) for (int j = 0; j < dim; j++) flat[i * dim + j] = v[i][j]; if (two) { c->add_batch(flat, lab, 1); c->flush(); c->add_batch(flat + dim, lab + 1, 1); } else c->add_batch(flat, lab, 2); c->flush(); o.top_k = symx_pick(1, 3, "k"); judge(c->search(q, o), dist, lab, 2, o.top_k);
  } else if (mode == 2) {
    static const float S[] = {1e-30f, 0.25f, 1, 3, 1e18f}; auto* c = make(MetricType::COS, 2); float s = S[symx_pick(0, 4, "scale")], t = S[symx_pick(0, 4, "qscale")]; int z = symx_pick(0, 2, "zero"); float v[6] = {3 * s, 4 * s, -s, 0, 0, 2 * s}; uint64_t lab[3] = {1, 2, 3}; if (z == 1) v[2] = 0; float q[2] = {z == 2 ? 0 : 4 * t, z == 2 ? 0 : 3 * t};
    c->add_batch(v, lab, 3); bool ok = false; symx_attempt([&] { c->flush(); ok = true; }); symx_check(ok == (z != 1), "a zero row is refused under the cosine metric"); if (!ok) { symx_check(c->size() == 0, "a refused row adds nothing"); symx_reach("refused"); return; }
    std::vector<DiskSearchHit> h; o.top_k = 3; bool got = false; symx_attempt([&] { h = c->search(q, o); got = true; }); symx_check(got == (z != 2), "a zero query is refused under the cosine metric"); if (!got) { symx_reach("refused"); return; }
    symx_check(h.size() == 3 && h[0].label == 1 && h[1].label == 3 && h[2].label == 2, "cosine order does not depend on the lengths"); symx_check(std::fabs(h[0].distance + 0.96f) < 1e-5f && std::fabs(h[1].distance + 0.6f) < 1e-5f && std::fabs(h[2].distance - 0.8f) < 1e-5f, "cosine distances do not depend on the lengths"); symx_reach("hits");
  } else if (mode == 3) { // arbitrary components, finite or not, and a zero result size
    MetricType ms[] = {MetricType::L2, MetricType::IP}; auto* c = make(ms[symx_pick(0, 1, "metric")], 2); float v[2] = {1, 2}; uint64_t l = 4; int where = symx_pick(0, 2, "where"); float x = symx_f32("x"); int at = symx_pick(0, 1, "at");
    if (where == 0) { v[at] = x; c->add_batch(v, &l, 1); bool ok = false; symx_attempt([&] { c->flush(); ok = true; }); symx_check(ok == fin(x), "a row is refused exactly when a component is not finite"); symx_check(c->size() == (ok ? 1 : 0), "a refused row adds nothing"); symx_reach(ok ? "hits" : "refused"); return; }
    c->add_batch(v, &l, 1); c->flush(); bool ok = false; float q[2] = {0, 0}; q[at] = x; o.top_k = where == 2 ? 0 : 1; const float* qp = q; bool null = symx_bool("null"); if (null) qp = nullptr; size_t got = 0; symx_attempt([&] { got = c->search(qp, o).size(); ok = true; }); symx_check(ok == ((where == 1) & !null & fin(x)), "a search is refused exactly when the query or the result size is not usable"); if (ok) symx_check(got == 1, "an accepted query is answered"); symx_reach(ok ? "hits" : "refused");
  } else {
    auto* c = make(MetricType::L2, 1); float v[3] = {0, 2, 5}; uint64_t l[3] = {9, 8, 7}; c->add_batch(v, l, 2); c->flush(); c->add_batch(v + 2, l + 2, 1); c->flush(); float q[3] = {5, 1, 0}; int nq = mode == 4 ? 2 : 3; uint64_t lab[12]; float d[12]; for (int i = 0; i < 12; i++) { lab[i] = ~0ull; d[i] = -7; } o.top_k = mode == 4 ? 4 : 1; uint32_t th = mode == 4 ? symx_pick(1, 3, "threads") : 2; bool nod = symx_bool("nodist");
    if (mode == 5) { int bad = symx_pick(0, 2, "bad"); q[bad] = __builtin_nanf(""); int rc = symx_attempt([&] { c->batch_search(q, nq, o, th, lab, nod ? nullptr : d); }); symx_check(rc == 2, "a batch with a bad query reports it"); symx_check(lab[bad] == ~0ull, "nothing is written for a bad query"); symx_reach("threw"); return; }
    c->batch_search(q, nq, o, th, lab, nod ? nullptr : d);
    for (int i = 0; i < nq; i++) { auto h = c->search(q + i, o); symx_check(h.size() == 3, "every row is found"); for (size_t j = 0; j < 4; j++) { symx_check(lab[i * 4 + j] == (j < h.size() ? h[j].label : ~0ull), "a batch answers each query like a single search and leaves the rest alone"); symx_check(d[i * 4 + j] == (j < h.size() && !nod ? h[j].distance : -7), "batch distances match"); } } for (int i = nq * 4; i < 12; i++) symx_check(lab[i] == ~0ull, "nothing is written past the results"); symx_reach("batched");
  }
}
