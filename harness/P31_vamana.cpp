//@property P31
//@case search mode=0 n=3 reach=all,partial,refused
//@case search4 mode=0 n=4 reach=all,partial,refused
//@case reader mode=1 n=3 reach=accepted,refused
//@case cut mode=2 reach=cut,whole
//@case write mode=3 reach=reported,saved
//@case prune mode=4 m=3 reach=kept,left
//@case prune4 thorough mode=4 m=4 reach=kept,left
//@case build mode=5 n=4 reach=built
//@case build5 thorough mode=5 n=5 reach=built
//@case segment mode=6 reach=published,failed
//@case damage mode=7 reach=refused,opened
//@case collection mode=8 reach=new,old
//@bound every graph of 3 rows and a quarter of those of 4 rows, every entry row, result count and list size up to the row count; graph files of 2 or 3 rows with any one 32-bit field replaced by an arbitrary value, lengthened, or cut at any byte; 3 candidates (thorough 4) with every combination of a few distances; builds of 4 (thorough 5) rows on a line with every degree bound, list size of at least that and two alphas; a stop (process or power) or one or two failing file operations at any file operation of saving a graph, a segment or a collection; arbitrary 64-bit labels; segments of 3 rows with one file or one manifest entry replaced
//@assume the builder runs on one thread; rows have one dimension
#include "symx.h"
#include "vfs.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include <index/disk/disk_collection.hpp>
#include <index/disk/vamana_segment_builder.hpp>
#include <index/disk/vamana_segment_searcher.hpp>
#include <index/graph/vamana/vamana_builder.hpp>
#include <index/graph/vamana/vamana_greedy_search.hpp>
#include <index/graph/vamana/vamana_reader.hpp>
#include <index/graph/vamana/vamana_writer.hpp>
using namespace alaya; using namespace alaya::vamana; typedef uint32_t I; typedef std::vector<std::vector<I>> Adj;
static std::vector<char> reach(const Adj& g, I s) { std::vector<char> r(g.size()); r[s] = 1; for (size_t k = 0; k < g.size(); k++) for (size_t i = 0; i < g.size(); i++) if (r[i]) for (I x : g[i]) r[x] = 1; return r; }
static void judge(const std::vector<GreedyHit>& h, const std::vector<float>& v, float q, const Adj& g, I start, I k, I L) {
  auto r = reach(g, start); size_t n = g.size(), can = 0; for (char c : r) can += c; std::vector<char> in(n); auto d = [&](I i) { return (v[i] - q) * (v[i] - q); };
  symx_check(h.size() <= k && h.size() <= can, "no more results than asked for"); for (size_t i = 0; i < h.size(); i++) { symx_check(h[i].id < n && r[h[i].id] && !in[h[i].id], "results are distinct reachable rows"); in[h[i].id] = 1; symx_check(h[i].distance == d(h[i].id), "each result has its own distance"); if (i) symx_check(h[i - 1].distance < h[i].distance || (h[i - 1].distance == h[i].distance && h[i - 1].id < h[i].id), "results are in ascending order of distance, then number"); }
  if (L >= can) { symx_check(h.size() == std::min<size_t>(k, can), "as many rows as possible are found"); if (!h.empty()) for (I i = 0; i < n; i++) if (r[i] && !in[i]) symx_check(!(d(i) < h.back().distance), "no nearer row is missed"); symx_reach("all"); } else symx_reach("partial");
  // a neighbour of a found row is found too unless it is no nearer than the last result
  if (h.size() == k) for (auto& x : h) for (I y : g[x.id]) if (!in[y]) symx_check(!(d(y) < h.back().distance), "a nearer neighbour of a found row is found too"); symx_check(!h.empty(), "something is found");
}
static Adj arbitrary(int n) { Adj g(n); for (int i = 0; i < n; i++) { std::vector<I> o; for (int j = 0; j < n; j++) if (j != i) o.push_back(j); int m = n == 3 ? symx_pick(1, 3, "edges") : 0; if (n == 4) { static const int M[] = {1, 3, 4, 6}; m = M[symx_pick(0, 3, "edges")]; } for (int b = 0; b < n - 1; b++) if (m >> b & 1) g[i].push_back(o[b]); } return g; }
static uint32_t u32(const uint8_t* p) { uint32_t v; memcpy(&v, p, 4); return v; } static uint64_t u64(const uint8_t* p) { uint64_t v; memcpy(&v, p, 8); return v; }
static bool valid(const std::vector<uint8_t>& f, Adj* g) {
  size_t n = f.size(); if (n < 24 || u64(&f[0]) != n || u64(&f[16]) != 0) return false; uint32_t md = u32(&f[8]), st = u32(&f[12]); if (md == 0) return false; g->clear();
  for (size_t p = 24; p < n;) { if (n - p < 4) return false; uint64_t k = u32(&f[p]); p += 4; if (k == 0 || k > md || k * 4 > n - p) return false; k = symx_concretize(k); std::vector<I> a; for (size_t i = 0; i < k; i++, p += 4) a.push_back(u32(&f[p])); g->push_back(a); }
  for (size_t i = 0; i < g->size(); i++) for (I x : (*g)[i]) if (x >= g->size() || x == i) return false; return st < g->size();
}
static bool same(const Adj& a, const Adj& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); j++) if (a[i][j] != b[i][j]) return false; } return true; }
static void put(const char* p, const std::vector<uint8_t>& d) { vfs_put(p, d.data(), d.size()); }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0); vfs_put("/d/.k", "", 0);
  if (mode == 0) {
    int n = (int)symx_param("n", 3); Adj g = arbitrary(n); I start = symx_pick(0, n == 3 ? 2 : 1, "start"); save_graph(g, "/d/g", 3, start); VamanaReader rd("/d/g"); symx_check(same(rd.graph(), g) && rd.start() == start && rd.max_degree() == 3 && rd.num_nodes() == (size_t)n, "a graph is read back as it was written");
    std::vector<float> v(n + 1); for (int i = 0; i < n; i++) v[i] = n == 3 ? (float)(int)symx_pick(0, 2, "v") : (float)((i * (int)symx_pick(1, 1, "v")) % 4); if (n == 4) { static const int P[][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}, {1, 3, 0, 2}, {1, 1, 0, 2}, {2, 2, 2, 1}}; int p = symx_pick(0, 5, "order"); for (int i = 0; i < n; i++) v[i] = (float)P[p][i]; }
    VamanaGreedySearch s(rd, v.data(), 1); Adj g2 = {{1}, {0}}; save_graph(g2, "/d/g2", 1, 1); VamanaReader r2("/d/g2"); float w[2] = {5, 7}; VamanaGreedySearch s2(r2, w, 1); float q[1] = {0}; I k = symx_pick(1, n + 1, "k"), L = symx_pick(0, n, "L");
    std::vector<GreedyHit> h; int rc = symx_attempt([&] { h = s.search(q, k, L); }); symx_check(rc == (L < k ? 2 : 0), "a list shorter than the result is refused"); if (L < k) { symx_reach("refused"); return; } judge(h, v, 0, g, start, k, L);
    float q2[1] = {6.5f}; auto h2 = s2.search(q2, 2, 2); symx_check(h2.size() == 2 && h2[0].id == 1 && h2[1].id == 0, "another graph"); auto h3 = s.search(q, k, L); symx_check(h3.size() == h.size(), "a search repeats"); for (size_t i = 0; i < h.size(); i++) symx_check(h3[i].id == h[i].id && h3[i].distance == h[i].distance, "a search repeats"); float q3[1] = {1.25f}; judge(s.search(q3, k, L), v, 1.25f, g, start, k, L); symx_check(symx_attempt([&] { s.search(q, 0, 3); }) == 2, "no results are refused");
  } else if (mode == 1) {
    int n = symx_pick(2, 3, "n"); Adj g = n == 2 ? Adj{{1}, {0}} : Adj{{1, 2}, {0}, {1, 0}}; save_graph(g, "/d/g", 2, 1); auto f = *vfs_data("/d/g"); int at = symx_pick(0, (int)f.size() / 4 - 1, "field"); uint32_t x = symx_u32("x"); memcpy(&f[at * 4], &x, 4); if (symx_bool("grow")) { f.resize(f.size() + symx_pick(1, 8, "more"), 0); uint64_t z = f.size(); if (at > 1) memcpy(&f[0], &z, 8); } put("/d/h", f);
    Adj want; bool ok = valid(f, &want); std::unique_ptr<VamanaReader> r; int rc = symx_attempt([&] { r = std::make_unique<VamanaReader>("/d/h"); }); symx_check(rc == (ok ? 0 : 2), "a graph file is accepted exactly when it is well formed"); if (ok && rc == 0) { symx_check(same(r->graph(), want) && r->start() == u32(&f[12]) && r->max_degree() == u32(&f[8]), "an accepted file is read as it is"); symx_reach("accepted"); } else symx_reach("refused");
  } else if (mode == 2) {
    Adj g = {{1, 2}, {0}, {1, 0}}; save_graph(g, "/d/sub/g", 2, 2); auto f = *vfs_data("/d/sub/g"); size_t n = f.size(), c = symx_pick(0, n, "cut"); f.resize(c); put("/d/h", f); std::unique_ptr<VamanaReader> r; int rc = symx_attempt([&] { r = std::make_unique<VamanaReader>("/d/h"); }); symx_check(rc == (c < n ? 2 : 0), "a file that was cut short is refused"); if (c == n) symx_check(same(r->graph(), g), "a whole file is read"); symx_reach(c < n ? "cut" : "whole"); symx_check(symx_attempt([&] { VamanaReader t("/d/none"); }) == 2, "a missing file is refused"); symx_check(symx_attempt([&] { VamanaReader t("/d/sub"); }) == 2, "a directory is refused");
  } else if (mode == 3) {
    Adj g(3); g[0] = {1, 2}; g[1] = {2}; g[2] = {0}; vfs.ops = 0; vfs.fail_at = symx_pick(0, 8, "at"); uint64_t part = symx_pick(0, 2, "part"); vfs.fail_short = part * 9; if (symx_bool("once")) vfs.fail_count = 1; int rc = symx_attempt([&] { save_graph(g, "/d/g", 2, 1); }); vfs.fail_at = ~0ull; if (rc == 2) { symx_check(vfs.failed, "a graph is refused only when the file system failed"); symx_reach("reported"); } else { Adj got; int r2 = symx_attempt([&] { VamanaReader r("/d/g"); got = r.graph(); }); symx_check(r2 == 0 && same(got, g), "a graph reported as written can be read"); symx_reach("saved"); }
  } else if (mode == 4) {
    int m = (int)symx_param("m", 3); static const float D[] = {1, 2, 3.5f, 4}; static const float E[] = {0, 1, 2, 4}; static const float AL[] = {1.0f, 1.2f, 2.0f}; float dist[4], pr[4][4]; for (int i = 0; i < m; i++) { dist[i] = D[symx_pick(0, m == 3 ? 3 : 2, "d")]; for (int j = 0; j < i; j++) pr[i][j] = pr[j][i] = E[symx_pick(0, 3, "p")]; } float alpha = AL[symx_pick(0, 2, "alpha")]; I deg = symx_pick(1, m, "degree"), maxc = symx_bool("cap") ? m - 1 : 750;
    std::vector<Neighbor> pool; for (int i = m; i--;) pool.push_back(Neighbor(i + 10, dist[i])); std::vector<I> out = {99}; std::vector<float> scratch(7, 5.0f); prune_neighbors(5, pool, alpha, deg, maxc, out, scratch, [&](I a, I b) { return pr[a - 10][b - 10]; });
    std::vector<int> ord(m); for (int i = 0; i < m; i++) ord[i] = i; std::sort(ord.begin(), ord.end(), [&](int a, int b) { return dist[a] < dist[b] || (dist[a] == dist[b] && a < b); }); int use = std::min<int>(m, maxc); std::vector<int> rank(m); for (int i = 0; i < m; i++) rank[ord[i]] = i;
    float last = 1; while (last * 1.2f <= alpha) last *= 1.2f; std::vector<char> in(m); symx_check(out.size() >= 1 && out.size() <= deg, "between one neighbour and the degree bound are kept"); for (I x : out) { symx_check(x >= 10 && x < 10u + m && !in[x - 10] && rank[x - 10] < use, "kept neighbours are distinct candidates"); in[x - 10] = 1; } symx_check((int)out[0] - 10 == ord[0], "the nearest candidate is always kept"); symx_reach("kept");
    auto hides = [&](int i, int j, float a) { return pr[i][j] == 0 || dist[j] / pr[i][j] > a; }; for (size_t b = 0; b < out.size(); b++) for (size_t a = 0; a < b; a++) { int i = out[a] - 10, j = out[b] - 10; if (rank[i] < rank[j]) symx_check(!hides(i, j, alpha), "a candidate hidden by a nearer kept neighbour is not kept"); }
    if (out.size() < deg) for (int j = 0; j < m; j++) if (!in[j] && rank[j] < use) { bool hid = false; for (int i = 0; i < m; i++) if (in[i] && rank[i] < rank[j] && hides(i, j, last)) hid = true; symx_check(hid, "a candidate is left out only when a nearer kept neighbour hides it"); symx_reach("left"); }
    std::vector<Neighbor> none; prune_neighbors(5, none, alpha, deg, maxc, out, scratch, [&](I, I) { return 1.0f; }); symx_check(out.empty(), "no candidates, no neighbours");
  } else if (mode == 5) {
    int n = (int)symx_param("n", 4); std::vector<float> v(n); for (int i = 0; i < n; i++) v[i] = (float)(int)symx_pick(0, 3, "v") * (i & 1 ? 1.0f : 1.5f); VamanaBuildParams p; p.R = symx_pick(1, n - 1, "R"); p.L = symx_pick(p.R, n, "L"); p.alpha = symx_pick(0, 1, "alpha") ? 1.2f : 1.0f; p.num_threads = 1; VamanaBuilder b(v.data(), n, 1, p); b.build();
    auto& g = b.graph(); I md = b.medoid(); symx_check(g.size() == (size_t)n && md < (I)n, "every row is in the graph"); float c = 0; for (float x : v) c += x; c /= n; for (float x : v) symx_check(!((x - c) * (x - c) < (v[md] - c) * (v[md] - c) - 1e-4f), "the entry is the row nearest to the mean");
    for (int i = 0; i < n; i++) { symx_check(!g[i].empty() && g[i].size() <= p.R, "every row has between one neighbour and the degree bound"); for (size_t a = 0; a < g[i].size(); a++) { symx_check(g[i][a] < (I)n && g[i][a] != (I)i, "neighbours are other rows"); for (size_t e = 0; e < a; e++) symx_check(g[i][e] != g[i][a], "neighbours are distinct"); } }
    auto r = reach(g, md); int cnt = 0; for (char x : r) cnt += x; if (p.R >= (I)n - 1 && p.L >= (I)n) symx_check(cnt == n, "every row can be reached from the entry"); symx_reach("built"); save_graph(g, "/d/g", p.R, md); VamanaReader rd("/d/g"); VamanaGreedySearch s(rd, v.data(), 1); float q[1] = {1}; judge(s.search(q, 2, n), v, 1, g, md, 2, n);
  } else if (mode == 6) {
    using namespace alaya::disk; VamanaSegmentBuildParams sp; sp.R = symx_pick(1, 2, "R"); sp.L = sp.R == 1 ? 1 : 3; sp.alpha = 1.2f; sp.num_threads = 1; uint64_t lab[3]; for (auto& l : lab) l = symx_u64("label"); static const float V[][3] = {{3, 0, 1}, {2, 2, 2}}; const float* v = V[symx_pick(0, 1, "v")]; VamanaSegmentBuilder b(1, MetricType::L2, sp);
    int split = 1; b.add_batch(v, lab, split); uint32_t bits = symx_u32("bits"); float bad[2] = {1, 0}; memcpy(&bad[1], &bits, 4); bool fin = (bits & 0x7f800000u) != 0x7f800000u; if (!fin) symx_check(symx_attempt([&] { b.add_batch(bad, lab, 2); }) == 2, "a value that is not a finite number is refused"); else if (symx_bool("more")) { VamanaSegmentBuilder t(1, MetricType::L2, sp); symx_check(symx_attempt([&] { t.add_batch(bad, lab, 2); }) == 0, "finite values are accepted"); return; } b.add_batch(v + split, lab + split, 3 - split);
    vfs.ops = 0; int crash = symx_pick(0, 2, "crash"); uint64_t at = symx_pick(0, 24, "at"), part = symx_pick(0, 1, "part") * 5; vfs.crash_kind = crash == 2 ? VFS_POWER : VFS_PROCESS; if (crash) { vfs.crash_at = at; vfs.torn = part; } else { vfs.fail_at = at; vfs.fail_short = part; vfs.fail_count = symx_bool("again") ? 2 : 1; }
    bool done = false; SegmentManifest m; int rc = symx_attempt([&] { m = b.finish("/d/seg_00000004"); done = true; }); if (crash && rc == 77) vfs_crash_recover(); vfs.fail_at = vfs.crash_at = ~0ull; symx_check(rc == 77 || done || vfs.failed, "a segment is published when nothing fails"); bool there = vfs_exists("/d/seg_00000004/manifest.txt"); if (done) { symx_check(m.count == 3 && m.dim == 1, "the manifest tells the rows"); symx_check(symx_attempt([&] { b.finish("/d/seg_00000005"); }) == 2, "a segment is finished once"); }
    if (done && (crash != 2 || rc != 77)) symx_check(there, "a segment that was reported is there"); if (!done && rc != 77) { symx_check(!vfs_is_dir("/d/seg_00000004"), "a segment that was not reported is not there"); if (!there) { m = b.finish("/d/seg_00000004"); there = true; } symx_reach("failed"); } if (!there) { symx_check(!vfs_is_dir("/d/seg_00000004"), "no part of a segment appears"); return; }
    std::unique_ptr<VamanaSegmentSearcher> s; int r2 = symx_attempt([&] { s = std::make_unique<VamanaSegmentSearcher>("/d/seg_00000004"); }); symx_check(r2 == 0, "a published segment opens"); if (r2) return; symx_reach("published"); symx_check(s->size() == 3 && s->dim() == 1, "all rows are there"); DiskSearchOptions o; o.top_k = symx_bool("k") ? 2 : 4; o.ef = 3; float q[1] = {0.75f}; auto h = s->search(q, o); if (o.top_k >= 3 && sp.R == 2 && sp.L == 3) symx_check(h.size() == 3, "all rows are found"); symx_check(!h.empty() && h.size() <= o.top_k && h.size() <= 3, "no more than asked for");
    std::vector<int> ord = {0, 1, 2}; auto d = [&](int i) { return (v[i] - q[0]) * (v[i] - q[0]); }; std::sort(ord.begin(), ord.end(), [&](int a, int c) { return d(a) < d(c) || (d(a) == d(c) && a < c); }); size_t at2 = 0; for (auto& x : h) { while (at2 < 3 && !(d(ord[at2]) == x.distance && symx_concretize(lab[ord[at2]] == x.label))) at2++; symx_check(at2 < 3, "each result is a row with its own label and distance, nearest first"); at2++; if (at2 > 3) return; }
  } else if (mode == 7) {
    using namespace alaya::disk; VamanaSegmentBuildParams sp; sp.R = 2; sp.L = 4; sp.num_threads = 1; float v[4] = {1, 2, 4, 8}; uint64_t lab[4] = {10, 11, 12, 13}; auto build = [&](const char* p, int n) { VamanaSegmentBuilder b(1, MetricType::L2, sp); b.add_batch(v, lab, n); b.finish(p); }; build("/d/seg_00000001", 3); build("/d/seg_00000002", 4); build("/d/seg_00000003", 2);
    const char* F[] = {"/d/seg_00000001/ids.u64.bin", "/d/seg_00000001/vectors.f32.bin", "/d/seg_00000001/graph.index"}; const char* N[] = {"ids.u64.bin", "vectors.f32.bin", "graph.index"}; int w = symx_pick(0, 8, "what"); bool want = false; auto m = SegmentManifest::load("/d/seg_00000001/manifest.txt"); bool save = true;
    if (w == 0) { save = false; want = true; }
    else if (w == 1) { save = false; auto d = *vfs_data(F[symx_pick(0, 2, "file")]); int i = symx_pick(0, 2, "file2"); d = *vfs_data(F[i]); size_t n = symx_pick(0, d.size() + 5, "size"); want = n == d.size(); d.resize(n); put(F[i], d); }
    else if (w == 2) { save = false; int i = symx_pick(0, 2, "file"); auto d = *vfs_data(std::string(symx_bool("bigger") ? "/d/seg_00000002/" : "/d/seg_00000003/") + N[i]); put(F[i], d); }
    else if (w == 3) { static const uint64_t C[] = {0, 1, 2, 3, 4, 6, 0x100000003ull, 0x4000000000000003ull, 0x2000000000000003ull}; m.count = C[symx_pick(0, 8, "count")]; want = m.count == 3; }
    else if (w == 4) { static const uint64_t D[] = {0, 1, 2, 3, 0x100000001ull, 0x4000000000000001ull}; m.dim = D[symx_pick(0, 5, "dim")]; want = m.dim == 1; }
    else if (w == 5) { m.metric = symx_bool("ip") ? MetricType::IP : MetricType::COS; }
    else if (w == 6) { m.index_type = DiskIndexType::Flat; }
    else if (w == 7) { static const char* G[] = {"", "../seg_00000001/graph.index", "none", "/d/seg_00000001/graph.index", ".."}; int i = symx_pick(0, 5, "graph"); if (i == 5) m.x_extras.erase("x_graph_file"); else m.x_extras["x_graph_file"] = G[i]; }
    else { m.x_extras["x_R"] = "9"; want = true; }
    bool wrote = true; if (save) wrote = symx_attempt([&] { m.save("/d/seg_00000001/manifest.txt"); }) == 0; if (!wrote) { symx_check(!want, "a valid manifest is written"); return; } std::unique_ptr<VamanaSegmentSearcher> s; int rc = symx_attempt([&] { s = std::make_unique<VamanaSegmentSearcher>("/d/seg_00000001"); }); symx_check(rc == (want ? 0 : 2), "a segment opens exactly when its files belong together"); symx_reach(rc ? "refused" : "opened"); if (rc) return;
    DiskSearchOptions o; o.top_k = 5; o.ef = 1; float q[1] = {0}; auto h = s->search(q, o); symx_check(h.size() == 3 && h[0].label == 10 && h[1].label == 11 && h[2].label == 12 && h[2].distance == 16, "all rows are found, nearest first"); symx_check(symx_attempt([&] { s->search(nullptr, o); }) == 2, "no query is refused"); auto z = o; z.top_k = 0; symx_check(symx_attempt([&] { s->search(q, z); }) == 2, "no results are refused"); z = o; z.ef = 0; symx_check(symx_attempt([&] { s->search(q, z); }) == 2, "no list is refused"); uint32_t b = symx_u32("bits"); memcpy(q, &b, 4); bool fin = (b & 0x7f800000u) != 0x7f800000u; if (!fin) symx_check(symx_attempt([&] { s->search(q, o); }) == 2, "a query that is not finite is refused");
  } else if (mode == 8) {
    using namespace alaya::disk; typedef std::vector<std::pair<uint64_t, float>> Rows; VamanaSegmentBuildParams sp; sp.R = symx_pick(0, 1, "wide") ? 3 : 1; sp.L = sp.R; sp.num_threads = 1; auto* c = new DiskCollection("/d/c", 1, MetricType::L2, DiskIndexType::Vamana, 1 << 20, sp); Rows r; symx_clock_step = 2000000;
    auto same = [](DiskCollection* c, const Rows& r) { if (c->size() != r.size()) return false; float q = 0; DiskSearchOptions o; o.top_k = 9; o.ef = 9; auto h = c->search(&q, o); if (h.size() != r.size()) return false; for (size_t i = 0; i < h.size(); i++) { int cnt = 0; for (auto& x : r) cnt += x.first == h[i].label && x.second * x.second == h[i].distance; if (cnt != 1 || (i && h[i].distance < h[i - 1].distance)) return false; for (size_t j = 0; j < i; j++) if (h[j].label == h[i].label) return false; } return true; };
    auto add = [&](DiskCollection* c, uint64_t l, float v) { c->add_batch(&v, &l, 1); r.push_back({l, v}); };
    add(c, 5, 2); symx_check(symx_attempt([&] { c->flush(); }) == 2 && same(c, {}), "a single row is not flushed and stays pending"); add(c, 6, 1); c->flush(); symx_check(same(c, r), "flushed rows are found"); Rows old = r; add(c, 7, sp.R == 3 ? 4.0f : 0.5f); add(c, 8, 3); int crash = symx_pick(1, 3, "crash"); vfs.ops = 0; vfs.crash_kind = crash == 2 ? VFS_POWER : VFS_PROCESS; uint64_t at = symx_pick(0, 34, "at"), part = symx_pick(0, 1, "part") * 9; if (crash < 3) { vfs.crash_at = at; vfs.torn = part; } else { vfs.fail_at = at; vfs.fail_short = part; }
    bool done = false; int rc = symx_attempt([&] { c->flush(); done = true; }); if (crash < 3) vfs_crash_recover(); vfs.fail_at = vfs.crash_at = ~0ull; symx_check(rc == 77 || done || vfs.failed, "a flush succeeds when nothing fails"); if (crash == 3) { symx_check(same(c, done ? r : old), "a failed flush adds nothing, one that returned adds its rows"); if (!done && symx_bool("retry")) { c->flush(); symx_check(same(c, r), "a failed flush can be retried"); done = true; } bool keep = done; delete c; DiskCollection* e = nullptr; symx_check(symx_attempt([&] { e = new DiskCollection(DiskCollection::open("/d/c")); }) == 0, "the collection opens again"); if (e) symx_check(same(e, keep ? r : old), "exactly the flushed rows are there after a restart"); symx_reach(keep ? "new" : "old"); return; }
    DiskCollection* e = nullptr; symx_check(symx_attempt([&] { e = new DiskCollection(DiskCollection::open("/d/c")); }) == 0, "the collection opens after a stop"); if (!e) return; bool n = same(e, r); symx_check(n || same(e, old), "a flush is kept as a whole or not at all, and earlier flushes are never lost"); if (done) symx_check(n, "a flush that returned is kept"); symx_reach(n ? "new" : "old"); if (!n) r = old; add(e, 20, 6); add(e, 21, 7); e->flush(); symx_check(same(e, r), "a flush after recovery adds its rows");
  }
}
