//@property P22
//@case history mode=0 steps=3 reach=inserted,full,removed,updated,refused,reopened
//@case history-long thorough mode=0 steps=4 reach=inserted,full,removed,updated,refused,reopened
//@case overlay mode=1 reach=flat,layers
//@case descend mode=2 reach=moved,stayed
//@case descend-far mode=7 reach=moved,stayed
//@case cut mode=3 reach=refused,whole
//@case cut-overlay mode=4 reach=refused,whole
//@case fault mode=5 reach=reported,saved
//@case entries mode=6 reach=entries
//@bound graphs of up to 3 nodes with 2 neighbours each, every history of 3 (thorough 4) insert, remove, update, save and load steps with arbitrary neighbour values; overlays of up to 2 extra layers with arbitrary neighbour values; every cut of a saved file and every failing or short write of a save; greedy descent over all distances of 3 nodes on two layers and 4 nodes on one layer; up to 3 entry points
//@assume a cut exactly between the base layer and the overlay cannot be told from a graph without overlay
#include "symx.h"
#include "vfs.h"
#include <memory>
#include <string>
#include <vector>
#include <index/graph/graph.hpp>
#include <utils/query_utils.hpp>
using namespace alaya;
typedef uint32_t I; static const I NONE = ~0u; typedef Graph<float, I> G;
struct N { I e[2]; bool live; };
struct M { std::vector<N> n; std::vector<I> eps; I cap; };
static void judge(G& g, M& m) {
  symx_check(g.max_nodes_ == m.cap && g.max_nbrs_ == 2, "sizes"); symx_check(g.eps_ == m.eps, "entry points");
  for (I i = 0; i < m.cap; i++) for (I j = 0; j < 2; j++) { I w = i < m.n.size() ? m.n[i].e[j] : NONE; symx_check(g.at(i, j) == w && g.edges(i)[j] == w, "the neighbours of a node are kept as stored"); }
}
static void draw(I* e) { e[0] = symx_u32("e0"); e[1] = symx_u32("e1"); }
static void layers(G& g, I n, int* lev, std::vector<I>* lists, I& ep) {
  g.overlay_graph_ = std::make_unique<OverlayGraph<I>>(n, 2); auto& o = *g.overlay_graph_; ep = o.ep_ = symx_u32("ep");
  for (I i = 0; i < n; i++) { lev[i] = symx_pick(0, 2, "level"); o.set_level(i, lev[i]); o.lists_[i].resize(lev[i] * 2, NONE); lists[i].assign(lev[i] * 2, NONE); for (int l = 1; l <= lev[i]; l++) for (I j = 0; j < 2; j++) { I v = symx_u32("o"); o.at(l, i, j) = v; lists[i][(l - 1) * 2 + j] = v; } }
}
static void judgeO(G& g, I n, int* lev, std::vector<I>* lists, I ep) {
  symx_check(!!g.overlay_graph_, "the overlay is kept"); if (!g.overlay_graph_) return; auto& o = *g.overlay_graph_; const auto& c = o; symx_check(o.ep_ == ep && g.get_ep() == ep, "the entry point is kept"); symx_check(o.node_num_ == n && o.max_nbrs_ == 2 && o.levels_.size() == n && o.lists_.size() == n, "overlay sizes"); if (o.levels_.size() != n) return;
  for (I i = 0; i < n; i++) { symx_check((int)o.levels_[i] == lev[i], "the layer count of a node is kept"); for (int l = 1; l <= lev[i]; l++) for (I j = 0; j < 2; j++) symx_check(o.at(l, i, j) == lists[i][(l - 1) * 2 + j] && c.at(l, i, j) == o.at(l, i, j) && o.edges(l, i)[j] == o.at(l, i, j), "the neighbours on a layer are kept"); }
}
static std::unique_ptr<G> build(M& m, I n, I neps) { m.cap = 3; auto g = std::make_unique<G>(m.cap, 2); for (I i = 0; i < neps; i++) { m.eps.push_back(symx_u32("ep")); g->eps_.push_back(m.eps.back()); } for (I i = 0; i < n; i++) { N x{}; draw(x.e); x.live = true; symx_check(g->insert(x.e) == i, "nodes are numbered in order"); m.n.push_back(x); } return g; }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0); vfs_put("/d/.k", "", 0); M m;
  if (mode == 0) {
    auto g = build(m, symx_pick(0, 2, "n"), symx_pick(0, 2, "neps")); judge(*g, m);
    for (int k = symx_param("steps", 3); k--;) { switch (symx_pick(0, 3, "op")) {
      case 0: { N x{}; draw(x.e); x.live = true; I id = g->insert(x.e); if (m.n.size() == m.cap) { symx_check(id == NONE, "a full graph refuses a node"); symx_reach("full"); } else { symx_check(id == m.n.size(), "nodes are numbered in order"); m.n.push_back(x); symx_reach("inserted"); } break; }
      case 1: { I id = symx_pick(0, m.cap, "id"); if (id == m.cap) id = NONE; bool ok = id < m.n.size() && m.n[id].live; symx_check(g->remove(id) == (ok ? id : NONE), "only a live node can be removed"); if (ok) { m.n[id].live = false; symx_reach("removed"); } else symx_reach("refused"); break; }
      case 2: { I id = symx_pick(0, m.cap, "id"); if (id == m.cap) id = NONE; N x{}; draw(x.e); bool ok = id < m.n.size() && m.n[id].live; symx_check(g->update(id, x.e) == (ok ? id : NONE), "only a live node can be changed"); if (ok) { m.n[id].e[0] = x.e[0]; m.n[id].e[1] = x.e[1]; symx_reach("updated"); } else symx_reach("refused"); break; }
      default: { g->save("/d/g"); auto h = std::make_unique<G>(); h->load("/d/g"); g = std::move(h); symx_check(!g->overlay_graph_, "no overlay appears"); symx_reach("reopened"); } }
      judge(*g, m); }
  } else if (mode == 1) {
    I n = symx_pick(0, 3, "n"); auto g = build(m, n, symx_pick(0, 1, "neps")); int lev[3]; std::vector<I> lists[3]; I ep = 0; bool has = symx_bool("overlay"); if (!has && m.eps.empty()) symx_end_path(); if (has) { layers(*g, 3, lev, lists, ep); judgeO(*g, 3, lev, lists, ep); }
    g->save("/d/g"); G h; h.load("/d/g"); judge(h, m); if (has) { judgeO(h, 3, lev, lists, ep); symx_reach("layers"); } else { symx_check(!h.overlay_graph_, "no overlay appears"); symx_check(h.get_ep() == m.eps[0], "the first entry point"); symx_reach("flat"); }
  } else if (mode == 2) {
    G g(4, 2); g.overlay_graph_ = std::make_unique<OverlayGraph<I>>(4, 2); auto& o = *g.overlay_graph_; o.ep_ = 0; static const int lv[4] = {2, 1, 2, 0}; for (I i = 0; i < 4; i++) { o.set_level(i, lv[i]); o.lists_[i].assign(lv[i] * 2, NONE); }
    // layer 2 joins 0 and 2; layer 1 is a path or a star
    o.at(2, 0, 0) = 2; o.at(2, 2, 0) = 0; bool star = symx_bool("star"); if (star) { o.at(1, 0, 0) = 1; o.at(1, 0, 1) = 2; o.at(1, 1, 0) = 0; o.at(1, 2, 0) = 0; } else { o.at(1, 0, 0) = 1; o.at(1, 1, 0) = 2; o.at(1, 1, 1) = 0; o.at(1, 2, 0) = 1; }
    float d[4]; for (auto& x : d) { x = symx_f32("d"); symx_assume(x == x); } int calls[4] = {}; auto dist = [&](I u) { symx_check(u < 3, "only nodes of the layers are visited"); calls[u]++; return d[u]; };
    LinearPool<float, I> pool(4, 3); g.initialize_search(pool, dist); symx_check(pool.size() == 1, "one entry point is chosen"); if (pool.size() != 1) return; I u = pool.id(0); symx_check(u < 3 && pool.vis_.get(u), "the entry point is a node and marked as seen"); if (u >= 3) return; symx_check(pool.dist(0) == d[u], "the entry point has its own distance");
    // no neighbour of the chosen node on layer 1 is nearer, and it is at least as near as the start and the best of layer 2
    for (I j = 0; j < 2; j++) { I v = o.at(1, u, j); if (v != NONE) symx_check(!(d[v] < d[u]), "the chosen entry point has no nearer neighbour on its layer"); } symx_check(!(d[0] < d[u]) && !(d[2] < d[u]), "the descent never gets farther away"); symx_reach(u ? "moved" : "stayed");
  } else if (mode == 7) { // one upper layer; the nearest row may be several steps from the start
    G g(5, 2); g.overlay_graph_ = std::make_unique<OverlayGraph<I>>(5, 2); auto& o = *g.overlay_graph_; o.ep_ = 0; for (I i = 0; i < 4; i++) { o.set_level(i, 1); o.lists_[i].assign(2, NONE); } o.set_level(4, 0);
    static const I SH[3][4][2] = {{{1, NONE}, {2, NONE}, {3, NONE}, {NONE, NONE}}, {{1, 2}, {3, 0}, {0, NONE}, {1, NONE}}, {{3, NONE}, {2, NONE}, {0, 1}, {2, 1}}}; int sh = symx_pick(0, 2, "shape"); for (I i = 0; i < 4; i++) for (I j = 0; j < 2; j++) o.at(1, i, j) = SH[sh][i][j];
    float d[5]; for (auto& x : d) { x = symx_f32("d"); symx_assume(x == x); } LinearPool<float, I> pool(5, 3); g.initialize_search(pool, [&](I u) { symx_check(u < 4, "only nodes of the layer are visited"); return d[u]; }); symx_check(pool.size() == 1, "one entry point is chosen"); if (pool.size() != 1) return; I u = pool.id(0); symx_check(u < 4 && pool.vis_.get(u), "the entry point is a node and marked as seen"); if (u >= 4) return; symx_check(pool.dist(0) == d[u], "the entry point has its own distance");
    for (I j = 0; j < 2; j++) { I v = o.at(1, u, j); if (v != NONE) symx_check(!(d[v] < d[u]), "the chosen entry point has no nearer neighbour on its layer"); } symx_check(!(d[0] < d[u]), "the descent never gets farther away"); symx_reach(u ? "moved" : "stayed");
  } else if (mode == 3 || mode == 4) {
    auto g = build(m, 2, mode == 4 ? 0 : 1); size_t base = 0; g->remove(1); int lev[3]; std::vector<I> lists[3]; I ep = 0; if (mode == 4) { g->save("/d/base"); base = vfs_data("/d/base")->size(); layers(*g, 3, lev, lists, ep); } g->save("/d/g"); auto d = *vfs_data("/d/g"); size_t n = d.size(), c = symx_pick(0, n, "cut"); if (c == base) symx_end_path(); vfs_put("/d/g", d.data(), c);
    G h; int rc = symx_attempt([&] { h.load("/d/g"); }); if (c < n) { symx_check(rc == 2, "a file that was cut short is refused"); symx_reach("refused"); } else { symx_check(rc == 0, "a whole file is read"); judge(h, m); if (mode == 4) judgeO(h, 3, lev, lists, ep); symx_reach("whole"); }
    symx_check(symx_attempt([&] { G t; t.load("/d/none"); }) == 2, "a missing file is refused");
  } else if (mode == 5) {
    auto g = build(m, 2, 1); int lev[3]; std::vector<I> lists[3]; I ep = 0; bool has = symx_bool("overlay"); if (has) layers(*g, 3, lev, lists, ep); vfs.ops = 0; vfs.fail_at = symx_pick(0, 12, "at"); uint64_t part = symx_pick(0, 2, "part"); vfs.fail_short = part * 9; if (symx_bool("once")) vfs.fail_count = 1;
    int rc = symx_attempt([&] { g->save("/d/g"); }); vfs.fail_at = ~0ull; if (vfs.failed && !part && vfs.in_write) symx_reach("reported");
    if (rc == 0) { G h; symx_check(symx_attempt([&] { h.load("/d/g"); }) == 0, "a save that reports success can be loaded"); judge(h, m); if (has) judgeO(h, 3, lev, lists, ep); symx_reach("saved"); } else symx_check(vfs.failed, "a save is refused only when the file system failed");
  } else {
    G g(3, 2); int k = symx_pick(0, 3, "k"); bool seen[3] = {}; for (int i = 0; i < k; i++) { I e = symx_pick(0, 2, "e"); g.eps_.push_back(e); seen[e] = true; } float d[3]; for (auto& x : d) { x = symx_f32("d"); symx_assume(x == x); }
    LinearPool<float, I> pool(3, 3); g.initialize_search(pool, [&](I u) { return d[u]; }); size_t c = 0; for (int i = 0; i < 3; i++) { c += seen[i]; symx_check(pool.vis_.get(i) == seen[i], "exactly the entry points are marked as seen"); } symx_check(pool.size() == c, "every entry point enters the pool once"); for (size_t i = 0; i < pool.size(); i++) { symx_check(pool.id(i) < 3 && seen[pool.id(i)], "only entry points"); symx_check(pool.dist(i) == d[pool.id(i)], "with their own distance"); } symx_reach("entries");
  }
}
