//@property P16
//@case generate mode=0 reach=cached,missed
//@case ops quick mode=1 n=2 reach=override,dropped,reload
//@case ops3 thorough mode=1 n=3 time=900 reach=override,dropped,reload
//@case damaged mode=2 reach=accepted,refused
//@case faults mode=4 reach=refused
//@case threads mode=3 --preempt 2 reach=old,new
//@case scratch mode=5 n=3 reach=exact,cached,released,full
//@bound graphs of 3 nodes with any two neighbours each, every entry point, cached fractions 0 to 2; up to 2 (thorough 3) updates of hot and cold nodes (two sharing a shard) with arbitrary coordinates, degrees and neighbours; stored files cut anywhere or with any damaged count; every failing file operation; one updating and one reading thread with up to 2 preemptions; 3 bookkeeping steps of a search on arbitrary ids
//@assume neighbours of a packed node are at most the degree bound, and files are loaded with the same dimension and degree bound
#include "symx.h"
#include "vfs.h"
#include <thread>
#include <index/graph/diskann/node_cache.hpp>
#include <index/graph/diskann/search_scratch.hpp>
using namespace alaya::diskann;
static float bits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
struct Rec { bool have = false; uint32_t c[2] = {0, 0}; uint32_t n = 0, nb[2] = {0, 0}; };
static void judge(const NodeCache& c, uint32_t id, const Rec& r) {
  auto h = c.lookup_record(id); symx_check((bool)h == r.have, "exactly the hot and updated nodes are found"); if (!r.have) return; NodeRecordView v{h.get(), 2}; uint32_t b[2]; memcpy(b, v.coords(), 8); symx_check(b[0] == r.c[0] && b[1] == r.c[1], "coordinates are the newest"); symx_check(v.n_nbrs() == r.n, "degree is the newest"); for (uint32_t j = 0; j < r.n; j++) symx_check(v.nbrs()[j] == r.nb[j], "neighbours are the newest");
}
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), n = (int)symx_param("n", 2); vfs_put("/d/.k", "", 0); float vec[6]; uint32_t raw[6]; for (int i = 0; i < 6; i++) { raw[i] = 100 + i; vec[i] = bits(raw[i]); }
  if (mode == 0) {
    std::vector<std::vector<uint32_t>> g(3); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) g[i].push_back((uint32_t)symx_range(0, 3, "nb")); raw[2] = symx_u32("c"); vec[2] = bits(raw[2]); memcpy(&raw[2], &vec[2], 4); uint32_t med = symx_pick(0, 2, "med"); static const double ratio[] = {-1, 0, 0.01, 0.34, 0.6, 0.7, 1, 2}; static const unsigned want[] = {0, 0, 1, 2, 2, 3, 3, 3}; int ri = symx_pick(0, 7, "ratio"); NodeCache c; c.generate(g, vec, med, 3, 2, 2, ratio[ri]);
    auto& ids = c.ids(); symx_check(ids.size() <= want[ri], "no more nodes than the requested share"); symx_check(c.size() == ids.size(), "size"); symx_check(c.node_len() == 20, "record length"); bool in[3] = {}; int dist[3] = {99, 99, 99}; dist[med] = 0; for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) for (auto v : g[i]) for (int t = 0; t < 3; t++) dist[t] = v == (uint32_t)t && dist[i] + 1 < dist[t] ? dist[i] + 1 : dist[t]; unsigned reach = 0; for (int i = 0; i < 3; i++) reach += dist[i] < 99; symx_check(ids.size() == (reach < want[ri] ? reach : want[ri]), "the requested share of the reachable nodes is cached");
    for (size_t i = 0; i < ids.size(); i++) { symx_check(ids[i] < 3, "only nodes are cached"); uint32_t id = (uint32_t)symx_concretize(ids[i]); symx_check(!in[id], "a node is cached once"); in[id] = true; symx_check(i > 0 || id == med, "the entry point comes first"); symx_check(i == 0 || dist[ids[i - 1]] <= dist[id], "nodes nearest to the entry point come first"); }
    for (uint32_t i = 0; i < 3; i++) { Rec r; r.have = in[i]; r.c[0] = raw[2 * i]; r.c[1] = raw[2 * i + 1]; r.n = 2; for (int j = 0; j < 2; j++) r.nb[j] = g[i][j]; judge(c, i, r); if (in[i]) symx_reach("cached"); else { symx_reach("missed"); int far = 0; for (size_t k = 0; k < ids.size(); k++) far = dist[ids[k]] > far ? dist[ids[k]] : far; symx_check(dist[i] >= far, "no nearer node is left out"); } } judge(c, 77, Rec{}); return;
  }
  if (mode == 5) {
    auto& t = *new ThreadData; ThreadDataScratchConfig cf; cf.n_page_slots = 2; cf.page_size = 4096; cf.max_slot_id = 6; cf.max_degree = 2; cf.search_list_size = 2; cf.query_dim = 2; t.alloc_scratch(cf); t.reset_query(2); bool has[6] = {}, nb[6] = {}; uint32_t d[6] = {}; uint32_t l[6][2]; int used = 0;
    for (int i = 0; i < n; i++) { int op = symx_pick(0, 5, "op"); uint32_t id = op <= 3 ? symx_pick(0, 3, "id") : 0; if (op == 0) { uint32_t x = symx_u32("dist"); symx_assume((x & 0x7fffffff) <= 0x7f800000); t.set_exact_dist(id, bits(x)); has[id] = true; d[id] = x; symx_reach("exact"); }
      else if (op == 1 || op == 2) { if (nb[id]) symx_end_path(); uint32_t v[2] = {symx_u32("nb"), symx_u32("nb")}; bool ok = true; try { t.cache_neighbors(id, v, op); } catch (const std::runtime_error&) { ok = false; } symx_check(ok == (used < 2), "neighbour slots are refused only when all are in use"); if (ok) { nb[id] = true; l[id][0] = v[0]; l[id][1] = op == 2 ? v[1] : ~0u; used++; symx_reach("cached"); } else symx_reach("full"); }
      else if (op == 3) { t.release_cached_neighbors(id); if (nb[id]) { nb[id] = false; used--; symx_reach("released"); } }
      else if (op == 4) { t.reset_query(2); memset(has, 0, sizeof has); memset(nb, 0, sizeof nb); used = 0; }
      else { t.resize_slot_capacity(6 + i); }
      for (uint32_t q = 0; q < 4; q++) { symx_check(!ThreadData::is_missing_exact(t.exact_dist(q)) == has[q], "exact distances are known for exactly the computed nodes"); if (has[q]) { float f = t.exact_dist(q); uint32_t b; memcpy(&b, &f, 4); symx_check(b == d[q], "the stored distance is returned"); } auto v = t.cached_neighbors(q); symx_check(v.size() == (nb[q] ? l[q][1] == ~0u ? 1u : 2u : 0u) || (nb[q] && v.size() == 2), "neighbour lists are those cached"); if (nb[q]) { symx_check(v.data()[0] == l[q][0], "neighbour lists are those cached"); if (v.size() == 2) symx_check(v.data()[1] == l[q][1], "neighbour lists are those cached"); } } }
    uint32_t bad = symx_u32("bad"); symx_assume(bad >= 16); bool thr = false; try { int w = symx_pick(0, 3, "w"); if (w == 0) t.set_exact_dist(bad, 1); else if (w == 1) (void)t.exact_dist(bad); else if (w == 2) (void)t.cached_neighbors(bad); else t.release_cached_neighbors(bad); } catch (const std::out_of_range&) { thr = true; } symx_check(thr, "unknown ids are refused"); t.free_scratch(); return;
  }
  std::vector<std::vector<uint32_t>> g = {{1, 2}, {0}, {0, 1}}; NodeCache& c = *new NodeCache; c.generate(g, vec, 0, 3, 2, 2, 0.5); Rec r[200]; auto base = [&](int i) { r[i].have = true; r[i].c[0] = raw[2 * i]; r[i].c[1] = raw[2 * i + 1]; r[i].n = g[i].size(); for (size_t j = 0; j < g[i].size(); j++) r[i].nb[j] = g[i][j]; }; base(0); base(1); static const uint32_t ids[] = {0, 1, 2, 66, 130};
  if (mode == 1) {
    Rec old; NodeCache::Lookup held = c.lookup_record(0); old = r[0];
    for (int i = 0; i < n; i++) { int op = symx_pick(0, 3, "op"); uint32_t id = op == 2 || op == 3 ? 0 : ids[symx_pick(0, 4, "id")]; if (op <= 1) { uint32_t k = symx_pick(0, 3, "deg"), nb[3] = {symx_u32("nb"), symx_u32("nb"), 7}; bool ok = true; uint32_t x = symx_u32("x"); float co[2] = {bits(x), bits(9)}; memcpy(&x, co, 4);
        try { if (op == 0) c.upsert_node(id, co, k, nb); else c.update_neighbors(id, k, nb); } catch (const std::invalid_argument&) { ok = false; } symx_check(ok == (k <= 2), "exactly lists beyond the degree bound are refused"); if (ok && (op == 0 || r[id].have)) { if (op == 0) { r[id].have = true; r[id].c[0] = x; r[id].c[1] = 9; } r[id].n = k; r[id].nb[0] = nb[0]; r[id].nb[1] = nb[1]; symx_reach("override"); } }
      else if (op == 2) { c.drop_disk_backed_overrides(); for (uint32_t q : ids) if (q > 1) r[q] = Rec{}; symx_reach("dropped"); }
      else { c.save("/d/i", "/d/n"); auto& e = *new NodeCache; if (symx_bool("used")) { e.generate(g, vec, 2, 3, 2, 2, 1); e.upsert_node(0, vec, 1, raw); e.upsert_node(66, vec, 0, raw); e.upsert_node(9, vec, 0, raw); } e.load("/d/i", "/d/n"); e.configure_geometry(2, 2); judge(e, 9, Rec{}); for (uint32_t q : ids) judge(e, q, r[q]); symx_check(e.size() == c.size(), "size is restored"); symx_reach("reload"); }
      unsigned cnt = 0; for (uint32_t q : ids) { judge(c, q, r[q]); cnt += r[q].have; } symx_check(c.size() == cnt, "size counts every cached node"); }
    NodeRecordView v{held.get(), 2}; symx_check(v.n_nbrs() == old.n && v.nbrs()[0] == old.nb[0], "a record in use is not changed by later updates");
  } else if (mode == 2) {
    c.upsert_node(66, vec, 1, raw); r[66].have = true; r[66].c[0] = raw[0]; r[66].c[1] = raw[1]; r[66].n = 1; r[66].nb[0] = raw[0]; c.save("/d/i", "/d/n"); const char* f = symx_pick(0, 1, "file") ? "/d/n" : "/d/i"; auto* d = vfs_data(f); bool same = false, cutAny = false; auto& e = *new NodeCache; bool ok = true;
    if (symx_bool("cut")) { size_t k = symx_pick(0, d->size() - 1, "len"); d->resize(k); cutAny = true; } else { int fld = symx_pick(0, 1, "field"); if (fld == 1 && f[3] == 'i') symx_end_path(); static const uint64_t b[] = {0, 1, 2, 3, 4, 20, 21, 40, 1ull << 59, 1ull << 62, 1ull << 63, ~0ull}; uint64_t v = b[symx_pick(0, 11, "v")], old; memcpy(&old, d->data() + 8 * fld, 8); same = old == v; memcpy(d->data() + 8 * fld, &v, 8); }
    try { e.load("/d/i", "/d/n"); e.configure_geometry(2, 2); } catch (const std::exception&) { ok = false; } symx_check(ok || !same, "a sound file is loaded"); symx_check(!(ok && cutAny), "a shortened file is refused"); if (ok) { symx_reach("accepted"); for (uint32_t q : ids) { if (same) judge(e, q, r[q]); else { auto h = e.lookup_record(q); if (h) { NodeRecordView v{h.get(), 2}; symx_check(v.n_nbrs() <= 2, "a record that is found is whole"); } } } } else symx_reach("refused");
  } else if (mode == 4) {
    vfs.fail_at = vfs.ops + symx_pick(0, 14, "at"); vfs.fail_short = symx_pick(0, 1, "short") ? 5 : 0; vfs.fail_count = 2; bool ok = true; try { c.save("/d/i", "/d/n"); } catch (const std::exception&) { ok = false; } vfs.fail_at = ~0ull; if (ok) { auto& e = *new NodeCache; bool l = true; try { e.load("/d/i", "/d/n"); } catch (const std::exception&) { l = false; } symx_check(l, "a save that reported success can be loaded"); if (l) { e.configure_geometry(2, 2); for (uint32_t q : ids) judge(e, q, r[q]); } } else symx_reach("refused");
  } else {
    float a[2] = {bits(11), bits(12)}; uint32_t na[2] = {5, 6}; std::thread w([&] { c.upsert_node(0, a, 2, na); c.upsert_node(64, a, 2, na); }); auto h = c.lookup_record(0); auto k = c.lookup_record(64); NodeRecordView v{h.get(), 2}; uint32_t b[2]; memcpy(b, v.coords(), 8); bool o = b[0] == raw[0]; symx_check(o ? b[1] == raw[1] && v.nbrs()[0] == 1 && v.nbrs()[1] == 2 : b[0] == 11 && b[1] == 12 && v.nbrs()[0] == 5 && v.nbrs()[1] == 6, "a reader sees a whole record, old or new"); symx_check(!(k && o && false), ""); symx_reach(o ? "old" : "new"); w.join(); h = c.lookup_record(0); v.rec = h.get(); symx_check(v.nbrs()[0] == 5, "a finished update is visible");
  }
}
