//@property P14
//@case geometry0 quick mode=0 part=0 reach=small
//@case geometry1 quick mode=0 part=1 reach=small
//@case geometry2 quick mode=0 part=2 reach=large
//@case geometry3 quick mode=0 part=3 reach=large
//@case geometry0w thorough mode=0 part=0 bits=16 reach=small time=900
//@case geometry1w thorough mode=0 part=1 bits=16 reach=small time=900
//@case geometry2w thorough mode=0 part=2 bits=16 reach=large time=900
//@case geometry3w thorough mode=0 part=3 bits=16 reach=large time=900
//@case geomsym mode=4 reach=small
//@case hugedim mode=5 reach=accepted,refused
//@case roundtrip mode=1 reach=roundtrip
//@case damaged mode=2 reach=accepted,refused
//@case damagedfull thorough mode=2 full=1 reach=refused time=900
//@case damaged2 thorough mode=2 two=1 full=1 reach=refused time=900
//@case faults mode=3 reach=refused
//@bound geometry for 60 dimension and degree pairs and for any dimension and degree (huge ones included), an arbitrary node id below 2^12 (thorough 2^16) and its successor (disjointness of all pairs follows by order); files of 1 to 4 nodes of dimension 2, 600 and 1030 with arbitrary coordinates, degrees and neighbours; any value in any header field (counts near powers of two and zero; thorough any); every failing file operation; files cut or extended at any sampled length
#include "symx.h"
#include "vfs.h"
#include <index/graph/diskann/disk_layout.hpp>
using namespace alaya::diskann;
static void disjoint(const DiskLayoutGeometry& g) {
  uint64_t i = symx_range(0, (1ull << symx_param("bits", 12)) - 2, "i"), j = i + 1; uint64_t a = g.file_offset(i), b = g.file_offset(j), n = j + 1;
  symx_check(g.page_size % kSectorLen == 0 && g.page_size > 0, "pages are whole sectors"); symx_check(g.get_page_offset(i) % kSectorLen == 0, "pages start on sector boundaries"); symx_check(a >= kSectorLen, "nodes lie behind the header");
  symx_check(g.offset_to_node(i) + g.node_len <= g.page_size, "a node lies within its page"); symx_check(a == g.get_page_offset(i) + g.offset_to_node(i), "offsets agree"); symx_check(a + g.node_len <= b, "nodes do not overlap");
  symx_check(b + g.node_len <= g.total_file_size(n), "the file holds every node"); symx_check(g.get_page_offset(j) + g.page_size == g.total_file_size(n), "the file ends with the last node's page"); symx_check(g.total_file_size(0) == kSectorLen, "an empty file is the header");
}
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0); vfs_put("/d/.k", "", 0);
  if (mode == 0) { static const uint64_t dims[] = {1, 2, 3, 16, 100, 128, 768, 1000, 1022, 1023, 1024, 4096}; static const uint32_t degs[] = {0, 1, 31, 64, 500}; uint64_t d = dims[symx_param("part", 0) * 3 + symx_pick(0, 2, "d")]; uint32_t r = degs[symx_pick(0, 4, "r")]; auto g = DiskLayoutGeometry::compute(d, r); symx_check(g.node_len == 4 * d + 4 + 4 * (uint64_t)r, "record length"); symx_check(g.dim == d && g.max_degree == r, "parameters are kept"); symx_reach(g.node_len > kSectorLen ? "large" : "small"); disjoint(g); bool t = false; try { DiskLayoutGeometry::compute(0, r); } catch (const std::exception&) { t = true; } symx_check(t, "dimension 0 is refused"); }
  else if (mode == 4) { uint64_t d = symx_range(1, 1u << 20, "d"); uint32_t r = (uint32_t)symx_range(0, 1u << 16, "r"); auto g = DiskLayoutGeometry::compute(d, r); symx_check(g.node_len == 4 * d + 4 + 4 * (uint64_t)r, "record length"); symx_check(g.nodes_per_sector >= 1, "a page holds a node"); symx_check(g.nodes_per_sector * g.node_len <= g.page_size, "a page holds its nodes"); symx_check(g.page_size % kSectorLen == 0, "pages are whole sectors"); symx_reach("small"); }
  else if (mode == 5) { uint64_t d = symx_u64("d"); uint32_t r = symx_u32("r"); bool ok = true; DiskLayoutGeometry g; try { g = DiskLayoutGeometry::compute(d, r); } catch (const std::exception&) { ok = false; } if (ok) { symx_check(g.node_len > r && g.node_len > d, "record length does not wrap around"); symx_check(g.page_size >= g.node_len, "a page holds a node"); symx_reach("accepted"); } else { symx_check(d == 0 || d > (1ull << 40), "only absurd dimensions are refused"); symx_reach("refused"); } }
  else {
    static const uint64_t dims[] = {2, 600, 1030}; uint64_t d = mode == 1 ? dims[symx_pick(0, 2, "dim")] : 2; uint32_t R = 2; uint64_t n = mode == 1 ? symx_pick(1, d == 2 ? 4 : 2, "n") : 3; std::vector<float> v(n * d); for (size_t i = 0; i < v.size(); i++) v[i] = (float)i; uint64_t sp = mode == 1 ? symx_pick(0, 1, "sp") ? v.size() - 1 : d / 2 : 0; v[sp] = symx_f32("x"); std::vector<std::vector<uint32_t>> gr(n); for (uint64_t i = 0; i < n; i++) { int k = mode == 1 ? symx_pick(0, 2, "deg") : 2; for (int j = 0; j < k; j++) gr[i].push_back(symx_u32("nb")); }
    WriteDiskLayoutParams p; p.num_points = n; p.dim = d; p.max_degree = R; p.medoid = (uint32_t)symx_range(0, n - 1, "medoid");
    if (mode == 3) { int what = symx_pick(0, 2, "what"); if (what == 0) { uint64_t at = symx_pick(0, 8, "at"); vfs.fail_at = at; vfs.fail_short = symx_pick(0, 1, "short") ? 100 : 0; vfs.fail_count = symx_pick(1, 2, "count"); bool ok = true; try { write_disk_layout("/d/f", v.data(), gr, p); } catch (const std::exception&) { ok = false; } vfs.fail_at = ~0ull; if (ok) { write_disk_layout("/d/g", v.data(), gr, p); auto *a = vfs_data("/d/f"), *b = vfs_data("/d/g"); symx_check(a && a->size() == b->size(), "a failed write is reported"); symx_check(memcmp(a->data(), b->data(), a->size()) == 0, "a failed write is reported"); } else symx_reach("refused"); return; }
      write_disk_layout("/d/f", v.data(), gr, p); auto* b = vfs_data("/d/f"); bool ok = true; if (what == 1) { static const size_t cut[] = {0, 1, 40, 4095, 4096, 4097, 8191, 8193, 12288}; b->resize(cut[symx_pick(0, 8, "cut")]); try { read_disk_layout_header("/d/f"); } catch (const std::exception&) { ok = false; } symx_check(!ok, "a file of the wrong length is refused"); } else { int w = symx_pick(0, 4, "bad"); auto g2 = gr; auto q = p; if (w == 0) q.dim = 0; if (w == 1) q.num_points = 0; if (w == 2) g2.pop_back(); if (w == 3) q.medoid = (uint32_t)n; if (w == 4) g2[1].push_back(3); try { write_disk_layout("/d/g", v.data(), g2, q); } catch (const std::exception&) { ok = false; } symx_check(!ok, "inconsistent input is refused"); } symx_reach("refused"); return; }
    write_disk_layout("/d/f", v.data(), gr, p); auto* b = vfs_data("/d/f");
    if (mode == 2) { static const int fo[] = {0, 8, 16, 20, 24, 32, 40}, fl[] = {8, 8, 4, 4, 8, 8, 8}; int f = symx_pick(0, 6, "field"); static const uint64_t base[] = {0, 1 << 10, 1 << 30, 1ull << 60, 1ull << 61, 1ull << 62, 1ull << 63, ~0ull - 255}; uint64_t x = f <= 1 && !symx_param("full", 0) ? base[symx_pick(0, 7, "base")] + symx_u8("v8") : fl[f] == 8 ? symx_u64("v") : symx_u32("v"), old = 0; memcpy(&old, b->data() + fo[f], fl[f]); memcpy(b->data() + fo[f], &x, fl[f]); if (symx_param("two", 0)) { int f2 = symx_pick(0, 6, "field2"); if (f2 <= f) symx_end_path(); uint64_t y = fl[f2] == 8 ? symx_u64("v2") : symx_u32("v2"); memcpy(b->data() + fo[f2], &y, fl[f2]); } bool ok = true; DiskLayoutHeader h; try { h = read_disk_layout_header("/d/f"); } catch (const std::exception&) { ok = false; } if (ok) { symx_reach("accepted"); symx_check(h.num_points >= 1 && h.num_points <= (1u << 20) && h.medoid < h.num_points, "an accepted header describes this file"); symx_check(h.total_file_size == b->size(), "an accepted header describes this file"); symx_check(h.node_len == 4 * h.dim + 4 + 4 * (uint64_t)h.max_degree && h.node_len < (1u << 20), "an accepted header describes this file"); } else { if (!symx_param("two", 0)) symx_check(x != old && (f != 2 || x >= n), "the unchanged header is accepted"); symx_reach("refused"); } return; }
    auto h = read_disk_layout_header("/d/f"); symx_check(h.num_points == n && h.dim == d && h.medoid == p.medoid && h.max_degree == R && h.total_file_size == b->size(), "the header is read back"); auto g = DiskLayoutGeometry::compute(h.dim, h.max_degree); for (uint64_t i = 0; i < n; i++) { NodeRecordView r{(const char*)b->data() + g.file_offset(i), d}; symx_check(r.n_nbrs() == gr[i].size(), "degree is read back"); for (size_t j = 0; j < gr[i].size(); j++) symx_check(r.nbrs()[j] == gr[i][j], "neighbours are read back"); symx_check(memcmp(r.coords(), v.data() + i * d, 4 * d) == 0, "coordinates are read back"); } symx_reach("roundtrip");
  }
}
