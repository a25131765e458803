//@property P28
//@cxx -mavx2 -mfma -I/usr/include/eigen3
//@case scan mode=0 dims=128 reach=done
//@case scan-long mode=1 reach=done
//@case estimate mode=2 reach=done
//@case bits mode=3 reach=done
//@case distance mode=4 reach=l2,ip
//@case lut mode=5 reach=done
//@case space mode=6 reach=saved,refused
//@case cut mode=7 reach=refused,whole
//@case fault mode=8 reach=reported,saved
//@case rotate mode=9 reach=done
//@bound codes: 64 and 128 dimensions (sums: up to 3072), 1 to 32 rows, one code byte, table entry, vector component or factor arbitrary at a time at selected places; rotations: 7 dimensions, 2 fixed vectors; files: 2 rows of 64 or 96 dimensions with arbitrary factors, edges and codes, selected cut places, every failing write of the first 15
#include "symx.h"
#include "vfs.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <space/rabitq_space.hpp>
using namespace alaya; typedef uint32_t I; typedef RaBitQSpace<float> S;
template <class T> static bool same(T a, T b) { return (a == b) | ((a != a) & (b != b)); }
static bool bits(const void* a, const void* b, size_t n) { uint8_t d = 0; for (size_t i = 0; i < n; i++) d |= ((const uint8_t*)a)[i] ^ ((const uint8_t*)b)[i]; return d == 0; }
static uint8_t code(int row, int byte) { return (uint8_t)(row * 37 + byte * 101 + (row * byte) % 7 * 31 + 11); }
// table entry picked by one nibble of a row's code: the upper half of byte b is table 2b, the lower half table 2b+1
struct Scan { int d, rows; std::vector<uint8_t> c, lut, packed; Scan(int d, int rows) : d(d), rows(rows), c((size_t)rows * d / 8), lut(d * 4), packed(d * 4, 0xEE) { for (int r = 0; r < rows; r++) for (int b = 0; b < d / 8; b++) c[r * (d / 8) + b] = code(r, b); }
  uint32_t want(int r) const { if (r >= rows) { uint32_t s = 0; for (int t = 0; t < d / 4; t++) s += lut[t * 16]; return s; } uint32_t s = 0; for (int b = 0; b < d / 8; b++) { uint8_t v = c[r * (d / 8) + b]; s += lut[2 * b * 16 + (v >> 4)] + lut[(2 * b + 1) * 16 + (v & 15)]; } return s; } 
  void pack() { fastscan::pack_codes(d, c.data(), rows, packed.data()); } };
static std::vector<float> pattern(int n, int d, int seed) { std::vector<float> v(n * d); for (int i = 0; i < n * d; i++) v[i] = (float)((i * 29 + seed * 13 + i / 7) % 11) - 5; return v; }
static std::vector<Neighbor<I, float>> nb(std::initializer_list<int> l) { std::vector<Neighbor<I, float>> r; for (int i : l) r.emplace_back((I)i, 0.0f); return r; }
// everything a search can see of two spaces is equal
static void alike(S& a, S& b, int n, int d, MetricType m) {
  symx_check(a.get_dim() == b.get_dim() && a.get_data_num() == b.get_data_num() && a.get_capacity() == b.get_capacity() && a.get_ep() == b.get_ep() && a.get_padded_dim() == b.get_padded_dim() && a.get_data_size() == b.get_data_size(), "sizes and entry survive");
  for (int i = 0; i < n; i++) symx_check(bits(a.get_data_by_id(i), b.get_data_by_id(i), d * 4) && bits(a.get_edges(i), b.get_edges(i), 128) && bits(a.get_f_add_ptr(i), b.get_f_add_ptr(i), 128) && bits(a.get_f_rescale_ptr(i), b.get_f_rescale_ptr(i), 128) && bits(a.get_nei_qc_ptr(i), b.get_nei_qc_ptr(i), a.get_padded_dim() * 4), "rows, codes, factors and neighbours survive");
  auto q = pattern(1, d, 9); auto x = a.get_query_computer(q.data()); auto y = b.get_query_computer(q.data()); for (int i = 0; i < n; i++) { x.load_centroid(i); y.load_centroid(i); symx_check(same(x.get_exact_qr_c_dist(), y.get_exact_qr_c_dist()) && x.get_exact_qr_c_dist() == a.get_dist_func()(q.data(), a.get_data_by_id(i), d), "the exact distance survives"); bool ok = true; for (int k = 0; k < 32; k++) { float u = x(k), v = y(k); ok &= bits(&u, &v, 4); } symx_check(ok && bits(x.get_edges(), y.get_edges(), 128), "estimates survive"); }
}
static std::unique_ptr<S> built(int n, int d, MetricType m, int cap) { auto s = std::make_unique<S>((I)cap, d, m); auto v = pattern(n, d, 1); s->fit(v.data(), n); s->set_ep(n - 1); for (int i = 0; i < n; i++) { if (i == 0) s->update_nei(0, nb({1})); else s->update_nei(i, nb({0})); } return s; }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0); vfs_put("/d/.k", "", 0);
  if (mode == 0) { // codes of 1..32 rows, one code byte or one table entry arbitrary
    int d = 64 * symx_pick(1, symx_param("dims", 128) / 64, "dim64"); int rows = symx_pick(0, 4, "rows"); rows = rows == 0 ? 32 : rows == 1 ? 1 : rows == 2 ? 17 : rows == 3 ? 31 : 8; Scan s(d, rows); for (int i = 0; i < d * 4; i++) s.lut[i] = (uint8_t)(255 - (i * 29 + i / 5) % 256);
    auto run = [&](const char* w) { s.pack(); alignas(64) uint16_t r[32]; fastscan::accumulate(s.packed.data(), s.lut.data(), r, d); alignas(64) uint16_t r2[32]; fastscan::detail::accumulate_scalar(s.packed.data(), s.lut.data(), r2, d); bool ok = true; for (int i = 0; i < 32; i++) ok &= (r[i] == s.want(i)) & (r2[i] == s.want(i)); symx_check(ok, w); };
    run("every row adds up the table entries its code picks"); int row = symx_pick(0, rows - 1, "row"), byte = symx_pick(0, d / 8 - 1, "byte"); if ((row % 5 && row != rows - 1 && row != 8) || (byte > 3 && byte != d / 8 - 1 && byte % 5)) symx_end_path();
    { uint8_t& c = s.c[row * (d / 8) + byte]; for (int half = 0; half < 2; half++) { uint8_t keep = c, v = symx_u8("code"); // a table that tells the nibbles apart
        for (auto& l : s.lut) l = 0; int t = 2 * byte + half; for (int e = 0; e < 16; e++) s.lut[t * 16 + e] = (uint8_t)(e + 1); c = v; s.pack(); alignas(64) uint16_t r[32]; fastscan::accumulate(s.packed.data(), s.lut.data(), r, d); symx_check(r[row] == (half ? (v & 15) : (v >> 4)) + 1, "each half of a code byte picks its own table"); c = keep; bool ok = true; for (int i = 0; i < 32; i++) if (i != row) ok &= r[i] == s.want(i); symx_check(ok, "other rows are not touched"); } }
    { for (auto& l : s.lut) l = 3; int e = (s.c[row * (d / 8) + byte] >> 4); uint8_t v = symx_u8("entry"); s.lut[2 * byte * 16 + e] = v; run("each table entry counts where it is picked"); }
    symx_reach("done");
  } else if (mode == 1) { // long codes: sums must not wrap
    static const int D[] = {64, 128, 960, 1024, 1088, 2048, 2112, 3072}; int d = D[symx_pick(0, 7, "dim")]; Scan s(d, 32); int full = symx_pick(0, 1, "full"); for (int i = 0; i < d * 4; i++) s.lut[i] = full ? 255 : (uint8_t)(i * 7 + i / 3); s.pack(); std::vector<float> add(32, 0), resc(32, 1), out(32); float g = 0, delta = 1, bias = 0;
    auto run = [&](const char* w) { fastscan::accumulate_and_estimate_distances(s.packed.data(), s.lut.data(), add.data(), resc.data(), g, delta, bias, out.data(), d); bool ok = true; for (int i = 0; i < 32; i++) ok &= out[i] == (float)s.want(i); symx_check(ok, w); }; run("sums of every length are exact");
    int t = symx_pick(0, 3, "table"); t = t == 0 ? 0 : t == 1 ? d / 4 - 1 : t == 2 ? std::min(d / 4 - 1, 256) : d / 8 + 1; int e = s.c[t / 2] >> (t % 2 ? 0 : 4) & 15; for (int i = 0; i < 16; i++) s.lut[t * 16 + i] = 0; uint8_t v = symx_u8("entry"); s.lut[t * 16 + e] = v; for (auto& x : s.lut) if (&x != &s.lut[t * 16 + e]) x = 0; fastscan::accumulate_and_estimate_distances(s.packed.data(), s.lut.data(), add.data(), resc.data(), g, delta, bias, out.data(), d); symx_check(out[0] == (float)v, "an entry counts at every length"); symx_reach("done");
  } else if (mode == 2) { // the estimate is rescale * (delta * sum + bias) + add + offset, row by row
    int d = symx_bool("long") ? 1088 : 64; Scan s(d, 32); for (int i = 0; i < d * 4; i++) s.lut[i] = (uint8_t)(i % 5); s.pack(); std::vector<float> add(32), resc(32), out(32, 77); for (int i = 0; i < 32; i++) { add[i] = (float)(i * 3 - 7); resc[i] = (float)(i % 6) - 2; } float x = symx_f32("x"); int r = symx_pick(0, 31, "row"), w = symx_pick(0, 2, "what"); if (r % 3 && r != 31) symx_end_path();
    float g = 5, delta = 2, bias = -9; float S0 = (float)s.want(r); auto run = [&] { fastscan::accumulate_and_estimate_distances(s.packed.data(), s.lut.data(), add.data(), resc.data(), g, delta, bias, out.data(), d); }; run(); bool ok = true; for (int i = 0; i < 32; i++) ok &= out[i] == resc[i] * (delta * (float)s.want(i) + bias) + add[i] + g; symx_check(ok, "all rows are estimated from their own factors");
    if (w == 0) { resc[r] = 0; g = 0; add[r] = x; run(); symx_check(same(out[r], x) || (x == 0 && out[r] == 0), "the added factor"); } else if (w == 1) { add[r] = 0; g = 0; bias = 1 - delta * S0; resc[r] = x; run(); symx_check(same(out[r], x), "the scaling factor"); } else { resc[r] = 0; add[r] = 0; g = x; run(); symx_check(same(out[r], x), "the offset of the query"); } symx_reach("done");
  } else if (mode == 3) { // code bits are the signs of neighbour minus centre
    int d = 64, num = symx_pick(0, 2, "num"); num = num == 0 ? 1 : num == 1 ? 5 : 32; RaBitQQuantizer<float> q(d, d); auto o = pattern(num, d, 3); std::vector<float> c(d); for (int k = 0; k < d; k++) c[k] = (float)(k % 3) - 1 + 0.5f; int row = symx_bool("last") ? num - 1 : 0, k = symx_pick(0, 15, "dim"); static const int K[] = {0, 1, 2, 3, 4, 7, 8, 13, 18, 23, 31, 32, 41, 55, 62, 63}; k = K[k]; float x = symx_f32("x"), y = k == 13 ? symx_f32("y") : (float)(k % 4) - 1.5f; symx_assume(x >= -1e9f && x <= 1e9f && y >= -1e9f && y <= 1e9f); o[row * d + k] = x; c[k] = y;
    std::vector<uint8_t> code(d * 4, 0xEE), lut(d * 4, 0); std::vector<float> fa(32), fr(32); q.batch_quantize(o.data(), c.data(), num, code.data(), fa.data(), fr.data(), symx_bool("ip") ? MetricType::IP : MetricType::L2);
    for (int b = 0; b < 4; b++) { int kk = (k / 4) * 4 + b; for (auto& l : lut) l = 0; for (int e = 0; e < 16; e++) lut[(k / 4) * 16 + e] = e >> (3 - b) & 1; alignas(64) uint16_t r[32]; fastscan::accumulate(code.data(), lut.data(), r, d); bool ok = true; for (int i = 0; i < num; i++) ok &= r[i] == (o[i * d + kk] > c[kk]); for (int i = num; i < 32; i++) ok &= r[i] == 0; symx_check(ok, "a code bit is set exactly where the neighbour exceeds the centre"); } symx_reach("done");
  } else if (mode == 4) { // neighbours one unit away in every direction, and a query whose tables are exact: estimates are exact distances
    int d = 64, num = symx_bool("few") ? 5 : 32; bool ip = symx_bool("ip"); RaBitQQuantizer<float> q(d, d); std::vector<float> c(d), o(num * d), qv(d, 0); int sg[32][64]; for (int k = 0; k < d; k++) { c[k] = (float)((k * 5) % 7) - 3; qv[k] = k % 4 == 1 ? 3 : 0; } int t = symx_pick(0, 3, "table") * 5; qv[t * 4] = 255; qv[t * 4 + 1] = 0; for (int k = 0; k < d; k++) if (k / 4 != t) qv[k] = (float)((k * 3) % 50);
    int row = symx_pick(0, 2, "row"), k = symx_pick(0, 7, "dim") * 9; row = row == 0 ? 0 : row == 1 ? num - 1 : 3; bool pos = symx_concretize(symx_bool("positive"));
    for (int i = 0; i < num; i++) for (int j = 0; j < d; j++) { sg[i][j] = (code(i, j / 8) >> (j % 8)) & 1 ? 1 : -1; if (i == row && j == k) sg[i][j] = pos ? 1 : -1; o[i * d + j] = c[j] + (float)sg[i][j]; }
    std::vector<uint8_t> code(d * 4); std::vector<float> fa(32, 0), fr(32, 0), out(32); q.batch_quantize(o.data(), c.data(), num, code.data(), fa.data(), fr.data(), ip ? MetricType::IP : MetricType::L2); Lut<float> lut; lut = Lut<float>(qv.data(), d); float sumq = 0; for (float v : qv) sumq += v;
    float g = 0; for (int j = 0; j < d; j++) g += ip ? -qv[j] * c[j] : (qv[j] - c[j]) * (qv[j] - c[j]); fastscan::accumulate_and_estimate_distances(code.data(), lut.lut(), fa.data(), fr.data(), g, lut.delta(), lut.sum_vl() - sumq / 2, out.data(), d);
    for (int i = 0; i < num; i++) { float w = 0; for (int j = 0; j < d; j++) { float v = c[j] + (float)sg[i][j]; w += ip ? -qv[j] * v : (qv[j] - v) * (qv[j] - v); } if (ip) w += 1; symx_check(out[i] == w, ip ? "inner products are estimated exactly where that is possible" : "distances are estimated exactly where that is possible"); } symx_reach(ip ? "ip" : "l2");
  } else if (mode == 5) { // query tables: entry e of table t stands for the sum of the query components its bits pick
    int d = 64; std::vector<float> q(d); for (int k = 0; k < d; k++) q[k] = (float)((k * 7) % 31) - 10; int t = symx_pick(0, 15, "table"); std::vector<float> f(d * 4); fastscan::pack_lut(d, q.data(), f.data()); for (int i = 0; i < 16; i++) for (int e = 0; e < 16; e++) { float w = 0; for (int b = 0; b < 4; b++) if (e >> (3 - b) & 1) w += q[i * 4 + b]; symx_check(f[i * 16 + e] == w, "table entries add up query components"); }
    int b = symx_pick(0, 3, "component"); for (auto& x : q) x = 0; float v = symx_f32("v"); symx_assume(v >= -1e30f && v <= 1e30f); q[t * 4 + b] = v; fastscan::pack_lut(d, q.data(), f.data()); bool ok = true; for (int i = 0; i < d * 4; i++) ok &= f[i] == ((i / 16 == t && (i % 16) >> (3 - b) & 1) ? v : 0.0f); symx_check(ok, "a component enters the entries that pick it");
    // quantized: lower end + code * step is within half a step
    for (int k = 0; k < d; k++) q[k] = 0.37f * (float)((k * 7) % 31) - 3.1f; fastscan::pack_lut(d, q.data(), f.data()); Lut<float> l; l = Lut<float>(q.data(), d); float lo = *std::min_element(f.begin(), f.end()); ok = true; for (int i = 0; i < d * 4; i++) ok &= std::fabs(lo + l.lut()[i] * l.delta() - f[i]) <= 0.51f * l.delta(); symx_check(ok && std::fabs(l.sum_vl() - lo * 16) < 1e-3f, "table codes are the nearest step"); symx_reach("done");
  } else if (mode == 6) {
    MetricType m = (MetricType[]){MetricType::L2, MetricType::IP, MetricType::COS}[symx_pick(0, 2, "metric")]; int d = symx_bool("wide") ? 96 : 64, n = 2; auto s = built(n, d, m, 4); for (int i = 0; i < n; i++) { s->get_f_add_ptr(i)[3 * i] = symx_f32("f"); s->get_edges(i)[5 + i] = symx_u32("edge"); s->get_nei_qc_ptr(i)[40] = symx_u8("code"); } s->get_data_by_id(1)[d - 1] = 2; s->set_ep(symx_u32("ep"));
    auto v = pattern(n, d, 1); v[2 * d - 1] = 2; for (int i = 0; i < n; i++) symx_check(bits(s->get_data_by_id(i), &v[i * d], d * 4), "rows are kept as they were given"); symx_check(s->get_data_num() == 2 && s->get_capacity() == 4 && s->get_dim() == (uint32_t)d, "sizes"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double w = 0; for (int k = 0; k < d; k++) w += m == MetricType::L2 ? (v[i * d + k] - v[j * d + k]) * (double)(v[i * d + k] - v[j * d + k]) : -(double)v[i * d + k] * v[j * d + k]; symx_check(s->get_distance(i, j) == (float)w, "exact distances"); }
    s->save("/d/f"); S r; r.load("/d/f"); alike(*s, r, n, d, m); symx_reach("saved"); if (m == MetricType::L2) { auto big = pattern(5, d, 0); symx_check(symx_attempt([&] { s->fit(big.data(), 5); }) == 2 && symx_attempt([&] { s->fit(nullptr, 1); }) == 2, "too many rows or none are refused"); alike(*s, r, n, d, m); symx_check(symx_attempt([&] { s->insert(big.data()); }) == 2 && symx_attempt([&] { s->remove((I)0); }) == 2, "rows are only added all at once"); symx_check(symx_attempt([&] { S t; t.load("/d/none"); }) == 2 && symx_attempt([&] { s->save("/nowhere/f"); }) == 2, "missing files are refused"); symx_reach("refused"); }
  } else if (mode == 7) {
    auto s = built(2, 64, MetricType::L2, 2); s->get_f_add_ptr(0)[0] = symx_f32("f"); s->save("/d/f"); auto d = *vfs_data("/d/f"); size_t n = d.size(); std::vector<size_t> at; for (size_t i = 0; i <= n; i++) if (i <= 40 || i + 12 >= n || i % 61 == 0) at.push_back(i); size_t c = at[symx_pick(0, at.size() - 1, "cut")]; vfs_put("/d/f", d.data(), c); S r; int rc = symx_attempt([&] { r.load("/d/f"); }); if (c < n) { symx_check(rc == 2, "a file that was cut short is refused"); symx_reach("refused"); } else { symx_check(rc == 0, "a whole file is read"); alike(*s, r, 2, 64, MetricType::L2); symx_reach("whole"); }
  } else if (mode == 8) {
    auto s = built(2, 64, MetricType::IP, 2); auto keep = built(2, 64, MetricType::IP, 2); vfs.ops = 0; vfs.fail_at = symx_pick(0, 14, "at"); uint64_t part = symx_pick(0, 2, "part"); vfs.fail_short = part * 9; if (symx_bool("once")) vfs.fail_count = 1; int rc = symx_attempt([&] { s->save("/d/f"); }); vfs.fail_at = ~0ull; if (vfs.failed && rc == 2) symx_reach("reported");
    if (rc == 0) { S r; symx_check(symx_attempt([&] { r.load("/d/f"); }) == 0, "a save that reports success can be loaded"); alike(*s, r, 2, 64, MetricType::IP); symx_reach("saved"); } else symx_check(vfs.failed, "a save is refused only when the file system failed");
  } else { // rotations keep lengths and angles
    static const int D[] = {64, 96, 128, 192, 200, 256, 320}; int d = D[symx_pick(0, 6, "dim")]; auto type = symx_bool("matrix") && d <= 64 ? RotatorType::MatrixRotator : RotatorType::FhtKacRotator; auto r = choose_rotator<float>(d, type, math::round_up_pow2<size_t>(d, 64)); int p = (int)r->size(); symx_check(p >= d && p % 64 == 0 && p < d + 64, "codes are padded to whole blocks");
    auto v = pattern(2, d, 2); std::vector<float> a(p, 7), b(p, 9), z(p, 3), zero(d, 0); r->rotate(&v[0], a.data()); r->rotate(&v[d], b.data()); r->rotate(zero.data(), z.data()); double aa = 0, ab = 0, va = 0, vb = 0, zz = 0; for (int i = 0; i < p; i++) { aa += (double)a[i] * a[i]; ab += (double)a[i] * b[i]; zz += std::fabs(z[i]); } for (int i = 0; i < d; i++) { va += (double)v[i] * v[i]; vb += (double)v[i] * v[d + i]; }
    symx_check(zz == 0, "the origin stays"); symx_check(std::fabs(aa - va) < 1e-3 * va && std::fabs(ab - vb) < 1e-3 * va, "lengths and inner products are kept"); symx_reach("done");
  }
}
