//@property P21
//@case raw mode=0 kind=0 steps=4 reach=inserted,full,removed,refused,reopened
//@case raw-long thorough mode=0 kind=0 steps=5 reach=inserted,full,removed,refused,reopened
//@case sq8 mode=0 kind=1 steps=3 reach=inserted,full,removed,refused,reopened
//@case sq4 mode=0 kind=2 steps=3 reach=inserted,full,removed,refused,reopened
//@case raw-ip mode=0 kind=3 steps=2 reach=inserted,removed,reopened
//@case raw-cut mode=1 kind=0 reach=refused,whole
//@case sq8-cut mode=1 kind=1 reach=refused,whole
//@case sq4-cut mode=1 kind=2 reach=refused,whole
//@case raw-fault mode=2 kind=0 reach=reported,saved
//@case sq8-fault mode=2 kind=1 reach=reported,saved
//@case sq4-fault mode=2 kind=2 reach=reported,saved
//@case codes8 mode=3 kind=1 ranges=4 reach=low,high,inside
//@case codes8-more thorough mode=3 kind=1 ranges=8 reach=low,high,inside
//@case codes4 mode=3 kind=2 ranges=8 reach=low,high,inside
//@case fit mode=4 kind=0 reach=refused,fitted
//@case layout mode=5 reach=aligned
//@bound spaces of capacity 3 with up to 2 fitted rows of 2 (SQ4: 3) components, every history of 3 (raw 4, thorough 5) insert, remove, save and load steps with arbitrary row contents and row numbers; every cut of a saved file and every failing or short write of a save; every float value in 4 (thorough and SQ4 8) ranges; storage item sizes 1..70 with capacities 1..9
//@assume row numbers passed to remove are below the capacity or the all-ones invalid number; the quantizer range is finite
#include "symx.h"
#include "vfs.h"
#include <memory>
#include <string>
#include <vector>
#include <space/raw_space.hpp>
#include <space/sq8_space.hpp>
#include <space/sq4_space.hpp>
using namespace alaya;
typedef uint32_t I; static const I NONE = ~0u;
template <class S> struct T; 
template <> struct T<RawSpace<float>> { static constexpr int dim = 2; static constexpr bool raw = true; };
template <> struct T<SQ8Space<float>> { static constexpr int dim = 2; static constexpr bool raw = false; };
template <> struct T<SQ4Space<float>> { static constexpr int dim = 3; static constexpr bool raw = false; };
struct Row { float v[4]; bool live; };
static Row draw(bool raw) { Row r{}; r.live = true; if (raw) { r.v[0] = symx_f32("v"); r.v[1] = symx_f32("w"); } else { static const float g[] = {0, 1, -3, 7}; for (int i = 0; i < 3; i++) r.v[i] = g[symx_pick(0, i ? 0 : 3, "g")] + i; } return r; }
static bool bits(const void* a, const void* b, size_t n) { uint8_t d = 0; for (size_t i = 0; i < n; i++) d |= ((const uint8_t*)a)[i] ^ ((const uint8_t*)b)[i]; return d == 0; }
template <class S> static void judge(S& s, std::vector<Row>& m, I cap) {
  I live = 0; for (auto& r : m) live += r.live; int dim = T<S>::dim;
  symx_check(s.get_data_num() == m.size(), "the number of stored rows counts accepted rows only"); symx_check(s.get_dim() == (uint32_t)dim && s.get_capacity() == cap, "dimension and capacity");
  if constexpr (T<S>::raw) symx_check(s.get_avl_data_num() == live, "the number of available rows counts live rows");
  for (I i = 0; i < m.size(); i++) {
    if constexpr (T<S>::raw) { symx_check(bits(s.get_data_by_id(i), m[i].v, dim * 4), "a row is kept as it was stored"); float q[2] = {1, 2}; auto qc = s.get_query_computer(q); float d = qc(i); if (!m[i].live) symx_check(d == std::numeric_limits<float>::max(), "a removed row is infinitely far"); else { float w = s.get_dist_func()(q, s.get_data_by_id(i), dim); symx_check(bits(&d, &w, 4), "the distance of a live row is that of its vector"); } auto q2 = s.get_query_computer(i); if (m[i].live) { float a = q2(i), b = s.get_distance(i, i); symx_check(bits(&a, &b, 4), "a row as query"); } }
    else { uint8_t c[4] = {}; s.get_quantizer().encode(m[i].v, c); symx_check(bits(c, s.get_data_by_id(i), s.get_data_size()), "a row is kept as its own code"); auto qc = s.get_query_computer((const float*)m[i].v); for (I j = 0; j < m.size(); j++) if (m[j].live) { float a = qc(j), b = s.get_distance(i, j); symx_check(bits(&a, &b, 4), "a query is measured like a stored row with the same code"); } }
  }
}
template <class S> static std::unique_ptr<S> reload(S& s, std::vector<Row>& m, I cap) { s.save("/d/f"); auto r = std::make_unique<S>(); r->load("/d/f"); r->set_metric_function(); judge(*r, m, cap); symx_reach("reopened"); return r; }
template <class S> static std::unique_ptr<S> make(I cap, MetricType mt, std::vector<Row>& m, int n) { int dim = T<S>::dim; auto s = std::make_unique<S>(cap, dim, mt); std::vector<float> d; for (int i = 0; i < n; i++) { Row r = draw(T<S>::raw); if (!T<S>::raw && i) for (int k = 0; k < dim; k++) r.v[k] = m[0].v[k] + 4 * k - 2; m.push_back(r); d.insert(d.end(), r.v, r.v + dim); } d.push_back(0); s->fit(d.data(), n); return s; }
template <class S> static void history(MetricType mt) {
  const I cap = 3; std::vector<Row> m; int n = symx_pick(T<S>::raw ? 0 : 2, 2, "fit"); auto s = make<S>(cap, mt, m, n); judge(*s, m, cap);
  for (int k = symx_param("steps", 3); k--;) switch (symx_pick(0, 2, "op")) {
    case 0: { Row r = draw(T<S>::raw); I id = s->insert(r.v); if (m.size() == cap) { symx_check(id == NONE, "a full space refuses a row"); symx_reach("full"); } else { symx_check(id == m.size(), "rows are numbered in order"); m.push_back(r); symx_reach("inserted"); } judge(*s, m, cap); break; }
    case 1: { I id = symx_pick(0, cap, "id"); if (id == cap) id = NONE; bool ok = id < m.size() && m[id].live; if (!T<S>::raw && id == NONE) symx_end_path(); I r = s->remove(id); symx_check(r == (ok ? id : NONE), "only a live row can be removed"); if (ok) { m[id].live = false; symx_reach("removed"); } else symx_reach("refused"); judge(*s, m, cap); break; }
    default: s = reload(*s, m, cap);
  }
  reload(*s, m, cap);
}
template <class S> static void cut() {
  std::vector<Row> m; auto s = make<S>(3, MetricType::L2, m, 2); s->remove(0); m[0].live = false; s->save("/d/f"); auto d = *vfs_data("/d/f"); size_t n = d.size(); size_t c = symx_pick(0, n, "cut"); vfs_put("/d/f", d.data(), c);
  S r; int rc = symx_attempt([&] { r.load("/d/f"); }); if (c < n) { symx_check(rc == 2, "a file that was cut short is refused"); symx_reach("refused"); } else { symx_check(rc == 0, "a whole file is read"); r.set_metric_function(); judge(r, m, 3); symx_reach("whole"); }
  symx_check(symx_attempt([&] { S t; t.load("/d/none"); }) == 2, "a missing file is refused");
}
template <class S> static void fault() {
  std::vector<Row> m; auto s = make<S>(3, MetricType::L2, m, 2); vfs.ops = 0; vfs.fail_at = symx_pick(0, 12, "at"); uint64_t part = symx_pick(0, 2, "part"); vfs.fail_short = part * 9; if (symx_bool("once")) vfs.fail_count = 1;
  int rc = symx_attempt([&] { s->save("/d/f"); }); vfs.fail_at = ~0ull; if (vfs.failed && !part && vfs.in_write) symx_reach("reported"); judge(*s, m, 3);
  if (rc == 0) { S r; symx_check(symx_attempt([&] { r.load("/d/f"); }) == 0, "a save that reports success can be loaded"); r.set_metric_function(); judge(r, m, 3); symx_reach("saved"); } else symx_check(vfs.failed, "a save is refused only when the file system failed");
}
template <class Q, int M> static void codes() {
  static const float lo[] = {0, -1, 0, 5, -128, 0.1f, -1e30f, 0}, wi[] = {1, 2, 255, 3, 256, 0.7f, 3e30f, 1e-3f}; int k = symx_pick(0, symx_param("ranges", 8) - 1, "range"); float d[6] = {lo[k], lo[k] + wi[k], 7, 7, lo[k] + wi[k], lo[k]}; // column 2 constant
  Q q(3); float fit[6] = {d[0], 7, d[1], d[1], 7, d[0]}; q.fit(fit, 2); symx_check(q.get_min()[0] == d[0] && q.get_max()[0] == d[1] && q.get_min()[1] == 7 && q.get_max()[1] == 7 && q.get_min()[2] == d[0] && q.get_max()[2] == d[1], "the range of every component is learnt");
  float v = symx_f32("v"); symx_assume(v == v); float in[3] = {v, v, d[0]}; uint8_t c[4] = {0, 0, 0, 0xEE}; q.encode(in, c); int c0 = M == 255 ? c[0] : c[0] >> 4, c1 = M == 255 ? c[1] : c[0] & 15, c2 = M == 255 ? c[2] : c[1] >> 4;
  symx_check(c[3] == 0xEE && (M == 255 || (c[2] == 0 && (c[1] & 15) == 0)), "nothing outside the code is written"); symx_check(c1 == 0 && c2 == 0, "a constant component and the minimum have code 0");
  float top[3] = {d[1], 9, d[1]}; uint8_t t[4] = {}; q.encode(top, t); symx_check((M == 255 ? t[0] : t[0] >> 4) == M && (M == 255 ? t[2] : t[1] >> 4) == M, "the maximum has the largest code");
  if (v <= d[0]) { symx_check(c0 == 0, "a value below the range has the smallest code"); symx_reach("low"); } else if (v >= d[1]) { symx_check(c0 == M, "a value above the range has the largest code"); symx_reach("high"); }
  else { double step = ((double)d[1] - d[0]) / M, dec = d[0] + c0 * step; symx_check(B_and((double)v - dec >= -step * 1.01, (double)v - dec <= step * 1.01), "a code stands for a value within one step"); symx_reach("inside"); }
}
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), kind = (int)symx_param("kind", 0); vfs_put("/d/.k", "", 0);
  typedef RawSpace<float> R; typedef SQ8Space<float> A; typedef SQ4Space<float> B;
  if (mode == 0) { if (kind == 0) history<R>(MetricType::L2); else if (kind == 1) history<A>(MetricType::L2); else if (kind == 2) history<B>(MetricType::IP); else history<R>(MetricType::IP); }
  else if (mode == 1) { if (kind == 0) cut<R>(); else if (kind == 1) cut<A>(); else cut<B>(); }
  else if (mode == 2) { if (kind == 0) fault<R>(); else if (kind == 1) fault<A>(); else fault<B>(); }
  else if (mode == 3) { if (kind == 1) codes<SQ8Quantizer<float>, 255>(); else codes<SQ4Quantizer<float>, 15>(); }
  else if (mode == 4) { int k = symx_pick(0, 3, "k"); R s(2, 2, MetricType::L2); float d[8] = {1, 2, 3, 4, 5, 6, 7, 8}; int rc = symx_attempt([&] { s.fit(k == 3 ? nullptr : d, k == 3 ? 1 : k == 2 ? 3 : k); }); if (k >= 2) { symx_check(rc == 2, "more rows than the capacity or no rows at all are refused"); symx_check(s.get_data_num() == 0, "a refused fit stores nothing"); symx_reach("refused"); } else { symx_check(rc == 0 && (int)s.get_data_num() == k, "rows are stored"); symx_reach("fitted"); } }
  else {
    size_t isz = symx_pick(1, 70, "item"), cap = symx_pick(1, 9, "cap"); if (isz > 6 && isz < 62 && isz % 8) symx_end_path(); SequentialStorage<uint8_t, I> s; s.init(isz, cap); std::vector<uint8_t> d(isz); I n = symx_pick(0, cap, "n"), rm = NONE;
    for (I i = 0; i < n; i++) { for (auto& x : d) x = (uint8_t)(i * 7 + 1); symx_check(i % 3 == 2 ? s.reserve() == i : s.insert(d.data()) == i, "rows are numbered in order"); if (i % 3 == 2) memcpy(s[i], d.data(), isz); } if (n) { rm = symx_pick(0, n - 1, "rm"); symx_check(s.remove(rm) == rm, "remove"); symx_check(s.remove(rm) == NONE && s.update(rm, d.data()) == NONE, "a removed row cannot be removed or changed"); }
    I up = NONE; if (n > 1) { up = rm ? rm - 1 : rm + 1; for (auto& x : d) x = 0xFE; symx_check(s.update(up, d.data()) == up, "update"); }
    for (I i = 0; i < cap; i++) { symx_check(((uintptr_t)s[i] & 63) == 0, "every row is aligned"); symx_check(s.is_valid(i) == (i < n && i != rm), "valid rows are the live ones"); for (size_t j = 0; j < isz; j++) symx_check(s[i][j] == (uint8_t)(i >= n ? 0 : i == up ? 0xFE : i * 7 + 1), "rows do not overlap"); }
    if (n == cap) symx_check(s.insert(d.data()) == NONE && s.reserve() == NONE, "a full storage refuses a row"); symx_reach("aligned");
  }
}
