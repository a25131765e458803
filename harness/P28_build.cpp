//@property P28
//@cxx -mavx2 -mfma -I/usr/include/eigen3
//@case build mode=0 n=3 --fork 1 reach=built
//@case build4 thorough mode=0 n=4 --fork 1 reach=built
//@case build-33 mode=1 n=33 --fork 1 reach=built
//@case build-36 mode=1 n=36 --fork 1 reach=built
//@case build-50 thorough mode=1 n=50 --fork 1 reach=built
//@case build-ep mode=3 --fork 1 reach=built
//@case build-space mode=2 reach=built
//@bound building: 1 to 3 (thorough: 4) rows with arbitrary exact distances between them; 33, 36 and (thorough) 50 rows on a line with one distance out of line (4 values, 6 places); 1 to 4 and 35 rows in a real quantized space; random choices follow one fixed seed, one worker
#include "symx.h"
#include "vfs.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include <space/rabitq_space.hpp>
typedef uint32_t I; static const int MAXN = 64;
static float D[MAXN][MAXN], POS[MAXN]; static int N; static I EDGE[MAXN][32]; static int DEG[MAXN]; static I EP = ~0u;
struct Sp {
  using DataTypeAlias = float; using DistanceTypeAlias = float; using IDTypeAlias = I; using DistDataType = float; static constexpr bool has_scalar_data = false;
  static float dist(const float* a, const float* b, size_t) { return (*a - *b) * (*a - *b); }
  size_t get_dim() const { return 1; } size_t get_data_size() const { return 4; } I get_capacity() const { return N; } I get_data_num() const { return N; } float get_distance(I i, I j) const { symx_check(i < (I)N && j < (I)N, "only stored rows are asked for"); return D[i][j]; } void fit(const float*, I) {} void set_metric_function() {} alaya::DistFuncRaBitQ<float, float> get_dist_func() const { return &dist; }
  I get_ep() const { return EP; } void set_ep(I e) { EP = e; } const float* get_data_by_id(I i) const { return &POS[i < MAXN ? i : 0]; } const I* get_edges(I i) const { return EDGE[i]; } void prefetch_by_id(I) const {} void prefetch_by_address(const float*) const {}
  void update_nei(I c, const std::vector<alaya::Neighbor<I, float>>& v) { symx_check(v.size() <= 32 && c < (I)N, "no more neighbours than there are places"); DEG[c] = (int)v.size(); int k = 0; for (auto& x : v) EDGE[c][k++] = x.id_; for (; k < 32; k++) EDGE[c][k] = c; }
  struct QueryComputer { I q = 0, c = 0; void load_centroid(I i) { c = i; } float get_exact_qr_c_dist() const { return D[q][c]; } float operator()(size_t i) const { return D[q][EDGE[c][i]]; } };
  QueryComputer get_query_computer(const float*) const { return QueryComputer(); } QueryComputer get_query_computer(I q) const { QueryComputer x; x.q = q; return x; }
};
namespace alaya { template <> struct is_rabitq_space<Sp> : std::true_type {}; }
#include <index/graph/qg/qg_builder.hpp>
using namespace alaya;
static void edges(int n, int i, const I* e, int deg) { int want = std::min(32, n - 1); if (deg >= 0) symx_check(deg == want, "every row has as many neighbours as there are other rows, up to the degree bound"); bool in[MAXN] = {}; for (int k = 0; k < 32; k++) { if (k >= want) { symx_check(e[k] == (I)i, "places that are left over lead back to the row"); continue; } symx_check(e[k] < (I)n && e[k] != (I)i, "neighbours are other stored rows"); symx_check(!in[e[k]], "no neighbour twice"); in[e[k]] = true; } }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), n = (int)symx_param("n", 4); vfs_put("/d/.k", "", 0);
  if (mode == 0) {
    n = symx_pick(1, n, "rows"); N = n; int k = 0; for (int i = 0; i < n; i++) { POS[i] = (float)(i * i); D[i][i] = 0; for (int j = 0; j < i; j++) { char nm[2] = {(char)('a' + k++), 0}; float x = symx_f32(nm); symx_assume(x >= 0 && x <= 1e9f); D[i][j] = D[j][i] = x; } }
    auto s = std::make_shared<Sp>(); QGBuilder<Sp> b(s, 1); for (int i = 0; i < n; i++) edges(n, i, EDGE[i], DEG[i]); b.build_graph(); for (int i = 0; i < n; i++) edges(n, i, EDGE[i], DEG[i]); symx_check(EP < (I)n, "the entry is a stored row"); symx_reach("built");
  } else if (mode == 1) { // more rows than places
    N = n; for (int i = 0; i < n; i++) { POS[i] = (float)i; for (int j = 0; j < n; j++) { float d = (float)((i - j) * (i - j)); D[i][j] = d + (float)((i * j) % 5) * 0.125f * (i != j); } }
    int r = symx_pick(0, 2, "row") * (n / 3), o = (r + 1 + symx_pick(0, 1, "other") * (n / 2)) % n; float x = (float[]){0.5f, 3, 30.5f, 1e6f}[symx_pick(0, 3, "x")]; D[r][o] = D[o][r] = x;
    auto s = std::make_shared<Sp>(); QGBuilder<Sp> b(s, 1); b.build_graph(); for (int i = 0; i < n; i++) { edges(n, i, EDGE[i], DEG[i]); bool near = false; float best = 1e30f; for (int j = 0; j < n; j++) if (j != i && D[i][j] < best) best = D[i][j]; for (int k = 0; k < 32; k++) if (EDGE[i][k] != (I)i) near |= D[i][EDGE[i][k]] <= best; symx_check(near, "the nearest other row is a neighbour"); }
    symx_check(EP < (I)n, "the entry is a stored row"); symx_reach("built");
  } else if (mode == 3) { // the entry is a row nearest to the middle
    n = symx_pick(1, 4, "rows"); N = n; for (int i = 0; i < n; i++) { POS[i] = (float)((int[]){7, -3, 12, 5})[i] + 0.0f; for (int j = 0; j < n; j++) D[i][j] = i == j ? 0 : 1 + (i + j) * 0.5f; } int r = symx_pick(0, n - 1, "row"); int v = (int)symx_range(0, 40, "v"); POS[r] = (float)(int)symx_concretize(v) - 20; auto s = std::make_shared<Sp>(); QGBuilder<Sp> b(s, 1); double m = 0; for (int i = 0; i < n; i++) m += POS[i]; m /= n; for (int i = 0; i < n; i++) symx_check(std::fabs(POS[EP] - m) <= std::fabs(POS[i] - m) + 1e-4, "the entry is a row nearest to the middle"); symx_reach("built");
  } else { // a real space: what is built is what is searched
    static const int NN[] = {1, 2, 3, 4, 35}; n = NN[symx_pick(0, 4, "rows")]; int d = 64; auto m = symx_bool("ip") ? MetricType::IP : MetricType::L2; auto s = std::make_shared<RaBitQSpace<float>>((I)n, d, m); std::vector<float> v(n * d); for (int i = 0; i < n * d; i++) v[i] = (float)((i * 29 + i / 7) % 11) - 5 + (float)(i / d) * 0.01f; s->fit(v.data(), n); QGBuilder<RaBitQSpace<float>> b(s, 1); b.build_graph(); for (int i = 0; i < n; i++) edges(n, i, s->get_edges(i), -1); symx_check(s->get_ep() < (I)n, "the entry is a stored row"); symx_reach("built");
  }
}
