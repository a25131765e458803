//@property P29
//@cxx -mavx2 -mfma -I/usr/include/eigen3
//@case search mode=0 n=5 --fork 1 reach=found,short
//@case order mode=0 n=4 order=1 --fork 1 reach=found
//@case order5 thorough mode=0 n=5 order=1 --fork 1 reach=found
//@case pages mode=0 n=9 --fork 1 reach=found,cached
//@case medoids mode=5 n=4 --fork 1 reach=found,medoid,turned
//@case estimates mode=1 n=4 --fork 1 reach=found
//@case fault mode=2 n=5 reach=reported
//@case fault-order mode=2 n=4 order=1 reach=reported
//@case build-fault mode=3 n=3 reach=reported,built
//@case build-read mode=7 n=3 reach=reported
//@case cut mode=4 n=7 what=0 reach=refused
//@case header mode=4 n=4 what=1 reach=refused,whole
//@case graphs mode=8 n=3 reach=refused,whole
//@case codes-64 mode=6 d=64 reach=coded
//@case codes-128 mode=6 d=128 reach=coded
//@case codes-256 mode=6 d=256 reach=coded
//@case codes-512 mode=6 d=512 reach=coded
//@case codes-1024 mode=6 d=1024 reach=coded
//@case codes-2048 mode=6 d=2048 reach=coded
//@bound searching: up to 5 rows (pages: 9; 72 dimensions, 64 of them coded, 32 neighbour places), 3 shapes of graph, 2 entries, list sizes 1, 2, 200, beam widths 1 to 6, result counts 1, 2 and one more than the rows; completions of asynchronous reads in every order and count (at most one empty poll in a row)
//@bound estimates: any values up to 1e6 in size for the neighbours of one vertex; medoids: up to 2, any rows; PCA: a permutation with signs and a mean
//@bound faults: every read fails, comes short, is refused or interrupted; every failing write of a build (first 40 operations); 8 cuts of each of 7 files; any value of each header field
//@bound codes: 64 to 2048 dimensions, vectors their code describes exactly, sign flips at 2 to 8 positions
//@assume a submission of several reads is accepted or refused as a whole
#include "symx.h"
#include "vfs.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <libaio.h>
// asynchronous reads complete in any order, some at a time
static std::vector<iocb> PENDING; static std::vector<iocb*> OBJ; static bool ORDER, IDLE; static int FAIL = -1, KIND, READS; static bool FAILED;
extern "C" {
int io_setup(int, io_context_t* c) { *c = (io_context_t)&PENDING; return 0; } int io_destroy(io_context_t) { PENDING.clear(); OBJ.clear(); return 0; }
int io_submit(io_context_t, long n, iocb** v) { if (READS == FAIL && KIND == 2) { READS++; FAILED = true; return -11; } for (long i = 0; i < n; i++) { PENDING.push_back(*v[i]); OBJ.push_back(v[i]); } return (int)n; }
int io_getevents(io_context_t, long least, long most, io_event* e, timespec*) {
  long have = (long)PENDING.size(), n = std::min(most, have); symx_check(least <= have, "a wait for reads that were never submitted"); if (READS == FAIL && KIND == 3) { READS++; return -4; } if (ORDER && n > 0) { if (least == 0) { int c = IDLE ? symx_pick(0, 1, "done") + 1 : symx_pick(0, 2, "done"); n = c == 0 ? 0 : c == 1 ? 1 : n; IDLE = n == 0; } }
  for (long i = 0; i < n; i++) { size_t at = ORDER && PENDING.size() > 1 ? (symx_bool("last") ? PENDING.size() - 1 : 0) : 0; iocb c = PENDING[at]; PENDING.erase(PENDING.begin() + at); e[i].obj = OBJ[at]; OBJ.erase(OBJ.begin() + at); long r; if (READS == FAIL && KIND < 2) { FAILED = true; r = KIND == 0 ? -5 : symx_pread(c.aio_fildes, c.u.c.buf, 512, c.u.c.offset); } else r = symx_pread(c.aio_fildes, c.u.c.buf, c.u.c.nbytes, c.u.c.offset); READS++; e[i].data = c.data; e[i].res = (unsigned long)r; e[i].res2 = 0; }
  return (int)n;
}
}
#define __builtin_cpu_supports(x) (!__builtin_strcmp(x, "avx2") || !__builtin_strcmp(x, "fma"))
#include <index/graph/laser/qg/qg_builder.hpp>
using namespace alaya::laser;
static const int MD = 64, DIM = 72, DEG = 32;
static std::vector<std::vector<float>> ROWS; static std::vector<std::vector<uint32_t>> ADJ; static std::vector<bool> REACH;
static void put(const std::string& p, const std::string& s) { vfs_put(p, s.data(), s.size()); }
template <class T> static void app(std::string& s, const T& v) { s.append((const char*)&v, sizeof(T)); }
static void sources(int n, uint32_t ep) { std::string b; app(b, n); app(b, DIM); for (auto& r : ROWS) for (float f : r) app(b, f); put("/l/x_pca_base.fbin", b); std::string g; size_t sz = 24; for (auto& a : ADJ) sz += 4 + 4 * a.size(); app(g, sz); app(g, (uint32_t)DEG); app(g, ep); app(g, (size_t)0); for (auto& a : ADJ) { app(g, (uint32_t)a.size()); for (uint32_t x : a) app(g, x); } put("/l/vamana", g); REACH.assign(n, false); REACH[ep] = true; for (int r = 0; r < n; r++) for (int i = 0; i < n; i++) if (REACH[i]) for (uint32_t x : ADJ[i]) REACH[x] = true; }
static void graph(int n, int sh) { ADJ.assign(n, {}); for (int i = 0; i < n; i++) { if (sh == 0) { for (int j = 0; j < n; j++) if (j != i) ADJ[i].push_back(j); } else if (sh == 1) ADJ[i].push_back((i + 1) % n); else if (sh == 2) { if (i < n - 2) ADJ[i].push_back(i + 1); if (i > 0) ADJ[i].push_back(i - 1); if (i >= n - 2) ADJ[i] = {(uint32_t)(i == n - 1 ? n - 2 : n - 1)}; } } }
static void rows(int n, int seed) { ROWS.assign(n, std::vector<float>(DIM, 0)); for (int i = 0; i < n; i++) for (int k = 0; k < DIM; k++) ROWS[i][k] = (float)((i * 17 + k * (i % 3 + 1) * 5 + seed * 7 + k / 9) % 13) - 6; }
static float dist(const std::vector<float>& q, int i) { float d = 0; for (int k = 0; k < DIM; k++) d += (q[k] - ROWS[i][k]) * (q[k] - ROWS[i][k]); return d; }
static void build(int n) { QuantizedGraph g(n, DEG, MD, DIM, 7); QGBuilder b(g, 64, 1); b.build("/l/vamana", "/l/x"); }
static std::unique_ptr<QuantizedGraph> opened(int n, float budget) { auto g = std::make_unique<QuantizedGraph>(n, DEG, MD, DIM, 7); g->load_disk_index("/l/x", budget); return g; }
static int judge(const std::vector<float>& q, const std::vector<uint32_t>& r, int k, int n, bool wide) { std::vector<bool> in(n, false); int c = 0, can = 0; for (int i = 0; i < n; i++) can += REACH[i]; for (int i = 0; i < k; i++) { if (r[i] == kPidMax) { for (int j = i; j < k; j++) symx_check(r[j] == kPidMax, "results come before empty places"); break; } symx_check(r[i] < (uint32_t)n && REACH[r[i]], "only stored, reachable rows are found"); symx_check(!in[r[i]], "no row is found twice"); in[r[i]] = true; if (i) symx_check(dist(q, r[i - 1]) <= dist(q, r[i]), "nearest first"); c++; }
  if (wide) { symx_check(c == std::min(k, can), "as many rows as possible are found"); for (int i = 0; i < n; i++) if (REACH[i] && !in[i] && c) symx_check(dist(q, r[c - 1]) <= dist(q, i), "no nearer row is missed"); } else symx_check(c > 0, "something is found"); symx_check(r[k] == 77, "nothing is written past the results"); return c; }
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), n = (int)symx_param("n", 5); vfs_put("/l/.k", "", 0);
  if (mode == 0) {
    bool order = symx_param("order", 0); if (n < 8 && !order) { int c = symx_pick(0, 2, "rows"); n = c == 0 ? 1 : c == 1 ? 2 : n; } rows(n, 1); if (n > 2 && !order && symx_bool("duplicate")) ROWS[2] = ROWS[1]; graph(n, symx_pick(0, order ? 1 : 2, "shape")); uint32_t ep = (uint32_t)(order ? 0 : symx_pick(0, 1, "entry")); if (ep >= (uint32_t)n) symx_end_path(); if (n == 1) ADJ[0].clear(); sources(n, ep); build(n); auto g = opened(n, n >= 7 && symx_bool("cache") ? 0.5f : 0.0f); if (n >= 7) symx_reach("cached");
    static const int EF[] = {1, 2, 200}; int w = order ? 2 : symx_pick(0, 2, "ef"), beam = order ? symx_pick(0, 2, "beam") * 2 + 2 : symx_pick(1, 3, "beam"), k = order ? 1 : symx_pick(0, 2, "k"); k = k == 0 ? 1 : k == 1 ? 2 : n + 1; if (EF[w] < k && w == 0 && k > n) symx_end_path(); g->set_params(std::max(EF[w], k > n ? 1 : k), 1, beam); auto q = ROWS[order ? n - 1 : symx_pick(0, n - 1, "query")]; q[0] += 1; q[MD + 1] -= 2; std::vector<uint32_t> r(k + 1, 77); ORDER = order; g->search(q.data(), k, r.data()); int c = judge(q, r, k, n, w == 2); if (c < k) symx_reach("short"); symx_reach("found"); ORDER = false; symx_check(PENDING.empty(), "no read is left over");
    if (w == 2) { std::vector<uint32_t> s(2 * k + 1, 77); std::vector<float> two(q); two.insert(two.end(), q.begin(), q.end()); g->batch_search(two.data(), k, s.data(), 2); bool ok = s[2 * k] == 77; for (int i = 0; i < 2 * k; i++) ok &= s[i] == r[i % k]; symx_check(ok, "a batch finds what single searches find"); } g.reset(); symx_check(vfs_open_count() == 0, "all files are closed"); symx_check(!vfs_exists("/l/x_tmp.fbin"), "temporary files are gone");
  }
  if (mode == 5) {  // medoids as further entry points, queries turned into the space of the index
    rows(n, 2); graph(n, symx_pick(0, 2, "shape")); if (symx_bool("split")) { ADJ[0] = {}; symx_reach("medoid"); } sources(n, 0); build(n); int m = symx_pick(0, 2, "medoids"); std::vector<int> ids; std::string a, b; app(a, m); app(a, 1); app(b, m); app(b, DIM); for (int i = 0; i < m; i++) { int id = symx_pick(0, n - 1, "medoid"); ids.push_back(id); app(a, id); for (float f : ROWS[id]) app(b, f); } if (m) { put("/l/x_medoids_indices", a); put("/l/x_medoids", b); } bool turn = symx_bool("turn"); std::vector<float> mean(DIM, 0);
    if (turn) { std::string c; app(c, (uint64_t)DIM); for (int k = 0; k < DIM; k++) { mean[k] = (float)(k % 5 - 2); app(c, mean[k]); } for (int r = 0; r < DIM; r++) for (int k = 0; k < DIM; k++) app(c, k == (r + 7) % DIM ? (r % 3 ? 1.0f : -1.0f) : 0.0f); put("/l/x_pca.bin", c); symx_reach("turned"); }
    auto q = ROWS[symx_pick(0, n - 1, "query")]; q[3] += 1; q[MD + 2] -= 1; auto in = q; if (turn) for (int r = 0; r < DIM; r++) in[(r + 7) % DIM] = q[r] * (r % 3 ? 1.0f : -1.0f) + mean[(r + 7) % DIM]; if (m) { int best = ids[0]; auto near = [&](int i) { float d = 0; for (int k = 0; k < MD; k++) d += (q[k] - ROWS[i][k]) * (q[k] - ROWS[i][k]); return d; }; for (int i : ids) if (near(i) < near(best)) best = i; REACH[best] = true; for (int r = 0; r < n; r++) for (int i = 0; i < n; i++) if (REACH[i]) for (uint32_t x : ADJ[i]) REACH[x] = true; }
    auto g = opened(n, 0); g->set_params(50, 1, 2); std::vector<uint32_t> r(n + 1, 77); g->search(in.data(), n, r.data()); judge(q, r, n, n, true); symx_reach("found"); }
  if (mode == 1) {  // estimates may be anything: they only steer the search
    rows(n, 3); for (auto& w : ROWS) std::fill(w.begin() + MD, w.end(), 0.0f); bool far = symx_bool("far"); graph(n, 0); sources(n, 0); build(n); auto* f = vfs_data("/l/x_R32_MD64.index"); symx_check(f != nullptr, "the index is where its name says"); if (!f) symx_end_path(); size_t len = 4 * (DIM + MD / 64 * 2 * DEG + 4 * DEG), fac = 4 * (DIM + MD / 64 * 2 * DEG); { int v = far ? n - 1 : 0; float* t = (float*)(f->data() + 4096 + v * len + fac); for (int i = 0; i < 3 * DEG; i++) t[i] = 0; for (int i = 0; i < n - 1; i++) { float e = symx_f32("estimate"); symx_assume(e >= -1e6f && e <= 1e6f); t[i] = e; } }
    auto q = ROWS[far ? n - 1 : 0]; auto g = opened(n, 0); int ef = symx_pick(1, 2, "ef"), k = symx_pick(1, 3, "k"); g->set_params(ef == 2 ? 50 : 2, 1, 2); std::vector<uint32_t> r(k + 1, 77); g->search(q.data(), k, r.data()); judge(q, r, k, n, ef == 2); symx_reach("found"); }
  if (mode == 2) {  // a read that fails
    rows(n, 1); graph(n, symx_pick(0, 2, "shape")); sources(n, 0); build(n); auto g = opened(n, 0); int b = symx_pick(1, 3, "beam"); g->set_params(50, 1, b); auto q = ROWS[n - 1]; q[0] += 1; std::vector<uint32_t> r(4, 77); FAILED = false; READS = 0; FAIL = symx_pick(0, n - 1, "fails"); KIND = symx_pick(0, 3, "kind"); int out = 0; bool many = symx_bool("batch"); ORDER = !many && b == 2 && KIND < 2 && symx_param("order", 0); std::vector<float> two(q); two.insert(two.end(), q.begin(), q.end()); std::vector<uint32_t> s(7, 77);
    out = symx_attempt([&] { if (many) g->batch_search(two.data(), 3, s.data(), 2); else g->search(q.data(), 3, r.data()); }); FAIL = -1; ORDER = false; symx_check(out == 0 || out == 2, "a failed read never ends the process"); if (FAILED) { symx_check(out != 0, "a failed read is reported"); symx_reach("reported"); } else symx_check(out == 0, "a search without failed reads succeeds"); std::fill(r.begin(), r.end(), 77); out = symx_attempt([&] { g->search(q.data(), 3, r.data()); }); symx_check(out == 0, "the index stays searchable"); if (out == 0) judge(q, r, 3, n, true); g.reset(); symx_check(vfs_open_count() == 0, "all files are closed"); }
  if (mode == 3 || mode == 7) {  // an index that could not be built
    rows(n, 1); graph(n, 0); sources(n, 0); if (mode == 3) { vfs.fail_at = symx_pick(0, (int)symx_param("ops", 40), "fails"); vfs.fail_short = symx_bool("short"); } else { READS = 0; FAIL = symx_pick(0, n * (n - 1) - 1, "fails"); KIND = symx_pick(0, 3, "kind"); } int out = symx_attempt([&] { build(n); }); bool failed = mode == 3 ? vfs.failed : FAILED; vfs.fail_at = -1; FAIL = -1; symx_check(out == 0 || out == 2, "a failed build never ends the process"); PENDING.clear(); OBJ.clear();
    if (out != 0) { symx_check(failed, "a build without failures succeeds"); symx_reach("reported"); } else if (mode == 7) symx_check(!failed, "a failed read is reported"); if (out == 0) { symx_reach("built"); auto q = ROWS[n - 1]; std::vector<uint32_t> r(n + 1, 77); int o = symx_attempt([&] { auto g = opened(n, 0); g->set_params(50, 1, 2); g->search(q.data(), n, r.data()); }); symx_check(o == 0, "an index that was built can be used"); if (o == 0) judge(q, r, n, n, true); } else { int o = symx_attempt([&] { build(n); }); symx_check(o == 0, "a build can be repeated"); } }
  if (mode == 4) {  // files cut short, changed or of another index
    int what = (int)symx_param("what", 0); rows(n, 1); graph(n, 0); sources(n, 0); build(n); std::string a, b, c; int m = 1, id = 0; app(a, m); app(a, 1); app(a, id); app(b, m); app(b, DIM); for (float f : ROWS[0]) app(b, f); put("/l/x_medoids_indices", a); put("/l/x_medoids", b); app(c, (uint64_t)DIM); for (int k = 0; k < DIM; k++) app(c, 0.0f); for (int i = 0; i < DIM; i++) for (int k = 0; k < DIM; k++) app(c, k == i ? 1.0f : 0.0f); put("/l/x_pca.bin", c); const char* name = nullptr; int other = 0;
    if (what == 0) { int f = symx_pick(0, 6, "file"); name = f == 0 ? "/l/x_R32_MD64.index" : f == 1 ? "/l/x_R32_MD64.index_rotator" : f == 2 ? "/l/x_R32_MD64.index_cache_ids" : f == 3 ? "/l/x_R32_MD64.index_cache_nodes" : f == 4 ? "/l/x_medoids_indices" : f == 5 ? "/l/x_medoids" : "/l/x_pca.bin"; auto* d = vfs_data(name); symx_check(d != nullptr, "the index has all its files"); if (!d) symx_end_path(); size_t z = d->size(), at = 0; int where = symx_pick(0, 7, "cut"); at = where == 0 ? 0 : where == 1 ? 1 : where == 2 ? 4 : where == 3 ? 8 : where == 4 ? 11 : where == 5 ? z / 2 : where == 6 ? z - 4 : z - 1; if (at >= z) symx_end_path(); d->resize(at); }
    else { int f = symx_pick(0, 8, "field"); if (f < 6) { auto* d = vfs_data("/l/x_R32_MD64.index"); static const int M[] = {0, 1, 2, 3, 4, 8}; uint64_t v = symx_u64("field"); memcpy(d->data() + 8 * M[f], &v, 8); } else if (f == 6) { auto* d = vfs_data("/l/x_medoids"); uint32_t v = symx_u32("dimension"); memcpy(d->data() + 4, &v, 4); } else if (f == 7) { auto* d = vfs_data("/l/x_medoids"); uint32_t v = symx_u32("count"); memcpy(d->data(), &v, 4); } else { other = symx_pick(-1, 1, "other"); } }
    auto q = ROWS[n - 1]; std::vector<uint32_t> r(n + 1, 77); int o = symx_attempt([&] { auto g = std::make_unique<QuantizedGraph>(n + other, DEG, MD, DIM, 7); g->load_disk_index("/l/x", 0.5f); g->set_params(50, 1, 2); g->search(q.data(), n, r.data()); }); symx_check(o == 0 || o == 2, "a damaged file never ends the process"); if (o == 0) { symx_check(other == 0, "an index of another size is refused"); judge(q, r, n, n, true); symx_reach("whole"); } else symx_reach("refused"); }
  if (mode == 8) {  // vamana graphs that do not fit, beams that cannot move
    rows(n, 1); graph(n, 1); uint32_t ep = 0; sources(n, 0); auto* d = vfs_data("/l/vamana"); int f = symx_pick(0, 4, "field"); bool fits = true; if (f == 0) { ep = symx_u32("entry"); memcpy(d->data() + 12, &ep, 4); fits = symx_concretize(ep < (uint32_t)n); } else if (f == 1) { uint32_t v = symx_u32("neighbor"); memcpy(d->data() + 24 + 4, &v, 4); fits = symx_concretize(v < (uint32_t)n); if (fits) { v = symx_concretize(v); ADJ[0][0] = v; } } else if (f == 2) { uint32_t v = symx_u32("degree"); symx_assume(v > 2); memcpy(d->data() + 24 + 8, &v, 4); fits = false; } else if (f == 3) { d->resize(d->size() - symx_pick(1, 9, "cut")); fits = false; } else { int more = symx_pick(-1, 1, "points"); if (!more) symx_end_path(); int o = symx_attempt([&] { ROWS.resize(n + 1, ROWS[0]); QuantizedGraph g(n + more, DEG, MD, DIM, 7); QGBuilder b(g, 64, 1); b.build("/l/vamana", "/l/x"); }); symx_check(o == 2, "a graph of another size is refused"); symx_reach("refused"); symx_end_path(); }
    int o = symx_attempt([&] { build(n); }); symx_check(o == 0 || o == 2, "a graph that does not fit never ends the process"); symx_check((o == 0) == fits, "a graph is built exactly if it fits"); if (o == 0) { ep = symx_concretize(ep); REACH.assign(n, false); REACH[ep] = true; for (int r = 0; r < n; r++) for (int i = 0; i < n; i++) if (REACH[i]) for (uint32_t x : ADJ[i]) REACH[x] = true; auto g = opened(n, 0); int ef = symx_pick(0, 1, "ef"), th = symx_pick(0, 1, "threads"), beam = symx_pick(0, 1, "beam"); int p = symx_attempt([&] { g->set_params(ef * 50, th, beam - (f == 1)); }); bool ok = ef && th && beam && f != 1; symx_check(p == (ok ? 0 : 2), "beams that cannot move are refused"); if (p == 0) { auto q = ROWS[n - 1]; std::vector<uint32_t> r(n + 1, 77); g->search(q.data(), n, r.data()); judge(q, r, n, n, true); } symx_reach("whole"); } else symx_reach("refused"); }
  if (mode == 6) {  // codes and estimates of vectors that a code describes exactly; a query component is coded at most one step too high (documented trade-off)
    int d = (int)symx_param("d", 64); FHTRotator rot(d, 7); QGScanner sc(d, DEG); RowMatrix<float> x(2, d), c(1, d); int p = (d <= 256 ? symx_pick(0, 7, "position") : symx_pick(0, 1, "position") * 7) * (d / 8) + 5; bool up = symx_pick(0, 1, "up"); for (int k = 0; k < d; k++) { c(0, k) = (float)(k % 7) - 3; int pat = (k * 5 / 3 + k / 16) % 2; bool s0 = k == p ? up : pat, s1 = k == p ? !up : true; x(0, k) = c(0, k) + (s0 ? 2.0f : -2.0f); x(1, k) = c(0, k) + (s1 ? 1.0f : -1.0f); }
    RowMatrix<float> x0 = x; std::vector<uint8_t> code(d * 4, 0); std::vector<float> fac(3 * DEG, 0); rabitq_codes(x, c, code.data(), fac.data(), fac.data() + DEG, fac.data() + 2 * DEG); std::vector<float> want(d), q(d); int hi = symx_pick(0, 1, "top") ? 63 : 32; for (int k = 0; k < d; k++) want[k] = k == 0 ? 0 : k == p ? (float)hi : k % 11 == 3 ? 63 : (float)(k * 7 % 64); bool zero = symx_pick(0, 1, "zero"); if (zero) std::fill(want.begin(), want.end(), 0);
    { std::vector<float> t = want; for (size_t h = 1; h < (size_t)d; h <<= 1) for (int b = 0; b < d; b += 2 * h) for (int o = b; o < b + (int)h; o++) { float u = t[o], v = t[o + h]; t[o] = u + v; t[o + h] = u - v; } std::vector<float> one(d, 0), got(d); for (int k = 0; k < d; k++) q[k] = t[k]; std::vector<float> e(d, 1), re(d); rot.rotate(e.data(), re.data()); for (size_t h = 1; h < (size_t)d; h <<= 1) for (int b = 0; b < d; b += 2 * h) for (int o = b; o < b + (int)h; o++) { float u = re[o], v = re[o + h]; re[o] = u + v; re[o + h] = u - v; } float sc2 = 1 / std::sqrt((float)d); for (int k = 0; k < d; k++) q[k] = t[k] * sc2 * (re[k] > 0 ? 1.0f : -1.0f); }
    QGQuery qq(q.data(), d); qq.query_prepare(rot, sc); float y = 0; for (int k = 0; k < d; k++) y += (want[k] - c(0, k)) * (want[k] - c(0, k)); std::vector<float> est(DEG, 0); sc.scan_neighbors(est.data(), qq.lut().data(), y, qq.lower_val(), qq.width(), 0, qq.sumq(), code.data(), fac.data()); for (int i = 0; i < 2; i++) { float t = 0, lo = 0, up1 = 0; for (int k = 0; k < d; k++) { float e = x0(i, k) - c(0, k), w = want[k]; t += (w - x0(i, k)) * (w - x0(i, k)); if (!zero) (e > 0 ? lo : up1) += 2 * e; } symx_check(est[i] >= t - lo - 1e-4f * t - 0.5f && est[i] <= t - up1 + 1e-4f * t + 0.5f, "an estimate follows its formula"); } symx_reach("coded"); }
}
