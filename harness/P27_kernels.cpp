//@property P27
//@cxx -mavx2 -mfma
//@case l2-generic mode=0 ip=0 lvl=0 dims=70 reach=done
//@case l2-avx2 mode=0 ip=0 lvl=2 dims=140 reach=done
//@case l2-avx512 mode=0 ip=0 lvl=3 dims=200 reach=done
//@case l2-env mode=0 ip=0 lvl=4 dims=70 reach=done
//@case ip-generic mode=0 ip=1 lvl=0 dims=70 reach=done
//@case ip-avx2 mode=0 ip=1 lvl=2 dims=140 reach=done
//@case ip-avx512 mode=0 ip=1 lvl=3 dims=200 reach=done
//@case sq8-a mode=1 dims=50 lv=0 reach=done
//@case sq8-b mode=1 dims=50 lv=2 reach=done
//@case sq8-c mode=1 dims=50 lv=4 reach=done
//@case sq4 mode=2 dims=50 reach=done
//@case types mode=3 dims=9 reach=done
//@case fht-6 mode=4 ln=6 reach=done
//@case fht-7 mode=4 ln=7 reach=done
//@case fht-8 mode=4 ln=8 reach=done
//@case fht-9 mode=4 ln=9 reach=done
//@case fht-10 mode=4 ln=10 reach=done
//@case fht-11 mode=4 ln=11 reach=done
//@case scan-acc mode=5 dims=128 reach=done
//@case scan-misc mode=6 dims=40 reach=done
//@case long thorough mode=0 ip=0 lvl=9 dims=300 reach=done
//@case long-ip thorough mode=0 ip=1 lvl=9 dims=300 reach=done
//@case long-sq8 thorough mode=1 dims=130 reach=done
//@case long-sq4 thorough mode=2 dims=130 reach=done
//@bound every dimension up to 70 (and most up to 140 with AVX2 and 200 with AVX-512, 50 quantized, 9 for other element types, 40 and 128 for the scan kernels; thorough 300 and 130), transforms of 64 to 2048 values, and the scalar, AVX2, AVX-512 and compatibility kernels; one position at a time arbitrary, all others contributing nothing, plus fixed patterns over all positions
//@assume the CPU has the instructions its feature bits announce
#include "symx.h"
#include <cstdlib>
#include <cstring>
#include <memory>
#include <vector>
static int LVL, POLICY; // 0 scalar, 1 SSE4.1, 2 AVX2+FMA, 3 AVX-512, 5 AVX2 without FMA, 6 AVX-512F alone
static bool real(const char* n) {
#ifdef SYMX_NATIVE
  if (!strcmp(n, "avx512f")) return __builtin_cpu_supports("avx512f"); if (!strcmp(n, "avx2")) return __builtin_cpu_supports("avx2");
#endif
  return true;
}
static bool has(const char* n) {
  bool r = false; if (!strcmp(n, "avx512f")) r = LVL == 3 || LVL == 6; else if (!strcmp(n, "avx512bw")) r = LVL == 3; else if (!strcmp(n, "avx2")) r = LVL == 2 || LVL == 3 || LVL == 5; else if (!strcmp(n, "fma")) r = LVL == 2 || LVL == 3; else r = LVL != 0; return r; }
namespace std { static char* symx_getenv(const char* n) { static char one[] = "1", a5[] = "avx512", other[] = "10"; if (!strcmp(n, "ALAYA_SIMD_DISTANCE_POLICY")) return POLICY == 1 ? a5 : POLICY == 4 ? other : nullptr; if (!strcmp(n, "ALAYA_FORCE_SCALAR_L2")) return POLICY == 2 ? one : POLICY == 4 ? other : nullptr; if (!strcmp(n, "ALAYA_FORCE_DISKANN_COMPAT_L2")) return POLICY == 3 ? one : POLICY == 4 ? other : nullptr; return nullptr; } }
#define __builtin_cpu_supports(x) has(x)
#define getenv symx_getenv
#include <simd/distance_l2.hpp>
#include <simd/distance_ip.hpp>
#include <simd/fht.hpp>
#include <simd/laser_dispatch.hpp>
using namespace alaya::simd;
template <class T> struct Buf { T* p; Buf(size_t n) : p((T*)malloc(n * sizeof(T))) {} ~Buf() { free(p); } T& operator[](size_t i) { return p[i]; } };
template <class T> static bool same(T a, T b) { return (a == b) | ((a != a) & (b != b)); }
static void level(int lvl) {
  if (lvl == 9) lvl = symx_pick(2, 3, "level"); if (lvl < 4) LVL = lvl; else { static const int L[] = {1, 5, 6, 3, 2, 2, 2}, P[] = {0, 0, 0, 0, 2, 3, 4}; int i = symx_pick(0, 6, "env"); LVL = L[i]; POLICY = P[i]; } if (lvl == 3) POLICY = 1;
  if (((LVL == 3 || LVL == 6) && !real("avx512f")) || (LVL >= 2 && !real("avx2"))) symx_end_path();
}
extern "C" void symx_main() {
  int mode = (int)symx_param("mode", 0), dims = (int)symx_param("dims", 40);
  if (mode == 0) {
    bool ip = symx_param("ip", 0); level((int)symx_param("lvl", 0)); int d = symx_pick(0, dims, "dim"); if (dims > 100 && d > 80 && d % 16 > 2 && d % 16 < 14) symx_end_path(); Buf<float> x(d), y(d); float a = symx_f32("a"), b = symx_f32("b");
    auto rest = [&](int i) { if (ip) { x[i] = i % 3 ? 0.0f : 3.5f + i; y[i] = i % 3 ? 7.25f - i : 0.0f; } else x[i] = y[i] = 3.25f * (i % 11) - 9; }; for (int i = 0; i < d; i++) rest(i);
    auto f = [&] { return ip ? ip_sqr<float, float>(x.p, y.p, d) : l2_sqr<float, float>(x.p, y.p, d); }; symx_check(f() == 0, "positions that contribute nothing add nothing");
    for (int k = 0; k < d; k++) { x[k] = a; y[k] = b; float r = f(), w = ip ? -(a * b) : (a - b) * (a - b); symx_check(same(r, w), "one differing position contributes exactly its share"); rest(k); }
    double sum = 0; for (int i = 0; i < d; i++) { x[i] = (float)(i % 7) - 2; y[i] = (float)(i % 5) - 3; double t = ip ? -(double)x[i] * y[i] : ((double)x[i] - y[i]) * ((double)x[i] - y[i]); sum += t; } symx_check(f() == (float)sum, "all positions are added up"); symx_reach("done");
  } else if (mode == 1 || mode == 2) {
    static const int L[] = {0, 1, 2, 3, 5, 6}; int lv = (int)symx_param("lv", -1); LVL = L[lv < 0 ? symx_pick(0, 5, "level") : symx_pick(lv, lv + 1, "level")]; if (((LVL == 3 || LVL == 6) && !real("avx512f")) || (LVL >= 2 && !real("avx2"))) symx_end_path();
    int d = symx_pick(0, dims, "dim"); if (dims > 100 && d > 50 && d % 16 > 2 && d % 16 < 14) symx_end_path(); bool four = mode == 2; size_t nb = four ? (d + 1) / 2 : d; Buf<uint8_t> x(nb), y(nb); Buf<float> lo(d), hi(d); uint8_t a = symx_u8("a"), b = symx_u8("b"); if (four) { a &= 15; b &= 15; } float m; const float full = four ? 15.0f : 255.0f;
    auto put = [&](Buf<uint8_t>& v, int i, uint8_t c) { if (!four) v[i] = c; else if (i & 1) v[i / 2] = (v[i / 2] & 15) | (c << 4); else v[i / 2] = (v[i / 2] & 0xF0) | c; };
    for (size_t i = 0; i < nb; i++) { x[i] = 0; y[i] = 0; } if (four && d % 2) { x[nb - 1] = 0xF0; y[nb - 1] = 0x30; }
    for (int ip = 0; ip < 2; ip++) {
      auto rest = [&](int i) { if (ip) { put(x, i, 0); put(y, i, 1 + i % 13); lo[i] = 0; hi[i] = 3 * full + i; } else { put(x, i, i % 14); put(y, i, i % 14); lo[i] = -2 * (float)i; hi[i] = 7 * full; } }; for (int i = 0; i < d; i++) rest(i);
      auto f = [&] { return four ? ip ? ip_sqr_sq4<float, float>(x.p, y.p, d, lo.p, hi.p) : l2_sqr_sq4<float, float>(x.p, y.p, d, lo.p, hi.p) : ip ? ip_sqr_sq8<float, float>(x.p, y.p, d, lo.p, hi.p) : l2_sqr_sq8<float, float>(x.p, y.p, d, lo.p, hi.p); }; symx_check(f() == 0, "positions that contribute nothing add nothing");
      float fa = (float)a, fb = (float)b;
      for (int k = 0; k < d; k++) { put(x, k, a); put(y, k, b);
        if (!ip) { lo[k] = 0.5f; hi[k] = full + 0.5f; symx_check(same(f(), (fa - fb) * (fa - fb)), "codes one apart are one step apart"); }
        else { lo[k] = 0; hi[k] = full; symx_check(same(f(), -(fa * fb)), "codes stand for their multiple of the step"); lo[k] = -3; hi[k] = full - 3; symx_check(same(f(), -((fa + -3) * (fb + -3))), "codes count from the lower end of the range"); lo[k] = hi[k] = m = k % 2 ? -7.5f : 3; symx_check(same(f(), -(m * m)), "an empty range stands for its value"); }
        rest(k); } }
    // all positions at once with a step of one
    double l2 = 0, ipr = 0; for (int i = 0; i < d; i++) { put(x, i, (i * 7) % 16); put(y, i, (i * 5 + 3) % 16); lo[i] = (float)(i % 3); hi[i] = lo[i] + full; double u = (i * 7) % 16, v = (i * 5 + 3) % 16; l2 += (u - v) * (u - v); ipr -= (u + i % 3) * (v + i % 3); }
    symx_check((four ? l2_sqr_sq4<float, float>(x.p, y.p, d, lo.p, hi.p) : l2_sqr_sq8<float, float>(x.p, y.p, d, lo.p, hi.p)) == (float)l2 && (four ? ip_sqr_sq4<float, float>(x.p, y.p, d, lo.p, hi.p) : ip_sqr_sq8<float, float>(x.p, y.p, d, lo.p, hi.p)) == (float)ipr, "all positions are added up"); symx_reach("done");
  } else if (mode == 4) { // Hadamard transform: one arbitrary value at one position
    static const int L[] = {0, 2, 3}; LVL = L[symx_pick(0, 2, "level")]; if ((LVL == 3 && !real("avx512f")) || (LVL >= 2 && !real("avx2"))) symx_end_path();
    int ln = (int)symx_param("ln", 6), n = 1 << ln; Buf<float> x(n); uint32_t m = symx_u32("mantissa"); uint32_t bits = 0x3f800000u | (m & 0x7fffffu); float v, nv; memcpy(&v, &bits, 4); bits |= 0x80000000u; memcpy(&nv, &bits, 4);
    int b = symx_pick(0, ln, "block"); // positions: a few of every power-of-two block
    int lo = b ? 1 << (b - 1) : 0, hi = 1 << b; std::vector<int> ks; for (int k = lo; k < hi && k < lo + 2; k++) ks.push_back(k); if (hi - 1 > lo + 1) ks.push_back(hi - 1); if (hi - lo > 8) ks.push_back(lo + (hi - lo) * 5 / 8 - 1);
    for (int k : ks) { for (int i = 0; i < n; i++) x[i] = 0; x[k] = v; symx_check(fht_float(x.p, ln) == 0, "known sizes are accepted"); bool ok = true; for (int j = 0; j < n; j++) ok &= x[j] == (__builtin_parity(j & k) ? nv : v); symx_check(ok, "the transform is the Hadamard matrix"); }
    for (int i = 0; i < n; i++) x[i] = (float)((i * 37) % 17 - 8); std::vector<double> w(n); for (int i = 0; i < n; i++) w[i] = x[i]; for (int h = 1; h < n; h *= 2) for (int i = 0; i < n; i += 2 * h) for (int j = i; j < i + h; j++) { double p = w[j], q = w[j + h]; w[j] = p + q; w[j + h] = p - q; }
    symx_check(fht_float(x.p, ln) == 0, "known sizes are accepted"); bool ok = true; for (int i = 0; i < n; i++) ok &= x[i] == (float)w[i]; symx_check(ok, "all positions enter the transform"); int bad = symx_pick(0, 5, "size"); symx_check(fht_float(x.p, bad) != 0 && fht_float(x.p, 12 + bad) != 0, "other sizes are refused"); symx_reach("done");
  } else if (mode == 5) { // sums of table entries picked by packed 4-bit codes, 32 rows at a time
    namespace L = alaya::laser::simd; LVL = symx_pick(2, 3, "level"); if ((LVL == 3 && !real("avx512f")) || !real("avx2")) symx_end_path(); static const int order[16] = {0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15};
    int d = 16 * symx_pick(1, dims / 16, "dim16"), nc = d / 4; Buf<uint8_t> codes(nc * 16), lut(nc * 16); for (int i = 0; i < nc * 16; i++) { codes[i] = (uint8_t)(i * 37 + i / 16 * 11 + 5); lut[i] = (uint8_t)(255 - (i * 29 + i / 5) % 256); }
    auto f = L::get_accumulate_func(); uint8_t v = symx_u8("v");
    auto run = [&](const char* what) { alignas(64) uint16_t r[32], w[32]; for (auto& x : w) x = 0; f(d, codes.p, lut.p, r); for (int c = 0; c < nc; c++) for (int l = 0; l < 16; l++) { uint8_t b = codes[c * 16 + l]; uint8_t *t = lut.p + c * 16; uint8_t lo = 0, hi = 0; if (!symx_is_symbolic(b)) { lo = t[b & 15]; hi = t[b >> 4]; } else for (int e = 0; e < 16; e++) { lo |= t[e] & -(int)((b & 15) == e); hi |= t[e] & -(int)(b >> 4 == e); } w[order[l]] += lo; w[order[l] + 16] += hi; } bool ok = true; for (int i = 0; i < 32; i++) ok &= r[i] == w[i]; symx_check(ok, what); };
    run("the table entries of all codes are added up"); int c = symx_pick(0, nc - 1, "codebook"); if (d > 64 && c % 8 != 3) symx_end_path(); for (int i = 0; i < nc * 16; i++) lut[i] = 0; for (int e = 0; e < 16; e++) { lut[c * 16 + e] = v; run("each table entry counts where its code occurs"); lut[c * 16 + e] = 0; } for (int e = 0; e < 16; e++) lut[c * 16 + e] = (uint8_t)(e * 17 + 1); for (int e = 0; e < 16; e++) { uint8_t old = codes[c * 16 + e]; codes[c * 16 + e] = v; run("each code picks its entry for its two rows"); codes[c * 16 + e] = old; } symx_reach("done");
  } else if (mode == 6) {
    namespace L = alaya::laser::simd; LVL = symx_pick(2, 3, "level"); if ((LVL == 3 && !real("avx512f")) || !real("avx2")) symx_end_path(); int d = symx_pick(0, dims, "dim"); float a = symx_f32("a"), b = symx_f32("b"); symx_assume(a == a); uint16_t u = symx_u16("u"); int32_t sq = (int32_t)symx_u32("sum"); symx_assume(sq > -1000000 && sq < 1000000);
    { Buf<uint16_t> r(d); Buf<float> o(d); for (int i = 0; i < d; i++) r[i] = (uint16_t)(65535 - i * 3); auto f = L::get_convert_func(); for (int k = 0; k < d; k++) { uint16_t old = r[k]; r[k] = u; f(d, r.p, sq, o.p); bool ok = true; for (int i = 0; i < d; i++) ok &= o[i] == (float)(((int)(int16_t)r[i]) * 2 - sq); symx_check(ok, "sums are converted with their sign"); r[k] = old; if (k > 3 && k < d - 3) k += 4; } }
    { Buf<float> x(d), y(d), z(d); for (int i = 0; i < d; i++) { x[i] = 1.5f * i; y[i] = (float)(i % 5) - 2; z[i] = -77; } auto f = L::get_rotate_loop_func(); for (int k = 0; k < d; k++) { x[k] = a; y[k] = b; size_t n = f(x.p, y.p, d, z.p); bool ok = n <= (size_t)d; for (int i = 0; i < d; i++) ok &= same(z[i], (size_t)i < n ? x[i] * y[i] : -77.0f); symx_check(ok, "the leading part is multiplied position by position and the rest left alone"); symx_check((size_t)d - n < 16, "at most an incomplete block is left over"); x[k] = 1; y[k] = 2; if (k > 3 && k < d - 3) k += 4; } }
    { Buf<float> x(d); for (int i = 0; i < d; i++) x[i] = 2; auto f = L::get_data_range_func(); float lo = 5, hi = 5; if (!d) { f(x.p, 0, lo, hi); symx_check(lo == 0 && hi == 0, "no values have an empty range"); } for (int k = 0; k < d; k++) if ((d < 10 || (d + 1) % 8 < 3) && (k < 3 || (k + 1) % 8 < 2 || k > d - 3)) { float old = x[k]; x[k] = a; float ml = d > 1 ? 1e30f : a, mh = d > 1 ? -1e30f : a; for (int i = 0; i < d; i++) if (i != k) { ml = x[i] < ml ? x[i] : ml; mh = x[i] > mh ? x[i] : mh; } symx_assume(a > -3e38f && a < 3e38f); f(x.p, d, lo, hi); symx_check((lo == (a < ml ? a : ml)) & (hi == (a > mh ? a : mh)), "the range ends at the smallest and the largest value"); x[k] = old; } for (int k = 0; k < d; k++) { for (int i = 0; i < d; i++) x[i] = (float)((i * 5 + k) % 23 - 11); float ml = 99, mh = -99; for (int i = 0; i < d; i++) { ml = x[i] < ml ? x[i] : ml; mh = x[i] > mh ? x[i] : mh; } f(x.p, d, lo, hi); symx_check(lo == ml && hi == mh, "the range ends at the smallest and the largest value"); } }
    { Buf<float> x(d); for (int i = 0; i < d; i++) x[i] = 0; auto f = L::get_l2_sqr_single_func(); double sum = 0; for (int k = 0; k < d; k++) { x[k] = a; symx_check(same(f(x.p, d), a * a), "each position counts once"); x[k] = 0; } for (int i = 0; i < d; i++) { x[i] = (float)(i % 7) - 3; sum += (double)x[i] * x[i]; } symx_check(f(x.p, d) == (float)sum, "the length is the sum of squares"); }
    { Buf<float> r(d), t(d), q(d), v(d), o(d); auto f = L::get_appro_dist_func(); for (int i = 0; i < d; i++) r[i] = t[i] = q[i] = v[i] = 0; for (int k = 0; k < d; k += k > 3 && k < d - 3 ? 5 : 1) for (int w = 0; w < 4; w++) { auto e = [&] { bool ok = true; for (int i = 0; i < d; i++) ok &= same(o[i], i == k ? a : 0.0f); return ok; }; float *c = w == 0 ? t.p : w == 1 ? q.p : w == 2 ? v.p : r.p; c[k] = a; if (w == 1) r[k] = 1; if (w == 3) q[k] = 1; f(d, 0, 1, 1, 0, r.p, t.p, q.p, v.p, o.p); symx_check(e(), "each factor of a row enters its own estimate only"); r[k] = t[k] = q[k] = v[k] = 0; }
      for (int i = 0; i < d; i++) { r[i] = (float)(i % 9) - 4; t[i] = (float)(i % 5); q[i] = (float)(i % 7) - 3; v[i] = (float)(i % 3) - 1; } f(d, 11, 3, 5, 7, r.p, t.p, q.p, v.p, o.p); bool ok = true; for (int i = 0; i < d; i++) ok &= o[i] == 11 + t[i] + q[i] * 3 * r[i] + v[i] * 5 + 7; symx_check(ok, "estimates follow the formula"); }
    symx_reach("done");
  } else { // other element types
    int d = symx_pick(0, dims, "dim"); Buf<int8_t> x(d), y(d); Buf<uint8_t> u(d), v(d); Buf<double> p(d), q(d); for (int i = 0; i < d; i++) { x[i] = y[i] = (int8_t)(5 - i); u[i] = v[i] = (uint8_t)(250 + i); p[i] = q[i] = i; } int8_t a = (int8_t)symx_u8("a"), b = (int8_t)symx_u8("b");
    for (int k = 0; k < d; k++) { x[k] = a; y[k] = b; u[k] = (uint8_t)a; v[k] = (uint8_t)b; p[k] = a; q[k] = b; float s = (float)a - (float)b, t = (float)(uint8_t)a - (float)(uint8_t)b; double w = (double)a - (double)b; symx_check(same(l2_sqr<int8_t, float>(x.p, y.p, d), s * s), "signed bytes"); symx_check(same(l2_sqr<uint8_t, float>(u.p, v.p, d), t * t), "unsigned bytes"); symx_check(same(l2_sqr<double, double>(p.p, q.p, d), w * w), "doubles"); x[k] = y[k] = 0; u[k] = v[k] = 0; p[k] = q[k] = 0; }
    for (int i = 0; i < d; i++) x[i] = y[i] = 0; for (int i = 0; i < d; i++) u[i] = v[i] = 0; for (int k = 0; k < d; k++) { x[k] = a; y[k] = b; u[k] = (uint8_t)a; v[k] = (uint8_t)b; symx_check(same(ip_sqr<int8_t, float>(x.p, y.p, d), -((float)a * (float)b)), "signed bytes"); symx_check(same(ip_sqr<uint8_t, float>(u.p, v.p, d), -((float)(uint8_t)a * (float)(uint8_t)b)), "unsigned bytes"); x[k] = y[k] = 0; u[k] = v[k] = 0; } symx_reach("done");
  }
}
