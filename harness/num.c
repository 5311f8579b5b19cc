/* scalar numeric kernels */
#include "vf.h"
#include <vl/generic.h>
#include <vl/mathop.h>
#define MANY(k, n, CALL) do { long i_; vf_key(k); VF_LIT("["); for (i_ = 0; i_ < (n); ++i_) { if (i_) VF_LIT(","); CALL; } VF_LIT("]"); } while (0)
static double X[4096], Y[4096]; static uint64_t U[4096];
static void fn1(const char *name, int type, int n, double (*g)(double)) { static double r[4096]; int i; vf_call("%s on %d values", name, n); for (i = 0; i < n; ++i) { snprintf(vf_where, sizeof vf_where, "%s(%.17g)", name, X[i]); r[i] = g(X[i]); }
  vf_begin("Fn"); vf_str("f", name); vf_int("type", type); MANY("x", n, vf_num(X[i_])); MANY("r", n, vf_num(r[i_])); vf_end(); }
#define W(n, T) static double n##_w(double x) { return (double)vl_##n((T)x); }
W(floor_f, float) W(floor_d, double) W(ceil_f, float) W(ceil_d, double) W(round_f, float) W(round_d, double) W(abs_f, float) W(abs_d, double) W(log2_f, float) W(log2_d, double) W(sqrt_f, float) W(sqrt_d, double)
W(mod_2pi_f, float) W(mod_2pi_d, double) W(fast_resqrt_f, float) W(fast_resqrt_d, double) W(fast_sqrt_f, float) W(fast_sqrt_d, float)
static double isn_f(double x) { return vl_is_nan_f((float)x) != 0; } static double isn_d(double x) { return vl_is_nan_d(x) != 0; } static double isi_f(double x) { return vl_is_inf_f((float)x) != 0; } static double isi_d(double x) { return vl_is_inf_d(x) != 0; }
static int fill(int kind, int k) { int i, n = 200; for (i = 0; i < n; ++i) { double v;
    switch (kind) { case 0: /* rounding */ v = k == 0 ? (i - 100) * 0.25 : k == 1 ? vf_range(-40000, 40000) / 8.0 : k == 2 ? vf_range(-5, 5) + 0.5 + vf_range(-2, 2) * ldexp(1, -20) : (double)vf_range(-4000000, 4000000) * 2; break;
      case 1: /* positive */ v = k == 0 ? (i + 1) / 16.0 : k == 1 ? ldexp(1 + vf_unit(), vf_range(-30, 60)) : k == 2 ? ldexp(1, i - 100) : (vf_rnd(1000000) + 1) * 1e-3; break;
      case 2: /* angles */ v = k == 0 ? (i - 100) * 0.0625 : k == 1 ? (i - 100) * (VL_PI / 16) : k == 2 ? (vf_unit() - .5) * 200 : (i / 10 - 10) * 2 * VL_PI + (i % 10 - 5) * 1e-6; break;
      default: v = i % 7 == 0 ? NAN : i % 7 == 1 ? INFINITY : i % 7 == 2 ? -INFINITY : i % 7 == 3 ? 0 : i % 7 == 4 ? vf_range(-9, 9) : ldexp(1, vf_range(-120, 120)); }
    X[i] = (float)v; } return n; }
static void atan2s(int type, int n) { static double r[4096]; int i; for (i = 0; i < n; ++i) { snprintf(vf_where, sizeof vf_where, "fast_atan2(%g,%g)", Y[i], X[i]); r[i] = type ? vl_fast_atan2_d(Y[i], X[i]) : vl_fast_atan2_f((float)Y[i], (float)X[i]); }
  vf_begin("Atan2"); vf_int("type", type); MANY("x", n, vf_num(X[i_])); MANY("y", n, vf_num(Y[i_])); MANY("r", n, vf_num(r[i_])); vf_end(); }
static void isq(int bits, int n) { static uint64_t r[4096]; int i; vf_call("fast_sqrt_ui%d", bits); for (i = 0; i < n; ++i) { snprintf(vf_where, sizeof vf_where, "fast_sqrt_ui%d(%llu)", bits, (unsigned long long)U[i]); r[i] = bits == 8 ? vl_fast_sqrt_ui8(U[i]) : bits == 16 ? vl_fast_sqrt_ui16(U[i]) : bits == 32 ? vl_fast_sqrt_ui32(U[i]) : vl_fast_sqrt_ui64(U[i]); }
  vf_begin(bits > 16 ? "SqrtBig" : "Sqrt"); vf_int("bits", bits); if (bits > 16) { MANY("x", n, vf_big(U[i_])); MANY("r", n, vf_big(r[i_])); } else { VF_SEQ("x", n, U[i_]); VF_SEQ("r", n, r[i_]); } vf_end(); }
static void mat(const char *k, double *a, int n, int m) { int i, j; vf_key(k); VF_LIT("["); for (i = 0; i < n; ++i) { vf_put(i ? ",[" : "[", i ? 2 : 1); for (j = 0; j < m; ++j) { if (j) VF_LIT(","); vf_num(a[i + j * n]); } VF_LIT("]"); } VF_LIT("]"); }
static void solve(void) { double A[64], B[64], M[64]; int n = vf_range(1, 4), m = n + vf_range(0, 3), i, j, e, which = vf_rnd(3), hi = vf_rnd(3) ? 4 : 1, real = vf_rnd(2); double x[4];
  if (which && n == 1) n = 3; if (which && n == 4) n = 2; if (which) m = n + 1;
  for (i = 0; i < n * n; ++i) A[i] = vf_rnd(4) ? vf_range(-hi, hi) : 0; for (i = 0; i < n * (m - n); ++i) B[i] = vf_range(-9, 9);
  if (vf_rnd(4) == 0 && n > 1) { int a = vf_rnd(n), b = vf_rnd(n); for (j = 0; j < n; ++j) A[a + j * n] = a == b ? A[a + j * n] : 2 * A[b + j * n]; }
  if (real) for (i = 0; i < n * n; ++i) if (A[i] == 0 || vf_rnd(4) == 0) A[i] += (vf_rnd(2) ? 1 : -1) * pow(10, -5 - vf_unit() * 10);
  memcpy(M, A, sizeof(double) * n * n); memcpy(M + n * n, B, sizeof(double) * n * (m - n));
  vf_call("linear system %d x %d", n, m);
  if (which == 0) e = vl_gaussian_elimination(M, n, m); else { double A0[9], B0[3]; memcpy(A0, A, sizeof(double) * n * n); memcpy(B0, B, sizeof(double) * n); e = n == 3 ? vl_solve_linear_system_3(x, A0, B0) : vl_solve_linear_system_2(x, A0, B0); for (i = 0; i < n; ++i) M[n * n + i] = x[i]; if (memcmp(A0, A, sizeof(double) * n * n) || memcmp(B0, B, sizeof(double) * n)) e = -77; }
  vf_begin("Solve"); vf_int("n", n); vf_int("which", which); VF_SEQ("a", n * n, (long)floor(A[i_] + .5)); if (real) { mat("A", A, n, n); } mat("b", B, n, m - n); mat("x", M + n * n, n, m - n); vf_int("err", e); vf_bool("real", real); vf_end(); }
static void svd(int t) { double M[4], S[4], U2[4], V[4]; int i; for (i = 0; i < 4; ++i) M[i] = t % 4 == 0 ? vf_range(-3, 3) : t % 4 == 1 ? vf_range(-1, 1) : t % 4 == 2 ? (vf_unit() - .5) * ldexp(1, vf_range(-60, 20)) : vf_range(-3, 3) * ldexp(1, (i < 2 ? -1 : 1) * (t % 64));
  if (t < 625) { int x = t; for (i = 0; i < 4; ++i) { M[i] = x % 5 - 2; x /= 5; } }
  for (i = 0; i < 4; ++i) S[i] = U2[i] = V[i] = 5; vf_call("svd2 [%.17g %.17g; %.17g %.17g]", M[0], M[2], M[1], M[3]); vl_svd2(S, U2, V, M);
  vf_begin("Svd"); VF_REALS("m", 4, M[i_]); VF_REALS("s", 4, S[i_]); VF_REALS("u", 4, U2[i_]); VF_REALS("v", 4, V[i_]); vf_end(); }
int main(int argc, char **argv) { int i, j, k, n, t; vf_init(argc, argv); vf_open("num");
  for (k = 0; k < 4 * (vf_thorough ? 10 : 1); ++k) { int K = k % 4; n = fill(0, K); fn1("floor", 0, n, floor_f_w); fn1("floor", 1, n, floor_d_w); fn1("ceil", 0, n, ceil_f_w); fn1("ceil", 1, n, ceil_d_w); fn1("round", 0, n, round_f_w); fn1("round", 1, n, round_d_w); fn1("abs", 0, n, abs_f_w); fn1("abs", 1, n, abs_d_w);
    n = fill(1, K); fn1("log2", 0, n, log2_f_w); fn1("log2", 1, n, log2_d_w); fn1("sqrt", 0, n, sqrt_f_w); fn1("sqrt", 1, n, sqrt_d_w); fn1("resqrt", 0, n, fast_resqrt_f_w); fn1("resqrt", 1, n, fast_resqrt_d_w); for (i = 0; i < 20; ++i) X[i] = (float)ldexp(i, -30); fn1("fsqrt", 0, n, fast_sqrt_f_w); fn1("fsqrt", 1, n, fast_sqrt_d_w);
    n = fill(2, K); fn1("mod2pi", 0, n, mod_2pi_f_w); fn1("mod2pi", 1, n, mod_2pi_d_w);
    n = fill(3, K); fn1("isnan", 0, n, isn_f); fn1("isnan", 1, n, isn_d); fn1("isinf", 0, n, isi_f); fn1("isinf", 1, n, isi_d); }
  for (t = 0; t < 2; ++t) { for (k = 0, i = -20; i <= 20; ++i) for (j = -20; j <= 20; ++j) if (i || j) { X[k] = i; Y[k++] = j; } atan2s(t, k); for (k = 0; k < 1000; ++k) { double a = k * 2 * VL_PI / 1000 + 1e-4, r = ldexp(1, vf_range(-3, 12)); X[k] = (float)(r * cos(a)); Y[k] = (float)(r * sin(a)); } atan2s(t, k); }
  for (i = 0; i < 256; ++i) U[i] = i; isq(8, 256); for (j = 0; j < 64; ++j) { for (i = 0; i < 1024; ++i) U[i] = j * 1024 + i; isq(16, 1024); }
  for (t = 0; t < 2; ++t) { int bits = t ? 64 : 32; uint64_t max = t ? ~0ULL : 0xffffffffULL; for (k = 0; k < (vf_thorough ? 40 : 4); ++k) { for (i = 0; i < 1000; ++i) { uint64_t y = vf_rnd64() >> (64 - bits / 2 + vf_rnd(bits / 2)), x; switch (vf_rnd(6)) { case 0: x = y * y; break; case 1: x = y * y - 1; break; case 2: x = y * y + 2 * y; break; case 3: x = max - vf_rnd(5); break; case 4: x = (1ULL << vf_rnd(bits)) - vf_rnd(2); break; default: x = vf_rnd64() >> vf_rnd(64); } U[i] = x & max; } isq(bits, 1000); } }
  for (i = 0; i < (vf_thorough ? 10000 : 1500); ++i) solve();
  for (i = 0; i < (vf_thorough ? 8000 : 1400); ++i) svd(i);
  return 0; }
