/* vl/rodrigues.c */
#include "vf.h"
#include <vl/rodrigues.h>
static double w[3], R[9], dR[27], dw[27];
static void omega(void) { int i, m = vf_rnd(9); double t, s = 0; static const double h[] = {1, 0.5, 0.25, 1.5, 2, 1.0 / 3};
  for (i = 0; i < 3; ++i) { w[i] = m < 3 ? vf_range(-3, 3) : 2 * vf_unit() - 1; s += w[i] * w[i]; }
  t = m == 0 ? M_PI * h[vf_rnd(6)] : m == 1 ? 0 : m == 2 ? M_PI * vf_unit() : m == 3 ? pow(10, -1 - 8 * vf_unit()) : m == 4 ? M_PI * (1 + (vf_rnd(2) ? 1 : -1) * pow(10, -1 - 8 * vf_unit())) : m == 5 ? 20 * vf_unit() : M_PI * vf_unit();
  if (s == 0) { w[vf_rnd(3)] = 1; s = 1; } for (i = 0; i < 3; ++i) w[i] *= t / sqrt(s); }
static void exps(void) { int d = vf_rnd(4) != 0; omega(); vf_call("rodrigues %g %g %g", w[0], w[1], w[2]); memset(R, 0x55, sizeof R); memset(dR, 0x55, sizeof dR); vl_rodrigues(R, d ? dR : 0, w);
  vf_begin("Exp"); VF_REALS("w", 3, w[i_]); VF_REALS("m", 9, R[i_]); vf_bool("d", d); VF_REALS("dm", d ? 27 : 0, dR[i_]); vf_end(); }
static void mul(double *C, double const *A, double const *B) { int i, j, k; double t[9]; for (i = 0; i < 3; ++i) for (j = 0; j < 3; ++j) { t[i + 3 * j] = 0; for (k = 0; k < 3; ++k) t[i + 3 * j] += A[i + 3 * k] * B[k + 3 * j]; } memcpy(C, t, sizeof t); }
static void rot(double *M, double const *v) { /* our own */ double t = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]), s = t < 1e-9 ? 1 : sin(t) / t, c = t < 1e-9 ? .5 : 2 * pow(sin(t / 2) / t, 2), q = t * t; int i, j; double H[9] = {0, v[2], -v[1], -v[2], 0, v[0], v[1], -v[0], 0};
  for (i = 0; i < 3; ++i) for (j = 0; j < 3; ++j) M[i + 3 * j] = (i == j) * (1 - c * q) + s * H[i + 3 * j] + c * v[i] * v[j]; }
static void log1(void) { int d = vf_rnd(4) != 0; vf_call("irodrigues"); memset(w, 0x55, sizeof w); memset(dw, 0x55, sizeof dw); vl_irodrigues(w, d ? dw : 0, R);
  vf_begin("Log"); VF_REALS("m", 9, R[i_]); VF_REALS("w", 3, w[i_]); vf_bool("d", d); VF_REALS("dw", d ? 27 : 0, dw[i_]); vf_end(); }
static void logs(void) { int m = vf_rnd(5), i, j; double B[9];
  if (m == 0) { double n[3], q; for (q = 0; q == 0;) for (i = 0; i < 3; ++i) { n[i] = vf_range(-3, 3); q += n[i] * n[i]; } for (i = 0; i < 3; ++i) for (j = 0; j < 3; ++j) R[i + 3 * j] = 2 * n[i] * n[j] / q - (i == j); } /* half turns */
  else if (m == 1) { omega(); rot(R, w); omega(); rot(B, w); mul(R, R, B); }
  else if (m == 2) { omega(); rot(R, w); for (i = 0; i < 3; ++i) w[i] = -w[i] ; rot(B, w); mul(R, B, R); } /* the identity, rounded */
  else { omega(); vl_rodrigues(R, 0, w); }
  log1(); }
static void quarter(void) { int p[3], i, j, s, k; for (p[0] = 0; p[0] < 3; ++p[0]) for (p[1] = 0; p[1] < 3; ++p[1]) for (s = 0; s < 8; ++s) { double det; p[2] = 3 - p[0] - p[1]; if (p[1] == p[0]) continue; for (i = 0; i < 9; ++i) R[i] = 0; for (j = 0; j < 3; ++j) R[p[j] + 3 * j] = (s >> j) & 1 ? -1 : 1;
    det = R[0] * (R[4] * R[8] - R[5] * R[7]) - R[3] * (R[1] * R[8] - R[2] * R[7]) + R[6] * (R[1] * R[5] - R[2] * R[4]); if (det < 0) continue; for (k = 0; k < 2; ++k) log1(); } }
int main(int argc, char **argv) { int t; vf_init(argc, argv); vf_open("rot"); quarter(); for (t = 0; t < (vf_thorough ? 12000 : 1200); ++t) exps(); for (t = 0; t < (vf_thorough ? 12000 : 1800); ++t) logs(); return 0; }
