/* vector comparisons on every dimension, alignment and processor setting */
#include "vf.h"
#include <vl/generic.h>
#include <vl/mathop.h>
static const char *names[] = {"l1", "l2", "chi2", "hellinger", "js", "maha", "kl1", "kl2", "kchi2", "khellinger", "kjs"};
static float bf[3][256] __attribute__((aligned(64))); static double bd[3][256] __attribute__((aligned(64)));
static double val[3][256];
static void setsimd(int m) { vl_set_simd_enabled(m); }
static int nn(int t) { return t == 2 || t == 3 || t == 4 || t == 8 || t == 9 || t == 10; }
static double draw(int style, int t) { double v;
  switch (style) { case 0: v = vf_range(0, 9); break; case 1: v = vf_rnd(3) ? 0 : vf_range(1, 5); break; case 2: v = (float)(vf_range(0, 4095) / 512.0); break;
    case 3: v = ldexp(vf_range(0, 15), vf_range(-12, 12)); break; case 4: v = vf_range(1, 3) * 0.25; break; default: v = ldexp((double)vf_range(1, 1 << 20), -20); }
  if (!nn(t) && vf_rnd(2)) v = -v; return v; }
static void cmp(int t, int n, int type, int simd, int oa, int ob, int oc, int style) { int i, j, o[3]; double r; o[0] = oa; o[1] = ob; o[2] = oc;
  for (i = 0; i < 3; ++i) { for (j = 0; j < 256; ++j) { bf[i][j] = NAN; bd[i][j] = NAN; } for (j = 0; j < n; ++j) { val[i][j] = draw(style, t); if (i == 2) val[i][j] = fabs(val[i][j]); if (i == 1 && vf_rnd(5) == 0) val[1][j] = val[0][j]; bf[i][16 + o[i] + j] = val[i][j]; bd[i][16 + o[i] + j] = val[i][j]; } }
  setsimd(simd); vf_call("vector comparison %s dimension %d type %d simd %d offsets %d %d %d", names[t], n, type, simd, oa, ob, oc);
  if (t == VlDistanceMahalanobis) r = type ? vl_get_vector_3_comparison_function_d(t)(n, bd[0] + 16 + oa, bd[1] + 16 + ob, bd[2] + 16 + oc) : vl_get_vector_3_comparison_function_f(t)(n, bf[0] + 16 + oa, bf[1] + 16 + ob, bf[2] + 16 + oc);
  else r = type ? vl_get_vector_comparison_function_d(t)(n, bd[0] + 16 + oa, bd[1] + 16 + ob) : vl_get_vector_comparison_function_f(t)(n, bf[0] + 16 + oa, bf[1] + 16 + ob);
  vf_begin("Cmp"); vf_str("t", names[t]); vf_int("type", type); vf_bool("simd", simd); vf_int("align", oa * 100 + ob * 10 + oc); VF_REALS("x", n, val[0][i_]); VF_REALS("y", n, val[1][i_]); VF_REALS("z", t == VlDistanceMahalanobis ? n : 0, val[2][i_]); vf_real("r", r); vf_end(); }
static float rf[1200]; static double rd[1200];
static void vecs(const char *k, double *v, int n, int m) { int i, j; vf_key(k); vf_put("[", 1); for (i = 0; i < m; ++i) { vf_put(i ? ",[" : "[", i ? 2 : 1); for (j = 0; j < n; ++j) { if (j) vf_put(",", 1); vf_num(v[i * n + j]); } vf_put("]", 1); } vf_put("]", 1); }
static void pairs(void) { int t, n = vf_range(1, 6), m = vf_range(1, 6), k = vf_range(1, 6), self = vf_rnd(2), type = vf_rnd(2), simd = vf_rnd(2), i, cnt; static double X[64], Y[64]; static float fX[64], fY[64];
  do t = vf_rnd(11); while (t == VlDistanceMahalanobis);
  for (i = 0; i < n * m; ++i) { X[i] = draw(i % 3, t); fX[i] = X[i]; } for (i = 0; i < n * k; ++i) { Y[i] = draw(0, t); fY[i] = Y[i]; } for (i = 0; i < 1200; ++i) { rf[i] = rd[i] = 77777; }
  setsimd(simd); vf_call("all pairs %s %d x %d dimension %d", names[t], m, self ? -1 : k, n);
  if (type) vl_eval_vector_comparison_on_all_pairs_d(rd, n, X, m, self ? 0 : Y, self ? 0 : k, vl_get_vector_comparison_function_d(t)); else vl_eval_vector_comparison_on_all_pairs_f(rf, n, fX, m, self ? 0 : fY, self ? 0 : k, vl_get_vector_comparison_function_f(t));
  for (cnt = 0, i = 0; i < 1200; ++i) if ((type ? rd[i] : rf[i]) != 77777) cnt = i + 1;
  vf_begin("Pairs"); vf_str("t", names[t]); vf_int("type", type); vf_bool("self", self); vecs("xs", X, n, m); vecs("ys", self ? X : Y, n, self ? m : k); VF_REALS("r", cnt, type ? rd[i_] : rf[i_]); vf_end(); }
int main(int argc, char **argv) { int t, n, type, i, a; vf_init(argc, argv); vf_open("vec");
  for (t = 0; t < 11; ++t) for (type = 0; type < 2; ++type) for (n = 0; n <= (vf_thorough ? 67 : 35); ++n) { i = t + n + type;
    cmp(t, n, type, 1, 0, 0, 0, i % 6); cmp(t, n, type, 1, vf_rnd(8), vf_rnd(8), vf_rnd(8), (i + 1) % 6); cmp(t, n, type, 1, 4 * vf_rnd(2), 4 * vf_rnd(2), 4 * vf_rnd(2), (i + 4) % 6); if (n % 3 == 0) cmp(t, n, type, 0, vf_rnd(8), 0, 0, (i + 2) % 6);
    if (vf_thorough) for (a = 0; a < 40; ++a) cmp(t, n, type, a % 4 != 0, vf_rnd(8), vf_rnd(8), vf_rnd(8), a % 6); }
  for (i = 0; i < (vf_thorough ? 3000 : 400); ++i) pairs();
  return 0; }
