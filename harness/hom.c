/* vl/homkermap.c */
#include "vf.h"
#include <vl/homkermap.h>
static char const *kn[] = {"inters", "chi2", "js"}, *wn[] = {"uniform", "rectangular"};
static VlHomogeneousKernelType const kt[] = {VlHomogeneousKernelIntersection, VlHomogeneousKernelChi2, VlHomogeneousKernelJS};
static VlHomogeneousKernelMapWindowType const wt[] = {VlHomogeneousKernelMapWindowUniform, VlHomogeneousKernelMapWindowRectangular};
static double number(int q, int order) { int m = vf_rnd(12), d = 8 + 8 * order; double s = vf_rnd(4) ? 1 : -1, e = vf_range(-20, 7);
  switch (m) { case 0: return 0; case 1: return s * ldexp(1, vf_range(-22, 10)); case 2: return s * ldexp(1 + vf_rnd(d) / (double)d, (int)e); case 3: return s * ldexp(2 - 1e-15, vf_range(-22, 9));
    case 4: return s * ldexp(1 + vf_rnd(d) / (double)d - 1e-12, (int)e); case 5: return s * pow(2, -24 + 36 * vf_unit()); case 6: return q % 3 ? s * vf_unit() : q % 2 ? s * HUGE_VAL : s * 1e300; case 7: return q % 3 ? s : NAN; default: return s * pow(10, -2 + 2 * vf_unit()); } }
int main(int argc, char **argv) {
  int t; vf_init(argc, argv); vf_open("hom");
  for (t = 0; t < (vf_thorough ? 700 : 84); ++t) {
    int k = vf_rnd(3), w = vf_rnd(2), order = t % 7 == 6 ? vf_range(4, 12) : t % 5, n = 12, stride = vf_rnd(3) ? 1 : vf_range(2, 4), single = vf_rnd(3) == 0, q, c, dim = 2 * order + 1, clean = 1;
    double gamma = vf_rnd(3) ? 1 : 0.25 * vf_range(1, 8), period = vf_rnd(3) ? -1 : vf_rnd(6) ? 1 + 15 * vf_unit() : vf_rnd(2) ? 0 : 0.5, xs[12], fs[12 * 25];
    VlHomogeneousKernelMap *map; vf_call("homkermap kernel %d window %d order %d gamma %g period %g", k, w, order, gamma, period);
    map = vl_homogeneouskernelmap_new(kt[k], gamma, order, period, wt[w]);
    for (q = 0; q < n; ++q) xs[q] = number(t + q, order);
    for (q = 0; q < n; ++q) { double d[25 * 4 + 8]; float f[25 * 4 + 8]; for (c = 0; c < 108; ++c) d[c] = f[c] = -7;
      if (single) { xs[q] = (float)xs[q]; vl_homogeneouskernelmap_evaluate_f(map, f + 4, stride, xs[q]); for (c = 0; c < 108; ++c) d[c] = f[c]; } else vl_homogeneouskernelmap_evaluate_d(map, d + 4, stride, xs[q]);
      for (c = 0; c < 108; ++c) { int at = c - 4; if (at >= 0 && at % stride == 0 && at / stride < dim) fs[dim * q + at / stride] = d[c]; else clean = clean && d[c] == -7; } }
    vf_begin("Map"); vf_str("kernel", kn[k]); vf_str("window", wn[w]); vf_int("order", order); vf_real("gamma", gamma); vf_real("period", period); vf_bool("single", single);
    vf_int("gotOrder", vl_homogeneouskernelmap_get_order(map)); vf_int("gotDim", vl_homogeneouskernelmap_get_dimension(map));
    for (c = 0; c < 3; ++c) if (vl_homogeneouskernelmap_get_kernel_type(map) == kt[c]) vf_str("gotKernel", kn[c]);
    for (c = 0; c < 2; ++c) if (vl_homogeneouskernelmap_get_window_type(map) == wt[c]) vf_str("gotWindow", wn[c]);
    vf_bool("clean", clean); VF_REALS("xs", n, xs[i_]); VF_REALS("fs", n * dim, fs[i_]); vf_end();
    vl_homogeneouskernelmap_delete(map);
  }
  return 0;
}
