/* superpixels and quick shift; argv[4]: slic | qs */
#include "vf.h"
#include <malloc.h>
#include <vl/slic.h>
#include <vl/quickshift.h>
static int w, h, nc; static float im[4096]; static double di[4096];
static void slic(void) {
  int t, n = vf_thorough ? 2500 : 240, i;
  for (t = 0; t < n; ++t) {
    int m = vf_rnd(6), rs, ms; float reg; vl_uint32 *pre, *post, *again;
    w = vf_range(1, t % 10 ? 9 : 14); h = vf_range(1, t % 10 ? 8 : 13); nc = vf_range(1, 3); rs = vf_range(1, 6); if (vf_rnd(12) == 0) rs = 20; if (t % 2) { m = 0; rs = vf_range(2, 4); w = vf_range(3, 9); h = vf_range(3, 9); }
    { static const float rg[] = {0, 0.25f, 1, 4, 0.0625f, 10, 100}; reg = rg[vf_rnd(7)]; }
    ms = vf_rnd(4) ? vf_rnd(8) : vf_rnd(40);
    for (i = 0; i < w * h * nc; ++i) im[i] = m == 0 ? vf_rnd(256) / 64.f : m == 1 ? vf_rnd(3) : m == 2 ? ((i % w) > w / 2) * 3 + vf_rnd(64) / 64.f : m == 3 ? 7 : m == 4 ? ((i / w) % 3 == 0) * 2 + vf_rnd(128) / 64.f : (i % w) * 16 / 64.f + vf_rnd(64) / 64.f;
    pre = calloc(w * h, 4); post = calloc(w * h, 4); again = calloc(w * h, 4); memset(again, 0x5a, w * h * 4);
    vf_call("slic %dx%dx%d region %d reg %g min %d", w, h, nc, rs, reg, ms);
    vl_slic_segment(pre, im, w, h, nc, rs, reg, 0);
    mallopt(M_PERTURB, 0x5a); vl_slic_segment(post, im, w, h, nc, rs, reg, ms); mallopt(M_PERTURB, 0xff); vl_slic_segment(again, im, w, h, nc, rs, reg, ms); mallopt(M_PERTURB, 0);
    vf_begin("Slic"); vf_int("w", w); vf_int("h", h); vf_int("nc", nc); vf_int("rs", rs); vf_real("reg", reg); vf_int("min", ms); VF_REALS("im", w * h * nc, im[i_]); VF_SEQ("pre", w * h, pre[i_]); VF_SEQ("post", w * h, post[i_]); VF_SEQ("again", w * h, again[i_]); vf_end();
    free(pre); free(post); free(again);
  }
}
static void qsout(VlQS *q, int again) {
  vf_begin("Shift"); vf_int("h", h); vf_int("w", w); vf_int("nc", nc); vf_bool("again", again); vf_real("sigma", vl_quickshift_get_kernel_size(q)); vf_real("tau", vl_quickshift_get_max_dist(q)); vf_bool("medoid", vl_quickshift_get_medoid(q)); VF_REALS("im", w * h * nc, di[i_]);
  VF_SEQ("parents", w * h, vl_quickshift_get_parents(q)[i_]); VF_REALS("dists", w * h, vl_quickshift_get_dists(q)[i_]); VF_REALS("E", w * h, vl_quickshift_get_density(q)[i_]); vf_end();
}
static void fill(int m) { int i; for (i = 0; i < w * h * nc; ++i) di[i] = m == 0 ? vf_rnd(2) : m == 1 ? vf_rnd(5) : m == 2 ? 0 : m == 3 ? ((i % h) > h / 2) * 6 + vf_rnd(3) : vf_rnd(200) / 16.0; }
static void qs(void) {
  int t, n = vf_thorough ? 900 : 110;
  for (t = 0; t < n; ++t) {
    static const double sg[] = {0.5, 1, 0.25, 1.5, 2, 0.7}, ta[] = {1, 2, 3, 1.5, 10, 0.5, 5, 2.2360679774997898, 4}; VlQS *q; int def = vf_rnd(12) == 0, md = vf_rnd(5) == 0; double s = sg[vf_rnd(6)], u = ta[vf_rnd(9)];
    h = vf_range(1, t % 8 ? 6 : 9); w = vf_range(1, t % 8 ? 6 : 8); if (def && vf_rnd(2)) { h = 2; w = vf_range(100, 160); } nc = vf_range(1, 3); if (w > 20) nc = 1; fill(vf_rnd(5));
    vf_call("quickshift %dx%dx%d sigma %g tau %g medoid %d", h, w, nc, s, u, md);
    mallopt(M_PERTURB, 0x5a); q = vl_quickshift_new(di, h, w, nc); mallopt(M_PERTURB, 0);
    if (def) { vf_begin("Default"); vf_int("h", h); vf_int("w", w); vf_real("sigma", vl_quickshift_get_kernel_size(q)); vf_real("tau", vl_quickshift_get_max_dist(q)); vf_bool("medoid", vl_quickshift_get_medoid(q)); vf_end(); }
    else { vl_quickshift_set_kernel_size(q, s); vl_quickshift_set_max_dist(q, u); vl_quickshift_set_medoid(q, md); }
    if (w * h < 100) { vf_call("quickshift process %dx%dx%d", h, w, nc); vl_quickshift_process(q); qsout(q, 0);
      if (vf_rnd(2)) { if (vf_rnd(2)) fill(vf_rnd(5)); if (vf_rnd(3) == 0) vl_quickshift_set_medoid(q, !md); if (vf_rnd(3) == 0) vl_quickshift_set_kernel_size(q, sg[vf_rnd(6)]); vl_quickshift_process(q); qsout(q, 1); } }
    vl_quickshift_delete(q);
  }
}
int main(int argc, char **argv) { vf_init(argc, argv); vf_open(argv[4]); if (!strcmp(argv[4], "slic")) slic(); else qs(); return 0; }
