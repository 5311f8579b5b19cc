/* maximally stable extremal regions; argv[4]: sel | ell */
#include "vf.h"
#include <malloc.h>
#include <vl/mser.h>
static int dims[3], nd, n; static vl_uint8 im[4096], junk[4096];
static double r4(double lo, double hi) { static const double v[] = {0, 0.0625, 0.125, 0.2517, 0.25, 0.5, 0.5173, 0.75, 0.8731, 1, 1.25, 3.1, 40}; double x; do x = v[vf_rnd(13)]; while (x < lo || x > hi); return x; }
static void image(int mode, long code) { int i, k = vf_rnd(5); for (i = 0; i < n; ++i) { int v; if (mode == 0) { v = code % 3; code /= 3; } else v = k == 0 ? vf_rnd(3) : k == 1 ? vf_rnd(7) : k == 2 ? vf_rnd(20) * 13 : k == 3 ? (vf_rnd(4) ? vf_rnd(2) * 255 : vf_rnd(256)) : (i % dims[0]) / 2 + vf_rnd(2) + (i / dims[0]) * 3; im[i] = v; junk[i] = vf_rnd(256); } }
static void shape(int maxn) { int i; nd = vf_rnd(4) == 0 ? 1 : vf_rnd(4) ? 2 : 3; do { n = 1; for (i = 0; i < nd; ++i) { dims[i] = nd == 1 ? vf_range(1, 20) : nd == 2 ? vf_range(1, 8) : vf_range(1, 3); n *= dims[i]; } } while (n > maxn); }
static VlMserFilt *filt(int perturb, int delta, double *p) { VlMserFilt *f; mallopt(M_PERTURB, perturb); vf_call("mser_new"); f = vl_mser_new(nd, dims); mallopt(M_PERTURB, 0);
  if (delta >= 0) { vl_mser_set_delta(f, delta); vl_mser_set_min_area(f, p[0]); vl_mser_set_max_area(f, p[1]); vl_mser_set_max_variation(f, p[2]); vl_mser_set_min_diversity(f, p[3]); }
  return f; }
static void regs(const char *k, VlMserFilt *f) { VF_SEQ(k, vl_mser_get_regions_num(f), vl_mser_get_regions(f)[i_]); }
static void sel(void) { double p[4]; VlMserFilt *f, *g; int delta = vf_rnd(3) ? vf_range(0, 6) : vf_range(0, 120), def = vf_rnd(12) == 0; VlMserStats const *s;
  p[0] = vf_rnd(2) ? 0 : r4(0, 0.6); p[1] = r4(0.2, 1); p[2] = r4(0.1, 40); p[3] = vf_rnd(3) ? r4(0, 1) : 0; if (def) delta = -1;
  vf_call("mser %d-d %dx%dx%d delta %d", nd, dims[0], nd > 1 ? dims[1] : 1, nd > 2 ? dims[2] : 1, delta);
  f = filt(0x5a, delta, p); vl_mser_process(f, im); g = filt(0xff, delta, p); if (vf_rnd(2)) vl_mser_process(g, junk); if (vf_rnd(2)) vl_mser_ell_fit(g); vl_mser_process(g, im); s = vl_mser_get_stats(f);
  vf_begin("Mser"); VF_SEQ("dims", nd, dims[i_]); VF_SEQ("img", n, im[i_]); vf_int("delta", vl_mser_get_delta(f)); vf_real("amin", vl_mser_get_min_area(f)); vf_real("amax", vl_mser_get_max_area(f)); vf_real("vmax", vl_mser_get_max_variation(f)); vf_real("div", vl_mser_get_min_diversity(f)); vf_bool("def", def);
  if (!def && (vl_mser_get_delta(f) != delta || vl_mser_get_min_area(f) != p[0] || vl_mser_get_max_area(f) != p[1] || vl_mser_get_max_variation(f) != p[2] || vl_mser_get_min_diversity(f) != p[3])) vf_int("badparam", 1);
  regs("seeds", f); regs("again", g); vf_int("nex", s->num_extremal); vf_int("nun", s->num_unstable); vf_int("nbad", s->num_abs_unstable); vf_int("nbig", s->num_too_big); vf_int("nsmall", s->num_too_small); vf_int("ndup", s->num_duplicates); vf_end();
  vl_mser_delete(f); vl_mser_delete(g); }
static void ells(VlMserFilt *f, const char *ev) { int i, m, d; vf_begin(ev); VF_SEQ("dims", nd, dims[i_]); VF_SEQ("img", n, im[i_]); regs("seeds", f); m = vl_mser_get_ell_num(f); d = vl_mser_get_ell_dof(f); vf_int("dof", d); vf_key("ell"); VF_LIT("["); for (i = 0; i < m; ++i) { int j; vf_put(i ? ",[" : "[", i ? 2 : 1); for (j = 0; j < d; ++j) { if (j) VF_LIT(","); vf_num(vl_mser_get_ell(f)[i * d + j]); } VF_LIT("]"); } VF_LIT("]"); vf_end(); }
static void ell(void) { double p[4] = {0, 1, 1000, 0}; VlMserFilt *f; int k; if (vf_rnd(4) == 0) { p[3] = 0.3; p[2] = 0.7; } vf_call("mser_ell_fit %d-d n=%d", nd, n); f = filt(0x33, vf_range(0, 3), p);
  if (vf_rnd(3) == 0) { vl_mser_process(f, junk); if (vf_rnd(2)) vl_mser_ell_fit(f); }
  vl_mser_process(f, im); vl_mser_ell_fit(f); ells(f, "Ell"); if (vf_rnd(2)) { vl_mser_ell_fit(f); ells(f, "Ell"); }
  if (vf_rnd(2)) for (k = 0; k < 2; ++k) { image(1, 0); vl_mser_process(f, im); vl_mser_ell_fit(f); ells(f, "Ell"); }
  vl_mser_delete(f); }
int main(int argc, char **argv) { int t, sl; vf_init(argc, argv); vf_open("mser"); sl = !strcmp(argv[4], "sel");
  if (sl) { for (t = 0; t < 729; ++t) if (vf_thorough || t % 3 == vf_seed % 3) { nd = 2; dims[0] = 2 + t % 2; dims[1] = 6 / dims[0]; n = 6; image(0, t); sel(); }
    for (t = 0; t < (vf_thorough ? 8000 : 700); ++t) { shape(t % 5 ? 20 : 48); image(1, 0); sel(); } }
  else for (t = 0; t < (vf_thorough ? 3000 : 300); ++t) { shape(t % 5 ? 20 : 48); image(1, 0); ell(); }
  return 0; }
