/* SIFT: octaves, detection, orientations, descriptors */
#include "vf.h"
#include <vl/sift.h>
static int W, H, S, O, omin; static float im[40 * 40]; static double range;
static void picture(void) {
  int m = vf_rnd(6), i, x, y, k, n; range = 1; for (i = 0; i < W * H; ++i) im[i] = m == 0 ? vf_rnd(256) : m == 1 ? (vf_rnd(2) ? 200 : 30) : m == 2 ? 0 : m == 5 ? vf_rnd(1024) / 1024.0 : 100;
  if (m == 2 || m == 3) { n = vf_range(1, 5); for (k = 0; k < n; ++k) { double cx = vf_unit() * W, cy = vf_unit() * H, s = 1 + 2.5 * vf_unit(), a = (vf_rnd(2) ? 1 : -1) * (20 + vf_rnd(80)), e = vf_rnd(3) ? 0.6 + vf_unit() : 0.02 + 0.1 * vf_unit(); for (y = 0; y < H; ++y) for (x = 0; x < W; ++x) im[y * W + x] += (float)(a * exp(-((x - cx) * (x - cx) + e * (y - cy) * (y - cy)) / (2 * s * s))); } }
  if (m == 4) for (y = 0; y < H; ++y) for (x = 0; x < W; ++x) im[y * W + x] = 8 * x + 3 * y + 12 * ((x / 4 + y / 4) % 2);
  for (i = 0; i < W * H; ++i) if (fabs(im[i]) > range) range = fabs(im[i]);
}
static void shape(int big) { W = vf_range(8, big); H = vf_range(8, big); S = vf_range(1, 4); omin = vf_rnd(3) - 1; if (vf_rnd(10) == 0) { W = vf_range(4, 8); H = vf_range(4, 8); omin = -2; } O = 1; if (omin == 1 && (W < 12 || H < 12)) { W += 4; H += 4; } while (O < 3 && (W >> (omin + O)) >= 4 && (H >> (omin + O)) >= 4 && vf_rnd(4)) ++O; picture(); }
static VlSiftFilt *mk(void) { VlSiftFilt *f = vl_sift_new(W, H, O, S, omin); return f; }
static void one(VlSiftFilt *f, const float *L, int ow, int oh) {
  VlSiftKeypoint k; double a[4]; float d[130]; int n, i, o = vl_sift_get_octave_index(f); double per = pow(2, o);
  memset(&k, 0, sizeof k); if (vl_sift_get_nkeypoints(f) && vf_rnd(2)) k = vl_sift_get_keypoints(f)[vf_rnd(vl_sift_get_nkeypoints(f))];
  else { k.o = o; k.is = vf_rnd(S); k.x = (float)(per * ow * vf_unit()); k.y = (float)(per * oh * vf_unit()); k.sigma = (float)(per * (1 + 3 * vf_unit())); if (vf_rnd(6) == 0) { k.x = (float)(per * (vf_rnd(ow + 4) - 2)); k.y = (float)(per * (vf_rnd(oh + 4) - 2)); } if (vf_rnd(12) == 0) k.is = vf_rnd(S + 6) - 3; if (fmod(k.x / per + 100.5, 1) < 1e-3 || fmod(k.y / per + 100.5, 1) < 1e-3) { k.x += 0.01 * per; k.y += 0.01 * per; } if (k.x < -0.5 * per && k.x > -1.5 * per) k.x = -2 * per; if (k.y < -0.5 * per && k.y > -1.5 * per) k.y = -2 * per; }
#define LEVEL() { int s_ = k.is < -1 || k.is > S + 1 ? 0 : k.is; L = vl_sift_get_octave(f, s_); }
  LEVEL(); vf_call("orientations"); n = vl_sift_calc_keypoint_orientations(f, a, &k);
#define FRAME() { vf_int("ow", ow); vf_int("oh", oh); vf_int("o", o); vf_int("S", S); vf_int("is", k.is); vf_real("x", k.x); vf_real("y", k.y); vf_real("sigma", k.sigma); VF_REALS("im", ow * oh, L[i_]); }
  vf_begin("Orient"); FRAME(); VF_REALS("angles", n, a[i_]); vf_end();
  { double th = vf_rnd(4) ? 6.4 * vf_unit() - 0.1 : n > 0 ? a[0] : 0; for (i = 0; i < 130; ++i) d[i] = -7; if (vf_rnd(3) == 0) vl_sift_set_norm_thresh(f, vf_rnd(2) ? 0 : 40 * vf_unit() * range / 100); if (vf_rnd(3) == 0) vl_sift_set_magnif(f, 1.5 + 2 * vf_unit()); if (vf_rnd(3) == 0) vl_sift_set_window_size(f, 0.8 + 3 * vf_unit());
    vf_call("descriptor"); vl_sift_calc_keypoint_descriptor(f, d, &k, th);
    vf_begin("Descr"); FRAME(); vf_bool("raw", 0); vf_real("angle", th); vf_real("magnif", vl_sift_get_magnif(f)); vf_real("win", vl_sift_get_window_size(f)); vf_real("nt", vl_sift_get_norm_thresh(f)); VF_REALS("d", 128, d[i_]); vf_end(); }
}
static void raw(void) {
  static float g[2 * 40 * 40], *L = g; float d[130]; int i, ow = vf_range(6, 16), oh = vf_range(6, 16), o = 0, m = vf_rnd(3); VlSiftKeypoint k; double th = 8 * vf_unit() - 1; VlSiftFilt *f; S = 3; for (i = 0; i < ow * oh; ++i) { g[2 * i] = m ? vf_rnd(100) : vf_rnd(8) == 0; g[2 * i + 1] = (float)(6.28 * vf_unit()); if (m == 2) g[2 * i + 1] -= 3.14f; }
  f = vl_sift_new(16, 16, 1, 3, 0); memset(&k, 0, sizeof k); k.x = (float)(ow * vf_unit()); k.y = (float)(oh * vf_unit()); k.sigma = (float)(0.6 + 2 * vf_unit()); if (vf_rnd(2)) vl_sift_set_norm_thresh(f, vf_rnd(2) ? 0.5 * vf_unit() : 0); if (vf_rnd(2)) vl_sift_set_magnif(f, 1.5 + 2 * vf_unit()); if (vf_rnd(2)) vl_sift_set_window_size(f, 0.8 + 3 * vf_unit());
  if (fmod(k.x + 0.5, 1) < 1e-3 || fmod(k.y + 0.5, 1) < 1e-3) { k.x += 0.01; k.y += 0.01; }
  for (i = 0; i < 130; ++i) d[i] = -7; vf_call("raw descriptor"); vl_sift_calc_raw_descriptor(f, g, d, ow, oh, k.x, k.y, k.sigma, th);
  vf_begin("Descr"); vf_int("ow", ow); vf_int("oh", oh); vf_int("o", o); vf_int("S", S); vf_int("is", 0); vf_real("x", k.x); vf_real("y", k.y); vf_real("sigma", k.sigma); VF_REALS("im", 2 * ow * oh, L[i_]); vf_bool("raw", 1); vf_real("angle", th); vf_real("magnif", vl_sift_get_magnif(f)); vf_real("win", vl_sift_get_window_size(f)); vf_real("nt", vl_sift_get_norm_thresh(f)); VF_REALS("d", 128, d[i_]); vf_end(); vl_sift_delete(f);
}
static void run(int pyr, int det, int des) {
  VlSiftFilt *f; int o, i, s; static float prev[160 * 160]; int pw = 0; double tp, te; shape(pyr ? 16 : 24); f = mk(); 
  if (vf_rnd(3)) { tp = range * 0.02 * vf_unit(); vl_sift_set_peak_thresh(f, tp); } if (vf_rnd(3)) vl_sift_set_edge_thresh(f, vf_rnd(2) ? 1.2 + 12 * vf_unit() : 300);
  for (o = 0; o < O; ++o) { int ow, oh; vf_call("octave %d of %dx%d S=%d omin=%d", o, W, H, S, omin); if (o == 0) vl_sift_process_first_octave(f, im); else vl_sift_process_next_octave(f); ow = vl_sift_get_octave_width(f); oh = vl_sift_get_octave_height(f);
#define LV() { vf_key("L"); VF_LIT("["); for (s = -1; s <= S + 1; ++s) { float const *p = vl_sift_get_octave(f, s); VF_LIT("["); for (i = 0; i < ow * oh; ++i) { if (i) VF_LIT(","); vf_num(p[i]); } if (s <= S) VF_LIT("],"); else VF_LIT("]"); } VF_LIT("]"); }
    if (pyr) { vf_begin("Octave"); vf_int("w", W); vf_int("h", H); vf_int("S", S); vf_int("o", vl_sift_get_octave_index(f)); vf_int("ow", ow); vf_int("oh", oh); vf_bool("first", o == 0); vf_real("range", range); VF_REALS("im", o ? 0 : W * H, im[i_]); vf_int("pw", pw); VF_REALS("prev", o ? pw * (int)(oh * 2) : 0, prev[i_]); LV(); vf_end(); }
    if (det) { vf_call("detect"); vl_sift_detect(f); if (vl_sift_get_nkeypoints(f) && vf_rnd(2)) { VlSiftKeypoint const *k = vl_sift_get_keypoints(f) + vf_rnd(vl_sift_get_nkeypoints(f)); int q = k->iy * ow + k->ix; double v = fabs((double)(vl_sift_get_octave(f, k->is + 1)[q] - vl_sift_get_octave(f, k->is)[q])); vl_sift_set_peak_thresh(f, v * (0.9 + 0.35 * vf_unit())); vl_sift_detect(f); } tp = vl_sift_get_peak_thresh(f); te = vl_sift_get_edge_thresh(f); vf_begin("Detect"); vf_int("o", vl_sift_get_octave_index(f)); vf_int("S", S); vf_int("ow", ow); vf_int("oh", oh); vf_real("tp", tp); vf_real("te", te); LV(); vf_key("keys"); VF_LIT("["); for (i = 0; i < vl_sift_get_nkeypoints(f); ++i) { VlSiftKeypoint const *k = vl_sift_get_keypoints(f) + i; if (i) VF_LIT(","); vf_printf("[%d,%d,%d,%d,", k->o, k->ix, k->iy, k->is); vf_num(k->x); VF_LIT(","); vf_num(k->y); VF_LIT(","); vf_num(k->s); VF_LIT(","); vf_num(k->sigma); VF_LIT("]"); } VF_LIT("]"); vf_end(); }
    if (des) { if (vf_rnd(2)) vl_sift_detect(f); one(f, 0, ow, oh); if (vf_rnd(2)) one(f, 0, ow, oh); }
    pw = ow; memcpy(prev, vl_sift_get_octave(f, S - 1), sizeof(float) * ow * oh);
  }
  vl_sift_delete(f);
}
static void walk(void) { VlSiftFilt *f; int i, n, codes[40], at[40]; W = vf_range(2, 40); H = vf_range(2, 40); omin = vf_rnd(4) - 1; if (omin == 2) omin = -2; S = vf_range(1, 3); if ((W >> (omin > 0 ? omin : 0)) < 2 || (H >> (omin > 0 ? omin : 0)) < 2) omin = 0; picture(); O = vf_rnd(3) ? -1 : 1; f = mk(); n = vl_sift_get_noctaves(f); vf_call("walk %dx%d omin=%d", W, H, omin); if (n > 30) n = 30;
  for (i = 0; i <= n; ++i) { codes[i] = i ? vl_sift_process_next_octave(f) : vl_sift_process_first_octave(f, im); at[i] = vl_sift_get_octave_index(f); }
  vf_begin("Walk"); vf_int("w", W); vf_int("h", H); vf_int("omin", vl_sift_get_octave_first(f)); vf_int("O", O); vf_int("nO", vl_sift_get_noctaves(f)); VF_SEQ("codes", n + 1, codes[i_]); VF_SEQ("at", n + 1, at[i_]); vf_end(); vl_sift_delete(f); }
static void frame(void) { VlSiftFilt *f; VlSiftKeypoint k; float x, y, sg; W = vf_range(8, 40); H = vf_range(8, 40); omin = vf_rnd(3) - 1; S = vf_range(1, 4); O = vf_range(1, 3); x = (float)(W * vf_unit()); y = (float)(H * vf_unit()); sg = (float)(0.3 * pow(2, 6 * vf_unit())); f = mk(); vf_call("keypoint_init"); vl_sift_keypoint_init(f, &k, x, y, sg);
  vf_begin("Frame"); vf_int("S", S); vf_int("O", O); vf_int("omin", omin); vf_real("x", x); vf_real("y", y); vf_real("sigma", sg); vf_key("k"); vf_printf("[%d,%d,%d,%d,", k.o, k.ix, k.iy, k.is); vf_num(k.x); VF_LIT(","); vf_num(k.y); VF_LIT(","); vf_num(k.s); VF_LIT(","); vf_num(k.sigma); VF_LIT("]"); vf_end(); vl_sift_delete(f); }
/* everything a filter says about an image, condensed */
static void digest(VlSiftFilt *f, const char *key, int upto) {
  int o, i, j, n; long out[64]; int no = 0; for (o = 0; o < upto; ++o) { int rc = o ? vl_sift_process_next_octave(f) : vl_sift_process_first_octave(f, im); if (rc) break; out[no++] = vf_fnv(vl_sift_get_octave(f, -1), sizeof(float) * (S + 3) * vl_sift_get_octave_width(f) * vl_sift_get_octave_height(f), 0) & 0x3fffffff; vl_sift_detect(f); n = vl_sift_get_nkeypoints(f); out[no++] = n;
    for (i = 0; i < n && i < 8; ++i) { VlSiftKeypoint k = vl_sift_get_keypoints(f)[i]; double a[4]; float d[128]; int m; long h; memset(d, 0, sizeof d); m = vl_sift_calc_keypoint_orientations(f, a, &k); h = m; for (j = 0; j < m; ++j) { vl_sift_calc_keypoint_descriptor(f, d, &k, a[j]); h = h * 31 + (vf_fnv(a + j, sizeof(double), 0) & 0xffff) + (vf_fnv(d, sizeof d, 0) & 0xffff); } h += vf_fnv(&k.x, sizeof k.x, 0) & 0xffff; if (no < 60) out[no++] = h & 0x3fffffff; }
  }
  VF_SEQ(key, no, out[i_]);
}
static void again(void) {
  VlSiftFilt *f, *g; static float keep[1600]; int i, r, times = vf_range(1, 3); vl_size n; shape(24); n = W * H; memcpy(keep, im, sizeof keep); f = mk(); g = mk(); vf_call("reuse %dx%d S=%d omin=%d O=%d", W, H, S, omin, O);
  for (r = 0; r < times; ++r) { int o, up = vf_range(1, O); picture(); for (o = 0; o < up; ++o) { if (o) vl_sift_process_next_octave(f); else vl_sift_process_first_octave(f, im); if (vf_rnd(3)) vl_sift_detect(f); if (vf_rnd(3)) { VlSiftKeypoint k; double a[4]; float d[128]; memset(&k, 0, sizeof k); k.o = vl_sift_get_octave_index(f); k.x = W / 2; k.y = H / 2; k.sigma = 2; if (vf_rnd(2)) vl_sift_calc_keypoint_orientations(f, a, &k); else vl_sift_calc_keypoint_descriptor(f, d, &k, 1); } } }
  memcpy(im, keep, sizeof im); (void)n; (void)i; vf_begin("Again"); digest(g, "fresh", O); digest(f, "again", O); vf_end(); vl_sift_delete(f); vl_sift_delete(g);
}
int main(int argc, char **argv) { int t, m; vf_init(argc, argv); m = vf_thorough ? 8 : 1; vf_open("sift");
  for (t = 0; t < 36 * m; ++t) run(1, 0, 0); for (t = 0; t < 120 * m; ++t) run(0, 1, 0); for (t = 0; t < 50 * m; ++t) run(0, 0, 1); for (t = 0; t < 40 * m; ++t) raw(); for (t = 0; t < 120 * m; ++t) walk(); for (t = 0; t < 300 * m; ++t) frame(); for (t = 0; t < 150 * m; ++t) again(); return 0; }
