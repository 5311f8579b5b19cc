/* HOG */
#include "vf.h"
#include <vl/hog.h>
#include <vl/mathop.h>
static int w, h, C, n, cell, tr, bil, var; static float im[3 * 20 * 20], aux[3 * 20 * 20], f[40000], g[40000];
static const char *vn(void) { return var == VlHogVariantUoctti ? "uoctti" : "dalal"; }
static void picture(int cont) {
  int i, m = vf_rnd(cont ? 2 : 5), N = C * w * h; double s = vf_rnd(3) ? 255 : vf_rnd(2) ? 1 : 0.01;
  for (i = 0; i < N; ++i) im[i] = (float)(m < 2 ? s * vf_unit() : m == 2 ? vf_rnd(6) : m == 3 ? 10 * (i % w) * (1 + i / (w * h)) : 0);
  if (m == 4) for (i = vf_range(1, 4); i--; ) im[vf_rnd(N)] = (float)(s * vf_unit());
  if (m == 1) for (i = 0; i < w * h; ++i) { int x = i % w, y = i / w, c; for (c = 0; c < C; ++c) im[c * w * h + i] = (float)(s * sin(0.7 * x + 0.31 * y + c) + 0.02 * s * vf_unit()); }
}
static void setup(void) { static int ns[] = {1, 2, 3, 4, 5, 6, 8, 9, 12}; n = ns[vf_rnd(9)]; if (vf_rnd(4) == 0) n = 9; tr = vf_rnd(2); bil = vf_rnd(2); if (n == 1) bil = 0; var = vf_rnd(2) ? VlHogVariantUoctti : VlHogVariantDalalTriggs; C = vf_rnd(3) ? 1 : vf_range(2, 3); cell = vf_range(1, 8); if (vf_rnd(3) == 0) cell = 4;
  do { w = vf_range(4, 16); h = vf_range(4, 16); } while ((w + cell / 2) < cell || (h + cell / 2) < cell || ((w + cell / 2) / cell) * ((h + cell / 2) / cell) > 40); }
static VlHog *mk(int t) { VlHog *H = vl_hog_new(var, n, t); vl_hog_set_use_bilinear_orientation_assignments(H, bil); return H; }
static void dims(VlHog *H) { vf_str("variant", vn()); vf_int("n", n); vf_bool("tr", tr); vf_bool("bilinear", bil); vf_int("w", w); vf_int("h", h); vf_int("cell", cell); vf_int("hw", vl_hog_get_width(H)); vf_int("hh", vl_hog_get_height(H)); vf_int("dim", vl_hog_get_dimension(H)); }
static int size(VlHog *H) { return (int)(vl_hog_get_width(H) * vl_hog_get_height(H) * vl_hog_get_dimension(H)); }
static void put(VlHog *H) { vf_call("put_image %dx%dx%d cell %d n %d", w, h, C, cell, n); vl_hog_put_image(H, im, w, h, C, cell); }
/* use the object for something else first */
static void soil(VlHog *H) { int w0 = w, h0 = h, c0 = cell, C0 = C, k = vf_range(0, 2); static float keep[1200]; memcpy(keep, im, sizeof im); while (k--) { if (vf_rnd(2)) { w = vf_range(4, 12); h = vf_range(4, 12); cell = vf_range(2, 4); C = 1; } picture(0); put(H); if (vf_rnd(2)) vl_hog_extract(H, g); w = w0; h = h0; cell = c0; C = C0; } memcpy(im, keep, sizeof im); }
static void image(void) { VlHog *H; setup(); picture(0); H = mk(tr); soil(H); put(H); vl_hog_extract(H, f);
  vf_begin("Image"); dims(H); vf_int("C", C); VF_REALS("im", C * w * h, im[i_]); VF_REALS("f", size(H), f[i_]); vf_end(); vl_hog_delete(H); }
static void polar(void) { VlHog *H; int i, dir, ex = vf_rnd(2); setup(); bil = vf_rnd(2); dir = vf_rnd(2); H = mk(tr);
  for (i = 0; i < w * h; ++i) { im[i] = (float)(vf_rnd(6) ? 100 * vf_unit() : vf_rnd(2) ? 0 : -3); aux[i] = (float)(ex && bil ? (vf_rnd(8 * n + 1) - 4 * n) * VL_PI / n : ex ? (vf_rnd(8 * n) - 4 * n + 0.25 + 0.5 * vf_rnd(2)) * VL_PI / n : 20 * vf_unit() - 8); }
  if (!bil) for (i = 0; i < w * h; ++i) { double t = aux[i] / (VL_PI / n); if (fabs(t - floor(t) - 0.5) < 2e-4) aux[i] += (float)(0.1 / n); }
  soil(H);
  vf_call("put_polar_field %dx%d cell %d n %d", w, h, cell, n); vl_hog_put_polar_field(H, im, aux, dir, w, h, cell); vl_hog_extract(H, f);
  vf_begin("Polar"); dims(H); vf_bool("directed", dir); VF_REALS("mod", w * h, im[i_]); VF_REALS("ang", w * h, aux[i_]); VF_REALS("f", size(H), f[i_]); vf_end(); vl_hog_delete(H); }
static void perm(int v, int k) { VlHog *H; vl_index const *p; var = v ? VlHogVariantUoctti : VlHogVariantDalalTriggs; n = k; H = mk(0); p = vl_hog_get_permutation(H); vf_begin("Perm"); vf_str("variant", vn()); vf_int("n", n); vf_int("dim", vl_hog_get_dimension(H)); VF_SEQ("perm", vl_hog_get_dimension(H), p[i_]); vf_end(); vl_hog_delete(H); }
static void flip(void) { VlHog *H; int x, y, c; setup(); if (tr) h = cell * (h / cell > 0 ? h / cell : 1); else w = cell * (w / cell > 0 ? w / cell : 1); if (w < 4 || h < 4 || (w + cell / 2) < cell || (h + cell / 2) < cell) return; picture(1); H = mk(tr); put(H); vl_hog_extract(H, f);
  vf_begin("Flip"); dims(H); VF_REALS("f", size(H), f[i_]);
  for (c = 0; c < C; ++c) for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) aux[c * w * h + y * w + x] = im[c * w * h + (tr ? h - 1 - y : y) * w + (tr ? x : w - 1 - x)];
  memcpy(im, aux, sizeof im); put(H); vl_hog_extract(H, g); VF_REALS("g", size(H), g[i_]); vf_end(); vl_hog_delete(H); }
static void trans(void) { VlHog *H, *G; int x, y, c, t; setup(); picture(1); tr = 0; H = mk(0); G = mk(1); put(H); vl_hog_extract(H, f); vf_begin("Trans"); dims(H); VF_REALS("f", size(H), f[i_]);
  for (c = 0; c < C; ++c) for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) aux[c * w * h + x * h + y] = im[c * w * h + y * w + x];
  memcpy(im, aux, sizeof im); t = w; w = h; h = t; put(G); vl_hog_extract(G, g); VF_REALS("g", size(G), g[i_]); vf_end(); vl_hog_delete(H); vl_hog_delete(G); }
static void render(void) { static float out[9 * 441]; VlHog *H; int i, hw = vf_range(1, 3), hh = vf_range(1, 3), N, gs; setup(); H = mk(tr); N = hw * hh * (int)vl_hog_get_dimension(H); gs = (int)vl_hog_get_glyph_size(H); for (i = 0; i < N; ++i) f[i] = (float)(vf_rnd(4) == 0 ? 0 : vf_unit() - (vf_rnd(2) ? 0.6 : 0)); memset(out, 0, sizeof out);
  vf_call("render"); vl_hog_render(H, out, f, hw, hh); vf_begin("Render"); vf_str("variant", vn()); vf_int("n", n); vf_bool("tr", tr); vf_int("hw", hw); vf_int("hh", hh); vf_int("gs", gs); VF_REALS("d", N, f[i_]); VF_REALS("im", hw * hh * gs * gs, out[i_]); vf_end(); vl_hog_delete(H); }
static void twice(void) { VlHog *H, *G; long d[4]; int N; setup(); picture(0); H = mk(tr); G = mk(tr); put(H); N = size(H) * sizeof(float); memset(f, 0x55, sizeof f); vl_hog_extract(H, f); d[0] = vf_fnv(f, N, 0) & 0x3fffffff; memset(f, 0xaa, sizeof f); vl_hog_extract(H, f); d[1] = vf_fnv(f, N, 0) & 0x3fffffff;
  put(H); vl_hog_extract(H, f); d[2] = vf_fnv(f, N, 0) & 0x3fffffff; soil(G); put(G); vl_hog_extract(G, f); d[3] = vf_fnv(f, N, 0) & 0x3fffffff; vf_begin("Twice"); VF_SEQ("digests", 4, d[i_]); vf_end(); vl_hog_delete(H); vl_hog_delete(G); }
int main(int argc, char **argv) { int t, m; vf_init(argc, argv); m = vf_thorough ? 8 : 1; vf_open("hog");
  for (t = 1; t <= 16; ++t) { perm(0, t); perm(1, t); }
  for (t = 0; t < 130 * m; ++t) image(); for (t = 0; t < 80 * m; ++t) polar(); for (t = 0; t < 60 * m; ++t) flip(); for (t = 0; t < 60 * m; ++t) trans(); for (t = 0; t < 24 * m; ++t) render(); for (t = 0; t < 150 * m; ++t) twice(); return 0; }
