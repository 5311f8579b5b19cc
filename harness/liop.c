/* LIOP */
#include "vf.h"
#include <vl/liop.h>
static float im[33 * 33], jm[33 * 33], d[4000]; static int L; static double top;
static void picture(void) { int i, m = vf_rnd(7), N = L * L, c = (L - 1) / 2; double s = vf_rnd(2) ? 1 : 255; for (i = 0; i < N; ++i) { int x = i % L - c, y = i / L - c; im[i] = (float)(m < 2 ? s * vf_unit() : m == 2 ? s * (1 + sin(0.5 * x + 0.37 * y + 0.001 * x * y)) : m == 3 ? -s * (x * x + 1.01 * y * y + 0.37 * x + 0.11 * y) / N : m == 4 ? i : m == 5 ? s * vf_unit() - s / 2 : vf_rnd(30)); }
  if (m == 4) for (i = N - 1; i > 0; --i) { int j = vf_rnd(i + 1); float t = im[i]; im[i] = im[j]; im[j] = t; }
  for (top = 0, i = 0; i < N; ++i) if (fabs(im[i]) > top) top = fabs(im[i]); if (top == 0) top = 1; }
static double pick(void) { return (L / 2) * (0.25 + 0.65 * vf_unit()); }
static VlLiopDesc *mk(int *n, int *m, float *r) { L = 2 * vf_range(2, 8) + 1; *n = vf_range(1, 5); *m = vf_range(1, 6); *r = (float)pick(); if (vf_rnd(3) == 0) *r = (float)vf_range(1, L / 2); { double t = (L - 1) / 2 - *r + 0.6; if (fabs(t * t - floor(t * t + 0.5)) < 1e-4 || t < 0.01) *r -= 0.03f; } return vl_liopdesc_new(*n, *m, *r, L); }
static void process(void) { VlLiopDesc *f; int n, m, t; float r; double th; f = mk(&n, &m, &r); if (vf_rnd(2)) { picture(); vl_liopdesc_process(f, d, im); } picture(); t = vf_rnd(4); if (t == 1) vl_liopdesc_set_intensity_threshold(f, 0); if (t == 2) vl_liopdesc_set_intensity_threshold(f, (float)(0.4 * vf_unit() * top)); if (t == 3) vl_liopdesc_set_intensity_threshold(f, (float)-vf_unit() * 0.5f); th = vl_liopdesc_get_intensity_threshold(f);
  vf_call("process L=%d n=%d m=%d r=%g", L, n, m, r); memset(d, 0x7f, sizeof d); vl_liopdesc_process(f, d, im); vf_begin("Process"); vf_int("L", L); vf_int("n", n); vf_int("m", m); vf_real("radius", r); vf_real("theta", th); vf_real("top", top); vf_int("dim", vl_liopdesc_get_dimension(f)); VF_REALS("im", L * L, im[i_]); VF_REALS("d", vl_liopdesc_get_dimension(f), d[i_]); vf_end(); vl_liopdesc_delete(f); }
static void scale(void) { VlLiopDesc *f; int n, m, i, k; float r, th; long h[3]; f = mk(&n, &m, &r); picture(); th = vf_rnd(2) ? (float)(0.3 * vf_unit() * top) : -0.1f; if (vf_rnd(3)) vl_liopdesc_set_intensity_threshold(f, th); th = vl_liopdesc_get_intensity_threshold(f);
  for (k = 0; k < 3; ++k) { float q = k == 0 ? 1 : k == 1 ? 8 : 0.25f; for (i = 0; i < L * L; ++i) jm[i] = q * im[i]; vl_liopdesc_set_intensity_threshold(f, th < 0 ? th : q * th); vl_liopdesc_process(f, d, jm); h[k] = vf_fnv(d, sizeof(float) * vl_liopdesc_get_dimension(f), 0) & 0x3fffffff; }
  vf_begin("Scale"); vf_int("a", h[0]); vf_int("b", h[1]); vf_int("c", h[2]); vf_end(); vl_liopdesc_delete(f); }
static void settings(void) { VlLiopDesc *f; int n, m; float r, th = (float)(vf_unit() - 0.5), t0; f = mk(&n, &m, &r); t0 = vl_liopdesc_get_intensity_threshold(f); vl_liopdesc_set_intensity_threshold(f, th); vf_begin("Settings"); vf_int("n", n); vf_int("m", m); vf_real("radius", r); vf_real("theta", th); vf_real("theta0", t0); vf_key("got"); vf_printf("[%d,%d,%d]", (int)vl_liopdesc_get_num_neighbours(f), (int)vl_liopdesc_get_num_spatial_bins(f), (int)vl_liopdesc_get_dimension(f)); vf_real("gotr", vl_liopdesc_get_neighbourhood_radius(f)); vf_real("gott", vl_liopdesc_get_intensity_threshold(f)); vf_end(); vl_liopdesc_delete(f); }
static void basic(int side) { VlLiopDesc *f = vl_liopdesc_new_basic(side); vf_begin("Basic"); vf_int("n", vl_liopdesc_get_num_neighbours(f)); vf_int("m", vl_liopdesc_get_num_spatial_bins(f)); vf_int("dim", vl_liopdesc_get_dimension(f)); vf_real("radius", vl_liopdesc_get_neighbourhood_radius(f)); vf_end(); vl_liopdesc_delete(f); }
int main(int argc, char **argv) { int t, m; vf_init(argc, argv); m = vf_thorough ? 8 : 1; vf_open("liop");
  for (t = 0; t < 200 * m; ++t) process(); for (t = 0; t < 200 * m; ++t) scale(); for (t = 0; t < 40; ++t) settings(); for (t = 13; t < 60; t += 2) basic(t); return 0; }
