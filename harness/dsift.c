/* Dense SIFT */
#include "vf.h"
#include <vl/dsift.h>
static int w, h; static float im[64 * 64], im2[64 * 64];
static void picture(void) { int i, m = vf_rnd(6); for (i = 0; i < w * h; ++i) { int x = i % w, y = i / w; im[i] = (float)(m == 0 ? vf_rnd(256) : m == 1 ? 100 * vf_unit() : m == 2 ? 5 * x + 2 * y : m == 3 ? 40 * sin(0.9 * x - 0.4 * y) : m == 4 ? (vf_rnd(6) ? 0 : 50) : (x > w / 2) * 80 + (y > h / 3) * 30); } }
static void tune(VlDsiftFilter *f) {
  VlDsiftDescriptorGeometry g = *vl_dsift_get_geometry(f); int k, x0, y0;
  if (vf_rnd(4)) { static int ts[] = {1, 2, 3, 4, 5, 8, 8}; g.numBinT = ts[vf_rnd(7)]; g.numBinX = vf_range(1, 4); g.numBinY = vf_range(1, 4); g.binSizeX = vf_range(1, 4); g.binSizeY = vf_range(1, 4); vl_dsift_set_geometry(f, &g); }
  if (vf_rnd(4)) { vl_dsift_set_steps(f, vf_range(1, 6), vf_range(1, 6)); }
  if (vf_rnd(3)) { x0 = vf_rnd(w); y0 = vf_rnd(h); if (vf_rnd(2)) x0 = vf_rnd(3) % w; if (vf_rnd(2)) y0 = vf_rnd(3) % h; k = vf_range(x0, w - 1); vl_dsift_set_bounds(f, x0, y0, vf_rnd(2) ? w - 1 : k, vf_rnd(2) ? h - 1 : vf_range(y0, h - 1)); }
  if (vf_rnd(2)) vl_dsift_set_flat_window(f, vf_rnd(2)); if (vf_rnd(3) == 0) vl_dsift_set_window_size(f, 0.7 + 2.5 * vf_unit());
}
static void keys(VlDsiftFilter *f) { int a, b, c, d; VlDsiftDescriptorGeometry const *g = vl_dsift_get_geometry(f); vf_int("w", w); vf_int("h", h); vf_key("bounds"); vl_dsift_get_bounds(f, &a, &b, &c, &d); vf_printf("[%d,%d,%d,%d]", a, b, c, d); vf_key("steps"); vl_dsift_get_steps(f, &a, &b); vf_printf("[%d,%d]", a, b); vf_key("geom"); vf_printf("[%d,%d,%d,%d,%d]", g->numBinT, g->numBinX, g->numBinY, g->binSizeX, g->binSizeY); vf_bool("flat", vl_dsift_get_flat_window(f) != 0); vf_real("win", vl_dsift_get_window_size(f)); vf_int("num", vl_dsift_get_keypoint_num(f)); vf_int("size", vl_dsift_get_descriptor_size(f)); }
static VlDsiftFilter *mk(void) { if (vf_rnd(4) == 0) return vl_dsift_new_basic(w, h, vf_range(1, 5), vf_range(1, 4)); return vl_dsift_new(w, h); }
static void few(VlDsiftFilter *f) { int sx = 1, sy = 1; vl_dsift_get_steps(f, &sx, &sy); while (vl_dsift_get_keypoint_num(f) * vl_dsift_get_descriptor_size(f) > 1200) { if (sx <= sy) ++sx; else ++sy; vl_dsift_set_steps(f, sx, sy); } }
static void process(void) {
  VlDsiftFilter *f; int r, i, j, n, s; w = vf_range(2, 18); h = vf_range(2, 18); if (vf_rnd(3)) { w = vf_range(8, 18); h = vf_range(8, 18); } f = mk();
  for (r = vf_rnd(3); r >= 0; --r) { tune(f); if (vl_dsift_get_keypoint_num(f) == 0 && vf_rnd(4)) tune(f); few(f); picture(); vf_call("process %dx%d", w, h); vl_dsift_process(f, im); }
  n = vl_dsift_get_keypoint_num(f); s = vl_dsift_get_descriptor_size(f); vf_begin("Process"); keys(f); VF_REALS("im", w * h, im[i_]); vf_key("frames"); VF_LIT("[");
  for (i = 0; i < n; ++i) { VlDsiftKeypoint const *k = vl_dsift_get_keypoints(f) + i; if (i) VF_LIT(","); VF_LIT("["); vf_num(k->x); VF_LIT(","); vf_num(k->y); VF_LIT(","); vf_num(k->norm); VF_LIT("]"); } VF_LIT("]"); vf_key("d"); VF_LIT("[");
  for (i = 0; i < n; ++i) { if (i) VF_LIT(","); VF_LIT("["); for (j = 0; j < s; ++j) { if (j) VF_LIT(","); vf_num(vl_dsift_get_descriptors(f)[i * s + j]); } VF_LIT("]"); } VF_LIT("]"); vf_end(); vl_dsift_delete(f);
}
static void grid(void) { VlDsiftFilter *f; int r; w = vf_range(2, 60); h = vf_range(2, 60); f = mk(); for (r = 0; r < 4; ++r) { if (r) tune(f); vf_begin("Grid"); keys(f); vf_end(); } vl_dsift_delete(f); }
static void trans(void) { float a[300], b[300]; int i, T = 4 * vf_range(1, 3), nx = vf_range(1, 4), ny = vf_range(1, 4), n = T * nx * ny; for (i = 0; i < n; ++i) a[i] = (float)i, b[i] = -1; vl_dsift_transpose_descriptor(b, a, T, nx, ny); vf_begin("Trans"); vf_key("geom"); vf_printf("[%d,%d,%d,1,1]", T, nx, ny); VF_SEQ("from", n, (int)a[i_]); VF_SEQ("to", n, (int)b[i_]); vf_end(); }
static void mirror(void) { VlDsiftFilter *f, *g; VlDsiftDescriptorGeometry q; int i, j, n, s, nx, ny, x, y, step, t; w = vf_range(10, 16); h = vf_range(10, 16); for (i = 0; i < w * h; ++i) { im[i] = (float)(20 * vf_unit()); } for (i = 0; i < w * h; ++i) { x = i % w; y = i / w; im[i] += (float)(50 * sin(0.6 * x + 0.2 * y)); im2[x * h + y] = im[i]; }
  q.numBinT = 8; q.numBinX = vf_range(1, 3); q.numBinY = vf_range(1, 3); q.binSizeX = vf_range(1, 3); q.binSizeY = vf_range(1, 3); step = vf_range(3, 6); t = vf_rnd(2); f = vl_dsift_new(w, h); g = vl_dsift_new(h, w); vl_dsift_set_geometry(f, &q); vl_dsift_set_steps(f, step, step + 1); vl_dsift_set_flat_window(f, t);
  vl_dsift_process(f, im); vf_begin("Mirror"); keys(f); n = vl_dsift_get_keypoint_num(f); s = vl_dsift_get_descriptor_size(f); vf_key("a"); VF_LIT("["); for (i = 0; i < n; ++i) { if (i) VF_LIT(","); VF_LIT("["); for (j = 0; j < s; ++j) { if (j) VF_LIT(","); vf_num(vl_dsift_get_descriptors(f)[i * s + j]); } VF_LIT("]"); } VF_LIT("]");
  nx = (w - 1 - (q.numBinX - 1) * q.binSizeX) / step + 1; ny = (h - 1 - (q.numBinY - 1) * q.binSizeY) / (step + 1) + 1;
  i = q.numBinX; q.numBinX = q.numBinY; q.numBinY = i; i = q.binSizeX; q.binSizeX = q.binSizeY; q.binSizeY = i; vl_dsift_set_geometry(g, &q); vl_dsift_set_steps(g, step + 1, step); vl_dsift_set_flat_window(g, t); vl_dsift_process(g, im2); vf_key("b"); VF_LIT("[");
  for (i = 0; i < n; ++i) { int k = (i % nx) * ny + i / nx; if (i) VF_LIT(","); VF_LIT("["); for (j = 0; j < s; ++j) { if (j) VF_LIT(","); vf_num(vl_dsift_get_descriptors(g)[k * s + j]); } VF_LIT("]"); } VF_LIT("]"); vf_end(); vl_dsift_delete(f); vl_dsift_delete(g); }
static void digest(VlDsiftFilter *f, const char *k) { int i, n, s; long d[3]; vl_dsift_process(f, im); n = vl_dsift_get_keypoint_num(f); s = vl_dsift_get_descriptor_size(f); d[0] = n; d[1] = vf_fnv(vl_dsift_get_descriptors(f), sizeof(float) * n * s, 0) & 0x3fffffff; d[2] = 0; for (i = 0; i < n; ++i) { VlDsiftKeypoint const *q = vl_dsift_get_keypoints(f) + i; double v[3]; v[0] = q->x; v[1] = q->y; v[2] = q->norm; d[2] = (31 * d[2] + (vf_fnv(v, sizeof v, 0) & 0xffff)) & 0x3fffffff; } VF_SEQ(k, 3, d[i_]); }
static void again(void) { VlDsiftFilter *f, *g; VlDsiftDescriptorGeometry q; int r, a, b, c, d; w = vf_range(2, 30); h = vf_range(2, 30); f = vl_dsift_new(w, h); for (r = vf_range(1, 3); r; --r) { tune(f); picture(); vf_call("process again %dx%d", w, h); vl_dsift_process(f, im); if (vf_rnd(3) == 0) { picture(); vl_dsift_process(f, im); } } tune(f); picture();
  g = vl_dsift_new(w, h); q = *vl_dsift_get_geometry(f); vl_dsift_set_geometry(g, &q); vl_dsift_get_bounds(f, &a, &b, &c, &d); vl_dsift_set_bounds(g, a, b, c, d); vl_dsift_get_steps(f, &a, &b); vl_dsift_set_steps(g, a, b); vl_dsift_set_flat_window(g, vl_dsift_get_flat_window(f)); vl_dsift_set_window_size(g, vl_dsift_get_window_size(f));
  vf_begin("Again"); digest(g, "fresh"); digest(f, "again"); vf_end(); vl_dsift_delete(f); vl_dsift_delete(g); }
int main(int argc, char **argv) { int t, m; vf_init(argc, argv); m = vf_thorough ? 8 : 1; vf_open("dsift");
  for (t = 0; t < 160 * m; ++t) process(); for (t = 0; t < 400 * m; ++t) grid(); for (t = 0; t < 40 * m; ++t) trans(); for (t = 0; t < 60 * m; ++t) mirror(); for (t = 0; t < 200 * m; ++t) again(); return 0; }
