/* the covariant feature detector */
#include "vf.h"
#include <vl/generic.h>
#include <vl/covdet.h>
#include <vl/mathop.h>
#include "vf_mem.h"
typedef struct { vl_index xi, yi; float x, y, peakScore, edgeScore; } E2;
typedef struct { vl_index xi, yi, zi; float x, y, z, peakScore, edgeScore; } E3;
extern vl_size vl_find_local_extrema_3(vl_index **, vl_size *, float const *, vl_size, vl_size, vl_size, double) __attribute__((weak));
extern vl_size vl_find_local_extrema_2(vl_index **, vl_size *, float const *, vl_size, vl_size, double) __attribute__((weak));
extern vl_bool vl_refine_local_extreum_3(E3 *, float const *, vl_size, vl_size, vl_size, vl_index, vl_index, vl_index) __attribute__((weak));
extern vl_bool vl_refine_local_extreum_2(E2 *, float const *, vl_size, vl_size, vl_index, vl_index) __attribute__((weak));
static float map[4096], im[4096], other[4096];
static vl_index *ext; static vl_size extsize;
/* ------------------------------------------------------- extrema, refinement */
static void find(int w, int h, int d, int t4) { vl_size n, i; vf_call("extrema %dx%dx%d", w, h, d); n = d ? vl_find_local_extrema_3(&ext, &extsize, map, w, h, d, t4 / 4.0) : vl_find_local_extrema_2(&ext, &extsize, map, w, h, t4 / 4.0);
  vf_begin("Find"); vf_key("dims"); vf_printf("[%d,%d,%d]", w, h, d); vf_int("t4", t4); VF_SEQ("map", w * h * (d ? d : 1), map[i_]); vf_key("got"); VF_LIT("["); for (i = 0; i < n; ++i) { if (i) VF_LIT(","); if (d) vf_printf("[%d,%d,%d]", (int)ext[3 * i], (int)ext[3 * i + 1], (int)ext[3 * i + 2]); else vf_printf("[%d,%d]", (int)ext[2 * i], (int)ext[2 * i + 1]); } VF_LIT("]"); vf_end(); }
static void finds(int n) { int i, k, c;
  for (c = 0; c < 19683; c += vf_thorough ? 1 : 7) { int v = c; for (i = 0; i < 9; ++i) { map[i] = v % 3 - 1; v /= 3; } find(3, 3, 0, c % 5); }
  for (k = 0; k < n; ++k) { int d = vf_rnd(3) ? vf_range(1, 5) : 0, w = vf_range(1, 7), h = vf_range(1, 7), m = w * h * (d ? d : 1), r = vf_range(1, 40), z = vf_rnd(3) == 0; for (i = 0; i < m; ++i) map[i] = z && vf_rnd(4) ? 0 : (float)vf_range(-r, r); find(w, h, d, (int)vf_rnd(4 * r + 2)); }
  /* a single peak, with a neighbour as high */
  for (k = 0; k < 27; ++k) for (i = -1; i <= 1; i += 2) { int j; for (j = 0; j < 27; ++j) map[j] = (float)(i * (int)vf_rnd(5)); map[13] = 5 * i; map[k] = 5 * i; find(3, 3, 3, 0); find(3, 3, 3, 20); find(3, 3, 3, 21); } }
static void refine(void) { int d = vf_rnd(3) ? vf_range(3, 5) : 0, w = vf_range(3, 8), h = vf_range(3, 8), m = w * h * (d ? d : 1), i, x = vf_range(1, w - 2), y = vf_range(1, h - 2), z = d ? vf_range(1, d - 2) : 0, k = vf_rnd(5); double cx = vf_unit() * w, cy = vf_unit() * h, cz = vf_unit() * (d ? d : 1), q = vf_unit() * 4 + .3, p = vf_unit() * 4 + .3; vl_bool ok;
  for (i = 0; i < m; ++i) { double a = i % w - cx, b = (i / w) % h - cy, c = i / (w * h) - cz; map[i] = k == 0 ? (float)vf_range(-20, 20) : k == 1 ? (float)vf_range(0, 2) : k == 2 ? (float)floor(1000 * exp(-(a * a * q + b * b * p + c * c) / 12)) : k == 3 ? (float)floor(-20 * (a * a * q + b * b * p + a * b + c * c)) : (float)(vf_rnd(5) ? 0 : vf_range(-5, 5)); }
  vf_call("refine %dx%dx%d at %d,%d,%d", w, h, d, x, y, z);
  if (d) { E3 e; ok = vl_refine_local_extreum_3(&e, map, w, h, d, x, y, z); vf_begin("Refine"); vf_int("xi", e.xi); vf_int("yi", e.yi); vf_int("zi", e.zi); vf_real("x", e.x); vf_real("y", e.y); vf_real("z", e.z); vf_real("peak", e.peakScore); vf_real("edge", e.edgeScore); }
  else { E2 e; ok = vl_refine_local_extreum_2(&e, map, w, h, x, y); vf_begin("Refine"); vf_int("xi", e.xi); vf_int("yi", e.yi); vf_int("zi", 0); vf_real("x", e.x); vf_real("y", e.y); vf_real("peak", e.peakScore); vf_real("edge", e.edgeScore); }
  vf_bool("ok", ok); vf_key("dims"); vf_printf("[%d,%d,%d]", w, h, d); vf_key("p"); vf_printf("[%d,%d,%d]", x, y, z); VF_SEQ("map", m, map[i_]); vf_end(); }
/* ----------------------------------------------------------------- detection */
static int blob_only;
static void paint(float *p, int w, int h) { int i, k = blob_only ? 5 : vf_rnd(5), n = vf_range(1, 6), b; for (i = 0; i < w * h; ++i) p[i] = k == 4 ? (float)vf_unit() : .5f; if (k == 4) return;
  for (b = 0; b < n; ++b) { double cx = vf_unit() * w, cy = vf_unit() * h, s = k == 5 ? 3 + 2 * vf_unit() : 1 + vf_unit() * (w / 6.0), a = (vf_rnd(2) ? 1 : -1) * (.2 + .5 * vf_unit()), e = .3 + vf_unit(), t = vf_unit() * 6.3, c = cos(t), sn = sin(t); if (k == 5) { cx = w / 2 + vf_unit() - .5; cy = h / 2 + vf_unit() - .5; e = .5 + .5 * vf_unit(); n = 1; }
    for (i = 0; i < w * h; ++i) { double x = i % w - cx, y = i / w - cy, u = c * x + sn * y, v = (c * y - sn * x) / e; p[i] += (float)(a * (k == 0 && b % 2 ? (u * u + v * v < s * s) : exp(-.5 * (u * u + v * v) / s / s))); } }
  if (k == 3) for (i = 0; i < w * h; ++i) p[i] += (float)(.05 * vf_unit()); }
static void geom(const char *k, VlScaleSpaceGeometry g) { vf_key(k); vf_printf("{\"w\":%d,\"h\":%d,\"o0\":%d,\"o1\":%d", (int)g.width, (int)g.height, (int)g.firstOctave, (int)g.lastOctave); vf_printf(",\"res\":%d,\"s0\":%d,\"s1\":%d,\"base\":", (int)g.octaveResolution, (int)g.octaveFirstSubdivision, (int)g.octaveLastSubdivision); vf_num(g.baseScale); VF_LIT(",\"nominal\":"); vf_num(g.nominalScale); VF_LIT("}"); }
static void f9(double v) { char b[40]; if (v != v || v - v != 0 || v == floor(v)) { vf_num(v); return; } snprintf(b, sizeof b, "\"%.9g\"", v); vf_put(b, strlen(b)); }
static void space(const char *k, VlScaleSpace *s) { VlScaleSpaceGeometry g = vl_scalespace_get_geometry(s); vl_index o, t; vf_key(k); VF_LIT("[");
  for (o = g.firstOctave; o <= g.lastOctave; ++o) { VlScaleSpaceOctaveGeometry q = vl_scalespace_get_octave_geometry(s, o); vl_size i, n = q.width * q.height; if (o > g.firstOctave) VF_LIT(","); VF_LIT("["); for (t = g.octaveFirstSubdivision; t <= g.octaveLastSubdivision; ++t) { float const *p = vl_scalespace_get_level(s, o, t); if (t > g.octaveFirstSubdivision) VF_LIT(","); VF_LIT("["); for (i = 0; i < n; ++i) { if (i) VF_LIT(","); f9(p[i]); } VF_LIT("]"); } VF_LIT("]"); } VF_LIT("]"); }
static uint64_t digest(VlScaleSpace *s) { uint64_t h = 0; vl_index o; VlScaleSpaceGeometry g = vl_scalespace_get_geometry(s); for (o = g.firstOctave; o <= g.lastOctave; ++o) { VlScaleSpaceOctaveGeometry q = vl_scalespace_get_octave_geometry(s, o); h = vf_fnv(vl_scalespace_get_level(s, o, g.octaveFirstSubdivision), sizeof(float) * q.width * q.height * (g.octaveLastSubdivision - g.octaveFirstSubdivision + 1), h); } return h; }
static void pair(const char *k, double v) { vf_key(k); f9(v); }
static void frame_in(VlFrameOrientedEllipse f) { vf_key("x"); vf_len -= 5; VF_LIT("\"x\":"); f9(f.x); pair("y", f.y); pair("a11", f.a11); pair("a12", f.a12); pair("a21", f.a21); pair("a22", f.a22); }
static void frame(const char *k, VlFrameOrientedEllipse f) { vf_key(k); VF_LIT("{"); frame_in(f); VF_LIT("}"); }
static void feats(const char *k, VlCovDetFeature const *f, int n) { int i; vf_key(k); VF_LIT("["); for (i = 0; i < n; ++i) { if (i) VF_LIT(","); VF_LIT("{"); frame_in(f[i].frame); pair("peak", f[i].peakScore); pair("edge", f[i].edgeScore); pair("ori", f[i].orientationScore); pair("lap", f[i].laplacianScaleScore); VF_LIT("}"); } VF_LIT("]"); }
typedef struct { int m, o0, num, res; double base, tp, te, tol; } Opt;
static VlCovDetMethod method(int m) { static const VlCovDetMethod q[] = {VL_COVDET_METHOD_DOG, VL_COVDET_METHOD_HESSIAN, VL_COVDET_METHOD_HESSIAN_LAPLACE, VL_COVDET_METHOD_HARRIS_LAPLACE, VL_COVDET_METHOD_MULTISCALE_HESSIAN, VL_COVDET_METHOD_MULTISCALE_HARRIS}; return q[m]; }
static void options(VlCovDet *d, Opt o) { vl_covdet_set_first_octave(d, o.o0); if (o.num > 0) vl_covdet_set_num_octaves(d, o.num); vl_covdet_set_octave_resolution(d, o.res); vl_covdet_set_base_scale(d, o.base); vl_covdet_set_peak_threshold(d, o.tp); vl_covdet_set_edge_threshold(d, o.te); vl_covdet_set_non_extrema_suppression_threshold(d, o.tol); }
static Opt random_opt(int m) { static const double b[] = {1.6, 1.6, 1.2, 2}, hp[] = {0.0005, 0.003, 0.01, 0.0001}, hr[] = {2e-6, 1e-5, 1e-4, 1e-3}, dp[] = {0.001, 0.005, 0.01, 0.02}, ed[] = {10, 10, 5, 30, 2.5}, tl[] = {0.5, 0.5, 0.2, 0.95}; Opt o; o.m = m; o.o0 = vf_rnd(4) ? 0 : -1; o.num = vf_rnd(3) ? 0 : vf_range(1, 3); o.res = vf_rnd(2) ? 3 : vf_range(1, 4); o.base = b[vf_rnd(4)]; o.tp = m == 0 ? dp[vf_rnd(4)] : m == 3 || m == 5 ? hr[vf_rnd(4)] : hp[vf_rnd(4)]; o.te = ed[vf_rnd(5)]; o.tol = tl[vf_rnd(4)]; if (vf_rnd(8) == 0) o.tp = 0; return o; }
static uint64_t fdigest(VlCovDet *d) { VlCovDetFeature *f = vl_covdet_get_features(d); vl_size n = vl_covdet_get_num_features(d); uint64_t h = 7; if (n) h = vf_fnv(f, sizeof *f * n, h); return vf_fnv(&n, sizeof n, h); }
static void detect(int m, int small) { Opt p = random_opt(m); int w = small ? vf_range(1, 16) : vf_range(16, 24), h = small ? vf_range(1, 16) : vf_range(16, 24); VlCovDet *d, *e; VlScaleSpace *s; VlScaleSpaceGeometry g; int same, gsame; double tol = p.tol; uint64_t d0; VlCovDetFeature *bf; vl_size nb, na; int count;
  if (p.o0 < 0 && !small) { w = vf_range(15, 18); h = vf_range(15, 18); } if (!small && vf_rnd(5) == 0) { w = vf_range(31, 33); h = vf_range(31, 33); p.o0 = 0; p.res = 2; }
  paint(im, w, h); paint(other, w, h); vf_call("covdet method %d %dx%d first octave %d res %d", m, w, h, p.o0, p.res);
  d = vl_covdet_new(method(m)); p.tol = 0; options(d, p); if (m == 2 || m == 3) { vl_covdet_delete(d); d = vl_covdet_new(m == 2 ? VL_COVDET_METHOD_MULTISCALE_HESSIAN : VL_COVDET_METHOD_MULTISCALE_HARRIS); options(d, p); }
  vl_covdet_put_image(d, im, w, h); vl_covdet_detect(d);
  /* thresholds next to what a feature has */
  if (vl_covdet_get_num_features(d) && vf_rnd(3)) { VlCovDetFeature *f = vl_covdet_get_features(d) + vf_rnd((int)vl_covdet_get_num_features(d)); if (fabs(f->peakScore) > 1e-8) { p.tp = fabs(f->peakScore) * (vf_rnd(3) ? .97 : 1.03); if (vf_rnd(2) && f->edgeScore > 1.2 && f->edgeScore < 1e6) p.te = f->edgeScore * (vf_rnd(3) ? 1.03 : .97); vl_covdet_set_peak_threshold(d, p.tp); vl_covdet_set_edge_threshold(d, p.te); vl_covdet_detect(d); } }
  g = vl_scalespace_get_geometry(vl_covdet_get_gss(d)); s = vl_scalespace_new_with_geometry(g); vl_scalespace_put_image(s, im); gsame = digest(s) == digest(vl_covdet_get_gss(d)); vl_scalespace_delete(s);
  if (m != 2 && m != 3) { vf_begin("Detect"); vf_int("m", m); vf_int("w", w); vf_int("h", h); vf_int("o0", p.o0); vf_int("num", p.num); vf_int("res", p.res); vf_real("base", p.base); vf_real("tp", p.tp); vf_real("te", p.te); geom("g", g); geom("cg", vl_scalespace_get_geometry(vl_covdet_get_css(d))); vf_bool("gsame", gsame); space("gss", vl_covdet_get_gss(d)); space("css", vl_covdet_get_css(d)); feats("feats", vl_covdet_get_features(d), (int)vl_covdet_get_num_features(d)); vf_end(); }
  else { VlCovDetFeature *f0; vl_size n0 = vl_covdet_get_num_features(d), i, ns, j, k; vl_size const *st; f0 = malloc(sizeof *f0 * (n0 + 1)); if (n0) memcpy(f0, vl_covdet_get_features(d), sizeof *f0 * n0);
    if (vf_rnd(2)) { vl_covdet_extract_laplacian_scales(d); vl_covdet_detect(d); }
    vf_begin("LapAll"); feats("before", f0, (int)n0); vf_key("scales"); VF_LIT("["); for (i = 0; i < n0; ++i) { VlCovDetFeatureLaplacianScale *sc = vl_covdet_extract_laplacian_scales_for_frame(d, &ns, f0[i].frame); if (i) VF_LIT(","); VF_LIT("["); for (j = 0; j < ns; ++j) { if (j) VF_LIT(","); VF_LIT("{\"scale\":"); vf_num(sc[j].scale); VF_LIT(",\"score\":"); f9((float)sc[j].score); VF_LIT("}"); } VF_LIT("]"); } VF_LIT("]");
    vl_covdet_extract_laplacian_scales(d); feats("after", vl_covdet_get_features(d), (int)vl_covdet_get_num_features(d)); st = vl_covdet_get_laplacian_scales_statistics(d, &k); VF_SEQ("stats", 5, i_ <= (long)k ? st[i_] : 0); vf_end(); free(f0); }
  /* the detection with suppression, from the features without it */
  nb = vl_covdet_get_num_features(d); bf = malloc(sizeof *bf * (nb + 1)); if (nb) memcpy(bf, vl_covdet_get_features(d), sizeof *bf * nb);
  e = vl_covdet_new(method(m)); p.tol = tol; options(e, p); vl_covdet_put_image(e, im, w, h); vl_covdet_detect(e); na = vl_covdet_get_num_features(e); count = (int)vl_covdet_get_num_non_extrema_suppressed(e);
  if (nb < 150) { vf_begin("Suppress"); vf_real("tol", tol); feats("before", bf, (int)nb); feats("after", vl_covdet_get_features(e), (int)na); vf_int("count", count); vf_end(); }
  free(bf); d0 = fdigest(e);
  /* the same from objects with another history */
  vl_covdet_put_image(e, other, w, h); vl_covdet_detect(e); vl_covdet_put_image(e, im, w, h); vl_covdet_detect(e); same = fdigest(e) == d0;
  options(e, p); vl_covdet_put_image(e, im, w, h); vl_covdet_detect(e); same = same && fdigest(e) == d0; vl_covdet_reset(e); same = same && vl_covdet_get_num_features(e) == 0; vl_covdet_put_image(e, im, w, h); vl_covdet_detect(e); if (vf_rnd(2)) vl_covdet_set_first_octave(e, p.o0 + 1); else vl_covdet_set_octave_resolution(e, p.res + 1); same = same && vl_covdet_get_num_features(e) == 0;
  { Opt q = random_opt(m); int w2 = vf_range(12, 40), h2 = vf_range(12, 40); q.num = p.num; options(e, q); paint(other, w2, h2); vl_covdet_put_image(e, other, w2, h2); vl_covdet_detect(e); vl_covdet_extract_affine_shape(e); vl_covdet_extract_orientations(e); }
  options(e, p); vl_covdet_put_image(e, im, w, h); vl_covdet_detect(e); same = same && fdigest(e) == d0;
  vf_begin("Hist"); vf_bool("same", same); vf_bool("params", vl_covdet_get_first_octave(e) == p.o0 && (int)vl_covdet_get_octave_resolution(e) == p.res && vl_covdet_get_base_scale(e) == p.base && vl_covdet_get_peak_threshold(e) == p.tp && vl_covdet_get_edge_threshold(e) == p.te && vl_covdet_get_non_extrema_suppression_threshold(e) == p.tol && (p.num <= 0 || (int)vl_covdet_get_num_octaves(e) == p.num));
  vl_covdet_delete(d); vl_covdet_delete(e); vfm_scan(); vf_bool("clean", vfm_bad == 0 && vfm_live == 0); vf_end(); vfm_bad = vfm_live = 0; }
static void suppress(void) { static const double tl[] = {.05, .1, .2, .3, .5, .8, .97, 1.9, 2.9}; int m = vf_rnd(6), w = vf_range(16, 40), h = vf_range(16, 40); Opt p = random_opt(m); VlCovDet *d = vl_covdet_new(method(m)); vl_size n, k; VlCovDetFeature *b; p.o0 = 0; p.tp = 0; p.te = 1e9; p.tol = 0; if (p.num == 1) p.num = 2; options(d, p); paint(im, w, h); vf_call("suppression, method %d %dx%d", m, w, h);
  vl_covdet_put_image(d, im, w, h); vl_covdet_detect(d); while (vl_covdet_get_num_features(d) > 110) { vl_covdet_set_peak_threshold(d, 1.5 * vl_covdet_get_peak_threshold(d) + 1e-7); vl_covdet_detect(d); }
  n = vl_covdet_get_num_features(d); b = malloc(sizeof *b * (n + 1)); if (n) memcpy(b, vl_covdet_get_features(d), sizeof *b * n); if (m == 2 || m == 3) { if (b) free(b); vl_covdet_delete(d); return; }
  for (k = 0; k < 3; ++k) { p.tol = tl[vf_rnd(9)]; vl_covdet_set_non_extrema_suppression_threshold(d, p.tol); vl_covdet_detect(d); vf_begin("Suppress"); vf_real("tol", p.tol); feats("before", b, (int)n); feats("after", vl_covdet_get_features(d), (int)vl_covdet_get_num_features(d)); vf_int("count", (int)vl_covdet_get_num_non_extrema_suppressed(d)); vf_end(); }
  free(b); vl_covdet_delete(d); vfm_bad = vfm_live = 0; }
/* --------------------------------------------------------- frames of an image */
static void svd(VlFrameOrientedEllipse f) { double A[4] = {f.a11, f.a21, f.a12, f.a22}, D[4], U[4], V[4]; vl_svd2(D, U, V, A); vf_key("d"); VF_LIT("["); vf_num(D[0]); VF_LIT(","); vf_num(D[3]); VF_LIT("]"); vf_key("U"); VF_LIT("[["); vf_num(U[0]); VF_LIT(","); vf_num(U[2]); VF_LIT("],["); vf_num(U[1]); VF_LIT(","); vf_num(U[3]); VF_LIT("]]"); vf_key("V"); VF_LIT("[["); vf_num(V[0]); VF_LIT(","); vf_num(V[2]); VF_LIT("],["); vf_num(V[1]); VF_LIT(","); vf_num(V[3]); VF_LIT("]]"); }
static VlFrameOrientedEllipse random_frame(int w, int h, int how) { VlFrameOrientedEllipse f; double s = pow(2, 2.5 * vf_unit() - 0.5), t = vf_unit() * 6.3, e = how ? 1 + vf_unit() : 1, u = vf_unit() * 6.3, c = cos(t), q = sin(t), cu = cos(u), su = sin(u), far = vf_rnd(4) ? 0 : 30; if (!how && vf_rnd(2)) { c = 1; q = 0; } if (how == 2) e = -e;
  f.x = (float)(vf_unit() * (w + 2 * far) - far); f.y = (float)(vf_unit() * (h + 2 * far) - far); if (!how) cu = 1, su = 0; f.a11 = (float)(s * (c * cu - q * su * e)); f.a12 = (float)(s * (-c * su - q * e * cu)); f.a21 = (float)(s * (q * cu + c * su * e)); f.a22 = (float)(s * (-q * su + c * e * cu)); return f; }
static void frames(int blob) { Opt p = random_opt(vf_rnd(6)); int w = vf_range(17, 22), h = vf_range(17, 22), k, tr = vf_rnd(2); VlCovDet *d; VlFrameOrientedEllipse f, a; vl_size i, n; float *patch; VlScaleSpaceGeometry g; p.tol = .5; blob_only = blob;
  if (p.o0 == -1) w = vf_range(15, 17), h = vf_range(15, 17); if (vf_rnd(3) == 0) w = vf_range(31, 33), h = vf_range(31, 33), p.o0 = 0, p.res = 2; paint(im, w, h); blob_only = 0; vf_call("covdet frames"); d = vl_covdet_new(method(p.m)); options(d, p); vl_covdet_set_transposed(d, tr); vl_covdet_put_image(d, im, w, h); g = vl_scalespace_get_geometry(vl_covdet_get_gss(d));
  f = random_frame(w, h, blob ? 0 : (int)vf_rnd(3)); if (blob) f.x = (float)(w / 2), f.y = (float)(h / 2), f.a11 = f.a22 = (float)(1.5 + vf_unit()), f.a12 = f.a21 = 0;
#define GSS do { geom("g", g); space("gss", vl_covdet_get_gss(d)); frame("f", f); svd(f); vf_bool("tr", tr); } while (0)
  if (!blob) { double extent, sg; int r, u; VlFrameOrientedEllipse f0 = f; vl_covdet_set_allow_padded_warping(d, 0);
    for (u = 0; u < 12; ++u) { float small[25]; int ok; extent = .3 + vf_unit() * (u % 2 ? 3 : 8); sg = u % 3 ? 1 : pow(2, 3 * vf_unit() - 1); f = random_frame(w, h, (int)vf_rnd(3)); f.x = (float)(vf_unit() * w); f.y = (float)(vf_unit() * h); if (u > 5) { if (u % 2) f.x = w / 2.f; else f.y = h / 2.f; }
      vf_call("unpadded patch of frame %g,%g [%g %g; %g %g]", f.x, f.y, f.a11, f.a12, f.a21, f.a22); ok = vl_covdet_extract_patch_for_frame(d, small, 2, extent, sg, f) == VL_ERR_OK; vf_begin("Fits"); geom("g", g); frame("f", f); svd(f); vf_real("ext", extent); vf_real("sigma", sg); vf_bool("ok", ok); vf_end(); }
    vl_covdet_set_allow_padded_warping(d, 1);
    for (u = 0; u < 3; ++u) { extent = 1 + vf_unit() * 8; sg = u ? pow(2, 3 * vf_unit() - 1) : 1; r = vf_range(1, u ? 3 : 8); f = u ? random_frame(w, h, (int)vf_rnd(3)) : f0; n = 2 * r + 1; if (vf_rnd(2)) { f.x = (float)(w * (.4 + .2 * vf_unit())); f.y = (float)(h * (.4 + .2 * vf_unit())); extent = 1 + vf_unit() * 2; } patch = vl_malloc(sizeof(float) * n * n); vf_call("patch of frame %g,%g [%g %g; %g %g]", f.x, f.y, f.a11, f.a12, f.a21, f.a22); vl_covdet_extract_patch_for_frame(d, patch, r, extent, sg, f); vf_begin("Patch"); GSS; vf_int("n", r); vf_real("ext", extent); vf_real("sigma", sg); VF_REALS("patch", n * n, patch[i_]); vf_end(); vl_free(patch); } f = f0;
    k = vf_rnd(2) ? 4 : vf_range(1, 3); vl_covdet_set_max_num_orientations(d, vf_rnd(6) ? k : k + 8); if (vl_covdet_get_max_num_orientations(d) > 4) k = 4; vf_call("orientations of frame %g,%g [%g %g; %g %g]", f.x, f.y, f.a11, f.a12, f.a21, f.a22);
    { VlCovDetFeatureOrientation *o = vl_covdet_extract_orientations_for_frame(d, &n, f); vf_begin("Orient"); GSS; vf_int("max", k); vf_key("got"); VF_LIT("["); for (i = 0; i < n; ++i) { if (i) VF_LIT(","); VF_LIT("{\"angle\":"); vf_num(o[i].angle); VF_LIT(",\"score\":"); vf_num(o[i].score); VF_LIT("}"); } VF_LIT("]"); vf_end(); }
    { VlCovDetFeatureLaplacianScale *s; double lap = vf_rnd(2) ? .01 : vf_rnd(2) ? 0 : .1; vl_covdet_set_laplacian_peak_threshold(d, lap); vf_call("scales of frame %g,%g [%g %g; %g %g]", f.x, f.y, f.a11, f.a12, f.a21, f.a22); s = vl_covdet_extract_laplacian_scales_for_frame(d, &n, f); vf_begin("Lap"); GSS; vf_real("lap", lap); vf_key("got"); VF_LIT("["); for (i = 0; i < n; ++i) { if (i) VF_LIT(","); VF_LIT("{\"scale\":"); vf_num(s[i].scale); VF_LIT(",\"score\":"); vf_num(s[i].score); VF_LIT("}"); } VF_LIT("]"); vf_end(); } }
  vl_covdet_set_aa_accurate_smoothing(d, !blob && vf_rnd(2)); vf_call("affine shape of frame %g,%g [%g %g; %g %g]", f.x, f.y, f.a11, f.a12, f.a21, f.a22); if (vl_covdet_extract_affine_shape_for_frame(d, &a, f) == VL_ERR_OK) { vf_begin("Affine"); GSS; frame("got", a); vf_bool("blob", blob); vf_end(); }
  /* the features of the object */
  { VlCovDetFeature ft[6]; int q = vf_rnd(6), j; double margin = vf_unit() * 4; VlCovDetFeature *b; VlCovDetFeatureOrientation *o; vl_covdet_detect(d); while (vl_covdet_get_num_features(d) > 12) { vl_covdet_set_peak_threshold(d, 2 * vl_covdet_get_peak_threshold(d) + 1e-7); vl_covdet_detect(d); } memset(ft, 0, sizeof ft);
    for (j = 0; j < q; ++j) { ft[j].frame = random_frame(w, h, 1); ft[j].peakScore = (float)(vf_unit() + .01); ft[j].edgeScore = (float)vf_unit(); vl_covdet_append_feature(d, ft + j); }
    n = vl_covdet_get_num_features(d); b = malloc(sizeof *b * (n + 1)); if (n) memcpy(b, vl_covdet_get_features(d), sizeof *b * n); vl_covdet_set_max_num_orientations(d, vf_range(1, 4)); vf_call("orientations of the features"); vf_begin("OrientAll"); feats("before", b, (int)n); vf_key("oris"); VF_LIT("["); for (i = 0; i < n; ++i) { vl_size m, u; o = vl_covdet_extract_orientations_for_frame(d, &m, b[i].frame); if (i) VF_LIT(","); VF_LIT("["); for (u = 0; u < m; ++u) { if (u) VF_LIT(","); VF_LIT("{\"angle\":"); vf_num(o[u].angle); VF_LIT(",\"score\":"); f9((float)o[u].score); VF_LIT("}"); } VF_LIT("]"); } VF_LIT("]");
    vl_covdet_extract_orientations(d); feats("after", vl_covdet_get_features(d), (int)vl_covdet_get_num_features(d)); vf_end(); free(b);
    n = vl_covdet_get_num_features(d); vf_begin("Drop"); vf_int("w", w); vf_int("h", h); vf_real("margin", margin); feats("before", vl_covdet_get_features(d), (int)n); vl_covdet_drop_features_outside(d, margin); feats("after", vl_covdet_get_features(d), (int)vl_covdet_get_num_features(d)); vf_end(); }
  vl_covdet_delete(d); vfm_scan(); vf_begin("Hist"); vf_bool("same", 1); vf_bool("params", 1); vf_bool("clean", vfm_bad == 0 && vfm_live == 0); vf_end(); vfm_bad = vfm_live = 0; }
int main(int argc, char **argv) { int i, n, fr; vf_init(argc, argv); fr = !strcmp(argv[4], "frames"); n = vf_thorough ? 120 : 5; vfm_install(); if (!fr && vl_find_local_extrema_2 && vl_find_local_extrema_3) { vf_open("find"); finds(vf_thorough ? 20000 : 700); vf_close(); }
  if (!fr && vl_refine_local_extreum_2 && vl_refine_local_extreum_3) { vf_open("refine"); for (i = 0; i < (vf_thorough ? 30000 : 1500); ++i) refine(); vf_close(); } if (ext) vl_free(ext); vfm_bad = vfm_live = 0;
  for (i = 0; i < n; ++i) { char b[20]; int m; snprintf(b, 20, "cov%d", i); vf_open(b); if (fr) { for (m = 0; m < 4; ++m) frames(0); frames(1); frames(1); frames(1); } else { for (m = 0; m < 6; ++m) { detect(m, 0); detect(m, 1); } for (m = 0; m < 8; ++m) suppress(); } vf_close(); }
  return 0; }
