/* image operators; argv[4]: conv | tri | dt */
#include "vf.h"
#include <vl/generic.h>
#include <vl/imopv.h>
#define GUARD 77777.0
static int w, h, ss, off, type, simd; static int px[4096];
static float sf_[8192] __attribute__((aligned(16))), df_[8192] __attribute__((aligned(16))); static double sd_[8192] __attribute__((aligned(16))), dd_[8192] __attribute__((aligned(16)));
static float *sf; static double *sd;
static int at(int x, int y) { return px[y * w + x]; }
/* place the image in memory: stride ss, misaligned by off, surrounded by guards */
static void place(void) { int i, x, y; sf = sf_ + 16 + off; sd = sd_ + 16 + off; for (i = 0; i < 8192; ++i) { sf_[i] = 5555; sd_[i] = 5555; df_[i] = GUARD; dd_[i] = GUARD; }
  for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { sf[y * ss + x] = at(x, y); sd[y * ss + x] = at(x, y); } }
static void rows(const char *k) { int x, y; vf_key(k); vf_put("[", 1); for (y = 0; y < h; ++y) { vf_put(y ? ",[" : "[", y ? 2 : 1); for (x = 0; x < w; ++x) vf_printf(x ? ",%d" : "%d", at(x, y)); vf_put("]", 1); } vf_put("]", 1); }
static double dv(int i) { return type ? dd_[i] : df_[i]; }
/* the result as rows; addressing by strides; also checks that nothing else was written */
static void outrows(const char *k, int ow, int oh, int base, int xs, int ys, double scale, int exact) { static char used[8192]; int x, y, i, ok = 1; memset(used, 0, sizeof used);
  vf_key(k); vf_put("[", 1); for (y = 0; y < oh; ++y) { vf_put(y ? ",[" : "[", y ? 2 : 1); for (x = 0; x < ow; ++x) { int p = base + x * xs + y * ys; used[p] = 1; vf_printf(x ? ",%ld" : "%ld", exact ? vf_exact(dv(p) * scale) : vf_scaled(dv(p), scale)); } vf_put("]", 1); } vf_put("]", 1);
  for (i = 0; i < 8192; ++i) if (!used[i] && dv(i) != GUARD) ok = 0; { char t[40]; sprintf(t, "%s_guard", k); vf_bool(t, ok); } }
static void geometry(int maxw, int maxh) { int i, k = vf_rnd(4); w = vf_range(1, maxw); h = vf_range(1, maxh); ss = w + (vf_rnd(2) ? vf_rnd(5) : 0); if (vf_rnd(2)) ss = (ss + 3) & ~3; off = vf_rnd(3) ? 0 : vf_rnd(4); type = vf_rnd(2); simd = vf_rnd(3) != 0; vl_set_simd_enabled(simd);
  for (i = 0; i < w * h; ++i) px[i] = k == 0 ? vf_range(0, 9) : k == 1 ? vf_range(-50, 50) : k == 2 ? (vf_rnd(6) == 0) : i + 1; place(); }
static void conv(int fixed, int a, int b, int stp, int pad, int tr) { int fb, fe, i, step, ds, base = 20, dh; int f[64]; static float ff[64]; static double fd[64]; unsigned fl;
  if (fixed) { fb = a; fe = b; step = stp; } else { int c = vf_rnd(5); fb = c == 0 ? vf_range(-6, 6) : -vf_range(0, 5); fe = c == 0 ? vf_range(fb, fb + 6) : c == 1 ? vf_range(0, 5) : -fb; if (fe < fb) fe = fb; step = vf_rnd(2) ? 1 : vf_range(1, 4); pad = vf_rnd(2); tr = vf_rnd(2); }
  for (i = 0; i <= fe - fb; ++i) { f[i] = vf_range(-3, 4); if (f[i] == 0) f[i] = 7; ff[i] = f[i]; fd[i] = f[i]; }
  dh = (h - 1) / step + 1; ds = (tr ? dh : w) + (vf_rnd(2) ? vf_rnd(4) : 0); fl = (pad ? VL_PAD_BY_CONTINUITY : VL_PAD_BY_ZERO) | (tr ? VL_TRANSPOSE : 0);
  vf_call("imconvcol %dx%d stride %d filter [%d,%d] step %d flags %u type %d simd %d", w, h, ss, fb, fe, step, fl, type, simd);
  if (type) vl_imconvcol_vd(dd_ + base, ds, sd, w, h, ss, fd, fb, fe, step, fl); else vl_imconvcol_vf(df_ + base, ds, sf, w, h, ss, ff, fb, fe, step, fl);
  vf_begin("Conv"); rows("img"); VF_SEQ("f", fe - fb + 1, f[i_]); vf_int("fb", fb); vf_int("fe", fe); vf_int("step", step); vf_str("pad", pad ? "cont" : "zero"); vf_bool("tr", tr); vf_int("type", type); vf_bool("simd", simd);
  outrows("out", w, dh, base, tr ? ds : 1, tr ? 1 : ds, 1, 1); vf_end(); }
static void tri(void) { int n = vf_range(1, vf_rnd(3) ? 5 : 12), step = vf_rnd(2) ? 1 : vf_range(1, 4), pad = vf_rnd(2), tr = vf_rnd(2), dh = (h - 1) / step + 1, ds = (tr ? dh : w) + vf_rnd(3), base = 20; unsigned fl = (pad ? VL_PAD_BY_CONTINUITY : VL_PAD_BY_ZERO) | (tr ? VL_TRANSPOSE : 0);
  vf_call("imconvcoltri %dx%d stride %d size %d step %d flags %u", w, h, ss, n, step, fl);
  if (type) vl_imconvcoltri_d(dd_ + base, ds, sd, w, h, ss, n, step, fl); else vl_imconvcoltri_f(df_ + base, ds, sf, w, h, ss, n, step, fl);
  vf_begin("Tri"); rows("img"); vf_int("n", n); vf_int("step", step); vf_str("pad", pad ? "cont" : "zero"); vf_bool("tr", tr); vf_int("type", type); outrows("out", w, dh, base, tr ? ds : 1, tr ? 1 : ds, 1000.0 * n * n, 0); vf_end(); }
static void integral(void) { int base = 20, is = w + vf_rnd(4), x, y, k = vf_rnd(4);
  vf_call("imintegral %dx%d", w, h);
  if (k == 0) vl_imintegral_d(dd_ + base, is, sd, w, h, ss); else if (k == 1) vl_imintegral_f(df_ + base, is, sf, w, h, ss);
  else { static vl_int32 si[8192], di[8192]; int i; for (i = 0; i < 8192; ++i) { si[i] = 5; di[i] = 77777; } for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { if (k == 3) px[y * w + x] = abs(px[y * w + x]); si[y * ss + x] = at(x, y); }
    if (k == 2) vl_imintegral_i32(di + base, is, si, w, h, ss); else vl_imintegral_ui32((vl_uint32*)di + base, is, (vl_uint32*)si, w, h, ss); for (i = 0; i < 8192; ++i) dd_[i] = di[i]; type = 1; }
  if (k < 2) type = k == 0; vf_begin("Integral"); rows("img"); vf_int("kind", k); outrows("out", w, h, base, 1, is, 1, 1); vf_end(); }
static float gf[2][8192]; static double gd[2][8192];
static void grad(void) { int xs, ys, p, base = 20, polar = vf_rnd(2), lay = vf_rnd(3), i; if (w < 2 || h < 2) return;
  if (lay == 0) { xs = 1; ys = w + vf_rnd(3); } else if (lay == 1) { ys = 1; xs = h + vf_rnd(3); } else { xs = 2; ys = 2 * w; }
  for (i = 0; i < 8192; ++i) gf[0][i] = gf[1][i] = gd[0][i] = gd[1][i] = GUARD;
  vf_call("imgradient %s %dx%d", polar ? "polar" : "", w, h);
  if (polar) { if (type) vl_imgradient_polar_d(gd[0] + base, gd[1] + base, xs, ys, sd, w, h, ss); else vl_imgradient_polar_f(gf[0] + base, gf[1] + base, xs, ys, sf, w, h, ss); }
  else { if (type) vl_imgradient_d(gd[0] + base, gd[1] + base, xs, ys, sd, w, h, ss); else vl_imgradient_f(gf[0] + base, gf[1] + base, xs, ys, sf, w, h, ss); }
  vf_begin(polar ? "Polar" : "Grad"); rows("img"); vf_int("type", type);
  for (p = 0; p < 2; ++p) { for (i = 0; i < 8192; ++i) { df_[i] = gf[p][i]; dd_[i] = gd[p][i]; } outrows(p ? "b" : "a", w, h, base, xs, ys, polar ? 10000 : 2, !polar); }
  vf_end(); }
static void smooth(void) { double s[] = {0.3, 0.5, 0.8, 1.0, 1.3, 2.0}; int a = vf_rnd(6), b = vf_rnd(3) ? vf_rnd(6) : a, os = w + vf_rnd(3), base = 20;
  vf_call("imsmooth %dx%d %g %g", w, h, s[a], s[b]);
  if (type) vl_imsmooth_d(dd_ + base, os, sd, w, h, ss, s[a], s[b]); else vl_imsmooth_f(df_ + base, os, sf, w, h, ss, s[a], s[b]);
  vf_begin("Smooth"); rows("img"); vf_int("type", type); vf_real("sx", s[a]); vf_real("sy", s[b]); outrows("out", w, h, base, 1, os, 10000, 0); vf_end(); }
/* ---- distance transform ---- */
static double rv[4096]; static vl_uindex ix[4096];
static void vals(const char *k, int nr, int nc, int rs, int cs, double (*g)(int)) { int x, y; vf_key(k); vf_put("[", 1); for (y = 0; y < nr; ++y) { vf_put(y ? ",[" : "[", y ? 2 : 1); for (x = 0; x < nc; ++x) { if (x) vf_put(",", 1); vf_num(g(y * rs + x * cs)); } vf_put("]", 1); } vf_put("]", 1); }
static double gin(int i) { return rv[i]; } static double gout(int i) { return type ? dd_[i] : df_[i]; } static double gix(int i) { return (double)ix[i]; }
static void dtone(int nc, int nr, int kind) { static const double cs_[] = {1, 0.5, 2, 0, 0.3, 10, 0.01}; static const double os_[] = {0, 0, 0.5, -1, 1.25, 3, -2.5}; double c = cs_[vf_rnd(7)], o = os_[vf_rnd(7)], c2 = cs_[vf_rnd(7)], o2 = os_[vf_rnd(7)]; int i, n = nc * nr, two = vf_rnd(3) == 0, useidx = vf_rnd(4) != 0, inplace = vf_rnd(3) == 0, colmajor = vf_rnd(2), cstr, rstr, k = vf_rnd(5);
  if (kind >= 0) { c = cs_[kind % 4]; o = os_[(kind / 4) % 7]; two = 0; } type = vf_rnd(2);
  if (kind < 0) for (i = 0; i < n; ++i) rv[i] = k == 0 ? vf_range(0, 20) : k == 1 ? (vf_rnd(4) ? INFINITY : 0) : k == 2 ? vf_range(-5, 5) * 0.5 : k == 3 ? (vf_rnd(3) ? vf_range(0, 3) : INFINITY) : vf_range(0, 1000) / 16.0;
  cstr = colmajor ? 1 : nr; rstr = colmajor ? nc : 1;
  for (i = 0; i < n; ++i) { sf_[i] = rv[i]; sd_[i] = rv[i]; df_[i] = rv[i]; dd_[i] = rv[i]; ix[i] = 10 * i + 3; }
  if (!inplace) for (i = 0; i < n; ++i) { df_[i] = GUARD; dd_[i] = GUARD; }
  vf_call("image_distance_transform %d cols %d rows coeff %g offset %g type %d", nc, nr, c, o, type);
  if (type) vl_image_distance_transform_d(inplace ? dd_ : sd_, nc, nr, cstr, rstr, dd_, useidx ? ix : 0, c, o); else vl_image_distance_transform_f(inplace ? df_ : sf_, nc, nr, cstr, rstr, df_, useidx ? ix : 0, c, o);
  if (two) { if (type) vl_image_distance_transform_d(dd_, nr, nc, rstr, cstr, dd_, useidx ? ix : 0, c2, o2); else vl_image_distance_transform_f(df_, nr, nc, rstr, cstr, df_, useidx ? ix : 0, c2, o2); }
  vf_begin(two ? "DT2" : "DT1"); vals("img", nr, nc, rstr, cstr, gin); vf_real("c", c); vf_real("o", o); vf_real("c2", c2); vf_real("o2", o2); vf_int("type", type); vf_bool("useidx", useidx); vf_int("cs", cstr); vf_int("rs", rstr);
  vals("out", nr, nc, rstr, cstr, gout); vals("idx", nr, nc, rstr, cstr, gix); vf_end(); }
int main(int argc, char **argv) { int t, a, b, s; const char *m; vf_init(argc, argv); m = argv[4]; vf_open(m);
  if (!strcmp(m, "conv")) { /* every small support, step and padding */
    for (a = -3; a <= 3; ++a) for (b = a; b <= 3; ++b) for (h = 1; h <= 3; ++h) for (s = 0; s < 4; ++s) { int i, hh = h; geometry(5, 1); h = hh; for (i = 0; i < w * h; ++i) px[i] = vf_range(-9, 9); place(); conv(1, a, b, 1 + (s + h) % 3, s & 1, s >> 1); }
    for (t = 0; t < (vf_thorough ? 9000 : 1200); ++t) { geometry(t % 4 ? 11 : 23, t % 5 ? 8 : 20); conv(0, 0, 0, 0, 0, 0); } }
  else if (!strcmp(m, "tri")) for (t = 0; t < (vf_thorough ? 8000 : 1600); ++t) { geometry(t % 4 ? 7 : 13, t % 5 ? 7 : 16); s = t % 8; if (s < 3) tri(); else if (s == 3) integral(); else if (s < 7) grad(); else smooth(); }
  else { for (t = 0; t < 28; ++t) for (a = 0; a < 256; ++a) if (t % 4 == a % 4 || vf_thorough) { int i, x = a; static const double v[] = {0, 1, 3, INFINITY}; for (i = 0; i < 4; ++i) { rv[i] = v[x % 4]; x /= 4; } dtone(4, 1, t); }
    for (t = 0; t < (vf_thorough ? 6000 : 900); ++t) dtone(vf_range(1, t % 5 ? 6 : 15), vf_range(1, t % 3 ? 3 : 6), -1); }
  return 0; }
