/* Gaussian scale spaces */
#include "vf.h"
#include <vl/generic.h>
#include <vl/scalespace.h>
#include "vf_mem.h"
static float im[4096], other[4096];
static void geom(const char *k, VlScaleSpaceGeometry g) { vf_key(k);
  vf_printf("{\"w\":%d,\"h\":%d,\"o0\":%d,\"o1\":%d", (int)g.width, (int)g.height, (int)g.firstOctave, (int)g.lastOctave); vf_printf(",\"res\":%d,\"s0\":%d,\"s1\":%d,\"base\":", (int)g.octaveResolution, (int)g.octaveFirstSubdivision, (int)g.octaveLastSubdivision);
  vf_num(g.baseScale); VF_LIT(",\"nominal\":"); vf_num(g.nominalScale); VF_LIT("}"); }
static void paint(float *p, int n, int w) { int i, k = vf_rnd(4); double c = vf_unit() * 100; for (i = 0; i < n; ++i) p[i] = k == 0 ? (float)c : k == 1 ? (float)vf_range(0, 255) : k == 2 ? (float)(i == n / 2 ? 100 : 0) : (float)(3 * (i % w) + i / w); }
static VlScaleSpaceGeometry random_geom(int max) { VlScaleSpaceGeometry g; static const double b[] = {1.6, 2.0158737, 0.8, 0.5, 1, 2.5, 0.4}; static const double nm[] = {0.5, 0, 0.4, 1, 0.5, 0.5}; int room = 0, m;
  g.width = vf_range(1, max); g.height = vf_rnd(4) ? (vl_size)vf_range(1, max) : g.width; m = (int)(g.width < g.height ? g.width : g.height); while ((m >> (room + 1)) >= 1) room++;
  g.lastOctave = vf_range(-2, room > 3 ? 3 : room); if (max > 12 && g.lastOctave < 0) g.lastOctave = 0; g.firstOctave = g.lastOctave - vf_rnd(3); if (g.firstOctave < -2) g.firstOctave = -2; if (max > 12 && g.firstOctave < -1) g.firstOctave = -1;
  g.octaveResolution = vf_range(1, 4); g.octaveFirstSubdivision = vf_range(-2, 1); g.octaveLastSubdivision = g.octaveFirstSubdivision + vf_rnd(g.octaveResolution + 3); g.baseScale = b[vf_rnd(7)]; g.nominalScale = nm[vf_rnd(6)]; return g; }
static size_t bytes(VlScaleSpace *s, vl_index o) { VlScaleSpaceGeometry g = vl_scalespace_get_geometry(s); VlScaleSpaceOctaveGeometry q = vl_scalespace_get_octave_geometry(s, o); return sizeof(float) * q.width * q.height * (g.octaveLastSubdivision - g.octaveFirstSubdivision + 1); }
static uint64_t digest(VlScaleSpace *s) { uint64_t h = 0; vl_index o; VlScaleSpaceGeometry g = vl_scalespace_get_geometry(s); for (o = g.firstOctave; o <= g.lastOctave; ++o) h = vf_fnv(vl_scalespace_get_level(s, o, g.octaveFirstSubdivision), bytes(s, o), h); return h; }
static void space(int max, int flat) { VlScaleSpaceGeometry g = random_geom(max), gg; VlScaleSpace *s, *c, *f, *sh; vl_index o, t; int n = (int)(g.width * g.height), same, first = 1; uint64_t d0, d1, d2, d3, d4;
  if (flat) { g.width |= 1; g.height |= 1; n = (int)(g.width * g.height); g.octaveLastSubdivision = g.octaveFirstSubdivision + vf_rnd(2); }
  paint(im, n, (int)g.width); paint(other, n, (int)g.width);
  vf_call("scalespace %dx%d octaves %d..%d subs %d..%d res %d", (int)g.width, (int)g.height, (int)g.firstOctave, (int)g.lastOctave, (int)g.octaveFirstSubdivision, (int)g.octaveLastSubdivision, (int)g.octaveResolution);
  s = vl_scalespace_new_with_geometry(g); if (vf_rnd(2)) vl_scalespace_put_image(s, other); vl_scalespace_put_image(s, im); d0 = digest(s); c = vl_scalespace_new_copy(s); sh = vl_scalespace_new_shallow_copy(s); d1 = digest(c);
  f = vl_scalespace_new_with_geometry(g); vl_scalespace_put_image(f, im); d2 = digest(f); vl_scalespace_put_image(f, other); vl_scalespace_put_image(c, other); d3 = digest(s); d4 = digest(f); same = d0 == d1 && d0 == d2 && d0 == d3 && d4 == digest(c);
  gg = vl_scalespace_get_geometry(sh); same = same && vl_scalespacegeometry_is_equal(g, gg); vl_scalespace_put_image(sh, im); same = same && digest(sh) == d0; gg = vl_scalespace_get_geometry(c); same = same && vl_scalespacegeometry_is_equal(g, gg);
  vl_scalespace_delete(f); vl_scalespace_delete(c); vl_scalespace_delete(sh);
  vf_begin("Space"); geom("g", g); geom("got", vl_scalespace_get_geometry(s)); vf_bool("same", same); VF_REALS("im", n, im[i_]);
  vf_key("oct"); VF_LIT("["); for (o = g.firstOctave; o <= g.lastOctave; ++o) { VlScaleSpaceOctaveGeometry q = vl_scalespace_get_octave_geometry(s, o); int k = (int)(q.width * q.height); vf_printf(first ? "{\"o\":%d,\"w\":%d,\"h\":%d,\"step\":" : ",{\"o\":%d,\"w\":%d,\"h\":%d,\"step\":", (int)o, (int)q.width, (int)q.height); first = 0; vf_num(q.step);
    VF_LIT(",\"sigma\":["); for (t = g.octaveFirstSubdivision; t <= g.octaveLastSubdivision; ++t) { if (t > g.octaveFirstSubdivision) VF_LIT(","); vf_num(vl_scalespace_get_level_sigma(s, o, t)); }
    VF_LIT("],\"levels\":["); for (t = g.octaveFirstSubdivision; t <= g.octaveLastSubdivision; ++t) { float const *p = vl_scalespace_get_level_const(s, o, t); int i; VF_LIT("["); if (t > g.octaveFirstSubdivision) { vf_len--; VF_LIT(",["); } for (i = 0; i < k; ++i) { if (i) VF_LIT(","); vf_num(p[i]); } VF_LIT("]"); } VF_LIT("]}"); }
  VF_LIT("]"); vl_scalespace_delete(s); vf_bool("clean", vfm_bad == 0 && vfm_live == 0); vf_end(); vfm_bad = vfm_live = 0; }
static void equal(void) { VlScaleSpaceGeometry a = random_geom(9), b = a; switch (vf_rnd(12)) { case 0: b.width++; break; case 1: b.height++; break; case 2: b.firstOctave--; break; case 3: b.lastOctave++; break; case 4: b.octaveResolution++; break; case 5: b.octaveFirstSubdivision--; break; case 6: b.octaveLastSubdivision++; break; case 7: b.baseScale += 0.25; break; case 8: b.nominalScale += 0.25; break; case 9: b = random_geom(3); break; }
  vf_call("geometry equality"); vf_begin("Equal"); geom("a", a); geom("b", b); vf_bool("eq", vl_scalespacegeometry_is_equal(a, b)); vf_end(); }
static void deflt(int w, int h) { VlScaleSpaceGeometry g, q; VlScaleSpace *s; vf_call("default geometry %dx%d", w, h); g = vl_scalespace_get_default_geometry(w, h); vf_begin("Default"); vf_int("w", w); vf_int("h", h); geom("g", g); q = g; if ((long)w * h < 100000) { s = vl_scalespace_new(w, h); q = vl_scalespace_get_geometry(s); vl_scalespace_delete(s); } geom("made", q); vf_end(); }
int main(int argc, char **argv) { int i, k, n; vf_init(argc, argv); n = vf_thorough ? 1500 : 150; vfm_install(); vf_open("scale");
  for (i = 0; i < n; ++i) { space(i % 5 == 4 ? 17 : 8, 0); space(i % 3 ? 9 : 5, 1); }
  for (i = 0; i < 3 * n; ++i) equal();
  for (k = 0; k < 20; ++k) for (i = -1; i <= 1; ++i) { int v = (1 << k) + i; if (v < 1) continue; deflt(v, v); deflt(v, v + (int)vf_rnd(50)); deflt(v + (int)vf_rnd(50), v); }
  vf_close(); return 0; }
