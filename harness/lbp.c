/* local binary patterns */
#include "vf.h"
#include <vl/lbp.h>
static int w, h, px[4096]; static float img[4096], feat[58 * 600];
static void run(int tr, int s, int style) { VlLbp *f; int i, n = (w / s) * (h / s), d; for (i = 0; i < w * h; ++i) img[i] = style == 3 ? px[i] * 0.125f - 7 : px[i];
  for (i = 0; i < 58 * 600; ++i) feat[i] = 77; vf_call("lbp %dx%d cell %d transposed %d", w, h, s, tr); f = vl_lbp_new(VlLbpUniform, tr); d = vl_lbp_get_dimension(f); if (vf_rnd(3) == 0) vl_lbp_process(f, feat, img, w, h, s); vl_lbp_process(f, feat, img, w, h, s); vl_lbp_delete(f);
  for (i = n * 58; i < 58 * 600; ++i) if (feat[i] != 77) d = -1; for (i = 0; i < w * h; ++i) if (img[i] != (style == 3 ? px[i] * 0.125f - 7 : px[i])) d = -2;
  vf_begin("Lbp"); vf_int("w", w); vf_int("h", h); vf_bool("tr", tr); vf_int("s", s); vf_int("dim", d); VF_SEQ("img", w * h, px[i_]);
  /* sparse: [bin, cell, value] */
  vf_key("f"); VF_LIT("["); { int c = 0; for (i = 0; i < n * 58; ++i) if (feat[i] != 0) { if (c++) VF_LIT(","); VF_LIT("["); vf_printf("%d,%d,", i / n, i % n); vf_num(feat[i]); VF_LIT("]"); } } VF_LIT("]"); vf_end(); }
int main(int argc, char **argv) { int t, i, k, s; vf_init(argc, argv); vf_open("lbp");
  /* every pattern at the centre of a 3x3 image */
  for (t = 0; t < 512; ++t) { static const int nb[8] = {5, 8, 7, 6, 3, 0, 1, 2}; w = h = 3; for (i = 0; i < 9; ++i) px[i] = 4; for (i = 0; i < 8; ++i) px[nb[i]] = (t >> i) & 1 ? 5 : 4 - (i & 1); run(t >> 8, 3, t % 4); }
  for (t = 0; t < (vf_thorough ? 3000 : 220); ++t) { s = vf_range(1, t % 3 ? 5 : 9); w = vf_range(1, s + 10); h = vf_range(1, s + 9); k = t % 4; for (i = 0; i < w * h; ++i) px[i] = k == 0 ? vf_range(0, 3) : k == 1 ? vf_range(0, 255) : k == 2 ? (i % w) * 2 + (i / w) * ((t % 5) - 2) : vf_range(0, 1); run(t % 2, s, t % 5); }
  return 0; }
