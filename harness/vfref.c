/* vfref(KIND, ...): the C library called directly on the memory of MATLAB arrays,
   without conversion to MATLAB's conventions. The oracle for the MEX files.   */
#include <mexutils.h>
#include <vl/sift.h>
#include <vl/dsift.h>
#include <vl/covdet.h>
#include <vl/liop.h>
#include <vl/hog.h>
#include <vl/lbp.h>
#include <vl/kmeans.h>
#include <vl/gmm.h>
#include <vl/fisher.h>
#include <vl/vlad.h>
#include <vl/kdtree.h>
#include <vl/ikmeans.h>
#include <vl/hikmeans.h>
#include <vl/homkermap.h>
#include <vl/slic.h>
#include <vl/quickshift.h>
#include <vl/random.h>
#include <vl/imopv.h>
#include <string.h>
#include <math.h>

#define P(i) mxGetPr(in[i])
#define F(i) ((float*)mxGetData(in[i]))
#define ROWS(i) ((vl_size)mxGetM(in[i]))
#define COLS(i) ((vl_size)mxGetN(in[i]))
#define DIM(i,k) ((k) < (int)mxGetNumberOfDimensions(in[i]) ? (vl_size)mxGetDimensions(in[i])[k] : 1)
static mxArray *dbl(vl_size m, vl_size n) { return mxCreateDoubleMatrix(m, n, mxREAL); }
static mxArray *flt(vl_size m, vl_size n) { mwSize d[2]; d[0] = m; d[1] = n; return mxCreateNumericArray(2, d, mxSINGLE_CLASS, mxREAL); }

/* sift(I, [O S omin peak edge norm magnif window], frames(x,y,sigma,angle), orient) -> 132 x n: x y sigma angle descriptor */
static void sift(mxArray **out, const mxArray **in, int nin) {
  double *p = P(1), *buf = 0; vl_size n = 0, cap = 0; int given = nin > 2 && !mxIsEmpty(in[2]), orient = nin > 3 && *P(3), err, i, q, j;
  VlSiftFilt *f = vl_sift_new((int)ROWS(0), (int)COLS(0), (int)p[0], (int)p[1], (int)p[2]);
  if (p[3] == p[3]) vl_sift_set_peak_thresh(f, p[3]);
  if (p[4] == p[4]) vl_sift_set_edge_thresh(f, p[4]);
  if (p[5] == p[5]) vl_sift_set_norm_thresh(f, p[5]);
  if (p[6] == p[6]) vl_sift_set_magnif(f, p[6]);
  if (p[7] == p[7]) vl_sift_set_window_size(f, p[7]);
  for (err = vl_sift_process_first_octave(f, F(0)); !err; err = vl_sift_process_next_octave(f)) {
    int nk; VlSiftKeypoint const *ks; VlSiftKeypoint own;
    if (given) nk = (int)COLS(2); else { vl_sift_detect(f); nk = vl_sift_get_nkeypoints(f); }
    ks = vl_sift_get_keypoints(f);
    for (i = 0; i < nk; ++i) {
      double a[4]; int na = 1; VlSiftKeypoint const *k = given ? &own : ks + i;
      if (given) {
        double *g = P(2) + 4 * i;
        vl_sift_keypoint_init(f, &own, g[0], g[1], g[2]);
        if (own.o != vl_sift_get_octave_index(f)) continue;
        a[0] = g[3];
      }
      if (!given || orient) na = vl_sift_calc_keypoint_orientations(f, a, k);
      for (q = 0; q < na; ++q) {
        float d[128]; double *b;
        vl_sift_calc_keypoint_descriptor(f, d, k, a[q]);
        if (n == cap) { cap = 2 * cap + 16; buf = buf ? mxRealloc(buf, cap * 132 * sizeof(double)) : mxMalloc(cap * 132 * sizeof(double)); }
        b = buf + 132 * n++;
        b[0] = k->x; b[1] = k->y; b[2] = k->sigma; b[3] = a[q];
        for (j = 0; j < 128; ++j) b[4 + j] = d[j];
      }
    }
  }
  out[0] = dbl(132, n); if (n) memcpy(mxGetPr(out[0]), buf, 132 * n * sizeof(double));
  vl_sift_delete(f);
}

/* raw(grad 2 x M x N, frames(x,y,sigma,angle), [magnif norm]) -> 128 x n */
static void raw(mxArray **out, const mxArray **in) {
  vl_size n = COLS(1), k; int M = (int)DIM(0, 1), N = (int)DIM(0, 2); double *p = P(2);
  VlSiftFilt *f = vl_sift_new(M, N, -1, 3, 0);
  if (p[0] == p[0]) vl_sift_set_magnif(f, p[0]);
  if (p[1] == p[1]) vl_sift_set_norm_thresh(f, p[1]);
  out[0] = flt(128, n);
  for (k = 0; k < n; ++k) { double *g = P(1) + 4 * k; vl_sift_calc_raw_descriptor(f, F(0), (float*)mxGetData(out[0]) + 128 * k, M, N, g[0], g[1], g[2], g[3]); }
  vl_sift_delete(f);
}

/* dsift(I, [stepX stepY binX binY nbX nbY nbT flat window x0 y0 x1 y1]) -> (x y norm) x n, descriptors */
static void dsift(mxArray **out, const mxArray **in) {
  double *p = P(1); int n, i; vl_size s; VlDsiftDescriptorGeometry g; VlDsiftKeypoint const *k;
  VlDsiftFilter *f = vl_dsift_new((int)ROWS(0), (int)COLS(0));
  g.numBinX = (int)p[4]; g.numBinY = (int)p[5]; g.numBinT = (int)p[6]; g.binSizeX = (int)p[2]; g.binSizeY = (int)p[3];
  vl_dsift_set_geometry(f, &g); vl_dsift_set_steps(f, (int)p[0], (int)p[1]);
  if (p[9] == p[9]) vl_dsift_set_bounds(f, (int)p[9], (int)p[10], (int)p[11], (int)p[12]);
  vl_dsift_set_flat_window(f, (int)p[7]); if (p[8] == p[8]) vl_dsift_set_window_size(f, p[8]);
  vl_dsift_process(f, F(0));
  n = vl_dsift_get_keypoint_num(f); s = vl_dsift_get_descriptor_size(f); k = vl_dsift_get_keypoints(f);
  out[0] = dbl(3, n); out[1] = flt(s, n);
  for (i = 0; i < n; ++i) { mxGetPr(out[0])[3*i] = k[i].x; mxGetPr(out[0])[3*i+1] = k[i].y; mxGetPr(out[0])[3*i+2] = k[i].norm; }
  if (n) memcpy(mxGetData(out[1]), vl_dsift_get_descriptors(f), n * s * sizeof(float));
  vl_dsift_delete(f);
}

/* covdet(I, [method first resolution octaves base peak edge lap maxori affine orient margin], frames(x y a11 a21 a12 a22),
          [type resolution extent smoothing bins neighbours radius threshold])
   -> (x y a11 a21 a12 a22 peak edge orientation laplacian) x n, descriptors (type 1 patches, 2 raw SIFT, 3 LIOP) */
static void covdet(mxArray **out, const mxArray **in) {
  double *p = P(1), *q = P(3); vl_size n, k, w; int i; VlCovDetFeature const *ft;
  VlCovDet *c = vl_covdet_new((VlCovDetMethod)(int)p[0]);
  vl_covdet_set_transposed(c, VL_TRUE);
  vl_covdet_set_first_octave(c, (vl_index)p[1]);
  if (p[2] == p[2]) vl_covdet_set_octave_resolution(c, (vl_size)p[2]);
  if (p[3] == p[3]) vl_covdet_set_num_octaves(c, (vl_size)p[3]);
  if (p[4] == p[4]) vl_covdet_set_base_scale(c, p[4]);
  if (p[5] == p[5]) vl_covdet_set_peak_threshold(c, p[5]);
  if (p[6] == p[6]) vl_covdet_set_edge_threshold(c, p[6]);
  if (p[7] == p[7]) vl_covdet_set_laplacian_peak_threshold(c, p[7]);
  if (p[8] == p[8]) vl_covdet_set_max_num_orientations(c, (vl_size)p[8]);
  vl_covdet_put_image(c, F(0), ROWS(0), COLS(0));
  if (ROWS(2) == 6) {
    for (k = 0; k < COLS(2); ++k) {
      VlCovDetFeature g; double *u = P(2) + 6 * k; memset(&g, 0, sizeof g);
      g.peakScore = VL_INFINITY_F; g.edgeScore = 1;
      g.frame.x = (float)u[0]; g.frame.y = (float)u[1]; g.frame.a11 = (float)u[2]; g.frame.a21 = (float)u[3]; g.frame.a12 = (float)u[4]; g.frame.a22 = (float)u[5];
      vl_covdet_append_feature(c, &g);
    }
  } else { vl_covdet_detect(c); if (p[11] > 0) vl_covdet_drop_features_outside(c, p[11]); }
  if (p[9]) vl_covdet_extract_affine_shape(c);
  if (p[10]) vl_covdet_extract_orientations(c);
  n = vl_covdet_get_num_features(c); ft = vl_covdet_get_features(c);
  out[0] = dbl(10, n);
  for (k = 0; k < n; ++k) {
    double *b = mxGetPr(out[0]) + 10 * k;
    b[0] = ft[k].frame.x; b[1] = ft[k].frame.y; b[2] = ft[k].frame.a11; b[3] = ft[k].frame.a21; b[4] = ft[k].frame.a12; b[5] = ft[k].frame.a22;
    b[6] = ft[k].peakScore; b[7] = ft[k].edgeScore; b[8] = ft[k].orientationScore; b[9] = ft[k].laplacianScaleScore;
  }
  w = 2 * (vl_size)q[1] + 1;
  if (q[0] == 0) out[1] = flt(0, 0);
  else {
    vl_size dim = w * w; float *t = mxMalloc(sizeof(float) * w * w), *g = mxMalloc(2 * sizeof(float) * w * w); VlLiopDesc *l = 0; VlSiftFilt *s = vl_sift_new(16, 16, 1, 3, 0);
    if (q[0] == 2) dim = 128;
    if (q[0] == 3) { l = vl_liopdesc_new((vl_int)q[5], (vl_int)q[4], (float)q[6], w); if (q[7] == q[7]) vl_liopdesc_set_intensity_threshold(l, (float)q[7]); dim = vl_liopdesc_get_dimension(l); }
    vl_sift_set_magnif(s, 3.0);
    out[1] = flt(dim, n);
    for (k = 0; k < n; ++k) {
      float *d = (float*)mxGetData(out[1]) + dim * k;
      vl_covdet_extract_patch_for_frame(c, t, (vl_size)q[1], q[2], q[3], ft[k].frame);
      if (q[0] == 1) memcpy(d, t, dim * sizeof(float));
      else if (q[0] == 3) vl_liopdesc_process(l, d, t);
      else {
        vl_imgradient_polar_f(g, g + 1, 2, 2 * w, t, w, w, w);
        /* a bin is 4/5 of half the patch ... the extent covers (4 + 1)/2 bins of 3 sigma */
        vl_sift_calc_raw_descriptor(s, g, d, (int)w, (int)w, (double)(w - 1) / 2, (double)(w - 1) / 2, q[1] / 7.5, VL_PI / 2);
      }
    }
    if (l) vl_liopdesc_delete(l); vl_sift_delete(s);
  }
  (void)i; vl_covdet_delete(c);
}

/* liop(I, [neighbours bins radius threshold]) -> dim x n */
static void liop(mxArray **out, const mxArray **in) {
  double *p = P(1); vl_size w = DIM(0, 0), n = DIM(0, 2), k, d; VlLiopDesc *l = vl_liopdesc_new((vl_int)p[0], (vl_int)p[1], (float)p[2], w);
  if (p[3] == p[3]) vl_liopdesc_set_intensity_threshold(l, (float)p[3]);
  d = vl_liopdesc_get_dimension(l); out[0] = flt(d, n);
  for (k = 0; k < n; ++k) vl_liopdesc_process(l, (float*)mxGetData(out[0]) + d * k, F(0) + w * w * k);
  vl_liopdesc_delete(l);
}

/* hog(I with the rows of the image in its columns, [cell variant orientations bilinear input width height channels]) -> 3D, columns first */
static void hog(mxArray **out, const mxArray **in) {
  double *p = P(1); vl_size W = (vl_size)p[5], H = (vl_size)p[6]; mwSize d[3];
  VlHog *h = vl_hog_new((VlHogVariant)(int)p[1], (vl_size)p[2], VL_FALSE);
  vl_hog_set_use_bilinear_orientation_assignments(h, (vl_bool)p[3]);
  if (p[4] == 0) vl_hog_put_image(h, F(0), W, H, (vl_size)p[7], (vl_size)p[0]);
  else vl_hog_put_polar_field(h, F(0), F(0) + W * H, p[4] == 1, W, H, (vl_size)p[0]);
  d[0] = vl_hog_get_width(h); d[1] = vl_hog_get_height(h); d[2] = vl_hog_get_dimension(h);
  out[0] = mxCreateNumericArray(3, d, mxSINGLE_CLASS, mxREAL);
  vl_hog_extract(h, mxGetData(out[0])); vl_hog_delete(h);
}
/* hoginfo([variant orientations]) -> dimension, glyph size, permutation */
static void hoginfo(mxArray **out, const mxArray **in) {
  VlHog *h = vl_hog_new((VlHogVariant)(int)P(0)[0], (vl_size)P(0)[1], VL_FALSE); vl_size n = vl_hog_get_dimension(h), k;
  out[0] = dbl(1, 1); *mxGetPr(out[0]) = (double)n; out[1] = dbl(1, 1); *mxGetPr(out[1]) = (double)vl_hog_get_glyph_size(h);
  out[2] = dbl(1, n); for (k = 0; k < n; ++k) mxGetPr(out[2])[k] = (double)vl_hog_get_permutation(h)[k];
  vl_hog_delete(h);
}
/* hogrender(features (columns first), [variant orientations]) -> image (columns first) */
static void hogrender(mxArray **out, const mxArray **in) {
  VlHog *h = vl_hog_new((VlHogVariant)(int)P(1)[0], (vl_size)P(1)[1], VL_FALSE); vl_size W = DIM(0, 0), H = DIM(0, 1), g = vl_hog_get_glyph_size(h);
  out[0] = flt(W * g, H * g); vl_hog_render(h, mxGetData(out[0]), F(0), W, H); vl_hog_delete(h);
}
/* lbp(I columns first, cell) -> columns first */
static void lbp(mxArray **out, const mxArray **in) {
  VlLbp *l = vl_lbp_new(VlLbpUniform, VL_FALSE); vl_size c = (vl_size)*P(1); mwSize d[3];
  d[0] = ROWS(0) / c; d[1] = COLS(0) / c; d[2] = vl_lbp_get_dimension(l);
  out[0] = mxCreateNumericArray(3, d, mxSINGLE_CLASS, mxREAL);
  vl_lbp_process(l, mxGetData(out[0]), F(0), ROWS(0), COLS(0), c); vl_lbp_delete(l);
}
#include "vfref_learn.h"

void mexFunction(int nout, mxArray *out[], int nin, const mxArray *in[]) {
  char kind[64] = ""; (void)nout;
  VL_USE_MATLAB_ENV;
  mxGetString(in[0], kind, sizeof kind); ++in; --nin;
#define K(n) if (!strcmp(kind, #n))
  K(sift) sift(out, in, nin); else K(raw) raw(out, in); else K(dsift) dsift(out, in); else K(covdet) covdet(out, in);
  else K(liop) liop(out, in); else K(hog) hog(out, in); else K(hoginfo) hoginfo(out, in); else K(hogrender) hogrender(out, in);
  else K(lbp) lbp(out, in); else if (learn(kind, out, in, nin)) ; else mexErrMsgTxt("vfref: unknown kind");
}
