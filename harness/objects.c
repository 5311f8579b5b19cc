/* every module of the library in turn, once per scenario; argv[4]:
 *   mem   the allocator calls between the birth and the death of the objects
 *   fault the same with an allocation failing, for what handles that
 *   same  digests of the results under memory fills, histories and processors
 *   once  the same for one of each, for another build of the library */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
#define malloc __real_malloc
#define calloc __real_calloc
#define realloc __real_realloc
#define free __real_free
#include "vf.h"
#include "vf_mem.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#include <unistd.h>
#include <vl/generic.h>
#include <vl/random.h>
#include <vl/kdtree.h>
#include <vl/kmeans.h>
#include <vl/gmm.h>
#include <vl/fisher.h>
#include <vl/vlad.h>
#include <vl/svm.h>
#include <vl/svmdataset.h>
#include <vl/homkermap.h>
#include <vl/hog.h>
#include <vl/lbp.h>
#include <vl/liop.h>
#include <vl/sift.h>
#include <vl/dsift.h>
#include <vl/covdet.h>
#include <vl/scalespace.h>
#include <vl/mser.h>
#include <vl/quickshift.h>
#include <vl/slic.h>
#include <vl/aib.h>
#include <vl/ikmeans.h>
#include <vl/hikmeans.h>
#include <vl/array.h>
#include <vl/pgm.h>
#include <vl/imopv.h>
#include <vl/mathop.h>
#include <vl/rodrigues.h>
/* ------------------------------------------------------------ the recorder */
static int logging, filled = 0xa5; static void **slot; static long nslot, aslot;
static long slot_of(void *p) { long i; static long h[8192]; unsigned long k = ((unsigned long)p >> 4) % 8191; if (!p) return -1; while (h[k]) { if (slot[h[k] - 1] == p) return h[k] - 1; k = (k + 1) % 8191; }
  if (nslot == 6000) return 6000; if (!slot) slot = __real_malloc(8000 * sizeof *slot); i = nslot++; slot[i] = p; h[k] = i + 1; return i; }
static void note(const char *e, void *p, void *q, size_t n) { if (!logging) return; vf_begin(e); vf_int("p", slot_of(p)); if (*e == 'R') vf_int("q", slot_of(q)); vf_int("n", (long)n); vf_end(); }
static void *h_malloc(size_t n) { void *p = vfm_malloc(n); note("Alloc", p, 0, n); return p; }
static void *h_calloc(size_t n, size_t k) { void *p = vfm_calloc(n, k); note("Alloc", p, 0, n * k); return p; }
static void *h_realloc(void *p, size_t n) { void *q = vfm_realloc(p, n); note("Realloc", p, q, n); return q; }
static void h_free(void *p) { note("Free", p, 0, 0); vfm_free(p); }
/* what the library does not ask the registered functions for */
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) memset(p, filled, n); note("Direct", p, 0, n); return p; }
void *__wrap_calloc(size_t n, size_t k) { void *p = __real_calloc(n, k); note("Direct", p, 0, n * k); return p; }
void *__wrap_realloc(void *p, size_t n) { void *q = __real_realloc(p, n); note("Free2", p, 0, 0); note("Direct", q, 0, n); return q; }
void __wrap_free(void *p) { note("Free2", p, 0, 0); __real_free(p); }
/* ------------------------------------------------------- inputs and outputs */
static uint64_t S, dig, digi; static int hist; static void *pool[400]; static int npool;
static uint64_t S0; static int nre; static void re(void) { S = S0 + 77777 * ++nre; }   /* what came before does not matter */
static unsigned rn(unsigned n) { S = S * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)((S >> 33) % n); }
static double ru(void) { return rn(1 << 20) / (double)(1 << 20); }
static int rr(int a, int b) { return a + (int)rn(b - a + 1); }
static void *keep(size_t n) { void *p = __real_malloc(n + 8); memset(p, filled, n + 8); pool[npool++] = p; return p; }
static float *fl(int n) { float *p = keep(4 * n); int i; for (i = 0; i < n; ++i) p[i] = (float)ru(); return p; }
static float *fi(int n, int m) { float *p = keep(4 * n); int i; for (i = 0; i < n; ++i) p[i] = (float)rn(m); return p; }
static double *db(int n) { double *p = keep(8 * n); int i; for (i = 0; i < n; ++i) p[i] = ru(); return p; }
static double *di(int n, int m) { double *p = keep(8 * n); int i; for (i = 0; i < n; ++i) p[i] = (double)rn(m); return p; }
static vl_uint8 *by(int n, int m) { vl_uint8 *p = keep(n); int i; for (i = 0; i < n; ++i) p[i] = rn(m); return p; }
static void *any(vl_type t, int n) { return t == VL_TYPE_FLOAT ? (void *)fl(n) : (void *)db(n); }
static void *anyi(vl_type t, int n, int m) { return t == VL_TYPE_FLOAT ? (void *)fi(n, m) : (void *)di(n, m); }
static void O(const void *p, size_t n) { if (p && n) dig = vf_fnv(p, n, dig); dig = dig * 31 + n; }
static void OI(const void *p, size_t n) { O(p, n); if (p && n) digi = vf_fnv(p, n, digi); digi = digi * 31 + n; }
static void on(long v) { O(&v, sizeof v); }
static void oi(long v) { OI(&v, sizeof v); }
static void of(double v) { O(&v, sizeof v); }
static vl_type ty(void) { return rn(2) ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE; }
static size_t sz(vl_type t) { return t == VL_TYPE_FLOAT ? 4 : 8; }
static VlVectorComparisonType dist12(void) { return rn(2) ? VlDistanceL1 : VlDistanceL2; }
static void seed(void) { vl_rand_seed(vl_get_rand(), 17 + rn(1000)); }
static float *paint(int w, int h) { float *p = fl(w * h); int i, k; for (i = 0; i < w * h; ++i) p[i] *= .1f; for (k = 0; k < 4; ++k) { double x = rn(w), y = rn(h), s = 1 + 3 * ru(), a = ru(); for (i = 0; i < w * h; ++i) { double u = i % w - x, v = i / w - y; p[i] += (float)(a * exp(-.5 * (u * u + v * v) / s / s)); } } return p; }
/* ----------------------------------------------------------------- scenarios */
static void s_kdtree(void) { vl_type t = ty(); int D = rr(1, 4), N = rr(1, 40), T = rr(1, 3), Q = rr(1, 8), K = rr(1, 5), i, k, m; void *x = anyi(t, D * N, 9), *q = anyi(t, D * Q, 9), *dis = keep(8 * Q * K); vl_uint32 *id = keep(4 * Q * K); VlKDForestNeighbor *nb = keep(sizeof *nb * K); VlKDForest *f = vl_kdforest_new(t, D, T, dist12()); VlKDForestSearcher *s;
  seed(); vl_kdforest_set_thresholding_method(f, rn(2) ? VL_KDTREE_MEAN : VL_KDTREE_MEDIAN); m = rn(3) ? 0 : rr(1, 20); if (hist) { int n2 = rr(1, N); vl_kdforest_set_max_num_comparisons(f, 3); vl_kdforest_build(f, n2, x); vl_kdforest_query(f, nb, K, q); if (hist > 1) { vl_kdforest_new_searcher(f); vl_kdforest_new_searcher(f); } } re(); seed(); vl_rand_seed(vl_get_rand(), D + N); vl_kdforest_set_max_num_comparisons(f, m); vl_kdforest_build(f, N, x);
  for (i = 0; i < T; ++i) { oi(vl_kdforest_get_depth_of_tree(f, i)); oi(vl_kdforest_get_num_nodes_of_tree(f, i)); }
  for (k = 0; k < (hist ? 2 : 1); ++k) for (i = 0; i < Q; ++i) { int j, n = vl_kdforest_query(f, nb, K, (char *)q + sz(t) * D * i); if (k == hist > 0) { on(n); for (j = 0; j < K; ++j) { oi(nb[j].index == (vl_uindex)-1 ? -1 : (long)nb[j].index); of(nb[j].distance); } } }
  s = vl_kdforest_new_searcher(f); if (hist > 1) vl_kdforestsearcher_delete(vl_kdforest_new_searcher(f)); for (i = 0; i < Q; ++i) { vl_kdforestsearcher_query(s, nb, K, (char *)q + sz(t) * D * i); oi(nb[0].index); } if (rn(2)) vl_kdforestsearcher_delete(s);
  vl_kdforest_query_with_array(f, id, K, Q, rn(2) ? dis : 0, q); OI(id, 4 * Q * K); vl_kdforest_delete(f); }
static void s_kmeans(void) { vl_type t = ty(); int D = rr(1, 4), N = rr(3, 40), K = rr(1, 3), Q = rr(1, 9), al = rn(3), in = rn(2); VlVectorComparisonType ds = dist12(); void *x = any(t, D * N), *q = any(t, D * Q), *dd = keep(8 * (N + Q)); vl_uint32 *a = keep(4 * (N + Q)); VlKMeans *m = vl_kmeans_new(t, ds), *c;
  if (hist) { vl_kmeans_set_algorithm(m, hist > 1 ? VlKMeansANN : VlKMeansElkan); vl_kmeans_set_num_repetitions(m, 2); vl_kmeans_cluster(m, q, D, Q, 1); if (hist > 1) vl_kmeans_reset(m); } re();
  vl_kmeans_set_algorithm(m, al == 0 ? VlKMeansLloyd : al == 1 ? VlKMeansElkan : VlKMeansANN); vl_kmeans_set_initialization(m, in ? VlKMeansPlusPlus : VlKMeansRandomSelection); vl_kmeans_set_num_repetitions(m, rr(1, 2)); vl_kmeans_set_max_num_iterations(m, rr(1, 10)); vl_kmeans_set_max_num_comparisons(m, 10); vl_kmeans_set_num_trees(m, rr(1, 2)); vl_rand_seed(vl_get_rand(), N);
  of(vl_kmeans_cluster(m, x, D, N, K)); O(vl_kmeans_get_centers(m), sz(t) * D * K); of(vl_kmeans_get_energy(m)); vl_kmeans_quantize(m, a, dd, x, N); O(a, 4 * N); O(dd, sz(t) * N); vl_kmeans_quantize_ann(m, a, dd, x, N, VL_FALSE); O(a, 4 * N); O(dd, sz(t) * N);
  c = vl_kmeans_new_copy(m); of(vl_kmeans_refine_centers(c, q, Q)); O(vl_kmeans_get_centers(c), sz(t) * D * K); vl_kmeans_set_centers(c, x, D, N); vl_kmeans_quantize(c, a, rn(2) ? dd : 0, q, Q); O(a, 4 * Q); if (rn(2)) vl_kmeans_reset(c); vl_kmeans_delete(c); vl_kmeans_delete(m); }
static void s_gmm(void) { vl_type t = ty(); int D = rr(1, 4), K = rr(1, 3), N = rr(4, 40), i; void *x = any(t, D * N); VlGMM *g = vl_gmm_new(t, D, K), *c; VlKMeans *km = 0; int in = rn(3), n;
  if (hist) { void *y = any(t, D * 9); vl_gmm_set_initialization(g, VlGMMRand); vl_gmm_set_max_num_iterations(g, 2); vl_gmm_cluster(g, y, 9); if (hist > 1) vl_gmm_reset(g); vl_gmm_set_num_repetitions(g, 1); } re();
  vl_gmm_set_max_num_iterations(g, rr(1, 8)); vl_gmm_set_num_repetitions(g, rr(1, 2)); vl_gmm_set_covariance_lower_bound(g, 1e-3); vl_rand_seed(vl_get_rand(), N);
  if (in == 0) { vl_gmm_set_initialization(g, VlGMMKMeans); if (rn(2)) { km = vl_kmeans_new(t, VlDistanceL2); vl_kmeans_set_algorithm(km, VlKMeansElkan); vl_gmm_set_kmeans_init_object(g, km); } else vl_gmm_set_kmeans_init_object(g, 0); of(vl_gmm_cluster(g, x, N)); }
  else if (in == 1) { vl_gmm_set_initialization(g, VlGMMRand); of(vl_gmm_cluster(g, x, N)); }
  else { void *m = any(t, D * K), *v = any(t, D * K), *p = any(t, K); vl_gmm_set_initialization(g, VlGMMCustom); for (i = 0; i < D * K; ++i) if (t == VL_TYPE_FLOAT) ((float *)v)[i] += .1f; else ((double *)v)[i] += .1; vl_gmm_set_num_repetitions(g, 1); vl_gmm_set_means(g, m); vl_gmm_set_covariances(g, v); vl_gmm_set_priors(g, p); of(vl_gmm_em(g, x, N)); }
  O(vl_gmm_get_means(g), sz(t) * D * K); O(vl_gmm_get_covariances(g), sz(t) * D * K); O(vl_gmm_get_priors(g), sz(t) * K); O(vl_gmm_get_posteriors(g), sz(t) * N * K); c = vl_gmm_new_copy(g); O(vl_gmm_get_means(c), sz(t) * D * K); O(vl_gmm_get_posteriors(c), 0);
  { void *e = keep(8 * 2 * D * K); int fl_[] = {0, VL_FISHER_FLAG_NORMALIZED, VL_FISHER_FLAG_SQUARE_ROOT, VL_FISHER_FLAG_IMPROVED, VL_FISHER_FLAG_FAST}; n = vl_fisher_encode(e, t, vl_gmm_get_means(g), D, K, vl_gmm_get_covariances(g), vl_gmm_get_priors(g), x, N, fl_[rn(5)]); on(n); O(e, sz(t) * 2 * D * K); e = keep(8 * D * K); vl_vlad_encode(e, t, vl_gmm_get_means(g), D, K, x, N, vl_gmm_get_posteriors(g), rn(8)); O(e, sz(t) * D * K); }
  vl_gmm_delete(c); vl_gmm_delete(g); if (km) vl_kmeans_delete(km); }
static void s_svm(void) { int D = rr(1, 4), N = rr(2, 20), i, hk = rn(3) == 0; double *x = db(D * N), *y = di(N, 2), lam = .01 + ru() * .2; VlSvmSolverType so = rn(2) ? VlSvmSolverSgd : VlSvmSolverSdca; VlSvm *s; VlSvmDataset *d = 0; VlHomogeneousKernelMap *h = 0; for (i = 0; i < N; ++i) y[i] = 2 * y[i] - 1;
  if (hk || rn(2)) { vl_type t = ty(); void *xx = any(t, D * N); d = vl_svmdataset_new(t, xx, D, N); if (hk) { h = vl_homogeneouskernelmap_new(rn(3), 1, 1, -1, rn(2)); vl_svmdataset_set_homogeneous_kernel_map(d, h); if (rn(2)) vl_svmdataset_set_homogeneous_kernel_map(d, h); D *= 3; } s = vl_svm_new_with_dataset(so, d, y, lam); } else s = vl_svm_new(so, x, D, N, y, lam);
  if (vl_svm_get_solver(s) == VlSvmSolverSgd) vl_svm_set_bias_learning_rate(s, .5); vl_svm_set_loss(s, so == VlSvmSolverSgd ? rn(5) : rn(5)); vl_svm_set_max_num_iterations(s, rr(1, 4) * N); vl_svm_set_diagnostic_frequency(s, N); vl_rand_seed(vl_get_rand(), N); vl_svm_train(s);
  O(vl_svm_get_model(s), 8 * D); of(vl_svm_get_bias(s)); O(vl_svm_get_scores(s), 8 * N); of(vl_svm_get_statistics(s)->objective); of(vl_svm_get_statistics(s)->dualityGap * (so == VlSvmSolverSdca)); if (hist == 9) vl_svm_train(s);
  vl_svm_delete(s); if (d) vl_svmdataset_delete(d); if (h) vl_homogeneouskernelmap_delete(h); }
static void s_homker(void) { int o = rn(4), i; VlHomogeneousKernelMap *h = vl_homogeneouskernelmap_new(rn(3), .5 + ru(), o, rn(2) ? -1 : 3 + 5 * ru(), rn(2)); float *f = keep(40); double *d = keep(80); for (i = 0; i < 10; ++i) { double x = rn(4) ? ru() : rn(2) ? 0 : pow(2, rr(-30, 30)); if (hist) vl_homogeneouskernelmap_evaluate_d(h, d, 1, x * 3); re(); vl_homogeneouskernelmap_evaluate_d(h, d, 1, x); O(d, 8 * (2 * o + 1)); vl_homogeneouskernelmap_evaluate_f(h, f, 1, x); O(f, 4 * (2 * o + 1)); } vl_homogeneouskernelmap_delete(h); }
static void s_hog(void) { int w = rr(8, 24), h = rr(8, 24), c = rr(1, 3), cs = rr(2, 6), no = rr(3, 10), bi = rn(2); VlHog *g = vl_hog_new(rn(2) ? VlHogVariantDalalTriggs : VlHogVariantUoctti, no, rn(2)); float *im = fl(w * h * c), *out, *pic; int n;
  if (hist) { float *o2 = fl(40 * 40); vl_hog_set_use_bilinear_orientation_assignments(g, !bi); vl_hog_put_image(g, o2, 30, 31, 1, hist > 1 ? 8 : cs); if (hist > 1) { out = keep(4 * 4000); vl_hog_extract(g, out); } } re(); vl_hog_set_use_bilinear_orientation_assignments(g, bi);
  if (rn(3)) vl_hog_put_image(g, im, w, h, c, cs); else { float *an = fl(w * h); vl_hog_put_polar_field(g, im, an, rn(2), w, h, cs); } n = vl_hog_get_width(g) * vl_hog_get_height(g) * vl_hog_get_dimension(g); oi(n); out = keep(4 * n); vl_hog_extract(g, out); O(out, 4 * n); OI(vl_hog_get_permutation(g), sizeof(vl_index) * vl_hog_get_dimension(g));
  if (rn(2)) { int gs = vl_hog_get_glyph_size(g), q = gs * vl_hog_get_width(g) * gs * vl_hog_get_height(g); pic = keep(4 * q); memset(pic, 0, 4 * q); vl_hog_render(g, pic, out, vl_hog_get_width(g), vl_hog_get_height(g)); O(pic, 4 * q); } vl_hog_delete(g); }
static void s_lbp(void) { int w = rr(3, 24), h = rr(3, 24), cs = rr(2, 6), n; VlLbp *l = vl_lbp_new(VlLbpUniform, rn(2)); float *im = fi(w * h, 8), *o; n = (w / cs) * (h / cs) * vl_lbp_get_dimension(l); o = keep(4 * n + 4); if (hist) { float *o2 = fi(400, 9), *x = keep(4 * 58 * 100); vl_lbp_process(l, x, o2, 20, 20, 5); } re(); vl_lbp_process(l, o, im, w, h, cs); O(o, 4 * n); vl_lbp_delete(l); }
static void s_liop(void) { int side = 2 * rr(3, 6) + 1; VlLiopDesc *l = rn(2) ? vl_liopdesc_new_basic(side + 12) : vl_liopdesc_new(rr(2, 4), rr(1, 6), 2, side); float *p, *o; side = side + 12; p = fl(side * side); o = keep(4 * vl_liopdesc_get_dimension(l)); if (rn(2)) vl_liopdesc_set_intensity_threshold(l, ru() < .5 ? .1f : -.1f); if (hist) { float *q = fl(side * side); vl_liopdesc_process(l, o, q); if (hist > 1) memset(o, 7, 4 * vl_liopdesc_get_dimension(l)); } re(); vl_liopdesc_process(l, o, p); O(o, 4 * vl_liopdesc_get_dimension(l)); vl_liopdesc_delete(l); }
static void sift_run(VlSiftFilt *f, float *im, int take) { int e = vl_sift_process_first_octave(f, im), i, k; while (!e) { VlSiftKeypoint const *kp; int n; vl_sift_detect(f); kp = vl_sift_get_keypoints(f); n = vl_sift_get_nkeypoints(f); if (take) on(n); for (i = 0; i < n && i < 12; ++i) { double a[4]; float *d = keep(512); int na = vl_sift_calc_keypoint_orientations(f, a, kp + i); if (take) { of(kp[i].x); of(kp[i].y); of(kp[i].s); of(kp[i].sigma); on(kp[i].o); on(kp[i].is); on(na); } for (k = 0; k < na; ++k) { if (npool > 380) return; vl_sift_calc_keypoint_descriptor(f, d, kp + i, a[k]); if (take) { of(a[k]); O(d, 512); } } } e = vl_sift_process_next_octave(f); } }
static void s_sift(void) { int w = rr(12, 40), h = rr(12, 40); float *im = paint(w, h), *im2 = paint(w, h); VlSiftFilt *f = vl_sift_new(w, h, rr(1, 3), rr(1, 4), rr(-1, 1)); int i; for (i = 0; i < w * h; ++i) { im[i] *= 255; im2[i] *= 99; } vl_sift_set_peak_thresh(f, ru() * 3); vl_sift_set_edge_thresh(f, 10); if (hist) { sift_run(f, im2, 0); if (hist > 1) { vl_sift_process_first_octave(f, im2); vl_sift_detect(f); } } re(); sift_run(f, im, 1);
  { float *d = keep(512), *g = fl(2 * w * h); vl_sift_calc_raw_descriptor(f, g, d, w, h, w / 2., h / 2., 1.5, ru()); O(d, 512); } vl_sift_delete(f); }
static void s_dsift(void) { int w = rr(20, 36), h = rr(20, 36), n, fl_ = rn(2); double ws = 1 + ru(); float *im = paint(w, h), *im2 = paint(w, h); VlDsiftDescriptorGeometry g; VlDsiftFilter *f = rn(2) ? vl_dsift_new(w, h) : vl_dsift_new_basic(w, h, rr(1, 4), rr(2, 5));
  g = *vl_dsift_get_geometry(f); g.binSizeX = rr(2, 4); g.binSizeY = rr(2, 4); g.numBinX = rr(1, 3); g.numBinY = rr(1, 3); g.numBinT = rr(2, 8); if (hist) { vl_dsift_set_flat_window(f, !fl_); vl_dsift_process(f, im2); if (hist > 1) { VlDsiftDescriptorGeometry q = g; q.numBinX = 4; q.numBinT = 9; vl_dsift_set_geometry(f, &q); vl_dsift_set_bounds(f, 2, 2, w - 3, h - 3); vl_dsift_process(f, im2); } } re();
  vl_dsift_set_geometry(f, &g); vl_dsift_set_steps(f, rr(2, 6), rr(2, 6)); vl_dsift_set_bounds(f, 0, 0, w - 1, h - 1); vl_dsift_set_flat_window(f, fl_); vl_dsift_set_window_size(f, ws); if (hist > 1) vl_dsift_process(f, im2); vl_dsift_process(f, im); n = vl_dsift_get_keypoint_num(f); oi(n); oi(vl_dsift_get_descriptor_size(f)); O(vl_dsift_get_descriptors(f), 4L * n * vl_dsift_get_descriptor_size(f)); { int i; for (i = 0; i < n; ++i) { of(vl_dsift_get_keypoints(f)[i].x); of(vl_dsift_get_keypoints(f)[i].y); of(vl_dsift_get_keypoints(f)[i].norm); } } vl_dsift_delete(f); }
static void cov_out(VlCovDet *d) { int i, n = vl_covdet_get_num_features(d); VlCovDetFeature *f = vl_covdet_get_features(d); on(n); for (i = 0; i < n; ++i) { O(&f[i].frame, sizeof f[i].frame); of(f[i].peakScore); of(f[i].edgeScore); of(f[i].orientationScore); of(f[i].laplacianScaleScore); } }
static void s_covdet(void) { int w = rr(16, 30), h = rr(16, 30), m = rr(1, 6), i; float *im = paint(w, h), *im2 = paint(33, 31), *pt = keep(4 * 41 * 41); VlCovDet *d = vl_covdet_new(m); double tp = m == 1 ? .005 : 1e-4; int o0 = rn(2) - 1, sh = rn(3); VlFrameOrientedEllipse fr = {5 + 8 * ru(), 6, 1.5, .2, -.3, 2};
  if (hist) { vl_covdet_set_first_octave(d, 0); vl_covdet_set_peak_threshold(d, tp * 3); vl_covdet_put_image(d, im2, 33, 31); vl_covdet_detect(d); vl_covdet_extract_orientations(d); if (hist > 1) { vl_covdet_extract_affine_shape(d); vl_covdet_extract_laplacian_scales(d); vl_covdet_reset(d); } } re();
  vl_covdet_set_first_octave(d, o0); vl_covdet_set_peak_threshold(d, tp); vl_covdet_set_octave_resolution(d, rr(1, 4)); vl_covdet_set_non_extrema_suppression_threshold(d, rn(2) * .5); if (rn(4) == 0) vl_covdet_set_aa_accurate_smoothing(d, VL_TRUE); vl_covdet_put_image(d, im, w, h); if (hist > 1) { vl_covdet_detect(d); vl_covdet_put_image(d, im, w, h); } vl_covdet_detect(d); while (vl_covdet_get_num_features(d) > 60) { vl_covdet_set_peak_threshold(d, 3 * vl_covdet_get_peak_threshold(d)); vl_covdet_detect(d); } cov_out(d);
  if (sh == 1) vl_covdet_extract_affine_shape(d); if (sh) vl_covdet_extract_orientations(d); cov_out(d); if (rn(2)) vl_covdet_extract_laplacian_scales(d); vl_covdet_drop_features_outside(d, 1); cov_out(d); for (i = 0; i < 3; ++i) { fr.x += 9; vl_covdet_extract_patch_for_frame(d, pt, 20, 5 + i, 1, fr); O(pt, 4 * 41 * 41); } vl_covdet_set_allow_padded_warping(d, 0); on(vl_covdet_extract_patch_for_frame(d, pt, 20, 9, 1, fr)); vl_covdet_delete(d); }
static void s_space(void) { int w = rr(4, 30), h = rr(4, 30); VlScaleSpaceGeometry g = vl_scalespace_get_default_geometry(w, h); VlScaleSpace *s, *c; float *im = fl(w * h), *im2 = fl(w * h); vl_index o; g.firstOctave = rr(-2, 1); g.lastOctave = VL_MAX(g.lastOctave, g.firstOctave); g.octaveResolution = rr(1, 3); g.octaveFirstSubdivision = -(int)rn(2); g.octaveLastSubdivision = rr(1, 3); g.baseScale = 3; g.nominalScale = .5; s = vl_scalespace_new_with_geometry(g); if (hist) vl_scalespace_put_image(s, im2); re(); vl_scalespace_put_image(s, im); c = rn(2) ? vl_scalespace_new_copy(s) : vl_scalespace_new_shallow_copy(s); for (o = g.firstOctave; o <= g.lastOctave; ++o) { VlScaleSpaceOctaveGeometry q = vl_scalespace_get_octave_geometry(s, o); O(vl_scalespace_get_level(s, o, g.octaveFirstSubdivision), 4 * q.width * q.height * (g.octaveLastSubdivision - g.octaveFirstSubdivision + 1)); } vl_scalespace_delete(c); vl_scalespace_delete(s); }
static void s_mser(void) { int d[3] = {rr(3, 12), rr(3, 12), rr(2, 4)}, nd = rr(1, 3), n = d[0] * (nd > 1 ? d[1] : 1) * (nd > 2 ? d[2] : 1); VlMserFilt *f = vl_mser_new(nd, d); vl_uint8 *im = by(n, rn(2) ? 256 : 6), *im2 = by(n, 200); if (hist) { vl_mser_process(f, im2); if (hist > 1) vl_mser_ell_fit(f); } re(); vl_mser_set_delta(f, rr(1, 4)); vl_mser_set_min_area(f, 0); vl_mser_set_max_area(f, 1); vl_mser_set_max_variation(f, 5); vl_mser_set_min_diversity(f, .1); vl_mser_process(f, im); OI(vl_mser_get_regions(f), 4 * vl_mser_get_regions_num(f)); vl_mser_ell_fit(f); oi(vl_mser_get_ell_num(f)); oi(vl_mser_get_ell_dof(f)); OI(vl_mser_get_ell(f), 4 * vl_mser_get_ell_num(f) * vl_mser_get_ell_dof(f)); vl_mser_delete(f); }
static void s_quick(void) { int h = rr(2, 9), w = rr(2, 9), c = rr(1, 3); double *im = db(h * w * c); VlQS *q = vl_quickshift_new(im, h, w, c); vl_quickshift_set_kernel_size(q, .5 + ru()); vl_quickshift_set_max_dist(q, 1 + 3 * ru()); vl_quickshift_set_medoid(q, rn(2)); if (hist) vl_quickshift_process(q); re(); vl_quickshift_process(q); OI(vl_quickshift_get_parents(q), 4 * h * w); O(vl_quickshift_get_dists(q), 8 * h * w); if (vl_quickshift_get_density(q)) O(vl_quickshift_get_density(q), 8 * h * w); vl_quickshift_delete(q); }
static void s_slic(void) { int h = rr(3, 16), w = rr(3, 16), c = rr(1, 3); float *im = fl(h * w * c); vl_uint32 *s = keep(4 * h * w); vl_slic_segment(s, im, w, h, c, rr(2, 6), .1f + ru(), rr(0, 6)); OI(s, 4 * h * w); }
static void s_aib(void) { int nv = rr(2, 9), nl = rr(2, 4), i; double *p = di(nv * nl, 9); VlAIB *a; for (i = 0; i < nl; ++i) p[i] += 1; a = vl_aib_new(p, nv, nl); vl_aib_set_verbosity(a, 0); vl_aib_process(a); OI(vl_aib_get_parents(a), 4 * (2 * nv - 1)); O(vl_aib_get_costs(a), 8 * nv); vl_aib_delete(a); }
static void s_ikm(void) { int M = rr(1, 3), N = rr(5, 30), K = rr(1, 4); vl_uint8 *x = by(M * N, 256); vl_uint32 *a = keep(4 * N); VlIKMFilt *f = vl_ikm_new(rn(2) ? VL_IKM_LLOYD : VL_IKM_ELKAN); int in = rn(3), i; vl_ikmacc_t *c = keep(sizeof *c * M * K); for (i = 0; i < M * K; ++i) c[i] = rn(256); if (hist) { vl_ikm_set_max_niters(f, 2); vl_ikm_init_rand(f, M, hist + 1); vl_ikm_train(f, x, N); if (hist > 1) { vl_ikm_init(f, c, M, K); vl_ikm_push(f, a, x, N); } } re(); vl_rand_seed(vl_get_rand(), N); vl_ikm_set_max_niters(f, rr(1, 20)); if (in == 0) vl_ikm_init(f, c, M, K); else if (in == 1) vl_ikm_init_rand_data(f, x, M, N, K); else vl_ikm_init_rand(f, M, K); if (in < 2) { vl_ikm_train(f, x, N); OI(vl_ikm_get_centers(f), sizeof *c * M * K); vl_ikm_push(f, a, x, N); OI(a, 4 * N); } vl_ikm_delete(f); }
static void s_hikm(void) { int M = rr(1, 3), N = rr(5, 40), K = rr(2, 3), dep = rr(1, 4); vl_uint8 *x = by(M * N, 256); vl_uint32 *a = keep(4 * N * dep); VlHIKMTree *t = vl_hikm_new(rn(2) ? VL_IKM_LLOYD : VL_IKM_ELKAN); if (hist) { vl_hikm_init(t, M, 2, 2); vl_hikm_train(t, x, 5); } re(); vl_rand_seed(vl_get_rand(), N); vl_hikm_init(t, M, K, dep); if (rn(6)) { vl_hikm_train(t, x, N); if (hist > 1) { vl_rand_seed(vl_get_rand(), N); vl_hikm_train(t, x, N); } vl_hikm_push(t, a, x, N); OI(a, 4 * N * vl_hikm_get_depth(t)); } vl_hikm_delete(t); }
static void s_array(void) { vl_size d[4] = {rr(1, 4), rr(1, 4), rr(1, 4), rr(1, 4)}; int n = rr(1, 4), k = rn(4); VlArray s, *a, *b; double *x = db(256); vl_array_init(&s, VL_TYPE_DOUBLE, n, d); oi(vl_array_get_num_elements(&s)); vl_array_dealloc(&s); vl_array_init_envelope(&s, x, VL_TYPE_DOUBLE, n, d); oi(vl_array_get_num_elements(&s)); vl_array_dealloc(&s); a = k == 0 ? vl_array_new(VL_TYPE_FLOAT, n, d) : k == 1 ? vl_array_new_envelope(x, VL_TYPE_DOUBLE, n, d) : k == 2 ? vl_array_new_matrix(VL_TYPE_DOUBLE, 3, 4) : vl_array_new_matrix_envelope(x, VL_TYPE_DOUBLE, 2, 2); oi(vl_array_get_num_elements(a)); vl_array_delete(a); vl_array_init_matrix(&s, VL_TYPE_FLOAT, 2, 5); vl_array_dealloc(&s); vl_array_init_matrix_envelope(&s, x, VL_TYPE_DOUBLE, 2, 5); vl_array_dealloc(&s); (void)b; }
static char tmpf[600];
static void s_pgm(void) { int w = rr(1, 6), h = rr(1, 6), e; vl_uint8 *x = by(w * h, 256), *y = 0; float *g = fl(w * h), *z = 0; VlPgmImage im; vl_pgm_write(tmpf, x, w, h); e = vl_pgm_read_new(tmpf, &im, &y); oi(e); if (!e) { OI(y, w * h); vl_free(y); } { FILE *f = fopen(tmpf, "wb"); vl_uint8 *t = by(2 * w * h, 256); VlPgmImage k = {w, h, rn(2) ? 65535 : 255, rn(2)}; oi(vl_pgm_insert(f, &k, t)); fclose(f); e = vl_pgm_read_new_f(tmpf, &im, &z); oi(e); if (!e) { OI(z, 4 * w * h); vl_free(z); } } vl_pgm_write_f(tmpf, g, w, h); e = vl_pgm_read_new_f(tmpf, &im, &z); oi(e); if (!e) { OI(z, 4 * w * h); vl_free(z); } if (truncate(tmpf, rn(14)) == 0) { e = vl_pgm_read_new(tmpf, &im, &y); oi(e != 0); if (!e) vl_free(y); z = 0; e = vl_pgm_read_new_f(tmpf, &im, &z); if (!e) vl_free(z); oi(vl_get_last_error() != 0 || !e); } unlink(tmpf); }
static void s_imop(void) { int w = rn(2) ? 4 * rr(1, 4) : rr(2, 14), h = rr(2, 14), i, n = w * h; float *a = fi(n, 50), *o = keep(4 * n + 64), *o2 = keep(4 * n + 64), *k = fi(7, 9); double *b = di(n, 50), *p = keep(8 * n + 64), *kd = di(7, 9), *b2 = db(n); float *a2 = fl(n); vl_uindex *id = keep(8 * n); int pad = rn(2) ? VL_PAD_BY_ZERO : VL_PAD_BY_CONTINUITY; double s1 = ru() * 2, s2 = ru() * 2; int fs = rr(1, 4);
  if (hist) vl_imconvcol_vf(o, h, a2, w, h, w, k, -2, 2, 1, pad | VL_TRANSPOSE); re();
  vl_imconvcol_vf(o, h, a, w, h, w, k, -3, 3, 1, pad | VL_TRANSPOSE); OI(o, 4 * n); vl_imconvcol_vd(p, w, b, w, h, w, kd, -1, 2, 1, pad); OI(p, 8 * n); vl_imconvcol_vf(o, w, a, w, h, w, k, 0, 4, 1, pad); OI(o, 4 * n); vl_imconvcoltri_f(o, w, a, w, h, w, fs, 1, pad); O(o, 4 * n); vl_imconvcoltri_d(p, h, b, w, h, w, fs, 1, pad | VL_TRANSPOSE); O(p, 8 * n);
  vl_imintegral_f(o, w, a, w, h, w); OI(o, 4 * n); vl_imintegral_d(p, w, b, w, h, w); OI(p, 8 * n); for (i = 0; i < n; ++i) id[i] = i; vl_image_distance_transform_d(b, w, h, 1, w, p, id, 1, 0); OI(id, 8 * n); OI(p, 8 * n); for (i = 0; i < n; ++i) id[i] = i; vl_image_distance_transform_f(a, w, h, 1, w, o, id, 1, 1); O(o, 4 * n); O(id, 8 * n); vl_imsmooth_f(o, w, a2, w, h, w, s1, s2); O(o, 4 * n); vl_imsmooth_d(p, w, b2, w, h, w, s1, s2); O(p, 8 * n); vl_imsmooth_f(a2, w, a2, w, h, w, s2, s1); O(a2, 4 * n);
  vl_imgradient_f(o, o2, 1, w, a, w, h, w); OI(o, 4 * n); OI(o2, 4 * n); vl_imgradient_polar_f(o, o2, 1, w, a, w, h, w); O(o, 4 * n); O(o2, 4 * n); }
static void s_vec(void) { int D = rr(1, 20), N = rr(1, 4), M = rr(1, 4), i; VlVectorComparisonType t[] = {VlDistanceL1, VlDistanceL2, VlKernelL2, VlKernelL1}; float *x = fi(D * N, 30), *y = fi(D * M, 30), *r = keep(4 * N * (N + M)); double *X = di(D * N, 30), *Y = di(D * M, 30), *R = keep(8 * N * (N + M)); for (i = 0; i < 4; ++i) { vl_eval_vector_comparison_on_all_pairs_f(r, D, x, N, y, M, vl_get_vector_comparison_function_f(t[i])); if (i < 3) OI(r, 4 * N * M); else O(r, 4 * N * M); vl_eval_vector_comparison_on_all_pairs_d(R, D, X, N, Y, M, vl_get_vector_comparison_function_d(t[i])); if (i < 3) OI(R, 8 * N * M); else O(R, 8 * N * M); } vl_eval_vector_comparison_on_all_pairs_d(R, D, X, N, 0, 0, vl_get_vector_comparison_function_d(VlDistanceChi2)); O(R, 8 * N * N); }
static void s_rand(void) { int i, n = rr(1, 30); vl_uindex *p = keep(sizeof *p * n); VlRand r; vl_rand_init(&r); if (hist) for (i = 0; i < 700; ++i) vl_rand_uint32(&r); re(); vl_rand_seed(&r, n); for (i = 0; i < 700; ++i) oi(vl_rand_uint32(&r)); for (i = 0; i < n; ++i) p[i] = i; vl_rand_permute_indexes(&r, p, n); OI(p, sizeof *p * n); of(vl_rand_res53(&r)); }
static void s_misc(void) { char *c = vl_configuration_to_string_copy(); if (c) vl_free(c); vl_set_last_error(3, "%d", 5); oi(vl_get_last_error()); OI(vl_get_last_error_message(), strlen(vl_get_last_error_message())); { void *p = vl_malloc(10), *q; p = vl_realloc(p, 300); q = vl_calloc(3, 4); OI(q, 12); vl_free(p); vl_free(q); vl_free(0); } { double A[12], x[3], M[4], U[4], V[4], D[4]; int i; for (i = 0; i < 12; ++i) A[i] = ru(); for (i = 0; i < 4; ++i) M[i] = ru(); vl_solve_linear_system_3(x, A, A + 9); O(x, 24); vl_svd2(D, U, V, M); O(D, 32); O(U, 32); O(V, 32); } }
static const struct { const char *name; void (*f)(void); int heavy; } sc[] = {{"kdtree", s_kdtree}, {"kmeans", s_kmeans}, {"gmm", s_gmm}, {"svm", s_svm}, {"homker", s_homker}, {"hog", s_hog}, {"lbp", s_lbp}, {"liop", s_liop}, {"sift", s_sift}, {"dsift", s_dsift}, {"covdet", s_covdet, 1}, {"space", s_space}, {"mser", s_mser}, {"quick", s_quick}, {"slic", s_slic}, {"aib", s_aib}, {"ikm", s_ikm}, {"hikm", s_hikm}, {"array", s_array}, {"pgm", s_pgm}, {"imop", s_imop}, {"vec", s_vec}, {"rand", s_rand}, {"misc", s_misc}};
#define NSC (int)(sizeof sc / sizeof *sc)
static void __attribute__((noinline)) scribble(int v) { volatile char b[300000]; memset((char *)b, v, sizeof b); }
static void run(int k, int sd, int h) { int i; S = 977 * (k + 1) + 1000003ULL * sd + 7919ULL * vf_seed; S ^= S >> 30; S *= 0xbf58476d1ce4e5b9ULL; S ^= S >> 27; S *= 0x94d049bb133111ebULL; S ^= S >> 31; S0 = S; nre = 0; rn(2); hist = h; dig = digi = 1469598103934665603ULL; npool = 0; sc[k].f(); for (i = 0; i < npool; ++i) __real_free(pool[i]); }
/* ------------------------------------------------------------ failing calls */
static int failing; static const char *fname;
static void tryout(int kind, int n) { float x[64] = {0}; double y[4] = {1, -1, 1, -1}, z[8] = {0}; vl_size d[2] = {3, 4}; void *p = 0; int ok = 1;
  vfm_total = 0; vfm_fail_at = n; logging = 1; vf_begin("Fail"); vf_int("k", n); vf_end();
  if (kind == 0) { VlScaleSpaceGeometry g = vl_scalespace_get_default_geometry(16, 12); VlScaleSpace *s; g.firstOctave = -1; g.lastOctave = 2; s = vl_scalespace_new_with_geometry(g); ok = s != 0; if (s) vl_scalespace_delete(s); }
  else if (kind == 1) { VlSvm *s = vl_svm_new_with_abstract_data(n % 2 ? VlSvmSolverSdca : VlSvmSolverSgd, x, 2, 4, y, .1); ok = s != 0; if (s) vl_svm_delete(s); }
  else if (kind == 2) { VlSvmDataset *s = vl_svmdataset_new(VL_TYPE_DOUBLE, z, 2, 4); ok = s != 0; if (s) vl_svmdataset_delete(s); }
  else if (kind == 3) { VlLbp *l = vl_lbp_new(VlLbpUniform, 0); ok = l != 0; if (l) vl_lbp_delete(l); }
  else if (kind == 4) { VlCovDet *c; vfm_fail_at = -1; c = vl_covdet_new(VL_COVDET_METHOD_DOG); vfm_total = 0; if (n < 3) vfm_fail_at = n; ok = vl_covdet_put_image(c, x, 8, 8) == VL_ERR_OK; if (ok) { vfm_total = 0; vfm_fail_at = n - 3; VlCovDetFeature f; memset(&f, 0, sizeof f); ok = vl_covdet_append_feature(c, &f) == VL_ERR_OK; if (vl_covdet_get_num_features(c) != (vl_size)ok) vfm_bad++; }
    vfm_fail_at = -1; if (!ok) { if (vl_covdet_put_image(c, x, 8, 8) != VL_ERR_OK) vfm_bad++; } vl_covdet_delete(c); }
  else if (kind == 5) { VlSvm *s = vl_svm_new(n % 2 ? VlSvmSolverSdca : VlSvmSolverSgd, z, 2, 4, y, .1); ok = s != 0; if (s) vl_svm_delete(s); }
  else if (kind == 6) { VlScaleSpaceGeometry g = vl_scalespace_get_default_geometry(9, 12); VlScaleSpace *s, *c; g.firstOctave = -1; vfm_fail_at = -1; s = vl_scalespace_new_with_geometry(g); vl_scalespace_put_image(s, x); vfm_total = 0; vfm_fail_at = n; c = n % 2 ? vl_scalespace_new_copy(s) : vl_scalespace_new_shallow_copy(s); ok = c != 0; vfm_fail_at = -1; if (c) vl_scalespace_delete(c); vl_scalespace_delete(s); }
  else if (kind == 7) { VlHomogeneousKernelMap *m = vl_homogeneouskernelmap_new(n % 3, 1, 1, -1, n % 2); ok = m != 0; if (m) vl_homogeneouskernelmap_delete(m); }
  vfm_fail_at = -1; vfm_scan(); logging = 0; vf_begin("End"); vf_int("bad", vfm_bad); vf_int("live", vfm_live); vf_bool("ok", ok); vf_end(); vfm_bad = 0; }
int main(int argc, char **argv) { int k, i, h, once; vf_init(argc, argv); snprintf(tmpf, sizeof tmpf, "%s/tmp.pgm", argv[1]); vl_set_last_error(0, ""); vl_get_rand(); vl_set_alloc_func(h_malloc, h_realloc, h_calloc, h_free);
  once = !strcmp(argv[4], "once");
  if (!strcmp(argv[4], "mem")) { for (k = 0; k < NSC; ++k) { vf_open(sc[k].name); for (i = 0; i < (vf_thorough ? 150 : 12); ++i) for (h = 0; h < 3; ++h) { vf_call("%s %d history %d", sc[k].name, i, h); logging = 0; vf_begin("Begin"); vf_str("what", sc[k].name); vf_end(); logging = 1; run(k, i, h); logging = 0; vfm_scan(); vf_begin("End"); vf_int("bad", vfm_bad); vf_int("live", vfm_live); vf_bool("ok", 1); vf_end(); vfm_bad = 0; } vf_close(); } }
  else if (!strcmp(argv[4], "fault")) { for (k = 0; k < 8; ++k) { char b[20]; snprintf(b, 20, "fault%d", k); vf_open(b); for (i = 0; i < 12; ++i) { vf_call("failing allocation %d of kind %d", i, k); tryout(k, i); } vf_close(); } }
  else { static const int fills[] = {0xa5, 0x00, 0xff, 0x7f, 0x01}; for (k = 0; k < NSC; ++k) { vf_open(sc[k].name); for (i = 0; i < (vf_thorough ? 200 : sc[k].heavy ? 10 : 25); ++i) for (h = 0; h < (once ? 1 : 6); ++h) { int simd = h != 4, t = vf_thorough ? 1 : 1; char a[40]; filled = vfm_fill = fills[h % 5]; vl_set_simd_enabled(simd); scribble(vfm_fill); vf_call("%s %d fill %d history %d", sc[k].name, i, vfm_fill, h == 2 ? 1 : h == 3 ? 2 : 0); run(k, i, h == 2 ? 1 : h == 3 ? 2 : 0); (void)t; vl_set_simd_enabled(1);
        vf_begin("Run"); vf_int("k", i); vf_bool("simd", simd); vf_int("fill", fills[h % 5]); vf_int("hist", h == 2 ? 1 : h == 3 ? 2 : 0); snprintf(a, 40, "%016llx", (unsigned long long)dig); vf_str("all", a); snprintf(a, 40, "%016llx", (unsigned long long)digi); vf_str("ints", a); vf_end(); } vf_close(); } }
  return 0; }
