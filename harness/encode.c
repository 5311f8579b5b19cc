/* VLAD, Gaussian mixtures, Fisher vectors */
#include "vf.h"
#include <stddef.h>
#include <vl/generic.h>
#include <vl/vlad.h>
#include <vl/gmm.h>
#include <vl/fisher.h>
#include <vl/kmeans.h>
#include <vl/random.h>
typedef struct { double d[1024]; float f[1024]; } Arr;
static int sg, D, K, N; static vl_type T; static Arr data, mu, var, w, q, low;
static void set(Arr *a, int i, double v) { a->f[i] = (float)v; a->d[i] = sg ? (double)a->f[i] : v; }
static void const *A(Arr const *a) { return sg ? (void const*)a->f : (void const*)a->d; }
static double at(void const *p, int i) { return sg ? ((float const*)p)[i] : ((double const*)p)[i]; }
static void kind(void) { sg = vf_rnd(2); T = sg ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE; vl_set_simd_enabled(vf_rnd(3) > 0); vl_set_num_threads(1); }
static double grid(int m) { return m == 0 ? vf_rnd(9) - 4 : m == 1 ? (vf_rnd(257) - 128) / 16.0 : m == 2 ? vf_rnd(3) * 6 + vf_rnd(33) / 16.0 : m == 3 ? vf_rnd(2) : vf_rnd(1025) / 256.0 + 20; }
static void vlad(void) {
  int i, m = vf_rnd(4), fl = vf_rnd(16), am = vf_rnd(4), same; static double ed[1024]; static float ef[1024]; Arr c1, c2, c3; kind(); D = vf_rnd(8) ? vf_range(1, 4) : 9; K = vf_range(1, 4); N = vf_rnd(8);
  for (i = 0; i < N * D; ++i) set(&data, i, grid(m)); for (i = 0; i < K * D; ++i) set(&mu, i, grid(m));
  for (i = 0; i < N * K; ++i) set(&q, i, am == 0 ? (vf_rnd(K) == 0) : am == 1 ? vf_rnd(5) / 4.0 : am == 2 ? (vf_rnd(9) - 3) / 2.0 : 0);
  if (am == 3) for (i = 0; i < N; ++i) set(&q, i * K + vf_rnd(K), 1);
  if (vf_rnd(3) == 0) vl_set_num_threads(vf_range(2, 4));
  for (i = 0; i < K * D + 2; ++i) ed[i] = ef[i] = -77; c1 = data; c2 = mu; c3 = q; vf_call("vlad_encode flags=%d D=%d K=%d N=%d", fl, D, K, N);
  vl_vlad_encode(sg ? (void*)ef : (void*)ed, T, A(&mu), D, K, A(&data), N, A(&q), fl);
  same = !memcmp(&c1, &data, sizeof data) && !memcmp(&c2, &mu, sizeof mu) && !memcmp(&c3, &q, sizeof q) && ed[K * D] == -77 && ef[K * D] == -77;
  vf_begin("Vlad"); vf_bool("single", sg); vf_int("D", D); vf_int("flags", fl); VF_REALS("data", N * D, at(A(&data), i_)); VF_REALS("means", K * D, at(A(&mu), i_)); VF_REALS("q", N * K, at(A(&q), i_)); VF_REALS("enc", K * D, sg ? ef[i_] : ed[i_]); vf_bool("kept", same); vf_end();
}
static void mixture(int far) {
  int i, k, m = vf_rnd(5); double s = 0, ws[16]; for (i = 0; i < N * D; ++i) set(&data, i, grid(m)); for (i = 0; i < K * D; ++i) { set(&mu, i, grid(m)); set(&var, i, vf_rnd(3) == 0 ? 1 : (1 + vf_rnd(64)) / 8.0); }
  for (k = 0; k < K; ++k) s += ws[k] = 1 + vf_rnd(8); for (k = 0; k < K; ++k) set(&w, k, ws[k] / s);
  if (far && K > 1) for (k = 0; k < K; ++k) if (vf_rnd(K) == 0) { if (vf_rnd(2) && k > 0) set(&w, k, vf_rnd(2) ? 0 : 1e-7); else for (i = 0; i < D; ++i) set(&mu, k * D + i, 60 + vf_rnd(20)); }
}
static void density(void) {
  static double pd[1024]; static float pf[1024]; double ll; kind(); D = vf_rnd(6) ? vf_range(1, 4) : vf_range(8, 17); K = vf_range(1, 5); N = vf_rnd(8); mixture(vf_rnd(2)); if (vf_rnd(3) == 0) vl_set_num_threads(vf_range(2, 4));
  vf_call("posteriors D=%d K=%d N=%d", D, K, N);
  ll = sg ? vl_get_gmm_data_posteriors_f(pf, K, N, w.f, mu.f, D, var.f, data.f) : vl_get_gmm_data_posteriors_d(pd, K, N, w.d, mu.d, D, var.d, data.d);
  vf_begin("Density"); vf_bool("single", sg); vf_int("D", D); VF_REALS("data", N * D, at(A(&data), i_)); VF_REALS("w", K, at(A(&w), i_)); VF_REALS("mu", K * D, at(A(&mu), i_)); VF_REALS("var", K * D, at(A(&var), i_)); VF_REALS("post", N * K, sg ? pf[i_] : pd[i_]); vf_real("ll", ll); vf_end();
}
static VlGMM *mk(void) { VlGMM *g; int i; double b[64]; g = vl_gmm_new(T, D, K); i = vf_rnd(3); if (i == 1) vl_gmm_set_covariance_lower_bound(g, vf_rnd(5) / 8.0 + 1e-3); if (i == 2) { for (i = 0; i < D; ++i) b[i] = vf_rnd(9) / 8.0 + 1e-4; vl_gmm_set_covariance_lower_bounds(g, b); } return g; }
static void start(VlGMM *g) { vl_gmm_set_means(g, A(&mu)); vl_gmm_set_covariances(g, A(&var)); vl_gmm_set_priors(g, A(&w)); }
typedef struct { double w[16], mu[128], var[128], post[512], ll, got; } Rec;
static void take(VlGMM *g, Rec *r) { int i; for (i = 0; i < K; ++i) r->w[i] = at(vl_gmm_get_priors(g), i); for (i = 0; i < K * D; ++i) { r->mu[i] = at(vl_gmm_get_means(g), i); r->var[i] = at(vl_gmm_get_covariances(g), i); } for (i = 0; i < N * K; ++i) r->post[i] = at(vl_gmm_get_posteriors(g), i); r->got = vl_gmm_get_loglikelihood(g); }
static void head(const char *e, VlGMM *g) { vf_begin(e); vf_bool("single", sg); vf_int("D", D); vf_int("K", K); VF_REALS("data", N * D, at(A(&data), i_)); if (g) VF_REALS("low", D, vl_gmm_get_covariance_lower_bounds(g)[i_]); }
static void rows(const char *k, Rec *r, int n, int off, int len) { int i, j; vf_key(k); VF_LIT("["); for (i = 0; i < n; ++i) { if (i) VF_LIT(","); VF_LIT("["); for (j = 0; j < len; ++j) { if (j) VF_LIT(","); vf_num(((double*)((char*)&r[i] + off))[j]); } VF_LIT("]"); } VF_LIT("]"); }
#define OFF(f) ((int)offsetof(Rec, f))
static void inits(void) { VF_REALS("w0", K, at(A(&w), i_)); VF_REALS("mu0", K * D, at(A(&mu), i_)); VF_REALS("var0", K * D, at(A(&var), i_)); }
static void ladder(void) {
  static Rec r[16]; int steps = vf_rnd(4) ? 5 : 11, m; VlGMM *g; kind(); D = vf_rnd(6) ? vf_range(1, 3) : vf_range(4, 9); K = vf_range(1, 4); N = vf_range(2, 10); mixture(vf_rnd(3) > 0); g = mk();
  if (vf_rnd(4) == 0) { double x[1024] = {0}; int n2 = vf_range(1, 14); vl_gmm_set_max_num_iterations(g, 2); vl_gmm_init_with_rand_data(g, A(&data), N); vl_gmm_em(g, x, n2); }
  vf_call("em D=%d K=%d N=%d", D, K, N);
  for (m = 0; m <= steps; ++m) { start(g); vl_gmm_set_max_num_iterations(g, m); r[m].ll = vl_gmm_em(g, A(&data), N); take(g, r + m); }
  head("Ladder", g); inits(); rows("w", r, m, OFF(w), K); rows("mu", r, m, OFF(mu), K * D); rows("var", r, m, OFF(var), K * D); rows("post", r, m, OFF(post), N * K); VF_REALS("ll", m, r[i_].ll); VF_REALS("got", m, r[i_].got); vf_end(); vl_gmm_delete(g);
}
static void params(Rec *r) { VF_REALS("w", K, r->w[i_]); VF_REALS("mu", K * D, r->mu[i_]); VF_REALS("var", K * D, r->var[i_]); VF_REALS("post", N * K, r->post[i_]); vf_real("ll", r->ll); vf_real("got", r->got); }
static void step(void) {
  static Rec r; VlGMM *g; kind(); vl_set_num_threads(vf_range(1, 5)); D = vf_rnd(3) ? vf_range(1, 3) : vf_range(4, 18); K = vf_range(1, 5); N = vf_range(1, 20); if (N * K > 80) N = 12; mixture(0); g = mk(); start(g); vl_gmm_set_max_num_iterations(g, 1);
  vf_call("em threads D=%d K=%d N=%d", D, K, N); r.ll = vl_gmm_em(g, A(&data), N); take(g, &r); head("Step", g); inits(); params(&r); vf_end(); vl_gmm_delete(g);
}
static void startup(void) {
  static Rec r; VlGMM *g; VlKMeans *own = 0; int how = vf_rnd(3); kind(); D = vf_range(1, 4); K = vf_range(1, 4); N = vf_range(K, 10); mixture(0); g = mk(); if (vf_rnd(2)) start(g); vl_rand_seed(vl_get_rand(), vf_rnd(99999));
  vf_call("gmm init %d D=%d K=%d N=%d", how, D, K, N);
  if (how == 0) vl_gmm_init_with_rand_data(g, A(&data), N);
  else if (how == 1) vl_gmm_init_with_kmeans(g, A(&data), N, 0);
  else { own = vl_kmeans_new(T, VlDistanceL2); vl_kmeans_set_initialization(own, vf_rnd(2)); vl_kmeans_set_max_num_iterations(own, vf_rnd(4)); vl_gmm_init_with_kmeans(g, A(&data), N, own); }
  memset(&r, 0, sizeof r); { int i; for (i = 0; i < K; ++i) r.w[i] = at(vl_gmm_get_priors(g), i); for (i = 0; i < K * D; ++i) { r.mu[i] = at(vl_gmm_get_means(g), i); r.var[i] = at(vl_gmm_get_covariances(g), i); } }
  head("Start", g); vf_str("how", how ? "kmeans" : "rand"); VF_REALS("w", K, r.w[i_]); VF_REALS("mu", K * D, r.mu[i_]); VF_REALS("var", K * D, r.var[i_]);
  if (how) { VlKMeans *k = own ? own : vl_gmm_get_kmeans_init_object(g); VF_REALS("centres", K * D, at(vl_kmeans_get_centers(k), i_)); }
  vf_end(); vl_gmm_delete(g); if (own) vl_kmeans_delete(own);
}
static void cluster(void) {
  static Rec r, rr; static double all[8][512]; VlGMM *g, *h; int reps = vf_range(1, 4), i, j, how = vf_rnd(3), it; double lls[8]; long seed = vf_rnd(99999); kind(); D = vf_range(1, 3); K = vf_range(1, 4); N = vf_range(K, 10); mixture(0); g = mk(); h = vl_gmm_new_copy(g);
  it = vf_rnd(4) ? vf_range(1, 6) : 50; vl_gmm_set_max_num_iterations(g, it); vl_gmm_set_max_num_iterations(h, it); vl_gmm_set_num_repetitions(g, reps); vl_gmm_set_initialization(g, how == 0 ? VlGMMRand : how == 1 ? VlGMMKMeans : VlGMMCustom); start(g); start(h);
  if (vf_rnd(3) == 0) { VlGMM *z = vl_gmm_new_copy(g); vl_gmm_delete(g); g = z; }
  vf_call("gmm cluster %d D=%d K=%d N=%d", how, D, K, N); vl_rand_seed(vl_get_rand(), seed);
  for (i = 0; i < reps; ++i) { if (how == 0) vl_gmm_init_with_rand_data(h, A(&data), N); else if (how == 1) vl_gmm_init_with_kmeans(h, A(&data), N, 0); lls[i] = vl_gmm_em(h, A(&data), N); take(h, &rr); for (j = 0; j < K; ++j) all[i][j] = rr.w[j]; for (j = 0; j < K * D; ++j) { all[i][K + j] = rr.mu[j]; all[i][K + K * D + j] = rr.var[j]; } }
  vl_rand_seed(vl_get_rand(), seed); r.ll = vl_gmm_cluster(g, A(&data), N); take(g, &r);
  head("Cluster", g); VF_REALS("lls", reps, lls[i_]); params(&r); vf_key("runs"); VF_LIT("["); for (i = 0; i < reps; ++i) { if (i) VF_LIT(","); VF_LIT("["); for (j = 0; j < K + 2 * K * D; ++j) { if (j) VF_LIT(","); vf_num(all[i][j]); } VF_LIT("]"); } VF_LIT("]"); vf_end(); vl_gmm_delete(g); vl_gmm_delete(h);
}
static void show(const char *n, VlGMM *g) { int i; double ll; vf_key(n); VF_LIT("["); vf_printf("%d,%d,%d,%d,%d,%d,%d,", (int)vl_gmm_get_data_type(g), (int)vl_gmm_get_dimension(g), (int)vl_gmm_get_num_clusters(g), (int)vl_gmm_get_max_num_iterations(g), (int)vl_gmm_get_num_repetitions(g), (int)vl_gmm_get_initialization(g), vl_gmm_get_verbosity(g)); vf_num(vl_gmm_get_loglikelihood(g));
  for (i = 0; i < D; ++i) { VF_LIT(","); vf_num(vl_gmm_get_covariance_lower_bounds(g)[i]); } for (i = 0; i < K; ++i) { VF_LIT(","); vf_num(at(vl_gmm_get_priors(g), i)); } for (i = 0; i < K * D; ++i) { VF_LIT(","); vf_num(at(vl_gmm_get_means(g), i)); VF_LIT(","); vf_num(at(vl_gmm_get_covariances(g), i)); }
  vl_gmm_set_verbosity(g, 0); ll = vl_gmm_em(g, A(&data), N); VF_LIT(","); vf_num(ll); vf_printf(",%d", (int)vl_gmm_get_num_data(g)); for (i = 0; i < K * D; ++i) { VF_LIT(","); vf_num(at(vl_gmm_get_means(g), i)); VF_LIT(","); vf_num(at(vl_gmm_get_covariances(g), i)); } VF_LIT("]"); }
static void copy(void) { VlGMM *g, *c; kind(); D = vf_range(1, 3); K = vf_range(1, 4); N = vf_range(K, 9); mixture(0); g = mk(); vl_gmm_set_max_num_iterations(g, vf_rnd(5)); vl_gmm_set_num_repetitions(g, vf_range(1, 9)); vl_gmm_set_initialization(g, vf_rnd(3)); vl_gmm_set_verbosity(g, vf_rnd(2)); start(g); { int v = vl_gmm_get_verbosity(g); vl_gmm_set_verbosity(g, 0); if (vf_rnd(2)) vl_gmm_em(g, A(&data), N); vl_gmm_set_verbosity(g, v); }
  vf_call("gmm copy"); c = vl_gmm_new_copy(g); vf_begin("Copy"); show("a", g); vl_gmm_delete(g); show("b", c); vf_end(); vl_gmm_delete(c); }
static void fisher(void) {
  static double ed[1024]; static float ef[1024]; int fl = vf_rnd(8), n; if (vf_rnd(4) == 0) fl = 3; kind(); D = vf_rnd(6) ? vf_range(1, 3) : vf_range(4, 9); K = vf_range(1, 4); N = vf_rnd(7); mixture(vf_rnd(2)); if (vf_rnd(3) == 0) vl_set_num_threads(vf_range(2, 4)); if (vf_rnd(20) == 0) { int i; for (i = 0; i < N * D; ++i) set(&data, i, at(A(&mu), i % D)); }
  vf_call("fisher flags=%d D=%d K=%d N=%d", fl, D, K, N); n = (int)vl_fisher_encode(sg ? (void*)ef : (void*)ed, T, A(&mu), D, K, A(&var), A(&w), A(&data), N, fl);
  head("Fisher", 0); vf_int("flags", fl); VF_REALS("w", K, at(A(&w), i_)); VF_REALS("mu", K * D, at(A(&mu), i_)); VF_REALS("var", K * D, at(A(&var), i_)); VF_REALS("enc", 2 * K * D, sg ? ef[i_] : ed[i_]); vf_int("terms", n); vf_end();
}
int main(int argc, char **argv) {
  int t, m; vf_init(argc, argv); m = vf_thorough ? 12 : 1; if (!strcmp(argv[4], "vlad")) { vf_open("vlad"); for (t = 0; t < 1200 * m; ++t) vlad(); return 0; } vf_open("gmm");
  for (t = 0; t < 300 * m; ++t) density(); for (t = 0; t < 300 * m; ++t) ladder(); for (t = 0; t < 150 * m; ++t) step(); for (t = 0; t < 150 * m; ++t) startup(); for (t = 0; t < 120 * m; ++t) cluster(); for (t = 0; t < 40 * m; ++t) copy(); for (t = 0; t < 700 * m; ++t) fisher(); return 0;
}
