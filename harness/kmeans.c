/* k-means over floating point vectors */
#include "vf.h"
#include <malloc.h>
#include <vl/kmeans.h>
#include <vl/random.h>
static int D, K, N, sg; static double dd[256], cc[256]; static float df[256], cf[256]; static VlVectorComparisonType dist; static const char *dn;
static void const *dat(void) { return sg ? (void*)df : (void*)dd; } static void const *cen(void) { return sg ? (void*)cf : (void*)cc; }
static double at(void const *p, int i) { return sg ? ((float const*)p)[i] : ((double const*)p)[i]; }
static double val(int m) { return m == 0 ? vf_rnd(4) : m == 1 ? vf_rnd(1000) / 32.0 : m == 2 ? vf_rnd(3) * 8 + vf_rnd(64) / 64.0 : m == 3 ? vf_rnd(2) : (vf_rnd(1 << 20) - (1 << 19)) / 65536.0; }
static void problem(int n1, int k1) {
  int m = vf_rnd(5), i; sg = vf_rnd(2); dist = vf_rnd(2) ? VlDistanceL1 : VlDistanceL2; dn = dist == VlDistanceL1 ? "L1" : "L2"; D = vf_range(1, 3); N = vf_range(1, n1); K = vf_range(1, k1);
  for (i = 0; i < N * D; ++i) df[i] = (float)(dd[i] = val(m)); for (i = 0; i < K * D; ++i) cf[i] = (float)(cc[i] = vf_rnd(4) ? val(m) : val(1) - 10);
}
static VlKMeans *mk(void) { VlKMeans *k; mallopt(M_PERTURB, vf_rnd(3) ? 0xa5 : 0); k = vl_kmeans_new(sg ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, dist); if (vf_rnd(4) == 0) { double j[8] = {0}; vl_kmeans_set_centers(k, j, 1, 2); } return k; }
static void head(const char *e) { vf_begin(e); vf_bool("single", sg); vf_str("dist", dn); vf_int("D", D); vf_int("K", K); VF_REALS("data", N * D, dd[i_]); }
static void quant(void) {
  vl_uint32 a[64], b[64], an[64], up[64], un[64], old[64]; double x[64]; char ad[1024], nd[1024], ud[1024]; int i, lim; VlKMeans *k; problem(10, 6); k = mk();
  vl_kmeans_set_centers(k, cen(), D, K); memset(a, 0x55, sizeof a); memset(b, 0x55, sizeof b); memset(an, 0x55, sizeof an);
  vf_call("quantize %s D=%d K=%d N=%d", dn, D, K, N); vl_kmeans_quantize(k, a, ad, dat(), N); vl_kmeans_quantize(k, b, 0, dat(), N);
  lim = vf_rnd(2) ? 0 : vf_range(1, 4); vl_kmeans_set_max_num_comparisons(k, lim); vl_kmeans_set_num_trees(k, vf_range(1, 4)); vl_rand_seed(vl_get_rand(), vf_rnd(9999));
  vl_kmeans_quantize_ann(k, an, nd, dat(), N, 0); for (i = 0; i < N; ++i) up[i] = un[i] = old[i] = vf_rnd(K);
  vl_rand_seed(vl_get_rand(), 77); vl_kmeans_quantize_ann(k, up, ud, dat(), N, 1); vl_rand_seed(vl_get_rand(), 77); vl_kmeans_quantize_ann(k, un, 0, dat(), N, 1);
  head("Quant"); vf_int("limit", lim); VF_REALS("c", K * D, cc[i_]); VF_SEQ("a", N, a[i_]); VF_REALS("d", N, at(ad, i_)); VF_SEQ("nodist", N, b[i_]); VF_SEQ("ann", N, an[i_]); VF_REALS("annd", N, at(nd, i_));
  VF_SEQ("old", N, old[i_]); VF_SEQ("upd", N, up[i_]); VF_REALS("updd", N, at(ud, i_)); VF_SEQ("updn", N, un[i_]); vf_end(); vl_kmeans_delete(k);
}
static const char *an[] = {"lloyd", "elkan", "ann"}; static VlKMeansAlgorithm av[] = {VlKMeansLloyd, VlKMeansElkan, VlKMeansANN};
static void ladder(void) {
  int alg = vf_rnd(3), lim, m, steps = 7, init, i; double e[16], g[16], mv = vf_rnd(2) ? 0 : vf_rnd(2) ? 1e-4 : vf_rnd(3) * 0.15; static double c[16][256]; long seed = vf_rnd(99999); VlKMeans *k; problem(12, 4); init = vf_rnd(3); if (init && K > N) K = N;
  lim = alg == 2 && vf_rnd(3) == 0 ? vf_range(1, 3) : 0; vf_call("refine %s %s D=%d K=%d N=%d", an[alg], dn, D, K, N); k = mk(); vl_kmeans_set_algorithm(k, av[alg]); vl_kmeans_set_max_num_comparisons(k, lim); vl_kmeans_set_num_trees(k, 2); vl_kmeans_set_min_energy_variation(k, mv);
  for (m = 0; m <= steps; ++m) {
    vl_rand_seed(vl_get_rand(), seed);
    if (init == 0) vl_kmeans_set_centers(k, cen(), D, K); else if (init == 1) vl_kmeans_init_centers_with_rand_data(k, dat(), D, N, K); else vl_kmeans_init_centers_plus_plus(k, dat(), D, N, K);
    if (alg == 1 && m == 0) { for (i = 0; i < K * D; ++i) c[0][i] = at(vl_kmeans_get_centers(k), i); e[0] = g[0] = 0; continue; }
    vl_kmeans_set_max_num_iterations(k, m); e[m] = vl_kmeans_refine_centers(k, dat(), N); g[m] = vl_kmeans_get_energy(k); for (i = 0; i < K * D; ++i) c[m][i] = at(vl_kmeans_get_centers(k), i);
  }
  head("Ladder"); vf_str("alg", an[alg]); vf_int("limit", lim); vf_real("minvar", mv); vf_key("c"); VF_LIT("["); for (m = 0; m <= steps; ++m) { VF_LIT("["); for (i = 0; i < K * D; ++i) { if (i) VF_LIT(","); vf_num(c[m][i]); } VF_LIT("]"); if (m < steps) VF_LIT(","); } VF_LIT("]");
  VF_REALS("energy", steps + 1, e[i_]); VF_REALS("got", steps + 1, g[i_]); vf_end(); vl_kmeans_delete(k);
}
static void cluster(void) {
  int alg = vf_rnd(3), lim, reps = vf_range(1, 4), i, r, init; double e[8], en; static double c[8][256]; long seed = vf_rnd(99999), it; VlKMeans *k, *q; problem(12, 5); if (K > N) K = N; init = vf_rnd(2); lim = alg == 2 ? vf_rnd(3) : 0; it = vf_rnd(3) ? 100 : vf_rnd(3);
  vf_call("cluster %s %s D=%d K=%d N=%d", an[alg], dn, D, K, N); k = mk(); q = mk(); vl_kmeans_set_algorithm(k, av[alg]); vl_kmeans_set_algorithm(q, av[alg]); vl_kmeans_set_max_num_comparisons(k, lim); vl_kmeans_set_max_num_comparisons(q, lim); vl_kmeans_set_max_num_iterations(k, it); vl_kmeans_set_max_num_iterations(q, it);
  vl_kmeans_set_initialization(k, init ? VlKMeansPlusPlus : VlKMeansRandomSelection); vl_kmeans_set_num_repetitions(k, reps);
  vl_rand_seed(vl_get_rand(), seed); for (r = 0; r < reps; ++r) { if (init) vl_kmeans_init_centers_plus_plus(q, dat(), D, N, K); else vl_kmeans_init_centers_with_rand_data(q, dat(), D, N, K); e[r] = vl_kmeans_refine_centers(q, dat(), N); for (i = 0; i < K * D; ++i) c[r][i] = at(vl_kmeans_get_centers(q), i); }
  vl_rand_seed(vl_get_rand(), seed); if (vf_rnd(3) == 0) { VlKMeans *z = vl_kmeans_new_copy(k); vl_kmeans_delete(k); k = z; } en = vl_kmeans_cluster(k, dat(), D, N, K);
  head("Cluster"); vf_bool("exact", alg != 2 || lim == 0); vf_real("energy", en); vf_real("got", vl_kmeans_get_energy(k)); VF_REALS("reps", reps, e[i_]); VF_REALS("c", K * D, at(vl_kmeans_get_centers(k), i_)); vf_key("rc"); VF_LIT("["); for (r = 0; r < reps; ++r) { if (r) VF_LIT(","); VF_LIT("["); for (i = 0; i < K * D; ++i) { if (i) VF_LIT(","); vf_num(c[r][i]); } VF_LIT("]"); } VF_LIT("]"); vf_end();
  vl_kmeans_delete(k); vl_kmeans_delete(q);
}
static void seed(void) {
  VlKMeans *k; int pp = vf_rnd(2); problem(10, 6); if (K > N) K = N; vf_call("seed"); k = mk(); vl_rand_seed(vl_get_rand(), vf_rnd(99999)); if (pp) vl_kmeans_init_centers_plus_plus(k, dat(), D, N, K); else vl_kmeans_init_centers_with_rand_data(k, dat(), D, N, K);
  head("Seed"); vf_bool("plusplus", pp); VF_REALS("c", K * D, at(vl_kmeans_get_centers(k), i_)); vf_end(); vl_kmeans_delete(k);
}
static void freq(void) {
  int pp = vf_rnd(4) > 0, r, i, j, n[256] = {0}, runs = 1500, t; VlKMeans *k; do { problem(4, 3); for (i = t = 0; i < N; ++i) for (j = 0; j < i; ++j) t |= !memcmp(df + i * D, df + j * D, 4 * D); } while (t || K > N || K < 2);
  vf_call("seed frequencies"); k = mk(); vl_rand_seed(vl_get_rand(), vf_rnd(99999));
  for (r = 0; r < runs; ++r) { int code = 0, q; if (pp) vl_kmeans_init_centers_plus_plus(k, dat(), D, N, K); else vl_kmeans_init_centers_with_rand_data(k, dat(), D, N, K);
    for (q = 0; q < K; ++q) { for (i = 0; i < N; ++i) { for (j = 0; j < D && at(vl_kmeans_get_centers(k), q * D + j) == at(dat(), i * D + j); ++j) ; if (j == D) break; } code = code * N + i; } if (code < 256) n[code]++; }
  { int tot = 1; for (i = 0; i < K; ++i) tot *= N; head("Freq"); vf_bool("plusplus", pp); vf_int("runs", runs); VF_SEQ("counts", tot, n[i_]); vf_end(); } vl_kmeans_delete(k);
}
static void show(const char *n, VlKMeans *k) { vl_uint32 a[64]; memset(a, 0, sizeof a); if (vl_kmeans_get_centers(k)) vl_kmeans_quantize(k, a, 0, dat(), N); vf_key(n); VF_LIT("[");
  vf_printf("%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,", (int)vl_kmeans_get_data_type(k), (int)vl_kmeans_get_distance(k), (int)vl_kmeans_get_dimension(k), (int)vl_kmeans_get_num_centers(k), (int)vl_kmeans_get_algorithm(k), (int)vl_kmeans_get_initialization(k), (int)vl_kmeans_get_num_repetitions(k), (int)vl_kmeans_get_max_num_iterations(k), (int)vl_kmeans_get_max_num_comparisons(k), (int)vl_kmeans_get_num_trees(k), vl_kmeans_get_verbosity(k));
  vf_num(vl_kmeans_get_min_energy_variation(k)); VF_LIT(","); vf_num(vl_kmeans_get_energy(k)); { int i; for (i = 0; i < N; ++i) vf_printf(",%d", a[i]); if (vl_kmeans_get_centers(k)) for (i = 0; i < K * D; ++i) { VF_LIT(","); vf_num(at(vl_kmeans_get_centers(k), i)); } } VF_LIT("]"); }
static void copy(void) {
  VlKMeans *k, *c; problem(8, 4); k = mk(); vl_kmeans_reset(k); vl_kmeans_set_algorithm(k, av[vf_rnd(3)]); vl_kmeans_set_initialization(k, vf_rnd(2)); vl_kmeans_set_num_repetitions(k, vf_range(1, 9)); vl_kmeans_set_max_num_iterations(k, vf_rnd(99)); vl_kmeans_set_max_num_comparisons(k, vf_rnd(9)); vl_kmeans_set_num_trees(k, vf_range(1, 5)); vl_kmeans_set_min_energy_variation(k, vf_rnd(64) / 64.0);
  if (vf_rnd(3)) { vl_kmeans_set_centers(k, cen(), D, K); if (vf_rnd(2)) vl_kmeans_refine_centers(k, dat(), N); } vf_call("copy"); c = vl_kmeans_new_copy(k); vf_begin("Copy"); show("a", k); vl_kmeans_delete(k); show("b", c); vf_end(); vl_kmeans_delete(c);
}
int main(int argc, char **argv) { int t, m; vf_init(argc, argv); vf_open("km"); m = vf_thorough ? 12 : 1; for (t = 0; t < 250 * m; ++t) quant(); for (t = 0; t < 420 * m; ++t) ladder(); for (t = 0; t < 160 * m; ++t) cluster(); for (t = 0; t < 250 * m; ++t) seed(); for (t = 0; t < 24 * m; ++t) freq(); for (t = 0; t < 60 * m; ++t) copy(); return 0; }
