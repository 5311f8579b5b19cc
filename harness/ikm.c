/* integer k-means, flat and hierarchical; argv[4]: flat | tree */
#include "vf.h"
#include <malloc.h>
#include <vl/ikmeans.h>
#include <vl/hikmeans.h>
#include <vl/random.h>
static int M, K, N, Q; static vl_uint8 d[4096], q[4096]; static vl_ikmacc_t c0[512]; static vl_uint32 as[1024];
static int val(int m) { return m == 0 ? vf_rnd(4) : m == 1 ? vf_rnd(256) : m == 2 ? vf_rnd(3) * 127 : m == 3 ? vf_rnd(40) : (vf_rnd(2) ? vf_rnd(5) : 250 + vf_rnd(5)); }
/* Data sets in search of those where training ends away from a fixed point (its
   centres are not the means of the points nearest to them), and some others.
   The data and centres found are then trained on again, and recorded. */
static int fixed(vl_ikmacc_t const *z) { int i, j, a, t, w[64], cnt[16]; long sum[16][4]; memset(cnt, 0, sizeof cnt); memset(sum, 0, sizeof sum);
  for (i = 0; i < N; ++i) { long best = 1L << 60; w[i] = 0; t = 0; for (j = 0; j < K; ++j) { long e = 0; for (a = 0; a < M; ++a) { long x = d[M * i + a] - z[M * j + a]; e += x * x; } if (e == best) t = 1; if (e < best) { best = e; w[i] = j; t = 0; } } if (t) return 1; ++cnt[w[i]]; for (a = 0; a < M; ++a) sum[w[i]][a] += d[M * i + a]; }
  for (j = 0; j < K; ++j) if (cnt[j]) for (a = 0; a < M; ++a) if (sum[j][a] / cnt[j] != z[M * j + a]) return 0;
  return 1; }
static int found;
static int search(int tries) { static vl_ikmacc_t z[64]; int t, i;
  for (t = 0; t < tries; ++t) { int r = vf_rnd(4) ? 3 + vf_rnd(60) : 256, ok; VlIKMFilt *f; M = vf_rnd(4) ? 2 : vf_range(1, 3); K = vf_range(2, 5); N = vf_range(6, 24); Q = 4; for (i = 0; i < N * M; ++i) d[i] = vf_rnd(r); for (i = 0; i < K * M; ++i) c0[i] = vf_rnd(r); for (i = 0; i < Q * M; ++i) q[i] = vf_rnd(r);
    vf_call("ikm elkan M=%d K=%d N=%d", M, K, N); f = vl_ikm_new(VL_IKM_ELKAN); vl_ikm_init(f, c0, M, K); vl_ikm_set_max_niters(f, 200); vl_ikm_train(f, d, N); ok = fixed(vl_ikm_get_centers(f)); vl_ikm_delete(f); if (!ok) { ++found; return 1; } }
  return 1; }
static void train1(int meth, int it, int init, int re);
static void train(void) {
  int m = vf_rnd(5), i, meth = vf_rnd(2), it, init, re;
  M = vf_range(1, 3); K = vf_range(1, 6); N = vf_range(1, vf_rnd(5) ? 12 : 24); Q = vf_range(1, 6); init = vf_rnd(6); it = vf_rnd(3) ? 200 : vf_rnd(4); re = vf_rnd(4) == 0;
  for (i = 0; i < N * M; ++i) d[i] = val(m); for (i = 0; i < Q * M; ++i) q[i] = val(vf_rnd(2) ? m : 1); for (i = 0; i < K * M; ++i) c0[i] = vf_rnd(6) ? val(m) : vf_range(-300, 600);
  if (vf_rnd(3) == 0) for (i = 0; i < K * M; ++i) c0[i] = d[(i / M * 7 % N) * M + i % M];
  train1(meth, it, init, re); }
static void train1(int meth, int it, int init, int re) { int i, ret; VlIKMFilt *f;
  vf_call("ikm %s M=%d K=%d N=%d niters=%d", meth ? "elkan" : "lloyd", M, K, N, it);
  mallopt(M_PERTURB, vf_rnd(2) ? 0xff : 0); f = vl_ikm_new(meth ? VL_IKM_ELKAN : VL_IKM_LLOYD);
  if (re) { vl_ikmacc_t j[64]; for (i = 0; i < 40; ++i) j[i] = vf_rnd(256); vl_ikm_init(f, j, 2, vf_range(1, 20)); }
  vl_ikm_set_max_niters(f, it);
  if (init == 0) { vl_rand_seed(vl_get_rand(), vf_rnd(100000)); vl_ikm_init_rand_data(f, d, M, N, K); }
  else vl_ikm_init(f, c0, M, K);
  vf_begin("Train"); vf_bool("elkan", meth); vf_int("M", vl_ikm_get_ndims(f)); vf_int("K", vl_ikm_get_K(f)); vf_int("N", N); vf_int("niters", vl_ikm_get_max_niters(f)); vf_bool("rand", init == 0); VF_SEQ("data", N * M, d[i_]); VF_SEQ("c0", K * M, vl_ikm_get_centers(f)[i_]); VF_SEQ("given", K * M, init ? c0[i_] : 0);
  VF_SEQ("q", Q * M, q[i_]); memset(as, 0x77, sizeof as); vl_ikm_push(f, as, q, Q); VF_SEQ("a0", Q, as[i_]);
  ret = vl_ikm_train(f, d, N); vf_int("ret", ret); VF_SEQ("c", K * M, vl_ikm_get_centers(f)[i_]);
  memset(as, 0x77, sizeof as); vl_ikm_push(f, as, q, Q); VF_SEQ("a", Q, as[i_]); for (i = 0; i < Q; ++i) as[i] = vl_ikm_push_one(vl_ikm_get_centers(f), q + i * M, M, K); VF_SEQ("one", Q, as[i_]); vf_end();
  vl_ikm_delete(f); mallopt(M_PERTURB, 0);
}
static void node(VlHIKMNode const *n, int lev) {
  int k = vl_ikm_get_K(n->filter), i, m = vl_ikm_get_ndims(n->filter); VF_LIT("{\"k\":"); vf_printf("%d,\"c\":[", k); for (i = 0; i < k * m; ++i) vf_printf(i ? ",%ld" : "%ld", (long)vl_ikm_get_centers(n->filter)[i]); VF_LIT("],\"ch\":["); if (n->children && lev < 8) for (i = 0; i < k; ++i) { if (i) VF_LIT(","); if (n->children[i]) node(n->children[i], lev + 1); else VF_LIT("{\"k\":0,\"c\":[],\"ch\":[]}"); } VF_LIT("]}"); }
static void tree(void) {
  int m = vf_rnd(5), i, meth = vf_rnd(2), it = vf_rnd(4) ? 200 : vf_rnd(3), D = vf_range(1, 4), re = vf_rnd(4) == 0; VlHIKMTree *f;
  M = vf_range(1, 3); K = vf_range(1, 4); N = vf_range(1, vf_rnd(4) ? 14 : 30); Q = vf_range(1, 8);
  for (i = 0; i < N * M; ++i) d[i] = val(m); for (i = 0; i < Q * M; ++i) q[i] = val(vf_rnd(2) ? m : 1);
  vf_call("hikm %s M=%d K=%d N=%d depth=%d niters=%d", meth ? "elkan" : "lloyd", M, K, N, D, it); mallopt(M_PERTURB, vf_rnd(2) ? 0xff : 0);
  vl_rand_seed(vl_get_rand(), vf_rnd(100000)); f = vl_hikm_new(meth ? VL_IKM_ELKAN : VL_IKM_LLOYD); vl_hikm_set_max_niters(f, it);
  if (re) { vl_hikm_init(f, M, 2, 3); vl_hikm_train(f, d, N); if (vf_rnd(2)) vl_hikm_train(f, d, N); }
  vl_hikm_init(f, M, K, D); vl_hikm_train(f, d, N);
  vf_begin("Tree"); vf_bool("elkan", meth); vf_int("M", vl_hikm_get_ndims(f)); vf_int("K", vl_hikm_get_K(f)); vf_int("depth", vl_hikm_get_depth(f)); vf_int("N", N); vf_int("niters", vl_hikm_get_max_niters(f)); VF_SEQ("data", N * M, d[i_]); VF_SEQ("q", Q * M, q[i_]); vf_key("root"); node(vl_hikm_get_root(f), 0);
  memset(as, 0x77, sizeof as); vl_hikm_push(f, as, d, N); VF_SEQ("ad", N * D, as[i_] == 0xffffffffu ? -1 : (long)as[i_]); memset(as, 0x77, sizeof as); vl_hikm_push(f, as, q, Q); VF_SEQ("aq", Q * D, as[i_] == 0xffffffffu ? -1 : (long)as[i_]); vf_end();
  vl_hikm_delete(f); mallopt(M_PERTURB, 0);
}
int main(int argc, char **argv) { int t; vf_init(argc, argv); vf_open(argv[4]); if (!strcmp(argv[4], "flat")) for (t = 0; t < (vf_thorough ? 12000 : 1500); ++t) { train(); if (t % 50 == 0 && found < 5) { search(vf_thorough ? 20000 : 8000); train1(1, 200, 1, 0); } } else for (t = 0; t < (vf_thorough ? 6000 : 700); ++t) tree(); return 0; }
