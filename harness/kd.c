/* argv[4]: build | query | limited */
#include "vf.h"
#include <vl/generic.h>
#include <vl/kdtree.h>
#include <vl/random.h>
#define MAXN 3000
static int P[MAXN * 8]; static float F[MAXN * 8]; static double D[MAXN * 8]; static int Q[64]; static float QF[64]; static double QD[64];
static void gen(int maxn, int range);
static int n, dim, type, dist, method, nt; static VlKDForest *f;
static void pts(void) { int i, j; vf_key("pts"); vf_put("[", 1); for (i = 0; i < n; ++i) { if (i) vf_put(",", 1); vf_put("[", 1); for (j = 0; j < dim; ++j) vf_printf(j ? ",%d" : "%d", P[i * dim + j]); vf_put("]", 1); } vf_put("]", 1); vf_int("dim", dim); vf_str("dist", dist ? "l1" : "l2"); }
static void build(unsigned seed) { int i; for (i = 0; i < n * dim; ++i) F[i] = D[i] = P[i]; vl_rand_seed(vl_get_rand(), seed);
  vf_call("kdforest build n=%d dim=%d trees=%d method=%d type=%d", n, dim, nt, method, type);
  f = vl_kdforest_new(type ? VL_TYPE_DOUBLE : VL_TYPE_FLOAT, dim, nt, dist ? VlDistanceL1 : VlDistanceL2); vl_kdforest_set_thresholding_method(f, method ? VL_KDTREE_MEAN : VL_KDTREE_MEDIAN); vl_kdforest_build(f, n, type ? (void*)D : (void*)F); }
static uint64_t dig(void) { uint64_t h = 0; int t; vl_uindex i; for (t = 0; t < nt; ++t) { VlKDTree *T = f->trees[t]; for (i = 0; i < T->numUsedNodes; ++i) { VlKDTreeNode *x = T->nodes + i; double v[7] = {0, x->lowerChild, x->upperChild, x->splitDimension, x->splitThreshold}; h = vf_fnv(v, sizeof v, h); } for (i = 0; i < (vl_uindex)n; ++i) { vl_index v = T->dataIndex[i].index; h = vf_fnv(&v, sizeof v, h); } } return h; }
static void evbuild(void) { int t, i; unsigned sd = vf_rnd(1000); uint64_t h; build(sd); h = dig(); vl_kdforest_delete(f); build(sd);
  vf_begin("Build"); pts(); vf_str("method", method ? "mean" : "median"); vf_bool("same", dig() == h);
  vf_key("trees"); vf_put("[", 1);
  for (t = 0; t < nt; ++t) { VlKDTree *T = f->trees[t]; if (t) vf_put(",", 1); vf_printf("{\"num\":%ld,\"depth\":%ld,\"nodes\":[", (long)vl_kdforest_get_num_nodes_of_tree(f, t), (long)vl_kdforest_get_depth_of_tree(f, t));
    for (i = 0; i < (int)T->numUsedNodes; ++i) { VlKDTreeNode *x = T->nodes + i; vf_printf("%s{\"par\":%ld,\"lo\":%ld,\"up\":%ld,\"dim\":%u,\"thr\":%ld}", i ? "," : "", vf_l(x->parent), vf_l(x->lowerChild), vf_l(x->upperChild), x->splitDimension, vf_scaled(x->splitThreshold, 1000)); }
    VF_LIT("],\"index\":["); for (i = 0; i < n; ++i) vf_printf(i ? ",%ld" : "%ld", vf_l(T->dataIndex[i].index)); vf_put("]}", 2); }
  vf_put("]", 1); vf_end(); vl_kdforest_delete(f); }
static VlKDForestNeighbor nb[4096];
static void setq(int lo, int hi) { int j; for (j = 0; j < dim; ++j) QF[j] = QD[j] = Q[j] = vf_range(lo, hi); if (vf_rnd(4) == 0) { int i = vf_rnd(n); for (j = 0; j < dim; ++j) QF[j] = QD[j] = Q[j] = P[i * dim + j]; } }
static void *qp(void) { return type ? (void*)QD : (void*)QF; }
static void result(const char *e, int k, vl_size cmp, int limit, int begin) { int added = k; while (added > 0 && nb[added - 1].index == (vl_uindex)-1) --added;
  vf_begin(e); if (limit >= 0) vf_bool("begin", begin); pts(); VF_SEQ("q", dim, Q[i_]); vf_int("k", k); vf_int("added", added); VF_SEQ("idx", k, vf_l((vl_index)nb[i_].index)); VF_SEQ("ds", k, nb[i_].index == (vl_uindex)-1 && nb[i_].distance != nb[i_].distance ? -1 : vf_exact(nb[i_].distance)); vf_int("cmp", cmp); if (limit >= 0) vf_int("limit", limit); vf_end(); }
static void fill(int k) { int i; for (i = 0; i < k; ++i) { nb[i].index = 77777; nb[i].distance = -5; } }
static void queries(int m, int lo, int hi) { int i, j, a, k; vl_size c;
  build(vf_rnd(1000));
  for (i = 0; i < m; ++i) { k = vf_rnd(3) ? vf_range(1, n < 8 ? n + 2 : 8) : vf_rnd(2) ? 1 : n > 20 ? 20 : n; setq(lo, hi); fill(k); vf_call("kdforest query k=%d n=%d dim=%d", k, n, dim); c = vl_kdforest_query(f, nb, k, qp()); result("Query", k, c, -1, 0); }
  { /* the array form */
    int nq = vf_range(1, 5), q; k = vf_range(1, n < 6 ? n + 1 : 6); static vl_uint32 ix[100]; static float df[100]; static double dd[100]; static float qf[64]; static double qd[64]; vl_size tot; int nodist = vf_rnd(5) == 0;
    int qs[64]; for (i = 0; i < nq * dim; ++i) qf[i] = qd[i] = qs[i] = vf_range(lo, hi);
    vf_call("kdforest query with array"); tot = vl_kdforest_query_with_array(f, ix, k, nq, nodist ? 0 : type ? (void*)dd : (void*)df, type ? (void*)qd : (void*)qf);
    for (q = 0; q < nq; ++q) { vl_size c1; for (j = 0; j < dim; ++j) QF[j] = QD[j] = Q[j] = qs[q * dim + j]; c1 = vl_kdforest_query(f, nb, k, qp()); tot -= c1;
      for (a = 0; a < k; ++a) { vl_uint32 x = ix[q * k + a]; double w = nodist ? nb[a].distance : type ? dd[q * k + a] : df[q * k + a]; nb[a].index = x == 0xffffffffu ? (vl_uindex)-1 : x; nb[a].distance = w; }
      result("Query", k, (q == nq - 1 && tot != 0) ? (vl_size)1999999999 : c1, -1, 0); } }
  vl_kdforest_delete(f); }
static void limited(int m, int lo, int hi) { int i, k, L; vl_size c; VlKDForestSearcher *s[4]; int ns = vf_range(1, 4), nf;
  build(vf_rnd(1000)); for (i = 0; i < ns; ++i) s[i] = vl_kdforest_new_searcher(f); nf = ns;
  for (i = 0; i < m; ++i) { k = vf_range(1, n < 5 ? n + 1 : 5); setq(lo, hi); L = vf_range(1, n + 2); vl_kdforest_set_max_num_comparisons(f, L); fill(k); vf_call("kdforestsearcher query limit %d", L); c = vl_kdforestsearcher_query(s[vf_rnd(nf)], nb, k, qp()); result("Limited", k, c, (int)vl_kdforest_get_max_num_comparisons(f), 0);
    if (i % 3 == 0) { VlKDForestNeighbor nb2[16]; vl_size c2; VlKDForestSearcher *o = s[vf_rnd(nf)]; int same = 1, a; /* interleave another query on another searcher, then repeat */
      QF[0] = QD[0] = Q[0] + 1; vl_kdforestsearcher_query(s[vf_rnd(nf)], nb2, vf_range(1, 5), qp()); if (vf_rnd(2)) vl_kdforest_query(f, nb2, 1, qp()); QF[0] = QD[0] = Q[0];
      fill(0); memset(nb2, 0, sizeof nb2); c2 = vl_kdforestsearcher_query(o, nb2, k, qp()); for (a = 0; a < k; ++a) if (nb[a].index != nb2[a].index || !(nb[a].distance == nb2[a].distance || (nb[a].distance != nb[a].distance && nb2[a].distance != nb2[a].distance))) same = 0;
      vf_begin("Again"); vf_bool("same", same && c == c2); vf_end(); }
    if (i % 7 == 6 && nf > 1) { int x = vf_rnd(nf); vl_kdforestsearcher_delete(s[x]); s[x] = s[--nf]; }
    else if (i % 7 == 3 && nf < 4) s[nf++] = vl_kdforest_new_searcher(f); }
  for (i = 0; i < 2; ++i) { int first = 1; k = vf_range(1, n < 5 ? n : 5); setq(lo, hi); for (L = 1; L <= n + 1; L += n > 20 ? vf_range(1, n / 6) : 1) { vl_kdforest_set_max_num_comparisons(f, L); fill(k); vf_call("kdforest query limit %d", L); c = vl_kdforestsearcher_query(s[vf_rnd(nf)], nb, k, qp()); result("Ladder", k, c, L, first); first = 0; }
    if (1) { vl_kdforest_set_max_num_comparisons(f, 0); fill(k); c = vl_kdforest_query(f, nb, k, qp()); result("Query", k, c, -1, 0); } }
  vl_kdforest_delete(f); }
static void gen(int maxn, int range) { int i, k = vf_rnd(5); dim = vf_range(1, 4); if (vf_rnd(6) == 0) dim = vf_range(5, 8); n = vf_range(1, maxn); if (n * dim > MAXN * 8) n = MAXN; 
  type = vf_rnd(2); dist = vf_rnd(2); method = vf_rnd(2); nt = vf_rnd(2) ? 1 : vf_range(2, 7);
  for (i = 0; i < n * dim; ++i) P[i] = k == 0 ? vf_range(0, 1) : k == 1 ? vf_range(-range, range) : k == 2 ? vf_range(0, 2) * 3 : vf_range(0, range);
  if (k == 3) for (i = 0; i < n; ++i) { int j, d = vf_rnd(n); if (vf_rnd(2)) for (j = 0; j < dim; ++j) P[i * dim + j] = P[d * dim + j]; } }
/* many more queries, of which only those are recorded (and some others) whose
   distances are not the k smallest ones: the specification judges them */
static void screen(int m) { static double all[MAXN]; int t, i, j, a, k, bad = 0;
  for (t = 0; t < m && bad < 6; ++t) { int r = vf_rnd(3) ? 64 : 1000; gen(60, r); if (n < 5) n = vf_range(5, 60); if (vf_rnd(2)) for (i = 0; i < n * dim; ++i) P[i] = vf_range(0, r); build(vf_rnd(1000));
    for (j = 0; j < 10; ++j) { vl_size c; int odd = 0; k = vf_range(1, 6); if (k > n) k = n; setq(-r / 2, r + r / 2); fill(k); vf_call("kdforest query k=%d n=%d dim=%d", k, n, dim); c = vl_kdforest_query(f, nb, k, qp());
      for (i = 0; i < n; ++i) { double v = 0; int d; for (d = 0; d < dim; ++d) { double x = P[i * dim + d] - Q[d]; v += dist ? fabs(x) : x * x; } for (a = i; a > 0 && all[a - 1] > v; --a) all[a] = all[a - 1]; all[a] = v; }
      for (a = 0; a < k; ++a) if (nb[a].distance != all[a]) odd = 1;
      if (odd && ++bad > 6) break; if (odd || (j == 0 && t % 100 == 0)) result("Query", k, c, -1, 0); }
    vl_kdforest_delete(f); } }
/* which searchers the forest knows, through creation, deletion and queries */
static void searchers(int ops) { VlKDForestSearcher *s[64]; int id[64], nf = 0, fresh = 1, i, j; gen(8, 10); build(1);
  vf_begin("SNew"); vf_bool("begin", 1); vf_str("op", "forest"); vf_int("id", 0); VF_SEQ("list", 0, 0); vf_bool("same", 1); vf_end();
  for (i = 0; i < ops; ++i) { int r = vf_rnd(10), me = 0, same = 1; const char *op; VlKDForestNeighbor a[3], b[3]; int k = vf_range(1, n < 3 ? n : 3);
    vf_call("searchers: op %d with %d alive", r, nf);
    if (r < 4 && nf < 6) { op = "new"; me = id[nf] = fresh++; s[nf++] = vl_kdforest_new_searcher(f); }
    else if (r < 7 && nf > 0) { int x = vf_rnd(nf); op = "delete"; me = id[x]; vl_kdforestsearcher_delete(s[x]); for (j = x; j + 1 < nf; ++j) { s[j] = s[j+1]; id[j] = id[j+1]; } nf--; }
    else { VlKDForestSearcher *h; op = "query"; setq(-9, 9); vl_kdforest_query(f, a, k, qp()); if (nf == 0) { h = vl_kdforest_get_searcher(f, 0); if (h) { s[0] = h; id[0] = fresh++; nf = 1; } me = nf ? id[0] : -1; }
      if (nf) { vl_kdforestsearcher_query(s[vf_rnd(nf)], b, k, qp()); for (j = 0; j < k; ++j) if (a[j].distance != b[j].distance) same = 0; } }
    vf_begin("SOp"); vf_str("op", op); vf_int("id", me); { VlKDForestSearcher *h; int c; vf_key("list"); vf_put("[", 1); for (c = 0; c < 20 && (h = vl_kdforest_get_searcher(f, c)); ++c) { int w = -1; for (j = 0; j < nf; ++j) if (s[j] == h) w = id[j]; vf_printf(c ? ",%d" : "%d", w); } vf_put("]", 1); }
    vf_bool("same", same); vf_end(); }
  vf_call("forest delete"); vl_kdforest_delete(f); }
static void exhaustive(void (*g)(void)) { int m, c, t, i; for (dim = 1; dim <= 2; ++dim) for (m = 1; m <= (dim == 1 ? 5 : 3); ++m) { int slots = m * dim, tot = 1; for (i = 0; i < slots; ++i) tot *= 3; for (c = 0; c < tot; ++c) { int x = c; static const int v[] = {0, 1, 3}; n = m; for (i = 0; i < slots; ++i) { P[i] = v[x % 3]; x /= 3; } t = c; type = t & 1; method = (t >> 1) & 1; dist = (t >> 2) & 1; nt = 1 + (t % 3 == 0); g(); } } }
static void gq(void) { queries(2, -1, 4); }
static void gl(void) { limited(3, -1, 4); }
int main(int argc, char **argv) { int t; const char *m; vf_init(argc, argv); m = argv[4]; vf_open(m);
  if (!strcmp(m, "build")) { exhaustive(evbuild); for (t = 0; t < (vf_thorough ? 3000 : 350); ++t) { gen(t % 10 ? 12 : 60, t % 3 ? 6 : 1000); evbuild(); } }
  else if (!strcmp(m, "query")) { exhaustive(gq); for (t = 0; t < (vf_thorough ? 2500 : 300); ++t) { gen(t % 10 ? 14 : 80, t % 3 ? 6 : 200); queries(4, -8, t % 3 ? 12 : 220); }
    for (t = 0; t < (vf_thorough ? 12 : 3); ++t) { int i; gen(10, 10); n = vf_range(1100, 1500); dim = vf_range(1, 2); for (i = 0; i < n * dim; ++i) P[i] = t % 2 && i < 1024 * dim ? 7 : vf_range(-300, 300); queries(2, -300, 300); } screen(vf_thorough ? 60000 : 8000); }
  else { for (t = 0; t < (vf_thorough ? 400 : 40); ++t) searchers(25); for (t = 0; t < (vf_thorough ? 1500 : 160); ++t) { gen(t % 10 ? 10 : 40, t % 3 ? 6 : 200); limited(5, -8, t % 3 ? 12 : 220); } if (vf_thorough) exhaustive(gl); }
  return 0; }
