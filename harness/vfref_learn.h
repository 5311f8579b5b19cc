static vl_type tyof(mxArray const *a) { return mxGetClassID(a) == mxSINGLE_CLASS ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE; }
static mxArray *like(mxArray const *a, vl_size m, vl_size n, void const *d) {
  mxArray *r = mxCreateNumericMatrix(m, n, mxGetClassID(a), mxREAL);
  if (d) memcpy(mxGetData(r), d, m * n * (mxGetClassID(a) == mxSINGLE_CLASS ? 4 : 8));
  return r;
}
static mxArray *ints(vl_uint32 const *p, vl_size m, vl_size n) { mxArray *r = mxCreateNumericMatrix(m, n, mxUINT32_CLASS, mxREAL); if (m * n) memcpy(mxGetData(r), p, m * n * 4); return r; }
/* the nodes of an integer tree in preorder */
static void flat(VlHIKMNode const *n, double *b, vl_size *at, int M) {
  vl_size k, K = vl_ikm_get_K(n->filter); vl_ikmacc_t const *c = vl_ikm_get_centers(n->filter);
  for (k = 0; k < K * M; ++k) { if (b) b[*at] = c[k]; ++*at; }
  if (n->children) for (k = 0; k < K; ++k) flat(n->children[k], b, at, M);
}
static int learn(char const *kind, mxArray **out, const mxArray **in, int nin) {
  if (!strcmp(kind, "seed")) { vl_rand_seed(vl_get_rand(), (vl_uint32)*P(0)); return 1; }
  if (!strcmp(kind, "kmeans")) { /* X K [l1 algorithm plusplus iterations repetitions variation trees comparisons] */
    double *p = P(2); VlKMeans *k = vl_kmeans_new(tyof(in[0]), p[0] ? VlDistanceL1 : VlDistanceL2); vl_size n = COLS(0);
    VlKMeansAlgorithm al[] = {VlKMeansLloyd, VlKMeansElkan, VlKMeansANN}; vl_uint32 *a = mxMalloc(4 * (n + 1)); double e;
    vl_kmeans_set_algorithm(k, al[(int)p[1]]); vl_kmeans_set_initialization(k, p[2] ? VlKMeansPlusPlus : VlKMeansRandomSelection);
    vl_kmeans_set_max_num_iterations(k, (vl_size)p[3]); vl_kmeans_set_num_repetitions(k, (vl_size)p[4]);
    if (p[5] == p[5]) vl_kmeans_set_min_energy_variation(k, p[5]);
    vl_kmeans_set_num_trees(k, (vl_size)p[6]); vl_kmeans_set_max_num_comparisons(k, (vl_size)p[7]);
    e = vl_kmeans_cluster(k, mxGetData(in[0]), ROWS(0), n, (vl_size)*P(1));
    out[0] = like(in[0], ROWS(0), (vl_size)*P(1), vl_kmeans_get_centers(k));
    vl_kmeans_quantize(k, a, NULL, mxGetData(in[0]), n); out[1] = ints(a, 1, n); out[2] = mxCreateDoubleScalar(e);
    vl_kmeans_delete(k); mxFree(a); return 1;
  }
  if (!strcmp(kind, "gmm")) { /* X K [initialization iterations repetitions] bounds priors means covariances */
    double *p = P(2); vl_size d = ROWS(0), K = (vl_size)*P(1), n = COLS(0); VlGMM *g = vl_gmm_new(tyof(in[0]), d, K); double e;
    VlGMMInitialization ini[] = {VlGMMRand, VlGMMKMeans, VlGMMCustom};
    vl_gmm_set_initialization(g, ini[(int)p[0]]); vl_gmm_set_max_num_iterations(g, (vl_size)p[1]); vl_gmm_set_num_repetitions(g, (vl_size)p[2]);
    if (mxGetNumberOfElements(in[3]) == 1) vl_gmm_set_covariance_lower_bound(g, *P(3)); else if (!mxIsEmpty(in[3])) vl_gmm_set_covariance_lower_bounds(g, P(3));
    if (p[0] == 2) { vl_gmm_set_priors(g, mxGetData(in[4])); vl_gmm_set_means(g, mxGetData(in[5])); vl_gmm_set_covariances(g, mxGetData(in[6])); }
    e = vl_gmm_cluster(g, mxGetData(in[0]), n);
    out[0] = like(in[0], d, K, vl_gmm_get_means(g)); out[1] = like(in[0], d, K, vl_gmm_get_covariances(g)); out[2] = like(in[0], K, 1, vl_gmm_get_priors(g));
    out[3] = mxCreateDoubleScalar(e); out[4] = like(in[0], K, n, vl_gmm_get_posteriors(g)); vl_gmm_delete(g); return 1;
  }
  if (!strcmp(kind, "fisher")) { /* X means covariances priors flags(normalized squareroot fast) */
    double *p = P(4); out[0] = like(in[0], 2 * ROWS(0) * COLS(1), 1, 0);
    vl_fisher_encode(mxGetData(out[0]), tyof(in[0]), mxGetData(in[1]), ROWS(0), COLS(1), mxGetData(in[2]), mxGetData(in[3]), mxGetData(in[0]), COLS(0),
      (p[0] ? VL_FISHER_FLAG_NORMALIZED : 0) | (p[1] ? VL_FISHER_FLAG_SQUARE_ROOT : 0) | (p[2] ? VL_FISHER_FLAG_FAST : 0)); return 1;
  }
  if (!strcmp(kind, "vlad")) { /* X means assignments flags */
    double *p = P(3); out[0] = like(in[0], ROWS(0) * COLS(1), 1, 0);
    vl_vlad_encode(mxGetData(out[0]), tyof(in[0]), mxGetData(in[1]), ROWS(0), COLS(1), mxGetData(in[0]), COLS(0), mxGetData(in[2]),
      (p[0] ? VL_VLAD_FLAG_UNNORMALIZED : 0) | (p[1] ? VL_VLAD_FLAG_NORMALIZE_COMPONENTS : 0) | (p[2] ? VL_VLAD_FLAG_NORMALIZE_MASS : 0) | (p[3] ? VL_VLAD_FLAG_SQUARE_ROOT : 0)); return 1;
  }
  if (!strcmp(kind, "kdtree")) { /* X [l1 mean trees] Q [neighbours comparisons] seed: the query has the seed too */
    double *p = P(1), *q = P(3); vl_size n = (vl_size)q[0], m = COLS(2); VlKDForest *f = vl_kdforest_new(tyof(in[0]), ROWS(0), (vl_size)p[2], p[0] ? VlDistanceL1 : VlDistanceL2);
    vl_uint32 *a = mxMalloc(4 * (n * m + 1));
    vl_kdforest_set_thresholding_method(f, p[1] ? VL_KDTREE_MEAN : VL_KDTREE_MEDIAN); vl_kdforest_build(f, COLS(0), mxGetData(in[0]));
    vl_kdforest_set_max_num_comparisons(f, (vl_size)q[1]); out[1] = like(in[0], n, m, 0);
    vl_kdforest_query_with_array(f, a, n, m, mxGetData(out[1]), mxGetData(in[2])); out[0] = ints(a, n, m); vl_kdforest_delete(f); mxFree(a); return 1;
  }
  if (!strcmp(kind, "ikmeans")) { /* X K [elkan iterations] */
    VlIKMFilt *f = vl_ikm_new(P(2)[0] ? VL_IKM_ELKAN : VL_IKM_LLOYD); vl_size M = ROWS(0), N = COLS(0), K = (vl_size)*P(1); vl_uint32 *a = mxMalloc(4 * (N + 1));
    vl_ikm_set_max_niters(f, (vl_size)P(2)[1]); vl_ikm_init_rand_data(f, mxGetData(in[0]), M, N, K); vl_ikm_train(f, mxGetData(in[0]), N);
    out[0] = mxCreateNumericMatrix(M, K, mxINT32_CLASS, mxREAL); memcpy(mxGetData(out[0]), vl_ikm_get_centers(f), 4 * M * K);
    vl_ikm_push(f, a, mxGetData(in[0]), N); out[1] = ints(a, 1, N); vl_ikm_delete(f); mxFree(a); return 1;
  }
  if (!strcmp(kind, "ikpush")) { /* X C */
    VlIKMFilt *f = vl_ikm_new(VL_IKM_LLOYD); vl_size N = COLS(0); vl_uint32 *a = mxMalloc(4 * (N + 1));
    vl_ikm_init(f, mxGetData(in[1]), ROWS(0), COLS(1)); vl_ikm_push(f, a, mxGetData(in[0]), N); out[0] = ints(a, 1, N); vl_ikm_delete(f); mxFree(a); return 1;
  }
  if (!strcmp(kind, "hikmeans")) { /* X K depth [elkan iterations] Q */
    VlHIKMTree *t = vl_hikm_new(P(3)[0] ? VL_IKM_ELKAN : VL_IKM_LLOYD); vl_size M = ROWS(0), N = COLS(0), d = (vl_size)*P(2), n = 0; vl_uint32 *a;
    vl_hikm_set_max_niters(t, (int)P(3)[1]); vl_hikm_init(t, M, (vl_size)*P(1), d); vl_hikm_train(t, mxGetData(in[0]), N);
    flat(vl_hikm_get_root(t), 0, &n, M); out[0] = dbl(1, n); n = 0; flat(vl_hikm_get_root(t), mxGetPr(out[0]), &n, M);
    a = mxCalloc((N + COLS(4) + 1) * d, 4); vl_hikm_push(t, a, mxGetData(in[0]), N); out[1] = ints(a, d, N);
    memset(a, 0, 4 * (COLS(4) + 1) * d); vl_hikm_push(t, a, mxGetData(in[4]), COLS(4)); out[2] = ints(a, d, COLS(4)); vl_hikm_delete(t); mxFree(a); return 1;
  }
  if (!strcmp(kind, "slic")) { /* I [region regularizer minimum] */
    out[0] = mxCreateNumericMatrix(ROWS(0), DIM(0, 1), mxUINT32_CLASS, mxREAL);
    vl_slic_segment(mxGetData(out[0]), F(0), ROWS(0), DIM(0, 1), DIM(0, 2), (vl_size)P(1)[0], (float)P(1)[1], (vl_size)P(1)[2]); return 1;
  }
  if (!strcmp(kind, "quickshift")) { /* I [sigma maxdist medoid] */
    vl_size m = ROWS(0), n = DIM(0, 1), k; VlQS *q = vl_quickshift_new(P(0), (int)m, (int)n, (int)DIM(0, 2));
    vl_quickshift_set_kernel_size(q, P(1)[0]); vl_quickshift_set_max_dist(q, P(1)[1]); vl_quickshift_set_medoid(q, (int)P(1)[2]); vl_quickshift_process(q);
    out[0] = dbl(m, n); out[1] = dbl(m, n); out[2] = dbl(m, n);
    for (k = 0; k < m * n; ++k) { mxGetPr(out[0])[k] = vl_quickshift_get_parents(q)[k]; mxGetPr(out[1])[k] = vl_quickshift_get_dists(q)[k]; mxGetPr(out[2])[k] = vl_quickshift_get_density(q)[k]; }
    vl_quickshift_delete(q); return 1;
  }
  return 0;
}
