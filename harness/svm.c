/* Conformance driver for vl/svm.c and vl/svmdataset.c: records every training
   run as the sequence of its visits (calls of the update or derivative
   function) and reports (calls of the diagnostic function).  */
#include <vl/svm.h>
#include <vl/svmdataset.h>
#include <vl/homkermap.h>
#include <vl/random.h>
#include <vl/mathop.h>
#include "vf.h"

enum { HINGE, HINGE2, L1, L2, LOGISTIC, CUSTOM };
static const char *lossName[] = {"hinge", "hinge2", "l1", "l2", "logistic", "custom"};
typedef double (*fun2)(double, double);
typedef double (*fun4)(double, double, double, double);
static double custom_loss(double z, double y) { return 0.25 * (z - y) * (z - y); }
static double custom_der(double z, double y) { return 0.5 * (z - y); }
static double custom_conj(double u, double y) { return (y + u) * u; }
static double custom_dca(double a, double z, double A, double y) { return (y - z - 2 * a) / (A + 2); }
static fun2 lossF[] = {vl_svm_hinge_loss, vl_svm_hinge2_loss, vl_svm_l1_loss, vl_svm_l2_loss, vl_svm_logistic_loss, custom_loss};
static fun2 derF[] = {vl_svm_hinge_loss_derivative, vl_svm_hinge2_loss_derivative, vl_svm_l1_loss_derivative, vl_svm_l2_loss_derivative, vl_svm_logistic_loss_derivative, custom_der};
static fun2 conjF[] = {vl_svm_hinge_conjugate_loss, vl_svm_hinge2_conjugate_loss, vl_svm_l1_conjugate_loss, vl_svm_l2_conjugate_loss, vl_svm_logistic_conjugate_loss, custom_conj};
static fun4 dcaF[] = {vl_svm_hinge_dca_update, vl_svm_hinge2_dca_update, vl_svm_l1_dca_update, vl_svm_l2_dca_update, vl_svm_logistic_dca_update, custom_dca};

/* one problem and how it is presented to the library */
enum { ABSTRACT, PLAIN, FLOATS, HOM };
static int loss, how, n, d;          /* d is the model dimension */
static double x[40 * 8], y[40], p[40];
static int weighted;
static const void *dataPtr;
static VlSvmInnerProductFunction innerF; static VlSvmAccumulateFunction accF;
static long last; static int recording;

static double own_inner(void const *data, vl_uindex e, double *m) {
  double s = 0; int k; if (data != dataPtr || e >= (vl_uindex)n) return NAN;
  for (k = 0; k < d; ++k) s += x[e * d + k] * m[k]; return s;
}
static void own_acc(void const *data, vl_uindex e, double *m, double c) {
  int k; if (data != dataPtr || e >= (vl_uindex)n) { m[0] = NAN; return; }
  for (k = 0; k < d; ++k) m[k] += c * x[e * d + k];
}
static double spy_inner(void const *data, vl_uindex e, double *m) { last = (long)e; return innerF(data, e, m); }
static void spy_acc(void const *data, vl_uindex e, double *m, double c) { accF(data, e, m, c); }
static double spy_dca(double a, double z, double A, double yy) {
  double r = dcaF[loss](a, z, A, yy);
  if (recording) { vf_begin("Visit"); vf_int("i", last + 1); vf_real("a", a); vf_real("z", z); vf_real("A", A); vf_real("y", yy); vf_real("out", r); vf_end(); }
  return r;
}
static double spy_der(double z, double yy) {
  double r = derF[loss](z, yy);
  if (recording) { vf_begin("Visit"); vf_int("i", last + 1); vf_real("z", z); vf_real("y", yy); vf_real("out", r); vf_end(); }
  return r;
}
static void report(const char *name, VlSvm *s) {
  VlSvmStatistics const *t = vl_svm_get_statistics(s);
  double const *m = vl_svm_get_model(s), *sc = vl_svm_get_scores(s);
  vf_begin(name);
  vf_int("status", t->status); vf_int("t", t->iteration); vf_int("epoch", t->epoch);
  vf_real("obj", t->objective); vf_real("reg", t->regularizer); vf_real("loss", t->loss);
  vf_real("dobj", t->dualObjective); vf_real("dloss", t->dualLoss); vf_real("gap", t->dualityGap); vf_real("var", t->scoresVariation);
  vf_bool("timed", t->elapsedTime >= 0 && t->elapsedTime < 1000);
  VF_REALS("w", d, m[i_]); vf_real("bias", vl_svm_get_bias(s)); VF_REALS("scores", n, sc[i_]);
  vf_end();
}
static char token;
static void diag(VlSvm *s, void *q) { if (q != &token) { vf_begin("BadCallback"); vf_end(); } report("Report", s); }

static double dyadic(int range, int den) { return (double)vf_range(-range, range) / den; }
static const double lambdas[] = {0.5, 0.25, 0.125, 0.0625, 0.03125, 1, 2, 0.01, 0.3};

static double setBias; static int biasSet;
static void start_event(VlSvm *s, const char *solver, int fresh, int calls, long limit) {
  vf_begin("Start"); vf_str("solver", solver); vf_str("loss", lossName[loss]); vf_bool("fresh", fresh); vf_bool("calls", calls);
  vf_key("x"); VF_LIT("["); { int i, k; for (i = 0; i < n; ++i) { if (i) VF_LIT(","); VF_LIT("["); for (k = 0; k < d; ++k) { if (k) VF_LIT(","); vf_num(x[i * d + k]); } VF_LIT("]"); } } VF_LIT("]");
  VF_REALS("y", n, y[i_]); VF_REALS("p", n, weighted ? p[i_] : 1);
  vf_real("lambda", vl_svm_get_lambda(s)); vf_real("B", vl_svm_get_bias_multiplier(s)); vf_real("rho", vl_svm_get_bias_learning_rate(s));
  vf_real("eps", vl_svm_get_epsilon(s)); vf_int("max", vl_svm_get_max_num_iterations(s)); vf_int("freq", vl_svm_get_diagnostic_frequency(s));
  vf_int("t0", vl_svm_get_iteration_number(s)); VF_REALS("w", d, vl_svm_get_model(s)[i_]); vf_real("bias", vl_svm_get_bias(s));
  vf_bool("same", (int)vl_svm_get_num_data(s) == n && (int)vl_svm_get_dimension(s) == d && vl_svm_get_weights(s) == (weighted ? p : 0));
  vf_int("limit", limit); VF_REALS("set", biasSet, setBias);
  vf_end();
}

static void run(int ix) {
  VlSvmSolverType solver = vf_rnd(9) == 0 ? VlSvmSolverNone : vf_rnd(2) ? VlSvmSolverSgd : VlSvmSolverSdca;
  const char *solverName = solver == VlSvmSolverSgd ? "sgd" : solver == VlSvmSolverSdca ? "sdca" : "none";
  double lambda = lambdas[vf_rnd(9)];
  double *plain = 0; float *fl = 0; VlSvmDataset *ds = 0; VlHomogeneousKernelMap *hom = 0; VlSvm *s;
  int i, k, spied, again, calls, rounds; long freq, max;
  loss = (int)vf_rnd(6); how = (int)vf_rnd(4); if (vf_rnd(3) == 0) how = ABSTRACT;
  n = (int)vf_range(1, vf_rnd(3) ? 8 : 14); d = (int)vf_range(1, 5); weighted = vf_rnd(3) == 0;
  if (vf_rnd(4) == 0) n = 1;
  for (i = 0; i < n; ++i) {
    p[i] = vf_rnd(4) ? (double)vf_range(1, 30) / (vf_rnd(2) ? 8 : 7) : vf_rnd(4) ? 0 : -1;
    y[i] = loss == L1 || loss == L2 || loss == CUSTOM ? dyadic(12, 4) : vf_rnd(2) ? 1 : -1;
  }
  if (how == HOM) {
    int order = (int)vf_range(0, 1), d0 = (int)vf_range(1, order ? 2 : 4), isf = (int)vf_rnd(2); double v[8]; float vf[8]; int q;
    hom = vl_homogeneouskernelmap_new(vf_rnd(2) ? VlHomogeneousKernelChi2 : VlHomogeneousKernelIntersection, vf_rnd(2) ? 1 : 0.5, order, -1, VlHomogeneousKernelMapWindowRectangular);
    q = 2 * order + 1; d = q * d0;
    plain = malloc(sizeof(double) * n * d0); fl = malloc(sizeof(float) * n * d0);
    for (i = 0; i < n * d0; ++i) { plain[i] = vf_rnd(6) ? dyadic(24, 8) : 0; fl[i] = (float)plain[i];
      if (isf) vl_homogeneouskernelmap_evaluate_f(hom, vf, 1, fl[i]); else vl_homogeneouskernelmap_evaluate_d(hom, v, 1, plain[i]);
      for (k = 0; k < q; ++k) x[i * q + k] = isf ? vf[k] : v[k]; }
    ds = vl_svmdataset_new(isf ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, isf ? (void*)fl : (void*)plain, d0, n);
    vl_svmdataset_set_homogeneous_kernel_map(ds, hom);
  } else {
    for (i = 0; i < n * d; ++i) x[i] = vf_rnd(5) ? dyadic(16, 8) : 0;
    if (vf_rnd(6) == 0) for (k = 0; k < d; ++k) x[k] = 0;
    if (how == FLOATS) { fl = malloc(sizeof(float) * n * d); for (i = 0; i < n * d; ++i) fl[i] = (float)x[i]; ds = vl_svmdataset_new(VL_TYPE_FLOAT, fl, d, n); }
  }
  vf_call("vl_svm_new");
  switch (how) {
  case ABSTRACT: dataPtr = &token; s = vl_svm_new_with_abstract_data(solver, &token, d, n, y, lambda); innerF = own_inner; accF = own_acc; vl_svm_set_data_functions(s, own_inner, own_acc); break;
  case PLAIN: s = vl_svm_new(solver, x, d, n, y, lambda); break;
  default: s = vl_svm_new_with_dataset(solver, ds, y, lambda); innerF = vl_svmdataset_get_inner_product_function(ds); accF = vl_svmdataset_get_accumulate_function(ds); break;
  }
  vf_begin("New"); vf_int("n", n); vf_int("d", (int)vl_svm_get_dimension(s)); vf_real("lambda", lambda);
  vf_int("max", vl_svm_get_max_num_iterations(s)); vf_int("freq", vl_svm_get_diagnostic_frequency(s));
  vf_int("t0", vl_svm_get_iteration_number(s)); vf_real("bias", vl_svm_get_bias(s)); vf_real("B", vl_svm_get_bias_multiplier(s));
  VF_REALS("w", vl_svm_get_dimension(s), vl_svm_get_model(s)[i_]); vf_bool("solver", vl_svm_get_solver(s) == solver); vf_end();
  /* settings, set in any order */
  freq = vf_rnd(3) ? vf_range(1, 2 * n) : 0; max = vf_rnd(5) ? vf_range(1, vf_thorough ? 60 : 30) : 0;
  if (!max && vl_svm_get_max_num_iterations(s) > 80) max = vf_range(20, 70);
  rounds = (int)vf_rnd(6);
  if (vf_rnd(2)) vl_svm_set_bias_multiplier(s, vf_rnd(4) ? dyadic(16, 8) : 0);
  if (freq) vl_svm_set_diagnostic_frequency(s, freq);
  if (max) vl_svm_set_max_num_iterations(s, max);
  vl_svm_set_epsilon(s, vf_rnd(4) ? (vf_rnd(2) ? 1e-6 : 0.05) : vf_rnd(2) ? 0 : 0.5);
  if (vf_rnd(2)) vl_svm_set_bias_learning_rate(s, (double)vf_rnd(9) / 8);
  if (weighted) vl_svm_set_weights(s, p);
  if (loss == CUSTOM) { vl_svm_set_loss_function(s, custom_loss); vl_svm_set_loss_derivative_function(s, custom_der); vl_svm_set_conjugate_loss_function(s, custom_conj); vl_svm_set_dca_update_function(s, custom_dca); }
  else if (loss != HINGE || vf_rnd(2)) vl_svm_set_loss(s, (VlSvmLossType)loss);
  spied = how != PLAIN && vf_rnd(10);
  if (spied) { vl_svm_set_data_functions(s, spy_inner, spy_acc); vl_svm_set_loss_derivative_function(s, spy_der); vl_svm_set_dca_update_function(s, spy_dca); }
  calls = vf_rnd(6) != 0;
  if (calls) vl_svm_set_diagnostic_function(s, diag, &token);
  again = (int)vf_rnd(3); if (again == 2) again = 0;
  for (k = 0; k <= again; ++k) {
    if (solver != VlSvmSolverSdca && vf_rnd(2)) {
      double w[16]; for (i = 0; i < d; ++i) w[i] = dyadic(16, 4);
      vl_svm_set_model(s, w); setBias = dyadic(16, 4); biasSet = 1; vl_svm_set_bias(s, setBias);
      if (vf_rnd(2)) vl_svm_set_iteration_number(s, vf_rnd(50));
    }
    if (k && vf_rnd(2)) vl_svm_set_max_num_iterations(s, vf_range(1, 20));
    start_event(s, solverName, k == 0, calls, spied); biasSet = 0;
    vl_rand_seed(vl_get_rand(), (vl_uint32)vf_rnd(100000));
    recording = 1; vf_call("vl_svm_train %s %s n=%d d=%d", solverName, lossName[loss], n, d);
    vl_svm_train(s);
    recording = 0; report("End", s);
  }
  vl_svm_delete(s);
  if (ds) { if (hom) { vl_svmdataset_set_homogeneous_kernel_map(ds, 0); } vl_svmdataset_delete(ds); }
  if (hom) vl_homogeneouskernelmap_delete(hom);
  free(plain); free(fl);
}

/* long runs: convergence to the optimum, and the orders of the visits */
static void longrun(int ix) {
  int i, k; VlSvm *s; long cap = vf_thorough ? 20000 : 4000;
  loss = (int)vf_rnd(6); how = ABSTRACT; n = (int)vf_range(6, 9); d = (int)vf_range(1, 3); weighted = vf_rnd(4) == 0;
  for (i = 0; i < n; ++i) { p[i] = (double)vf_range(1, 30) / 7; y[i] = loss == L1 || loss == L2 || loss == CUSTOM ? dyadic(12, 4) : i % 2 ? 1 : -1; }
  for (i = 0; i < n * d; ++i) x[i] = dyadic(16, 8);
  if (vf_rnd(3) == 0) for (i = 0; i < n; ++i) for (k = 0; k < d; ++k) x[i * d + k] += 3 * y[i];
  dataPtr = &token; s = vl_svm_new_with_abstract_data(VlSvmSolverSdca, &token, d, n, y, vf_rnd(2) ? 0.125 : 0.01);
  if (loss == CUSTOM) { vl_svm_set_loss_function(s, custom_loss); vl_svm_set_loss_derivative_function(s, custom_der); vl_svm_set_conjugate_loss_function(s, custom_conj); vl_svm_set_dca_update_function(s, custom_dca); }
  else vl_svm_set_loss(s, (VlSvmLossType)loss);
  if (weighted) vl_svm_set_weights(s, p);
  innerF = own_inner; accF = own_acc; vl_svm_set_data_functions(s, own_inner, own_acc);
  vl_svm_set_epsilon(s, 1e-5); vl_svm_set_max_num_iterations(s, cap * n);
  vl_rand_seed(vl_get_rand(), 1 + (vl_uint32)vf_rnd(100000));
  start_event(s, "sdca", 1, 0, 0); vf_call("vl_svm_train (long) %s", lossName[loss]);
  vl_svm_train(s); report("End", s);
  vf_begin("Solved"); vf_bool("smooth", loss != HINGE && loss != L1); vf_end();
  vl_svm_delete(s);
}
/* the order of the visits over many epochs */
static long seq[4000]; static long nseq;
static double order_dca(double a, double z, double A, double yy) { if (nseq < 4000) seq[nseq++] = last + 1; return dcaF[loss](a, z, A, yy); }
static double order_der(double z, double yy) { if (nseq < 4000) seq[nseq++] = last + 1; return derF[loss](z, yy); }
static void orders(int ix) {
  int i, r; VlSvm *s;
  n = 7; d = 2; loss = L2; weighted = 0; dataPtr = &token; innerF = own_inner; accF = own_acc;
  for (i = 0; i < n; ++i) y[i] = dyadic(12, 4);
  for (i = 0; i < n * d; ++i) x[i] = dyadic(16, 8);
  for (r = 0; r < 2; ++r) {
    s = vl_svm_new_with_abstract_data(ix % 2 ? VlSvmSolverSgd : VlSvmSolverSdca, &token, d, n, y, 0.125);
    vl_svm_set_loss(s, VlSvmLossL2); vl_svm_set_data_functions(s, spy_inner, spy_acc);
    vl_svm_set_dca_update_function(s, order_dca); vl_svm_set_loss_derivative_function(s, order_der);
    vl_svm_set_epsilon(s, 0); vl_svm_set_max_num_iterations(s, 20 * n);
    vl_rand_seed(vl_get_rand(), (vl_uint32)(17 + ix)); nseq = 0; vf_call("vl_svm_train (orders)");
    vl_svm_train(s);
    vf_begin("Order"); vf_int("n", n); vf_int("epochs", 20); VF_SEQ("seq", nseq, seq[i_]);
    VF_REALS("w", d, vl_svm_get_model(s)[i_]); vf_bool("first", r == 0); vf_end();
    vl_svm_delete(s);
  }
 
}
/* the loss functions themselves */
static void losses(int part) {
  int i, k, q;
  for (loss = 0; loss < 5; ++loss) {
    for (i = part; i < (vf_thorough ? 1600 : 256); i += 16) {
      double yy = loss == L1 || loss == L2 ? dyadic(12, 4) : vf_rnd(2) ? 1 : -1, z = vf_rnd(5) ? dyadic(64, 16) : vf_rnd(3) ? dyadic(60, 1) : dyadic(3000, 1), a, A = pow(2, (double)vf_range(-24, 20) / 3), r, us[12]; 
      q = (int)vf_rnd(6);
      if (loss == HINGE || loss == LOGISTIC) a = yy * (q == 0 ? 0 : q == 1 ? 1 : q == 2 ? pow(2, -(double)vf_rnd(30)) : vf_unit());
      else if (loss == HINGE2) a = yy * (q == 0 ? 0 : 4 * vf_unit()); else if (loss == L1) a = q == 0 ? 1 : q == 1 ? -1 : 2 * vf_unit() - 1; else a = dyadic(64, 16);
      vf_call("loss %s z=%g y=%g a=%g A=%g", lossName[loss], z, yy, a, A);
      r = dcaF[loss](a, z, A, yy);
      us[0] = derF[loss](z, yy); for (k = 1; k < 6; ++k) us[k] = dyadic(16, 8);
      vf_begin("Loss"); vf_str("loss", lossName[loss]); vf_real("y", yy); vf_real("z", z); vf_real("l", lossF[loss](z, yy)); vf_real("g", derF[loss](z, yy));
      VF_REALS("u", 6, us[i_]); VF_REALS("c", 6, conjF[loss](us[i_], yy));
      vf_real("a", a); vf_real("A", A); vf_real("out", r); vf_end();
    }
   
  }
}
int main(int argc, char **argv) {
  int g, i; char name[32]; vf_init(argc, argv);
  for (g = 0; g < 16; ++g) {
    sprintf(name, "svm%d", g); vf_open(name);
    losses(g);
    for (i = g; i < (vf_thorough ? 1504 : 272); i += 16) run(i);
    for (i = g; i < (vf_thorough ? 96 : 32); i += 16) longrun(i);
    if (g < 4) orders(g);
  }
  return 0;
}
