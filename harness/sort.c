#include "vf.h"
#include <vl/generic.h>
typedef struct { int id; double key; } El;
static El arr[400]; static int rec;
static double qcmp(El const *a, vl_uindex i, vl_uindex j) { return a[i].key - a[j].key; }
static void qswap(El *a, vl_uindex i, vl_uindex j) {
  El t = a[i]; a[i] = a[j]; a[j] = t;
  if (rec) { vf_begin("Swap"); vf_int("i", (long)i); vf_int("j", (long)j); vf_end(); vf_call("sort (inside)"); }
}
#define VL_QSORT_prefix hq
#define VL_QSORT_type El
#define VL_QSORT_cmp qcmp
#define VL_QSORT_swap qswap
#include <vl/qsort-def.h>
#undef VL_QSORT_cmp
#undef VL_QSORT_swap
#define VL_QSORT_prefix iq
#define VL_QSORT_type int
#include <vl/qsort-def.h>
#define VL_QSORT_prefix fq
#define VL_QSORT_type float
#include <vl/qsort-def.h>

static void stepwise(int const *v, int n) {
  int i; vf_begin("Begin"); VF_SEQ("keys", n, v[i_]); vf_end();
  for (i = 0; i < n; ++i) { arr[i].id = i + 1; arr[i].key = v[i]; }
  rec = 1; vf_call("sort n=%d", n); hq_sort(arr, n); rec = 0;
  vf_begin("End"); VF_SEQ("ids", n, arr[i_].id); vf_end();
}
/* keys far below or above the resolution of smaller number types */
#define VL_QSORT_prefix dq
#define VL_QSORT_type double
#include <vl/qsort-def.h>
#define VL_QSORT_prefix lq
#define VL_QSORT_type long long
#include <vl/qsort-def.h>
static double const dscale[] = {1e-60, 1.0, 1e200, 1e-300};
static void whole(int const *v, int n, int type) {
  static int ib[1200]; static float fb[1200]; static El eb[1200]; int i, ok = 1;
  vf_call("sort n=%d type %d", n, type);
  if (type == 0) { for (i = 0; i < n + 2; ++i) ib[i] = (i == 0 || i == n + 1) ? (i ? -12345 : 12345) : v[i-1]; iq_sort(ib + 1, n); ok = ib[0] == 12345 && ib[n+1] == -12345; }
  else if (type == 1) { for (i = 0; i < n + 2; ++i) fb[i] = (i == 0 || i == n + 1) ? (i ? -12345 : 12345) : v[i-1]; fq_sort(fb + 1, n); ok = fb[0] == 12345 && fb[n+1] == -12345; }
  else if (type >= 4) { static double db[1200]; double sc = dscale[type - 4]; for (i = 0; i < n + 2; ++i) db[i] = (i == 0 || i == n + 1) ? (i ? -12345 : 12345) : v[i-1] * sc; dq_sort(db + 1, n); ok = db[0] == 12345 && db[n+1] == -12345;
    for (i = 1; i <= n; ++i) { int q; fb[i] = 1e30f; for (q = 0; q < n; ++q) if (db[i] == v[q] * sc) fb[i] = v[q]; } }
  else if (type == 3) { static long long lb[1200]; for (i = 0; i < n + 2; ++i) lb[i] = (i == 0 || i == n + 1) ? (i ? -12345 : 12345) : v[i-1] * 4294967296LL; lq_sort(lb + 1, n); ok = lb[0] == 12345 && lb[n+1] == -12345;
    for (i = 1; i <= n; ++i) { fb[i] = lb[i] % 4294967296LL ? 1e30f : lb[i] / 4294967296LL; } }
  else { for (i = 0; i < n + 2; ++i) { eb[i].id = i; eb[i].key = (i == 0 || i == n + 1) ? (i ? -12345 : 12345) : v[i-1]; } hq_sort(eb + 1, n); ok = eb[0].id == 0 && eb[n+1].id == n+1; for (i = 1; i <= n; ++i) if (eb[i].id < 1 || eb[i].id > n || eb[i].key != v[eb[i].id - 1]) ok = 0; }
  vf_begin("Sort"); vf_int("type", type); VF_SEQ("in", n, v[i_]);
  VF_SEQ("out", n, type == 0 ? ib[i_+1] : type != 2 ? vf_exact(fb[i_+1]) : vf_exact(eb[i_+1].key)); vf_bool("guard", ok); vf_end();
}
int main(int argc, char **argv) {
  int v[1024], n, i, t, k; long c, tot; vf_init(argc, argv);
  vf_open("step0"); for (n = 1; n <= 4; ++n) { for (tot = 1, i = 0; i < n; ++i) tot *= 3; for (c = 0; c < tot; ++c) { long x = c; for (i = 0; i < n; ++i) { v[i] = x % 3; x /= 3; } stepwise(v, n); } }
  vf_open("step1"); for (n = 5; n <= (vf_thorough ? 6 : 5); ++n) { for (tot = 1, i = 0; i < n; ++i) tot *= 3; for (c = 0; c < tot; ++c) { long x = c; for (i = 0; i < n; ++i) { v[i] = x % 3; x /= 3; } stepwise(v, n); } }
  for (k = 0; k < (vf_thorough ? 12 : 2); ++k) { char nm[20]; sprintf(nm, "step%02dr", k); vf_open(nm);
    for (t = 0; t < 30; ++t) { n = vf_range(1, 40); for (i = 0; i < n; ++i) v[i] = vf_range(-3, t % 2 ? 3 : 1000); stepwise(v, n); } }
  vf_open("whole");
  for (t = 0; t < (vf_thorough ? 4000 : 900); ++t) {
    n = t % 9 == 0 ? vf_range(100, 300) : vf_range(1, 30); k = t % 7;
    for (i = 0; i < n; ++i) v[i] = k == 0 ? 5 : k == 1 ? i : k == 2 ? n - i : k == 3 ? vf_range(0, 1) : k == 4 ? (i % 5) : k == 5 ? vf_range(-1000000, 1000000) : (i < n/2 ? i : n - i);
    whole(v, n, t % 8);
  }
  return 0;
}
