/* records operations on the generic heap (three instantiations) */
#include "vf.h"
#include <vl/generic.h>

/* 1. elements with handles: custom compare and swap keep a position map */
typedef struct { int id; double key; } El;
static vl_uindex pos[256];
static double hcmp(El const *a, vl_uindex i, vl_uindex j) { return a[i].key - a[j].key; }
static void hswap(El *a, vl_uindex i, vl_uindex j) { El t = a[i]; a[i] = a[j]; a[j] = t; pos[a[i].id] = i; pos[a[j].id] = j; }
#define VL_HEAP_prefix hh
#define VL_HEAP_type El
#define VL_HEAP_cmp hcmp
#define VL_HEAP_swap hswap
#include <vl/heap-def.h>
/* 2, 3. plain arrays, default compare and swap */
#define VL_HEAP_prefix ih
#define VL_HEAP_type int
#include <vl/heap-def.h>
#define VL_HEAP_prefix dh
#define VL_HEAP_type double
#include <vl/heap-def.h>

static El ha[256]; static int ia[256]; static double da[256];
static vl_size n; static int kind; static double hs = 1;

static void view(void) {
  vf_int("n", (long)n);
  vf_str("kind", kind == 0 ? "handle" : "value");
  if (kind == 0) {
    int ok = 1; vl_uindex k; for (k = 0; k < n; ++k) if (pos[ha[k].id] != k) ok = 0;
    VF_SEQ("arr", n, ha[i_].id); vf_bool("posok", ok);
  } else if (kind == 1) VF_SEQ("arr", n, ia[i_]);
  else VF_SEQ("arr", n, vf_exact(da[i_] / hs));
}
/* the scale of the keys, far beyond single precision now and then */
static void newq(void) { static unsigned c; hs = ++c % 7 == 3 ? ldexp(1, -300) : c % 7 == 5 ? ldexp(1, 400) : 1; n = 0; vf_begin("New"); vf_str("kind", kind == 0 ? "handle" : "value"); vf_end(); }
static int fresh; /* next identity */
static void push(int id, int p) {
  vf_call("push n=%d", (int)n);
  if (kind == 0) { ha[n].id = id; ha[n].key = p * hs; pos[id] = n; hh_push(ha, &n); }
  else if (kind == 1) { ia[n] = p; ih_push(ia, &n); } else { da[n] = p * hs; dh_push(da, &n); }
  vf_begin("Push"); vf_int("id", id); vf_int("p", p); view(); vf_end();
}
static int pop(void) {
  vl_uindex k; int id = 0, v = 0; vf_call("pop n=%d", (int)n);
  if (kind == 0) { k = hh_pop(ha, &n); id = k < 256 ? ha[k].id : -1; }
  else if (kind == 1) { k = ih_pop(ia, &n); v = k < 256 ? ia[k] : -1; }
  else { k = dh_pop(da, &n); v = k < 256 ? (int)vf_exact(da[k] / hs) : -1; }
  vf_begin("Pop"); vf_int("id", id); vf_int("v", v); view(); vf_end();
  return id;
}
static void update(int id, int p) {
  vf_call("update n=%d", (int)n);
  ha[pos[id]].key = p * hs; hh_update(ha, n, pos[id]);
  vf_begin("Update"); vf_int("id", id); vf_int("p", p); view(); vf_end();
}
static int inq[256];
static void scenario(int maxn, int prios, int ops, int bias) {
  int t; newq(); memset(inq, 0, sizeof inq);
  for (t = 0; t < ops; ++t) {
    int r = vf_rnd(100), p = vf_rnd(prios) - prios / 2;
    if (kind == 0 && n > 0 && r < 35) {
      update(ha[vf_rnd(n)].id, p);
    } else if (n == 0 || (n < (vl_size)maxn && r < bias)) {
      int id; if (kind == 0) { do id = vf_rnd(maxn + 4); while (inq[id]); inq[id] = 1; } else { id = fresh++; }
      push(id, p);
    } else { int id = pop(); if (kind == 0 && id >= 0) inq[id] = 0; }
  }
  while (n > 0) { int id = pop(); (void)id; }
}
/* every sequence of pushes of k values in 0..m-1, then every single update, then drain */
static void exhaustive(int k, int m) {
  long c, tot = 1; int i, u, p; for (i = 0; i < k; ++i) tot *= m;
  for (c = 0; c < tot; ++c) {
    if (kind != 0) { long x = c; newq(); for (i = 0; i < k; ++i) { push(i, x % m); x /= m; } while (n) pop(); continue; }
    for (u = 0; u < k; ++u) for (p = 0; p < m; ++p) {
      long x = c; newq(); for (i = 0; i < k; ++i) { push(i, x % m); x /= m; }
      update(u, p); while (n) pop();
    }
  }
}
int main(int argc, char **argv) {
  int f, s; char nm[32]; vf_init(argc, argv); fresh = 0;
  for (f = 0; f < (vf_thorough ? 32 : 6); ++f) {
    sprintf(nm, "rand%02d", f); vf_open(nm);
    for (s = 0; s < 30; ++s) {
      kind = s % 3; fresh = 0;
      int mx = s < 10 ? 4 : s < 20 ? 12 : 40;
      scenario(mx, s % 2 ? 3 : 50, s < 20 ? 40 : 120, 50 + vf_rnd(45));
    }
  }
  kind = 0; vf_open("exh0"); exhaustive(3, 3);
  vf_open("exh1"); exhaustive(4, 2);
  if (vf_thorough) { vf_open("exh4"); exhaustive(4, 3); vf_open("exh5"); exhaustive(6, 2); }
  kind = 1; vf_open("exh2"); exhaustive(5, 3);
  kind = 2; vf_open("exh3"); exhaustive(vf_thorough ? 6 : 4, 3);
  return 0;
}
