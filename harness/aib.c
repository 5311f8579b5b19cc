/* agglomerative information bottleneck on integer joint histograms */
#include "vf.h"
#include <malloc.h>
#include <vl/aib.h>
static int nv, nl; static long H[400];
static void go(int perturb) {
  double *p = malloc(sizeof(double) * nv * nl); int i; VlAIB *a; double tot = 0;
  for (i = 0; i < nv * nl; ++i) tot += (p[i] = H[i]);
  if (tot == 0) { free(p); return; }
  if (vf_rnd(2)) for (i = 0; i < nv * nl; ++i) p[i] /= tot;
  vf_call("aib %d values %d labels", nv, nl);
  mallopt(M_PERTURB, perturb); a = vl_aib_new(p, nv, nl); vl_aib_set_verbosity(a, 0); vl_aib_process(a); mallopt(M_PERTURB, 0);
  vf_begin("Aib"); vf_int("nv", nv); vf_int("nl", nl); VF_SEQ("h", nv * nl, H[i_]); VF_SEQ("parents", 2 * nv - 1, vl_aib_get_parents(a)[i_]); VF_REALS("costs", nv, vl_aib_get_costs(a)[i_]); vf_end();
  vl_aib_delete(a); free(p);
}
int main(int argc, char **argv) {
  int t, i; vf_init(argc, argv); vf_open("aib");
  for (t = 0; t < 256; ++t) { int c = t; nv = t % 2 ? 4 : 2; nl = 8 / nv / 1; if (nl > 4) nl = 4; nl = 8 / nv; for (i = 0; i < 8; ++i) { H[i] = c & 1; c >>= 1; } go(0x5a); }
  for (t = 0; t < (vf_thorough ? 8000 : 900); ++t) {
    int m = vf_rnd(5); nv = vf_range(1, t % 40 == 0 ? 14 : 8); nl = vf_range(1, 4);
    for (i = 0; i < nv * nl; ++i) H[i] = m == 0 ? vf_rnd(2) : m == 1 ? vf_rnd(4) : m == 2 ? vf_rnd(1000) : m == 3 ? (vf_rnd(3) ? 0 : vf_range(1, 20)) : vf_range(1, 3) * 7;
    if (vf_rnd(3) == 0) { int r = vf_rnd(nv); for (i = 0; i < nl; ++i) H[r * nl + i] = 0; }
    if (vf_rnd(4) == 0) { int r = vf_rnd(nv), q = vf_rnd(nv); for (i = 0; i < nl; ++i) H[r * nl + i] = 2 * H[q * nl + i]; }
    if (vf_rnd(4) == 0) for (i = 0; i < nl; ++i) H[i] = 0;
    go(vf_rnd(2) ? 0xff : 0x5a);
  }
  return 0;
}
