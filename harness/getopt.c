#include "vf.h"
#include <vl/generic.h>
#include <vl/getopt_long.h>
#define MAXA 14
static char store[MAXA + 4][64]; static char *av[MAXA + 4]; static char *orig[MAXA + 4];
static int flagvar;
static struct option lo[8]; static char lonames[8][16]; static int nlo; static char so[32];

static void codes_list(const char *k, char **v, int n) {
  int i; size_t j; vf_key(k); vf_put("[", 1);
  for (i = 0; i < n; ++i) { if (i) vf_put(",", 1); vf_put("[", 1); if (!v[i]) vf_put("-9", 2); else for (j = 0; v[i][j]; ++j) vf_printf(j ? ",%d" : "%d", (unsigned char)v[i][j]); vf_put("]", 1); }
  vf_put("]", 1);
}
/* argv[1..n] are words; argv[0] program; argv[n+1] = NULL, then a guard */
static void scan(int n) {
  static char prog[] = "p"; static char gw[] = "guard"; int i, r, calls = 0; struct { int ret, idx, opt, flag; char arg[80]; int hasarg; } o[64]; int no = 0; int ok;
  av[0] = prog; for (i = 0; i < n; ++i) av[i + 1] = orig[i + 1] = store[i]; av[n + 1] = 0; av[n + 2] = gw;
  optind = 1; opterr = 0; optreset = 1; optarg = 0;
  do {
    int idx = -1; flagvar = 0; optopt = -1; optarg = (char*)0;
    vf_call("getopt_long call %d, %d words: %s|%s|%s", calls, n, n > 0 ? store[0] : "", n > 1 ? store[1] : "", n > 2 ? store[2] : "");
    r = getopt_long(n + 1, av, so, lo, &idx);
    o[no].ret = r; o[no].idx = idx; o[no].opt = optopt; o[no].flag = flagvar; o[no].hasarg = optarg != 0; if (optarg) { strncpy(o[no].arg, optarg, 79); o[no].arg[79] = 0; }
    ++no; ++calls;
  } while (r != -1 && calls < 63);
  ok = av[0] == prog && av[n + 1] == 0 && av[n + 2] == gw;
  vf_begin("Scan");
  codes_list("argv", orig + 1, n);
  vf_codes("opts", so, strlen(so));
  vf_key("longs"); vf_put("[", 1); for (i = 0; i < nlo; ++i) { size_t j; if (i) vf_put(",", 1); vf_printf("{\"arg\":%d,\"flag\":%s,\"val\":%d,\"name\":[", lo[i].has_arg, lo[i].flag ? "true" : "false", lo[i].val); for (j = 0; lo[i].name[j]; ++j) vf_printf(j ? ",%d" : "%d", lo[i].name[j]); vf_put("]}", 2); } vf_put("]", 1);
  vf_key("outs"); vf_put("[", 1);
  for (i = 0; i < no; ++i) { size_t j; if (i) vf_put(",", 1);
    /* the operand/option argument is meaningful for successful options only; at the end nothing is */
    int fin = o[i].ret == -1;
    vf_printf("{\"ret\":%d,\"idx\":%d,\"opt\":%d,\"flag\":%d,\"arg\":[", o[i].ret, fin ? -1 : o[i].idx, fin ? -1 : o[i].opt, o[i].flag);
    if (!o[i].hasarg || fin) vf_put("-1", 2); else for (j = 0; o[i].arg[j]; ++j) vf_printf(j ? ",%d" : "%d", (unsigned char)o[i].arg[j]);
    vf_put("]}", 2); }
  vf_put("]", 1);
  codes_list("after", av + 1, n); vf_int("ind", optind); vf_bool("guard", ok); vf_end();
}
static void table(int k) {
  int i; nlo = 0; memset(lo, 0, sizeof lo);
  if (k == 0) { static const char *nm[] = {"help", "buffy", "fluor", "dset", "dunset", "spike"}; int ar[] = {0,0,1,0,0,2}; int fl[] = {0,0,0,1,1,0};
    for (i = 0; i < 6; ++i) { strcpy(lonames[i], nm[i]); lo[i].has_arg = ar[i]; lo[i].flag = fl[i] ? &flagvar : 0; lo[i].val = 1000 + i; } nlo = 6; strcpy(so, "hbf:"); }
  else if (k == 1) { static const char *nm[] = {"a", "ab", "abc", "b", "a"}; int ar[] = {1,2,0,1,0}; int fl[] = {1,1,0,0,0};
    for (i = 0; i < 5; ++i) { strcpy(lonames[i], nm[i]); lo[i].has_arg = ar[i]; lo[i].flag = fl[i] ? &flagvar : 0; lo[i].val = 200 + i; } nlo = 5; strcpy(so, ":a:bc:"); }
  else { nlo = vf_range(0, 6); for (i = 0; i < nlo; ++i) { int j, m = vf_range(1, 3); for (j = 0; j < m; ++j) lonames[i][j] = 'a' + vf_rnd(3); lonames[i][m] = 0; lo[i].has_arg = vf_rnd(3); lo[i].flag = vf_rnd(3) ? 0 : &flagvar; lo[i].val = vf_range(1, 300); }
    { int j = 0, m = vf_range(0, 4), u = 0; if (vf_rnd(2)) so[j++] = ':'; for (i = 0; i < m; ++i) { so[j++] = "abcdefgh"[u]; u += vf_range(1, 2); if (vf_rnd(2)) so[j++] = ':'; } so[j] = 0; } }
  for (i = 0; i < nlo; ++i) lo[i].name = lonames[i];
}
static void rword(char *w) {
  int k = vf_rnd(14), i;
  if (k == 0) strcpy(w, ""); else if (k == 1) strcpy(w, "-"); else if (k == 2) strcpy(w, "--"); else if (k == 3) strcpy(w, "---");
  else if (k <= 5) { int m = vf_range(1, 3); for (i = 0; i < m; ++i) w[i] = "abc=-"[vf_rnd(5)]; w[m] = 0; if (w[0] == '-') w[0] = 'q'; }
  else if (k <= 9 && nlo) { sprintf(w, "--%s", lonames[vf_rnd(nlo)]); if (vf_rnd(4) == 0) { w[strlen(w) - 1] = 'x'; } if (vf_rnd(8) == 0) strcat(w, "z");
    if (vf_rnd(2)) { strcat(w, "="); if (vf_rnd(3)) strcat(w, vf_rnd(2) ? "v" : "-a=b"); } }
  else { int m = vf_range(1, 4); w[0] = '-'; for (i = 1; i <= m; ++i) w[i] = vf_rnd(5) ? "abcdefgh"[vf_rnd(8)] : 'z'; w[m + 1] = 0; }
}
int main(int argc, char **argv) {
  static const char *tok[] = {"a", "", "-", "--", "-h", "-b", "-f", "-fx", "-hf", "-bhx", "--help", "--fluor=1", "--fluor", "--spike", "--spike=", "--spike=q", "--dset", "--nope", "--hel", "---", "-x", "--help=3", "--dunset", "--dset=1"};
  int T = sizeof tok / sizeof *tok, i, j, k, t, c; vf_init(argc, argv);
  vf_open("scan");
  for (c = 0; c < 2; ++c) {
    table(0); if (c) strcpy(so, ":hbf:");
    scan(0);
    for (i = 0; i < T; ++i) { strcpy(store[0], tok[i]); scan(1); for (j = 0; j < T; ++j) { strcpy(store[1], tok[j]); scan(2);
      for (k = 0; k < T; ++k) if (vf_thorough || (vf_rnd(5) == 0)) { strcpy(store[2], tok[k]); scan(3); } } }
  }
  for (t = 0; t < (vf_thorough ? 30000 : 6000); ++t) { int n = vf_range(1, t % 10 ? 6 : 12); table(t % 4 < 2 ? t % 4 : 2); for (i = 0; i < n; ++i) { if (t % 4 == 0) strcpy(store[i], tok[vf_rnd(T)]); else rword(store[i]); } scan(n); }
  return 0;
}
