/* the programs sift and mser, run on generated images and options, next to
   what the library computes; argv[4], argv[5]: the programs */
#include "vf.h"
#include <dirent.h>
#include <ctype.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <vl/sift.h>
#include <vl/mser.h>
static char top[4096], *prog[2]; static int which;
static char *av[64]; static int ac; static char store[40][2000]; static int ns;
static char *keep(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(store[ns], sizeof store[0], f, a); va_end(a); return store[ns++]; }
/* options as given, structured */
static struct { char key[24]; int has; char arg[1400]; } sp[12]; static int nsp;
static struct { char key[24]; int good; long v; } nu[12]; static int nnu;
static int junk, help, orient;
/* settings in force for the library's run */
static int O, S, omin; static double edge, peak, magn; static double delta, amax, amin, vmax, dmin; static int bright, dark;
static void reset(int p) { which = p; ac = ns = nsp = nnu = junk = help = orient = 0; av[ac++] = prog[p]; O = -1; S = 3; omin = -1; edge = peak = magn = -1; delta = amax = amin = vmax = dmin = -1; bright = dark = 1; }
static void spec(const char *key, const char *arg) { strcpy(sp[nsp].key, key); sp[nsp].has = arg != 0; strcpy(sp[nsp].arg, arg ? arg : ""); nsp++;
  if (!strcmp(key, "output")) { if (vf_rnd(2)) { av[ac++] = keep("-o"); av[ac++] = keep("%s", arg); } else if (vf_rnd(2)) av[ac++] = keep("--output=%s", arg); else { av[ac++] = keep("--output"); av[ac++] = keep("%s", arg); } }
  else if (!strcmp(key, "read-frames") && vf_rnd(2)) { av[ac++] = keep("--%s", key); av[ac++] = keep("%s", arg); }
  else av[ac++] = arg ? keep("--%s=%s", key, arg) : keep("--%s", key); }
static void num(const char *key, const char *text, long milli) { strcpy(nu[nnu].key, key); nu[nnu].good = milli != VF_BAD; nu[nnu].v = milli; nnu++;
  if (strlen(key) == 1) { if (vf_rnd(2) && *text) av[ac++] = keep("-%s%s", key, text); else { av[ac++] = keep("-%s", key); av[ac++] = keep("%s", text); } }
  else if (vf_rnd(2)) av[ac++] = keep("--%s=%s", key, text); else { av[ac++] = keep("--%s", key); av[ac++] = keep("%s", text); } }
/* images */
static struct { char name[80], stat[12]; int w, h, mx; vl_uint16 px[4096]; int keys, there, bad; double k[40][4]; int order[40]; int bin, part; } im[4]; static int nim;
static void put_file(const char *rel, const void *p, size_t n) { char t[5000]; FILE *f; snprintf(t, sizeof t, "%s/%s", top, rel); f = fopen(t, "wb"); if (!f || fwrite(p, 1, n, f) != n) _exit(90); fclose(f); }
static void image(int i, const char *stat, int mser) { int x, y, k, n, kind = vf_rnd(5); char b[20000]; size_t l; int cx[5], cy[5], a[5]; double s[5];
  static const char *nm[] = {"in/a.pgm", "in/b.c.pgm", "in/img", "in/deep/p.q", "in/.hid.pgm", "in/d\\e.pgm", "in/x%y.pgm"};
  strcpy(im[i].stat, stat); strcpy(im[i].name, nm[(vf_rnd(3) * 2 + i) % 7]); if (i == 1 && vf_rnd(2)) strcpy(im[i].name, nm[1 + 2 * vf_rnd(3)]); if (i == 0) strcpy(im[i].name, nm[2 * vf_rnd(4)]); if (i == 2) strcpy(im[i].name, "in/deep/z.pgm");
  im[i].w = mser ? vf_range(4, 12) : vf_range(16, 40); im[i].h = mser ? vf_range(4, 12) : vf_range(16, 40); im[i].mx = !strcmp(stat, "wide") ? vf_range(256, 900) : vf_rnd(4) ? 255 : 200; n = im[i].w * im[i].h;
  for (k = 0; k < 5; ++k) { cx[k] = vf_rnd(im[i].w); cy[k] = vf_rnd(im[i].h); a[k] = vf_range(-100, 100); s[k] = 1.5 + 4 * vf_unit(); }
  for (y = 0; y < im[i].h; ++y) for (x = 0; x < im[i].w; ++x) { double v = 100; if (mser) v = kind == 0 ? vf_rnd(4) * 60 : kind == 1 ? vf_rnd(7) * 30 : (x / 2 + y / 3) * 9 + vf_rnd(20); else if (kind) { for (k = 0; k < 5; ++k) v += a[k] * exp(-((x - cx[k]) * (x - cx[k]) + (y - cy[k]) * (y - cy[k])) / (2 * s[k] * s[k])); v += vf_rnd(3); } else v = ((x - cx[0]) * a[0] + (y - cy[0]) * a[1] > 0 ? 10 : 190);
    if (!strcmp(stat, "wide")) v *= im[i].mx / 256.0; v = v < 0 ? 0 : v > im[i].mx ? im[i].mx : v; im[i].px[x + y * im[i].w] = v; }
  if (!strcmp(stat, "missing")) { strcpy(im[i].name, "in/none.pgm"); return; }
  l = sprintf(b, !strcmp(stat, "badhead") ? "P7\n%d %d\n%d\n" : !strcmp(stat, "badmeta") ? (vf_rnd(2) ? "P5\n%d x%d\n%d\n" : "P5\n-%d %d\n%d\n") : vf_rnd(2) ? "P5\n%d %d\n%d\n" : "P5 # c\n%d\n%d %d\n", im[i].w, im[i].h, im[i].mx);
  for (k = 0; k < n; ++k) { if (im[i].mx > 255) b[l++] = im[i].px[k] >> 8; b[l++] = im[i].px[k] & 255; }
  if (!strcmp(stat, "short")) l -= vf_range(1, 5); if (!strcmp(stat, "empty")) l = vf_rnd(2);
  put_file(im[i].name, b, l); }
/* frames to be read; the file is in/BASENAME.key */
static void base(const char *n, char *o) { const char *p = n, *q; for (q = n; *q; ++q) if (*q == '/' || *q == '\\') p = q + 1; strcpy(o, p); { char *d = strrchr(o, '.'); if (d) *d = 0; } }
static void be8(double v, unsigned char *o) { int i; unsigned char t[8]; memcpy(t, &v, 8); for (i = 0; i < 8; ++i) o[i] = t[7 - i]; }
static double gg(double v) { char t[40]; snprintf(t, 40, "%g", v); return atof(t); }
static void keys(int i, int kind, int bin) { char b[9000], t[200], bn[80]; size_t l = 0; int k, j, m = kind == 1 ? 0 : vf_range(1, 6); base(im[i].name, bn); snprintf(t, sizeof t, "in/%s.key", bn); im[i].keys = m; im[i].bad = kind == 2; im[i].there = kind != 3; im[i].part = kind == 4 ? vf_range(1, 3) : 0; im[i].bin = bin;
  for (k = 0; k < m; ++k) { im[i].k[k][0] = gg(vf_unit() * (im[i].w - 1)); im[i].k[k][1] = gg(vf_unit() * (im[i].h - 1)); im[i].k[k][2] = gg(0.6 + 0.01 * vf_rnd(10) + k * (vf_rnd(2) ? 0.7 : 1.43)); im[i].k[k][3] = gg(vf_unit() * 6.2); }
  for (k = 0; k < m; ++k) for (j = 0; j < k; ++j) if (im[i].k[j][2] == im[i].k[k][2]) { im[i].k[k][2] += 0.0625; j = -1; }
  for (k = 0; k < m; ++k) { j = vf_rnd(m); double u[4]; memcpy(u, im[i].k[k], 32); memcpy(im[i].k[k], im[i].k[j], 32); memcpy(im[i].k[j], u, 32); }
  if (kind == 3) { char p[5000]; snprintf(p, sizeof p, "%s/%s", top, t); unlink(p); return; }
  for (k = 0; k < m; ++k) for (j = 0; j < 4; ++j) if (bin) { be8(im[i].k[k][j], (unsigned char*)b + l); l += 8; } else l += sprintf(b + l, "%.12g%s", im[i].k[k][j], j < 3 || vf_rnd(2) ? " " : vf_rnd(2) ? "\n" : " \n");
  for (j = 0; j < im[i].part; ++j) if (bin) { be8(3, (unsigned char*)b + l); l += 8; } else l += sprintf(b + l, " 3");
  if (im[i].bad) { if (bin) l += vf_range(1, 7); else l += sprintf(b + l, " oops"); }
  put_file(t, b, l); }
/* ------------------------------------------------------------ the library */
static void bytes8(double v, int first) { unsigned char o[8]; int i; be8(v, o); for (i = 0; i < 8; ++i) vf_printf(first && !i ? "%d" : ",%d", o[i]); }
static int nrow;
static void row(VlSiftFilt *f, VlSiftKeypoint const *k, double a) { vl_sift_pix d[128]; double v[4]; int j; char t[40]; vl_sift_calc_keypoint_descriptor(f, d, k, a); v[0] = k->x; v[1] = k->y; v[2] = k->sigma; v[3] = a;
  if (nrow++) VF_LIT(","); VF_LIT("{\"g\":["); for (j = 0; j < 4; ++j) { if (j) VF_LIT(","); snprintf(t, 40, "%g", v[j]); vf_strn(t, strlen(t)); }
  VF_LIT("],\"b\":["); for (j = 0; j < 4; ++j) bytes8(v[j], !j); VF_LIT("],\"d\":["); for (j = 0; j < 128; ++j) vf_printf(j ? ",%d" : "%d", (int)(512.0 * d[j])); VF_LIT("]}"); }
static char gssb[20000]; static size_t gl;
static void level(VlSiftFilt *f) { int s, k, w = vl_sift_get_octave_width(f), h = vl_sift_get_octave_height(f); for (s = 0; s < S; ++s) { vl_sift_pix *p = vl_sift_get_octave(f, s); unsigned char *q = malloc(w * h); for (k = 0; k < w * h; ++k) q[k] = p[k] > 255 ? 255 : p[k] < 0 ? 0 : (unsigned char)p[k];
    gl += sprintf(gssb + gl, "%s{\"o\":%d,\"s\":%d,\"w\":%d,\"h\":%d,\"fnv\":\"%016llx\"}", gl ? "," : "", vl_sift_get_octave_index(f), s, w, h, (unsigned long long)vf_fnv(q, w * h, 0)); free(q); } }
static VlSiftFilt *filt(int i) { VlSiftFilt *f = vl_sift_new(im[i].w, im[i].h, O, S, omin); if (edge >= 0) vl_sift_set_edge_thresh(f, edge); if (peak >= 0) vl_sift_set_peak_thresh(f, peak); if (magn >= 0) vl_sift_set_magnif(f, magn); return f; }
static void lib_sift(int i, int reading) { static vl_sift_pix fd[4096]; int k, q, n = im[i].w * im[i].h, err; double an[4]; VlSiftFilt *f; for (k = 0; k < n; ++k) fd[k] = im[i].px[k];
  nrow = 0; gl = 0; gssb[0] = 0; vf_key("rows"); VF_LIT("["); vf_call("library sift %dx%d O %d S %d first %d", im[i].w, im[i].h, O, S, omin);
  f = filt(i);
  for (err = vl_sift_process_first_octave(f, fd); !err; err = vl_sift_process_next_octave(f)) { level(f); if (reading) continue; vl_sift_detect(f);
    for (k = 0; k < vl_sift_get_nkeypoints(f); ++k) { VlSiftKeypoint const *kp = vl_sift_get_keypoints(f) + k; int m = vl_sift_calc_keypoint_orientations(f, an, kp); for (q = 0; q < m; ++q) row(f, kp, an[q]); } }
  vl_sift_delete(f);
  if (reading && im[i].there) { int od[40], a, b; for (a = 0; a < im[i].keys; ++a) od[a] = a; for (a = 0; a < im[i].keys; ++a) for (b = a + 1; b < im[i].keys; ++b) if (im[i].k[od[b]][2] < im[i].k[od[a]][2]) { int t = od[a]; od[a] = od[b]; od[b] = t; }
    for (a = 0; a < im[i].keys; ++a) { double *K = im[i].k[od[a]]; VlSiftKeypoint kp; f = filt(i); vl_sift_keypoint_init(f, &kp, K[0], K[1], K[2]); err = vl_sift_process_first_octave(f, fd); while (!err && vl_sift_get_octave_index(f) != kp.o) err = vl_sift_process_next_octave(f);
      if (!err) { int m = 1; an[0] = K[3]; if (orient) m = vl_sift_calc_keypoint_orientations(f, an, &kp); for (q = 0; q < m; ++q) row(f, &kp, an[q]); } vl_sift_delete(f); } }
  VF_LIT("]"); vf_key("gss"); VF_LIT("["); vf_put(gssb, gl); VF_LIT("]"); }
static void lib_mser(int i, int inv, const char *key) { int k, j, n = im[i].w * im[i].h, d[2]; vl_uint8 b[4096]; VlMserFilt *f; char t[60]; d[0] = im[i].w; d[1] = im[i].h; for (k = 0; k < n; ++k) b[k] = inv ? 255 - im[i].px[k] : im[i].px[k]; vf_call("library mser %dx%d", d[0], d[1]); f = vl_mser_new(2, d);
  if (delta >= 0) vl_mser_set_delta(f, delta); if (amax >= 0) vl_mser_set_max_area(f, amax); if (amin >= 0) vl_mser_set_min_area(f, amin); if (vmax >= 0) vl_mser_set_max_variation(f, vmax); if (dmin >= 0) vl_mser_set_min_diversity(f, dmin);
  vl_mser_process(f, b); vl_mser_ell_fit(f); vf_key(key); VF_LIT("{\"seeds\":["); for (k = 0; k < vl_mser_get_regions_num(f); ++k) vf_printf(k ? ",%d" : "%d", (int)vl_mser_get_regions(f)[k]);
  VF_LIT("],\"g\":["); for (k = 0; k < vl_mser_get_ell_num(f); ++k) { vf_put(k ? ",[" : "[", k ? 2 : 1); for (j = 0; j < 5; ++j) { if (j) VF_LIT(","); snprintf(t, 60, "%f", vl_mser_get_ell(f)[5 * k + j]); vf_strn(t, strlen(t)); } VF_LIT("]"); }
  VF_LIT("],\"b\":["); for (k = 0; k < 5 * vl_mser_get_ell_num(f); ++k) bytes8(vl_mser_get_ell(f)[k], !k); VF_LIT("]}"); vl_mser_delete(f); }
/* ------------------------------------------------------------- the outputs */
static int nout;
static void one_out(const char *path, const char *rel) { FILE *f = fopen(path, "rb"); unsigned char *b = malloc(2000000); size_t n = fread(b, 1, 2000000, f), i; int text = 1, w, h, mx, off = 0; fclose(f);
  if (nout++) VF_LIT(","); VF_LIT("{\"e\":0"); vf_codes("name", rel, strlen(rel));
  for (i = 0; i < n; ++i) if (!(isprint(b[i]) || b[i] == '\n')) text = 0;
  if (n > 8 && b[0] == 'P' && b[1] == '5' && sscanf((char*)b, "P5 %d %d %d%n", &w, &h, &mx, &off) == 3) { off++; vf_str("kind", "pgm"); vf_int("w", w); vf_int("h", h); vf_int("mx", mx); vf_int("len", n - off); vf_printf(",\"fnv\":\"%016llx\"", (unsigned long long)vf_fnv(b + off, n - off, 0)); }
  else if (text) { int open = 0, tok = 0, lines = 0; vf_str("kind", "text"); vf_bool("ends", n == 0 || b[n - 1] == '\n'); vf_key("lines"); VF_LIT("[");
    for (i = 0; i < n; ++i) { if (!open) { if (lines++) VF_LIT(","); VF_LIT("["); open = 1; tok = 0; } if (b[i] == '\n') { VF_LIT("]"); open = 0; continue; } if (b[i] == ' ') continue;
      { size_t j = i; while (j < n && b[j] != ' ' && b[j] != '\n') ++j; if (tok++) VF_LIT(","); vf_strn((char*)b + i, j - i); i = j - 1; } }
    if (open) VF_LIT("]"); VF_LIT("]"); }
  else { vf_str("kind", "bytes"); VF_SEQ("bytes", n, b[i_]); }
  VF_LIT("}"); free(b); }
static int byname(const void *a, const void *b) { return strcmp(*(char**)a, *(char**)b); }
static void listing(const char *rel) { char p[6000]; struct dirent **d; int i, n; snprintf(p, sizeof p, "%s/%s", top, rel); n = scandir(p, &d, 0, alphasort); for (i = 0; i < n; ++i) { char r[3000], q[9000]; struct stat st; if (strcmp(d[i]->d_name, ".") && strcmp(d[i]->d_name, "..")) { snprintf(r, sizeof r, "%s%s%s", rel, *rel ? "/" : "", d[i]->d_name); snprintf(q, sizeof q, "%s/%s", top, r); if (!stat(q, &st) && S_ISDIR(st.st_mode)) { if (strcmp(r, "in")) listing(r); } else one_out(q, r); } free(d[i]); } free(d); }
static void fresh(void) { char c[5000]; snprintf(c, sizeof c, "%s", top); if (!strstr(c, "/run")) _exit(91); { char cmd[9000]; snprintf(cmd, sizeof cmd, "rm -rf '%s' && mkdir -p '%s/in/deep' '%s/sub'", c, c, c); if (system(cmd)) _exit(92); } }
static int run(int *errout, int *lines) { char e[4200], o[4200]; int st, i; pid_t p; struct stat s; snprintf(e, sizeof e, "%s/err.txt", vf_dir); snprintf(o, sizeof o, "%s/out.txt", vf_dir); av[ac] = 0;
  vf_call("%s %s %s %s", which ? "mser" : "sift", ac > 1 ? av[1] : "", ac > 2 ? av[2] : "", ac > 3 ? av[3] : "");
  p = fork(); if (!p) { if (chdir(top)) _exit(93); if (!freopen(o, "w", stdout) || !freopen(e, "w", stderr)) _exit(94); alarm(40); signal(SIGALRM, SIG_DFL); execv(prog[which], av); _exit(127); }
  waitpid(p, &st, 0); stat(e, &s); *errout = s.st_size > 0; stat(o, &s); *lines = s.st_size > 0; return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); }
static void go(void) { int i, rc, err, so, reading = 0; uint64_t h0 = 0, h1 = 0; static char all[200000];
  for (i = 0; i < nsp; ++i) if (!strcmp(sp[i].key, "read-frames")) reading = 1;
  { int j = vf_rnd(2) ? 0 : junk == 2 ? nim : vf_range(0, nim); if (junk == 2) j = nim; memmove(av + 1 + j, av + 1, (ac - 1) * sizeof *av); for (i = 0; i < j; ++i) av[1 + i] = im[i].name; ac += j; for (; i < nim; ++i) av[ac++] = im[i].name; if (junk == 2) av[ac++] = which ? "--max-area" : vf_rnd(2) ? "-O" : "--read-frames"; }
  rc = run(&err, &so); if (getenv("VF_SHOW")) { for (i = 0; i < ac; ++i) fprintf(stderr, "%s ", i ? av[i] : which ? "mser" : "sift"); fprintf(stderr, " -> %d\n", rc); }
  vf_begin("Run"); vf_str("prog", which ? "mser" : "sift"); vf_key("specs"); VF_LIT("["); for (i = 0; i < nsp; ++i) { vf_printf(i ? ",{\"e\":0" : "{\"e\":0"); vf_str("key", sp[i].key); vf_bool("has", sp[i].has); vf_codes("arg", sp[i].arg, strlen(sp[i].arg)); VF_LIT("}"); } VF_LIT("]");
  vf_key("nums"); VF_LIT("["); for (i = 0; i < nnu; ++i) { vf_printf(i ? ",{\"e\":0" : "{\"e\":0"); vf_str("key", nu[i].key); vf_bool("good", nu[i].good); vf_int("v", nu[i].v); VF_LIT("}"); } VF_LIT("]");
  vf_bool("junk", junk); vf_bool("help", help); vf_key("files"); VF_LIT("[");
  for (i = 0; i < nim; ++i) { vf_printf(i ? ",{\"e\":0" : "{\"e\":0"); vf_codes("name", im[i].name, strlen(im[i].name)); vf_str("stat", im[i].stat); vf_bool("there", im[i].there); vf_bool("garbage", im[i].bad || im[i].part);
    if (!which && (!strcmp(im[i].stat, "ok") || !strcmp(im[i].stat, "wide")) && !junk) lib_sift(i, reading); else { vf_printf(",\"rows\":[],\"gss\":[]"); }
    if (which && !strcmp(im[i].stat, "ok")) { lib_mser(i, 0, "dark"); lib_mser(i, 1, "bright"); } VF_LIT("}"); }
  VF_LIT("]"); vf_int("useDark", dark); vf_int("useBright", bright); vf_int("exit", rc); vf_bool("err", err); vf_bool("said", so); nout = 0; vf_key("outs"); VF_LIT("["); listing(""); VF_LIT("]"); vf_end(); }
static const char *okstat(int mser) { static const char *b[] = {"missing", "badhead", "badmeta", "short", "empty", "wide"}; return vf_rnd(6) ? "ok" : b[vf_rnd(6)]; }
static char longp[1300];
static const char *pat(int bin, int k) { static char t[1500]; static const char *p[] = {"%.x", "sub/%.y", "o%%_%", "same", "nodir/%.z", "%%%%%", "/dev/full", "", "%"}; const char *pr = bin < 0 ? "" : bin ? "bin://" : "ascii://"; int c = vf_rnd(12); static const char *tail[] = {"A", "B", "C", "D", "E"}; if (c > 8) c = vf_rnd(3); if (c == 8 && vf_rnd(2)) c = 0; snprintf(t, sizeof t, "%s%s%s", pr, p[c], c == 6 || c == 7 ? "" : tail[k]); return t; }
static void images(int m, int mser, int allok) { int i; nim = m; for (i = 0; i < m; ++i) { image(i, allok ? "ok" : okstat(mser), mser); im[i].there = 1; im[i].bad = im[i].part = 0; } }
static void random_sift(void) { int m = vf_rnd(5) == 0 ? vf_range(2, 3) : 1, used = 0, bin; char b[60]; reset(0); fresh(); images(m, 0, vf_rnd(3)); bin = (int)vf_rnd(4) - 2; if (bin < -1) bin = -1;
  if (vf_rnd(3) == 0) { spec("output", pat(bin, 0)); used = 1; }
  if (vf_rnd(2)) spec("frames", vf_rnd(3) ? pat((int)vf_rnd(3) - 1, 1) : 0);
  if (vf_rnd(3) == 0) spec("descriptors", vf_rnd(3) ? pat((int)vf_rnd(3) - 1, 2) : 0);
  if (vf_rnd(5) == 0) spec("meta", vf_rnd(3) ? pat(vf_rnd(6) ? -1 : 1, 3) : 0);
  if (vf_rnd(4) == 0) spec("gss", vf_rnd(3) ? (vf_rnd(2) ? "sub/%.g" : "ascii://G%") : 0);
  if (vf_rnd(3) == 0) { int bn = vf_rnd(2), i; spec("read-frames", bn ? "bin://in/%.key" : vf_rnd(2) ? "in/%.key" : "ascii://in/%.key"); for (i = 0; i < nim; ++i) { int k = vf_rnd(9); if (strcmp(im[i].stat, "missing")) keys(i, k > 4 ? 0 : k, bn); else im[i].there = 0; } if (vf_rnd(3) == 0) { orient = 1; av[ac++] = keep("--orientations"); } }
  if (vf_rnd(4) == 0) { O = vf_range(1, 4); sprintf(b, "%d", O); num(vf_rnd(2) ? "O" : "octaves", b, O * 1000); }
  if (vf_rnd(4) == 0) { S = vf_range(1, 4); sprintf(b, "%d", S); num(vf_rnd(2) ? "S" : "levels", b, S * 1000); }
  if (vf_rnd(3) == 0) { omin = vf_range(-1, 1); sprintf(b, "%d", omin); num("first-octave", b, omin * 1000L); }
  if (vf_rnd(4) == 0) { long v = vf_range(500, 20000); edge = v / 1000.0; sprintf(b, "%g", edge); num("edge-thresh", b, v); }
  if (vf_rnd(3) == 0) { long v = vf_range(-200, 9000); peak = v / 1000.0; sprintf(b, "%g", peak); num("peak-thresh", b, v); }
  if (vf_rnd(5) == 0) { long v = vf_range(700, 6000); magn = v / 1000.0; sprintf(b, "%g", magn); num("magnif", b, v); }
  if (vf_rnd(25) == 0) num(vf_rnd(2) ? "O" : "first-octave", vf_rnd(2) ? "x" : "", VF_BAD);
  if (vf_rnd(25) == 0) num(vf_rnd(2) ? "S" : "peak-thresh", vf_rnd(2) ? "?" : "", VF_BAD);
  if (vf_rnd(20) == 0) { junk = vf_rnd(3) ? 1 : 2; if (junk == 1) av[ac++] = vf_rnd(2) ? "--nothing" : "-q"; }
  if (vf_rnd(30) == 0) spec("frames", "xml://%.f");
  if (vf_rnd(25) == 0) { memset(longp, 'k', sizeof longp); longp[vf_rnd(2) ? 1100 : 1023 - vf_rnd(2)] = 0; memcpy(longp, "sub/", 4); spec("frames", longp); }
  if (vf_rnd(6) == 0) av[ac++] = vf_rnd(2) ? "-v" : "-vv";
  go(); }
static void random_mser(void) { int m = vf_rnd(4) == 0 ? vf_range(2, 3) : 1; char b[60]; reset(1); fresh(); images(m, 1, vf_rnd(3));
  if (vf_rnd(2)) spec("frames", vf_rnd(3) ? pat((int)vf_rnd(3) - 1, 1) : 0);
  if (vf_rnd(2)) spec("seeds", vf_rnd(3) ? pat((int)vf_rnd(3) - 1, 2) : 0);
  if (vf_rnd(5) == 0) spec("meta", vf_rnd(3) ? pat(vf_rnd(6) ? -1 : 1, 3) : 0);
  if (vf_rnd(2)) { long v = vf_rnd(5) ? vf_rnd(30) : vf_range(-2, 200); delta = v; sprintf(b, "%ld", v); num(vf_rnd(2) ? "d" : "delta", b, v * 1000); }
  if (vf_rnd(3) == 0) { long v = vf_range(vf_rnd(4) ? 100 : -50, vf_rnd(4) ? 1000 : 1200); amax = v / 1000.0; sprintf(b, "%g", amax); num("max-area", b, v); }
  if (vf_rnd(3) == 0) { long v = vf_range(vf_rnd(4) ? 0 : -50, 500); amin = v / 1000.0; sprintf(b, "%g", amin); num("min-area", b, v); }
  if (vf_rnd(3) == 0) { long v = vf_range(vf_rnd(4) ? 0 : -100, 4000); vmax = v / 1000.0; sprintf(b, "%g", vmax); num("max-variation", b, v); }
  if (vf_rnd(3) == 0) { long v = vf_range(vf_rnd(4) ? 0 : -100, vf_rnd(4) ? 900 : 1100); dmin = v / 1000.0; sprintf(b, "%g", dmin); num("min-diversity", b, v); }
  if (vf_rnd(4) == 0) { dark = vf_rnd(5) ? vf_rnd(2) : 2; sprintf(b, "%d", dark); num("dark-on-bright", b, dark * 1000); }
  if (vf_rnd(4) == 0) { bright = vf_rnd(5) ? vf_rnd(2) : -1; sprintf(b, "%d", bright); num("bright-on-dark", b, bright * 1000L); }
  if (vf_rnd(25) == 0) num(vf_rnd(2) ? "delta" : "min-diversity", vf_rnd(2) ? "x" : "", VF_BAD);
  if (vf_rnd(20) == 0) { junk = vf_rnd(3) ? 1 : 2; if (junk == 1) av[ac++] = vf_rnd(2) ? "--nothing" : "-q"; }
  if (vf_rnd(30) == 0) spec("seeds", "xml://%.f");
  if (vf_rnd(6) == 0) av[ac++] = vf_rnd(2) ? "-v" : "-vv";
  go(); }
int main(int argc, char **argv) { int t; vf_init(argc, argv); prog[0] = argv[4]; prog[1] = argv[5]; snprintf(top, sizeof top, "%s/run", vf_dir); vf_open("cli");
  for (t = 0; t < 2; ++t) { reset(t); fresh(); nim = 0; help = 0; go(); reset(t); fresh(); images(1, t, 1); help = 1; av[ac++] = vf_rnd(2) ? "--help" : "-h"; go(); }
  for (t = 0; t < (vf_thorough ? 1500 : 150); ++t) { random_sift(); random_mser(); }
  fresh(); return 0; }
