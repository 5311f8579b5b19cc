#include "vf.h"
#include <dirent.h>
#include <vl/generic.h>
#include <vl/pgm.h>
static long live;
static void *m_(size_t n) { void *p = malloc(n ? n : 1); live++; memset(p, 0xC3, n ? n : 1); return p; }
static void *r_(void *q, size_t n) { if (!q) live++; return realloc(q, n ? n : 1); }
static void *c_(size_t a, size_t b) { live++; return calloc(a ? a : 1, b ? b : 1); }
static void f_(void *p) { if (p) { live--; free(p); } }
static int fds(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) ++n; closedir(d); return n; }
static unsigned char B[70000]; static size_t nb;
static char path[4200]; static long live0; static int fd0;
static void store(void) { FILE *f = fopen(path, "wb"); if (!f) _exit(93); if (fwrite(B, 1, nb, f) != nb) _exit(93); fclose(f); }
static void pre(void) { live0 = live; vl_set_last_error(0, 0); fd0 = fds(); }
static void post(int err) { int last = vl_get_last_error(); vf_int("err", err); vf_int("last", last); vf_int("files", fds() - fd0); vf_int("blocks", live - live0); }
static void bytes(void) { VF_SEQ("bytes", nb, B[i_]); }
static void head(void) { VlPgmImage im; int e; FILE *f; store(); f = fopen(path, "rb"); pre(); memset(&im, 0x5A, sizeof im); vf_call("vl_pgm_extract_head"); e = vl_pgm_extract_head(f, &im);
  vf_begin("Head"); bytes(); post(e); if (!e) { vf_int("w", im.width); vf_int("h", im.height); vf_int("mx", im.max_value); vf_bool("raw", im.is_raw); vf_int("pos", ftell(f)); vf_int("npix", vl_pgm_get_npixels(&im)); vf_int("bpp", vl_pgm_get_bpp(&im)); } vf_end(); fclose(f); }
static void data(void) { VlPgmImage im; int e; FILE *f; void *p = 0; size_t n = 0; store(); f = fopen(path, "rb"); pre(); vf_call("vl_pgm_extract_data"); e = vl_pgm_extract_head(f, &im);
  if (!e && vl_pgm_get_npixels(&im) <= 5000) { n = vl_pgm_get_npixels(&im); p = malloc(n * vl_pgm_get_bpp(&im) + 1); ((unsigned char*)p)[n * vl_pgm_get_bpp(&im)] = 0xEE; e = vl_pgm_extract_data(f, &im, p); if (((unsigned char*)p)[n * vl_pgm_get_bpp(&im)] != 0xEE) e = 999; }
  vf_begin("Data"); bytes(); post(e); if (!e) VF_SEQ("pix", n, im.max_value >= 256 ? ((vl_uint16*)p)[i_] : ((vl_uint8*)p)[i_]); vf_end(); free(p); fclose(f); }
static void file(int fl, int missing) { VlPgmImage im; int e; vl_uint8 *p = 0; float *q = 0; char nm[4300]; if (!missing) store(); strcpy(nm, path); if (missing) strcat(nm, ".none"); pre(); memset(&im, 0, sizeof im); vf_call("vl_pgm_read_new%s %s", fl ? "_f" : "", nm);
  if (fl) e = vl_pgm_read_new_f(nm, &im, &q); else e = vl_pgm_read_new(nm, &im, &p);
  vf_begin("File"); bytes(); vf_bool("float", fl); vf_bool("missing", missing); post(e);
  if (!e) { vf_int("w", im.width); vf_int("h", im.height); vf_int("mx", im.max_value); 
    if (fl) { int i, n = im.width * im.height; vf_key("pix"); vf_put("[", 1); for (i = 0; i < n; ++i) { double v = (double)q[i] * im.max_value, r = floor(v + .5); vf_printf(i ? ",%ld" : "%ld", fabs(v - r) < 1e-3 ? (long)r : VF_BAD); } vf_put("]", 1); }
    else VF_SEQ("pix", im.width * im.height, p[i_]); }
  vf_end(); if (!e) { vl_free(p); vl_free(q); } }
static void slurp(void) { FILE *f = fopen(path, "rb"); nb = f ? fread(B, 1, sizeof B, f) : 0; if (f) fclose(f); }
static void insert(int w, int h, int mx, int via) { VlPgmImage im; int n = w * h, i, e; vl_uint16 *s = malloc(2 * n + 2), *s2 = malloc(2 * n + 2); vl_uint8 *b = (vl_uint8*)s; FILE *f;
  im.width = w; im.height = h; im.max_value = mx; im.is_raw = vf_rnd(2);
  for (i = 0; i < n; ++i) { int v = vf_rnd(4) ? vf_rnd(mx + 1) : vf_rnd(2) ? mx : 0; if (mx >= 256) s[i] = v; else b[i] = v; } memcpy(s2, s, (mx >= 256 ? 2 : 1) * n);
  unlink(path); pre(); vf_call("vl_pgm_insert %dx%d max %d", w, h, mx);
  if (via && mx == 255) e = vl_pgm_write(path, b, w, h); else { f = fopen(path, "wb"); e = vl_pgm_insert(f, &im, s); fclose(f); }
  slurp(); vf_begin("Insert"); bytes(); post(e); vf_int("w", w); vf_int("h", h); vf_int("mx", mx); vf_bool("kept", !memcmp(s, s2, (mx >= 256 ? 2 : 1) * n)); b = (vl_uint8*)s2; VF_SEQ("pix", n, mx >= 256 ? s2[i_] : b[i_]); vf_end(); free(s); free(s2);
  head(); data(); file(vf_rnd(2), 0); }
static void scale(int w, int h, int lo, int hi) { int n = w * h, i, e; float *v = malloc(sizeof(float) * n + 4); for (i = 0; i < n; ++i) v[i] = vf_range(lo, hi); unlink(path); pre(); vf_call("vl_pgm_write_f"); e = vl_pgm_write_f(path, v, w, h); slurp();
  vf_begin("Scale"); bytes(); post(e); vf_int("w", w); vf_int("h", h); VF_SEQ("vals", n, vf_exact(v[i_])); vf_end(); free(v); }
static void werr(int k) { static vl_uint8 big[40000]; float v[4] = {0}; int e; VlPgmImage im = {100, 200, 255, 1}; FILE *f; char nm[4300]; sprintf(nm, "%s.dir/none", path); pre(); vf_call("write error %d", k);
  if (k == 0) e = vl_pgm_write(nm, big, 2, 2); else if (k == 1) e = vl_pgm_write_f(nm, v, 2, 2); else { f = fopen("/dev/full", "wb"); if (k == 3) { im.max_value = 300; im.height = 100; } e = vl_pgm_insert(f, &im, big); fclose(f); }
  vf_begin("WErr"); post(e); vf_end(); }
static void put(const char *s) { nb = strlen(s); memcpy(B, s, nb); }
static void both(void) { head(); data(); file(0, 0); file(1, 0); }
int main(int argc, char **argv) {
  int i, j, k, t; vf_init(argc, argv); vl_set_alloc_func(m_, r_, c_, f_); sprintf(path, "%s/img.pgm", vf_dir); vf_open("pgm");
  { static const char *g[] = {" ", "\n", "\r\n", "\t ", "#c\n", " # x 7\n ", "#\n#y\n", "", "x", "# no end", "-", "\n#a\n\n#b\n"}; int G = sizeof g / sizeof *g;
    static const char *mag[] = {"P5", "P2", "P6", "p5", "P", "", "5P", "P5 ", "P1", "Q5", "P52"}; static const char *fin[] = {"\n", " ", "\r", "\t", "#", "x", "", "\n\n"};
    char s[300];
    for (i = 0; i < 11; ++i) { sprintf(s, "%s\n2 1\n255\nab", mag[i]); put(s); both(); }
    for (i = 0; i < G; ++i) for (j = 0; j < G; ++j) for (k = 0; k < G; ++k) if (vf_thorough || vf_rnd(4) == 0) { sprintf(s, "P5%s3%s2%s255\nabcdefg", g[i], g[j], g[k]); put(s); head(); file(0, 0); }
    for (i = 0; i < 8; ++i) for (j = 0; j < 2; ++j) { sprintf(s, "P%d 2 2 9%s1 2 3 4 5", j ? 5 : 2, fin[i]); put(s); both(); }
    { static const char *num[] = {"0", "1", "2", "00", "002", "-1", "-2", "x", "", "2x", "3.5"}; for (i = 0; i < 11; ++i) for (j = 0; j < 11; ++j) for (k = 0; k < 2; ++k) { if (k == 0) sprintf(s, "P5 %s %s 255\nabcdefghi", num[i], num[j]); else sprintf(s, "P2 2 %s %s\n1 2 3 4 5 6 7 8", num[i], num[j]); put(s); both(); } }
    { static const char *mx[] = {"0", "1", "7", "254", "255", "256", "257", "1000", "32768", "65534", "65535", "65536", "65537", "99999", "1000000"}; for (i = 0; i < 15; ++i) for (k = 0; k < 2; ++k) { sprintf(s, "P%d 3 2 %s\n%s", k ? 2 : 5, mx[i], k ? "0 1 0 1 1 0" : "abcdefghijklmno"); put(s); both(); } }
    { static const char *pl[] = {"1 2 3 4 5 6", "1\n2\n\n3\t4 5 6", " 1 2 3 4 5 6\n", "1 2 3 4 5", "1 2 x 4 5 6", "", "1 2 3 4 5 6 7", "001 02 3 4 5 255", "1 2 3 4 5 "}; for (i = 0; i < 9; ++i) { sprintf(s, "P2 2 3 255\n%s", pl[i]); put(s); both(); sprintf(s, "P2\n#c\n2 3 40000\n%s", pl[i]); put(s); both(); } } }
  /* every truncation point of valid files */
  for (t = 0; t < 4; ++t) { unsigned char C[200]; size_t n; const char *h[] = {"P5\n# c\n3 2\n255\n", "P5 3 2 300 ", "P2\n3 2\n9\n1 2 3 4 5 6\n", "P2\n2 2\n999\n100 200 300 400\n"}; strcpy((char*)C, h[t]); n = strlen(h[t]); for (i = 0; t < 2 && i < (t ? 12 : 6); ++i) C[n++] = vf_rnd(256); for (i = 0; i <= (int)n; ++i) { memcpy(B, C, n); nb = i; both(); } }
  nb = 0; file(0, 1); file(1, 1); for (k = 0; k < 4; ++k) werr(k);
  { static const int mx[] = {1, 2, 100, 254, 255, 256, 257, 1023, 4096, 65534, 65535}; for (i = 1; i <= 4; ++i) for (j = 1; j <= 4; ++j) for (k = 0; k < 11; ++k) insert(i, j, mx[k], 0);
    for (t = 0; t < (vf_thorough ? 600 : 60); ++t) insert(vf_range(1, 20), vf_range(1, 12), t % 3 ? mx[vf_rnd(11)] : 255, t % 3 == 0); insert(64, 3, 255, 1); insert(3, 100, 65535, 0); }
  for (t = 0; t < (vf_thorough ? 300 : 60); ++t) { int a = vf_range(-20, 20); scale(vf_range(1, 6), vf_range(1, 6), a, a + (t % 5 ? vf_range(0, 300) : 0)); }
  return 0;
}
