/* Trace recording support for the conformance drivers.
 *
 * A driver calls the library and appends one JSON object per observed event
 * to a trace file (ndjson), which a TLA+ trace specification then accepts or
 * rejects.  Events are assembled in memory and written in one write(2) so
 * that a crash inside the library leaves only complete lines; the signal
 * handler then appends a "Crash" event, for which no specification has an
 * action.  */
#ifndef VF_H
#define VF_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>

static int vf_fd = -1;
static char *vf_buf; static size_t vf_len, vf_cap;
static int vf_first;
static char vf_where[512];
static const char *vf_dir = ".";
static long vf_seed = 1; static int vf_thorough = 0;
static int vf_nfiles = 0;
static unsigned vf_call_limit = 60; /* seconds allowed to a single call */

static void vf_put(const char *s, size_t n) {
  if (vf_len + n + 1 > vf_cap) { vf_cap = (vf_len + n + 1) * 2 + 4096; vf_buf = realloc(vf_buf, vf_cap); if (!vf_buf) _exit(97); }
  memcpy(vf_buf + vf_len, s, n); vf_len += n;
}
static void vf_printf(const char *f, ...) {
  char t[256]; va_list a; va_start(a, f); int n = vsnprintf(t, sizeof t, f, a); va_end(a); vf_put(t, (size_t)n);
}
#define VF_LIT(s) vf_put(s, sizeof(s) - 1)
static void vf_flush_event(void) {
  size_t o = 0; while (o < vf_len) { ssize_t k = write(vf_fd, vf_buf + o, vf_len - o); if (k <= 0) _exit(98); o += (size_t)k; }
  vf_len = 0;
}
static void vf_handler(int sig) {
  char t[900]; size_t i; int n;
  for (i = 0; vf_where[i]; ++i) if (vf_where[i] == '"' || vf_where[i] == '\\' || (unsigned char)vf_where[i] < 32) vf_where[i] = '\'';
  n = snprintf(t, sizeof t, "{\"e\":\"Crash\",\"sig\":%d,\"in\":\"%s\"}\n", sig, vf_where);
  if (vf_fd >= 0 && write(vf_fd, t, (size_t)n) < 0) _exit(96);
  _exit(95);
}
static void vf_open(const char *name) {
  char p[4096]; if (vf_fd >= 0) close(vf_fd);
  snprintf(p, sizeof p, "%s/%s.ndjson", vf_dir, name);
  vf_fd = open(p, O_CREAT | O_WRONLY | O_TRUNC, 0644); if (vf_fd < 0) { perror(p); _exit(99); }
  vf_nfiles++;
}
static void vf_close(void) { if (vf_fd >= 0) close(vf_fd); vf_fd = -1; }
/* announce the library call about to be made (for crash/hang reports) */
static void vf_call(const char *f, ...) {
  va_list a; va_start(a, f); vsnprintf(vf_where, sizeof vf_where, f, a); va_end(a); alarm(vf_call_limit);
}
static void vf_begin(const char *e) { alarm(0); vf_len = 0; vf_put("{\"e\":\"", 6); vf_put(e, strlen(e)); vf_put("\"", 1); }
static void vf_key(const char *k) { vf_put(",\"", 2); vf_put(k, strlen(k)); vf_put("\":", 2); }
#define VF_BAD 2000000001L   /* "not a representable integer" */
static long vf_clip(double v) { if (!(v > -2e9 && v < 2e9)) return VF_BAD; return (long)v; }
static long vf_exact(double v) { if (!(v > -2e9 && v < 2e9) || v != floor(v)) return VF_BAD; return (long)v; }
static long vf_scaled(double v, double s) { double w = v * s; if (!(w > -2e9 && w < 2e9)) return VF_BAD; return (long)floor(w + 0.5); }
static long vf_l(long long v) { return (v > 2000000000LL || v < -2000000000LL) ? VF_BAD : (long)v; }
static void vf_int(const char *k, long long v) { vf_key(k); vf_printf("%ld", vf_l(v)); }
static void vf_bool(const char *k, int v) { vf_key(k); if (v) vf_put("true", 4); else vf_put("false", 5); }
static void vf_strn(const char *s, size_t n) {
  size_t i; vf_put("\"", 1);
  for (i = 0; i < n; ++i) { unsigned char c = (unsigned char)s[i];
    if (c == '"' || c == '\\') { vf_printf("\\%c", c); } else if (c < 32 || c > 126) vf_printf("\\u%04x", c); else vf_put((char*)&c, 1); }
  vf_put("\"", 1);
}
static void vf_str(const char *k, const char *s) { vf_key(k); vf_strn(s, strlen(s)); }
/* a string as its sequence of character codes */
static void vf_codes(const char *k, const char *s, size_t n) { size_t i; vf_key(k); vf_put("[",1); for (i=0;i<n;++i) vf_printf(i?",%d":"%d",(unsigned char)s[i]); vf_put("]",1); }
/* sequences; EXPR uses index i_ */
#define VF_SEQ(k, n, EXPR) do { long long i_, n_ = (long long)(n); vf_key(k); vf_put("[",1); \
  for (i_ = 0; i_ < n_; ++i_) vf_printf(i_ ? ",%ld" : "%ld", vf_l((long long)(EXPR))); vf_put("]",1); } while (0)
/* 32-bit word as <<hi16, lo16>> ; 64-bit as four 16-bit words, most significant first */
static void vf_w32(const char *k, uint32_t v) { vf_key(k); vf_printf("[%u,%u]", (unsigned)(v >> 16), (unsigned)(v & 0xffff)); }
static void vf_w64(const char *k, uint64_t v) { vf_key(k); vf_printf("[%u,%u,%u,%u]", (unsigned)(v >> 48), (unsigned)((v >> 32) & 0xffff), (unsigned)((v >> 16) & 0xffff), (unsigned)(v & 0xffff)); }
/* real numbers, as decimal strings */
static void vf_num(double v) { if (v != v) VF_LIT("\"nan\""); else if (v - v != 0) { if (v > 0) VF_LIT("\"inf\""); else VF_LIT("\"-inf\""); } else if (v == floor(v) && fabs(v) < 1e9) vf_printf("%ld", (long)v); else vf_printf("\"%.17g\"", v); }
/* a large integer, as a decimal string */
static void vf_big(unsigned long long v) { vf_printf("\"%llu\"", v); }
static void vf_real(const char *k, double v) { vf_key(k); vf_num(v); }
#define VF_REALS(k, n, EXPR) do { long long i_, n_ = (long long)(n); vf_key(k); vf_put("[",1); \
  for (i_ = 0; i_ < n_; ++i_) { if (i_) vf_put(",", 1); vf_num((double)(EXPR)); } vf_put("]",1); } while (0)
static void vf_end(void) { vf_put("}\n", 2); vf_flush_event(); }

/* the drivers' own pseudo-random source (independent of the library's) */
static uint64_t vf_rs;
static uint64_t vf_rnd64(void) { uint64_t z = (vf_rs += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static long vf_rnd(long n) { return n <= 0 ? 0 : (long)(vf_rnd64() % (uint64_t)n); }
static long vf_range(long a, long b) { return a + vf_rnd(b - a + 1); }
static double vf_unit(void) { return (double)(vf_rnd64() >> 11) / 9007199254740992.0; }

/* FNV-1a digest of a memory block, for "is the same function of" events */
static uint64_t vf_fnv(const void *p, size_t n, uint64_t h) { const unsigned char *c = p; size_t i; if (!h) h = 1469598103934665603ULL; for (i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; } return h; }

/* argv: outdir seed tier */
static void vf_init(int argc, char **argv) {
  int s[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTRAP}; unsigned i;
  static char altstack[65536]; stack_t ss; struct sigaction sa;
  if (argc > 1) vf_dir = argv[1];
  if (argc > 2) vf_seed = atol(argv[2]);
  if (argc > 3) vf_thorough = !strcmp(argv[3], "thorough");
  vf_rs = (uint64_t)vf_seed * 0x2545F4914F6CDD1DULL + 12345;
  memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, 0);
  memset(&sa, 0, sizeof sa); sa.sa_handler = vf_handler; sa.sa_flags = SA_ONSTACK;
  for (i = 0; i < sizeof s / sizeof *s; ++i) sigaction(s[i], &sa, 0);
}
#endif
