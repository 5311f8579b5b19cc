/* Per-thread library state under controlled schedules.
 *
 * The library's pthread calls (and getspecific/setspecific) are intercepted
 * at link time; threads are real, but only one runs at a time and at every
 * such call the scheduler decides who goes on: systematically (depth-first
 * over all choices) for small programs, pseudo-randomly for larger ones.
 * Mutexes and condition variables are emulated, including spurious wake-ups,
 * so a lost wake-up or a lock never released shows up as a deadlock.  */
#include "vf.h"
#include <pthread.h>
#include <time.h>
#include <vl/generic.h>
#include <vl/random.h>

#define MAXT 5
#define MAXC 4096
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *); int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
void *__real_pthread_getspecific(pthread_key_t); int __real_pthread_setspecific(pthread_key_t, const void *);
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
clock_t __real_clock(void);

static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t baton[MAXT]; static pthread_cond_t mainc = PTHREAD_COND_INITIALIZER;
enum { RUN, WANT, COND, DONE };
static struct { int st; void *mx; void *cv; pthread_t id; int finished; } T[MAXT];
static int nt, cur = -1, dead, scheduling;
static __thread int me = -1;
static struct { void *m; int owner; } mtx[16]; static int nmtx;
static int *own(void *m) { int i; for (i = 0; i < nmtx; ++i) if (mtx[i].m == m) return &mtx[i].owner; mtx[nmtx].m = m; mtx[nmtx].owner = -1; return &mtx[nmtx++].owner; }

/* schedule choices */
static int choice[MAXC], width[MAXC], nch, prefix, dfs, spurious; static long budget;
static int pick(int n) {
  int c; if (n == 1) return 0;
  if (nch >= MAXC) { return 0; }
  if (dfs) c = nch < prefix ? choice[nch] : 0; else c = vf_rnd(n);
  if (c >= n) c = 0;
  choice[nch] = c; width[nch] = n; nch++; return c;
}
static int runnable(int t) { if (T[t].st == RUN) return 1; if (T[t].st == WANT) return *own(T[t].mx) < 0; return 0; }
/* hand the baton to some runnable thread (big is held) */
static void sched(void) {
  int c[2 * MAXT], n = 0, t, k;
  for (t = 0; t < nt; ++t) if (runnable(t)) c[n++] = t;
  if (spurious) for (t = 0; t < nt; ++t) if (T[t].st == COND && *own(T[t].mx) < 0) c[n++] = t + MAXT;
  if (n == 0) { int done = 1; for (t = 0; t < nt; ++t) if (T[t].st != DONE) done = 0; cur = -2; if (!done) dead = 1; __real_pthread_cond_signal(&mainc); return; }
  k = c[pick(n)]; if (k >= MAXT) { k -= MAXT; spurious--; T[k].st = WANT; }
  if (T[k].st == WANT) { *own(T[k].mx) = k; T[k].st = RUN; }
  cur = k; __real_pthread_cond_signal(&baton[k]);
}
static void waitturn(void) { while (cur != me && !dead) __real_pthread_cond_wait(&baton[me], &big); if (dead) { __real_pthread_mutex_unlock(&big); pthread_exit(0); } }
static void yield_(void) { __real_pthread_mutex_lock(&big); T[me].st = RUN; sched(); waitturn(); __real_pthread_mutex_unlock(&big); }

int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (me < 0 || !scheduling) return __real_pthread_mutex_lock(m);
  __real_pthread_mutex_lock(&big); T[me].st = WANT; T[me].mx = m; sched(); waitturn(); __real_pthread_mutex_unlock(&big); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (me < 0 || !scheduling) return __real_pthread_mutex_unlock(m);
  __real_pthread_mutex_lock(&big); *own(m) = -1; T[me].st = RUN; sched(); waitturn(); __real_pthread_mutex_unlock(&big); return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (me < 0 || !scheduling) return __real_pthread_cond_wait(c, m);
  __real_pthread_mutex_lock(&big); *own(m) = -1; T[me].st = COND; T[me].cv = c; T[me].mx = m; sched(); waitturn(); __real_pthread_mutex_unlock(&big); return 0;
}
static int wake(pthread_cond_t *c, int all) {
  int w[MAXT], n = 0, t; __real_pthread_mutex_lock(&big);
  for (t = 0; t < nt; ++t) if (T[t].st == COND && T[t].cv == c) w[n++] = t;
  if (all) for (t = 0; t < n; ++t) T[w[t]].st = WANT; else if (n) T[w[pick(n)]].st = WANT;
  T[me].st = RUN; sched(); waitturn(); __real_pthread_mutex_unlock(&big); return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (me < 0 || !scheduling) return __real_pthread_cond_signal(c); return wake(c, 0); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (me < 0 || !scheduling) return __real_pthread_cond_broadcast(c); return wake(c, 1); }
void *__wrap_pthread_getspecific(pthread_key_t k) { if (me >= 0 && scheduling) yield_(); return __real_pthread_getspecific(k); }
int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { if (me >= 0 && scheduling) yield_(); return __real_pthread_setspecific(k, v); }

/* allocations made by the library on behalf of the test threads */
static void *live[4096]; static int nlive; static pthread_mutex_t lm = PTHREAD_MUTEX_INITIALIZER;
static void note(void *p) { if (!p) return; __real_pthread_mutex_lock(&lm); if (nlive < 4096) live[nlive++] = p; __real_pthread_mutex_unlock(&lm); }
static void unnote(void *p) { int i; __real_pthread_mutex_lock(&lm); for (i = nlive - 1; i >= 0; --i) if (live[i] == p) { live[i] = live[--nlive]; break; } __real_pthread_mutex_unlock(&lm); }
static __thread int inlib;
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (inlib) { memset(p, 0x5a, n); note(p); } return p; }
void *__wrap_calloc(size_t n, size_t s) { void *p = __real_calloc(n, s); if (inlib) note(p); return p; }
void *__wrap_realloc(void *q, size_t s) { if (inlib) unnote(q); void *p = __real_realloc(q, s); if (inlib) note(p); return p; }
void __wrap_free(void *p) { if (p) unnote(p); __real_free(p); }

static long now_; clock_t __wrap_clock(void) { return (clock_t)(now_ * (CLOCKS_PER_SEC / 1000)); }

static int pf1(char const *f, ...) { return 0; }
static int pf2(char const *f, ...) { return 0; }
static int pfid(printf_func_t f) { return f == (printf_func_t)printf ? 0 : f == pf1 ? 1 : f == pf2 ? 2 : f == 0 ? 8 : 3; }

static VlRand *addr[MAXT];
#define NPROG 9
static const char *prog_[MAXT]; static int counter, globals;
#define L(CALL) do { inlib = 1; CALL; inlib = 0; } while (0)
static void ev(const char *e) { vf_begin(e); vf_int("t", me + 1); }
static void doop(char c) {
  vf_call("thread %d op %c", me, c); alarm(0);
  switch (c) {
    case 'e': { int code = 10 + me * 100 + (counter++ % 50), r; char m[64]; sprintf(m, "err %d of %d", code, me); L(r = vl_set_last_error(code, "err %d of %d", code, me)); ev("SetErr"); vf_int("code", code); vf_int("r", r); vf_str("msg", m); vf_end(); break; }
    case 'n': { int r; L(r = vl_set_last_error(0, NULL)); ev("SetErr"); vf_int("code", 0); vf_int("r", r); vf_str("msg", ""); vf_end(); break; }
    case 'g': { int r; L(r = vl_get_last_error()); ev("GetErr"); vf_int("r", r); vf_end(); break; }
    case 'm': { const char *r; L(r = vl_get_last_error_message()); ev("GetMsg"); vf_str("r", r); vf_end(); break; }
    case 's': { VlRand *r; L(r = vl_get_rand()); vl_rand_seed(r, 1 + me % 2); ev("SeedRand"); vf_int("s", 1 + me % 2); vf_end(); break; }
    case 'd': { VlRand *r; vl_uint32 v; L(r = vl_get_rand()); v = vl_rand_uint32(r); ev("DrawRand"); vf_w32("v", v); vf_end(); break; }
    case 't': { now_ += 7; L(vl_tic()); ev("Tic"); vf_int("now", now_); vf_end(); break; }
    case 'T': { double d; now_ += 3; L(d = vl_toc()); ev("Toc"); vf_int("now", now_); vf_int("d", vf_scaled(d, 1000)); vf_end(); break; }
    case 'S': { int x = vf_rnd(2); L(vl_set_simd_enabled(x)); ev("SetSimd"); vf_bool("x", x); vf_end(); break; }
    case 'G': { int r; L(r = vl_get_simd_enabled()); ev("GetSimd"); vf_bool("r", r); vf_end(); break; }
    case 'P': { int x = vf_rnd(4); L(vl_set_printf_func(x == 0 ? (printf_func_t)printf : x == 1 ? pf1 : x == 2 ? pf2 : NULL)); ev("SetPrintf"); vf_int("x", x); vf_end(); break; }
    case 'Q': { int r; L(r = pfid(vl_get_printf_func())); ev("GetPrintf"); vf_int("r", r); vf_end(); break; }
    case 'a': { VlRand *r; int t, dis = 1, st; L(r = vl_get_rand()); st = addr[me] == 0 || addr[me] == r; addr[me] = r;
                for (t = 0; t < nt; ++t) if (t != me && addr[t] && T[t].st != DONE) { long d = (char*)r - (char*)addr[t]; if (d < 0) d = -d; if (d < (long)sizeof(VlRand)) dis = 0; }
                ev("Addr"); vf_bool("stable", st); vf_bool("distinct", dis); vf_end(); break; }
  }
}
static void *body(void *a) {
  const char *p; me = (int)(long)a;
  __real_pthread_mutex_lock(&big); T[me].st = RUN; while (cur != me && !dead) __real_pthread_cond_wait(&baton[me], &big);
  __real_pthread_mutex_unlock(&big); if (dead) return 0;
  for (p = prog_[me]; *p; ++p) doop(*p);
  addr[me] = 0;
  __real_pthread_mutex_lock(&big); T[me].st = DONE; T[me].finished = 1; sched(); __real_pthread_mutex_unlock(&big);
  me = -1; return 0; /* the destructor of the thread state runs unscheduled */
}
static int run(int n) {
  int t, fin = 1; nt = n; dead = 0; nmtx = 0; nch = 0; cur = -1; counter = 0; memset(addr, 0, sizeof addr); nlive = 0;
  vf_begin("Begin"); vf_int("n", n); vf_bool("begin", 1); vf_end();
  for (t = 0; t < n; ++t) { T[t].st = RUN; T[t].finished = 0; }
  scheduling = 1;
  for (t = 0; t < n; ++t) pthread_create(&T[t].id, 0, body, (void *)(long)t);
  __real_pthread_mutex_lock(&big); sched(); while (cur != -2) __real_pthread_cond_wait(&mainc, &big);
  if (dead) { for (t = 0; t < n; ++t) __real_pthread_cond_broadcast(&baton[t]); }
  __real_pthread_mutex_unlock(&big);
  for (t = 0; t < n; ++t) { pthread_join(T[t].id, 0); fin &= T[t].finished; }
  scheduling = 0;
  vf_begin("End"); vf_bool("finished", fin && !dead); vf_int("live", dead ? 0 : nlive); vf_end();
  return dead;
}
static int nextdfs(void) { int k = nch - 1; while (k >= 0 && choice[k] + 1 >= width[k]) --k; if (k < 0) return 0; choice[k]++; prefix = k + 1; return 1; }

/* threads running freely, each setting and reading back its own state: what was
   read instead of the value set (all such cases up to a few), and some others */
typedef struct { int id, n, k, iters; unsigned sd; struct { int code, rcode; char msg[1100], rmsg[1100]; vl_uint32 v, rv; } s[12]; } Ham;
static void *ham(void *a) {
  Ham *h = a; VlRand own; int i, wrong = 0; char m[1100]; vl_rand_init(&own); vl_rand_seed(&own, h->sd); vl_rand_seed(vl_get_rand(), h->sd);
  for (i = 0; i < h->iters; ++i) {
    int code = h->id * 1000 + i % 1000, w = 3 + (int)((i * 37u + h->id) % (i % 2 ? 290 : 20)), rc, bad; vl_uint32 v = vl_rand_uint32(&own), rv; char const *rm;
    snprintf(m, sizeof m, "thread %d says %0*d", h->id, w, i); vl_set_last_error(code, "thread %d says %0*d", h->id, w, i); rv = vl_rand_uint32(vl_get_rand());
    rc = vl_get_last_error(); rm = vl_get_last_error_message(); bad = rc != code || v != rv || strcmp(m, rm);
    if ((bad && wrong < 3 && ++wrong) || (h->k < 3 && i == h->iters / 3 * h->k)) { int k = h->n++; if (!bad) h->k++; h->s[k].code = code; h->s[k].rcode = rc; strcpy(h->s[k].msg, m); snprintf(h->s[k].rmsg, 1100, "%.1000s", rm); h->s[k].v = v; h->s[k].rv = rv; }
    if (wrong >= 3) break; }
  return 0; }
static void hammer(void) {
  static Ham h[8]; pthread_t p[8]; int g, t, k, gens = vf_thorough ? 40 : 8, iters = vf_thorough ? 60000 : 25000;
  vf_open("hammer"); vf_begin("Begin"); vf_int("n", 8); vf_bool("begin", 1); vf_end();
  for (g = 0; g < gens; ++g) { memset(h, 0, sizeof h); vf_call("threads running freely, generation %d", g);
    for (t = 0; t < 8; ++t) { h[t].id = t + 1; h[t].iters = iters; h[t].sd = vf_rnd(10000); pthread_create(p + t, 0, ham, h + t); }
    for (t = 0; t < 8; ++t) pthread_join(p[t], 0);
    for (t = 0; t < 8; ++t) for (k = 0; k < h[t].n; ++k) { vf_begin("Saw"); vf_int("t", t + 1); vf_int("code", h[t].s[k].code); vf_int("rcode", h[t].s[k].rcode); vf_str("msg", h[t].s[k].msg); vf_str("rmsg", h[t].s[k].rmsg); vf_w32("v", h[t].s[k].v); vf_w32("rv", h[t].s[k].rv); vf_end(); } }
}
int main(int argc, char **argv) {
  int t, k, f; vf_init(argc, argv); for (t = 0; t < MAXT; ++t) pthread_cond_init(&baton[t], 0);
  static char rp[MAXT][40];
  static const char *pairs[][3] = {{"eg","eg",0},{"dd","sd",0},{"em","n",0},{"tT","tT",0},{"aa","ad",0},{"e","e","g"},{"d","d","d"}};
  /* all schedules (up to a cap) of small programs */
  for (k = 0; k < 7; ++k) { char nm[20]; long lim = vf_thorough ? 6000 : 220; int sp;
    sprintf(nm, "dfs%d", k); vf_open(nm);
    for (sp = 0; sp < 2; ++sp) { long c = 0; dfs = 1; prefix = 0; 
      do { int n = pairs[k][2] ? 3 : 2; spurious = sp; for (t = 0; t < n; ++t) prog_[t] = pairs[k][t]; if (run(n)) goto out; } while (++c < lim / (sp ? 3 : 1) && nextdfs()); } }
  /* random schedules of longer programs on up to MAXT threads */
  dfs = 0;
  for (f = 0; f < (vf_thorough ? 24 : 6); ++f) { char nm[20]; sprintf(nm, "rnd%02d", f); vf_open(nm);
    vl_set_simd_enabled(1); vl_set_printf_func((printf_func_t)printf);
    for (k = 0; k < 60; ++k) { int n = vf_range(2, MAXT); const char *ops = "eeegggmmnsdddtTTSGPQaa";
      for (t = 0; t < n; ++t) { int len = vf_range(1, 12), i; for (i = 0; i < len; ++i) rp[t][i] = ops[vf_rnd(22)]; rp[t][len] = 0; prog_[t] = rp[t]; }
      spurious = vf_rnd(4); if (run(n)) goto out; } }
  hammer();
out:
  vf_close(); _exit(0);
}
