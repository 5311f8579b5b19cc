#include "vf.h"
#include <vl/generic.h>
#include <vl/random.h>
#define NG 4
static VlRand G[NG];
typedef struct { int id; } El;
#define VL_SHUFFLE_prefix shi
#define VL_SHUFFLE_type int
#include <vl/shuffle-def.h>

static void words64(const char *k, uint64_t v) { vf_w64(k, v); }
static void key_(const char *k, vl_uint32 const *key, int n) { int i; vf_key(k); vf_put("[", 1); for (i = 0; i < n; ++i) vf_printf(i ? ",[%u,%u]" : "[%u,%u]", key[i] >> 16, key[i] & 0xffff); vf_put("]", 1); }
static void E(const char *e, int g) { vf_begin(e); vf_int("g", g + 1); }
static uint64_t bits32(double x) { if (!(x >= 0 && x <= 4294967295.0) || x != floor(x)) return 0x1234567ULL << 32; return (uint64_t)x; }
static void w32x(const char *k, uint64_t v) { if (v >> 32) { vf_key(k); vf_put("[-1,-1]", 7); } else vf_w32(k, (uint32_t)v); }

static void draw(int g, int what) {
  VlRand *r = &G[g]; vf_call("draw %d", what);
  switch (what) {
    case 0: { vl_uint32 v = vl_rand_uint32(r); E("U32", g); vf_w32("v", v); break; }
    case 1: { vl_int32 v = vl_rand_int31(r); E("I31", g); vf_w32("v", (uint32_t)v); break; }
    case 2: { double x = vl_rand_real1(r); E("Real1", g); w32x("v", bits32(floor(x * 4294967295.0 + 0.5))); vf_bool("inrange", x >= 0 && x <= 1); break; }
    case 3: { double x = vl_rand_real2(r); E("Real2", g); w32x("v", bits32(x * 4294967296.0)); vf_bool("inrange", x >= 0 && x < 1); break; }
    case 4: { double x = vl_rand_real3(r); E("Real3", g); w32x("v", bits32(x * 4294967296.0 - 0.5)); vf_bool("inrange", x > 0 && x < 1); break; }
    case 5: { vl_uint64 v = vl_rand_uint64(r); E("U64", g); words64("v", v); break; }
    case 6: { vl_int64 v = vl_rand_int63(r); E("I63", g); words64("v", (uint64_t)v); break; }
    case 7: { double x = vl_rand_res53(r); double y = x * 9007199254740992.0; E("Res53", g);
              if (y >= 0 && y < 9007199254740992.0 && y == floor(y)) words64("v", (uint64_t)y); else words64("v", ~0ULL); vf_bool("inrange", x >= 0 && x < 1); break; }
    case 8: case 9: { long m = vf_rnd(3) ? vf_range(1, 40) : vf_range(1, 32767); vl_uindex v = vl_rand_uindex(r, m); E("Idx", g); vf_int("m", m); vf_int("r", (long long)v); break; }
    case 10: { /* wide ranges; the quotient is only a witness for the specification's arithmetic */
              static const uint64_t ms[] = {0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x80000000ULL, 0x12345678ULL, 0x123456789abULL, 0xffffffffffffffffULL, 0x8000000000000000ULL, 1000003ULL, 0xfffffffeULL};
              uint64_t m = ms[vf_rnd(10)], full, v; VlRand twin = *r;
              if (vf_rnd(3) == 0) m = vf_rnd64() >> vf_rnd(40); if (m < 32768) m += 32768;
              full = m <= 0xffffffffULL ? vl_rand_uint32(&twin) : vl_rand_uint64(&twin);
              v = vl_rand_uindex(r, m); E("IdxWide", g); words64("m", m); words64("r", v); words64("q", full / m); break; }
    case 11: { vl_index a[60], b[60]; int n = vf_range(0, 2) ? vf_range(1, 12) : vf_range(1, 60), i; for (i = 0; i < n; ++i) a[i] = b[i] = vf_rnd(2) ? i : vf_range(0, 9);
              vl_rand_permute_indexes(r, b, n); E("Permute", g); VF_SEQ("in", n, a[i_]); VF_SEQ("out", n, b[i_]); break; }
    case 12: { int a[60], b[60]; int n = vf_range(0, 40), i; for (i = 0; i < n; ++i) a[i] = b[i] = i * 3;
              shi_shuffle(b, n, r); E("Shuffle", g); VF_SEQ("in", n, a[i_]); VF_SEQ("out", n, b[i_]); break; }
  }
  vf_end();
}
static void reseed(int g, int how) {
  vf_call("seed %d", how);
  if (how == 0) { vl_rand_init(&G[g]); E("Init", g); }
  else if (how == 1) { static const vl_uint32 s[] = {0, 1, 5489, 0xffffffffu, 0x80000000u, 19650218u, 42}; vl_uint32 v = vf_rnd(2) ? s[vf_rnd(7)] : (vl_uint32)vf_rnd64(); vl_rand_seed(&G[g], v); E("Seed", g); vf_w32("s", v); }
  else { vl_uint32 k[1400]; int n = vf_rnd(3) ? vf_range(1, 6) : vf_rnd(2) ? vf_range(620, 630) : vf_range(1, 1300), i;
    for (i = 0; i < n; ++i) k[i] = vf_rnd(4) ? (vl_uint32)vf_rnd64() : 0xffffffffu; vl_rand_seed_by_array(&G[g], k, n); E("SeedArray", g); key_("key", k, n); }
  vf_end();
}
int main(int argc, char **argv) {
  int f, t, g; vf_init(argc, argv);
  for (f = 0; f < (vf_thorough ? 24 : 8); ++f) {
    char nm[20]; sprintf(nm, "r%02d", f); vf_open(nm);
    if (f == 0) { /* long single streams, across several blocks */
      for (g = 0; g < 2; ++g) { reseed(g, g); for (t = 0; t < 1300; ++t) draw(g, 0); }
    } else {
      for (g = 0; g < NG; ++g) reseed(g, (g + f) % 3);
      for (t = 0; t < (vf_thorough ? 900 : 420); ++t) { g = vf_rnd(NG); if (vf_rnd(60) == 0) reseed(g, vf_rnd(3)); draw(g, vf_rnd(13)); }
    }
  }
  return 0;
}
