#include "vf.h"
#include <vl/generic.h>
#include <vl/stringop.h>
static unsigned char raw[4096]; static char *buf; static size_t bn; static int isnull;
static void mk(size_t n) { memset(raw, 0xAA, sizeof raw); buf = (char*)raw + 64; bn = n; isnull = n == 0 && vf_rnd(2); if (isnull) buf = 0; }
static int guard(void) { size_t i; unsigned char *b = raw + 64; for (i = 0; i < 64; ++i) if (raw[i] != 0xAA) return 0; for (i = bn; i < bn + 256; ++i) if (b[i] != 0xAA) return 0; return 1; }
static void fin(vl_size r) { vf_int("n", bn); vf_int("ret", (long long)r); vf_key("buf"); { size_t i; vf_put("[", 1); for (i = 0; i < bn; ++i) vf_printf(i ? ",%d" : "%d", raw[64 + i]); vf_put("]", 1); } vf_bool("guard", guard()); vf_end(); }
#define C(k, s) vf_codes(k, s, strlen(s))
static void copy(const char *s, size_t n) { vl_size r; mk(n); vf_call("vl_string_copy n=%lu", n); r = vl_string_copy(buf, n, s); vf_begin("Copy"); C("src", s); fin(r); }
static void sub(const char *s, size_t b, size_t t, size_t n) { vl_size r; mk(n); vf_call("vl_string_copy_sub"); r = vl_string_copy_sub(buf, n, s + b, s + t); vf_begin("Sub"); C("src", s); vf_int("b", b); vf_int("t", t); fin(r); }
static void base(const char *s, size_t m, size_t n) { vl_size r; mk(n); vf_call("vl_string_basename %s", s); r = vl_string_basename(buf, n, s, m); vf_begin("Base"); C("src", s); vf_int("m", m); fin(r); }
static void wild(const char *s, int w, int x, const char *rp, size_t n) { vl_size r; mk(n); vf_call("vl_string_replace_wildcard %s", s); r = vl_string_replace_wildcard(buf, n, s, w, x, rp); vf_begin("Wild"); C("src", s); vf_int("w", w); vf_int("x", x); C("repl", rp); fin(r); }
static void proto(const char *s) { int code = 77; char *r, *r0; vf_call("vl_string_parse_protocol %s", s); r = vl_string_parse_protocol(s, &code); r0 = vl_string_parse_protocol(s, 0); vf_begin("Proto"); C("src", s); C("rest", r); C("rest0", r0); vf_int("code", code); vf_end(); }
static void cmp(const char *s, const char *t) { int r; vf_call("vl_string_casei_cmp"); r = vl_string_casei_cmp(s, t); vf_begin("Cmp"); C("s", s); C("t", t); vf_int("sign", r < 0 ? -1 : r > 0); vf_end(); }
static void rev(const char *s, int b, int t, int c) { char *p; vf_call("vl_string_find_char_rev"); p = vl_string_find_char_rev(s + b, s + t, c); vf_begin("Rev"); C("src", s); vf_int("b", b); vf_int("t", t); vf_int("c", c); vf_int("at", p ? p - s : -1); vf_end(); }
static char *rs(char *o, const char *al, int lo, int hi) { int n = vf_range(lo, hi), i, k = strlen(al); for (i = 0; i < n; ++i) o[i] = al[vf_rnd(k)]; o[n] = 0; return o; }
static void all(const char *al, int n, void (*f)(const char *)) { int k = strlen(al), i; long c, tot = 1; char s[16]; for (i = 0; i < n; ++i) tot *= k; for (c = 0; c < tot; ++c) { long x = c; for (i = 0; i < n; ++i) { s[i] = al[x % k]; x /= k; } s[n] = 0; f(s); } }
static void f_copy(const char *s) { size_t n, L = strlen(s); for (n = 0; n <= L + 2; ++n) { copy(s, n); sub(s, vf_rnd(L + 1), L, n); } }
static void f_base(const char *s) { size_t m; for (m = 0; m < 4; ++m) { base(s, m, 64); base(s, m, vf_rnd(strlen(s) + 2)); } }
static void f_wild(const char *s) { static const char *rp[] = {"", "x", "*\\", "long*one"}; int i; size_t L; for (i = 0; i < 4; ++i) { wild(s, '*', '\\', rp[i], 64); wild(s, '*', 0, rp[i], vf_rnd(12)); L = strlen(s); wild(s, '*', '\\', rp[i], vf_rnd(L + 3)); } }
static void f_rev(const char *s) { int b, t, L = strlen(s); for (b = 0; b <= L; ++b) for (t = b; t <= L; ++t) rev(s, b, t, 'a'); }
int main(int argc, char **argv) {
  char s[300], t[300], u[300]; int i, j, k; vf_init(argc, argv); vf_open("str");
  for (k = 0; k <= 3; ++k) all("ab/", k, f_copy);
  for (k = 0; k <= (vf_thorough ? 6 : 5); ++k) all("a./", k, f_base);
  for (k = 0; k <= 3; ++k) all("a.\\/", k, f_base);
  for (k = 0; k <= (vf_thorough ? 6 : 4); ++k) all("a*\\", k, f_wild);
  for (k = 0; k <= (vf_thorough ? 7 : 6); ++k) all("a:/", k, proto);
  for (k = 0; k <= 4; ++k) all("abc", k, f_rev);
  { static const char *pre[] = {"ascii", "bin", "asci", "ascii2", "bi", "b", "a", "", "Ascii", "BIN", "none", "in", "xbin", "bin ", "asciibin", "ascii:", "bin:/", "ascii/", "binx", "axcii"};
    static const char *sp[] = {"://", ":/", "//", ":///", "", "://://", ":/://"}; static const char *rest[] = {"", "x", "/tmp/%.sift", "bin://y", "://"};
    for (i = 0; i < 20; ++i) for (j = 0; j < 7; ++j) for (k = 0; k < 5; ++k) { sprintf(s, "%s%s%s", pre[i], sp[j], rest[k]); proto(s); } }
  for (i = -3; i < 6; ++i) { const char *p; vf_call("vl_string_protocol_name %d", i); p = vl_string_protocol_name(i); vf_begin("PName"); vf_int("code", i); if (p) C("name", p); else vf_int("name", -9); vf_end(); }
  for (i = 1; i < 256; ++i) for (j = 0; j < 3; ++j) { int o[] = {i, i ^ 32, i + 32}; s[0] = 'q'; s[1] = i; s[2] = 0; t[0] = 'Q'; t[1] = o[j]; t[2] = 0; cmp(s, t); cmp(t, s); }
  for (i = 0; i < (vf_thorough ? 20000 : 3000); ++i) {
    cmp(rs(s, "aAbBZz[@`{", 0, 4), rs(t, "aAbBZz[@`{", 0, 4));
    j = vf_rnd(5); if (j == 0) strcpy(t, s); cmp(s, t);
    base(rs(s, "ab../\\", 0, 24), vf_rnd(6), vf_rnd(30)); copy(rs(s, "abc\x80\xff .", 0, 60), vf_rnd(64)); sub(s, vf_rnd(strlen(s) + 1), strlen(s) + (vf_rnd(2) ? 0 : 3), vf_rnd(64));
    wild(rs(s, "ab%\\%", 0, 20), '%', vf_rnd(2) ? '\\' : vf_rnd(2) ? 0 : 'b', rs(u, "%xy\\", 0, 5), vf_rnd(40));
    wild(rs(s, "ab%\\%", 0, 20), '%', '%', rs(u, "%xy\\", 0, 5), vf_rnd(40));
    { vl_size L; rs(s, "ab\x80", 0, 200); vf_call("vl_string_length"); L = vl_string_length(s); vf_begin("Length"); C("src", s); vf_int("len", L); vf_end(); }
    { VlEnumerator e[8], *r; char nm[8][8]; int n = vf_range(0, 6), a, b, c, m; vl_index val = vf_range(-2, 3);
      for (m = 0; m < n; ++m) { e[m].name = rs(nm[m], "aAb", 0, 2); e[m].value = vf_range(-2, 3); } e[n].name = 0; e[n].value = val; rs(s, "aAbB", 0, 2);
      vf_call("vl_enumeration_get"); r = vl_enumeration_get(e, s); a = r ? r - e : -1; r = vl_enumeration_get_casei(e, s); b = r ? r - e : -1; r = vl_enumeration_get_by_value(e, val); c = r ? r - e : -1;
      vf_begin("Enum"); vf_key("names"); vf_put("[", 1); for (m = 0; m < n; ++m) { size_t q; if (m) vf_put(",", 1); vf_put("[", 1); for (q = 0; nm[m][q]; ++q) vf_printf(q ? ",%d" : "%d", nm[m][q]); vf_put("]", 1); } vf_put("]", 1);
      VF_SEQ("vals", n, e[i_].value); C("key", s); vf_int("val", val); vf_int("get", a); vf_int("geti", b); vf_int("getv", c); vf_end(); }
  }
  return 0;
}
