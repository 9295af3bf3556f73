/* contracts with loop invariants: lib/src/string.c for strings and blocks of ANY length (objects of symbolic size).
   "For every index" is stated for one arbitrary ghost index gk fixed beforehand. vf_end is a ghost that the
   instrumented copy sets to the scanning pointer where the function returns. */
#include "libshim/libpre.h"
#define VF_OWN_MEMOPS
static unsigned gk, gn, gL, gL2; static const char *gs; static const char *gt; static char *gd; static char old, old2; static const char *vf_end; static int term;
static void vf_memfill(void *d, unsigned v, unsigned n), vf_memcopy(void *d, const void *s, unsigned n);
#include <string.h>
#include <ctype.h>
#include <stdlib.h>
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#ifdef VF_SLICE
#define HAVOC(d, n) __CPROVER_havoc_slice(d, n)
#else
#define HAVOC(d, n) __CPROVER_havoc_object(d)
#endif
/* wasm memory.fill / memory.copy by their specification, observed at gd[gk] */
static void vf_memfill(void *d, unsigned v, unsigned n)
{ char o = gd[gk]; unsigned b = OFF(d); __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "CHECK fill stays inside the object"); 
  if (n) { HAVOC(d, n); __CPROVER_assume(!__CPROVER_same_object(d, gd) || gd[gk] == (gk >= b && gk - b < n ? (char)v : o)); } }
static void vf_memcopy(void *d, const void *s, unsigned n)
{ char o = gd[gk]; unsigned b = OFF(d); __CPROVER_assert(n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)), "CHECK copy stays inside the objects");
  if (n) { char x = gk >= b && gk - b < n ? ((const char *)s)[gk - b] : o; HAVOC(d, n); __CPROVER_assume(!__CPROVER_same_object(d, gd) || gd[gk] == x); } }
static int hm_ok; static char *hm_p; static unsigned hm_n;
#undef malloc
void *malloc(__CPROVER_size_t n);
static void *vf_alloc(unsigned n) { hm_n = n; if (!hm_ok) return NULL; hm_p = (malloc)(n); __CPROVER_assume(hm_p != NULL); gd = hm_p; __CPROVER_assume(gk < n); return hm_p; }
#define malloc vf_alloc
#define lo(c) ('A' <= (c) && (c) <= 'Z' ? (c) + 32 : (c))
#include "ctype.c"
#include "string.c"
#undef malloc
static int sg(int x) { return (x > 0) - (x < 0); }
static char *obj(unsigned n) { char *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
#define SIZE(n) IN(unsigned, n); ASSUME(in_##n > 0 && in_##n < 0x7ffffff0u)
#define GK(n) { IN(unsigned, gk); ASSUME(in_gk < (n)); gk = in_gk; }
#define uc unsigned char
/* a string object with some terminator at gL */
#define STRING(v, L, n) SIZE(n); char *v = obj(in_##n); { IN(unsigned, L); ASSUME(in_##L < in_##n); L = in_##L; ASSUME(v[L] == 0); }
void h_strlen(void) { STRING(s, gL, n); GK(in_n); unsigned r = strlen(s); CHECK("ends at a terminator", r <= gL && s[r] == 0); CHECK("the first one", !(gk < r) || s[gk] != 0); REACH("end"); }
void h_strnlen(void) { SIZE(n); char *s = obj(in_n); IN(unsigned, m); GK(in_n); IN(unsigned, L); gn = in_m; term = in_m > in_n; ASSUME(in_L < in_n); gL = in_L; if (term) ASSUME(s[gL] == 0);
  unsigned r = strnlen(s, in_m); CHECK("within the limit, ends at a terminator", r <= in_m && (r == in_m || s[r] == 0)); CHECK("the first one", !(gk < r) || s[gk] != 0); REACH("end"); }
void h_strchr(void) { STRING(s, gL, n); GK(in_n); IN(int, c); gs = s; char *r = strchr(s, in_c); unsigned e = OFF(vf_end);
  CHECK("scan ends at the terminator or at the character", e <= gL && (r != NULL ? r == s + e && *r == (char)in_c : s[e] == 0 && (char)in_c != 0)); CHECK("no earlier occurrence and no earlier terminator", !(gk < e) || (s[gk] != 0 && s[gk] != (char)in_c)); REACH("end"); }
void h_strrchr(void) { STRING(s, gL, n); GK(in_n); IN(int, c); gs = s; char *r = strrchr(s, in_c); unsigned e = OFF(vf_end);
  CHECK("scan ends at the first terminator", e <= gL && s[e] == 0 && (!(gk < e) || s[gk] != 0)); CHECK("result is an occurrence", r == NULL || (__CPROVER_same_object(r, s) && OFF(r) <= e && *r == (char)in_c)); CHECK("no later occurrence", !(gk <= e && s[gk] == (char)in_c) || (r != NULL && OFF(r) >= gk)); REACH("end"); }
#define CMPU(x, y, X) (sg(x) == sg(X((uc)(y)[0]) - X((uc)(y)[1])))
static void cmp2(int r, const char *s, const char *t, unsigned e, int cas) { int a = (uc)s[e], b = (uc)t[e]; if (cas) a = lo(a), b = lo(b); CHECK("result is the sign of the difference at the end of the scan", sg(r) == sg(a - b)); }
#define EQ(cas) (cas ? lo((uc)s[gk]) == lo((uc)t[gk]) : s[gk] == t[gk])
#define H_CMP(f, cas) void h_##f(void) { STRING(s, gL, n); STRING(t, gL2, m); GK(in_n); ASSUME(gk < in_m); int r = f(s, t); unsigned e = OFF(vf_end) - 1; \
  CHECK("scan ends at the terminators", e <= gL && e <= gL2); cmp2(r, s, t, e, cas); CHECK("it ends at a difference or the terminator", r != 0 || s[e] == 0); CHECK("equal before", !(gk < e) || (EQ(cas) && s[gk] != 0)); REACH("end"); }
H_CMP(strcmp, 0) H_CMP(strcasecmp, 1)
/* with a limit; term: the limit exceeds an object, which then is terminated */
#define H_NCMP(f, cas, nul) void h_##f(void) { SIZE(n); SIZE(m); char *s = obj(in_n), *t = obj(in_m); IN(unsigned, l); gn = in_l; term = in_l > in_n || in_l > in_m; IN(unsigned, L1); IN(unsigned, L2); gL = in_L1; gL2 = in_L2; ASSUME(gL < in_n && gL2 < in_m); \
  if (nul && term) ASSUME(s[gL] == 0 && t[gL2] == 0); if (!(nul)) ASSUME(!term); GK(in_n); ASSUME(gk < in_m); int r = f(s, t, in_l); unsigned e = OFF(vf_end); CHECK("within the limit", e <= in_l); \
  if (e > 0) { if (r != 0) cmp2(r, s, t, e - 1, cas); } else CHECK("nothing compared", r == 0); CHECK("it ends at a difference, the terminator or the limit", r != 0 || e == in_l || (nul && s[e-1] == 0)); CHECK("equal before, and through the end if the result is 0", !(e > 0 && gk < e - (r != 0)) || EQ(cas)); CHECK("no earlier terminator", !(nul) || !(e > 0 && gk < e - 1) || s[gk] != 0); REACH("end"); }
H_NCMP(strncmp, 0, 1) H_NCMP(strncasecmp, 1, 1) H_NCMP(memcmp, 0, 0)
void h_strcpy(void) { STRING(s, gL, n); SIZE(m); char *d = obj(in_m); ASSUME(gL < in_m); GK(in_m); gd = d; gs = s; old = d[gk]; int in = gk < in_n; char *r = strcpy(d, s); unsigned e = OFF(vf_end) - 1;
  CHECK("returns the destination", r == d); CHECK("ends at a terminator", e <= gL && s[e] == 0); CHECK("copied through the terminator, the rest unchanged", d[gk] == (gk <= e ? s[gk] : old)); CHECK("no earlier terminator", !(gk < e) || s[gk] != 0); REACH("end"); }
void h_strncpy(void) { SIZE(n); SIZE(m); char *s = obj(in_n), *d = obj(in_m); IN(unsigned, l); ASSUME(in_l <= in_m); IN(unsigned, L); gL = in_L; ASSUME(gL < in_n); gn = in_l; term = in_l > in_n; if (term) ASSUME(s[gL] == 0); GK(in_m); gd = d; gs = s; old = d[gk];
  char *r = strncpy(d, s, in_l); unsigned e = OFF(vf_end); CHECK("returns the destination", r == d); CHECK("stops at the limit or after a terminator", e <= in_l && (e == in_l || (e > 0 && s[e-1] == 0)));
  CHECK("copied, zero filled to the limit, the rest unchanged", d[gk] == (gk >= in_l ? old : gk >= e ? 0 : s[gk])); CHECK("no earlier terminator", !(e > 0 && gk < e - 1) || s[gk] != 0); REACH("end"); }
void h_memchr(void) { SIZE(n); char *s = obj(in_n); IN(unsigned, l); ASSUME(in_l <= in_n); IN(int, c); GK(in_n); gn = in_l; char *r = memchr(s, in_c, in_l);
  if (r) { CHECK("found inside the block", __CPROVER_same_object(r, s) && OFF(r) < in_l && *r == (char)in_c); CHECK("first occurrence", !(gk < OFF(r)) || s[gk] != (char)in_c); } else CHECK("no occurrence", !(gk < in_l) || s[gk] != (char)in_c); REACH("end"); }
void h_memccpy(void) { SIZE(n); SIZE(m); char *s = obj(in_n), *d = obj(in_m); IN(unsigned, l); ASSUME(in_l <= in_n && in_l <= in_m); IN(int, c); GK(in_m); ASSUME(gk < in_n); gn = in_l; gd = d; gs = s; old = d[gk]; char *r = memccpy(d, s, in_c, in_l);
  if (r) { unsigned e = OFF(r) - 1; CHECK("result points after the copied character", __CPROVER_same_object(r, d) && e < in_l && s[e] == (char)in_c); CHECK("copied up to it, the rest unchanged", d[gk] == (gk <= e ? s[gk] : old) && (!(gk < e) || s[gk] != (char)in_c)); }
  else CHECK("all copied, character absent", d[gk] == (gk < in_l ? s[gk] : old) && (!(gk < in_l) || s[gk] != (char)in_c)); REACH("end"); }
void h_memcpy(void) { SIZE(n); SIZE(m); char *s = obj(in_n), *d = obj(in_m); IN(unsigned, l); ASSUME(in_l <= in_n && in_l <= in_m); GK(in_m); ASSUME(gk < in_n); gd = d; old = d[gk]; void *r = memcpy(d, s, in_l); CHECK("memcpy", r == d && d[gk] == (gk < in_l ? s[gk] : old)); REACH("end"); }
void h_memmove(void) { SIZE(n); char *d = obj(in_n); IN(unsigned, a); IN(unsigned, b); IN(unsigned, l); ASSUME(in_a <= in_n && in_b <= in_n && in_l <= in_n - in_a && in_l <= in_n - in_b); GK(in_n); gd = d; old = d[gk]; if (gk >= in_a && gk - in_a < in_l) old = d[gk - in_a + in_b];
  void *r = memmove(d + in_a, d + in_b, in_l); CHECK("memmove, overlapping or not", r == d + in_a && d[gk] == old); REACH("end"); }
void h_memset(void) { SIZE(n); char *d = obj(in_n); IN(unsigned, l); IN(int, c); ASSUME(in_l <= in_n); GK(in_n); gd = d; old = d[gk]; void *r = memset(d, in_c, in_l); CHECK("memset", r == d && d[gk] == (gk < in_l ? (char)in_c : old)); REACH("end"); }
void h_bzero(void) { SIZE(n); char *d = obj(in_n); IN(unsigned, l); ASSUME(in_l <= in_n); GK(in_n); gd = d; old = d[gk]; bzero(d, in_l); CHECK("bzero", d[gk] == (gk < in_l ? 0 : old)); REACH("end"); }
