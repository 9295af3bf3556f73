/* contracts: lib/src/string.c. Strings and blocks are placed so that they END at the end of their object: one byte too many read or
   written is an obligation violated. Sizes up to N (bounded jobs); the unbounded proofs are in lib_string_u.c. */
#include "libshim/libpre.h"
#include <string.h>
#include <ctype.h>
#include <stdlib.h>
#include <errno.h>
#ifndef N
#define N 5
#endif
static char heap[N + 1]; static unsigned heap_n; static int heap_ok, heap_c; static char *heap_p;
void *malloc(size_t n) { ++heap_c; if (!heap_ok || n > N + 1) return NULL; heap_n = n; heap_p = heap + (N + 1 - n); return heap_p; } /* the block ends with the object */
#include "ctype.c"
#include "errno.c"
#include "string.c"
typedef unsigned char uc;
static int sgn(int x) { return (x > 0) - (x < 0); }
static int lo(int c) { return 'A' <= c && c <= 'Z' ? c + 32 : c; }
#define FOR(i, M) for (unsigned i = 0; i < (M); ++i)
/* an arbitrary string of arbitrary length up to M */
#define STR(v, M) static char v##_b[M + 1]; INA(char, v, M); IN(unsigned, v##n); char *v; unsigned v##n = in_##v##n; ASSUME(v##n <= (M)); \
  v = v##_b + ((M) - v##n); { unsigned i_; for (i_ = 0; i_ < (M); ++i_) if (i_ < v##n) { ASSUME(in_##v[i_] != 0); v[i_] = in_##v[i_]; } } v##_b[M] = 0
#define LSTR(v, M) static char v[M + 1]; INA(char, v, M); unsigned v##n = 0; FOR(i_, M) v[i_] = in_##v[i_]; v[M] = 0; while (v[v##n]) ++v##n
#define BLK(v, M) static char v##_b[M]; INA(char, v, M); IN(unsigned, v##n); char *v; unsigned v##n = in_##v##n; ASSUME(v##n <= (M)); \
  v = v##_b + ((M) - v##n); { unsigned i_; for (i_ = 0; i_ < (M); ++i_) if (i_ < v##n) v[i_] = in_##v[i_]; }
/* untouched bytes before block v (length v##n, capacity M): zero as initialised */
#define BEFORE(v, M) { unsigned i_; for (i_ = 0; i_ < (M); ++i_) if (i_ < (M) - v##n) CHECK("nothing written before the block", v##_b[i_] == 0); }
#define SAME(v) FOR(i_, N) if (i_ < v##n) CHECK("argument unchanged", v[i_] == in_##v[i_])

void h_strlen(void) { STR(s, N); CHECK("strlen", strlen(s) == sn); SAME(s); REACH("end"); }
void h_strnlen(void) { STR(s, N); IN(unsigned, m); CHECK("strnlen", strnlen(s, in_m) == (in_m < sn ? in_m : sn)); REACH("end"); }
void h_strchr(void) { STR(s, N); IN(int, c); char *r = strchr(s, in_c), *e = NULL; FOR(i, N + 1) if (i <= sn && !e && s[i] == (char)in_c) e = s + i; CHECK("strchr: first occurrence, the terminator included", r == e); REACH("end"); }
void h_strrchr(void) { STR(s, N); IN(int, c); char *r = strrchr(s, in_c), *e = NULL; FOR(i, N + 1) if (i <= sn && s[i] == (char)in_c) e = s + i; CHECK("strrchr: last occurrence, the terminator included", r == e); REACH("end"); }
void h_strcmp(void) { STR(s, N); STR(t, N); int e = 0, r; FOR(i, N + 1) if (!e && i <= sn && i <= tn) e = sgn((uc)s[i] - (uc)t[i]); r = strcmp(s, t); CHECK("strcmp", sgn(r) == e); r = strcoll(s, t); CHECK("strcoll in the C locale", sgn(r) == e); REACH("end"); }
void h_strncmp(void) { STR(s, N); STR(t, N); IN(unsigned, m); int e = 0, r; FOR(i, N + 1) if (!e && i < in_m && i <= sn && i <= tn) e = sgn((uc)s[i] - (uc)t[i]); r = strncmp(s, t, in_m); CHECK("strncmp", sgn(r) == e); REACH("end"); }
void h_strncmp_nt(void) /* arrays need not be terminated within the first m characters */
{ BLK(s, N); BLK(t, N); IN(unsigned, m); int e = 0, z = 0, r; ASSUME(in_m <= sn && in_m <= tn); FOR(i, N) if (!e && !z && i < in_m) { e = sgn((uc)s[i] - (uc)t[i]); z = !s[i]; } r = strncmp(s, t, in_m); CHECK("strncmp", sgn(r) == e); REACH("end"); }
void h_strcasecmp(void) { STR(s, N); STR(t, N); int e = 0, r; FOR(i, N + 1) if (!e && i <= sn && i <= tn) e = sgn(lo((uc)s[i]) - lo((uc)t[i])); r = strcasecmp(s, t); CHECK("strcasecmp", sgn(r) == e); REACH("end"); }
void h_strncasecmp(void) { STR(s, N); STR(t, N); IN(unsigned, m); int e = 0, r; FOR(i, N + 1) if (!e && i < in_m && i <= sn && i <= tn) e = sgn(lo((uc)s[i]) - lo((uc)t[i])); r = strncasecmp(s, t, in_m); CHECK("strncasecmp: as if converted to lower case", sgn(r) == e); REACH("end"); }
void h_memcmp(void) { BLK(s, N); BLK(t, N); IN(unsigned, m); int e = 0, r; ASSUME(in_m <= sn && in_m <= tn); FOR(i, N) if (!e && i < in_m) e = sgn((uc)s[i] - (uc)t[i]); r = memcmp(s, t, in_m); CHECK("memcmp", sgn(r) == e); REACH("end"); }
void h_memchr(void) { BLK(s, N); IN(int, c); char *e = NULL; FOR(i, N) if (!e && i < sn && s[i] == (char)in_c) e = s + i; CHECK("memchr", memchr(s, in_c, sn) == e); REACH("end"); }
void h_memchr_lim(void) { BLK(s, N); IN(int, c); IN(unsigned, m); char *e = NULL; FOR(i, N) if (!e && i < sn && s[i] == (char)in_c) e = s + i; ASSUME(in_m <= sn || e); CHECK("memchr stops at the first match", memchr(s, in_c, in_m) == (e && e - s < in_m ? e : NULL) || in_m > 0x7fffffff); REACH("end"); }
static int occ(const char *s, unsigned sn, const char *t, unsigned tn) { FOR(i, N + 2) if (i + tn <= sn) { int ok = 1; FOR(j, N) if (j < tn && s[i + j] != t[j]) ok = 0; if (ok) return (int)i; } return -1; }
void h_memmem(void) { BLK(s, N); BLK(t, N); int e = occ(s, sn, t, tn); char *r = memmem(s, sn, t, tn); CHECK("memmem: first occurrence", r == (e < 0 ? NULL : s + e)); REACH("end"); }
void h_strstr(void) { STR(s, N); STR(t, N); int e = occ(s, sn, t, tn); char *r = strstr(s, t); CHECK("strstr: first occurrence, the empty string included", r == (e < 0 ? NULL : s + e)); REACH("end"); }
static int mem(const char *t, unsigned tn, char c) { FOR(j, N) if (j < tn && t[j] == c) return 1; return 0; }
void h_strspn(void) { STR(s, N); STR(t, N); unsigned e = 0; FOR(i, N) if (e == i && i < sn && mem(t, tn, s[i])) ++e; CHECK("strspn", strspn(s, t) == e); REACH("end"); }
void h_strcspn(void) { STR(s, N); STR(t, N); unsigned e = 0; FOR(i, N) if (e == i && i < sn && !mem(t, tn, s[i])) ++e; CHECK("strcspn", strcspn(s, t) == e); REACH("end"); }
void h_strpbrk(void) { STR(s, N); STR(t, N); char *e = NULL; FOR(i, N) if (!e && i < sn && mem(t, tn, s[i])) e = s + i; CHECK("strpbrk", strpbrk(s, t) == e); REACH("end"); }
/* copying */
void h_strcpy(void) { STR(s, N); BLK(d, N + 3); ASSUME(dn >= sn + 1); char *r = strcpy(d, s); CHECK("returns destination", r == d); FOR(i, N + 3) if (i < dn) CHECK("string copied, the rest unchanged", d[i] == (i <= sn ? s[i] : in_d[i])); BEFORE(d, N + 3); SAME(s); REACH("end"); }
void h_strncpy(void) { STR(s, N); BLK(d, N + 3); IN(unsigned, m); ASSUME(in_m <= dn); char *r = strncpy(d, s, in_m); CHECK("returns destination", r == d); FOR(i, N + 3) if (i < dn) CHECK("copied, zero filled, the rest unchanged", d[i] == (i >= in_m ? in_d[i] : i < sn ? s[i] : 0)); BEFORE(d, N + 3); REACH("end"); }
void h_strncpy_nt(void) { BLK(s, N); BLK(d, N + 1); ASSUME(sn <= dn); FOR(i, N) if (i < sn) ASSUME(s[i] != 0); strncpy(d, s, sn); FOR(i, N + 1) if (i < dn) CHECK("unterminated source", d[i] == (i < sn ? s[i] : in_d[i])); REACH("end"); }
void h_strcat(void) { STR(s, N); BLK(d, N + 4); unsigned k = N + 4; FOR(i, N + 4) if (i < dn && k == N + 4 && d[i] == 0) k = i; ASSUME(k < dn && k + sn + 1 <= dn); char *r = strcat(d, s); CHECK("returns destination", r == d);
  FOR(i, N + 4) if (i < dn) CHECK("appended", d[i] == (i < k || i > k + sn ? in_d[i] : s[i - k])); BEFORE(d, N + 4); REACH("end"); }
void h_strncat(void) { STR(s, N); BLK(d, N + 4); IN(unsigned, m); unsigned k = N + 4, l; l = in_m < sn ? in_m : sn; FOR(i, N + 4) if (i < dn && k == N + 4 && d[i] == 0) k = i; ASSUME(k < dn && k + l + 1 <= dn); char *r = strncat(d, s, in_m); CHECK("returns destination", r == d);
  FOR(i, N + 4) if (i < dn) CHECK("appended and terminated", d[i] == (i < k || i > k + l ? in_d[i] : i == k + l ? 0 : s[i - k])); BEFORE(d, N + 4); REACH("end"); }
void h_memccpy(void) { BLK(s, N); BLK(d, N); IN(int, c); IN(unsigned, m); ASSUME(in_m <= dn); unsigned k = N; FOR(i, N) if (k == N && i < sn && i < in_m && s[i] == (char)in_c) k = i; ASSUME(k < N || in_m <= sn); char *r = memccpy(d, s, in_c, in_m);
  CHECK("memccpy result", r == (k < N ? d + k + 1 : NULL)); FOR(i, N) if (i < dn) CHECK("copied up to and including the character", d[i] == ((k < N ? i <= k : i < in_m) ? s[i] : in_d[i])); REACH("end"); }
void h_memcpy(void) { BLK(s, N); BLK(d, N); ASSUME(sn <= dn); void *r = memcpy(d, s, sn); CHECK("returns destination", r == d); FOR(i, N) if (i < dn) CHECK("copied", d[i] == (i < sn ? s[i] : in_d[i])); REACH("end"); }
void h_memmove(void) { BLK(d, N); IN(unsigned, a); IN(unsigned, b); IN(unsigned, m); ASSUME(in_a <= dn && in_b <= dn && in_m <= dn - in_a && in_m <= dn - in_b); void *r = memmove(d + in_a, d + in_b, in_m); CHECK("returns destination", r == d + in_a);
  FOR(i, N) if (i < dn) CHECK("moved as if through a copy", d[i] == (i >= in_a && i - in_a < in_m ? in_d[i - in_a + in_b] : in_d[i])); REACH("end"); }
void h_memset(void) { BLK(d, N); IN(int, c); IN(unsigned, m); ASSUME(in_m <= dn); void *r = memset(d, in_c, in_m); CHECK("returns destination", r == d); FOR(i, N) if (i < dn) CHECK("filled", d[i] == (i < in_m ? (char)in_c : in_d[i])); BEFORE(d, N); REACH("end"); }
void h_bzero(void) { BLK(d, N); IN(unsigned, m); ASSUME(in_m <= dn); bzero(d, in_m); FOR(i, N) if (i < dn) CHECK("zeroed", d[i] == (i < in_m ? 0 : in_d[i])); REACH("end"); }
void h_memswap(void) { BLK(s, N); BLK(d, N); IN(unsigned, m); ASSUME(in_m <= sn && in_m <= dn); memswap(s, d, in_m); FOR(i, N) { if (i < dn) CHECK("swapped", d[i] == (i < in_m ? in_s[i] : in_d[i])); if (i < sn) CHECK("swapped", s[i] == (i < in_m ? in_d[i] : in_s[i])); } REACH("end"); }
void h_strdup(void) { STR(s, N); IN(int, ok); heap_ok = in_ok != 0; char *r = strdup(s); CHECK("strdup reports lack of memory", (r == NULL) == !heap_ok); if (r) { CHECK("block", r == heap_p && heap_n == sn + 1); FOR(i, N + 1) if (i <= sn) CHECK("copy", r[i] == s[i]); } REACH("end"); }
void h_strndup(void) { STR(s, N); IN(int, ok); IN(unsigned, m); unsigned l = in_m < sn ? in_m : sn; heap_ok = in_ok != 0; char *r = strndup(s, in_m); CHECK("strndup reports lack of memory", (r == NULL) == !heap_ok); if (r) { CHECK("block", r == heap_p && heap_n > l); FOR(i, N + 1) if (i <= l) CHECK("copy of the first characters, terminated", r[i] == (i == l ? 0 : s[i])); } REACH("end"); }
void h_strxfrm(void) { STR(s, N); BLK(d, N + 1); unsigned r = strxfrm(d, s, dn); CHECK("strxfrm returns the length", r == sn); if (sn < dn) FOR(i, N + 1) if (i <= sn) CHECK("transformed", d[i] == s[i]); REACH("end"); }
/* tokens: calls until NULL yield exactly the maximal delimiter-free pieces, in order, each terminated in place */
static void tok(int re)
{
  LSTR(s, 4); LSTR(t, 2); char *h = NULL, *p = s; unsigned i = 0, k; 
  for (k = 0; k < 4; ++k) {
    char *r = re ? strtok_r(p, t, &h) : strtok(p, t); p = NULL;
    while (i < sn && mem(t, tn, in_s[i])) ++i;
    if (i >= sn) { CHECK("no more tokens", r == NULL); }
    else { CHECK("token starts at the next non-delimiter", r == s + i); while (i < sn && !mem(t, tn, in_s[i])) { CHECK("token text", s[i] == in_s[i]); ++i; } CHECK("token is terminated", s[i] == 0); ++i; }
  }
  REACH("end");
}
void h_strtok(void) { tok(0); }
void h_strtok_r(void) { tok(1); }
void h_strerror(void) { IN(int, e); const char *r = strerror(in_e); CHECK("strerror always yields a message", r != NULL && r[0] != 0); if (in_e < 0 || in_e > ERRNO_MAXERR) CHECK("unknown error", r[0] == '?'); REACH("end"); }
