/* contracts: number parsing of lib/src/stdlib.c (strtol family, atoi family) against ISO C 7.22.1. */
#include "libshim/libpre.h"
#include <stdarg.h>
#include <errno.h>
#include <ctype.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
int errno;
#include "ctype.c"
#include "stdlib.c"
typedef unsigned long long ull;
#ifndef N
#define N 6
#endif
#ifndef BASE
#define BASE in_base
#endif
static int sp_space(int c) { return c == ' ' || (9 <= c && c <= 13); }
static int sp_dig(int c) { return '0' <= c && c <= '9' ? c - '0' : 'a' <= c && c <= 'z' ? c - 'a' + 10 : 'A' <= c && c <= 'Z' ? c - 'A' + 10 : 99; }
static char s[N + 1];
static struct { int neg, over; unsigned end; ull v; } sp;
/* ISO C 7.22.1.4: longest initial subject sequence, value clamped to the type (lo: magnitude of the least value, 0 for unsigned types) */
static void spec(int base, ull lo, ull hi, unsigned limit)
{
  unsigned i = 0, b, k; ull v = 0, lim;
  for (k = 0; k < N; ++k) if (i < limit && sp_space((unsigned char)s[i])) ++i;
  sp.neg = 0; sp.over = 0;
  if (i < limit && (s[i] == '-' || s[i] == '+')) { sp.neg = s[i] == '-'; ++i; }
  if ((base == 0 || base == 16) && i + 2 < limit && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && sp_dig((unsigned char)s[i + 2]) < 16) { i += 2; base = 16; }
  else if (base == 0) base = i < limit && s[i] == '0' ? 8 : 10;
  b = i; lim = sp.neg && lo ? lo : hi;
  for (k = 0; k < N; ++k) if (i < limit && sp_dig((unsigned char)s[i]) < base) { int d = sp_dig((unsigned char)s[i]); if (v > lim / base || (v == lim / base && d > (int)(lim % base))) sp.over = 1; else v = v * base + d; ++i; }
  sp.end = i == b ? 0 : i; sp.v = sp.over ? lim : sp.neg ? 0 - v : v;
  if (sp.over && sp.neg && lo) sp.v = 0 - lo;
}
#define INSTR INA(char, s, N); for (int i = 0; i < N; ++i) s[i] = in_s[i]; s[N] = 0
#define H_STRTO(f, T, lo, hi) void h_##f(void) { INSTR; IN(int, base); ASSUME(BASE == 0 || (2 <= BASE && BASE <= 36)); IN(int, we); char *e = &s[N]; errno = -7; T r = f(s, in_we ? &e : NULL, BASE); spec(BASE, lo, hi, N + 1); \
  if (in_we) CHECK("end of the subject sequence; the start if there is none", e == s + sp.end); CHECK("value, clamped to the type", r == (T)sp.v); CHECK("errno is ERANGE exactly when out of range", errno == (sp.over ? ERANGE : -7)); REACH("end"); }
H_STRTO(strtol, long, 0x80000000ull, 0x7fffffffull)
H_STRTO(strtoul, unsigned long, 0, 0xffffffffull)
H_STRTO(strtoll, long long, 0x8000000000000000ull, 0x7fffffffffffffffull)
H_STRTO(strtoull, unsigned long long, 0, 0xffffffffffffffffull)
/* ato*: same subject sequence, base 10, values in range */
#define H_ATO(f, T, lo, hi) void h_##f(void) { INSTR; spec(10, lo, hi, N + 1); ASSUME(!sp.over); CHECK("value", f(s) == (T)sp.v); REACH("end"); }
H_ATO(atoi, int, 0x80000000ull, 0x7fffffffull)
H_ATO(atol, long, 0x80000000ull, 0x7fffffffull)
H_ATO(atoll, long long, 0x8000000000000000ull, 0x7fffffffffffffffull)
