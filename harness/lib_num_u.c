/* contracts with loop invariants: number parsing of lib/src/stdlib.c for strings of ANY length, against ISO C 7.22.1.
   The value of the digits is a ghost fold computed in lockstep by ghost code: gv = 0 at the first digit, gv = gv * base + digit of
   position gi at each iteration, gi + 1 next; go = "the mathematical value is beyond the limit of the type". */
#include "libshim/libpre.h"
#include <stdarg.h>
#include <errno.h>
#include <ctype.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
typedef unsigned long long ull;
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#define SAME(p) __CPROVER_same_object(p, gs)
static const char *gs, *vf_end; static unsigned gk, gL, gw; static int ghooks;
static struct { int neg, base; unsigned b, b0; ull lim, lo, hi; int base0; } sp;
static ull gv; static int go; static unsigned gi;
#define sp_space(c) ((c) == ' ' || (9 <= (c) && (c) <= 13))
#define sp_dig(c) ('0' <= (c) && (c) <= '9' ? (c) - '0' : 'a' <= (c) && (c) <= 'z' ? (c) - 'a' + 10 : 'A' <= (c) && (c) <= 'Z' ? (c) - 'A' + 10 : 99)
/* called where the white space ends: the prefix of the subject sequence */
static void vf_prefix(const char *p)
{
  unsigned i = OFF(p); gw = i; ghooks |= 1;
  CHECK("white space is skipped up to the first other character", SAME(p) && i <= gL && !sp_space(gs[i]) && (!(gk < i) || sp_space(gs[gk])));
  sp.neg = 0; if (gs[i] == '-' || gs[i] == '+') { sp.neg = gs[i] == '-'; ++i; }
  sp.base = sp.base0;
  if ((sp.base == 0 || sp.base == 16) && gs[i] == '0' && (gs[i + 1] == 'x' || gs[i + 1] == 'X') && sp_dig(gs[i + 2]) < 16) { i += 2; sp.base = 16; }
  else if (sp.base == 0) sp.base = gs[i] == '0' ? 8 : 10;
  sp.b = i; sp.lim = sp.neg && sp.lo ? sp.lo : sp.hi; gv = 0; go = 0; gi = i;
}
static void vf_step(int base, ull lim) { int d = sp_dig(gs[gi]); if (go || gv > lim / base || (gv == lim / base && d > (int)(lim % base))) go = 1; else gv = gv * base + d; ++gi; }
#define STEP vf_step(sp.base, sp.lim);
int errno;
#include "ctype.c"
#include "stdlib.c"
#undef malloc
void *malloc(__CPROVER_size_t);
#ifndef BASE
#define BASE in_base
#endif
#define INSTR IN(unsigned, n); ASSUME(in_n > 0 && in_n < 0x7ffff0u); char *s = malloc(in_n); ASSUME(s != NULL); { IN(unsigned, L); ASSUME(in_L < in_n); gL = in_L; ASSUME(s[gL] == 0); } gs = s; { IN(unsigned, gk); ASSUME(in_gk < in_n); gk = in_gk; }
#define H_STRTO(f, T, lo_, hi_) void h_##f(void) { INSTR; IN(int, base); ASSUME(BASE == 0 || (2 <= BASE && BASE <= 36)); IN(int, we); sp.base0 = BASE; sp.lo = lo_; sp.hi = hi_; char *e = s; errno = -7; T r = f(s, &e, BASE); \
  unsigned t = OFF(e); ull v; CHECK("end is in the string", SAME(e) && t <= gL); int none = t == 0 && !(sp.b == 0 && sp_dig(gs[0]) < sp.base); if (none) t = sp.b; \
  CHECK("end: the first character that is no digit", t >= sp.b && sp_dig(gs[t]) >= sp.base && (!(sp.b <= gk && gk < t) || sp_dig(gs[gk]) < sp.base)); CHECK("no digits: end is the start", none == (t == sp.b)); \
  int over = go; CHECK("every digit was taken in order", gi == t); v = over ? sp.lim : gv; if (over ? sp.neg && sp.lo : sp.neg) v = 0 - v; CHECK("value, clamped to the type", r == (T)v); CHECK("errno is ERANGE exactly when out of range", errno == (over ? ERANGE : -7)); REACH("end"); }
H_STRTO(strtol, long, 0x80000000ull, 0x7fffffffull)
H_STRTO(strtoul, unsigned long, 0, 0xffffffffull)
H_STRTO(strtoll, long long, 0x8000000000000000ull, 0x7fffffffffffffffull)
H_STRTO(strtoull, unsigned long long, 0, 0xffffffffffffffffull)

/* ato*: base 10, value in range */
#define H_ATO(f, T, lo_, hi_) void h_##f(void) { INSTR; sp.base0 = 10; sp.lo = lo_; sp.hi = hi_; T r = f(s); unsigned t = OFF(vf_end); \
  CHECK("scan ends at the first character that is no digit", __CPROVER_same_object(vf_end, s) && t >= sp.b && t <= gL && !(gs[t] >= '0' && gs[t] <= '9') && (!(sp.b <= gk && gk < t) || (gs[gk] >= '0' && gs[gk] <= '9'))); \
  CHECK("every digit was taken in order", gi == t); ASSUME(!go); CHECK("value", r == (T)(sp.neg ? 0 - gv : gv)); REACH("end"); }
H_ATO(atoi, int, 0x80000000ull, 0x7fffffffull)
H_ATO(atol, long, 0x80000000ull, 0x7fffffffull)
H_ATO(atoll, long long, 0x8000000000000000ull, 0x7fffffffffffffffull)
