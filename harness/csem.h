/* csem.h -- INDEPENDENT specification of the arithmetic of C on the wasm32 data model, as wasm executes it.
 * A scalar value of type ts is a numval_t in canonical form: integers sign-extended (signed types) or
 * zero-extended (unsigned types) to 64 bits, _Bool 0/1, float in .f, double in .d.  */
#ifndef CSEM_H
#define CSEM_H
typedef unsigned long long u64; typedef long long i64; typedef unsigned int u32; typedef int i32;
static int sp_isint(ts_t t) { return (TS_BOOL <= t && t <= TS_ULLONG) || t == TS_ENUM; }
static int sp_isflt(ts_t t) { return t == TS_FLOAT || t == TS_DOUBLE; }
static int sp_isnum(ts_t t) { return sp_isint(t) || sp_isflt(t); }
static int sp_width(ts_t t)
{
  if (t == TS_BOOL) return 1;
  if (t == TS_CHAR || t == TS_UCHAR) return 8;
  if (t == TS_SHORT || t == TS_USHORT) return 16;
  if (t == TS_LLONG || t == TS_ULLONG) return 64;
  return 32;
}
static int sp_signed(ts_t t) { return t == TS_CHAR || t == TS_SHORT || t == TS_INT || t == TS_LONG || t == TS_LLONG || t == TS_ENUM; }
static u64 sp_canon(ts_t t, u64 u)
{
  switch (t) {
    case TS_BOOL: return u != 0;
    case TS_CHAR: return (u64)(i64)(signed char)u;
    case TS_UCHAR: return (unsigned char)u;
    case TS_SHORT: return (u64)(i64)(short)u;
    case TS_USHORT: return (unsigned short)u;
    case TS_UINT: case TS_ULONG: return (u32)u;
    case TS_INT: case TS_LONG: case TS_ENUM: return (u64)(i64)(i32)u;
    default: return u;
  }
}
/* v is a canonical value of type t */
static int sp_valid(ts_t t, u64 u) { return sp_isflt(t) || u == sp_canon(t, u); }
static int sp_rank(ts_t t) { return t == TS_LLONG || t == TS_ULLONG ? 5 : t == TS_LONG || t == TS_ULONG ? 4 : t == TS_UINT || t == TS_INT ? 3 : 2; }
static ts_t sp_promote(ts_t t) { return sp_isint(t) && sp_rank(t) < 3 ? TS_INT : t; }
/* ISO C 6.3.1.8 for a model where long has the width of int */
static ts_t sp_common_iso(ts_t a, ts_t b)
{
  ts_t hi, lo;
  if (a == TS_DOUBLE || b == TS_DOUBLE) return TS_DOUBLE;
  if (a == TS_FLOAT || b == TS_FLOAT) return TS_FLOAT;
  a = sp_promote(a); b = sp_promote(b);
  if (a == b) return a;
  if (sp_rank(a) >= sp_rank(b)) hi = a, lo = b; else hi = b, lo = a;
  if (sp_signed(a) == sp_signed(b)) return hi;
  if (!sp_signed(hi)) return hi;
  if (sp_rank(hi) == sp_rank(lo)) return lo; /* the unsigned one */
  if (sp_width(hi) > sp_width(lo)) return hi; /* signed type represents all values of the unsigned one */
  return hi == TS_LONG ? TS_ULONG : TS_ULLONG;
}
/* the dialect's common type: ISO, except that long with unsigned int stays long (see KNOWN_FINDINGS, C03) */
static ts_t sp_common(ts_t a, ts_t b)
{ return (a == TS_LONG && b == TS_UINT) || (a == TS_UINT && b == TS_LONG) ? TS_LONG : sp_common_iso(a, b); }
typedef union { u64 u; i64 i; float f; double d; u32 u32; } sval;
static sval sv_u(u64 u) { sval v; v.u = u; return v; }
static sval sv_f(float f) { sval v; v.u = 0; v.f = f; return v; }
static sval sv_d(double d) { sval v; v.d = d; return v; }
static sval sv_i(i64 d) { sval v; v.i = d; return v; }
static int sp_feq(float a, float b) { sval x, y; x.u = y.u = 0; x.f = a; y.f = b; return (a != a && b != b) || x.u32 == y.u32; }
static int sp_deq(double a, double b) { sval x, y; x.d = a; y.d = b; return (a != a && b != b) || x.u == y.u; }
/* are the two canonical values of type t the same value? (NaNs are not distinguished) */
static int sp_same(ts_t t, sval a, sval b)
{
  if (t == TS_DOUBLE) return sp_deq(a.d, b.d);
  if (t == TS_FLOAT) return sp_feq(a.f, b.f);
  return a.u == b.u;
}
/* does the wasm float-to-integer conversion used for a cast to integer type t trap on d? (d: the exact source value) */
static int sp_trunc_traps(ts_t t, double d)
{
  if (t == TS_BOOL) return 0;
  if (d != d) return 1;
  if (sp_width(t) == 64) return sp_signed(t) ? !(d >= -9223372036854775808.0 && d < 9223372036854775808.0) : !(d > -1.0 && d < 18446744073709551616.0);
  return sp_signed(t) ? !(d > -2147483649.0 && d < 2147483648.0) : !(d > -1.0 && d < 4294967296.0);
}
static u64 sp_trunc(ts_t t, double d) /* d not trapping */
{
  u64 u = sp_signed(t) ? (u64)(i64)d : (u64)d;
  return sp_canon(t, u);
}
/* conversion of v from type fr to type to; *undef is set when the conversion traps */
static sval sp_conv(ts_t to, ts_t fr, sval v, int *undef)
{
  sval r; r.u = 0; *undef = 0;
  if (to == fr) return v;
  if (to == TS_DOUBLE) {
    if (fr == TS_FLOAT) r.d = (double)v.f; else if (sp_signed(fr)) r.d = (double)v.i; else r.d = (double)v.u;
  } else if (to == TS_FLOAT) {
    if (fr == TS_DOUBLE) r.f = (float)v.d; else if (sp_signed(fr)) r.f = (float)v.i; else r.f = (float)v.u;
  } else if (to == TS_BOOL) {
    r.u = fr == TS_DOUBLE ? v.d != 0 : fr == TS_FLOAT ? v.f != 0 : v.u != 0;
  } else if (sp_isflt(fr)) {
    double d = fr == TS_FLOAT ? (double)v.f : v.d;
    if (sp_trunc_traps(to, d)) *undef = 1; else r.u = sp_trunc(to, d);
  } else r.u = sp_canon(to, v.u);
  return r;
}
static int sp_iscmp(tt_t op) { return op == TT_EQ || op == TT_NE || op == TT_LT || op == TT_GT || op == TT_LE || op == TT_GE; }
#ifdef VF_PROVE
#pragma CPROVER check push
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "div-by-zero"
#endif
static i64 sp_sdiv(tt_t op, i64 x, i64 y)
{
#ifndef VF_PROVE
  if (y == -1) return op == TT_SLASH ? (i64)(0ull - (u64)x) : 0;
#endif
  return op == TT_SLASH ? x / y : x % y;
}
#ifdef VF_PROVE
#pragma CPROVER check pop
#endif
/* run-time result of x op y for operands of common type t (already converted); *rt result type, TS_VOID if the
   operator does not exist on t; *undef: 1 division by zero, 2 quotient overflow (both trap in wasm) */
static sval sp_arith(tt_t op, ts_t t, sval x, sval y, ts_t *rt, int *undef)
{
  sval r; r.u = 0; *undef = 0; *rt = sp_iscmp(op) ? TS_INT : t;
  if (t == TS_DOUBLE) {
    switch (op) {
      case TT_PLUS: r.d = x.d + y.d; break;   case TT_MINUS: r.d = x.d - y.d; break;
      case TT_STAR: r.d = x.d * y.d; break;   case TT_SLASH: r.d = x.d / y.d; break;
      case TT_EQ: r.i = x.d == y.d; break;    case TT_NE: r.i = x.d != y.d; break;
      case TT_LT: r.i = x.d < y.d; break;     case TT_GT: r.i = x.d > y.d; break;
      case TT_LE: r.i = x.d <= y.d; break;    case TT_GE: r.i = x.d >= y.d; break;
      default: *rt = TS_VOID;
    }
    return r;
  }
  if (t == TS_FLOAT) {
    switch (op) {
      case TT_PLUS: r.f = x.f + y.f; break;   case TT_MINUS: r.f = x.f - y.f; break;
      case TT_STAR: r.f = x.f * y.f; break;   case TT_SLASH: r.f = x.f / y.f; break;
      case TT_EQ: r.i = x.f == y.f; break;    case TT_NE: r.i = x.f != y.f; break;
      case TT_LT: r.i = x.f < y.f; break;     case TT_GT: r.i = x.f > y.f; break;
      case TT_LE: r.i = x.f <= y.f; break;    case TT_GE: r.i = x.f >= y.f; break;
      default: *rt = TS_VOID;
    }
    return r;
  }
  switch (op) {
    case TT_PLUS: r.u = x.u + y.u; break;  case TT_MINUS: r.u = x.u - y.u; break;
    case TT_STAR: r.u = x.u * y.u; break;  case TT_AND: r.u = x.u & y.u; break;
    case TT_OR: r.u = x.u | y.u; break;    case TT_XOR: r.u = x.u ^ y.u; break;
    case TT_SLASH: case TT_REM: {
      int w = sp_width(t); i64 q;
      if (y.u == 0) { *undef = 1; break; }
      if (!sp_signed(t)) { r.u = op == TT_SLASH ? x.u / y.u : x.u % y.u; break; }
      q = sp_sdiv(op, x.i, y.i); /* computed before the case split so that the verifier keeps one term for it */
      if (y.i == -1) {
        if (op == TT_REM) { r.i = 0; break; }
        if (x.i == (w == 64 ? (-9223372036854775807ll-1) : -2147483648ll)) { *undef = 2; break; }
      }
      r.i = q;
    } break;
    case TT_SHL: r.u = x.u << (y.u & (sp_width(t) - 1)); break;
    case TT_SHR: r.u = sp_signed(t) ? (u64)(x.i >> (y.u & (sp_width(t) - 1))) : x.u >> (y.u & (sp_width(t) - 1)); break;
    case TT_EQ: r.i = x.u == y.u; return r; case TT_NE: r.i = x.u != y.u; return r;
    case TT_LT: r.i = sp_signed(t) ? x.i < y.i : x.u < y.u; return r;
    case TT_GT: r.i = sp_signed(t) ? x.i > y.i : x.u > y.u; return r;
    case TT_LE: r.i = sp_signed(t) ? x.i <= y.i : x.u <= y.u; return r;
    case TT_GE: r.i = sp_signed(t) ? x.i >= y.i : x.u >= y.u; return r;
    default: *rt = TS_VOID; return r;
  }
  r.u = sp_canon(t, r.u);
  return r;
}
static sval sp_unary(tt_t op, ts_t t, sval x, ts_t *rt)
{
  sval r; r.u = 0; *rt = t;
  if (op == TT_NOT) { r.i = t == TS_DOUBLE ? x.d == 0 : t == TS_FLOAT ? x.f == 0 : x.u == 0; *rt = TS_INT; return r; }
  if (op == TT_PLUS) return x;
  if (op == TT_MINUS) {
    if (t == TS_DOUBLE) { r.u = x.u ^ 0x8000000000000000ull; return r; }
    if (t == TS_FLOAT) { r.u = 0; r.u32 = x.u32 ^ 0x80000000u; return r; }
    r.u = sp_canon(t, 0 - x.u); return r;
  }
  if (op == TT_TILDE && sp_isint(t)) { r.u = sp_canon(t, ~x.u); return r; }
  *rt = TS_VOID; return r;
}
#endif
