/* contracts: instruction selection in c.c (asm_*) against the C semantics (csem.h) through the wasm semantics (wasmsem.h) */
#include "repo_pre.h"
#include "csem.h"
#include "wasmsem.h"
#include "c.c"
static inscode_t t_ic[8]; static icbuf_t t_icb;
static void cinit(void) { t_icb.esz = sizeof(inscode_t); t_icb.buf = t_ic; t_icb.fill = 0; t_icb.end = 8; }
static void run(wst *w, int max)
{ int i; for (i = 0; i < max; ++i) if (i < (int)t_icb.fill) w_exec(w, (unsigned)t_ic[i].in, t_ic[i].arg.u, t_ic[i].arg2.u); }
#define LEAF(T) (sp_isnum(T) && (T) != TS_ENUM)
/* one source type after the other (each a constant for the verifier), the value arbitrary */
static void cast(ts_t to, int FR0, int FR1)
{
  IN(u64, v); wst w; int undef; sval r; int fr;
  for (fr = FR0; fr <= FR1; ++fr) if (LEAF(fr)) if (sp_valid(fr, in_v) && (fr != TS_FLOAT || in_v == (u32)in_v)) {
    cinit(); w_init(&w); w_push(&w, w_vt(fr), w_rep(fr, sv_u(in_v)));
    asm_numerical_cast(to, fr, &t_icb);
    CHECK("conversion code is short", t_icb.fill <= 4);
    run(&w, 4);
    r = sp_conv(to, fr, sv_u(in_v), &undef);
    CHECK("conversion code is well typed", !w.bad && (w.trap || (w.n == 1 && w.s[0].vt == w_vt(to))));
    CHECK("conversion code traps only where the value does not fit", !w.trap || undef);
    CHECK("conversion code computes the C conversion", w.bad || w.trap || undef || w_repr(to, r, w.s[0].v.u));
    REACH("conversion");
  }
}
static void binary(tt_t OP, ts_t TYP)
{
  IN(u64, x); IN(u64, y); wst w; int undef; sval r; ts_t rt; bool ok;
  u64 x = TYP == TS_FLOAT ? (u32)in_x : sp_isint(TYP) ? sp_canon(TYP, in_x) : in_x, y = TYP == TS_FLOAT ? (u32)in_y : sp_isint(TYP) ? sp_canon(TYP, in_y) : in_y; /* every canonical value */
  cinit(); w_init(&w); w_push(&w, w_vt(TYP), w_rep(TYP, sv_u(x))); w_push(&w, w_vt(TYP), w_rep(TYP, sv_u(y)));
  ok = asm_binary(TYP, OP, &t_icb);
  r = sp_arith(OP, TYP, sv_u(x), sv_u(y), &rt, &undef);
  CHECK("operator accepted exactly when C defines it on the type", ok == (rt != TS_VOID));
  if (ok) {
    CHECK("operator code is short", t_icb.fill <= 3); run(&w, 3);
    CHECK("operator code is well typed", !w.bad && (w.trap || (w.n == 1 && w.s[0].vt == w_vt(rt))));
    CHECK("operator code traps exactly on division by zero or quotient overflow", !!w.trap == !!undef);
    CHECK("operator code computes the C operator", w.bad || w.trap || undef || w_repr(rt, r, w.s[0].v.u));
  } else CHECK("no code for a rejected operator", t_icb.fill == 0);
  REACH("end");
}
static void unary(tt_t OP)
{
  IN(u64, x); wst w; sval r; ts_t rt; bool ok; IN(ts_t, t);
  ASSUME(sp_isnum(in_t) && in_t == sp_promote(in_t));
  ASSUME(sp_valid(in_t, in_x) && (in_t != TS_FLOAT || in_x == (u32)in_x));
  cinit(); w_init(&w); w_push(&w, w_vt(in_t), w_rep(in_t, sv_u(in_x)));
  ok = asm_unary(in_t, OP, &t_icb);
  r = sp_unary(OP, in_t, sv_u(in_x), &rt);
  if (ok) {
    CHECK("unary code is short", t_icb.fill <= 2); run(&w, 2);
    CHECK("unary code is well typed", !w.bad && !w.trap && w.n == 1 && w.s[0].vt == w_vt(rt));
    CHECK("unary code computes the C operator", w.bad || (rt != TS_VOID && w_repr(rt, r, w.s[0].v.u)));
  } else CHECK("no code for a rejected operator", t_icb.fill == 0);
  REACH("end");
}
void h_const(void)
{
  IN(ts_t, t); IN(u64, x); wst w; numval_t v; inscode_t ic;
  ASSUME(sp_isnum(in_t) && sp_valid(in_t, in_x) && (in_t != TS_FLOAT || in_x == (u32)in_x));
  ic.in = 0; ic.id = 0; ic.arg.u = ic.arg2.u = 0; v.u = in_x;
  asm_numerical_const(in_t, &v, &ic); w_init(&w); w_exec(&w, (unsigned)ic.in, ic.arg.u, 0);
  CHECK("constant instruction yields the literal's value", !w.bad && w.n == 1 && w.s[0].vt == w_vt(in_t) && w_repr(in_t, sv_u(in_x), w.s[0].v.u));
  REACH("end");
}
static int t_size(ts_t t) { return t == TS_BOOL ? 1 : t == TS_PTR ? 4 : sp_width(t == TS_DOUBLE ? TS_LLONG : t) / 8; }
#define SCAL(t) (sp_isnum(t) || (t) == TS_PTR)
static ts_t scal(ts_t t) { return t == TS_PTR ? TS_ULONG : t; }
/* storing a value and loading it back through the emitted instructions: bytes are the value's, little endian, nothing else changes */
void h_memory(void)
{
  IN(ts_t, t); IN(u64, x); IN(unsigned, a); IN(unsigned, off); INA(unsigned char, m, 16); wst w; ts_t p; int i, n; u64 e;
  ASSUME(SCAL(in_t)); p = in_t == TS_PTR ? TS_PTR : in_t == TS_ENUM ? TS_INT : sp_promote(in_t); n = t_size(in_t);
  ASSUME(sp_valid(scal(in_t), in_x) && (in_t != TS_FLOAT || in_x == (u32)in_x));
  ASSUME(in_off <= 8 && in_a <= 8 && in_a + in_off + n <= 16);
  for (i = 0; i < 16; ++i) w.mem[i] = in_m[i];
  cinit(); w_init(&w); w_push(&w, W_I32, in_a); w_push(&w, w_vt(scal(in_t)), w_rep(scal(in_t), sv_u(in_x)));
  asm_store(in_t, p, in_off, &t_icb);
  CHECK("one store instruction", t_icb.fill == 1); run(&w, 1);
  CHECK("store is well typed and in range", !w.bad && !w.trap && w.n == 0);
  e = in_t == TS_FLOAT ? (u32)in_x : in_x;
  for (i = 0; i < 16; ++i) {
    unsigned k = (unsigned)i - (in_a + in_off);
    CHECK("store writes the value's bytes and nothing else", w.mem[i] == (k < (unsigned)n ? (unsigned char)(e >> (8 * (k & 7))) : in_m[i]));
  }
  cinit(); w_init(&w); w_push(&w, W_I32, in_a);
  asm_load(p, in_t, in_off, &t_icb);
  CHECK("one load instruction", t_icb.fill == 1); run(&w, 1);
  CHECK("load is well typed and in range", !w.bad && !w.trap && w.n == 1 && w.s[0].vt == w_vt(scal(in_t)));
  CHECK("load yields the stored value", w_repr(scal(in_t), sv_u(in_x), w.s[0].v.u));
  REACH("end");
}
/* loading with widening to a 64-bit type */
void h_loadwide(void)
{
  IN(ts_t, t); IN(ts_t, p); INA(unsigned char, m, 16); wst w; int i, n, undef; u64 e = 0;
  ASSUME((sp_isint(in_t) || in_t == TS_PTR) && (in_p == TS_LLONG || in_p == TS_ULLONG)); n = t_size(in_t);
  for (i = 0; i < 16; ++i) w.mem[i] = in_m[i];
  for (i = 7; i >= 0; --i) if (i < n) e = (e << 8) | in_m[i];
  if (in_t == TS_BOOL) ASSUME(in_m[0] <= 1);
  e = sp_canon(scal(in_t), e);
  cinit(); w_init(&w); w_push(&w, W_I32, 0);
  asm_load(in_p, in_t, 0, &t_icb); run(&w, 1);
  CHECK("widening load yields the converted value", !w.bad && !w.trap && w.n == 1 && w.s[0].vt == W_I64 && w.s[0].v.u == sp_conv(in_p, scal(in_t), sv_u(e), &undef).u);
  REACH("end");
}

#define TYS(M, x) M(x, BOOL) M(x, CHAR) M(x, UCHAR) M(x, SHORT) M(x, USHORT) M(x, INT) M(x, UINT) M(x, LONG) M(x, ULONG) M(x, LLONG) M(x, ULLONG) M(x, FLOAT) M(x, DOUBLE)
#define E_CASTI(x, to) void h_cast_ints_##to(void) { cast(TS_##to, TS_BOOL, TS_ULLONG); }
TYS(E_CASTI, 0)
#define E_CAST(fr, to) void h_cast_##fr##_##to(void) { cast(TS_##to, TS_##fr, TS_##fr); }
TYS(E_CAST, BOOL) TYS(E_CAST, CHAR) TYS(E_CAST, UCHAR) TYS(E_CAST, SHORT) TYS(E_CAST, USHORT) TYS(E_CAST, INT) TYS(E_CAST, UINT) TYS(E_CAST, LONG) TYS(E_CAST, ULONG)
TYS(E_CAST, LLONG) TYS(E_CAST, ULLONG) TYS(E_CAST, FLOAT) TYS(E_CAST, DOUBLE)
#define E_BIN(op, t) void h_binary_##op##_##t(void) { binary(TT_##op, TS_##t); }
#define PTYS(M, x) M(x, INT) M(x, UINT) M(x, LONG) M(x, ULONG) M(x, LLONG) M(x, ULLONG) M(x, FLOAT) M(x, DOUBLE)
#define E_BINS(op) PTYS(E_BIN, op) void h_binary_##op##_ints(void) { binary(TT_##op, TS_INT); binary(TT_##op, TS_UINT); binary(TT_##op, TS_LONG); binary(TT_##op, TS_ULONG); binary(TT_##op, TS_LLONG); binary(TT_##op, TS_ULLONG); }
E_BINS(PLUS) E_BINS(MINUS) E_BINS(STAR) E_BINS(AND) E_BINS(OR) E_BINS(XOR) E_BINS(SLASH) E_BINS(REM) E_BINS(SHL) E_BINS(SHR) E_BINS(EQ) E_BINS(NE) E_BINS(LT) E_BINS(GT) E_BINS(LE) E_BINS(GE)
void h_unary_PLUS(void) { unary(TT_PLUS); } void h_unary_MINUS(void) { unary(TT_MINUS); } void h_unary_TILDE(void) { unary(TT_TILDE); } void h_unary_NOT(void) { unary(TT_NOT); }
