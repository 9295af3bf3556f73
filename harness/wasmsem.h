/* wasmsem.h -- INDEPENDENT executable semantics of the scalar WebAssembly instructions (core spec, binary opcodes
 * written as numbers so that the instruction enumeration itself is checked too). */
#ifndef WASMSEM_H
#define WASMSEM_H
enum { W_I32 = 0x7f, W_I64 = 0x7e, W_F32 = 0x7d, W_F64 = 0x7c };
typedef struct { int vt; sval v; } wslot;
#define WDEPTH 8
typedef struct { wslot s[WDEPTH]; int n; int bad; /* ill-typed or unknown instruction */ int trap; wslot loc[4]; unsigned char mem[16]; } wst;
static void w_push(wst *w, int vt, u64 u) { if (w->n >= WDEPTH) { w->bad = 1; return; } w->s[w->n].vt = vt; w->s[w->n].v.u = u; w->n += 1; }
static u64 w_pop(wst *w, int vt) { if (w->n <= 0 || w->s[w->n-1].vt != vt) { w->bad = 1; return 0; } w->n -= 1; return w->s[w->n].v.u; }
static float w_f(u64 u) { sval v; v.u = u; return v.f; }
static double w_d(u64 u) { sval v; v.u = u; return v.d; }
static u64 w_uf(float f) { sval v; v.u = 0; v.f = f; return v.u; }
static u64 w_ud(double d) { sval v; v.d = d; return v.u; }
/* integer arithmetic, op = low opcode relative to clz (0 clz .. 17 rotr); b: width; operands zero-extended */
static u64 w_sx(int b, u64 u) { return b == 32 ? (u64)(i64)(i32)(u32)u : u; }
static u64 w_zx(int b, u64 u) { return b == 32 ? (u64)(u32)u : u; }
static u64 w_iarith(wst *w, int b, int op, u64 x, u64 y)
{
  int k = (int)(y & (b - 1));
  switch (op) {
    case 3: return w_zx(b, x + y); case 4: return w_zx(b, x - y); case 5: return w_zx(b, w_sx(b, x) * w_sx(b, y));
    case 6: case 8: { /* div_s, rem_s */
      i64 a = (i64)w_sx(b, x), c = (i64)w_sx(b, y), q;
      if (y == 0) { w->trap = 1; return 0; }
      q = sp_sdiv(op == 6 ? TT_SLASH : TT_REM, a, c);
      if (c == -1) { if (op == 8) return 0; if (a == (b == 64 ? (-9223372036854775807ll-1) : -2147483648ll)) { w->trap = 2; return 0; } }
      return w_zx(b, (u64)q);
    }
    case 7: if (y == 0) { w->trap = 1; return 0; } return x / y;
    case 9: if (y == 0) { w->trap = 1; return 0; } return x % y;
    case 10: return x & y; case 11: return x | y; case 12: return x ^ y;
    case 13: return w_zx(b, x << k);
    case 14: return w_zx(b, (u64)((i64)w_sx(b, x) >> k));
    case 15: return x >> k;
    case 16: return k == 0 ? x : w_zx(b, (x << k) | (x >> (b - k)));
    case 17: return k == 0 ? x : w_zx(b, (x >> k) | (x << (b - k)));
    default: w->bad = 1; return 0;
  }
}
static int w_icmp(int b, int op, u64 x, u64 y) /* 0 eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s 9 ge_u */
{
  i64 a = (i64)w_sx(b, x), c = (i64)w_sx(b, y);
  switch (op) { case 0: return x == y; case 1: return x != y; case 2: return a < c; case 3: return x < y; case 4: return a > c;
    case 5: return x > y; case 6: return a <= c; case 7: return x <= y; case 8: return a >= c; default: return x >= y; }
}
static int w_fcmp(int op, double a, double b)
{ switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; } }
static u64 w_ld(wst *w, u64 a, u64 off, int n) { u64 r = 0; u64 p = (u64)(u32)a + off; int i; if (p + n > 16) { w->trap = 3; return 0; } for (i = 7; i >= 0; --i) if (i < n) r = (r << 8) | w->mem[p + i]; return r; }
static void w_st(wst *w, u64 a, u64 off, int n, u64 v) { u64 p = (u64)(u32)a + off; int i; if (p + n > 16) { w->trap = 3; return; } for (i = 0; i < 8; ++i) if (i < n) w->mem[p + i] = (unsigned char)(v >> (8*i)); }
static u64 w_sxn(int n, u64 u) { return n == 8 ? (u64)(i64)(signed char)u : n == 16 ? (u64)(i64)(short)u : n == 32 ? (u64)(i64)(i32)u : u; }
/* one instruction; arg: immediate bits (constant / offset / local index), align: memarg alignment exponent */
static void w_exec(wst *w, unsigned op, u64 arg, u64 align)
{
  u64 a, b, c;
  if (w->bad || w->trap) return;
  if (op >= 0x28 && op <= 0x3e) {
    static const unsigned char vt[23] = {W_I32,W_I64,W_F32,W_F64,W_I32,W_I32,W_I32,W_I32,W_I64,W_I64,W_I64,W_I64,W_I64,W_I64,W_I32,W_I64,W_F32,W_F64,W_I32,W_I32,W_I64,W_I64,W_I64};
    static const unsigned char sz[23] = {4,8,4,8,1,1,2,2,1,1,2,2,4,4,4,8,4,8,1,2,1,2,4};
    static const unsigned char sg[23] = {0,0,0,0,1,0,1,0,1,0,1,0,1,0,0,0,0,0,0,0,0,0,0};
    int k = (int)op - 0x28, n = sz[k];
    if ((1u << align) > (unsigned)n) { w->bad = 1; return; } /* alignment hint must not exceed natural alignment */
    if (op <= 0x35) { a = w_pop(w, W_I32); b = w_ld(w, a, arg, n); if (sg[k]) b = w_sxn(n * 8, b); if (vt[k] == W_I32) b = (u32)b; w_push(w, vt[k], b); }
    else { b = w_pop(w, vt[k]); a = w_pop(w, W_I32); w_st(w, a, arg, n, b); }
    return;
  }
  if (op >= 0x46 && op <= 0x4f) { b = w_pop(w, W_I32); a = w_pop(w, W_I32); w_push(w, W_I32, w_icmp(32, op - 0x46, a, b)); return; }
  if (op >= 0x51 && op <= 0x5a) { b = w_pop(w, W_I64); a = w_pop(w, W_I64); w_push(w, W_I32, w_icmp(64, op - 0x51, a, b)); return; }
  if (op >= 0x5b && op <= 0x60) { b = w_pop(w, W_F32); a = w_pop(w, W_F32); w_push(w, W_I32, w_fcmp(op - 0x5b, w_f(a), w_f(b))); return; }
  if (op >= 0x61 && op <= 0x66) { b = w_pop(w, W_F64); a = w_pop(w, W_F64); w_push(w, W_I32, w_fcmp(op - 0x61, w_d(a), w_d(b))); return; }
  if (op >= 0x6a && op <= 0x78) { b = w_pop(w, W_I32); a = w_pop(w, W_I32); w_push(w, W_I32, w_iarith(w, 32, op - 0x67, a, b)); return; }
  if (op >= 0x7c && op <= 0x8a) { b = w_pop(w, W_I64); a = w_pop(w, W_I64); w_push(w, W_I64, w_iarith(w, 64, op - 0x79, a, b)); return; }
  switch (op) {
    case 0x01: return;
    case 0x1a: if (w->n <= 0) w->bad = 1; else w->n -= 1; return;
    case 0x1b: { int vt; c = w_pop(w, W_I32); if (w->n < 2) { w->bad = 1; return; } vt = w->s[w->n-1].vt; b = w_pop(w, vt); a = w_pop(w, vt); w_push(w, vt, (u32)c ? a : b); return; }
    case 0x20: if (arg >= 4) w->bad = 1; else w_push(w, w->loc[arg].vt, w->loc[arg].v.u); return;
    case 0x21: if (arg >= 4) w->bad = 1; else w->loc[arg].v.u = w_pop(w, w->loc[arg].vt); return;
    case 0x22: if (arg >= 4) w->bad = 1; else { a = w_pop(w, w->loc[arg].vt); w->loc[arg].v.u = a; w_push(w, w->loc[arg].vt, a); } return;
    case 0x41: w_push(w, W_I32, (u32)arg); return;
    case 0x42: w_push(w, W_I64, arg); return;
    case 0x43: w_push(w, W_F32, (u32)arg); return;
    case 0x44: w_push(w, W_F64, arg); return;
    case 0x45: a = w_pop(w, W_I32); w_push(w, W_I32, (u32)a == 0); return;
    case 0x50: a = w_pop(w, W_I64); w_push(w, W_I32, a == 0); return;
    case 0x8b: a = w_pop(w, W_F32); w_push(w, W_F32, a & 0x7fffffffu); return;
    case 0x8c: a = w_pop(w, W_F32); w_push(w, W_F32, (u32)a ^ 0x80000000u); return;
    case 0x99: a = w_pop(w, W_F64); w_push(w, W_F64, a & 0x7fffffffffffffffull); return;
    case 0x9a: a = w_pop(w, W_F64); w_push(w, W_F64, a ^ 0x8000000000000000ull); return;
    case 0x92: b = w_pop(w, W_F32); a = w_pop(w, W_F32); w_push(w, W_F32, w_uf(w_f(a) + w_f(b))); return;
    case 0x93: b = w_pop(w, W_F32); a = w_pop(w, W_F32); w_push(w, W_F32, w_uf(w_f(a) - w_f(b))); return;
    case 0x94: b = w_pop(w, W_F32); a = w_pop(w, W_F32); w_push(w, W_F32, w_uf(w_f(a) * w_f(b))); return;
    case 0x95: b = w_pop(w, W_F32); a = w_pop(w, W_F32); w_push(w, W_F32, w_uf(w_f(a) / w_f(b))); return;
    case 0xa0: b = w_pop(w, W_F64); a = w_pop(w, W_F64); w_push(w, W_F64, w_ud(w_d(a) + w_d(b))); return;
    case 0xa1: b = w_pop(w, W_F64); a = w_pop(w, W_F64); w_push(w, W_F64, w_ud(w_d(a) - w_d(b))); return;
    case 0xa2: b = w_pop(w, W_F64); a = w_pop(w, W_F64); w_push(w, W_F64, w_ud(w_d(a) * w_d(b))); return;
    case 0xa3: b = w_pop(w, W_F64); a = w_pop(w, W_F64); w_push(w, W_F64, w_ud(w_d(a) / w_d(b))); return;
    case 0xa7: a = w_pop(w, W_I64); w_push(w, W_I32, (u32)a); return;
    case 0xa8: case 0xa9: case 0xaa: case 0xab: case 0xae: case 0xaf: case 0xb0: case 0xb1: {
      int wide = op >= 0xae, sg = (op & 1) == 0, fl = op == 0xa8 || op == 0xa9 || op == 0xae || op == 0xaf;
      ts_t t = wide ? (sg ? TS_LLONG : TS_ULLONG) : (sg ? TS_INT : TS_UINT); double d;
      a = w_pop(w, fl ? W_F32 : W_F64); d = fl ? (double)w_f(a) : w_d(a);
      if (sp_trunc_traps(t, d)) { w->trap = 4; return; }
      b = sp_trunc(t, d); w_push(w, wide ? W_I64 : W_I32, wide ? b : (u32)b); return;
    }
    case 0xac: a = w_pop(w, W_I32); w_push(w, W_I64, w_sxn(32, a)); return;
    case 0xad: a = w_pop(w, W_I32); w_push(w, W_I64, (u32)a); return;
    case 0xb2: a = w_pop(w, W_I32); w_push(w, W_F32, w_uf((float)(i64)w_sxn(32, a))); return;
    case 0xb3: a = w_pop(w, W_I32); w_push(w, W_F32, w_uf((float)a)); return;
    case 0xb4: a = w_pop(w, W_I64); w_push(w, W_F32, w_uf((float)(i64)a)); return;
    case 0xb5: a = w_pop(w, W_I64); w_push(w, W_F32, w_uf((float)a)); return;
    case 0xb6: a = w_pop(w, W_F64); w_push(w, W_F32, w_uf((float)w_d(a))); return;
    case 0xb7: a = w_pop(w, W_I32); w_push(w, W_F64, w_ud((double)(i64)w_sxn(32, a))); return;
    case 0xb8: a = w_pop(w, W_I32); w_push(w, W_F64, w_ud((double)a)); return;
    case 0xb9: a = w_pop(w, W_I64); w_push(w, W_F64, w_ud((double)(i64)a)); return;
    case 0xba: a = w_pop(w, W_I64); w_push(w, W_F64, w_ud((double)a)); return;
    case 0xbb: a = w_pop(w, W_F32); w_push(w, W_F64, w_ud((double)w_f(a))); return;
    case 0xbc: a = w_pop(w, W_F32); w_push(w, W_I32, a); return;
    case 0xbd: a = w_pop(w, W_F64); w_push(w, W_I64, a); return;
    case 0xbe: a = w_pop(w, W_I32); w_push(w, W_F32, a); return;
    case 0xbf: a = w_pop(w, W_I64); w_push(w, W_F64, a); return;
    case 0xc0: a = w_pop(w, W_I32); w_push(w, W_I32, (u32)w_sxn(8, a)); return;
    case 0xc1: a = w_pop(w, W_I32); w_push(w, W_I32, (u32)w_sxn(16, a)); return;
    case 0xc2: a = w_pop(w, W_I64); w_push(w, W_I64, w_sxn(8, a)); return;
    case 0xc3: a = w_pop(w, W_I64); w_push(w, W_I64, w_sxn(16, a)); return;
    case 0xc4: a = w_pop(w, W_I64); w_push(w, W_I64, w_sxn(32, a)); return;
    default: w->bad = 1;
  }
}
/* wasm type and register representation of a canonical scalar value of C type t */
static int w_vt(ts_t t) { return t == TS_DOUBLE ? W_F64 : t == TS_FLOAT ? W_F32 : t == TS_LLONG || t == TS_ULLONG ? W_I64 : W_I32; }
static u64 w_rep(ts_t t, sval v) { int vt = w_vt(t); return vt == W_I32 || vt == W_F32 ? (u64)(u32)v.u : v.u; }
/* does register content r represent the C value v of type t? */
static int w_repr(ts_t t, sval v, u64 r)
{ if (t == TS_DOUBLE) return sp_deq(v.d, w_d(r)); if (t == TS_FLOAT) return sp_feq(v.f, w_f(r)); return w_rep(t, v) == r; }
static void w_init(wst *w) { w->n = 0; w->bad = 0; w->trap = 0; }
#endif
