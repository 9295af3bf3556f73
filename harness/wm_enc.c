/* contracts: the wasm binary writer (w.c) against an independent decoder of the binary format */
#include "repo_pre.h"
typedef unsigned long long u64; typedef unsigned int u32;
/* output sink: everything the writer sends to the file */
#define OMAX 96
static unsigned char o[OMAX]; static unsigned on; static int o_over;
static int vf_fputc(int c, FILE *f) { if (on >= OMAX) o_over = 1; else o[on++] = (unsigned char)c; return c; }
/* block writes: recorded, and copied when short */
static const void *bw_p[4]; static size_t bw_n[4]; static unsigned bw_c, bw_at[4];
static size_t vf_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{ if (bw_c < 4) { bw_p[bw_c] = p; bw_n[bw_c] = sz * n; bw_at[bw_c] = on; } ++bw_c; if (n <= 12) { size_t i; for (i = 0; i < 12; ++i) if (i < n) vf_fputc(((const unsigned char*)p)[i], f); } return n; }
#define fputc vf_fputc
#define fwrite vf_fwrite
#include "w.c"
#undef fputc
#undef fwrite
/* independent decoder */
static unsigned dp; static int d_bad;
static unsigned d_byte(void) { if (dp >= on || dp >= OMAX) { d_bad = 1; return 0; } return o[dp++]; }
static u64 d_u(int bits) /* unsigned LEB128, minimal length, value < 2^bits */
{
  u64 r = 0; int i, more = 1; unsigned b = 0;
  for (i = 0; i < 10; ++i) if (more) { b = d_byte(); r |= (u64)(b & 0x7f) << (7*i); if (i == 9 && b > 1) d_bad = 1; more = (b & 0x80) != 0; if (!more && b == 0 && i > 0) d_bad = 1; }
  if (more) d_bad = 1;
  if (bits < 64 && (r >> bits) != 0) d_bad = 1;
  return r;
}
static long long d_s(int bits) /* signed LEB128, minimal length, value in the signed range of bits */
{
  u64 r = 0; int i, more = 1; unsigned b = 0, pb = 0; 
  for (i = 0; i < 10; ++i) if (more) {
    pb = b; b = d_byte(); r |= (u64)(b & 0x7f) << (7*i); more = (b & 0x80) != 0;
    if (!more) {
      if (i == 9) { if (b != 0 && b != 0x7f) d_bad = 1; } else if (b & 0x40) r |= ~0ull << (7*i + 7);
      if (i > 0 && ((b == 0 && !(pb & 0x40)) || (b == 0x7f && (pb & 0x40)))) d_bad = 1;
    }
  }
  if (more) d_bad = 1;
  if (bits < 64 && ((long long)r >= (1ll << (bits-1)) || (long long)r < -(1ll << (bits-1)))) d_bad = 1;
  return (long long)r;
}
#define DONE(l) CHECK(l ": exactly these bytes and no more", !d_bad && !o_over && dp == on)
static void start(void) { g_curbuf = NULL; g_wasmout = stdout; on = dp = 0; d_bad = o_over = 0; bw_c = 0; }

void h_unsigned(void) { IN(u64, v); start(); wasm_unsigned(in_v); CHECK("unsigned integer decodes to itself", d_u(64) == in_v); DONE("unsigned integer"); REACH("end"); }
void h_signed(void) { IN(long long, v); start(); wasm_signed(in_v); CHECK("signed integer decodes to itself", d_s(64) == in_v); DONE("signed integer"); REACH("end"); }
void h_float(void) { IN(u32, v); union { float f; u32 u; } x; start(); x.u = in_v; wasm_float(x.f);
  CHECK("float bytes", on == 4 && (o[0] | (u32)o[1] << 8 | (u32)o[2] << 16 | (u32)o[3] << 24) == in_v); REACH("end"); }
void h_double(void) { IN(u64, v); union { double f; u64 u; } x; int i; u64 r = 0; start(); x.u = in_v; wasm_double(x.f);
  for (i = 0; i < 8; ++i) r |= (u64)o[i] << (8*i); CHECK("double bytes", on == 8 && r == in_v); REACH("end"); }
/* output goes to the current buffer when there is one, unchanged, after what is already there */
void h_byte(void)
{
  static char d[8]; cbuf_t cb; IN(unsigned, b); IN(unsigned, fill); INA(char, d, 8); int i;
  ASSUME(in_fill < 8); start(); for (i = 0; i < 8; ++i) d[i] = in_d[i];
  cb.esz = 1; cb.end = 8; cb.fill = in_fill; cb.buf = d;
  g_curbuf = &cb; wasm_byte(in_b);
  CHECK("one byte appended to the buffer", on == 0 && cb.fill == in_fill + 1 && cb.buf == d && (unsigned char)d[in_fill] == (in_b & 0xff));
  for (i = 0; i < 8; ++i) CHECK("other bytes unchanged", i == (int)in_fill || d[i] == in_d[i]);
  g_curbuf = NULL; start(); wasm_byte(in_b); CHECK("one byte written", on == 1 && o[0] == (in_b & 0xff));
  REACH("end");
}
#ifndef NAMEMAX
#define NAMEMAX 16
#endif
void h_name(void)
{
  INA(char, s, NAMEMAX + 1); unsigned n = 0, i; in_s[NAMEMAX] = 0; start();
  while (in_s[n]) ++n;
  wasm_name(in_s);
  CHECK("name length prefix", d_u(32) == n);
  for (i = 0; i < NAMEMAX; ++i) if (i < n) CHECK("name bytes", (char)d_byte() == in_s[i]);
  DONE("name"); REACH("end");
}
void h_data(void)
{
  INA(char, s, 12); IN(unsigned, n); cbuf_t cb; unsigned i; ASSUME(in_n <= 12); start();
  cb.esz = 1; cb.end = 12; cb.fill = in_n; cb.buf = in_s; wasm_data(&cb);
  for (i = 0; i < 12; ++i) if (i < in_n) CHECK("data bytes", (char)d_byte() == in_s[i]);
  DONE("data"); REACH("end");
}
/* instruction kinds */
enum { K_NONE = 1, K_BT, K_U32, K_U32X2, K_BRT, K_VTVEC, K_MEMARG, K_Z1, K_Z2, K_S32, K_S64, K_F32, K_F64, K_HT, K_MEMINIT, K_B16, K_LANES, K_LANE, K_MEMLANE };
/* one instruction with arbitrary operands, as it stands in a resolved function body */
static u32 al; /* alignment exponent, or its absence */
static void expr1(u32 in, int k)
{
  IN(u64, a); IN(u64, b); static inscode_t ic[1]; icbuf_t cb; int i, op3 = in > 0xffff, op2 = in > 0xff;
  if (k == K_MEMARG) in_b = al;
  if (k == K_MEMLANE) in_b = (u32)in_b;
  ic[0].in = (instr_t)in; ic[0].id = 0; ic[0].arg.u = in_a; ic[0].arg2.u = in_b; if (k == K_MEMLANE) ic[0].arg2.ux2[1] = al;
  if (k == K_BT) ASSUME(in_a == 0x40 || in_a == 0x7f || in_a == 0x7e || in_a == 0x7d || in_a == 0x7c || in_a == 0x7b);
  if (k == K_HT || k == K_VTVEC) ASSUME(in_a == 0x70 || in_a == 0x6f);
  if (k == K_U32 || k == K_U32X2 || k == K_MEMARG || k == K_MEMINIT) ASSUME(in_a == (u32)in_a && in_b == (u32)in_b);
  if (k == K_LANE || k == K_MEMLANE) ASSUME(in_a < 16);
  cb.esz = sizeof(inscode_t); cb.end = 1; cb.fill = 1; cb.buf = ic;
  start(); wasm_expr(&cb);
  if (op3) CHECK("opcode", d_byte() == in >> 16);
  if (op2) CHECK("opcode", d_byte() == (in >> 8 & 0xff));
  CHECK("opcode", d_byte() == (in & 0xff));
  switch (k) {
    case K_NONE: break;
    case K_BT: case K_HT: CHECK("block/heap type", d_byte() == (unsigned char)in_a); break;
    case K_VTVEC: CHECK("one result type", d_byte() == 1 && d_byte() == (unsigned char)in_a); break;
    case K_U32: CHECK("index", d_u(32) == in_a); break;
    case K_U32X2: CHECK("first index", d_u(32) == in_a); CHECK("second index", d_u(32) == in_b); break;
    case K_MEMINIT: CHECK("data index", d_u(32) == in_a); CHECK("memory 0", d_byte() == 0); break;
    case K_Z1: CHECK("memory 0", d_byte() == 0); break;
    case K_Z2: CHECK("memory 0", d_byte() == 0); CHECK("memory 0", d_byte() == 0); break;
    case K_MEMARG: CHECK("alignment", d_u(32) == in_b); CHECK("offset", d_u(32) == in_a); break;
    case K_S32: CHECK("i32 constant (any representation of its low 32 bits)", d_s(32) == (long long)(int)in_a); break;
    case K_S64: CHECK("i64 constant", d_s(64) == (long long)in_a); break;
    case K_F32: for (i = 0; i < 4; ++i) CHECK("f32 constant", d_byte() == (unsigned char)(in_a >> (8*i))); break;
    case K_F64: for (i = 0; i < 8; ++i) CHECK("f64 constant", d_byte() == (unsigned char)(in_a >> (8*i))); break;
    case K_B16: for (i = 0; i < 16; ++i) CHECK("v128 constant", d_byte() == (unsigned char)((i < 8 ? in_a : in_b) >> (8*(i&7)))); break;
    case K_LANES: for (i = 0; i < 16; ++i) CHECK("lane", d_byte() == (unsigned char)(in_a >> (4*(15-i)) & 15)); break;
    case K_LANE: CHECK("lane", d_byte() == (unsigned char)in_a); break;
    case K_MEMLANE: CHECK("alignment", d_u(32) == al); CHECK("offset", d_u(32) == (u32)in_b); CHECK("lane", d_byte() == (unsigned char)in_a); break;
    default: d_bad = 1;
  }
  DONE("instruction"); REACH("instruction");
}
/* the instructions of one kind, one after the other */
static void exprs(int kind, u32 lo, u32 hi)
{
#define OPC(c, n, k) if (k == kind && (c) >= lo && (c) <= hi) expr1(c, k);
#include "opcodes.h"
}
#define E_K(k) void h_expr_##k(void) { exprs(K_##k, 0, 0xffffffu); }
E_K(BT) E_K(U32) E_K(U32X2) E_K(VTVEC) E_K(Z1) E_K(Z2) E_K(S32) E_K(S64) E_K(F32) E_K(F64) E_K(HT) E_K(MEMINIT) E_K(B16) E_K(LANES) E_K(LANE)
#define E_M(k, a) void h_expr_##k##a(void) { al = a; exprs(K_##k, 0, 0xffffffu); }
E_M(MEMARG, 0) E_M(MEMARG, 1) E_M(MEMARG, 2) E_M(MEMARG, 3) E_M(MEMARG, 4) E_M(MEMLANE, 0) E_M(MEMLANE, 1) E_M(MEMLANE, 2) E_M(MEMLANE, 3)
void h_expr_NONE0(void) { exprs(K_NONE, 0, 0x7f); }
void h_expr_NONE1(void) { exprs(K_NONE, 0x80, 0xff); }
void h_expr_NONE2(void) { exprs(K_NONE, 0x100, 0xfdff); }
void h_expr_NONE3(void) { exprs(K_NONE, 0xfe00, 0xffffff); }
/* br_table with n + 1 branches, followed by another instruction */
static void brtable(unsigned n, u32 mask)
{
  INA(u32, l, 5); static inscode_t ic[8]; icbuf_t cb; unsigned i;
  for (i = 0; i < 8; ++i) { ic[i].in = IN_BR; ic[i].id = 0; ic[i].arg.u = i > 0 && i < 6 ? in_l[i-1] & mask : 0; ic[i].arg2.u = 0; }
  ic[0].in = IN_BR_TABLE; ic[0].arg.u = n; ic[n + 2].in = IN_END;
  cb.esz = sizeof(inscode_t); cb.end = 8; cb.fill = n + 3; cb.buf = ic;
  start(); wasm_expr(&cb);
  CHECK("opcode", d_byte() == 0x0e); CHECK("label count (without the default)", d_u(32) == n);
  for (i = 0; i <= n; ++i) CHECK("label", d_u(32) == (in_l[i] & mask));
  CHECK("next instruction", d_byte() == 0x0b);
  DONE("br_table"); REACH("end");
}
void h_brtable_0(void) { brtable(0, ~0u); } void h_brtable_1(void) { brtable(1, ~0u); } void h_brtable_4(void) { brtable(4, 0x7f); }
/* a section: id, byte length of what follows, element count, contents -- for contents of any length */
void h_section(void)
{
  IN(unsigned, id); IN(u32, cnt); IN(u32, len); cbuf_t *pb; u64 size; unsigned mark;
  ASSUME(in_len >= 13 && in_len < 0x40000000u && (in_cnt <= in_len) && in_id < 13);
  start(); wasm_section_start((secid_t)in_id);
  CHECK("section output is buffered", g_curbuf != NULL && g_curbuf == g_sectbuf);
  pb = g_sectbuf; pb->buf = malloc(in_len + 1u); ASSUME(pb->buf != NULL); pb->fill = in_len; pb->end = in_len + 1u;
  { void *cont = pb->buf;
  g_sectcnt = in_cnt;
  wasm_section_end();
  CHECK("section output ends", g_curbuf == NULL && g_sectbuf == NULL);
  CHECK("section id", d_byte() == in_id);
  size = d_u(32); mark = dp;
  if (in_cnt) {
    CHECK("element count precedes the contents", d_u(32) == in_cnt && dp == on);
    CHECK("contents written once", bw_c == 2 && bw_p[1] == cont && bw_n[1] == in_len && bw_at[1] == on);
    CHECK("section length is the number of bytes that follow", size == (u64)(dp - mark) + in_len);
  } else {
    CHECK("contents written once", bw_c == 1 && bw_p[0] == cont && bw_n[0] == in_len && bw_at[0] == on);
    CHECK("section length is the number of bytes that follow", size == in_len && dp == on);
  } }
  CHECK("nothing else", !d_bad && !o_over);
  REACH("end");
}
/* a function body: byte length of what follows, contents */
void h_code(void)
{
  IN(u32, len); INA(char, d, 16); cbuf_t sb; static char sd[64]; unsigned i; u64 n;
  ASSUME(in_len <= 16); start();
  sb.esz = 1; sb.end = 64; sb.fill = 0; sb.buf = sd; g_sectbuf = g_curbuf = &sb; g_codebuf = NULL;
  wasm_code_start();
  CHECK("code output is buffered", g_curbuf != NULL && g_curbuf != &sb && g_curbuf == g_codebuf);
  g_codebuf->buf = malloc(17); ASSUME(g_codebuf->buf != NULL); g_codebuf->end = 17; g_codebuf->fill = in_len;
  for (i = 0; i < 16; ++i) ((char*)g_codebuf->buf)[i] = in_d[i];
  wasm_code_end();
  CHECK("section output resumes", g_curbuf == &sb && g_codebuf == NULL && on == 0);
  for (i = 0; i < 64; ++i) o[i] = sd[i]; on = (unsigned)sb.fill;
  CHECK("body length", d_u(32) == in_len);
  for (i = 0; i < 16; ++i) if (i < in_len) CHECK("body bytes", (char)d_byte() == in_d[i]);
  DONE("function body"); REACH("end");
}
