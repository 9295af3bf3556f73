/* contracts: the instruction name table (w.c) against the instruction set of an independent assembler.
   The dictionary behind name_instr is abstracted by its own contract (proved for C12): intern() is injective on
   names, bufnewbk appends an element, bufbsearch after bufqsort finds an element with the given key if there is one. */
#include "repo_pre.h"
typedef unsigned int u32;
#define TMAX 512
#define BK 61
static int head[BK], nxt[TMAX]; /* buckets: nxt and head hold index + 1 */
static int tabk[TMAX], tabv[TMAX], slot[2], res[2]; static int tn, t_over, t_sorted, t_dup, t_open;
static void commit(void) { if (t_open) { if (tn >= TMAX) t_over = 1; else { tabk[tn] = slot[0]; tabv[tn] = slot[1]; nxt[tn] = head[(unsigned)slot[0] % BK]; ++tn; head[(unsigned)slot[0] % BK] = tn; } } t_open = 0; }
static unsigned hsym(const char *s) { unsigned v = 7; while (*s) v = v * 31 + (unsigned char)*s++; return v; } /* injective on the names used (checked by the generator) */
static sym_t vf_intern(const char *s) { return (sym_t)hsym(s); }
static void *vf_bufnewbk(buf_t *b) { commit(); t_sorted = 0; t_open = 1; return slot; }
static void vf_bufqsort(buf_t *b, int (*cmp)(const void *, const void *)) { commit(); t_sorted = 1; }
static void *vf_bufbsearch(const buf_t *b, const void *p, int (*cmp)(const void *, const void *))
{ int i, k = *(const int*)p, f = 0; CHECK("table is sorted before it is searched", t_sorted);
  for (i = head[(unsigned)k % BK]; i; i = nxt[i-1]) if (tabk[i-1] == k) { res[0] = k; res[1] = tabv[i-1]; f = 1; ++t_dup; }
  return f ? res : NULL; }
#define intern vf_intern
#define bufnewbk vf_bufnewbk
#define bufqsort vf_bufqsort
#define bufbsearch vf_bufbsearch
#include "w.c"
#undef intern
#undef bufnewbk
#undef bufqsort
#undef bufbsearch
static int eqs(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return *a == *b; }
static void one(u32 c, const char *n)
{
  const char *s = instr_name((instr_t)c);
  CHECK("instruction code has the standard name", s != NULL && eqs(s, n));
  t_dup = 0;
  CHECK("standard name denotes the instruction code", name_instr(n) == (instr_t)c && t_dup == 1 && !t_over);
}
static void range(u32 lo, u32 hi)
{
#define OPC(c, n, k) if ((c) >= lo && (c) <= hi) one(c, n);
#include "opcodes.h"
#undef OPC
  REACH("end");
}
#define R(i, lo, hi) void h_names_##i(void) { range(lo, hi); }
R(0, 0, 0x3f) R(1, 0x40, 0x7f) R(2, 0x80, 0xbf) R(3, 0xc0, 0xfcff) R(4, 0xfd00, 0xfd3f) R(5, 0xfd40, 0xfd8f) R(6, 0xfd90, 0xfdcf) R(7, 0xfdd0, 0xffffff)
/* every other name in the dictionary is one of the two internal pseudo-instructions: no foreign name is accepted */
void h_total(void)
{
  int i, n = 0, bad = 0; name_instr("nop");
#define OPC(c, nm, k) ++n;
#include "opcodes.h"
#undef OPC
  CHECK("no names beyond the instruction set and two internal ones", tn == n + 2 && !t_over);
  CHECK("internal pseudo-instructions", name_instr("ref.data") == IN_REF_DATA && name_instr("data.put_ref") == IN_DATA_PUT_REF);
  CHECK("unknown name is rejected", name_instr("no.such.instruction") == IN_PLACEHOLDER);
  REACH("end");
}
/* immediates: the kind the writers and parsers use for each instruction */
enum { K_NONE = 1, K_BT, K_U32, K_U32X2, K_BRT, K_VTVEC, K_MEMARG, K_Z1, K_Z2, K_S32, K_S64, K_F32, K_F64, K_HT, K_MEMINIT, K_B16, K_LANES, K_LANE, K_MEMLANE };
static int sig_ok(insig_t s, int k, u32 c)
{
  switch (k) {
    case K_NONE: case K_Z1: case K_Z2: return s == INSIG_NONE;
    case K_BT: return s == INSIG_BT;
    case K_U32: return s == INSIG_L || s == INSIG_XL || s == INSIG_XG || s == INSIG_XT || s == INSIG_RF;
    case K_U32X2: return s == INSIG_X_Y || s == INSIG_CI;
    case K_BRT: return s == INSIG_LS_L;
    case K_VTVEC: case K_HT: return s == INSIG_T;
    case K_MEMARG: return s == INSIG_MEMARG;
    case K_S32: return s == INSIG_I32; case K_S64: return s == INSIG_I64;
    case K_F32: return s == INSIG_F32; case K_F64: return s == INSIG_F64;
    case K_MEMINIT: return s == INSIG_XT; case K_B16: return s == INSIG_I128;
    case K_LANES: return s == INSIG_LANEIDX16; case K_LANE: return s == INSIG_LANEIDX; case K_MEMLANE: return s == INSIG_MEMARG_LANEIDX;
  }
  return 0;
}
void h_sig(void)
{
#define OPC(c, n, k) CHECK("immediates of " n, sig_ok(instr_sig((instr_t)(c)), k, c));
#include "opcodes.h"
#undef OPC
  REACH("end");
}
void h_valtype(void)
{
  CHECK("value type names", eqs(valtype_name(VT_I32), "i32") && eqs(valtype_name(VT_I64), "i64") && eqs(valtype_name(VT_F32), "f32") && eqs(valtype_name(VT_F64), "f64") &&
    eqs(valtype_name(VT_V128), "v128") && eqs(valtype_name(RT_FUNCREF), "funcref") && eqs(valtype_name(RT_EXTERNREF), "externref"));
  CHECK("value type codes", VT_I32 == 0x7f && VT_I64 == 0x7e && VT_F32 == 0x7d && VT_F64 == 0x7c && VT_V128 == 0x7b && RT_FUNCREF == 0x70 && RT_EXTERNREF == 0x6f && BT_VOID == 0x40);
  REACH("end");
}
