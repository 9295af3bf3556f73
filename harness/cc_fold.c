/* contracts: constant evaluation in c.c (numval_*, static_eval) against the run-time arithmetic (csem.h) */
#include "repo_pre.h"
#include "csem.h"
#ifndef DOM
#define DOM
#endif
#if !defined(OP) && !defined(ABSOPS)
#define OP 0
#endif

/* obligations of numval_convert: the value the run-time conversion yields (unconstrained where that traps) */
static int convert_post(ts_t to, ts_t fr, u64 old, u64 nw)
{ int undef; sval r = sp_conv(to, fr, sv_u(old), &undef); return sp_valid(to, nw) && (undef || sp_same(to, r, sv_u(nw))); }
#if defined(ABSCONV) && defined(VF_PROVE)
/* caller's view of numval_convert: its result is a function of (to, from, value) and canonical. This follows from
   the contract below, which is enforced by the convert.* jobs (it fixes the result up to the payload of a NaN). */
u64 __CPROVER_uninterpreted_conv(ts_t to, ts_t fr, u64 v);
static sval cv(ts_t to, ts_t fr, sval v, int *undef) { *undef = 0; return to == fr ? v : sv_u(__CPROVER_uninterpreted_conv(to, fr, v.u)); }
static void numval_convert(ts_t tsto, ts_t tsfrom, numval_t *pnv)
  REQUIRES(sp_isnum(tsto) && sp_isnum(tsfrom) && sp_valid(tsfrom, pnv->u) && (sp_isflt(tsto) || tsto == TS_BOOL || sp_isint(tsfrom)))
  ENSURES(tsto == tsfrom ? pnv->u == OLD(pnv->u) : pnv->u == __CPROVER_uninterpreted_conv(tsto, tsfrom, OLD(pnv->u)))
  ENSURES(sp_valid(tsto, pnv->u)) ASSIGNS(*pnv);
#else
#define cv sp_conv
static void numval_convert(ts_t tsto, ts_t tsfrom, numval_t *pnv)
  REQUIRES(sp_isnum(tsto) && sp_isnum(tsfrom) && sp_valid(tsfrom, pnv->u))
  ENSURES(convert_post(tsto, tsfrom, OLD(pnv->u), pnv->u)) ASSIGNS(*pnv);
#endif

#if defined(ABSOPS) && defined(VF_PROVE)
/* static_eval's view of the operators: their result is a function of operator, types and values (what function:
   the contracts below, enforced by the unop.* and binop.* jobs) */
ts_t __CPROVER_uninterpreted_ut(tt_t op, ts_t tx, u64 x); u64 __CPROVER_uninterpreted_uv(tt_t op, ts_t tx, u64 x);
ts_t __CPROVER_uninterpreted_bt(tt_t op, ts_t tx, u64 x, ts_t ty, u64 y); u64 __CPROVER_uninterpreted_bv(tt_t op, ts_t tx, u64 x, ts_t ty, u64 y);
#define UT __CPROVER_uninterpreted_ut
#define UV __CPROVER_uninterpreted_uv
#define BT __CPROVER_uninterpreted_bt
#define BV __CPROVER_uninterpreted_bv
static ts_t numval_unop(tt_t op, ts_t tx, const numval_t *pvx, numval_t *pvz) REQUIRES(sp_isnum(tx) && sp_valid(tx, pvx->u))
  ENSURES(RET == UT(op, tx, pvx->u) && pvz->u == UV(op, tx, pvx->u)) ASSIGNS(*pvz);
static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const numval_t *pvy, numval_t *pvz)
  REQUIRES(sp_isnum(tx) && sp_isnum(ty) && sp_valid(tx, pvx->u) && sp_valid(ty, pvy->u))
  ENSURES(RET == BT(op, tx, pvx->u, ty, pvy->u) && pvz->u == BV(op, tx, pvx->u, ty, pvy->u)) ASSIGNS(*pvz);
static int unop_post(tt_t op, ts_t tx, u64 x, ts_t tz, u64 z) { return tz == UT(op, tx, x) && (tz == TS_VOID || z == UV(op, tx, x)); }
static int binop_post(tt_t op, ts_t tx, u64 x, ts_t ty, u64 y, ts_t tz, u64 z) { return tz == BT(op, tx, x, ty, y) && (tz == TS_VOID || z == BV(op, tx, x, ty, y)); }
#else
static int unop_post(tt_t op, ts_t tx, u64 x, ts_t tz, u64 z)
{
  int undef; ts_t rt, tp = sp_promote(tx); sval r = sp_unary(op, tp, cv(tp, tx, sv_u(x), &undef), &rt);
  return tz == TS_VOID ? rt == TS_VOID : (tz == rt && sp_same(rt, r, sv_u(z)));
}
static ts_t numval_unop(tt_t op, ts_t tx, const numval_t *pvx, numval_t *pvz)
  REQUIRES(sp_isnum(tx) && sp_valid(tx, pvx->u))
  ENSURES(unop_post(op, tx, pvx->u, RET, pvz->u)) ASSIGNS(*pvz);

static int binop_post(tt_t op, ts_t tx, u64 x, ts_t ty, u64 y, ts_t tz, u64 z)
{
  int ux, uy, undef; ts_t rt, t = sp_common(tx, ty);
  sval a = cv(t, tx, sv_u(x), &ux), b = cv(t, ty, sv_u(y), &uy);
  sval r = sp_arith(op, t, a, b, &rt, &undef);
  if (tz == TS_VOID) /* not folded: only when there is no value to fold to */
    return rt == TS_VOID || undef || (op == TT_SLASH && sp_isflt(t) && (t == TS_FLOAT ? b.f == 0 : b.d == 0));
  return !undef && tz == rt && sp_same(rt, r, sv_u(z));
}
static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const numval_t *pvy, numval_t *pvz)
  REQUIRES(sp_isnum(tx) && sp_isnum(ty) && sp_valid(tx, pvx->u) && sp_valid(ty, pvy->u))
  ENSURES(binop_post(op, tx, pvx->u, ty, pvy->u, RET, pvz->u)) ASSIGNS(*pvz);
#endif

#ifdef RECCONTRACT
/* static_eval proved by induction on the expression: recursive calls are replaced by this contract (the value of a
   subtree is (ts, val) of the literal node standing for it), the top call is checked against it */
static node_t t_n[3], t_pn;
static int top_post(bool ok, const seval_t *pr);
bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
  REQUIRES(pn == &t_n[0] || pn == &t_n[1] || pn == &t_n[2] || pn == &t_pn)
  ENSURES(pn != &t_pn ==> (RET && pr->ts == pn->ts && pr->val.u == pn->val.u && pr->id == 0))
  ENSURES(pn == &t_pn ==> top_post(RET, pr)) ASSIGNS(*pr);
#endif
#include "c.c"

void h_convert(void)
{
  IN(ts_t, fr); IN(ts_t, to); IN(u64, v); numval_t nv;
  ASSUME(sp_isnum(in_fr) && sp_isnum(in_to));
#ifdef TO
  ASSUME(in_to == TO);
#endif
  ASSUME(sp_valid(in_fr, in_v)); nv.u = in_v;
  numval_convert(in_to, in_fr, &nv);
  NCHECK("constant conversion yields the value of the run-time conversion", convert_post(in_to, in_fr, in_v, nv.u));
  REACH("end");
}
#ifndef ABSOPS
void h_unop(void)
{
  IN(ts_t, tx); IN(u64, x); ts_t tz; numval_t vx, vz;
  ASSUME(sp_isnum(in_tx) && sp_valid(in_tx, in_x)); vx.u = in_x; vz.u = 0;
  tz = numval_unop(OP, in_tx, &vx, &vz);
  NCHECK("folded unary operator yields the run-time value", unop_post(OP, in_tx, in_x, tz, vz.u));
  REACH("end");
}
#ifndef TX
#define TX in_tx
#endif
#ifndef TY
#define TY in_ty
#endif
void h_binop(void)
{
  IN(ts_t, tx); IN(ts_t, ty); IN(u64, x); IN(u64, y); ts_t tz; numval_t vx, vy, vz;
  ASSUME(sp_isnum(in_tx) && sp_isnum(in_ty)); ASSUME(in_tx == TX && in_ty == TY); DOM
  ASSUME(sp_valid(TX, in_x) && sp_valid(TY, in_y));
  vx.u = in_x; vy.u = in_y; vz.u = 0;
  tz = numval_binop(OP, TX, &vx, TY, &vy, &vz);
  NCHECK("folded binary operator yields the run-time value", binop_post(OP, TX, in_x, TY, in_y, tz, vz.u));
  REACH("end");
}

#endif
/* ---- static_eval: the structural induction step. A node whose subtrees are literals of any arithmetic type and
 * value (what evaluated subtrees amount to) evaluates to the run-time value of the operator on those values. */
#ifndef RECCONTRACT
static node_t t_n[3], t_pn;
#endif
static void leaf(int i, ts_t ts, u64 v) { t_n[i].nt = NT_LITERAL; t_n[i].ts = ts; t_n[i].val.u = v; }
static node_t *tree(nt_t nt, tt_t op, int cnt)
{
  t_pn.nt = nt; t_pn.op = op; t_pn.body.esz = sizeof(node_t); t_pn.body.buf = t_n; t_pn.body.fill = t_pn.body.end = cnt;
  return &t_pn;
}
#ifdef ABSOPS
#define SYMOP IN(tt_t, op);
#define OP in_op
#else
#define SYMOP
#endif
#define LEAF(T) (sp_isnum(T) && (T) != TS_ENUM)
void h_sprefix(void)
{
  IN(ts_t, tx); IN(u64, x); seval_t r; bool ok;
  ASSUME(LEAF(in_tx) && sp_valid(in_tx, in_x));
  SYMOP leaf(0, in_tx, in_x); r.ts = TS_VOID; r.val.u = 0; r.id = 7;
  ok = static_eval(tree(NT_PREFIX, OP, 1), NULL, &r);
  CHECK("evaluated prefix expression is the run-time value", unop_post(OP, in_tx, in_x, ok ? r.ts : TS_VOID, r.val.u));
  CHECK("no symbol in an arithmetic value", !ok || r.id == 0);
  REACH("end");
}
void h_sinfix(void)
{
  IN(ts_t, tx); IN(u64, x); IN(ts_t, ty); IN(u64, y); seval_t r; bool ok;
  ASSUME(LEAF(in_tx) && sp_valid(in_tx, in_x) && LEAF(in_ty) && sp_valid(in_ty, in_y)); DOM
  SYMOP leaf(0, in_tx, in_x); leaf(1, in_ty, in_y); r.ts = TS_VOID; r.val.u = 0; r.id = 7;
  ok = static_eval(tree(NT_INFIX, OP, 2), NULL, &r);
  CHECK("evaluated infix expression is the run-time value", binop_post(OP, in_tx, in_x, in_ty, in_y, ok ? r.ts : TS_VOID, r.val.u));
  CHECK("no symbol in an arithmetic value", !ok || r.id == 0);
  REACH("end");
}
#ifdef RECCONTRACT
void h_sleaf(void)
{
  IN(ts_t, tx); IN(u64, x); seval_t r; bool ok;
  ASSUME(LEAF(in_tx) && sp_valid(in_tx, in_x)); leaf(0, in_tx, in_x); r.id = 7;
  ok = static_eval(&t_n[0], NULL, &r);
  NCHECK("a literal evaluates to itself", ok && r.ts == in_tx && r.val.u == in_x && r.id == 0);
  REACH("end");
}
#endif
void h_scast(void)
{
  IN(ts_t, tc); IN(ts_t, tx); IN(u64, x); seval_t r; bool ok;
  ASSUME(LEAF(in_tc) && LEAF(in_tx) && sp_valid(in_tx, in_x));
#ifdef TO
  ASSUME(in_tc == TO);
#endif
  leaf(1, in_tx, in_x); t_n[0].nt = NT_TYPE; t_n[0].ts = in_tc; r.ts = TS_VOID; r.val.u = 0; r.id = 7;
  ok = static_eval(tree(NT_CAST, 0, 2), NULL, &r);
  CHECK("evaluated cast is the run-time conversion", ok && r.ts == in_tc && r.id == 0 && convert_post(in_tc, in_tx, in_x, r.val.u));
  REACH("end");
}
static int top_post(bool ok, const seval_t *pr) /* for ?: on the literals t_n[0..2] */
{
  int undef; sval e; ts_t t = sp_common(t_n[1].ts, t_n[2].ts);
  if (cv(TS_BOOL, t_n[0].ts, sv_u(t_n[0].val.u), &undef).u) e = cv(t, t_n[1].ts, sv_u(t_n[1].val.u), &undef);
  else e = cv(t, t_n[2].ts, sv_u(t_n[2].val.u), &undef);
  return !ok || (pr->ts == t && sp_same(t, e, sv_u(pr->val.u)) && pr->id == 0);
}
void h_scond(void)
{
  IN(ts_t, tc); IN(u64, c); IN(ts_t, tx); IN(u64, x); IN(ts_t, ty); IN(u64, y); seval_t r; bool ok;
  ASSUME(LEAF(in_tc) && sp_valid(in_tc, in_c) && LEAF(in_tx) && sp_valid(in_tx, in_x) && LEAF(in_ty) && sp_valid(in_ty, in_y));
  leaf(0, in_tc, in_c); leaf(1, in_tx, in_x); leaf(2, in_ty, in_y); r.ts = TS_VOID; r.val.u = 0; r.id = 7;
  ok = static_eval(tree(NT_COND, 0, 3), NULL, &r);
  CHECK("evaluated ?: selects by comparison with zero and converts to the common type", top_post(ok, &r));
  CHECK("literal branches are evaluated", ok);
  REACH("end");
}
/* value of a test: static_assert, ?: */
void h_stest(void)
{
  IN(ts_t, tx); IN(u64, x); int b = 7, undef; bool ok;
  ASSUME(LEAF(in_tx) && sp_valid(in_tx, in_x)); leaf(0, in_tx, in_x);
  t_n[1].nt = NT_NULL;
  ok = arithmetic_eval_to_int(&t_n[0], NULL, &b);
  CHECK("integer value of a constant", ok && (sp_conv(TS_INT, in_tx, sv_u(in_x), &undef).u == (u64)(i64)b || undef));
  REACH("end");
}
/* (void*)0 and ! on pointers: only the null constant is zero */
void h_snull(void)
{
  IN(sym_t, id); IN(i64, off); seval_t r; bool ok;
  static node_t tn[1], vt[1], sn[2];
  vt[0].nt = NT_TYPE; vt[0].ts = TS_VOID;
  tn[0].nt = NT_TYPE; tn[0].ts = TS_PTR; tn[0].body.esz = sizeof(node_t); tn[0].body.buf = vt; tn[0].body.fill = tn[0].body.end = 1;
  sn[0] = tn[0]; sn[1].nt = NT_LITERAL; sn[1].ts = TS_INT; sn[1].val.i = 0;
  t_n[0].nt = NT_CAST; t_n[0].body.esz = sizeof(node_t); t_n[0].body.buf = sn; t_n[0].body.fill = t_n[0].body.end = 2;
  r.id = 7;
  ok = static_eval(tree(NT_PREFIX, TT_NOT, 1), NULL, &r);
  CHECK("!NULL is 1", !ok || (r.ts == TS_INT && r.val.i == 1 && r.id == 0));
  t_n[0].nt = NT_PREFIX; t_n[0].op = TT_AND; t_n[0].body.fill = 1; sn[0].nt = NT_IDENTIFIER; sn[0].name = in_id; ASSUME(in_id > 0);
  ok = static_eval(tree(NT_PREFIX, TT_NOT, 1), NULL, &r);
  CHECK("!&object is 0", !ok || (r.ts == TS_INT && r.val.i == 0 && r.id == 0));
  REACH("end");
}
