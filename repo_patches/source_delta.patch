From 36b50ef4cfccabcd02ade175e22d3fb0d0531743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 01/15] fix: iscntrl is true only for control characters (not
 for EOF and 128..255)

---
 lib/src/ctype.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ctype.c b/lib/src/ctype.c
index 4b7cab3..5c53dd2 100644
--- a/lib/src/ctype.c
+++ b/lib/src/ctype.c
@@ -12,7 +12,7 @@ int isalpha(int c)
 
 int iscntrl(int c)
 {
-  return !isprint(c);
+  return (c >= 0 && c < ' ') || c == 0x7f;
 }
 
 int isdigit(int c)
-- 
2.43.0


From a9a80b8f4deef184ddea7beaa6968428c8f9197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 02/15] fix: isspace recognizes vertical tab and form feed

---
 lib/src/ctype.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ctype.c b/lib/src/ctype.c
index 5c53dd2..a2daf76 100644
--- a/lib/src/ctype.c
+++ b/lib/src/ctype.c
@@ -42,7 +42,7 @@ int ispunct(int c)
 
 int isspace(int c)
 {
-  return c == ' ' || c == '\n' || c == '\t' || c == '\r';
+  return c == ' ' || (c >= '\t' && c <= '\r');
 }
 
 int isupper(int c)
-- 
2.43.0


From 316bf0882f29da047f941d26d7ed936937dde83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 03/15] fix: constant conversion of floats to narrow integer
 types truncates to the target width

---
 c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 203f0e5..92df17d 100644
--- a/c.c
+++ b/c.c
@@ -280,11 +280,11 @@ static void numval_convert(ts_t tsto, ts_t tsfrom, numval_t *pnv)
   } else if (ts_unsigned(tsto)) {
     if (tsfrom == TS_DOUBLE) pnv->u = (unsigned long long)pnv->d;
     else if (tsfrom == TS_FLOAT) pnv->u = (unsigned long long)pnv->f;
-    else pnv->u = integral_mask(tsto, pnv->u); /* i reinterpreted as u */
+    pnv->u = integral_mask(tsto, pnv->u); /* i reinterpreted as u */
   } else { /* signed integer */
     if (tsfrom == TS_DOUBLE) pnv->i = (long long)pnv->d;
     else if (tsfrom == TS_FLOAT) pnv->i = (long long)pnv->f;
-    else pnv->i = integral_sext(tsto, pnv->i); /* u reinterpreted as i */
+    pnv->i = integral_sext(tsto, pnv->i); /* u reinterpreted as i */
   }
 }
 
-- 
2.43.0


From 0c7576c1cb612af540e5325579fad6c913851a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 04/15] fix: constant folding of shifts and of division by -1
 follows the run-time instructions

---
 c.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/c.c b/c.c
index 92df17d..f738b1a 100644
--- a/c.c
+++ b/c.c
@@ -377,6 +377,19 @@ static ts_t numval_unop(tt_t op, ts_t tx, const numval_t *pvx, numval_t *pvz)
   return tz;
 }  
 
+/* integer division of x by y traps at run time (the quotient doesn't exist) */
+static bool integral_div_traps(ts_t tz, long long x, long long y)
+{
+  if (y == -1) return x == (tz == TS_LLONG ? LLONG_MIN : INT_MIN); /* wasm32 */
+  return y == 0;
+}
+
+/* effective shift count: like in wasm, modulo the width of the operands */
+static int integral_shift_count(ts_t tz, unsigned long long y)
+{
+  return (int)(y & (tz == TS_LLONG || tz == TS_ULLONG ? 63 : 31)); /* wasm32 */
+}
+
 /* binary operation between two numbers */
 static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const numval_t *pvy, numval_t *pvz)
 {
@@ -427,8 +440,8 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_XOR:   pvz->u = integral_mask(tz, x ^ y); break;
         case TT_SLASH: if (y) pvz->u = integral_mask(tz, x / y); else tz = TS_VOID; break;
         case TT_REM:   if (y) pvz->u = integral_mask(tz, x % y); else tz = TS_VOID; break;
-        case TT_SHL:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x << y); break;
-        case TT_SHR:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x >> y); break;
+        case TT_SHL:   pvz->u = integral_mask(tz, x << integral_shift_count(tz, y)); break;
+        case TT_SHR:   pvz->u = integral_mask(tz, x >> integral_shift_count(tz, y)); break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
         case TT_NE:    pvz->i = x != y; tz = TS_INT; break;
         case TT_LT:    pvz->i = x < y;  tz = TS_INT; break;
@@ -447,10 +460,10 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_AND:   pvz->i = integral_sext(tz, x & y); break;
         case TT_OR:    pvz->i = integral_sext(tz, x | y); break;
         case TT_XOR:   pvz->i = integral_sext(tz, x ^ y); break;
-        case TT_SLASH: if (y) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
-        case TT_REM:   if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
-        case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x << y); break;
-        case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); break;
+        case TT_SLASH: if (!integral_div_traps(tz, x, y)) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
+        case TT_REM:   if (y == -1) pvz->i = 0; else if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
+        case TT_SHL:   pvz->i = integral_sext(tz, x << integral_shift_count(tz, y)); break;
+        case TT_SHR:   pvz->i = integral_sext(tz, x >> integral_shift_count(tz, y)); break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
         case TT_NE:    pvz->i = x != y; tz = TS_INT; break;
         case TT_LT:    pvz->i = x < y;  tz = TS_INT; break;
-- 
2.43.0


From f887bd5dbba9d034cf8ca7d236f571d5b0e02af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 05/15] fix: constant folding of ?: compares the test with zero
 in its own type and yields the common type of the branches; !NULL is 1

---
 c.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/c.c b/c.c
index f738b1a..fa9d082 100644
--- a/c.c
+++ b/c.c
@@ -788,6 +788,9 @@ static sym_t intern_strlit(node_t *pn)
   return pn->name;
 }
 
+/* evaluate test pn statically, putting 0 or 1 into pri (see below) */
+static bool arithmetic_eval_to_bool(node_t *pn, buf_t *prib, int *pri);
+
 /* evaluate pn expression statically, putting result into pr */
 bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
 {
@@ -915,7 +918,7 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
           numval_t vz; ts_t tz = numval_unop(pn->op, rx.ts, &rx.val, &vz);
           if (tz != TS_VOID) { pr->ts = tz; pr->val = vz; ok = true; }
         } else if (rx.ts == TS_PTR && pn->op == TT_NOT) {
-          pr->ts = TS_INT; pr->val.i = 0; ok = true; /* dseg ptr != NULL */
+          pr->ts = TS_INT; pr->val.i = !rx.id && !rx.val.i; ok = true; /* dseg ptr != NULL */
         }
       }
       return ok;
@@ -950,11 +953,17 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
       return ok;
     } break;
     case NT_COND: {
-      seval_t r; bool ok = false; int cond;
+      seval_t r, rx; bool ok = false; int cond;
       assert(ndlen(pn) == 3);
-      if (arithmetic_eval_to_int(ndref(pn, 0), prib, &cond)) {
-        if (cond) ok = static_eval(ndref(pn, 1), prib, &r);
-        else ok = static_eval(ndref(pn, 2), prib, &r);
+      if (arithmetic_eval_to_bool(ndref(pn, 0), prib, &cond)) {
+        ok = static_eval(ndref(pn, cond ? 1 : 2), prib, &r);
+        if (ok && ts_numerical(r.ts)) { /* result has common type of both branches */
+          ok = static_eval(ndref(pn, cond ? 2 : 1), prib, &rx);
+          if (ok && ts_numerical(rx.ts)) {
+            ts_t tc = ts_arith_common(r.ts, rx.ts);
+            numval_convert(tc, r.ts, &r.val); r.ts = tc;
+          } 
+        }
         if (ok) *pr = r; /* can be num or ptr! */
       } 
       return ok;
@@ -991,6 +1000,18 @@ bool arithmetic_eval_to_int(node_t *pn, buf_t *prib, int *pri)
   return ok;
 }
 
+/* evaluate test pn statically, putting 0 or 1 into pri */
+static bool arithmetic_eval_to_bool(node_t *pn, buf_t *prib, int *pri)
+{
+  seval_t r; bool ok = false;
+  if (static_eval(pn, prib, &r) && ts_numerical(r.ts)) {
+    numval_convert(TS_BOOL, r.ts, &r.val);
+    *pri = (int)r.val.i;
+    ok = true;
+  }
+  return ok;
+}
+
 /* calculate effective ts for v128's boolean */
 static ts_t v128_int_ts_for_bool(int cnt)
 {
@@ -1025,7 +1046,7 @@ static void check_static_assert(node_t *pn, buf_t *prib)
     pen = ndref(pn, 0), psn = ndlen(pn) == 2 ? ndref(pn, 1) : NULL;
     if (psn && (psn->nt != NT_LITERAL || psn->ts != TS_STRING))
       neprintf(pn, "unexpected 2nd arg of static_assert (string literal expected)");
-    if (!arithmetic_eval_to_int(pen, prib, &res))
+    if (!arithmetic_eval_to_bool(pen, prib, &res))
       n2eprintf(pen, pn, "unexpected lhs of static_assert comparison (static test expected)");
     if (res == 0) {
       if (!psn) neprintf(pn, "static_assert failed");
-- 
2.43.0


From 9b0ef31359311ce3c79a9fd9ca85dff24fb1b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:37 +0000
Subject: [PATCH 06/15] fix: conversion of float to _Bool compares with zero
 instead of emitting no code

---
 c.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c.c b/c.c
index fa9d082..214d7e5 100644
--- a/c.c
+++ b/c.c
@@ -2393,6 +2393,11 @@ static void asm_numerical_cast(ts_t tsto, ts_t tsfrom, icbuf_t *pdata)
           icbnewbk(pdata)->in = IN_F64_NE; /* i.e. x != 0.0 */
           return;
         } break;
+        case TS_FLOAT: { 
+          inscode_t *pic = icbnewbk(pdata); pic->in = IN_F32_CONST; pic->arg.f = 0.0f;
+          icbnewbk(pdata)->in = IN_F32_NE; /* i.e. x != 0.0f */
+          return;
+        } break;
         case TS_CHAR:  case TS_SHORT:  case TS_INT:  case TS_LONG:/* wasm32 */ 
         case TS_UCHAR: case TS_USHORT: case TS_UINT: case TS_ULONG:/* wasm32 */ {
           /* these are all ints, we need to compare to zero and negate */
-- 
2.43.0


From 6eec3e5c1f25483c62d9dfb99e07b6c2e2a538ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 07/15] fix: i32.const operand is encoded as a signed 32-bit
 value

---
 w.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/w.c b/w.c
index 1234fc5..c914839 100644
--- a/w.c
+++ b/w.c
@@ -372,7 +372,10 @@ static void wasm_expr(icbuf_t *pcb)
           default:;
         }
         break;
-      case INSIG_I32: case INSIG_I64:
+      case INSIG_I32: /* only the low 32 bits are encoded, as a signed value */
+        wasm_signed(pic->arg.i << 32 >> 32);
+        break;
+      case INSIG_I64:
         wasm_signed(pic->arg.i); 
         break;
       case INSIG_X_Y: case INSIG_CI:
-- 
2.43.0


From 7528038ba5849c6bb7ae52f7cabe77ae0a05051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 08/15] fix: typed select is encoded with a vector of one type

---
 w.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/w.c b/w.c
index c914839..729530a 100644
--- a/w.c
+++ b/w.c
@@ -361,6 +361,7 @@ static void wasm_expr(icbuf_t *pcb)
       case INSIG_BT:  case INSIG_L:   
       case INSIG_XL:  case INSIG_XG:
       case INSIG_T:   case INSIG_RF:
+        if (pic->in == IN_SELECT_T) wasm_unsigned(1); /* a vector of one type */
         wasm_unsigned(pic->arg.u); 
         break;
       case INSIG_XT:
-- 
2.43.0


From d6ae802e85d96c63aed59b71a0713ba1607f732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:13 +0000
Subject: [PATCH 09/15] fix: v128.load32_zero and v128.load64_zero take no lane
 index

---
 lib/include/wasm_simd128.h | 4 ++--
 w.c                        | 2 +-
 w.h                        | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/include/wasm_simd128.h b/lib/include/wasm_simd128.h
index e6a7e4f..62e8885 100644
--- a/lib/include/wasm_simd128.h
+++ b/lib/include/wasm_simd128.h
@@ -39,10 +39,10 @@
 #define wasm_u64x2_load32x2(p) ((v128_t(*)(const void*))asm(v128.load32x2_u offset=0 align=4)(p))
 
 /* v128_t wasm_v128_load32_zero(const void *p); -- loads lane 0 only? */
-#define wasm_v128_load32_zero(p) ((v128_t(*)(int32_t))asm(v128.load32_zero offset=0 align=4 0)(p))
+#define wasm_v128_load32_zero(p) ((v128_t(*)(int32_t))asm(v128.load32_zero offset=0 align=4)(p))
 
 /* v128_t wasm_v128_load64_zero(const void *p); -- loads lane 0 only? */
-#define wasm_v128_load64_zero(p) ((v128_t(*)(int32_t))asm(v128.load64_zero offset=0 align=8 0)(p))
+#define wasm_v128_load64_zero(p) ((v128_t(*)(int32_t))asm(v128.load64_zero offset=0 align=8)(p))
 
 /* v128_t wasm_v128_load8_lane(const void *p, v128_t v, int i) __REQUIRE_CONSTANT(i); */
 #define wasm_v128_load8_lane(p, v, i) ((v128_t(*)(const void*, v128_t))asm(v128.load8_lane offset=0 align=1 i)(p, v))
diff --git a/w.c b/w.c
index 729530a..435b7cb 100644
--- a/w.c
+++ b/w.c
@@ -1699,6 +1699,7 @@ insig_t instr_sig(instr_t in)
     case IN_V128_LOAD32X2_S:      case IN_V128_LOAD32X2_U:
     case IN_V128_LOAD8_SPLAT:     case IN_V128_LOAD16_SPLAT:
     case IN_V128_LOAD32_SPLAT:    case IN_V128_LOAD64_SPLAT:
+    case IN_V128_LOAD32_ZERO:     case IN_V128_LOAD64_ZERO:
     case IN_V128_STORE:      
       return INSIG_MEMARG;
     case IN_I8X16_SHUFFLE:       
@@ -1716,7 +1717,6 @@ insig_t instr_sig(instr_t in)
     case IN_V128_LOAD32_LANE:     case IN_V128_LOAD64_LANE:
     case IN_V128_STORE8_LANE:     case IN_V128_STORE16_LANE:
     case IN_V128_STORE32_LANE:    case IN_V128_STORE64_LANE:
-    case IN_V128_LOAD32_ZERO:     case IN_V128_LOAD64_ZERO:
       return INSIG_MEMARG_LANEIDX;
     /* internal use */
     case IN_REF_DATA:
diff --git a/w.h b/w.h
index 11c8a37..566372c 100644
--- a/w.h
+++ b/w.h
@@ -381,8 +381,8 @@ typedef enum instr {
   IN_V128_STORE16_LANE /* memarg laneidx */ = 0xFD59,
   IN_V128_STORE32_LANE /* memarg laneidx */ = 0xFD5A,
   IN_V128_STORE64_LANE /* memarg laneidx */ = 0xFD5B,
-  IN_V128_LOAD32_ZERO /* memarg laneidx */ = 0xFD5C,
-  IN_V128_LOAD64_ZERO /* memarg laneidx */ = 0xFD5D,
+  IN_V128_LOAD32_ZERO /* memarg */ = 0xFD5C,
+  IN_V128_LOAD64_ZERO /* memarg */ = 0xFD5D,
   IN_F32X4_DEMOTE_F64X2_ZERO = 0xFD5E,
   IN_F64X2_PROMOTE_LOW_F32X4 = 0xFD5F,
   IN_I8X16_ABS = 0xFD60,
-- 
2.43.0


From 4a53d00cf85aa958965ae119e9f83b666d7c84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 10/15] fix: strrchr finds the terminator

---
 lib/src/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index a427d7f..3788f88 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -261,8 +261,9 @@ char *strpbrk(const char *s1, const char *s2)
 char *strrchr(const char *s, int c)
 {
   const char *found = NULL;
-  while (*s) {
+  while (1) {
     if (*s == (char)c) found = s;
+    if (!*s) break;
     s++;
   }
   return (char *)found;
-- 
2.43.0


From f41d77017a7d02f7366da7ace53b0125ede59d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 11/15] fix: strndup does not write past the copy when the
 string is shorter than the limit

---
 lib/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index 3788f88..2d67074 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -232,7 +232,7 @@ char *strndup(const char *s, size_t n)
   char *d = malloc(l);
   if (!d) return NULL;
   _bcopy(d, s, l);
-  d[n] = '\0';
+  d[l-1] = '\0';
   return d;
 }
 
-- 
2.43.0


From 09528d0677c7c004d17902dc1d9882e74f05696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 12/15] fix: memmem and strstr find the empty string

---
 lib/src/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index 2d67074..3509d57 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -53,8 +53,8 @@ void *memmem(const void *haystack, size_t n, const void *needle, size_t m)
   const unsigned char *y = (const unsigned char *)haystack;
   const unsigned char *x = (const unsigned char *)needle;
   size_t j, k, l;
-  if (m > n || !m || !n)
-    return NULL;
+  if (!m) return (void *)haystack; /* empty needle is always found */
+  if (m > n) return NULL;
   if (1 != m) {
     if (x[0] == x[1]) { 
       k = 2; l = 1;
-- 
2.43.0


From 457d8832fcc07494a402a544809d3f2e09c94c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 13/15] fix: strncasecmp compares as if converted to lower
 case, like strcasecmp

---
 lib/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index 3509d57..9818f9a 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -182,7 +182,7 @@ int strncasecmp(const char *s1, const char *s2, size_t n)
   const unsigned char *c2 = (const unsigned char *)s2;
   unsigned char ch; int d = 0;
   while (n--) {
-    d = toupper(ch = *c1++) - toupper(*c2++);
+    d = tolower(ch = *c1++) - tolower(*c2++);
     if (d || !ch) break;
   }
   return d;
-- 
2.43.0


From a01ebec90867d160d3d6fc885dc5fb234280d3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 14/15] fix: strtol family reports no conversion via endptr and
 does not take "0x" without digits for a prefix

---
 lib/src/stdlib.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 3493ac8..1ca9116 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -327,7 +327,7 @@ static int digitval(int c)
 
 static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
 {
-  int minus = 0; uintmax_t v = 0; int d;
+  int minus = 0; uintmax_t v = 0; int d; const char *start = nptr, *digits;
   while (n && isspace((unsigned char)*nptr)) {  nptr++;  n--; }
   if (n) {
     char c = *nptr;
@@ -338,24 +338,26 @@ static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
     }
   }
   if (base == 0) {
-    if (n >= 2 && nptr[0] == '0' &&
-        (nptr[1] == 'x' || nptr[1] == 'X')) {
+    if (n >= 3 && nptr[0] == '0' &&
+        (nptr[1] == 'x' || nptr[1] == 'X') && isxdigit((unsigned char)nptr[2])) {
       n -= 2; nptr += 2; base = 16;
     } else if (n >= 1 && nptr[0] == '0') {
-      n--; nptr++; base = 8;
+      base = 8;
     } else {
       base = 10;
     }
   } else if (base == 16) {
-    if (n >= 2 && nptr[0] == '0' &&
-        (nptr[1] == 'x' || nptr[1] == 'X')) {
+    if (n >= 3 && nptr[0] == '0' &&
+        (nptr[1] == 'x' || nptr[1] == 'X') && isxdigit((unsigned char)nptr[2])) {
       n -= 2; nptr += 2;
     }
   }
+  digits = nptr;
   while (n && (d = digitval(*nptr)) >= 0 && d < base) {
     v = v * base + d;
     n--; nptr++;
   }
+  if (nptr == digits) nptr = start; /* no conversion */
   if (endptr) *endptr = (char *)nptr;
   return minus ? -v : v;
 }
-- 
2.43.0


From dc8333b2f43b5c382a77800aaf2213ea7a98bf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 15/15] fix: strtol family saturates and sets ERANGE when the
 value is out of range

---
 lib/src/stdlib.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 1ca9116..fb48419 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <stddef.h>
 #include <stdbool.h>
+#include <limits.h>
 #include <errno.h>
 #include <ctype.h>
 #include <math.h>
@@ -325,9 +326,12 @@ static int digitval(int c)
   return -1;
 }
 
-static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
+/* converts to max and, for negative numbers, min of the target type;
+ * min is 0 for unsigned types: these wrap around when negated */
+static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n, 
+                            intmax_t min, uintmax_t max)
 {
-  int minus = 0; uintmax_t v = 0; int d; const char *start = nptr, *digits;
+  int minus = 0; uintmax_t v = 0, lim; int d; bool over = false; const char *start = nptr, *digits;
   while (n && isspace((unsigned char)*nptr)) {  nptr++;  n--; }
   if (n) {
     char c = *nptr;
@@ -353,48 +357,51 @@ static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
     }
   }
   digits = nptr;
+  lim = minus && min < 0 ? (uintmax_t)0 - (uintmax_t)min : max;
   while (n && (d = digitval(*nptr)) >= 0 && d < base) {
-    v = v * base + d;
+    if (v > lim / base || (v == lim / base && d > (int)(lim % base))) over = true;
+    else v = v * base + d;
     n--; nptr++;
   }
   if (nptr == digits) nptr = start; /* no conversion */
   if (endptr) *endptr = (char *)nptr;
+  if (over) { errno = ERANGE; return minus && min < 0 ? (uintmax_t)min : max; }
   return minus ? -v : v;
 }
 
 intmax_t strntoimax(const char *nptr, char **endptr, int base, size_t n)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, n);
+  return (intmax_t)strntoumax(nptr, endptr, base, n, LLONG_MIN, LLONG_MAX);
 }
 
 intmax_t strtoimax(const char *nptr, char **endptr, int base)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (intmax_t)strntoumax(nptr, endptr, base, ~(size_t)0, LLONG_MIN, LLONG_MAX);
 }
 
 long strtol(const char *nptr, char **endptr, int base)
 {
-  return (long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long)strntoumax(nptr, endptr, base, ~(size_t)0, LONG_MIN, LONG_MAX);
 }
 
 long long strtoll(const char *nptr, char **endptr, int base)
 {
-  return (long long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long long)strntoumax(nptr, endptr, base, ~(size_t)0, LLONG_MIN, LLONG_MAX);
 }
 
 unsigned long strtoul(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0, 0, ULONG_MAX);
 }
 
 unsigned long long strtoull(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long long) strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long long) strntoumax(nptr, endptr, base, ~(size_t)0, 0, ULLONG_MAX);
 }
 
 uintmax_t strtoumax(const char *nptr, char **endptr, int base)
 {
-  return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0, 0, ULLONG_MAX);
 }
 
 static unsigned short rand48_seed[3]; 
-- 
2.43.0

