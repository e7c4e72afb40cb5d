From 1f5c3c9a6c1fc8823d377cb5c03d1a09f2d1987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:21 +0000
Subject: [PATCH 01/19] fix: intnum: convert full-width longs instead of their
 low 32 bits

---
 libyasm/intnum.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/libyasm/intnum.c b/libyasm/intnum.c
index 794c072..e5d72cd 100644
--- a/libyasm/intnum.c
+++ b/libyasm/intnum.c
@@ -40,6 +40,9 @@
 /* "Native" "word" size for intnum calculations. */
 #define BITVECT_NATIVE_SIZE     256
 
+/* Number of bits in a long */
+#define LONG_BITS               (sizeof(long)*CHAR_BIT)
+
 struct yasm_intnum {
     union val {
         long l;                 /* integer value (for integers <32 bits) */
@@ -120,9 +123,9 @@ intnum_tobv(/*@returned@*/ wordptr bv, const yasm_intnum *intn)
 
     BitVector_Empty(bv);
     if (intn->val.l >= 0)
-        BitVector_Chunk_Store(bv, 32, 0, (unsigned long)intn->val.l);
+        BitVector_Chunk_Store(bv, LONG_BITS, 0, (unsigned long)intn->val.l);
     else {
-        BitVector_Chunk_Store(bv, 32, 0, (unsigned long)-intn->val.l);
+        BitVector_Chunk_Store(bv, LONG_BITS, 0, 0-(unsigned long)intn->val.l);
         BitVector_Negate(bv, bv);
     }
     return bv;
@@ -313,7 +316,7 @@ yasm_intnum_create_uint(unsigned long i)
         /* Too big, store as bitvector */
         intn->val.bv = BitVector_Create(BITVECT_NATIVE_SIZE, TRUE);
         intn->type = INTNUM_BV;
-        BitVector_Chunk_Store(intn->val.bv, 32, 0, i);
+        BitVector_Chunk_Store(intn->val.bv, LONG_BITS, 0, i);
     } else {
         intn->val.l = (long)i;
         intn->type = INTNUM_L;
@@ -668,8 +671,9 @@ yasm_intnum_set_uint(yasm_intnum *intn, unsigned long val)
         if (intn->type != INTNUM_BV) {
             intn->val.bv = BitVector_Create(BITVECT_NATIVE_SIZE, TRUE);
             intn->type = INTNUM_BV;
-        }
-        BitVector_Chunk_Store(intn->val.bv, 32, 0, val);
+        } else
+            BitVector_Empty(intn->val.bv);
+        BitVector_Chunk_Store(intn->val.bv, LONG_BITS, 0, val);
     } else {
         if (intn->type == INTNUM_BV) {
             BitVector_Destroy(intn->val.bv);
@@ -891,17 +895,17 @@ yasm_intnum_in_range(const yasm_intnum *intn, long low, long high)
     /* Convert high and low to bitvects */
     BitVector_Empty(lval);
     if (low >= 0)
-        BitVector_Chunk_Store(lval, 32, 0, (unsigned long)low);
+        BitVector_Chunk_Store(lval, LONG_BITS, 0, (unsigned long)low);
     else {
-        BitVector_Chunk_Store(lval, 32, 0, (unsigned long)(-low));
+        BitVector_Chunk_Store(lval, LONG_BITS, 0, 0-(unsigned long)low);
         BitVector_Negate(lval, lval);
     }
 
     BitVector_Empty(hval);
     if (high >= 0)
-        BitVector_Chunk_Store(hval, 32, 0, (unsigned long)high);
+        BitVector_Chunk_Store(hval, LONG_BITS, 0, (unsigned long)high);
     else {
-        BitVector_Chunk_Store(hval, 32, 0, (unsigned long)(-high));
+        BitVector_Chunk_Store(hval, LONG_BITS, 0, 0-(unsigned long)high);
         BitVector_Negate(hval, hval);
     }
 
@@ -1006,9 +1010,9 @@ yasm_get_sleb128(long v, unsigned char *ptr)
 
     BitVector_Empty(val);
     if (v >= 0)
-        BitVector_Chunk_Store(val, 32, 0, (unsigned long)v);
+        BitVector_Chunk_Store(val, LONG_BITS, 0, (unsigned long)v);
     else {
-        BitVector_Chunk_Store(val, 32, 0, (unsigned long)(-v));
+        BitVector_Chunk_Store(val, LONG_BITS, 0, 0-(unsigned long)v);
         BitVector_Negate(val, val);
     }
     return get_leb128(val, ptr, 1);
@@ -1024,9 +1028,9 @@ yasm_size_sleb128(long v)
 
     BitVector_Empty(val);
     if (v >= 0)
-        BitVector_Chunk_Store(val, 32, 0, (unsigned long)v);
+        BitVector_Chunk_Store(val, LONG_BITS, 0, (unsigned long)v);
     else {
-        BitVector_Chunk_Store(val, 32, 0, (unsigned long)(-v));
+        BitVector_Chunk_Store(val, LONG_BITS, 0, 0-(unsigned long)v);
         BitVector_Negate(val, val);
     }
     return size_leb128(val, 1);
@@ -1044,7 +1048,7 @@ yasm_get_uleb128(unsigned long v, unsigned char *ptr)
     }
 
     BitVector_Empty(val);
-    BitVector_Chunk_Store(val, 32, 0, v);
+    BitVector_Chunk_Store(val, LONG_BITS, 0, v);
     return get_leb128(val, ptr, 0);
 }
 
@@ -1057,7 +1061,7 @@ yasm_size_uleb128(unsigned long v)
         return 1;
 
     BitVector_Empty(val);
-    BitVector_Chunk_Store(val, 32, 0, v);
+    BitVector_Chunk_Store(val, LONG_BITS, 0, v);
     return size_leb128(val, 0);
 }
 
-- 
2.43.0


From 58a67513a19f2c5a63ce35fe128b77ff6f183f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:21 +0000
Subject: [PATCH 02/19] fix: intnum: saturate get_uint for values in
 [2^32,2^33)

---
 libyasm/intnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libyasm/intnum.c b/libyasm/intnum.c
index e5d72cd..5feda75 100644
--- a/libyasm/intnum.c
+++ b/libyasm/intnum.c
@@ -735,7 +735,7 @@ yasm_intnum_get_uint(const yasm_intnum *intn)
         case INTNUM_BV:
             if (BitVector_msb_(intn->val.bv))
                 return 0;
-            if (Set_Max(intn->val.bv) > 32)
+            if (Set_Max(intn->val.bv) >= 32)
                 return ULONG_MAX;
             return BitVector_Chunk_Read(intn->val.bv, 32, 0);
         default:
-- 
2.43.0


From 81ab8b3c589fea58312e199083d5a95e7057bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:21 +0000
Subject: [PATCH 03/19] fix: intnum: get_sized must not modify the value it
 right-shifts

---
 libyasm/intnum.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libyasm/intnum.c b/libyasm/intnum.c
index 5feda75..ed93a32 100644
--- a/libyasm/intnum.c
+++ b/libyasm/intnum.c
@@ -822,6 +822,11 @@ yasm_intnum_get_sized(const yasm_intnum *intn, unsigned char *ptr,
 
     /* Shift right if needed */
     if (rshift > 0) {
+        /* Don't shift the caller's bitvect */
+        if (op2 != op2static) {
+            BitVector_Copy(op2static, op2);
+            op2 = op2static;
+        }
         carry_in = BitVector_msb_(op2);
         while (rshift-- > 0)
             BitVector_shift_right(op2, carry_in);
-- 
2.43.0


From f65267b24e7a656b9287ba1c9945ac2cdeeb64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:21 +0000
Subject: [PATCH 04/19] fix: intnum: store small 4+ character constants in
 canonical form

---
 libyasm/intnum.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libyasm/intnum.c b/libyasm/intnum.c
index ed93a32..55107cf 100644
--- a/libyasm/intnum.c
+++ b/libyasm/intnum.c
@@ -224,10 +224,9 @@ yasm_intnum_create_charconst_nasm(const char *str)
                        N_("Character constant too large for internal format"));
 
     /* be conservative in choosing bitvect in case MSB is set */
-    if (len > 3) {
+    if (len > 3)
         BitVector_Empty(conv_bv);
-        intn->type = INTNUM_BV;
-    } else {
+    else {
         intn->val.l = 0;
         intn->type = INTNUM_L;
     }
@@ -252,7 +251,7 @@ yasm_intnum_create_charconst_nasm(const char *str)
                 BitVector_Chunk_Store(conv_bv, 8, 0,
                                       ((unsigned long)str[--len]) & 0xff);
             }
-            intn->val.bv = BitVector_Clone(conv_bv);
+            intnum_frombv(intn, conv_bv);
     }
 
     return intn;
@@ -270,10 +269,9 @@ yasm_intnum_create_charconst_tasm(const char *str)
                        N_("Character constant too large for internal format"));
 
     /* be conservative in choosing bitvect in case MSB is set */
-    if (len > 3) {
+    if (len > 3)
         BitVector_Empty(conv_bv);
-        intn->type = INTNUM_BV;
-    } else {
+    else {
         intn->val.l = 0;
         intn->type = INTNUM_L;
     }
@@ -300,7 +298,7 @@ yasm_intnum_create_charconst_tasm(const char *str)
                                       ((unsigned long)str[i]) & 0xff);
                 i++;
             }
-            intn->val.bv = BitVector_Clone(conv_bv);
+            intnum_frombv(intn, conv_bv);
     }
 
     return intn;
-- 
2.43.0


From fa5a44708a138c1d2d397cdb417b7f0445cc44bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:40 +0000
Subject: [PATCH 05/19] fix: intnum: get_str buffer too small for 64-bit longs

---
 libyasm/intnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libyasm/intnum.c b/libyasm/intnum.c
index 55107cf..1b8cfa9 100644
--- a/libyasm/intnum.c
+++ b/libyasm/intnum.c
@@ -1075,7 +1075,7 @@ yasm_intnum_get_str(const yasm_intnum *intn)
 
     switch (intn->type) {
         case INTNUM_L:
-            s = yasm_xmalloc(16);
+            s = yasm_xmalloc(3*sizeof(long)+2);
             sprintf((char *)s, "%ld", intn->val.l);
             return (char *)s;
             break;
-- 
2.43.0


From 02cf018f9699893aa9b798b0506bb06479d0b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:08 +0000
Subject: [PATCH 06/19] fix: intnum: shift counts of the native size or more
 (truncated, very slow)

---
 libyasm/intnum.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libyasm/intnum.c b/libyasm/intnum.c
index 1b8cfa9..98bae9a 100644
--- a/libyasm/intnum.c
+++ b/libyasm/intnum.c
@@ -514,7 +514,9 @@ yasm_intnum_calc(yasm_intnum *acc, yasm_expr_op op, yasm_intnum *operand)
         case YASM_EXPR_SHL:
             if (operand->type == INTNUM_L && operand->val.l >= 0) {
                 BitVector_Copy(result, op1);
-                BitVector_Move_Left(result, (N_int)operand->val.l);
+                count = operand->val.l < BITVECT_NATIVE_SIZE ?
+                    (N_int)operand->val.l : BITVECT_NATIVE_SIZE;
+                BitVector_Move_Left(result, count);
             } else      /* don't even bother, just zero result */
                 BitVector_Empty(result);
             break;
@@ -522,7 +524,8 @@ yasm_intnum_calc(yasm_intnum *acc, yasm_expr_op op, yasm_intnum *operand)
             if (operand->type == INTNUM_L && operand->val.l >= 0) {
                 BitVector_Copy(result, op1);
                 carry = BitVector_msb_(op1);
-                count = (N_int)operand->val.l;
+                count = operand->val.l < BITVECT_NATIVE_SIZE ?
+                    (N_int)operand->val.l : BITVECT_NATIVE_SIZE;
                 while (count-- > 0)
                     BitVector_shift_right(result, carry);
             } else      /* don't even bother, just zero result */
-- 
2.43.0


From 8acb97369821f10fdf14e2714ad0edcf4c9ce85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:50:17 +0000
Subject: [PATCH 07/19] fix: reject register multipliers that do not fit an int
 in effective addresses

[eax*0x80000000+eax*2] was silently encoded as [eax], and
[eax*-0x90000000] as [0], because the multiplier was truncated.
---
 modules/arch/x86/x86expr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/arch/x86/x86expr.c b/modules/arch/x86/x86expr.c
index e9ddcce..b40ece6 100644
--- a/modules/arch/x86/x86expr.c
+++ b/modules/arch/x86/x86expr.c
@@ -362,6 +362,11 @@ x86_expr_checkea_getregusage(yasm_expr **ep, /*@null@*/ int *indexreg,
                                       &regnum, data);
                         if (!reg)
                             return 1;
+                        /* Multiplier must not wrap when added to the sum */
+                        if (!yasm_intnum_in_range(
+                                e->terms[i].data.expn->terms[1].data.intn,
+                                -0xFFFFFL, 0xFFFFFL))
+                            return 1;
                         delta = yasm_intnum_get_int(
                             e->terms[i].data.expn->terms[1].data.intn);
                         (*reg) += delta;
@@ -392,6 +397,10 @@ x86_expr_checkea_getregusage(yasm_expr **ep, /*@null@*/ int *indexreg,
                 reg = get_reg(&e->terms[0], &regnum, data);
                 if (!reg)
                     return 1;
+                /* Multiplier must not wrap when stored as an int */
+                if (!yasm_intnum_in_range(e->terms[1].data.intn, -0xFFFFFL,
+                                          0xFFFFFL))
+                    return 1;
                 delta = yasm_intnum_get_int(e->terms[1].data.intn);
                 (*reg) += delta;
                 if (indexreg)
-- 
2.43.0


From 4c5fb648c17e3a24c0f688219ce3440e5db9daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:59:24 +0000
Subject: [PATCH 08/19] build: maintainer mode compiles as gnu89 rather than
 strict ANSI

Keeps -pedantic; the only difference is that // comments are a warning
instead of an error.
---
 configure.ac | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/configure.ac b/configure.ac
index 2823ecd..ff36e81 100644
--- a/configure.ac
+++ b/configure.ac
@@ -217,10 +217,10 @@ if test "$gcov" = "yes"; then
   fi
 fi
 
-# If we're using GCC, then we can turn on -ansi -pedantic -Wall too.
+# If we're using GCC, then we can turn on -std=gnu89 -pedantic -Wall too.
 if test "$USE_MAINTAINER_MODE" = "yes"; then
   if test "$GCC" = yes; then
-    MORE_CFLAGS="-ansi -pedantic -Wall $MORE_CFLAGS"
+    MORE_CFLAGS="-std=gnu89 -pedantic -Wall $MORE_CFLAGS"
   fi
 fi
 AC_SUBST(MORE_CFLAGS)
-- 
2.43.0


From 846a5113e9c2b9bb83f086e016f973b968968c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:16 +0000
Subject: [PATCH 09/19] fix: align to the given boundary when it is not a power
 of two

---
 libyasm/bc-align.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libyasm/bc-align.c b/libyasm/bc-align.c
index 2a47882..95a0f28 100644
--- a/libyasm/bc-align.c
+++ b/libyasm/bc-align.c
@@ -146,8 +146,8 @@ bc_align_expand(yasm_bytecode *bc, int span, long old_val, long new_val,
     }
 
     end = (unsigned long)new_val;
-    if ((unsigned long)new_val & (boundary-1))
-        end = ((unsigned long)new_val & ~(boundary-1)) + boundary;
+    if (end % boundary != 0)
+        end += boundary - end % boundary;
 
     *pos_thres = (long)end;
     bc->len = end - (unsigned long)new_val;
@@ -178,8 +178,8 @@ bc_align_tobytes(yasm_bytecode *bc, unsigned char **bufp,
         return 0;
     else {
         unsigned long end = bc->offset;
-        if (bc->offset & (boundary-1))
-            end = (bc->offset & ~(boundary-1)) + boundary;
+        if (end % boundary != 0)
+            end += boundary - end % boundary;
         len = end - bc->offset;
         if (len == 0)
             return 0;
-- 
2.43.0


From a7803a1d8a1515e1df411fb9889aa539575c3f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:16 +0000
Subject: [PATCH 10/19] fix: a data item repeated zero times produces no data

---
 libyasm/bc-data.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libyasm/bc-data.c b/libyasm/bc-data.c
index ebbdd6f..abe5a2c 100644
--- a/libyasm/bc-data.c
+++ b/libyasm/bc-data.c
@@ -147,7 +147,12 @@ bc_data_finalize(yasm_bytecode *bc, yasm_bytecode *prev_bc)
             else if (val.rel)
                 yasm_error_set(YASM_ERROR_NOT_ABSOLUTE,
                                N_("multiple expression not absolute"));
-            dv->multiple = val.abs;
+            /* A zero value finalizes to NULL, but a NULL multiple means 1. */
+            if (val.abs)
+                dv->multiple = val.abs;
+            else
+                dv->multiple = yasm_expr_create_ident(
+                    yasm_expr_int(yasm_intnum_create_uint(0)), bc->line);
         }
     }
 }
-- 
2.43.0


From 8303e1240c56958d4a215796252cbaf9fd8c42af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:16 +0000
Subject: [PATCH 11/19] fix: incbin with a maximum length of zero includes
 nothing

---
 libyasm/bc-incbin.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libyasm/bc-incbin.c b/libyasm/bc-incbin.c
index a8fec7d..386cfaa 100644
--- a/libyasm/bc-incbin.c
+++ b/libyasm/bc-incbin.c
@@ -124,7 +124,12 @@ bc_incbin_finalize(yasm_bytecode *bc, yasm_bytecode *prev_bc)
     else if (val.rel)
         yasm_error_set(YASM_ERROR_NOT_ABSOLUTE,
                        N_("maximum length expression not absolute"));
-    incbin->maxlen = val.abs;
+    /* A zero value finalizes to NULL, but a NULL maxlen means unlimited. */
+    if (incbin->maxlen && !val.abs)
+        incbin->maxlen = yasm_expr_create_ident(
+            yasm_expr_int(yasm_intnum_create_uint(0)), bc->line);
+    else
+        incbin->maxlen = val.abs;
 }
 
 static int
-- 
2.43.0


From 7847615b5de951f255bc4ff05e92e1dbdeb22ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:41:53 +0000
Subject: [PATCH 12/19] fix: no NULL dereference for a repeated empty string in
 a data list

yasm_bc_create_data() allots no output value to a repeated string of length 0;
when nothing follows it, the copying pass dereferenced a NULL output value.
---
 libyasm/bc-data.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libyasm/bc-data.c b/libyasm/bc-data.c
index abe5a2c..91b0d42 100644
--- a/libyasm/bc-data.c
+++ b/libyasm/bc-data.c
@@ -393,8 +393,10 @@ yasm_bc_create_data(yasm_datavalhead *datahead, unsigned int size,
                 break;
             case DV_RAW:
                 rlen = dv->data.raw.len;
-                memcpy(&dvo->data.raw.contents[len], dv->data.raw.contents,
-                       rlen);
+                /* a repeated empty string may leave no output dataval */
+                if (rlen > 0)
+                    memcpy(&dvo->data.raw.contents[len],
+                           dv->data.raw.contents, rlen);
                 yasm_xfree(dv->data.raw.contents);
                 len += rlen;
                 /* pad with 0's to nearest multiple of size */
-- 
2.43.0


From 5a2f9c5c3a8107f6bafa63c163ec13a3c9c793af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:08:37 +0000
Subject: [PATCH 13/19] fix: values of 32 to 63 bits convert to long exactly

yasm_intnum_get_int() and get_uint() returned LONG_MAX (or LONG_MIN, ULONG_MAX)
for a value held as a bit vector but the exact value for the same value held as
a long, so e.g. 'resb 0x90000000' reserved LONG_MAX bytes.
---
 libyasm/intnum.c | 17 +++++++----------
 libyasm/intnum.h | 12 ++++++------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/libyasm/intnum.c b/libyasm/intnum.c
index 98bae9a..c0cfaa1 100644
--- a/libyasm/intnum.c
+++ b/libyasm/intnum.c
@@ -736,9 +736,9 @@ yasm_intnum_get_uint(const yasm_intnum *intn)
         case INTNUM_BV:
             if (BitVector_msb_(intn->val.bv))
                 return 0;
-            if (Set_Max(intn->val.bv) >= 32)
+            if (Set_Max(intn->val.bv) >= (long)LONG_BITS)
                 return ULONG_MAX;
-            return BitVector_Chunk_Read(intn->val.bv, 32, 0);
+            return BitVector_Chunk_Read(intn->val.bv, LONG_BITS, 0);
         default:
             yasm_internal_error(N_("unknown intnum type"));
             /*@notreached@*/
@@ -757,20 +757,17 @@ yasm_intnum_get_int(const yasm_intnum *intn)
                 /* it's negative: negate the bitvector to get a positive
                  * number, then negate the positive number.
                  */
-                unsigned long ul;
-
                 BitVector_Negate(conv_bv, intn->val.bv);
-                if (Set_Max(conv_bv) >= 32) {
+                if (Set_Max(conv_bv) >= (long)LONG_BITS-1) {
                     /* too negative */
                     return LONG_MIN;
                 }
-                ul = BitVector_Chunk_Read(conv_bv, 32, 0);
-                /* check for too negative */
-                return (ul & 0x80000000) ? LONG_MIN : -((long)ul);
+                return -((long)BitVector_Chunk_Read(conv_bv, LONG_BITS, 0));
             }
 
-            /* it's positive, and since it's a BV, it must be >0x7FFFFFFF */
-            return LONG_MAX;
+            if (Set_Max(intn->val.bv) >= (long)LONG_BITS-1)
+                return LONG_MAX;
+            return (long)BitVector_Chunk_Read(intn->val.bv, LONG_BITS, 0);
         default:
             yasm_internal_error(N_("unknown intnum type"));
             /*@notreached@*/
diff --git a/libyasm/intnum.h b/libyasm/intnum.h
index bec832c..30d5ac9 100644
--- a/libyasm/intnum.h
+++ b/libyasm/intnum.h
@@ -211,22 +211,22 @@ int yasm_intnum_is_neg1(const yasm_intnum *acc);
 YASM_LIB_DECL
 int yasm_intnum_sign(const yasm_intnum *acc);
 
-/** Convert an intnum to an unsigned 32-bit value.  The value is in "standard"
+/** Convert an intnum to an unsigned long.  The value is in "standard"
  * C format (eg, of unknown endian).
- * \note Parameter intnum is truncated to fit into 32 bits.  Use
+ * \note Values out of range saturate (negative ones to 0).  Use
  *       intnum_check_size() to check for overflow.
  * \param intn  intnum
- * \return Unsigned 32-bit value of intn.
+ * \return Unsigned long value of intn.
  */
 YASM_LIB_DECL
 unsigned long yasm_intnum_get_uint(const yasm_intnum *intn);
 
-/** Convert an intnum to a signed 32-bit value.  The value is in "standard" C
+/** Convert an intnum to a signed long.  The value is in "standard" C
  * format (eg, of unknown endian).
- * \note Parameter intnum is truncated to fit into 32 bits.  Use
+ * \note Values out of range saturate.  Use
  *       intnum_check_size() to check for overflow.
  * \param intn  intnum
- * \return Signed 32-bit value of intn.
+ * \return Signed long value of intn.
  */
 YASM_LIB_DECL
 long yasm_intnum_get_int(const yasm_intnum *intn);
-- 
2.43.0


From bdf47e1126c487254a7acc6ecd37b36037947e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:24 +0000
Subject: [PATCH 14/19] fix: a parser error only replaces one on the same line

---
 libyasm/errwarn.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libyasm/errwarn.c b/libyasm/errwarn.c
index 983e081..8cccaf2 100644
--- a/libyasm/errwarn.c
+++ b/libyasm/errwarn.c
@@ -184,8 +184,8 @@ def_fatal(const char *fmt, va_list va)
 }
 
 /* Create an errwarn structure in the correct linked list location.
- * If replace_parser_error is nonzero, overwrites the last error if its
- * type is WE_PARSERERROR.
+ * If replace_parser_error is nonzero, overwrites the last error on the same
+ * line if its type is WE_PARSERERROR.
  */
 static errwarn_data *
 errwarn_data_new(yasm_errwarns *errwarns, unsigned long line,
@@ -216,7 +216,8 @@ errwarn_data_new(yasm_errwarns *errwarns, unsigned long line,
             ins_we = next;
     }
 
-    if (replace_parser_error && ins_we && ins_we->type == WE_PARSERERROR) {
+    if (replace_parser_error && ins_we && ins_we->type == WE_PARSERERROR
+        && ins_we->line == line) {
         /* overwrite last error */
         we = ins_we;
     } else {
-- 
2.43.0


From 84b18baa7c93a2aebecbb7b658f2f32b3579b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:24 +0000
Subject: [PATCH 15/19] fix: line map stays sorted; a poked line restores the
 line it interrupts

---
 libyasm/linemap.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/libyasm/linemap.c b/libyasm/linemap.c
index 42201d3..e15e5b6 100644
--- a/libyasm/linemap.c
+++ b/libyasm/linemap.c
@@ -86,6 +86,7 @@ yasm_linemap_set(yasm_linemap *linemap, const char *filename,
     unsigned long i;
     int replace = 0;
     line_mapping *mapping = NULL;
+    const char *cur_filename = NULL;
 
     if (virtual_line == 0) {
         virtual_line = linemap->current;
@@ -93,13 +94,14 @@ yasm_linemap_set(yasm_linemap *linemap, const char *filename,
 
     /* Replace all existing mappings that have line numbers >= this one. */
     for (i = linemap->map_size; i > 0; i--) {
-        if (linemap->map_vector[i-1].line < virtual_line) {
-            if (i < linemap->map_size) {
-                mapping = &linemap->map_vector[i];
-                linemap->map_size = i + 1;
-            }
+        if (!cur_filename && linemap->map_vector[i-1].line <= virtual_line)
+            cur_filename = linemap->map_vector[i-1].filename;
+        if (linemap->map_vector[i-1].line < virtual_line)
             break;
-        }
+    }
+    if (i < linemap->map_size) {
+        mapping = &linemap->map_vector[i];
+        linemap->map_size = i + 1;
     }
 
     if (mapping == NULL) {
@@ -117,9 +119,8 @@ yasm_linemap_set(yasm_linemap *linemap, const char *filename,
     /* Fill it */
 
     if (!filename) {
-        if (linemap->map_size >= 2)
-            mapping->filename =
-                linemap->map_vector[linemap->map_size-2].filename;
+        if (cur_filename)
+            mapping->filename = cur_filename;
         else
             filename = "unknown";
     }
@@ -142,20 +143,22 @@ yasm_linemap_poke(yasm_linemap *linemap, const char *filename,
                   unsigned long file_line)
 {
     unsigned long line;
-    line_mapping *mapping;
+    line_mapping orig = { 0, NULL, 0, 0 };
+
+    /* Copy the current mapping; it's both replaced and possibly reallocated */
+    if (linemap->map_size > 0)
+        orig = linemap->map_vector[linemap->map_size-1];
 
     linemap->current++;
     yasm_linemap_set(linemap, filename, 0, file_line, 0);
 
-    mapping = &linemap->map_vector[linemap->map_size-1];
-
     line = linemap->current;
 
     linemap->current++;
-    yasm_linemap_set(linemap, mapping->filename, 0,
-                     mapping->file_line +
-                     mapping->line_inc*(linemap->current-2-mapping->line),
-                     mapping->line_inc);
+    yasm_linemap_set(linemap, orig.filename, 0,
+                     orig.file_line +
+                     orig.line_inc*(linemap->current-2-orig.line),
+                     orig.line_inc);
 
     return line;
 }
-- 
2.43.0


From eedebb2d3de60e7594b162eee058f5649b43ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:44:29 +0000
Subject: [PATCH 16/19] fix: .loc directives with no code behind them do not
 crash

Two .loc directives at the end of a section have no following bytecode;
the comparison of their places dereferenced NULL.
---
 modules/dbgfmts/dwarf2/dwarf2-line.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/dbgfmts/dwarf2/dwarf2-line.c b/modules/dbgfmts/dwarf2/dwarf2-line.c
index 10bb2f2..816f4e2 100644
--- a/modules/dbgfmts/dwarf2/dwarf2-line.c
+++ b/modules/dbgfmts/dwarf2/dwarf2-line.c
@@ -404,7 +404,9 @@ dwarf2_dbgfmt_gen_line_op(yasm_section *debug_line, dwarf2_line_state *state,
 #endif
 
     /* If multiple loc for the same location, use last */
-    if (nextloc && nextloc->bc->offset == loc->bc->offset)
+    if (nextloc && (nextloc->bc == loc->bc
+                    || (nextloc->bc && loc->bc
+                        && nextloc->bc->offset == loc->bc->offset)))
         return 0;
 
     if (!state->precbc) {
-- 
2.43.0


From 6bb1714c50446802fea530b376062f8077a65b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:44:29 +0000
Subject: [PATCH 17/19] fix: first dwarf2 line row gets the address of its code

The first row of a section was given the address of the last label
before it even when code lies in between (.loc), or of a label on the
instruction itself, which is the address behind it (-g dwarf2).
---
 modules/dbgfmts/dwarf2/dwarf2-line.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/modules/dbgfmts/dwarf2/dwarf2-line.c b/modules/dbgfmts/dwarf2/dwarf2-line.c
index 816f4e2..01ac232 100644
--- a/modules/dbgfmts/dwarf2/dwarf2-line.c
+++ b/modules/dbgfmts/dwarf2/dwarf2-line.c
@@ -410,6 +410,8 @@ dwarf2_dbgfmt_gen_line_op(yasm_section *debug_line, dwarf2_line_state *state,
         return 0;
 
     if (!state->precbc) {
+        yasm_bytecode *symprec;
+
         /* Set the starting address for the section */
         if (!loc->sym) {
             /* shouldn't happen! */
@@ -419,7 +421,11 @@ dwarf2_dbgfmt_gen_line_op(yasm_section *debug_line, dwarf2_line_state *state,
         }
         dwarf2_dbgfmt_append_line_ext_op(debug_line, DW_LNE_set_address,
             dbgfmt_dwarf2->sizeof_address, loc->sym);
-        addr_delta = 0;
+        /* The loc may be some way past the label */
+        if (loc->bc && yasm_symrec_get_label(loc->sym, &symprec))
+            addr_delta = loc->bc->offset - yasm_bc_next_offset(symprec);
+        else
+            addr_delta = 0;
     } else if (loc->bc) {
         if (state->precbc->offset > loc->bc->offset)
             yasm_internal_error(N_("dwarf2 address went backwards?"));
@@ -523,15 +529,6 @@ dwarf2_generate_line_bc(yasm_bytecode *bc, /*@null@*/ void *d)
     info->loc.vline = bc->line;
     info->loc.bc = bc;
 
-    /* Keep track of last symbol seen */
-    if (bc->symrecs) {
-        i = 0;
-        while (bc->symrecs[i]) {
-            info->loc.sym = bc->symrecs[i];
-            i++;
-        }
-    }
-
     yasm_linemap_lookup(info->linemap, bc->line, &pathname, &info->loc.line);
     dirlen = yasm__splitpath(pathname, &filename);
 
@@ -556,6 +553,16 @@ dwarf2_generate_line_bc(yasm_bytecode *bc, /*@null@*/ void *d)
     if (dwarf2_dbgfmt_gen_line_op(info->debug_line, info->state, &info->loc,
                                   NULL))
         return 1;
+
+    /* Keep track of last symbol seen (the symbols of a bytecode follow it) */
+    if (bc->symrecs) {
+        i = 0;
+        while (bc->symrecs[i]) {
+            info->loc.sym = bc->symrecs[i];
+            i++;
+        }
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 8aae7d6b0223d0a9336cb8cf01ce7b5e0ca90643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 18/19] fix: elf: TYPE and SIZE keep the prefix and suffix of
 global symbols

---
 modules/objfmts/elf/elf-objfmt.c | 5 +++++
 modules/objfmts/elf/elf.c        | 7 +++++++
 modules/objfmts/elf/elf.h        | 1 +
 3 files changed, 13 insertions(+)

diff --git a/modules/objfmts/elf/elf-objfmt.c b/modules/objfmts/elf/elf-objfmt.c
index c4360c0..5c854e4 100644
--- a/modules/objfmts/elf/elf-objfmt.c
+++ b/modules/objfmts/elf/elf-objfmt.c
@@ -99,6 +99,11 @@ elf_objfmt_symtab_append(yasm_objfmt_elf *objfmt_elf, yasm_symrec *sym,
         yasm_xfree(symname);
         entry = elf_symtab_entry_create(name, sym);
         yasm_symrec_add_data(sym, &elf_symrec_data, entry);
+    } else if (!elf_sym_in_table(entry)) {
+        /* Created by TYPE or SIZE, when the global name was not yet known */
+        /*@only@*/ char *symname = yasm_symrec_get_global_name(sym, object);
+        elf_sym_set_name_str(entry, symname);
+        yasm_xfree(symname);
     }
 
     /* Only append to table if not already appended */
diff --git a/modules/objfmts/elf/elf.c b/modules/objfmts/elf/elf.c
index 1ee98bf..90482a2 100644
--- a/modules/objfmts/elf/elf.c
+++ b/modules/objfmts/elf/elf.c
@@ -582,6 +582,13 @@ elf_sym_set_size(elf_symtab_entry *entry,
     entry->xsize = size;
 }                            
 
+void
+elf_sym_set_name_str(elf_symtab_entry *entry, const char *str)
+{
+    if (entry->name && strcmp(entry->name->str, str) != 0)
+        elf_strtab_entry_set_str(entry->name, str);
+}
+
 int
 elf_sym_in_table(elf_symtab_entry *entry)
 {
diff --git a/modules/objfmts/elf/elf.h b/modules/objfmts/elf/elf.h
index 69ed3f0..f7b4d99 100644
--- a/modules/objfmts/elf/elf.h
+++ b/modules/objfmts/elf/elf.h
@@ -472,6 +472,7 @@ void elf_symtab_set_nonzero(elf_symtab_entry    *entry,
 void elf_sym_set_visibility(elf_symtab_entry    *entry,
                             elf_symbol_vis       vis);
 void elf_sym_set_type(elf_symtab_entry *entry, elf_symbol_type type);
+void elf_sym_set_name_str(elf_symtab_entry *entry, const char *str);
 void elf_sym_set_size(elf_symtab_entry *entry, struct yasm_expr *size);
 int elf_sym_in_table(elf_symtab_entry *entry);
 
-- 
2.43.0


From e3dbb37d0a5b7ef7e305444a2bbec9df208f0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 19/19] fix: circular TIMES through three or more spans are
 diagnosed, not looped on forever

---
 libyasm/section.c | 52 +++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/libyasm/section.c b/libyasm/section.c
index 1459ecc..04ae4a5 100644
--- a/libyasm/section.c
+++ b/libyasm/section.c
@@ -893,6 +893,7 @@ struct yasm_span {
      */
     yasm_span **backtrace;
     int backtrace_size;
+    int backtrace_used;     /* already added to dependent spans */
 
     /* First offset setter following this span's bytecode */
     yasm_offset_setter *os;
@@ -906,6 +907,7 @@ typedef struct optimize_data {
         offset_setters;
     long len_diff;      /* used only for optimize_term_expand */
     yasm_span *span;    /* used only for check_cycle */
+    int bt_changed;     /* used only for check_cycle */
     yasm_offset_setter *os;
 } optimize_data;
 
@@ -932,6 +934,7 @@ create_span(yasm_bytecode *bc, int id, /*@null@*/ const yasm_value *value,
     span->active = 1;
     span->backtrace = NULL;
     span->backtrace_size = 0;
+    span->backtrace_used = 0;
     span->os = os;
 
     return span;
@@ -1213,6 +1216,7 @@ check_cycle(IntervalTreeNode *node, void *d)
      * span.
      */
     if (!depspan->backtrace) {
+        optd->bt_changed |= depspan->backtrace_used;
         depspan->backtrace = yasm_xmalloc((optd->span->backtrace_size+1)*
                                           sizeof(yasm_span *));
         if (optd->span->backtrace_size > 0)
@@ -1225,11 +1229,14 @@ check_cycle(IntervalTreeNode *node, void *d)
 
     /* Add our complete backtrace, checking for duplicates */
     depspan_bt_alloc = depspan->backtrace_size;
-    for (i=0; i<optd->span->backtrace_size; i++) {
+    for (i=0; i<=optd->span->backtrace_size; i++) {
+        /* Add ourselves last. */
+        yasm_span *btspan = i < optd->span->backtrace_size ?
+            optd->span->backtrace[i] : optd->span;
         int present = 0;
         int j;
         for (j=0; j<depspan->backtrace_size; j++) {
-            if (optd->span->backtrace[i] == optd->span->backtrace[j]) {
+            if (btspan == depspan->backtrace[j]) {
                 present = 1;
                 break;
             }
@@ -1237,6 +1244,7 @@ check_cycle(IntervalTreeNode *node, void *d)
         if (present)
             continue;
         /* Not already in array; add it. */
+        optd->bt_changed |= depspan->backtrace_used;
         if (depspan->backtrace_size >= depspan_bt_alloc)
         {
             depspan_bt_alloc *= 2;
@@ -1244,20 +1252,9 @@ check_cycle(IntervalTreeNode *node, void *d)
                 yasm_xrealloc(depspan->backtrace,
                               depspan_bt_alloc*sizeof(yasm_span *));
         }
-        depspan->backtrace[depspan->backtrace_size] = optd->span->backtrace[i];
+        depspan->backtrace[depspan->backtrace_size] = btspan;
         depspan->backtrace_size++;
     }
-
-    /* Add ourselves. */
-    if (depspan->backtrace_size >= depspan_bt_alloc)
-    {
-        depspan_bt_alloc++;
-        depspan->backtrace =
-            yasm_xrealloc(depspan->backtrace,
-                          depspan_bt_alloc*sizeof(yasm_span *));
-    }
-    depspan->backtrace[depspan->backtrace_size] = optd->span;
-    depspan->backtrace_size++;
 }
 
 static void
@@ -1484,17 +1481,24 @@ yasm_object_optimize(yasm_object *object, yasm_errwarns *errwarns)
     }
 
     /* Look for cycles in times expansion (span.id==0) */
-    TAILQ_FOREACH(span, &optd.spans, link) {
-        if (span->id > 0)
-            continue;
-        optd.span = span;
-        IT_enumerate(optd.itree, (long)span->bc->bc_index,
-                     (long)span->bc->bc_index, &optd, check_cycle);
-        if (yasm_error_occurred()) {
-            yasm_errwarn_propagate(errwarns, span->bc->line);
-            saw_error = 1;
+    do {
+        /* Repeat while backtraces grow that were already added to others, as
+         * spans may depend on spans that come later.
+         */
+        optd.bt_changed = 0;
+        TAILQ_FOREACH(span, &optd.spans, link) {
+            if (span->id > 0)
+                continue;
+            optd.span = span;
+            span->backtrace_used = 1;
+            IT_enumerate(optd.itree, (long)span->bc->bc_index,
+                         (long)span->bc->bc_index, &optd, check_cycle);
+            if (yasm_error_occurred()) {
+                yasm_errwarn_propagate(errwarns, span->bc->line);
+                saw_error = 1;
+            }
         }
-    }
+    } while (optd.bt_changed && !saw_error);
 
     if (saw_error) {
         optimize_cleanup(&optd);
-- 
2.43.0

