From b67cd6746899c5cd571e3d4eb0c7ee34293cdd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 01/69] fix: i64.extend16_s and i64.extend32_s extend the right
 number of bits

---
 pwart/opgen_num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 5cb9b74..7c43ed0 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -1294,7 +1294,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr2, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S16, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
@@ -1307,7 +1307,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr1, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S32, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
-- 
2.43.0


From 8d87290d4142f3a532b350b526db621d2c01127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 02/69] fix: i64.clz, i64.ctz and i64.popcnt write the whole
 64-bit result

---
 pwart/extfunc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d7bce97..7437080 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -25,9 +25,9 @@ static void insn_i64clz(void *fp){
       x >>= 4, c -= 4;
     if (x >> 2)
       x >>= 2, c -= 2;
-    *(uint32_t *)fp = c - (x >> 1);
+    *(uint64_t *)fp = c - (x >> 1);
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64ctz(void *fp){
@@ -46,9 +46,9 @@ static void insn_i64ctz(void *fp){
       x <<= 2, c -= 2;
     if (x << 1)
       c -= 1;
-    *(uint32_t *)fp = c;
+    *(uint64_t *)fp = c;
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64popcount(void *fp){
@@ -56,7 +56,7 @@ static void insn_i64popcount(void *fp){
   x -= (x & 0xaaaaaaaaaaaaaaaaull) >> 1;
   x = (x & 0x3333333333333333ull) + ((x & 0xccccccccccccccccull) >> 2);
   x = ((x * 0x11) & 0xf0f0f0f0f0f0f0f0ull) >> 4;
-  *(uint32_t *)fp = (uint32_t)((x * 0x0101010101010101ull) >> 56);
+  *(uint64_t *)fp = (x * 0x0101010101010101ull) >> 56;
 }
 
 static void insn_i32clz(void *fp){
-- 
2.43.0


From 2e508fefe8e1a2d54bb414e3e2d131d91391f3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 03/69] fix: copysign takes the magnitude of its first and the
 sign of its second operand

---
 pwart/extfunc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 7437080..316330a 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -228,7 +228,7 @@ static void insn_f32min(float *fp){
   *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
 }
 static void insn_f32copysign(float *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  *fp = copysignf(*fp, *(fp + 1));
 }
 
 static void insn_f64max(double *fp){
@@ -238,7 +238,7 @@ static void insn_f64min(double *fp){
   *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
 }
 static void insn_f64copysign(double *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  *fp = copysign(*fp, *(fp + 1));
 }
 
 static void insn_i32truncf32u(uint32_t *fp){
-- 
2.43.0


From 240fca867435fed66cf5c868be7f2d5907d1db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 04/69] fix: float min and max propagate NaN and order signed
 zeros

---
 pwart/extfunc.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 316330a..7c86449 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -222,20 +222,48 @@ static void insn_i64shrs(int64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 static void insn_i64shru(uint64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 
 static void insn_f32max(float *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  if (isnan(*fp) || isnan(*(fp + 1))) {
+    *fp = *fp + *(fp + 1);
+  } else if (*fp == *(fp + 1)) {
+    // -0 is less than +0
+    *fp = signbit(*fp) ? *(fp + 1) : *fp;
+  } else {
+    *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  }
 }
 static void insn_f32min(float *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  if (isnan(*fp) || isnan(*(fp + 1))) {
+    *fp = *fp + *(fp + 1);
+  } else if (*fp == *(fp + 1)) {
+    // -0 is less than +0
+    *fp = signbit(*fp) ? *fp : *(fp + 1);
+  } else {
+    *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  }
 }
 static void insn_f32copysign(float *fp){
   *fp = copysignf(*fp, *(fp + 1));
 }
 
 static void insn_f64max(double *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  if (isnan(*fp) || isnan(*(fp + 1))) {
+    *fp = *fp + *(fp + 1);
+  } else if (*fp == *(fp + 1)) {
+    // -0 is less than +0
+    *fp = signbit(*fp) ? *(fp + 1) : *fp;
+  } else {
+    *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  }
 }
 static void insn_f64min(double *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  if (isnan(*fp) || isnan(*(fp + 1))) {
+    *fp = *fp + *(fp + 1);
+  } else if (*fp == *(fp + 1)) {
+    // -0 is less than +0
+    *fp = signbit(*fp) ? *fp : *(fp + 1);
+  } else {
+    *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  }
 }
 static void insn_f64copysign(double *fp){
   *fp = copysign(*fp, *(fp + 1));
-- 
2.43.0


From 8b2bded1b6b8e38308c67899be176abef2b00de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 05/69] fix: rem_s of the minimal value by -1 is 0 instead of a
 machine exception

---
 pwart/extfunc.c   |  2 +-
 pwart/opgen_num.c | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 7c86449..b80b551 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -215,7 +215,7 @@ static void insn_i64rotr(uint64_t *fp){
 static void insn_i64mul(uint64_t *fp){ *fp = (*fp) * (*(fp + 1)); }
 static void insn_i64divs(int64_t *fp){ *fp = (*fp) / (*(fp + 1)); }
 static void insn_i64divu(uint64_t *fp){ *fp = (*fp) / (*(fp + 1)); }
-static void insn_i64rems(int64_t *fp){ *fp = (*fp) % (*(fp + 1)); }
+static void insn_i64rems(int64_t *fp){ *fp = *(fp + 1) == -1 ? 0 : (*fp) % (*(fp + 1)); }
 static void insn_i64remu(uint64_t *fp){ *fp = (*fp) % (*(fp + 1)); }
 static void insn_i64shl(uint64_t *fp){ *fp = (*fp) << (*(fp + 1)); }
 static void insn_i64shrs(int64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 7c43ed0..1584a78 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -316,6 +316,18 @@ static void opgen_GenCompareOp(ModuleCompiler *m,int opcode){
   }
 }
 
+// remainder of R0 and R1 to R1, x86 'idiv' overflow when dividing the minimal value by -1
+static void opgen_GenRemS(ModuleCompiler *m, sljit_s32 op) {
+  struct sljit_jump *jump, *jump2;
+  jump = sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL | (op & SLJIT_32), SLJIT_R1, 0,
+                        SLJIT_IMM, -1);
+  sljit_emit_op1(m->jitc, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, 0);
+  jump2 = sljit_emit_jump(m->jitc, SLJIT_JUMP);
+  sljit_set_label(jump, sljit_emit_label(m->jitc));
+  sljit_emit_op0(m->jitc, op);
+  sljit_set_label(jump2, sljit_emit_label(m->jitc));
+}
+
 static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
   StackValue *sv, *sv2;
   int32_t a, b;
@@ -513,7 +525,7 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
         pwart_EmitLoadReg(m, sv2, SLJIT_R1);
       }
       a = SLJIT_R1;
-      sljit_emit_op0(m->jitc, SLJIT_DIVMOD_S32);
+      opgen_GenRemS(m, SLJIT_DIVMOD_S32);
     } break;
     case 0x70: // i32.rem_u
     {
@@ -657,7 +669,7 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
           pwart_EmitLoadReg(m, sv2, SLJIT_R1);
         }
         a = SLJIT_R1;
-        sljit_emit_op0(m->jitc, SLJIT_DIVMOD_SW);
+        opgen_GenRemS(m, SLJIT_DIVMOD_SW);
       } break;
       case 0x82: // i64.rem_u
       {
-- 
2.43.0


From 9f745f1c384edc1d8b76cdef5fdf1cc6d9804143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 06/69] fix: sign extension of LEB128 constants longer than 32
 bits

---
 pwart/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/util.c b/pwart/util.c
index 2bcd459..a9801cc 100644
--- a/pwart/util.c
+++ b/pwart/util.c
@@ -89,7 +89,7 @@ static uint64_t read_LEB_(uint8_t *bytes, uint32_t *pos, uint32_t maxbits, int s
     }
     if (sign && (shift < maxbits) && (byte & 0x40)) {
         // Sign extend
-        result |= - (1 << shift);
+        result |= - ((uint64_t)1 << shift);
     }
     return result;
 }
-- 
2.43.0


From b6f294cdb9a188ac874438e9eccc958c0602e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 07/69] fix: allocate and grow memories by their full byte size

Memories with a maximum are documented to be allocated to the maximum, but
only the initial size was allocated (and growable ones got the maximum), with
sizes computed in 32 bits. memory.grow wrapped around for large deltas, cleared
a truncated range and freed the buffer of an empty memory grown by 0.
---
 pwart/extfunc.c   | 18 ++++++++++++------
 pwart/modparser.c |  8 ++++++--
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index b80b551..1dbc0db 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -320,17 +320,23 @@ static void insn_memorygrow(void *fp){
   uint32_t index=pwart_rstack_get_i32(&sp); // memory index
   RuntimeContext *m=pwart_rstack_get_ref(&sp);
   Memory *mem=*dynarr_get(m->memories,Memory *,index);
-  int32_t prev_pages = mem->pages;
-  if (delta + prev_pages > mem->maximum) {
+  uint32_t prev_pages = mem->pages;
+  if (prev_pages > mem->maximum || delta > mem->maximum - prev_pages) {
     sp=fp;
     pwart_rstack_put_i32(&sp,-1);
     return;
   }
-  mem->pages += delta;
-  if(!mem->fixed){
-    mem->bytes = wa_realloc(mem->bytes, mem->pages * PAGE_SIZE);
-    memset(mem->bytes+prev_pages*PAGE_SIZE,0,delta*PAGE_SIZE);
+  if(!mem->fixed && delta>0){
+    uint8_t *bytes = wa_realloc(mem->bytes, (size_t)(prev_pages+delta) * PAGE_SIZE);
+    if(bytes==NULL){
+      sp=fp;
+      pwart_rstack_put_i32(&sp,-1);
+      return;
+    }
+    memset(bytes+(size_t)prev_pages*PAGE_SIZE,0,(size_t)delta*PAGE_SIZE);
+    mem->bytes = bytes;
   }
+  mem->pages += delta;
   sp=fp;
   pwart_rstack_put_i32(&sp,prev_pages);
   return;
diff --git a/pwart/modparser.c b/pwart/modparser.c
index f1f40c3..611b966 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -329,9 +329,13 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 parse_memory_type(m, &pos,memory);
                 //XXX: custom memory creator?
                 if(memory->fixed){
-                    memory->bytes = wa_calloc(memory->initial*PAGE_SIZE);
+                    // base never change, so allocate to maximum.
+                    memory->bytes = wa_calloc((size_t)memory->maximum*PAGE_SIZE);
                 }else{
-                    memory->bytes = wa_calloc(memory->maximum*PAGE_SIZE);
+                    memory->bytes = wa_calloc((size_t)memory->initial*PAGE_SIZE);
+                }
+                if(memory->bytes==NULL){
+                    return "out of memory";
                 }
                 *dynarr_push_type(&m->context->memories,Memory *)=memory;
             }
-- 
2.43.0


From cd317151b11b9238288ab20bc21e4d4c2c425298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 08/69] fix: the scan phase reads the memory index of a memarg
 before the offset

---
 pwart/wagen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 2a0a59f..f05d7ac 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -224,8 +224,8 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case 0x28:  case 0x29:  case 0x2a:  case 0x2b:  case 0x2c:  case 0x2d:  case 0x2e:  case 0x2f:  case 0x30:  case 0x31:  case 0x32:  case 0x33:  case 0x34:  case 0x35:  case 0x36:  case 0x37:  case 0x38:  case 0x39:  case 0x3a:  case 0x3b:  case 0x3c:  case 0x3d:  case 0x3e: 
       midx=0;
       arg = read_LEB(m->bytes, &m->pc, 32);
-      offset = read_LEB(m->bytes, &m->pc, 32);
       if(arg&0x40)midx=read_LEB(m->bytes, &m->pc, 32);
+      offset = read_LEB(m->bytes, &m->pc, 32);
       if(m->cached_midx<0 && (*dynarr_get(m->context->memories,Memory *,midx))->bytes!=NULL){
         m->mem_base_local = -2;
         m->cached_midx=midx;
-- 
2.43.0


From a144edeb28b99261a2cefd53bcf9ed1246388f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 09/69] fix: typed select is a control operator with a list of
 types

---
 pwart/opgen_ctl.c | 5 ++++-
 pwart/wagen.c     | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index e5325c4..6fb43b8 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -372,7 +372,10 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
     opgen_GenDrop(m);
     break;
   case WASMOPC_select_t:                     // select t
-    m->pc++;
+    count = read_LEB(bytes, &m->pc, 32);
+    for (uint32_t i = 0; i < count; i++) {
+      read_LEB(bytes, &m->pc, 32);
+    }
   case WASMOPC_select:                     // select
     opgen_GenSelect(m);
     break;
diff --git a/pwart/wagen.c b/pwart/wagen.c
index f05d7ac..e12a222 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -48,7 +48,10 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     read_LEB(bytes, pos, 1);
     break;
   case 0x1c: // select t
-    read_LEB(bytes, pos, 32);
+    count = read_LEB(bytes, pos, 32);
+    for (uint32_t i = 0; i < count; i++) {
+      read_LEB(bytes, pos, 32);
+    }
     break;
   // varint64
   case 0x42: // i64.const
@@ -334,7 +337,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
       pwart_EmitStackValueLoadReg(m, &m->stack[m->sp]);
     }
 
-    if (opcode >= 0 && opcode <= 0x1b) {
+    if (opcode >= 0 && opcode <= WASMOPC_select_t) {
       ReturnIfErr(opgen_GenCtlOp(m, opcode));
     } else if (opcode <= 0x44) {
       ReturnIfErr(opgen_GenMemOp(m, opcode));
-- 
2.43.0


From b3b8fc3544405d8f4db778340d61c519082b4992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 10/69] fix: the instruction scan knows the immediates of every
 opcode and refuses unknown ones

Sub opcodes and table and memory indices are LEB128 numbers of any length, and
an unsupported instruction must not make the scan run over its immediates.
---
 pwart/opgen_ctl.c  |  2 +-
 pwart/opgen_misc.c | 19 +++++++++----------
 pwart/wagen.c      | 33 +++++++++++++++++++++------------
 3 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 6fb43b8..e54ef92 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -362,7 +362,7 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
   case WASMOPC_call_indirect:
   case WASMOPC_return_call_indirect:
     tidx = read_LEB(bytes, &m->pc, 32);
-    tabidx=read_LEB(bytes, &m->pc, 1); // tableidx. only support 1 table now.
+    tabidx=read_LEB(bytes, &m->pc, 32); // tableidx.
     opgen_GenCallIndirect(m, tidx, tabidx,opcode==WASMOPC_return_call_indirect);
     break;
   //
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index e7c4cb3..cc1a646 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -98,24 +98,24 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
     opgen_GenNumOp(m,0xb1);
     break; 
     case 0x0a: //memory.copy
-    a=read_LEB_signed(m->bytes,&m->pc,32); //destination memory index
-    b=read_LEB_signed(m->bytes,&m->pc,32); //source memory index
+    a=read_LEB(m->bytes,&m->pc,32); //destination memory index
+    b=read_LEB(m->bytes,&m->pc,32); //source memory index
     opgen_GenMemoryCopy(m,a,b);
     break;
     case 0x0b: //memory.fill
-    a=read_LEB_signed(m->bytes,&m->pc,32); //destination memory index
+    a=read_LEB(m->bytes,&m->pc,32); //destination memory index
     opgen_GenMemoryFill(m,a);
     break;
     case 0x0e: //table.copy
     {
-      int32_t dtab=read_LEB_signed(m->bytes,&m->pc,32); //destination table index
-      int32_t stab=read_LEB_signed(m->bytes,&m->pc,32); //source table index
+      int32_t dtab=read_LEB(m->bytes,&m->pc,32); //destination table index
+      int32_t stab=read_LEB(m->bytes,&m->pc,32); //source table index
       opgen_GenTableCopy(m,dtab,stab);
     }
     break;
     case 0x0f: //table.grow
     //table are not allowed to grow
-    read_LEB_signed(m->bytes,&m->pc,32); //table index
+    read_LEB(m->bytes,&m->pc,32); //table index
     m->sp-=2;
     sv=stackvalue_Push(m,WVT_I32);
     sv->val.op=SLJIT_IMM;
@@ -123,13 +123,13 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
     break;
     case 0x10: //table.size
     {
-      uint32_t tabidx=read_LEB_signed(m->bytes,&m->pc,32);
+      uint32_t tabidx=read_LEB(m->bytes,&m->pc,32);
       opgen_GenTableSize(m,tabidx);
     }
     break;
     case 0x11:  //table.fill
     {
-      uint32_t tabidx=read_LEB_signed(m->bytes,&m->pc,32);
+      uint32_t tabidx=read_LEB(m->bytes,&m->pc,32);
       opgen_GenTableFill(m,tabidx);
     }
     break;
@@ -156,8 +156,7 @@ static char *opgen_GenMiscOp(ModuleCompiler *m, int opcode) {
     opgen_GenRefFunc(m, fidx);
     break;
   case 0xfc: // misc prefix
-    opcode2=m->bytes[m->pc];
-    m->pc++;
+    opcode2=read_LEB(bytes, &m->pc, 32);
     ReturnIfErr(opgen_GenMiscOp_FC(m,opcode2));
     break;
   default:
diff --git a/pwart/wagen.c b/pwart/wagen.c
index e12a222..36a5bfd 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -11,17 +11,19 @@
 #include "opgen_misc.c"
 
 
-static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
+//return NULL if succeeded, or error message if the opcode is unknown.
+static char *wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
   uint32_t count, opcode = bytes[*pos];
   *pos = *pos + 1;
   switch (opcode) {
-  // varuint1
   case 0x3f: case 0x40: // current_memory, memory.grow
-    read_LEB(bytes, pos, 1);
+    read_LEB(bytes, pos, 32);
     break;
   // varuint32, varint32
   case 0x0c: case 0x0d: // br, br_if
   case 0x10:          // call
+  case 0x12:          // return_call
+  case 0x25: case 0x26: // table.get, table.set
     read_LEB(bytes, pos, 32);
     break;
   case 0x20: //local.get
@@ -42,10 +44,11 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
   case 0x41:          // i32.const
     read_LEB(bytes, pos, 32);
     break;
-  // varuint32 + varuint1
+  // varuint32 + varuint32
   case 0x11: // call_indirect
+  case 0x13: // return_call_indirect
+    read_LEB(bytes, pos, 32);
     read_LEB(bytes, pos, 32);
-    read_LEB(bytes, pos, 1);
     break;
   case 0x1c: // select t
     count = read_LEB(bytes, pos, 32);
@@ -88,24 +91,30 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   case 0xfc: //misc op.
   {
-    int opc2=bytes[*pos];
-    *pos = *pos + 1;
+    uint32_t opc2=read_LEB(bytes,pos,32);
     switch(opc2){
-      case 0xa:
-      case 0xe:
+      case 0x08: case 0x0a: case 0x0c: case 0x0e: // memory.init, memory.copy, table.init, table.copy
       read_LEB(bytes,pos,32); 
       read_LEB(bytes,pos,32); 
       break;
-      case 0x0b:
+      case 0x09: case 0x0b: case 0x0d: // data.drop, memory.fill, elem.drop
       case 0x0f: case 0x10: case 0x11:
       read_LEB(bytes,pos,32); 
       break;
+      default:
+      if(opc2>0x11)return "unrecognized opcode";
+      break;
     }
   }
     break;
   default: // no immediates
+    if((opcode>0x05 && opcode<0x0b) || (opcode>0x13 && opcode<0x1a) || (opcode>0x1c && opcode<0x20) || 
+      opcode==0x27 || (opcode>0xc4 && opcode<0xd0) || opcode>0xd2){
+      return "unrecognized opcode";
+    }
     break;
   }
+  return NULL;
 }
 
 
@@ -206,7 +215,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case WASMOPC_call_indirect:
     case WASMOPC_return_call_indirect:
       tidx = read_LEB(bytes, &m->pc, 32); //type
-      tabidx=read_LEB(bytes, &m->pc, 1); //table index
+      tabidx=read_LEB(bytes, &m->pc, 32); //table index
       if(tabidx==0)m->table_entries_local = -2;
       break;
     case 0x23: // global.get
@@ -260,7 +269,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
       break;
     default:
       m->pc--;
-      wasm_SkipImmediates(m->bytes, &m->pc);
+      ReturnIfErr(wasm_SkipImmediates(m->bytes, &m->pc));
       break;
     }
   }
-- 
2.43.0


From 5f6bd56a45496ef0bbbcfafeff77f948f52478d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 11/69] fix: branches carry their value to the block's result
 slot, code after a branch is skipped

---
 pwart/def.h         |   3 +-
 pwart/opgen_ctl.c   | 213 ++++++++++++++++++++++++++------------------
 pwart/opgen_utils.c |  30 ++++---
 pwart/wagen.c       |  13 +++
 4 files changed, 162 insertions(+), 97 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index f0cfee0..049bac7 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -67,6 +67,7 @@ typedef struct Block {
                               // 0x02: block, 0x03: loop, 0x04: if
     int8_t     stack_offset;  //stack offset after block end.
     int16_t    saved_sp;      //sp when enter block.
+    uint8_t    result_type;   //type of the value block leave on stack, valid if stack_offset is 1.
     //Type      *type;           params/results type
     struct sljit_jump *else_jump;     // if block only
     struct sljit_label *br_label;       // blocks only
@@ -198,7 +199,7 @@ typedef struct ModuleCompiler {
     struct dynarr *blocks; // block stacks, block type
     struct dynarr *br_table; // br_table branch indexes, uint32_t type
     uint8_t eof;      // end of function
-    int8_t block_returned; //the block has br/return out.
+    int8_t block_returned; //the block has br/return out, code up to the end of block is unreachable.
 
     //prepare info, used in compile time
     #if DEBUG_BUILD
diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index e54ef92..e5ce612 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -7,17 +7,63 @@
 #include "opgen_utils.c"
 
 static void opgen_GenUnreachable(ModuleCompiler *m) {
-  //just do nothing now.
+  //no trap now, just leave the function.
+  sljit_emit_return_void(m->jitc);
+  m->block_returned=1;
+}
+
+//Set block result according to block type (0x40 or value type).
+static void opgen_SetBlockType(Block *block,int blktype){
+  block->stack_offset=(blktype==0x40)?0:1;
+  block->result_type=blktype;
+}
+
+//Store the stack top to the slot where the block leave its result. Every path to the end of block must do this.
+static void opgen_EmitStoreBlockResult(ModuleCompiler *m,Block *block){
+  if(block->stack_offset>0){
+    pwart_EmitStoreStackValue(m,&m->stack[m->sp],SLJIT_MEM1(SLJIT_S0),
+      stackvalue_GetSlotOffset(m,block->saved_sp+1,block->result_type));
+  }
+}
+
+//return 1 if branch to the block need only a jump, if not, the branch must move values first.
+static int opgen_IsSimpleBranch(ModuleCompiler *m,Block *block){
+  StackValue *sv;
+  if(block->block_type==0x00)return 0;
+  if(block->block_type==0x3 || block->stack_offset==0)return 1;
+  sv=&m->stack[m->sp];
+  return sv->val.op==SLJIT_MEM1(SLJIT_S0) && 
+    sv->val.opw==stackvalue_GetSlotOffset(m,block->saved_sp+1,block->result_type);
+}
+
+static void opgen_SetBranchTarget(Block *block,struct sljit_jump *jump){
+  if (block->br_label != NULL) {
+    sljit_set_label(jump, block->br_label);
+  } else {
+    *dynarr_push_type(&block->br_jump, struct sljit_jump *) = jump;
+  }
 }
 
-static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
+//Emit branch to the block. The value carried by branch is stack top.
+static void opgen_EmitBranch(ModuleCompiler *m,Block *block){
+  if(block->block_type==0x00){
+    pwart_EmitFuncReturn(m);
+    return;
+  }
+  if(block->block_type!=0x3){
+    opgen_EmitStoreBlockResult(m,block);
+  }
+  opgen_SetBranchTarget(block,sljit_emit_jump(m->jitc, SLJIT_JUMP));
+}
+
+static void opgen_GenBlock(ModuleCompiler *m,int blktype) {
   Block *block;
   pwart_EmitSaveStackAll(m);
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x2;
   dynarr_init(&block->br_jump, sizeof(struct sljit_jump *));
   block->else_jump = NULL;
-  block->stack_offset=stackOffset;
+  opgen_SetBlockType(block,blktype);
   block->saved_sp=m->sp;
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -25,13 +71,13 @@ static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
   #endif
 }
 /* blktype 0x40 indicating the empty type. */
-static void opgen_GenLoop(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenLoop(ModuleCompiler *m,int blktype) {
   Block *block;
   pwart_EmitSaveStackAll(m);
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x3;
   block->br_label = sljit_emit_label(m->jitc);
-  block->stack_offset=stackOffset;
+  opgen_SetBlockType(block,blktype);
   block->saved_sp=m->sp;
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -39,7 +85,7 @@ static void opgen_GenLoop(ModuleCompiler *m,int stackOffset) {
   #endif
 }
 /* blktype 0x40 indicating the empty type. */
-static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenIf(ModuleCompiler *m,int blktype) {
   Block *block;
   StackValue *sv;
   struct sljit_jump *jump;
@@ -68,20 +114,22 @@ static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
   }
   block->else_jump = jump;
   m->sp--;
-  block->stack_offset=stackOffset;
+  opgen_SetBlockType(block,blktype);
   block->saved_sp=m->sp;
   
 }
 
 static void opgen_GenElse(ModuleCompiler *m) {
   Block *block;
-  pwart_EmitSaveStackAll(m);
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1);
-  *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-      sljit_emit_jump(m->jitc, SLJIT_JUMP);
+  if(!m->block_returned){
+    pwart_EmitSaveStackAll(m);
+    opgen_EmitBranch(m,block);
+  }
   sljit_set_label(block->else_jump, sljit_emit_label(m->jitc));
   block->else_jump = NULL;
   m->sp=block->saved_sp;
+  m->block_returned=0;
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
@@ -91,27 +139,37 @@ static void opgen_GenElse(ModuleCompiler *m) {
 static void opgen_GenEnd(ModuleCompiler *m) {
   struct sljit_jump *sj;
   Block *block = dynarr_pop_type(&m->blocks, Block);
+  StackValue *sv;
   int a;
-  if (block->block_type == 0x2 || block->block_type == 0x4) {
-    pwart_EmitSaveStackAll(m);
-    // if block
-    block->br_label = sljit_emit_label(m->jitc);
-    for (a = 0; a < block->br_jump->len; a++) {
-      sj = *dynarr_get(block->br_jump, struct sljit_jump *, a);
-      sljit_set_label(sj, block->br_label);
-    }
-    // if block, ensure else_jump have target.
-    if (block->else_jump != NULL) {
-      sljit_set_label(block->else_jump, block->br_label);
-    }
-  } else if (block->block_type == 0x00) {
+  if (block->block_type == 0x00) {
     // function
     if(!m->block_returned){
       pwart_EmitFuncReturn(m);
     }
     m->eof = 1;
-  } 
-  m->sp=block->saved_sp+block->stack_offset;
+  } else if (block->block_type != 0x3 || m->block_returned) {
+    if(!m->block_returned){
+      pwart_EmitSaveStackAll(m);
+      opgen_EmitStoreBlockResult(m,block);
+    }
+    if (block->block_type != 0x3) {
+      block->br_label = sljit_emit_label(m->jitc);
+      for (a = 0; a < block->br_jump->len; a++) {
+        sj = *dynarr_get(block->br_jump, struct sljit_jump *, a);
+        sljit_set_label(sj, block->br_label);
+      }
+      // if block, ensure else_jump have target.
+      if (block->else_jump != NULL) {
+        sljit_set_label(block->else_jump, block->br_label);
+      }
+    }
+    m->sp=block->saved_sp;
+    if(block->stack_offset>0){
+      sv=stackvalue_Push(m,block->result_type);
+      sv->val.op=SLJIT_MEM1(SLJIT_S0);
+      sv->val.opw=sv->frame_offset;
+    }
+  }
   if (block->br_jump != NULL) {
     dynarr_free(&block->br_jump);
   }
@@ -130,20 +188,15 @@ static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
-  if(block->block_type==0x2 || block->block_type==0x4){
-    m->block_returned=1;
-  }
+  opgen_EmitBranch(m,block);
+  m->block_returned=1;
 }
 
 static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   StackValue *sv;
   Block *block;
+  struct sljit_jump *jump;
+  int simple;
   StackValue *stack = m->stack;
   sv = &stack[m->sp];
   // stack top will be remove soon. Don't save it here.
@@ -156,29 +209,27 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (sv->jit_type == SVT_CMP) {
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_jump(m->jitc, sv->val.cmp.flag),
-                      block->br_label);
-    } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-          sljit_emit_jump(m->jitc, sv->val.cmp.flag);
-    }
-  } else if (sv->jit_type == SVT_GENERAL) {
+  if (sv->jit_type == SVT_GENERAL) {
     // sljit_emit_cmp always use machine word length, So load to register first.
     pwart_EmitStackValueLoadReg(m, sv);
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL, sv->val.op,
-                                     sv->val.opw, SLJIT_IMM, 0),
-                      block->br_label);
-    } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) = sljit_emit_cmp(
-          m->jitc, SLJIT_NOT_EQUAL, sv->val.op, sv->val.opw, SLJIT_IMM, 0);
-    }
+  }
+  m->sp--;
+  // if values need to be moved, jump over the branch.
+  simple=opgen_IsSimpleBranch(m,block);
+  if (sv->jit_type == SVT_CMP) {
+    //inverse flag, we supposed inverse flag are always set.
+    jump = sljit_emit_jump(m->jitc, simple?sv->val.cmp.flag:(sv->val.cmp.flag^0x1));
+  } else if (sv->jit_type == SVT_GENERAL) {
+    jump = sljit_emit_cmp(m->jitc, simple?SLJIT_NOT_EQUAL:SLJIT_EQUAL, sv->val.op, sv->val.opw, SLJIT_IMM, 0);
   } else {
     SLJIT_UNREACHABLE();
   }
-  m->sp--;
+  if(simple){
+    opgen_SetBranchTarget(block,jump);
+  }else{
+    opgen_EmitBranch(m,block);
+    sljit_set_label(jump,sljit_emit_label(m->jitc));
+  }
 }
 
 static void opgen_GenBrTable(ModuleCompiler *m) {
@@ -186,6 +237,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   int a, count;
   Block *block;
   StackValue *sv;
+  struct sljit_jump *jump;
   sv=m->stack+m->sp;
   count = m->br_table->len-1;
   for (int i = 0; i < m->sp; i++) {
@@ -197,34 +249,26 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   pwart_EmitStackValueLoadReg(m, sv);
+  m->sp--;
   for (a = 0; a < count; a++) {
     depth = *dynarr_get(m->br_table, uint32_t, a);
     block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-    if (a == 0) {
-      sljit_emit_op2u(m->jitc, SLJIT_AND | SLJIT_SET_Z, sv->val.op, sv->val.opw,
-                      sv->val.op, sv->val.opw);
-    } else {
-      sljit_emit_op2(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op,
-                     sv->val.opw, sv->val.op, sv->val.opw, SLJIT_IMM, 1);
-    }
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_ZERO), block->br_label);
+    // sv may be a local variable, don't write it.
+    sljit_emit_op2u(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op, sv->val.opw, SLJIT_IMM, a);
+    if (opgen_IsSimpleBranch(m,block)) {
+      opgen_SetBranchTarget(block,sljit_emit_jump(m->jitc, SLJIT_ZERO));
     } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-          sljit_emit_jump(m->jitc, SLJIT_ZERO);
+      jump=sljit_emit_jump(m->jitc, SLJIT_NOT_ZERO);
+      opgen_EmitBranch(m,block);
+      sljit_set_label(jump,sljit_emit_label(m->jitc));
     }
   }
 
   // default
   depth = *dynarr_get(m->br_table, uint32_t, count);
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
-  m->sp--;
+  opgen_EmitBranch(m,block);
+  m->block_returned=1;
 }
 
 static void opgen_GenReturn(ModuleCompiler *m) {
@@ -232,8 +276,6 @@ static void opgen_GenReturn(ModuleCompiler *m) {
   debug_checkreturnstack(m);
   #endif
   pwart_EmitFuncReturn(m);
-  // pop all value in stack, to avoid unnecessary value saved.
-  m->sp = -1;
   m->block_returned=1;
 }
 
@@ -248,6 +290,8 @@ static void opgen_GenCall(ModuleCompiler *m, int32_t fidx, int callReturn) {
     sljit_emit_op1(m->jitc, SLJIT_MOV, a, 0, SLJIT_IMM,(sljit_uw)(m->context->funcentries+fidx));
     type = dynarr_get(m->types, Type, fn->tidx);
     pwart_EmitCallFunc2(m, type, SLJIT_MEM1(a), 0,callReturn);
+  }else if(callReturn){
+    opgen_GenReturn(m);
   }
 }
 
@@ -292,12 +336,10 @@ static void opgen_GenSelect(ModuleCompiler *m) {
   sljit_set_label(jump, sljit_emit_label(m->jitc));
 }
 
-static char *opgen_ParseBlockStackOffset(ModuleCompiler *m,int *stackOffset){
-  if(*(m->bytes+m->pc)==0x40){
-    *stackOffset=0;
-    m->pc++;
-  }else if(((*(m->bytes+m->pc))&0xC0)==0x40){
-    *stackOffset=1;
+//read block type, 0x40 or value type.
+static char *opgen_ParseBlockType(ModuleCompiler *m,int *blktype){
+  if(((*(m->bytes+m->pc))&0xC0)==0x40){
+    *blktype=*(m->bytes+m->pc);
     m->pc++;
   }else{
     return "Not support type index for block type";
@@ -307,7 +349,8 @@ static char *opgen_ParseBlockStackOffset(ModuleCompiler *m,int *stackOffset){
 
 static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
   uint8_t *bytes = m->bytes;
-  int32_t blktype, depth, count, *i32p, fidx, tidx,tabidx;
+  int32_t depth, count, *i32p, fidx, tidx,tabidx;
+  int blktype;
 
   switch (opcode) {
   case 0x00: // unreachable
@@ -316,16 +359,16 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
   case 0x01: // nop
     break;
   case 0x02: // block
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
-    opgen_GenBlock(m,count);
+    ReturnIfErr(opgen_ParseBlockType(m,&blktype));
+    opgen_GenBlock(m,blktype);
     break;
   case 0x03: // loop
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
-    opgen_GenLoop(m,count);
+    ReturnIfErr(opgen_ParseBlockType(m,&blktype));
+    opgen_GenLoop(m,blktype);
     break;
   case 0x04: // if
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
-    opgen_GenIf(m,count);
+    ReturnIfErr(opgen_ParseBlockType(m,&blktype));
+    opgen_GenIf(m,blktype);
     break;
   case 0x05: // else
     opgen_GenElse(m);
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 5be0754..7f61f5b 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -302,24 +302,32 @@ static inline size_t get_funcarr_offset(ModuleCompiler *m) {
   return offsetof(RuntimeContext, funcentries);
 }
 
+//return frame offset of operand stack slot 'idx', if it hold a value of 'wasm_type'.
+static uint32_t stackvalue_GetSlotOffset(ModuleCompiler *m,int idx,int32_t wasm_type){
+  StackValue *sv,slot;
+  uint32_t offset;
+  if (idx == 0) {
+    // first stack value
+    return m->first_stackvalue_offset;
+  }
+  sv = &m->stack[idx-1];
+  slot.wasm_type=wasm_type;
+  offset = sv->frame_offset + stackvalue_GetSizeAndAlign(sv, NULL);
+  if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+    offset=stackvalue_GetAlignedOffset(&slot,offset,NULL);
+  }
+  return offset;
+}
+
 // Don't emit any code here.
 // Don't write other stackvalue (due to stackvalue_EmitSwapTopTwoValue
 // function).
 static StackValue *stackvalue_Push(ModuleCompiler *m, int32_t wasm_type) {
-  StackValue *sv2,*sv;
+  StackValue *sv2;
   sv2 = &m->stack[++m->sp];
   sv2->jit_type = SVT_GENERAL;
   sv2->wasm_type=wasm_type;
-  if (sv2 - m->stack == 0) {
-    // first stack value
-    sv2->frame_offset = m->first_stackvalue_offset;
-  } else {
-    sv = sv2 - 1;
-    sv2->frame_offset = sv->frame_offset + stackvalue_GetSizeAndAlign(sv, NULL);
-    if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
-      sv2->frame_offset=stackvalue_GetAlignedOffset(sv2,sv2->frame_offset,NULL);
-    }
-  }
+  sv2->frame_offset=stackvalue_GetSlotOffset(m,m->sp,wasm_type);
   wa_assert(m->sp<OPERAND_STACK_COUNT-1,"operand stack overflow");
   return sv2;
 }
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 36a5bfd..ed734bd 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -306,6 +306,7 @@ s0(arg0) contains stack frame pointer.
 static char *pwart_GenCode(ModuleCompiler *m) {
   Block *block;
   int opcode,cur_pc;
+  int skip_depth=0;  //nested blocks opened in unreachable code.
 
   #if DEBUG_BUILD
   int insnCnt2=0;
@@ -340,6 +341,18 @@ static char *pwart_GenCode(ModuleCompiler *m) {
     m->insnCnt--;
 #endif
 
+    if (m->block_returned && (skip_depth>0 || (opcode!=0x05 && opcode!=WASMOPC_end))) {
+      // unreachable code, the operand stack is unknown here, so skip to the end of block.
+      if(opcode==0x02 || opcode==0x03 || opcode==WASMOPC_if){
+        skip_depth++;
+      }else if(opcode==WASMOPC_end){
+        skip_depth--;
+      }
+      m->pc--;
+      ReturnIfErr(wasm_SkipImmediates(m->bytes, &m->pc));
+      continue;
+    }
+
     // XXX: save flag if next op is not if, br_if or i32.eqz(not).
     if (m->sp>=0 && m->stack[m->sp].jit_type == SVT_CMP && 
     opcode != WASMOPC_if && opcode != WASMOPC_br_if && opcode != WASMOPC_i32_eqz && opcode !=WASMOPC_select && opcode != WASMOPC_select_t) {
-- 
2.43.0


From 6f2ac1ce3942d53df556de92c148afb0c2d7a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 12/69] fix: return and tail call values, and results of moved
 call frames, are not overwritten while moved

---
 pwart/opgen_utils.c | 75 ++++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 35 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 7f61f5b..fef9822 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -366,6 +366,28 @@ static void stackvalue_EmitSwapTopTwoValue(ModuleCompiler *m) {
 }
 
 
+//Move top 'len' stack values to the start of the frame, as function results or tail call arguments.
+static void pwart_EmitMoveToFrameBase(ModuleCompiler *m,int len){
+  StackValue *sv;
+  int idx,off,pass;
+  //Values in parameters area may be overwritten by the values before them, So save them to their own slot in the first pass.
+  for(pass=0;pass<2;pass++){
+    off=0;
+    for (idx = 0; idx < len; idx++) {
+      sv = &m->stack[m->sp - len + idx + 1];
+      if(pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN){
+        off=stackvalue_GetAlignedOffset(sv,off,NULL);
+      }
+      if(pass==1){
+        pwart_EmitStoreStackValue(m, sv, SLJIT_MEM1(SLJIT_S0), off);
+      }else if(sv->jit_type==SVT_GENERAL && sv->val.op==SLJIT_MEM1(SLJIT_S0) && sv->val.opw<off){
+        pwart_EmitSaveStack(m, sv);
+      }
+      off += stackvalue_GetSizeAndAlign(sv, NULL);
+    }
+  }
+}
+
 static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg,
                               sljit_sw offset,int callReturn) {
   StackValue *sv;
@@ -389,7 +411,14 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
   }
   sv = m->stack+m->sp + 1; // first argument
 
-  if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
+  if(callReturn){
+    //tail call
+    m->sp+=len;
+    pwart_EmitMoveToFrameBase(m,len);
+    //move sp back
+    m->sp-=len;
+    sv->frame_offset=0;
+  }else if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
     //XXX: move stack value to align frame to 8 ,we should avoid this happen.
     sv->frame_offset+=4;
     if(len>0){
@@ -409,22 +438,6 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
       m->sp-=len;
       sv=m->stack+m->sp+1; // first argument
     }
-  }else if(callReturn){
-    //tail call
-    sv->frame_offset=0;
-    if(len>0){
-      pwart_EmitSaveStack(m,sv);
-      b=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
-      m->sp+=len;
-      for(a=1;a<len;a++){
-        sv++;
-        sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
-        pwart_EmitSaveStack(m,sv);
-      }
-      //move sp back
-      m->sp-=len;
-      sv=m->stack+m->sp+1; // first argument
-    }
   }else{
     for(i=len;i>0;i--){
       m->sp++;
@@ -448,15 +461,18 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
     m->block_returned=1;
   }
   len = strlen((const char *)type->results);
+  //offset of results, if the frame is moved, move results back to their own slot.
+  b=func_frame_offset;
   for (a = 0; a < len; a++) {
-    b = type->results[a];
-    sv = stackvalue_Push(m, b);
+    sv = stackvalue_Push(m, type->results[a]);
     sv->jit_type = SVT_GENERAL;
     sv->val.op = SLJIT_MEM1(SLJIT_S0);
-    if(a==0){
-      sv->frame_offset=func_frame_offset;
+    if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+      b=stackvalue_GetAlignedOffset(sv,b,NULL);
     }
-    sv->val.opw = sv->frame_offset;
+    sv->val.opw = b;
+    b+=stackvalue_GetSizeAndAlign(sv,NULL);
+    pwart_EmitSaveStack(m,sv);
   }
   
   if((m->mem_base_local >= 0)){
@@ -481,24 +497,13 @@ static char *pwart_EmitCallFunc(ModuleCompiler *m, Type *type, sljit_s32 memreg,
 }
 
 static char *pwart_EmitFuncReturn(ModuleCompiler *m) {
-  int idx, len, off;
-  StackValue *sv;
-  off = 0;
+  int len;
   len = strlen((const char *)m->function_type->results);
   if(m->sp+1<len){
     /* maybe unreachable code, Do nothing */
     return NULL;
   }
-  for (idx = 0; idx < len; idx++) {
-    sv = &m->stack[m->sp - len + idx + 1];
-    if(pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN){
-      pwart_EmitStoreStackValue(m, sv, SLJIT_MEM1(SLJIT_S0),
-        stackvalue_GetAlignedOffset(sv,off,&off));
-    }else{
-      pwart_EmitStoreStackValue(m, sv, SLJIT_MEM1(SLJIT_S0), off);
-      off += stackvalue_GetSizeAndAlign(sv, NULL);
-    }
-  }
+  pwart_EmitMoveToFrameBase(m, len);
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc);
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintFuncReturn);
-- 
2.43.0


From 9abc152bc9ee6bbca0e8ded41c058398e8d5724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 13/69] fix: float registers are saved across calls and never
 allocated past the last one

---
 pwart/opgen_utils.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index fef9822..1659928 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -230,11 +230,15 @@ static char* pwart_EmitSaveStackAll(ModuleCompiler *m) {
 }
 
 static char* pwart_EmitSaveScratchRegisterAll(ModuleCompiler *m,int upstack) {
-  int i,usereg=0;
+  int i,usereg=0,firstsaved;
   for (i = 0; i <= m->sp-upstack; i++) {
     if(m->stack[i].jit_type==SVT_GENERAL){
       usereg=SLJIT_GET_REG_PART(m->stack[i].val.op);
-      if(usereg!=0 && usereg< SLJIT_FIRST_SAVED_REG){
+      firstsaved=SLJIT_FIRST_SAVED_REG;
+      if(stackvalue_IsFloat(m->stack+i) && (m->stack[i].val.op & SLJIT_MEM)==0){
+        firstsaved=SLJIT_FIRST_SAVED_FLOAT_REG;
+      }
+      if(usereg!=0 && usereg< firstsaved){
         pwart_EmitSaveStack(m,m->stack+i);
       }
     }else if(m->stack[i].jit_type==SVT_TWO_REG){
@@ -577,7 +581,7 @@ static sljit_s32 pwart_GetFreeReg(ModuleCompiler *m, sljit_s32 regtype, int upst
     }
   } else {
     for (fr = SLJIT_FR0;
-         fr <= SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
+         fr < SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
       if (m->float_registers_status[fr - SLJIT_FR0] & RS_RESERVED) {
         continue;
       }
-- 
2.43.0


From 71402478528c4672ef57629f6a7f08dafd41010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 14/69] fix: x86 binary operations whose destination is the
 address register of the second source

---
 sljit/sljit_src/sljitNativeX86_common.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 76e9a76..104675b 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2109,7 +2109,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2182,7 +2182,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2311,7 +2311,7 @@ static sljit_s32 emit_mul(struct sljit_compiler *compiler,
 		FAIL_IF(emit_groupf(compiler, IMUL_r_rm, dst_r, src2, src2w));
 	}
 
-	if (dst & SLJIT_MEM)
+	if (dst_r == TMP_REG1)
 		EMIT_MOV(compiler, dst, dstw, TMP_REG1, 0);
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From 08770b654145050310817c90e3a3c6efa5fdf1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 15/69] fix: pools serve requests larger than a chunk

---
 pwart/util.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pwart/util.c b/pwart/util.c
index a9801cc..bd2a1f8 100644
--- a/pwart/util.c
+++ b/pwart/util.c
@@ -202,11 +202,13 @@ static void pool_init(struct pool *p,int chunk_size){
     p->chunk_size=chunk_size;
 }
 
-//alloc size must less than chunk_size
 static char *pool_alloc(struct pool *p,int size){
-    wa_assert(size<=p->chunk_size,"pool_alloc require size<chunk_size");
     char *r;
-    if(p->used+size<=p->chunk_size){
+    if(size>p->chunk_size){
+        //too large, use separate chunk, and keep current chunk.
+        r=wa_calloc(size);
+        *dynarr_push_type(&p->chunks,char *)=r;
+    }else if(p->used+size<=p->chunk_size){
         r=*dynarr_get(p->chunks,char *,p->cur)+p->used;
         p->used+=size;
     }else{
-- 
2.43.0


From 1925274186acc37a0e2fd0ee791df5edab4eeed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 16/69] fix: f64 locals are zero initialised with all 8 bytes

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 1659928..9479a99 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -775,7 +775,7 @@ static char* pwart_EmitFuncEnter(ModuleCompiler *m) {
         opgen_GenF32Const(m,(uint8_t *)&f32zero);
         break;
         case WVT_F64:
-        opgen_GenF32Const(m,(uint8_t *)&f64zero);
+        opgen_GenF64Const(m,(uint8_t *)&f64zero);
         break;
         case WVT_I32:
         opgen_GenI32Const(m,0);
-- 
2.43.0


From b4c5a3f7e865149afa9a88ce3ac6ebda3075ad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 17/69] fix: ref.null in a constant expression has a type
 immediate

---
 pwart/extfunc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 1dbc0db..6103276 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -557,6 +557,7 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
         }
       } break;
       case 0xd0: //ref.null
+        read_LEB(m->bytes, &m->pc, 32); // ref type
         *(void **)sp=NULL;
         sp+=m->target_ptr_size/8;
         break;
-- 
2.43.0


From 357efa3188e4b72722b42f381f335800b8065ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 18/69] fix: functions that only copy or fill table 0 load its
 entries

---
 pwart/wagen.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index ed734bd..6832ebc 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -246,6 +246,20 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case 0xd2: // ref.func
       fidx = read_LEB(bytes, &m->pc, 32);
       break;
+    case 0xfc: // misc prefix
+      arg = read_LEB(bytes, &m->pc, 32);
+      if(arg==0x0e){ // table.copy
+        tidx = read_LEB(bytes, &m->pc, 32); // destination table index
+        tabidx = read_LEB(bytes, &m->pc, 32); // source table index
+        if(tidx==0 || tabidx==0)m->table_entries_local = -2;
+      }else if(arg==0x11){ // table.fill
+        tidx = read_LEB(bytes, &m->pc, 32);
+        if(tidx==0)m->table_entries_local = -2;
+      }else{
+        m->pc = cur_pc;
+        ReturnIfErr(wasm_SkipImmediates(m->bytes, &m->pc));
+      }
+      break;
     case 0x20: //local.get
       arg=read_LEB(bytes, &m->pc, 32);
       sv=dynarr_get(m->locals,StackValue,arg);
-- 
2.43.0


From 9544b8f2493031b7108ba1c6444d1eb3cad37938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 19/69] fix: element segments of every form, function
 references in globals, and clean failed compilation

---
 pwart/modparser.c | 166 +++++++++++++++++++++++++++++-----------------
 pwart/wagen.c     |   6 --
 2 files changed, 104 insertions(+), 68 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 611b966..d36e174 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -72,10 +72,74 @@ static Export *get_export(RuntimeContext *rc, const char *name, uint32_t *kind)
 }
 
 
+// Allocate space for function entries if not allocated. Code generator use the address of entry.
+static char *alloc_funcentries(ModuleCompiler *m){
+    RuntimeContext *rc=m->context;
+    if(rc->funcentries==NULL){
+        rc->funcentries_count=m->functions->len;
+        rc->import_funcentries_count=m->import_count;
+        // at least one entry, to avoid NULL.
+        rc->funcentries=wa_calloc((rc->funcentries_count+1)*sizeof(WasmFunctionEntry));
+        if(rc->funcentries==NULL){
+            return "out of memory";
+        }
+    }
+    return NULL;
+}
+
+// Apply active element segments in element section at 'pos'. Function entries must be ready.
+static char *apply_element_segments(ModuleCompiler *m, uint32_t pos) {
+    uint8_t *bytes = m->bytes;
+    uint32_t element_count = read_LEB(bytes, &pos, 32);
+    for(uint32_t c=0; c<element_count; c++) {
+        // bit 0: passive or declarative, bit 1: explicit table index(or declarative), bit 2: use element expressions
+        uint32_t flags = read_LEB(bytes, &pos, 32);
+        uint32_t index=0;
+        uint64_t offset=0;
+        Table *dtab=NULL;
+        if(flags>7){
+            return "Illegal segment flags.";
+        }
+        if(!(flags&1)){
+            if(flags&2){
+                index=read_LEB(bytes, &pos, 32);
+            }
+            // Run the init_expr to get offset
+            m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
+            dtab=*dynarr_get(m->context->tables,Table *,index);
+        }
+        if(flags&3){
+            pos++; //element kind or type, ignored.
+        }
+        uint32_t num_elem = read_LEB(bytes, &pos, 32);
+        wa_debug("  element segment flags: 0x%x, offset: 0x%x, count: 0x%x\n", flags, (uint32_t)offset, num_elem);
+        if(dtab!=NULL && offset+num_elem>dtab->size){
+            return "element segment out of table bounds.";
+        }
+        for (uint32_t n=0; n<num_elem; n++) {
+            void *entry=NULL;
+            if(flags&4){
+                int opcode=bytes[pos];
+                m->pc=pos;ReturnIfErr(waexpr_run_const(m,&entry));pos=m->pc;
+                if(opcode==0xd2){
+                    // ref.func
+                    entry=((WasmFunction *)entry)->func_ptr;
+                }
+            }else{
+                entry=dynarr_get(m->functions,WasmFunction,read_LEB(bytes, &pos, 32))->func_ptr;
+            }
+            if(dtab!=NULL){
+                dtab->entries[offset+n]=entry;
+            }
+        }
+    }
+    return NULL;
+}
+
 static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count) {
     uint8_t   vt;
     char err;
-    uint32_t  pos = 0, word;
+    uint32_t  pos = 0, word, element_pos = 0;
     m->compile_succeeded=0;
 
     // Allocate the module
@@ -104,10 +168,17 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
 
     // Check the module
     pos = 0;
+    if(byte_count<8){
+        return "Wrong module magic";
+    }
     word = read_uint32(bytes, &pos);
-    wa_assert(word == WA_MAGIC, "Wrong module magic\n");
+    if(word != WA_MAGIC){
+        return "Wrong module magic";
+    }
     word = read_uint32(bytes, &pos);
-    wa_assert(word == WA_VERSION, "Wrong module version\n");
+    if(word != WA_VERSION){
+        return "Wrong module version";
+    }
 
     // Read the sections
     while (pos < byte_count) {
@@ -140,7 +211,6 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             int count,count2;
             wa_debug("Parsing Type(1) section (length: 0x%x)\n", slen);
             count = read_LEB(bytes, &pos, 32);
-            m->types=NULL;
             dynarr_init(&m->types,sizeof(Type));
             for (uint32_t c=0; c<count; c++) {
                 Type *type = dynarr_push_type(&m->types,Type);
@@ -359,6 +429,10 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 //Here we use SLJIT_IMM to mark opw as offset, instead of address, and set real address later.
                 sv->val.op=SLJIT_IMM;
                 sv->val.opw=m->context->own_globals->len;
+                if(bytes[pos]==0xd2){
+                    // ref.func, value is WasmFunction *, set to real function entry later.
+                    sv->jit_type=SVT_POINTER;
+                }
                 // Run the init_expr to get global value
                 m->pc=pos;
                 ReturnIfErr(waexpr_run_const(m,&result));
@@ -429,43 +503,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             break;
         case 9:
             wa_debug("Parsing Element(9) section (length: 0x%x)\n", slen);
-            uint32_t element_count = read_LEB(bytes, &pos, 32);
-            for(uint32_t c=0; c<element_count; c++) {
-                uint32_t flags = read_LEB(bytes, &pos, 32);
-                uint32_t index=0;
-                uint32_t offset;
-                void *elem_expr;
-                switch(flags){
-                    case 0:case 4:
-                    index=0;
-                    // Run the init_expr to get offset
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    break;
-                    case 1:case 3:
-                    index=0;
-                    pos++; //extern_kind, ignored.
-                    break;
-                    case 2:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    pos++;
-                    break;
-                    case 6:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
-                    case 5:case 7:
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
-                }
-                
-                uint32_t num_elem = read_LEB(bytes, &pos, 32);
-                Table *dtab=*dynarr_get(m->context->tables,Table *,index);
-                wa_debug("  table.entries: %p, offset: 0x%x\n", dtab->entries, offset);
-                for (uint32_t n=0; n<num_elem; n++) {
-                    wa_debug("  write table entries %p, offset: 0x%x, n: 0x%x, addr: %p\n",
-                            dtab->entries, offset, n, &dtab->entries[offset+n]);
-                    dtab->entries[offset+n] = dynarr_get(m->functions,WasmFunction,read_LEB(bytes, &pos, 32));
-                }
-            }
+            // function entries are unknown here, so apply segments after all sections are read.
+            element_pos = pos;
             pos = start_pos+slen;
             break;
         // 9 and 11 are similar so keep them together, 10 is below 11
@@ -475,7 +514,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for (uint32_t s=0; s<seg_count; s++) {
                 uint32_t flags = read_LEB(bytes, &pos, 32);
                 uint32_t midx;
-                uint32_t offset;
+                uint64_t offset=0;
                 switch(flags){
                     case 0:  //active
                     midx=0;
@@ -498,7 +537,10 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 uint32_t size = read_LEB(bytes, &pos, 32);
                 Memory *memory=*dynarr_get(m->context->memories,Memory *,midx);
                 wa_debug("  setting %d bytes of memory at %p + offset %d\n",
-                    size, memory->bytes, offset);
+                    size, memory->bytes, (int)offset);
+                if(offset>(uint64_t)memory->pages*PAGE_SIZE || size>(uint64_t)memory->pages*PAGE_SIZE-offset){
+                    return "data segment out of memory bounds.";
+                }
                 memcpy(memory->bytes+offset, bytes+pos, size);
                 pos += size;
                 
@@ -509,8 +551,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("Parsing Code(10) section (length: 0x%x)\n", slen);
             uint32_t body_count = read_LEB(bytes, &pos, 32);
             //we must allocate space for function entries here, for code generator.
-            m->context->funcentries_count=m->import_count+body_count;
-            m->context->funcentries=wa_malloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
+            ReturnIfErr(alloc_funcentries(m));
             for (uint32_t b=0; b<body_count; b++) {
                 wa_debug("generate code for function %d\n",b);
                 WasmFunction *function = dynarr_get(m->functions,WasmFunction,m->import_count+b);
@@ -544,9 +585,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 }
                 m->pc=pos;
                 ReturnIfErr(pwart_EmitFunction(m,function));
+                // module state own the code from now on, so the code can be free if compile failed.
+                m->context->funcentries[m->import_count+b]=function->func_ptr;
                 pos=m->pc;
-                wa_assert(bytes[pos-1] == 0x0b,
-                       "Code section did not end with 0x0b\n");
+                if(bytes[pos-1] != 0x0b){
+                    return "Code section did not end with 0x0b";
+                }
             }
             break;
         default:
@@ -558,24 +602,22 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     }
 
     //set functionentry
-    m->context->import_funcentries_count=m->import_count;
+    ReturnIfErr(alloc_funcentries(m));
     for(int i=0;i<m->functions->len;i++){
         m->context->funcentries[i]=dynarr_get(m->functions,WasmFunction,i)->func_ptr;
     }
-    wa_debug("table count %x\n",m->context->own_tables_count);
-    //update table entries to real function entries.
-    for(int i1=0;i1<m->context->own_tables_count;i1++){
-        Table *tab=m->context->own_tables+i1;
-        wa_debug("table type %x\n",tab->elem_type);
-        if(tab->elem_type==WVT_FUNC){
-            for(int i=0;i<tab->size;i++){
-                if(tab->entries[i]!=NULL){
-                    wa_debug("function entry update:%p->%p\n",tab->entries[i],((WasmFunction *)tab->entries[i])->func_ptr);
-                    tab->entries[i]=((WasmFunction *)tab->entries[i])->func_ptr;
-                }
-            }
+    //update globals to real function entries.
+    for(int i=0;i<m->globals->len;i++){
+        StackValue *sv=dynarr_get(m->globals,StackValue,i);
+        if(sv->jit_type==SVT_POINTER){
+            void **val=(void **)sv->val.opw;
+            *val=((WasmFunction *)*val)->func_ptr;
         }
     }
+    wa_debug("table count %x\n",m->context->own_tables_count);
+    if(element_pos!=0){
+        ReturnIfErr(apply_element_segments(m,element_pos));
+    }
 
     //also exports.
     for(int i1=0;i1<m->context->exports->len;i1++){
@@ -627,7 +669,7 @@ static int free_runtimectx(RuntimeContext *rc){
     if(rc->funcentries!=NULL){
         //only free code generate by module self.
         for(i=rc->import_funcentries_count;i<rc->funcentries_count;i++){
-            if(rc->funcentries!=NULL)
+            if(rc->funcentries[i]!=NULL)
                 pwart_FreeFunction(rc->funcentries[i]);
         }
         wa_free(rc->funcentries);
@@ -641,7 +683,7 @@ static int free_runtimectx(RuntimeContext *rc){
 
 static char *free_module(ModuleCompiler *m){
     int i=0;
-    if(!m->compile_succeeded){
+    if(!m->compile_succeeded && m->context!=NULL){
         free_runtimectx(m->context);
     }
     if(m->types!=NULL){
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 6832ebc..68c1dbd 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -131,9 +131,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
   uint8_t opcode, eof=0;
   uint32_t len = 0;
   Block *blk = NULL;
-  m->locals = NULL;
   dynarr_init(&m->locals, sizeof(StackValue));
-  m->blocks=NULL;
   dynarr_init(&m->blocks,sizeof(Block));
   m->cached_midx=-1;
   int i;
@@ -288,7 +286,6 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     }
   }
   if(m->bytes[m->pc - 1] != 0xb){return "Function not end with 0x0b, unsupported feature may used.";}
-  m->locals_need_zero=NULL;
   if(pwart_gcfg.misc_flags&PWART_MISC_FLAGS_LOCALS_ZERO_INIT){
     dynarr_init(&m->locals_need_zero,sizeof(int16_t));
     for(int i1=paramCnt;i1<m->locals->len;i1++){
@@ -406,9 +403,6 @@ static char *pwart_EmitFunction(ModuleCompiler *m, WasmFunction *func) {
   m->function_type = dynarr_get(m->types, Type, func->tidx);
   m->function_locals_type = func->locals_type;
 
-  m->locals = NULL;
-  dynarr_init(&m->locals, sizeof(StackValue));
-
   ReturnIfErr(pwart_PrepareFunc(m));
   m->pc = savepos;
   ReturnIfErr(pwart_GenCode(m));
-- 
2.43.0


From f87556721ce791b50b3c7e3d0044a04a35bc7a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 20/69] fix: division reloads an operand that only uses R0 or
 R1 as address

---
 pwart/opgen_num.c | 64 +++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 1584a78..4e72565 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -471,15 +471,15 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
     {
       StackValue *sv3;
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-      if (sv3 != sv) {
-        if (sv3 != NULL) {
+      if (sv3 != sv || sv->val.op != SLJIT_R0) {
+        if (sv3 != NULL && sv3 != sv) {
           pwart_EmitSaveStack(m, sv3);
         }
         pwart_EmitLoadReg(m, sv, SLJIT_R0);
       }
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-      if (sv3 != sv2) {
-        if (sv3 != NULL) {
+      if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
+        if (sv3 != NULL && sv3 != sv2) {
           pwart_EmitSaveStack(m, sv3);
         }
         pwart_EmitLoadReg(m, sv2, SLJIT_R1);
@@ -491,15 +491,15 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
     {
       StackValue *sv3;
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-      if (sv3 != sv) {
-        if (sv3 != NULL) {
+      if (sv3 != sv || sv->val.op != SLJIT_R0) {
+        if (sv3 != NULL && sv3 != sv) {
           pwart_EmitSaveStack(m, sv3);
         }
         pwart_EmitLoadReg(m, sv, SLJIT_R0);
       }
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-      if (sv3 != sv2) {
-        if (sv3 != NULL) {
+      if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
+        if (sv3 != NULL && sv3 != sv2) {
           pwart_EmitSaveStack(m, sv3);
         }
         pwart_EmitLoadReg(m, sv2, SLJIT_R1);
@@ -511,15 +511,15 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
     {
       StackValue *sv3;
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-      if (sv3 != sv) {
-        if (sv3 != NULL) {
+      if (sv3 != sv || sv->val.op != SLJIT_R0) {
+        if (sv3 != NULL && sv3 != sv) {
           pwart_EmitSaveStack(m, sv3);
         }
         pwart_EmitLoadReg(m, sv, SLJIT_R0);
       }
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-      if (sv3 != sv2) {
-        if (sv3 != NULL) {
+      if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
+        if (sv3 != NULL && sv3 != sv2) {
           pwart_EmitSaveStack(m, sv3);
         }
         pwart_EmitLoadReg(m, sv2, SLJIT_R1);
@@ -531,15 +531,15 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
     {
       StackValue *sv3;
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-      if (sv3 != sv) {
-        if (sv3 != NULL) {
+      if (sv3 != sv || sv->val.op != SLJIT_R0) {
+        if (sv3 != NULL && sv3 != sv) {
           pwart_EmitSaveStack(m, sv3);
         }
         pwart_EmitLoadReg(m, sv, SLJIT_R0);
       }
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-      if (sv3 != sv2) {
-        if (sv3 != NULL) {
+      if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
+        if (sv3 != NULL && sv3 != sv2) {
           pwart_EmitSaveStack(m, sv3);
         }
         pwart_EmitLoadReg(m, sv2, SLJIT_R1);
@@ -615,15 +615,15 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
       {
         StackValue *sv3;
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-        if (sv3 != sv) {
-          if (sv3 != NULL) {
+        if (sv3 != sv || sv->val.op != SLJIT_R0) {
+          if (sv3 != NULL && sv3 != sv) {
             pwart_EmitSaveStack(m, sv3);
           }
           pwart_EmitLoadReg(m, sv, SLJIT_R0);
         }
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-        if (sv3 != sv2) {
-          if (sv3 != NULL) {
+        if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
+          if (sv3 != NULL && sv3 != sv2) {
             pwart_EmitSaveStack(m, sv3);
           }
           pwart_EmitLoadReg(m, sv2, SLJIT_R1);
@@ -635,15 +635,15 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
       {
         StackValue *sv3;
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-        if (sv3 != sv) {
-          if (sv3 != NULL) {
+        if (sv3 != sv || sv->val.op != SLJIT_R0) {
+          if (sv3 != NULL && sv3 != sv) {
             pwart_EmitSaveStack(m, sv3);
           }
           pwart_EmitLoadReg(m, sv, SLJIT_R0);
         }
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-        if (sv3 != sv2) {
-          if (sv3 != NULL) {
+        if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
+          if (sv3 != NULL && sv3 != sv2) {
             pwart_EmitSaveStack(m, sv3);
           }
           pwart_EmitLoadReg(m, sv2, SLJIT_R1);
@@ -655,15 +655,15 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
       {
         StackValue *sv3;
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-        if (sv3 != sv) {
-          if (sv3 != NULL) {
+        if (sv3 != sv || sv->val.op != SLJIT_R0) {
+          if (sv3 != NULL && sv3 != sv) {
             pwart_EmitSaveStack(m, sv3);
           }
           pwart_EmitLoadReg(m, sv, SLJIT_R0);
         }
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-        if (sv3 != sv2) {
-          if (sv3 != NULL) {
+        if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
+          if (sv3 != NULL && sv3 != sv2) {
             pwart_EmitSaveStack(m, sv3);
           }
           pwart_EmitLoadReg(m, sv2, SLJIT_R1);
@@ -675,15 +675,15 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
       {
         StackValue *sv3;
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-        if (sv3 != sv) {
-          if (sv3 != NULL) {
+        if (sv3 != sv || sv->val.op != SLJIT_R0) {
+          if (sv3 != NULL && sv3 != sv) {
             pwart_EmitSaveStack(m, sv3);
           }
           pwart_EmitLoadReg(m, sv, SLJIT_R0);
         }
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-        if (sv3 != sv2) {
-          if (sv3 != NULL) {
+        if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
+          if (sv3 != NULL && sv3 != sv2) {
             pwart_EmitSaveStack(m, sv3);
           }
           pwart_EmitLoadReg(m, sv2, SLJIT_R1);
-- 
2.43.0


From f74ef644eab5977cf76fc388a84703a0da606d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 21/69] fix: the operand stack of the code generator grows on
 demand

---
 pwart/def.h         |  9 +++++++--
 pwart/modparser.c   |  4 ++++
 pwart/opgen_utils.c |  2 +-
 pwart/wagen.c       | 22 ++++++++++++++++++++++
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 049bac7..345fd3c 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -28,7 +28,11 @@
 #define WVT_FUNC      0x70
 #define WVT_REF       0x6f
 
-#define OPERAND_STACK_COUNT 32
+//operand stack slots reserved for one instruction, no instruction push more values than that.
+#define OPERAND_STACK_RESERVED 320
+
+//max operand stack offset, see also StackValue.frame_offset.
+#define OPERAND_STACK_MAX_OFFSET 60000
 
 
 
@@ -195,7 +199,8 @@ typedef struct ModuleCompiler {
     int32_t target_ptr_size;
     uint32_t    pc;        // current parser pos
     int         sp;         // operand stack pointer, stack[sp] is valid stack value.
-    StackValue  stack[OPERAND_STACK_COUNT]; // main operand stack
+    StackValue  *stack;       // main operand stack
+    int         stack_count;  // allocated slots of operand stack
     struct dynarr *blocks; // block stacks, block type
     struct dynarr *br_table; // br_table branch indexes, uint32_t type
     uint8_t eof;      // end of function
diff --git a/pwart/modparser.c b/pwart/modparser.c
index d36e174..b3eb9f3 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -711,6 +711,10 @@ static char *free_module(ModuleCompiler *m){
     if(m->br_table!=NULL){
         dynarr_free(&m->br_table);
     }
+    if(m->stack!=NULL){
+        wa_free(m->stack);
+        m->stack=NULL;
+    }
     if(m->locals_need_zero!=NULL){
         dynarr_free(&m->locals_need_zero);
     }
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 9479a99..39061fb 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -332,7 +332,7 @@ static StackValue *stackvalue_Push(ModuleCompiler *m, int32_t wasm_type) {
   sv2->jit_type = SVT_GENERAL;
   sv2->wasm_type=wasm_type;
   sv2->frame_offset=stackvalue_GetSlotOffset(m,m->sp,wasm_type);
-  wa_assert(m->sp<OPERAND_STACK_COUNT-1,"operand stack overflow");
+  wa_assert(m->sp<m->stack_count-1,"operand stack overflow");
   return sv2;
 }
 
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 68c1dbd..b8c7bae 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -310,6 +310,25 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
   return NULL;
 }
 
+//Ensure operand stack has enough slots for next instruction.
+static char *pwart_ReserveOperandStack(ModuleCompiler *m) {
+  StackValue *stack;
+  int count;
+  if(m->sp>=0 && m->stack[m->sp].frame_offset>OPERAND_STACK_MAX_OFFSET){
+    return "operand stack is too deep.";
+  }
+  if(m->sp+OPERAND_STACK_RESERVED>=m->stack_count){
+    count=m->stack_count*2+OPERAND_STACK_RESERVED;
+    stack=wa_realloc(m->stack,count*sizeof(StackValue));
+    if(stack==NULL){
+      return "out of memory";
+    }
+    m->stack=stack;
+    m->stack_count=count;
+  }
+  return NULL;
+}
+
 /*
 r0,r1,r2 is scratch registers(at least three registers are required.).
 s0(arg0) contains stack frame pointer.
@@ -328,6 +347,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
   m->jitc->verbose = stdout;
 #endif
 
+  ReturnIfErr(pwart_ReserveOperandStack(m));
   pwart_EmitFuncEnter(m);
 
   m->blocks = NULL;
@@ -364,6 +384,8 @@ static char *pwart_GenCode(ModuleCompiler *m) {
       continue;
     }
 
+    ReturnIfErr(pwart_ReserveOperandStack(m));
+
     // XXX: save flag if next op is not if, br_if or i32.eqz(not).
     if (m->sp>=0 && m->stack[m->sp].jit_type == SVT_CMP && 
     opcode != WASMOPC_if && opcode != WASMOPC_br_if && opcode != WASMOPC_i32_eqz && opcode !=WASMOPC_select && opcode != WASMOPC_select_t) {
-- 
2.43.0


From 05efad420d50a8adca750b83d6d6c08dfb6b1d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:27 +0000
Subject: [PATCH 22/69] fix: float values in memory keep their address register
 and follow writes of their local

---
 pwart/opgen_mem.c   | 4 ++--
 pwart/opgen_utils.c | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 629d9ed..3432c14 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -20,7 +20,7 @@ static void opgen_GenLocalSet(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsInFloatReg(&stack[i]) == stackvalue_IsInFloatReg(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
@@ -36,7 +36,7 @@ static void opgen_GenLocalTee(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsInFloatReg(&stack[i]) == stackvalue_IsInFloatReg(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 39061fb..9091613 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -29,6 +29,10 @@ static uint32_t wasmtype_GetSizeAndAlign(int wasm_type,uint32_t *align){
 static int stackvalue_IsFloat(StackValue *sv) {
   return sv->wasm_type == WVT_F32 || sv->wasm_type == WVT_F64;
 }
+// Is the register used by stackvalue (if any) a float register?
+static int stackvalue_IsInFloatReg(StackValue *sv) {
+  return stackvalue_IsFloat(sv) && !(sv->jit_type == SVT_GENERAL && (sv->val.op & SLJIT_MEM));
+}
 static uint32_t stackvalue_GetSizeAndAlign(StackValue *sv, uint32_t *align) {
   return wasmtype_GetSizeAndAlign(sv->wasm_type,align);
 }
@@ -83,7 +87,8 @@ static StackValue *stackvalue_FindSvalueUseReg(ModuleCompiler *m, sljit_s32 r,
   int i, used = 0;
   for (i = 0; i <= m->sp - upstack; i++) {
     sv = &m->stack[i];
-    if ((regtype == RT_FLOAT) != stackvalue_IsFloat(sv)) {
+    // a float value in memory use integer register as address.
+    if ((regtype == RT_FLOAT) != stackvalue_IsInFloatReg(sv)) {
       continue;
     }
     if (sv->jit_type == SVT_GENERAL) {
-- 
2.43.0


From 2945c979ad7815babddff9a7159d619de2a719bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 23/69] fix: memory.size, memory.grow and memory.fill of a
 64-bit memory use i64 operands

---
 pwart/def.h       |  2 ++
 pwart/extfunc.c   | 37 +++++++++++++++++++++++--------------
 pwart/modparser.c | 13 ++++++++++---
 pwart/opgen_mem.c | 12 ++++++++++++
 4 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 345fd3c..203a4e0 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -189,6 +189,8 @@ typedef struct ModuleCompiler {
 
     struct dynarr *functions;      //functions, type WasmFunction
 
+    struct dynarr *memories_index_type; //WVT_I32 or WVT_I64 for every memory in context->memories, type uint8_t
+
     struct pwart_symbol_resolver *import_resolver;
 
     uint8_t compile_succeeded;
diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 6103276..e795418 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -314,32 +314,39 @@ static void insn_f64converti64u(double *fp){
 }
 // keep argument aligned, to avoid effect from PWART_STACK_FLAGS_AUTO_ALIGN.
 // (i32 delta, i32 memory_index,ref runtime_context)
-static void insn_memorygrow(void *fp){
-  void *sp=fp;
-  uint32_t delta = pwart_rstack_get_i32(&sp);
-  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
-  RuntimeContext *m=pwart_rstack_get_ref(&sp);
-  Memory *mem=*dynarr_get(m->memories,Memory *,index);
+//grow the memory by 'delta' pages, return previous size or -1 if failed.
+static int64_t memory_Grow(Memory *mem,uint64_t delta){
   uint32_t prev_pages = mem->pages;
   if (prev_pages > mem->maximum || delta > mem->maximum - prev_pages) {
-    sp=fp;
-    pwart_rstack_put_i32(&sp,-1);
-    return;
+    return -1;
   }
   if(!mem->fixed && delta>0){
     uint8_t *bytes = wa_realloc(mem->bytes, (size_t)(prev_pages+delta) * PAGE_SIZE);
     if(bytes==NULL){
-      sp=fp;
-      pwart_rstack_put_i32(&sp,-1);
-      return;
+      return -1;
     }
     memset(bytes+(size_t)prev_pages*PAGE_SIZE,0,(size_t)delta*PAGE_SIZE);
     mem->bytes = bytes;
   }
   mem->pages += delta;
+  return prev_pages;
+}
+static void insn_memorygrow(void *fp){
+  void *sp=fp;
+  uint32_t delta = pwart_rstack_get_i32(&sp);
+  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
+  RuntimeContext *m=pwart_rstack_get_ref(&sp);
+  sp=fp;
+  pwart_rstack_put_i32(&sp,memory_Grow(*dynarr_get(m->memories,Memory *,index),delta));
+}
+//memory.grow on 64bit memory
+static void insn_memorygrow64(void *fp){
+  void *sp=fp;
+  uint64_t delta = pwart_rstack_get_i64(&sp);
+  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
+  RuntimeContext *m=pwart_rstack_get_ref(&sp);
   sp=fp;
-  pwart_rstack_put_i32(&sp,prev_pages);
-  return;
+  pwart_rstack_put_i64(&sp,memory_Grow(*dynarr_get(m->memories,Memory *,index),delta));
 }
 //get pwart version
 static void insn_version(uint32_t *fp){
@@ -475,6 +482,7 @@ static uint8_t types_f32_f32[] = {WVT_F32, WVT_F32, 0};
 static uint8_t types_f64_f64[] = {WVT_F64, WVT_F64, 0};
 
 static uint8_t types_i32_i32_ref[] = {WVT_I32, WVT_I32, WVT_REF,0};
+static uint8_t types_i64_i32_ref[] = {WVT_I64, WVT_I32, WVT_REF,0};
 
 static uint8_t types_ref_ref_i32[]={WVT_REF, WVT_REF,WVT_I32,0};
 
@@ -511,6 +519,7 @@ static Type func_type_i64_ret_f64 = {.params = types_i64, .results = types_f64};
 
 
 static Type func_type_i32_i32_ref_ret_i32 = {.params = types_i32_i32_ref, .results = types_i32};
+static Type func_type_i64_i32_ref_ret_i64 = {.params = types_i64_i32_ref, .results = types_i64};
 static Type func_type_ref_ref_i32_void={.params=types_ref_ref_i32,.results=types_void};
 static Type func_type_memoryfill={.params=types_ref_i32_i32_ref_i32,.results=types_void};
 
diff --git a/pwart/modparser.c b/pwart/modparser.c
index b3eb9f3..cc3083a 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -40,7 +40,8 @@ static void parse_table_type(ModuleCompiler *m, uint32_t *pos,Table *table) {
 
 }
 
-static void parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem) {
+//return the index type of the memory, WVT_I32 or WVT_I64.
+static uint8_t parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem) {
   uint32_t flags = read_LEB(m->bytes, pos, 32);
   uint32_t pages = read_LEB(m->bytes, pos, 32); // Initial size
   mem->initial = pages;
@@ -54,6 +55,7 @@ static void parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem) {
     mem->maximum = 32768;
     mem->fixed=0;
   }
+  return (flags & 0x4)?WVT_I64:WVT_I32;
 }
 
 static Export *get_export(RuntimeContext *rc, const char *name, uint32_t *kind) {
@@ -163,6 +165,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     dynarr_init(&m->context->tables,sizeof(Table *));
     dynarr_init(&m->context->own_globals,sizeof(uint8_t));
     dynarr_init(&m->functions,sizeof(WasmFunction));
+    dynarr_init(&m->memories_index_type,sizeof(uint8_t));
     m->context->resolver=m->import_resolver;
     m->context->start_function = 0xffffffff;
 
@@ -266,7 +269,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 case PWART_KIND_TABLE:
                   parse_table_type(m, &pos,&info.tab); break;
                 case PWART_KIND_MEMORY:
-                    parse_memory_type(m, &pos,&info.mem); break;
+                    content_type = parse_memory_type(m, &pos,&info.mem); break;
                 case PWART_KIND_GLOBAL:
                     content_type = read_LEB(bytes, &pos, 7);
                     // TODO: use mutability
@@ -339,6 +342,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                         return "Imported memory is not large enough";
                     }
                     *dynarr_push_type(&m->context->memories,Memory *)=mval;
+                    *dynarr_push_type(&m->memories_index_type,uint8_t)=content_type;
                 }
                     break;
                 case PWART_KIND_GLOBAL:
@@ -396,7 +400,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("  memory count: 0x%x\n", memory_count);
             for(int i=0;i<memory_count;i++){
                 Memory *memory=m->context->own_memories+i;
-                parse_memory_type(m, &pos,memory);
+                *dynarr_push_type(&m->memories_index_type,uint8_t)=parse_memory_type(m, &pos,memory);
                 //XXX: custom memory creator?
                 if(memory->fixed){
                     // base never change, so allocate to maximum.
@@ -695,6 +699,9 @@ static char *free_module(ModuleCompiler *m){
     if(m->functions!=NULL){
         dynarr_free(&m->functions);
     }
+    if(m->memories_index_type!=NULL){
+        dynarr_free(&m->memories_index_type);
+    }
     if(m->types_pool.chunks!=NULL){
         pool_free(&m->types_pool);
     }
diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 3432c14..830c9dc 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -144,10 +144,18 @@ static void opgen_GenCurrentMemory(ModuleCompiler *m,uint32_t index) {
   sv->jit_type = SVT_GENERAL;
   sv->val.op = SLJIT_MEM1(a);
   sv->val.opw = 0;
+  if(*dynarr_get(m->memories_index_type,uint8_t,index)==WVT_I64){
+    opgen_GenNumOp(m,WASMOPC_i64_extend_i32_u);
+  }
 }
 static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
   opgen_GenI32Const(m,index);
   opgen_GenRefConst(m,m->context);
+  if(*dynarr_get(m->memories_index_type,uint8_t,index)==WVT_I64){
+    pwart_EmitCallFunc(m, &func_type_i64_i32_ref_ret_i64, SLJIT_IMM,
+                       (sljit_sw)&insn_memorygrow64);
+    return;
+  }
   pwart_EmitCallFunc(m, &func_type_i32_i32_ref_ret_i32, SLJIT_IMM,
                      (sljit_sw)&insn_memorygrow);
 }
@@ -450,6 +458,10 @@ static void opgen_GenMemoryFill(ModuleCompiler *m,int midx){
   sv2 = sv=m->stack+m->sp-2;    //n;
   sv = stackvalue_PushStackValueLike(m, sv2);
   sv2->jit_type=SVT_DUMMY;
+  if(sv->wasm_type==WVT_I64){
+    //XXX: we limit to use 32bit count now, which may be change in future
+    opgen_GenNumOp(m,0xa7);//i32.wrap_i64
+  }
 
   opgen_GenRefNull(m,0);
   opgen_GenI32Const(m,0);
-- 
2.43.0


From bd2ee52b97ee11d4101d1c36f4694a624e38ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 24/69] fix: i32 loads sign extend to 32 bits and take offsets
 above 2GB

---
 pwart/opgen_mem.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 830c9dc..2dd4c13 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -160,7 +160,7 @@ static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
                      (sljit_sw)&insn_memorygrow);
 }
 
-static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, int offset) {
+static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, sljit_sw offset) {
   StackValue *sv=m->stack+m->sp;
   int a=pwart_GetFreeReg(m,RT_INTEGER,1);
   switch (opcode) {
@@ -168,13 +168,13 @@ static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, int offset) {
     sljit_emit_op1(m->jitc, SLJIT_MOV32, a, 0, SLJIT_MEM1(sv->val.op), offset);
     break;
   case 0x2c: // i32.load8_s
-    sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, SLJIT_MEM1(sv->val.op), offset);
+    sljit_emit_op1(m->jitc, SLJIT_MOV32_S8, a, 0, SLJIT_MEM1(sv->val.op), offset);
     break;
   case 0x2d: // i32.load8_u
     sljit_emit_op1(m->jitc, SLJIT_MOV_U8, a, 0, SLJIT_MEM1(sv->val.op), offset);
     break;
   case 0x2e: // i32.load16_s
-    sljit_emit_op1(m->jitc, SLJIT_MOV_S16, a, 0, SLJIT_MEM1(sv->val.op), offset);
+    sljit_emit_op1(m->jitc, SLJIT_MOV32_S16, a, 0, SLJIT_MEM1(sv->val.op), offset);
     break;
   case 0x2f: // i32.load16_u
     sljit_emit_op1(m->jitc, SLJIT_MOV_U16, a, 0, SLJIT_MEM1(sv->val.op), offset);
-- 
2.43.0


From f6e1c926fd382485532eff8be100086e2ea2cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:56 +0000
Subject: [PATCH 25/69] fix: the default configuration aligns the stack as
 documented

---
 pwart/def.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 203a4e0..8a935c7 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -525,8 +525,8 @@ static struct{
 #define WASMOPC_end 0x0b
 
 static struct pwart_global_compile_config pwart_gcfg={
-    .stack_flags=0,
-    .misc_flags=PWART_MISC_FLAGS_LOCALS_ZERO_INIT|PWART_STACK_FLAGS_AUTO_ALIGN
+    .stack_flags=PWART_STACK_FLAGS_AUTO_ALIGN,
+    .misc_flags=PWART_MISC_FLAGS_LOCALS_ZERO_INIT
 };
 
 static sljit_s32 pwart_GetFreeReg(ModuleCompiler *m, sljit_s32 regtype,int upstack);
-- 
2.43.0


From 769aac2eb1d5de4f17e06f7c93d39d3d3b63b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 26/69] fix: namespaces release their module list and the
 compiler of a refused module

---
 pwart/namespace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 06c8389..28b966e 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -78,6 +78,7 @@ extern char *pwart_namespace_delete(pwart_namespace ns){
     if(n->nsmeta!=NULL){
         wa_free(n->nsmeta);
     }
+    dynarr_free(&n->mods);
     wa_free(n);
     return NULL;
 }
@@ -150,6 +151,7 @@ extern pwart_module_state *pwart_namespace_define_wasm_module(pwart_namespace ns
         state=pwart_get_module_state(m);
     }else{
         if(err_msg!=NULL)*err_msg=err;
+        pwart_free_module_compiler(m);
         return NULL;
     }
     pwart_free_module_compiler(m);
-- 
2.43.0


From 418f31d4eb3a75ae7b2260e8ddf30bc2573ab4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 27/69] fix: a namespace keeps its own copy of module names

---
 pwart/namespace.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 28b966e..633adc8 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -74,6 +74,7 @@ extern char *pwart_namespace_delete(pwart_namespace ns){
                 ReturnIfErr(pwart_free_module_state(m->val.wasm));
                 break;
         }
+        wa_free((char *)m->name);
     }
     if(n->nsmeta!=NULL){
         wa_free(n->nsmeta);
@@ -117,13 +118,22 @@ extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
 extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named_module *mod){
     Namespace *n=(Namespace *)ns;
     struct pwart_named_module *m;
+    char *name;
     m=pwart_namespace_find_module(ns,mod->name);
     if(m!=NULL){
         pwart_namespace_remove_module(ns,m->name);
+        name=(char *)m->name;
     }else{
+        // the caller may release or reuse its buffer, keep own copy of the name.
+        name=wa_malloc(strlen(mod->name)+1);
+        if(name==NULL){
+            return "out of memory";
+        }
+        strcpy(name,mod->name);
         m=dynarr_push_type(&n->mods,struct pwart_named_module);
     }
     memmove(m,mod,sizeof(struct pwart_named_module));
+    m->name=name;
     switch(m->type){
         case PWART_MODULE_TYPE_HOST_MODULE:
         m->val.host->namespace2=ns;
-- 
2.43.0


From 9b1909d679adbbffdf7e2b8db54925f2edfa7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 28/69] fix: load_module returns the error message of a refused
 module

---
 pwart/extfunc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index e795418..787d67c 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -435,7 +435,7 @@ static void insn_load_module(void *fp){
   Namespace *ns=namespace_GetNamespaceFormResolver(m->resolver);
   char *err_msg=NULL;
   pwart_module_state stat=pwart_namespace_define_wasm_module((pwart_namespace)ns,name,wasm_bytes,length,&err_msg);
-  pwart_wasm_function stfn=pwart_get_start_function(stat);
+  pwart_wasm_function stfn=(stat!=NULL)?pwart_get_start_function(stat):NULL;
   if(stfn!=NULL){
     pwart_call_wasm_function(stfn,sp);
   }
-- 
2.43.0


From 99b7ef2b6840a273348d248ebd2be1ac5a7dab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 29/69] fix: fopen and fclose report no error when they succeed

---
 pwart/extfunc.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 787d67c..24e2cf8 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -736,7 +736,7 @@ static void insn_fopen(void *fp){
   sp=fp;
   FILE *f=fopen(filename,mode);
   pwart_rstack_put_ref(&sp,f);
-  pwart_rstack_put_i32(&sp,errno);
+  pwart_rstack_put_i32(&sp,(f!=NULL)?0:errno);
 }
 
 static void insn_fread(void *fp){
@@ -767,8 +767,7 @@ static void insn_fclose(void *fp){
   void *sp=fp;
   _wargref(file)
   sp=fp;
-  fclose(file);
-  pwart_rstack_put_i32(&sp,errno);
+  pwart_rstack_put_i32(&sp,(fclose(file)==0)?0:errno);
 }
 
 static void insn_stdio(void *fp){
-- 
2.43.0


From bcf6071aae71c7399623e24ba5ae1fb52c285935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 30/69] fix: inspecting a module without table or memory
 reports none

---
 pwart/pwart.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart/pwart.c b/pwart/pwart.c
index 917c341..9aa6566 100644
--- a/pwart/pwart.c
+++ b/pwart/pwart.c
@@ -104,6 +104,7 @@ extern pwart_module_state pwart_get_module_state(pwart_module_compiler mod){
 
 extern char *pwart_inspect_module_state(pwart_module_state c,struct pwart_inspect_result1 *result){
     RuntimeContext *rc=c;
+    memset(result,0,sizeof(struct pwart_inspect_result1));
     if(rc->tables->len>0){
         Table *tab=*dynarr_get(rc->tables,Table *,0);
         result->table_entries_count=tab->size;
-- 
2.43.0


From 776bda23d2d6cc9d7d82284aeeb51e342eb9db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:13 +0000
Subject: [PATCH 31/69] fix: imports check the kind of builtin symbols and the
 current size of memories and tables

---
 pwart/modparser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index cc3083a..0d7a34c 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -293,7 +293,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     int arrlen=0,i1=0;
                     struct pwart_named_symbol *builtin=pwart_get_builtin_symbols(&arrlen);
                     for(i1=0;i1<arrlen;i1++){
-                        if(!strcmp(builtin[i1].name,import_field)){
+                        if(!strcmp(builtin[i1].name,import_field) && builtin[i1].kind==external_kind){
                             switch(external_kind){
                                 case PWART_KIND_FUNCTION:
                                 val=builtin[i1].val.fn;
@@ -329,7 +329,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 case PWART_KIND_TABLE:
                 {
                     Table *tval = val;
-                    if(info.tab.initial>tval->maximum){
+                    if(info.tab.initial>tval->size){
                         return "Imported table is not large enough";
                     }
                     *dynarr_push_type(&m->context->tables,Table *)=tval;
@@ -338,7 +338,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 case PWART_KIND_MEMORY:
                 {
                     Memory *mval = val;
-                    if(info.mem.initial>mval->maximum){
+                    if(info.mem.initial>mval->pages){
                         return "Imported memory is not large enough";
                     }
                     *dynarr_push_type(&m->context->memories,Memory *)=mval;
-- 
2.43.0


From 78284592100b00a29bedfc860cb37086bcb5327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 32/69] fix: threads created by libuv module run on their own
 stack

---
 pwart_syslib/libuv.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 82901af..4b2e9e5 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -43,7 +43,6 @@ static void wasm__uv_dlclose(void *fp){
 }
 
 struct libuv_wasmthread{
-    uv_thread_t uvt;
     pwart_wasm_function wasmentry;
     uint64_t arg;
     void *stack;
@@ -53,7 +52,7 @@ static void wasm__uv_wasmthreadentry(void *awt){
     wt->stack=pwart_allocate_stack(64*1024);
     void *sp=wt->stack;
     pwart_rstack_put_i64(&sp,wt->arg);
-    pwart_call_wasm_function(wt->wasmentry,wt);
+    pwart_call_wasm_function(wt->wasmentry,wt->stack);
     pwart_free_stack(wt->stack);
     wa_free(wt);
 }
@@ -64,7 +63,8 @@ static void wasm__uv_thread_create(void *fp){
     struct libuv_wasmthread *info=wa_malloc(sizeof(struct libuv_wasmthread));
     info->wasmentry=entry;
     info->arg=arg;
-    uv_thread_create(&info->uvt,wasm__uv_wasmthreadentry,info);
+    uv_thread_t uvt; // the new thread may free info at any time.
+    uv_thread_create(&uvt,wasm__uv_wasmthreadentry,info);
     sp=fp;
     pwart_rstack_put_ref(&sp,info);
 }
-- 
2.43.0


From fd14fded5d8a83ec0421e2ad27d46ffb0b911e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 33/69] fix: uv_mutex_trylock returns its result

---
 pwart_syslib/libuv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 4b2e9e5..396e02e 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -93,6 +93,7 @@ static void wasm__uv_mutex_lock(void *fp){
 static void wasm__uv_mutex_trylock(void *fp){
     void *sp=fp;
     _wargref(mut)
+    sp=fp;
     int err=uv_mutex_trylock(mut);
     pwart_rstack_put_i32(&sp,err);
 }
@@ -137,6 +138,7 @@ static void wasm__uv_cond_timedwait(void *fp){
     _wargref(cond)
     _wargref(mut)
     _wargi64(timeout)
+    sp=fp;
     int r=uv_cond_timedwait(cond,mut,timeout);
     pwart_rstack_put_i32(&sp,r);
 }
-- 
2.43.0


From d9f73a89797fc8c3ed385bd0b1b7238ebad5c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 34/69] fix: ffi callbacks can be called more than once and fit
 in their allocation

---
 pwart_syslib/libffi.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index a80c35c..07db2e5 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -115,7 +115,8 @@ static void wasm__ffi_closure_alloc(void *fp){
     void *sp=fp;
     void *code=NULL;
     sp=fp;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
+    ffi_closure *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
+    if(closure!=NULL)closure->user_data=NULL;
     pwart_rstack_put_ref(&sp,closure);
     pwart_rstack_put_ref(&sp,code);
 }
@@ -123,12 +124,12 @@ static void wasm__ffi_closure_free(void *fp){
     void *sp=fp;
     _wargref(closure)
     sp=fp;
+    wa_free(((ffi_closure *)closure)->user_data);
     ffi_closure_free(closure);
 }
 static void wasmcb__ffi_closurecb(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *fn2=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     pwart_rstack_put_ref(&sp,cif);
@@ -149,6 +150,8 @@ static void wasm__ffi_prep_closure_loc(void *fp){
     void **userdata2=wa_malloc(sizeof(void *)*2);
     userdata2[0]=fn;
     userdata2[1]=user_data;
+    wa_free(((ffi_closure *)closure)->user_data);
+    ((ffi_closure *)closure)->user_data=userdata2;
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__ffi_closurecb,userdata2,codeloc);
     pwart_rstack_put_i32(&sp,stat);
 }
@@ -156,7 +159,6 @@ static void wasm__ffi_prep_closure_loc(void *fp){
 static void wasmcb__c2wasm_adapter(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *wasmfn=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     for(int i=0;i<cif->nargs;i++){
@@ -182,7 +184,8 @@ static void wasm__ffix_new_c_callback(void *fp){
     void **userdata2=wa_malloc(sizeof(void *)*2);
     userdata2[0]=fn;
     userdata2[1]=user_data;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
+    ffi_closure *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
+    closure->user_data=userdata2;
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__c2wasm_adapter,userdata2,code);
     pwart_rstack_put_ref(&sp,closure); 
     pwart_rstack_put_ref(&sp,code); 
@@ -192,6 +195,7 @@ static void wasm__ffix_del_c_callback(void *fp){
     void *sp=fp;
     _wargref(closure)
     sp=fp;
+    wa_free(((ffi_closure *)closure)->user_data);
     ffi_closure_free(closure);
 }
 
-- 
2.43.0


From 045c0a51214b5500b50b99679b7ee212319e3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 35/69] fix: functions with many locals keep their indexes, or
 are refused

---
 pwart/def.h         | 10 +++++++---
 pwart/modparser.c   |  3 +++
 pwart/opgen_utils.c |  2 +-
 pwart/wagen.c       |  4 ++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 8a935c7..a10fc1c 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -37,6 +37,10 @@
 
 
 
+//max count of locals declared by a function.
+#define FUNCTION_MAX_LOCALS 50000
+
+
 //register type
 #define RT_INTEGER 1
 #define RT_FLOAT 2
@@ -215,11 +219,11 @@ typedef struct ModuleCompiler {
     Type *function_type;   // function type current processing.
     uint8_t *function_locals_type; //function locals type current processing.
     struct dynarr *locals;      // function only, allocate after pwart_PrepareFunc, StackValue type
-    int16_t mem_base_local;   // index of local variable which store memory 0 base.
-    int16_t table_entries_local;  // index of local variable which store the table 0 base.
+    int32_t mem_base_local;   // index of local variable which store memory 0 base.
+    int32_t table_entries_local;  // index of local variable which store the table 0 base.
     int16_t first_stackvalue_offset;
     int16_t cached_midx;     //the index of memory we cache memory base to register.
-    struct dynarr *locals_need_zero;  //the array of index of locals we need zero init, type int16_t
+    struct dynarr *locals_need_zero;  //the array of index of locals we need zero init, type int32_t
     uint32_t registers_status[SLJIT_NUMBER_OF_SCRATCH_REGISTERS]; // register status [Rx-R0]
     uint32_t float_registers_status[SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS];
     union{
diff --git a/pwart/modparser.c b/pwart/modparser.c
index 0d7a34c..e674c69 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -571,6 +571,9 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 local_count = 0;
                 for (uint32_t l=0; l<local_type_count; l++) {
                     lecount = read_LEB(bytes, &pos, 32);
+                    if(lecount>FUNCTION_MAX_LOCALS-local_count){
+                        return "too many locals";
+                    }
                     local_count += lecount;
                     tidx =  read_LEB(bytes, &pos, 7);
                     (void)tidx; // TODO: use tidx?
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 9091613..8091a53 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -773,7 +773,7 @@ static char* pwart_EmitFuncEnter(ModuleCompiler *m) {
     float f32zero=0;
     double f64zero=0;
     for(i=0;i<m->locals_need_zero->len;i++){
-      int idx=*dynarr_get(m->locals_need_zero,int16_t,i);
+      int idx=*dynarr_get(m->locals_need_zero,int32_t,i);
       sv=dynarr_get(m->locals,StackValue,idx);
       switch(sv->wasm_type){
         case WVT_F32:
diff --git a/pwart/wagen.c b/pwart/wagen.c
index b8c7bae..973fe5d 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -287,11 +287,11 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
   }
   if(m->bytes[m->pc - 1] != 0xb){return "Function not end with 0x0b, unsupported feature may used.";}
   if(pwart_gcfg.misc_flags&PWART_MISC_FLAGS_LOCALS_ZERO_INIT){
-    dynarr_init(&m->locals_need_zero,sizeof(int16_t));
+    dynarr_init(&m->locals_need_zero,sizeof(int32_t));
     for(int i1=paramCnt;i1<m->locals->len;i1++){
       sv=dynarr_get(m->locals,StackValue,i1);
       if(sv->jit_type&1){
-        *dynarr_push_type(&m->locals_need_zero,int16_t)=(int16_t)i1;
+        *dynarr_push_type(&m->locals_need_zero,int32_t)=i1;
       }
     }
   }
-- 
2.43.0


From db5da471dcf57bc4d9db27719af5b4a70c16a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:20 +0000
Subject: [PATCH 36/69] fix: full-width stores take offsets above 2GB

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 8091a53..34346a0 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -116,7 +116,7 @@ static StackValue *stackvalue_FindSvalueUseReg(ModuleCompiler *m, sljit_s32 r,
 }
 
 static char *pwart_EmitStoreStackValue(ModuleCompiler *m, StackValue *sv, int memreg,
-                                     int offset) {
+                                     sljit_sw offset) {
   if (sv->jit_type == SVT_GENERAL) {
     if(memreg==sv->val.op && offset==sv->val.opw)return 0;
     if (m->target_ptr_size == 64) {
-- 
2.43.0


From 30fac5f932a6345d0bb6f054bd104287073371d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 37/69] fix: constant expressions do not overrun their operand
 stack

---
 pwart/extfunc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 24e2cf8..d6fdbff 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -526,10 +526,13 @@ static Type func_type_memoryfill={.params=types_ref_i32_i32_ref_i32,.results=typ
 static char *waexpr_run_const(ModuleCompiler *m, void *result) {
   int opcode=0;
   //const stack
-  uint64_t stack[16];
+  uint64_t stack[256];
   void *sp=&stack;
   int eof=0;
   while(m->pc<=m->byte_count && !eof){
+    if(sp>(void *)&stack[255]){
+      return "const expr needs too much stack.";
+    }
     opcode=m->bytes[m->pc];
     m->pc++;
     switch (opcode) {
-- 
2.43.0


From cd73b9eb7cb2e6e7ba1eec62f365ff47fc6f2320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:43 +0000
Subject: [PATCH 38/69] fix: constant expressions may read globals defined
 earlier in the module

---
 pwart/extfunc.c   | 6 ++++--
 pwart/modparser.c | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d6fdbff..6af7ec9 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -560,11 +560,13 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
       {
         uint32_t arg = read_LEB(m->bytes, &m->pc, 32);
         StackValue *sv = dynarr_get(m->globals, StackValue, arg);
+        // while the global section is read, opw of an own global is still an offset. see modparser.
+        void *addr = sv->val.op == SLJIT_IMM ? (void *)(m->context->own_globals->data+sv->val.opw) : (void *)sv->val.opw;
         if (stackvalue_GetSizeAndAlign(sv, NULL) == 8) {
-          *(uint64_t *)sp = *(uint64_t *)(sv->val.opw);
+          memmove(sp,addr,8);
           sp+=8;
         } else {
-          *(uint32_t *)sp = *(uint32_t *)(sv->val.opw);
+          memmove(sp,addr,4);
           sp+=4;
         }
       } break;
diff --git a/pwart/modparser.c b/pwart/modparser.c
index e674c69..4dd17c2 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -436,6 +436,10 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 if(bytes[pos]==0xd2){
                     // ref.func, value is WasmFunction *, set to real function entry later.
                     sv->jit_type=SVT_POINTER;
+                }else if(bytes[pos]==0x23){
+                    // global.get, may copy such a value.
+                    uint32_t pos2=pos+1;
+                    sv->jit_type=dynarr_get(m->globals,StackValue,read_LEB(bytes,&pos2,32))->jit_type;
                 }
                 // Run the init_expr to get global value
                 m->pc=pos;
-- 
2.43.0


From 30d816abb41e7ccbf6d49024ce3438eb4cbf82a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:19 +0000
Subject: [PATCH 39/69] fix: a dylink section without contents is not read past
 its end

---
 pwart/modparser.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 4dd17c2..560a435 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -198,15 +198,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 return "section name too long,must less than 500.";
             }
             wa_debug("  Section name '%s'\n", name);
-            if (strncmp(name, "dylink", 7) == 0) {
-                // https://github.com/WebAssembly/tool-conventions/blob/master/DynamicLinking.md
-                // TODO: make use of these
-                uint32_t memorysize = read_LEB(bytes, &pos, 32);
-                uint32_t tablesize = read_LEB(bytes, &pos, 32);
-                (void)memorysize; (void)tablesize;
-            } else {
-                wa_debug("Ignoring unknown custom section '%s'\n", name);
-            }
+            wa_debug("Ignoring unknown custom section '%s'\n", name);
             pos = end_pos;
             break;
         case 1:
-- 
2.43.0


From 74d7ef2a2e551b24f36cb20ae27b2acba9e313ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:18 +0000
Subject: [PATCH 40/69] fix: types, tables and memories of unsupported
 proposals are refused

---
 pwart/modparser.c | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 560a435..9e70972 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -22,10 +22,20 @@ static uint32_t read_string(uint8_t *bytes, uint32_t *pos, uint32_t maxlen,char
 }
 
 
-static void parse_table_type(ModuleCompiler *m, uint32_t *pos,Table *table) {
+static int is_value_type(uint8_t type){
+  return type==WVT_I32 || type==WVT_I64 || type==WVT_F32 || type==WVT_F64 || type==WVT_FUNC || type==WVT_REF;
+}
+
+static char *parse_table_type(ModuleCompiler *m, uint32_t *pos,Table *table) {
   uint32_t flags,tsize;
   table->elem_type = read_LEB(m->bytes, pos, 7);
+  if(table->elem_type!=WVT_FUNC && table->elem_type!=WVT_REF){
+    return "unsupported table type.";
+  }
   flags = read_LEB(m->bytes, pos, 32);
+  if(flags>1){
+    return "unsupported table limits flags.";
+  }
   tsize = read_LEB(m->bytes, pos, 32); // Initial size
   table->initial = tsize;
   table->size = tsize;
@@ -37,12 +47,15 @@ static void parse_table_type(ModuleCompiler *m, uint32_t *pos,Table *table) {
     table->maximum = tsize;
   }
   wa_debug("  table size: %d\n", tsize);
-
+  return NULL;
 }
 
-//return the index type of the memory, WVT_I32 or WVT_I64.
-static uint8_t parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem) {
+//set *index_type to the index type of the memory, WVT_I32 or WVT_I64.
+static char *parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem,uint8_t *index_type) {
   uint32_t flags = read_LEB(m->bytes, pos, 32);
+  if(flags>7){
+    return "unsupported memory limits flags.";
+  }
   uint32_t pages = read_LEB(m->bytes, pos, 32); // Initial size
   mem->initial = pages;
   mem->pages = pages;
@@ -55,7 +68,8 @@ static uint8_t parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem) {
     mem->maximum = 32768;
     mem->fixed=0;
   }
-  return (flags & 0x4)?WVT_I64:WVT_I32;
+  *index_type=(flags & 0x4)?WVT_I64:WVT_I32;
+  return NULL;
 }
 
 static Export *get_export(RuntimeContext *rc, const char *name, uint32_t *kind) {
@@ -210,11 +224,15 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for (uint32_t c=0; c<count; c++) {
                 Type *type = dynarr_push_type(&m->types,Type);
                 type->form = read_LEB(bytes, &pos, 7);
+                if(type->form!=0x60){
+                    return "unsupported type form.";
+                }
                 count2 = read_LEB(bytes, &pos, 32);
                 if(count2>255)return "type group too long.(should less than 256)";
                 type->params=(uint8_t *)pool_alloc(&m->types_pool,count2+1);
                 for (uint32_t p=0; p<count2; p++) {
                     type->params[p]=read_LEB(bytes, &pos, 32);
+                    if(!is_value_type(type->params[p]))return "unsupported value type.";
                 }
                 type->params[count2]=0;
 
@@ -223,6 +241,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 type->results=(uint8_t *)pool_alloc(&m->types_pool,count2+1);
                 for (uint32_t r=0; r<count2; r++) {
                     type->results[r] = read_LEB(bytes, &pos, 32);
+                    if(!is_value_type(type->results[r]))return "unsupported value type.";
                 }
                 type->results[count2]=0;
                 wa_debug("type %d:\n",c);
@@ -259,11 +278,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 case PWART_KIND_FUNCTION:
                     type_index = read_LEB(bytes, &pos, 32); break;
                 case PWART_KIND_TABLE:
-                  parse_table_type(m, &pos,&info.tab); break;
+                  ReturnIfErr(parse_table_type(m, &pos,&info.tab)); break;
                 case PWART_KIND_MEMORY:
-                    content_type = parse_memory_type(m, &pos,&info.mem); break;
+                    ReturnIfErr(parse_memory_type(m, &pos,&info.mem,&content_type)); break;
                 case PWART_KIND_GLOBAL:
                     content_type = read_LEB(bytes, &pos, 7);
+                    if(!is_value_type(content_type))return "unsupported value type.";
                     // TODO: use mutability
                     mutability = read_LEB(bytes, &pos, 1);
                     (void)mutability; break;
@@ -376,7 +396,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for(int i=0;i<table_count;i++){
                 Table *table=m->context->own_tables+i;
                 wa_debug("create new table at %p\n",table);
-                parse_table_type(m, &pos,table);
+                ReturnIfErr(parse_table_type(m, &pos,table));
                 table->entries = wa_calloc(table->size*sizeof(void *));
                 *dynarr_push_type(&m->context->tables,Table *)=table;
             }
@@ -392,7 +412,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("  memory count: 0x%x\n", memory_count);
             for(int i=0;i<memory_count;i++){
                 Memory *memory=m->context->own_memories+i;
-                *dynarr_push_type(&m->memories_index_type,uint8_t)=parse_memory_type(m, &pos,memory);
+                ReturnIfErr(parse_memory_type(m, &pos,memory,dynarr_push_type(&m->memories_index_type,uint8_t)));
                 //XXX: custom memory creator?
                 if(memory->fixed){
                     // base never change, so allocate to maximum.
@@ -415,6 +435,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 StackValue *sv;
                 // Same allocation Import of global above
                 uint8_t type = read_LEB(bytes, &pos, 7);
+                if(!is_value_type(type))return "unsupported value type.";
                 // TODO: use mutability
                 uint8_t mutability = read_LEB(bytes, &pos, 1);
                 (void)mutability;
@@ -581,6 +602,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 for (uint32_t l=0; l<local_type_count; l++) {
                     lecount = read_LEB(bytes, &pos, 32);
                     vt = read_LEB(bytes, &pos, 7);
+                    if(!is_value_type(vt))return "unsupported value type.";
                     for (uint32_t l=0; l<lecount; l++) {
                         function->locals_type[lidx]=vt;
                         lidx++;
-- 
2.43.0


From 3d9d937ce1eac85c94c1b76b8ff9dd3300b5b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:18 +0000
Subject: [PATCH 41/69] fix: the page counts of a 64-bit memory are read in
 full

---
 pwart/modparser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 9e70972..12925ff 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -56,12 +56,18 @@ static char *parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem,uint
   if(flags>7){
     return "unsupported memory limits flags.";
   }
-  uint32_t pages = read_LEB(m->bytes, pos, 32); // Initial size
+  uint64_t pages = read_LEB(m->bytes, pos, 64); // Initial size
+  if(pages>0xffffffff){
+    return "memory too large.";
+  }
   mem->initial = pages;
   mem->pages = pages;
   // Limit the maximum to 2GB
   if (flags & 0x1) {
-    pages = read_LEB(m->bytes, pos, 32); // Max size
+    pages = read_LEB(m->bytes, pos, 64); // Max size
+    if(pages>0xffffffff){
+      return "memory too large.";
+    }
     mem->maximum = pages;
     mem->fixed=1;
   } else {
-- 
2.43.0


From d23edb9ee759cae756498df555fa5f34b509cb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:34 +0000
Subject: [PATCH 42/69] fix: data segments are written only when the whole
 module is accepted

---
 pwart/modparser.c | 87 +++++++++++++++++++++++++++--------------------
 1 file changed, 50 insertions(+), 37 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 12925ff..7a70636 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -158,10 +158,52 @@ static char *apply_element_segments(ModuleCompiler *m, uint32_t pos) {
     return NULL;
 }
 
+// Read the segments of the data section at 'pos', and write them to the memories if 'apply'.
+static char *walk_data_segments(ModuleCompiler *m, uint32_t pos, int apply) {
+    uint8_t *bytes = m->bytes;
+    uint32_t seg_count = read_LEB(bytes, &pos, 32);
+    for (uint32_t s=0; s<seg_count; s++) {
+        uint32_t flags = read_LEB(bytes, &pos, 32);
+        uint32_t midx;
+        uint64_t offset=0;
+        switch(flags){
+            case 0:  //active
+            midx=0;
+            break;
+            case 1:  //passive
+            return "passive segment not support yet";
+            break;
+            case 2:  //active with memory index
+            midx=read_LEB(bytes, &pos, 32);
+            break;
+            default:
+            return "Illegal segment flags.";
+        }
+        // Run the init_expr to get the offset
+        m->pc=pos;
+        ReturnIfErr(waexpr_run_const(m,&offset));
+        pos=m->pc;
+
+        uint32_t size = read_LEB(bytes, &pos, 32);
+        if(apply){
+            // Copy the data to the memory offset
+            Memory *memory=*dynarr_get(m->context->memories,Memory *,midx);
+            wa_debug("  setting %d bytes of memory at %p + offset %d\n",
+                size, memory->bytes, (int)offset);
+            if(offset>(uint64_t)memory->pages*PAGE_SIZE || size>(uint64_t)memory->pages*PAGE_SIZE-offset){
+                return "data segment out of memory bounds.";
+            }
+            memcpy(memory->bytes+offset, bytes+pos, size);
+        }
+        pos += size;
+    }
+    return NULL;
+}
+
 static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count) {
     uint8_t   vt;
     char err;
-    uint32_t  pos = 0, word, element_pos = 0;
+    uint32_t  pos = 0, word, element_pos = 0, data_pos = 0;
     m->compile_succeeded=0;
 
     // Allocate the module
@@ -537,42 +579,10 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         // 9 and 11 are similar so keep them together, 10 is below 11
         case 11:
             wa_debug("Parsing Data(11) section (length: 0x%x)\n", slen);
-            uint32_t seg_count = read_LEB(bytes, &pos, 32);
-            for (uint32_t s=0; s<seg_count; s++) {
-                uint32_t flags = read_LEB(bytes, &pos, 32);
-                uint32_t midx;
-                uint64_t offset=0;
-                switch(flags){
-                    case 0:  //active
-                    midx=0;
-                    break;
-                    case 1:  //passive
-                    return "passive segment not support yet";
-                    break;
-                    case 2:  //active with memory index
-                    midx=read_LEB(bytes, &pos, 32);
-                    break;
-                    default:
-                    return "Illegal segment flags.";
-                }
-                // Run the init_expr to get the offset
-                m->pc=pos;
-                ReturnIfErr(waexpr_run_const(m,&offset));
-                pos=m->pc;
-
-                // Copy the data to the memory offset
-                uint32_t size = read_LEB(bytes, &pos, 32);
-                Memory *memory=*dynarr_get(m->context->memories,Memory *,midx);
-                wa_debug("  setting %d bytes of memory at %p + offset %d\n",
-                    size, memory->bytes, (int)offset);
-                if(offset>(uint64_t)memory->pages*PAGE_SIZE || size>(uint64_t)memory->pages*PAGE_SIZE-offset){
-                    return "data segment out of memory bounds.";
-                }
-                memcpy(memory->bytes+offset, bytes+pos, size);
-                pos += size;
-                
-            }
-
+            // only check here, memories are written after everything else is known to be accepted.
+            data_pos = pos;
+            ReturnIfErr(walk_data_segments(m,pos,0));
+            pos = start_pos+slen;
             break;
         case 10:
             wa_debug("Parsing Code(10) section (length: 0x%x)\n", slen);
@@ -649,6 +659,9 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     if(element_pos!=0){
         ReturnIfErr(apply_element_segments(m,element_pos));
     }
+    if(data_pos!=0){
+        ReturnIfErr(walk_data_segments(m,data_pos,1));
+    }
 
     //also exports.
     for(int i1=0;i1<m->context->exports->len;i1++){
-- 
2.43.0


From 4faea79898550fb95b1d164fc1da43e27811ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:06 +0000
Subject: [PATCH 43/69] fix: a module is out of its namespace when on_detached
 is called

---
 pwart/namespace.c | 50 ++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 633adc8..a8dc505 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -59,22 +59,32 @@ extern pwart_namespace pwart_namespace_new(){
     return ns;
 }
 
+// take the module out of the namespace, then notify or free it.
+static char *namespace_ReleaseModule(struct pwart_named_module *m){
+    struct pwart_named_module removed=*m;
+    m->type=PWART_MODULE_TYPE_NULL;
+    switch(removed.type){
+        case PWART_MODULE_TYPE_HOST_MODULE:
+            if(removed.val.host->on_detached!=NULL){
+                removed.val.host->on_detached(removed.val.host);
+            }
+            break;
+        case PWART_MODULE_TYPE_WASM_MODULE:
+            ReturnIfErr(pwart_free_module_state(removed.val.wasm));
+            break;
+    }
+    return NULL;
+}
+
 extern char *pwart_namespace_delete(pwart_namespace ns){
     Namespace *n=(Namespace *)ns;
     int i=0;
     for(i=0;i<n->mods->len;i++){
-        struct pwart_named_module *m=dynarr_get(n->mods,struct pwart_named_module,i);
-        switch(m->type){
-            case PWART_MODULE_TYPE_HOST_MODULE:
-                if(m->val.host->on_detached!=NULL){
-                    m->val.host->on_detached(m->val.host);
-                }
-                break;
-            case PWART_MODULE_TYPE_WASM_MODULE:
-                ReturnIfErr(pwart_free_module_state(m->val.wasm));
-                break;
-        }
-        wa_free((char *)m->name);
+        ReturnIfErr(namespace_ReleaseModule(dynarr_get(n->mods,struct pwart_named_module,i)));
+    }
+    // on_detached can use the namespace, so keep the names until all modules are released.
+    for(i=0;i<n->mods->len;i++){
+        wa_free((char *)dynarr_get(n->mods,struct pwart_named_module,i)->name);
     }
     if(n->nsmeta!=NULL){
         wa_free(n->nsmeta);
@@ -99,17 +109,7 @@ extern struct pwart_named_module *pwart_namespace_find_module(pwart_namespace ns
 extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
     struct pwart_named_module *m=pwart_namespace_find_module(ns,name);
     if(m!=NULL){
-        switch(m->type){
-            case PWART_MODULE_TYPE_HOST_MODULE:
-                if(m->val.host->on_detached!=NULL){
-                    m->val.host->on_detached(m->val.host);
-                }
-                break;
-            case PWART_MODULE_TYPE_WASM_MODULE:
-                ReturnIfErr(pwart_free_module_state(m->val.wasm));
-                break;
-        }
-        m->type=PWART_MODULE_TYPE_NULL;
+        ReturnIfErr(namespace_ReleaseModule(m));
     }
     return NULL;
 }
@@ -121,8 +121,10 @@ extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named
     char *name;
     m=pwart_namespace_find_module(ns,mod->name);
     if(m!=NULL){
-        pwart_namespace_remove_module(ns,m->name);
         name=(char *)m->name;
+        pwart_namespace_remove_module(ns,name);
+        // on_detached can define modules, which may move the array.
+        m=pwart_namespace_find_module(ns,name);
     }else{
         // the caller may release or reuse its buffer, keep own copy of the name.
         name=wa_malloc(strlen(mod->name)+1);
-- 
2.43.0


From 3862a5f21de627f11e9fbdced168283f119f6e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:06 +0000
Subject: [PATCH 44/69] fix: pwart_namespace_meta.this is the namespace, not
 the words it begins with

---
 pwart/def.h       | 2 +-
 pwart/namespace.c | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index a10fc1c..9abc69e 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -241,7 +241,7 @@ typedef struct {
     struct pwart_symbol_resolver resolver;
     struct dynarr *mods;   //modules in this namespace, type pwart_named_module.
     struct pwart_host_module *nsmeta; //meta info module of current namespace.
-    void *nsmetasyms[1];
+    void *nsmetasyms[2];
 } Namespace;
 
 
diff --git a/pwart/namespace.c b/pwart/namespace.c
index a8dc505..7ac6318 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -53,7 +53,9 @@ extern pwart_namespace pwart_namespace_new(){
     Namespace *ns=(Namespace *)wa_calloc(sizeof(Namespace));
     dynarr_init(&ns->mods,sizeof(struct pwart_named_module));
     ns->resolver.resolve=&namespace_SymbolResolve;
-    ns->nsmetasyms[0]=ns;
+    // the symbol of a global is the address of its value.
+    ns->nsmetasyms[0]=&ns->nsmetasyms[1];
+    ns->nsmetasyms[1]=ns;
     ns->nsmeta=pwart_namespace_new_host_module2(nsmetaSymbolNames, &ns->nsmetasyms[0], 1);
     pwart_namespace_define_host_module(ns,"pwart_namespace_meta", ns->nsmeta);
     return ns;
-- 
2.43.0


From 657add3bd8bb914eb398404e7b0c4e31542a7384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:06 +0000
Subject: [PATCH 45/69] fix: a function of a host module cannot be imported as
 another kind

---
 pwart/namespace.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 7ac6318..e8f2916 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -189,12 +189,16 @@ struct InternalHostModule{
     const char **names;
     void **symbols;
     int length;
+    int functions_only;
 };
 
 static void namespace_InternalHostModuleSymbolResolver(struct pwart_host_module *_this2,struct pwart_symbol_resolve_request *req){
     struct InternalHostModule *_this=(struct InternalHostModule *)_this2;
     int i=0;
     req->result=NULL;
+    if(_this->functions_only && req->kind!=PWART_KIND_FUNCTION){
+        return;
+    }
     for(i=0;i<_this->length;i++){
         if(strcmp(_this->names[i],req->import_field)==0){
             req->result=_this->symbols[i];
@@ -209,6 +213,7 @@ extern struct pwart_host_module *pwart_namespace_new_host_module(const char **na
     hostmod->names=names;
     /*XXX: Once pwart_wasm_function changed, Fix here by using pwart_wrap_host_function_c. */
     hostmod->symbols=(void *)funcs;
+    hostmod->functions_only=1;
     hostmod->base.resolve=&namespace_InternalHostModuleSymbolResolver;
     return (struct pwart_host_module *)hostmod;
 }
-- 
2.43.0


From 9fb0873435390a6b0c0769fa9b2d3182ed04ffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 46/69] fix: ref_from_index with a block in the index
 expression aborted the compiler

---
 pwart/opgen_misc.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index cc1a646..f995ffe 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -189,10 +189,32 @@ static int pwart_CheckAndGenStubFunction(ModuleCompiler *m,WasmFunctionEntry fn)
     return 1;
   }else if(fn==pwart_InlineFuncList.ref_from_index){
     StackValue *sv=m->stack+m->sp-1;
-    SLJIT_ASSERT((sv->jit_type==SVT_GENERAL) && (sv->val.op==SLJIT_IMM));
-    opgen_GenBaseAddressReg(m,sv->val.opw);
-    stackvalue_EmitSwapTopTwoValue(m);
-    m->sp--;
+    StackValue *sv2=m->stack+m->sp;
+    int a;
+    if((sv->jit_type==SVT_GENERAL) && (sv->val.op==SLJIT_IMM)){
+      opgen_GenBaseAddressReg(m,sv->val.opw);
+      stackvalue_EmitSwapTopTwoValue(m);
+      m->sp--;
+      return 1;
+    }
+    //the const has been saved to frame by a block in the index expression, look up the memory at runtime.
+    if(m->target_ptr_size==64 && sv2->wasm_type==WVT_I32){
+      opgen_GenNumOp(m,WASMOPC_i64_extend_i32_u);
+    }else if(m->target_ptr_size==32 && sv2->wasm_type==WVT_I64){
+      opgen_GenConvertOp(m,WASMOPC_i32_wrap_i64);
+    }
+    a=pwart_GetFreeReg(m,RT_BASE,0);
+    sljit_emit_op1(m->jitc,SLJIT_MOV_U32,a,0,sv->val.op,sv->val.opw);
+    sljit_emit_op2(m->jitc,SLJIT_SHL,a,0,a,0,SLJIT_IMM,sizeof(void *)==4?2:3);
+    sljit_emit_op2(m->jitc,SLJIT_ADD,a,0,a,0,SLJIT_IMM,(sljit_sw)&m->context->memories->data);
+    sljit_emit_op1(m->jitc,SLJIT_MOV,a,0,SLJIT_MEM1(a),0);
+    sljit_emit_op1(m->jitc,SLJIT_MOV,a,0,SLJIT_MEM1(a),offsetof(Memory,bytes));
+    sljit_emit_op2(m->jitc,SLJIT_ADD,a,0,a,0,sv2->val.op,sv2->val.opw);
+    m->sp-=2;
+    sv=stackvalue_Push(m,WVT_REF);
+    sv->jit_type=SVT_GENERAL;
+    sv->val.op=a;
+    sv->val.opw=0;
     return 1;
   }
   return 0;
-- 
2.43.0


From 8f740dd102a5805158a3d97e31da2e8ce01171db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 47/69] fix: x86 shifts whose count is loaded from a far
 address lose the saved count register

---
 sljit/sljit_src/sljitNativeX86_common.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 104675b..f87e09c 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2615,14 +2615,18 @@ static sljit_s32 emit_shift(struct sljit_compiler *compiler,
 	EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
 #if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
 	EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_PREF_SHIFT_REG, 0);
+	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 #else /* !SLJIT_CONFIG_X86_32 */
+	/* Loading src2 may use TMP_REG2 for addressing. */
+	EMIT_MOV(compiler, TMP_REG2, 0, src2, src2w);
 	mode32 = compiler->mode32;
 	compiler->mode32 = 0;
-	EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	inst = emit_x86_instruction(compiler, 1, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	FAIL_IF(!inst);
+	*inst = XCHG_r_rm;
 	compiler->mode32 = mode32;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 	inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_PREF_SHIFT_REG, 0, TMP_REG1, 0);
 	FAIL_IF(!inst);
 	inst[1] |= mode;
-- 
2.43.0


From 3e0c578111ecb44f381a350bd5f5b26ee3cdab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 48/69] fix: x86 shift_into by a constant zero never writes its
 destination

---
 sljit/sljit_src/sljitNativeX86_common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index f87e09c..7b245fe 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2865,8 +2865,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			CHECK_EXTRA_REGS(src1_reg, src1w, (void)0);
+			return emit_mov(compiler, dst_reg, dstw, src1_reg, src1w);
+		}
 	}
 
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
-- 
2.43.0


From 95fb4cfef5e254c396962d3b33ae518e8156a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 49/69] fix: x86 shift_into overwrites an operand when the
 destination addresses or is the shift count

---
 sljit/sljit_src/sljitNativeX86_common.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 7b245fe..0fc944a 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2927,7 +2927,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		move_src1 = 0;
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2951,7 +2951,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				restore_sp4 = src1_reg;
 			}
 		} else if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2981,6 +2981,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		}
 
 		if (move_src1) {
+			/* The shift register contains src3 at this point. */
+			if (src1_reg == SLJIT_PREF_SHIFT_REG)
+				src1_reg = (restore_ecx == 1) ? TMP_REG1 : SLJIT_MEM1(SLJIT_SP);
 			EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 			src1_reg = dst_reg;
 			src1w = 0;
-- 
2.43.0


From 10447dae72105f039c5931bf33f6c5f12f59de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 50/69] fix: serialize the float and vector register counts of
 the argument checks

After sljit_deserialize_compiler() every floating point or vector operation
of the function being compiled was rejected (an abort in debug builds), since
the checker's register counts were not part of the serialized state. Back ends
with separate vector registers need them for code generation as well.
---
 sljit/sljit_src/sljitSerialize.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitSerialize.c b/sljit/sljit_src/sljitSerialize.c
index 042cc18..b4bdd35 100644
--- a/sljit/sljit_src/sljitSerialize.c
+++ b/sljit/sljit_src/sljitSerialize.c
@@ -65,6 +65,10 @@ struct sljit_serialized_compiler {
 	sljit_s32 saveds;
 	sljit_s32 fscratches;
 	sljit_s32 fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
 	sljit_s32 local_size;
 	sljit_uw size;
 
@@ -97,6 +101,12 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 };
 
 struct sljit_serialized_label {
@@ -124,7 +134,7 @@ struct sljit_serialized_const {
 #else /* !SLJIT_LITTLE_ENDIAN */
 #define SLJIT_SERIALIZE_SIGNATURE 0x544a4c53
 #endif /* SLJIT_LITTLE_ENDIAN */
-#define SLJIT_SERIALIZE_VERSION 1
+#define SLJIT_SERIALIZE_VERSION 2
 
 SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compiler *compiler,
 	sljit_s32 options, sljit_uw *size)
@@ -212,6 +222,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 	serialized_compiler->saveds = compiler->saveds;
 	serialized_compiler->fscratches = compiler->fscratches;
 	serialized_compiler->fsaveds = compiler->fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	serialized_compiler->vscratches = compiler->vscratches;
+	serialized_compiler->vsaveds = compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
 	serialized_compiler->local_size = compiler->local_size;
 	serialized_compiler->size = compiler->size;
 
@@ -309,6 +323,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->vscratches = compiler->vscratches;
+		serialized_debug_info->vsaveds = compiler->vsaveds;
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -366,6 +386,10 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->saveds = serialized_compiler->saveds;
 	compiler->fscratches = serialized_compiler->fscratches;
 	compiler->fsaveds = serialized_compiler->fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->vscratches = serialized_compiler->vscratches;
+	compiler->vsaveds = serialized_compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
 	compiler->local_size = serialized_compiler->local_size;
 	compiler->size = serialized_compiler->size;
 
@@ -573,6 +597,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->vscratches = serialized_debug_info->vscratches;
+	compiler->vsaveds = serialized_debug_info->vsaveds;
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From 1eb3651462f30567c9bbb5f161b37fdf51182954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 51/69] fix: the NEWLINE anchors belong to all alternatives of
 the pattern

---
 sljit/regex_src/regexJIT.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 3f95469..cdc5148 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -794,6 +794,10 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 		/* Begin intentionally kept as 1. */
 	}
 
+	/* The new-line searches belong to all alternatives of the pattern. */
+	if ((compiler_common->flags & REGEX_NEWLINE) && stack_push(stack, type_open_br, 0))
+		return REGEX_MEMORY_ERROR;
+
 	while (length > 0) {
 		switch (*regex_string) {
 		case '\\' :
@@ -914,6 +918,9 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 	if (depth != 0)
 		return REGEX_INVALID_REGEX;
 
+	if ((compiler_common->flags & REGEX_NEWLINE) && stack_push(stack, type_close_br, 0))
+		return REGEX_MEMORY_ERROR;
+
 	if ((compiler_common->flags & (REGEX_MATCH_END | REGEX_NEWLINE)) == (REGEX_MATCH_END | REGEX_NEWLINE)) {
 		/* Replace REGEX_MATCH_END flag to REGEX_FAKE_MATCH_END */
 		compiler_common->flags &= ~REGEX_MATCH_END;
-- 
2.43.0


From 3ab6ab937a71730ff5ff7f37ffb96403c648e16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 52/69] fix: regex_reset_match left the end state active

---
 sljit/regex_src/regexJIT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index cdc5148..6067f02 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2423,6 +2423,8 @@ void regex_reset_match(struct regex_match *match)
 			current_ptr[ind] = -1;
 		} while (current != 0);
 	}
+	/* The end state is not part of the list. */
+	match->current[1] = -1;
 	match->head = machine->u.call_init(match->current, match);
 }
 
-- 
2.43.0


From 84adc43195b391a156a1e3911a024d77a7dc697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 53/69] fix: the length passed to the regex matcher is an int

---
 sljit/regex_src/regexJIT.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 6067f02..d22e1ef 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -1978,7 +1978,9 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 	/* Copy arguments to their place. */
 	EMIT_OP1(SLJIT_MOV, R_REGEX_MATCH, 0, SLJIT_S0, 0);
 	EMIT_OP1(SLJIT_MOV, R_STRING, 0, SLJIT_S1, 0);
-	EMIT_OP2(SLJIT_ADD, R_LENGTH, 0, SLJIT_S2, 0, SLJIT_IMM, 1);
+	/* The upper half of an int argument is undefined. */
+	EMIT_OP1(SLJIT_MOV_S32, R_LENGTH, 0, SLJIT_S2, 0);
+	EMIT_OP2(SLJIT_ADD, R_LENGTH, 0, R_LENGTH, 0, SLJIT_IMM, 1);
 
 	/* Init global registers. */
 	EMIT_OP1(SLJIT_MOV, R_CURR_STATE, 0, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, current));
-- 
2.43.0


From 84c47012a4008c5e595e250133eddf1dba300039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 54/69] fix: an anchored match that has to reach the end was
 finished before the end

---
 sljit/regex_src/regexJIT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index d22e1ef..205a1e9 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2178,6 +2178,11 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 			EMIT_CMP(jump, SLJIT_NOT_EQUAL, R_NEXT_HEAD, 0, SLJIT_IMM, 0);
 			sljit_set_label(jump, start_label);
 		}
+		else if (compiler_common.flags & REGEX_MATCH_END) {
+			/* The match is dropped if more characters follow. */
+			EMIT_CMP(jump, SLJIT_NOT_EQUAL, SLJIT_MEM1(R_CURR_STATE), TERM_REL_OFFSET_OF(0, 1), SLJIT_IMM, -1);
+			sljit_set_label(jump, start_label);
+		}
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, fast_quit), SLJIT_IMM, 1);
 	}
 
-- 
2.43.0


From 2ada11babeee4b060e1bf5b6dc157c5f6326035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 55/69] fix: regex characters above 127 never matched

---
 sljit/regex_src/regexJIT.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 205a1e9..a9a1b0c 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -401,6 +401,13 @@ struct compiler_common {
 	struct sljit_jump **range_jump_list;
 };
 
+/* The generated code loads characters as unsigned values. */
+#ifdef REGEX_USE_8BIT_CHARS
+#define CHAR_VALUE(chr) ((unsigned char)(chr))
+#else
+#define CHAR_VALUE(chr) (chr)
+#endif
+
 static const regex_char_t* decode_number(const regex_char_t *regex_string, int length, int *result)
 {
 	int value = 0;
@@ -666,7 +673,7 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 {
 	struct stack* stack = &compiler_common->stack;
 	const regex_char_t *base_from = regex_string;
-	regex_char_t left_char, right_char, tmp_char;
+	int left_char, right_char, tmp_char;
 
 	length--;
 	regex_string++;
@@ -708,13 +715,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			break;
 
 		if (*regex_string != '\\')
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		else {
 			regex_string++;
 			length--;
 			if (length == 0)
 				return -2;
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		}
 		regex_string++;
 		length--;
@@ -725,13 +732,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			length--;
 
 			if (*regex_string != '\\')
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			else {
 				regex_string++;
 				length--;
 				if (length == 0)
 					return -2;
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			}
 			regex_string++;
 			length--;
@@ -805,7 +812,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 			regex_string++;
 			if (length == 0)
 				return REGEX_INVALID_REGEX;
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
@@ -905,7 +912,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				compiler_common->flags |= REGEX_MATCH_END;
 				break;
 			}
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
-- 
2.43.0


From 3c3138e6eacc7f6e247af50de681c5bc994bbc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 56/69] fix: a non-greedy regex that can be empty and has to
 reach the end lost its first match

---
 sljit/regex_src/regexJIT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index a9a1b0c..f5baa1c 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2272,7 +2272,7 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(SLJIT_S1), SLJIT_OFFSETOF(struct regex_match, index), SLJIT_IMM, !(compiler_common.flags & REGEX_FAKE_MATCH_BEGIN) ? 1 : 2);
 
-		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || empty_match_id == -1) {
+		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || (compiler_common.flags & REGEX_MATCH_END) || empty_match_id == -1) {
 			/* The else is a really rare event, so we still generate an empty function instead of a runtime pointer check. */
 			SLJIT_ASSERT(R_CURR_STATE == SLJIT_S0);
 			if (!(compiler_common.flags & REGEX_MATCH_BEGIN)) {
-- 
2.43.0


From 65475064800cfdfde65937538b22ff9c0a22aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 57/69] fix: the begin of an empty match before the end of a
 line was not updated by fast forward

---
 sljit/regex_src/regexJIT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index f5baa1c..c35cd58 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -1961,6 +1961,9 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 				SLJIT_ASSERT(compiler_common.dfa_transitions[ind].type != type_end);
 				if (compiler_common.dfa_transitions[ind].type == type_rng_start && compiler_common.dfa_transitions[ind].value)
 					suggest_fast_forward = 0;
+				/* An empty match can be reported at the current index. */
+				if (compiler_common.dfa_transitions[ind].type == type_newline)
+					suggest_fast_forward = 0;
 			}
 			compiler_common.search_states[ind].value = -1;
 		}
-- 
2.43.0


From 0b47342255e5b4f0f8958fc034f5ed1459a48844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 58/69] fix: a longer match ending at the end of the input was
 ignored when a line ended earlier

---
 sljit/regex_src/regexJIT.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index c35cd58..e160ad3 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2467,12 +2467,10 @@ int regex_get_result(struct regex_match *match, int *end, int *id)
 
 	if (flags & REGEX_FAKE_MATCH_END) {
 		SLJIT_ASSERT(!(flags & (REGEX_MATCH_BEGIN | REGEX_MATCH_END)));
-		if (match->best_begin != -1)
-			return (int)match->best_begin;
-
+		/* A state which is still active is better than the best match found so far. */
 		no_states = match->machine->no_states;
 		if (match->current[no_states + 1] == -1)
-			return -1;
+			return (int)match->best_begin;
 		if (flags & REGEX_ID_CHECK)
 			*id = (int)match->current[no_states + 3];
 		if (!(flags & REGEX_FAKE_MATCH_BEGIN))
-- 
2.43.0


From c7185f2adda4bbdc9d69b06800df9366fd145e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:54 +0000
Subject: [PATCH 59/69] fix: running out of memory while repeating a regex term
 was taken for success

---
 sljit/regex_src/regexJIT.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index e160ad3..63dcd2b 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -486,9 +486,9 @@ static int iterate(struct stack *stack, int min, int max)
 		stack_clone(&it, stack);
 		/* and put an empty bracket expression instead of it. */
 		if (stack_push(stack, type_open_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		if (stack_push(stack, type_close_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		return len;
 	}
 
@@ -522,7 +522,7 @@ static int iterate(struct stack *stack, int min, int max)
 				if (stack_push_copy(stack, count, count))
 					return -1;
 				if (stack_push(stack, type_qestion_mark, 0))
-					return REGEX_MEMORY_ERROR;
+					return -1;
 				count++;
 				max--;
 			}
@@ -532,7 +532,7 @@ static int iterate(struct stack *stack, int min, int max)
 			max--;
 			count++;
 			if (stack_push(stack, type_qestion_mark, 0))
-				return REGEX_MEMORY_ERROR;
+				return -1;
 		}
 
 		while (max > 0) {
@@ -553,12 +553,12 @@ static int iterate(struct stack *stack, int min, int max)
 		}
 
 		if (stack_push(stack, type_plus_sign, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 	}
 
 	/* Close the opened bracket. */
 	if (stack_push(stack, type_close_br, 0))
-		return REGEX_MEMORY_ERROR;
+		return -1;
 
 	return len;
 }
-- 
2.43.0


From 4ad3f732cdd14db7ef4b136ff4f48b19dd5563d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 60/69] fix: pwart_syslib_unload removes the modules from the
 namespace, and works without wasi

---
 pwart_syslib/pwart_syslib.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pwart_syslib/pwart_syslib.c b/pwart_syslib/pwart_syslib.c
index 5eda5eb..b67c6c4 100644
--- a/pwart_syslib/pwart_syslib.c
+++ b/pwart_syslib/pwart_syslib.c
@@ -40,9 +40,19 @@ extern char *pwart_syslib_load(pwart_namespace ns){
     return NULL;
 }
 
+/* The namespace may outlive the module, so remove it before it is deleted. */
+static void unload_module(pwart_namespace ns,char *name,char *(*module_delete)(struct pwart_host_module *)){
+    struct pwart_named_module *mod=pwart_namespace_find_module(ns,name);
+    if(mod!=NULL && mod->type==PWART_MODULE_TYPE_HOST_MODULE){
+        struct pwart_host_module *host=mod->val.host;
+        pwart_namespace_remove_module(ns,name);
+        module_delete(host);
+    }
+}
+
 extern char *pwart_syslib_unload(pwart_namespace ns){
-    pwart_libuv_module_delete(pwart_namespace_find_module(ns,"libuv")->val.host);
-    pwart_libffi_module_delete(pwart_namespace_find_module(ns,"libffi")->val.host);
-    pwart_wasi_module_delete(pwart_namespace_find_module(ns,"wasi_snapshot_preview1")->val.host);
+    unload_module(ns,"libuv",&pwart_libuv_module_delete);
+    unload_module(ns,"libffi",&pwart_libffi_module_delete);
+    unload_module(ns,"wasi_snapshot_preview1",&pwart_wasi_module_delete);
     return NULL;
-}
\ No newline at end of file
+}
-- 
2.43.0


From 70daa7398b1e53e67faa756feb085f9f356f3852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 61/69] fix: ffi callbacks overflow their stack after a hundred
 nested calls

---
 pwart_syslib/libffi.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index 07db2e5..116cdc5 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -9,6 +9,9 @@
 
 #ifdef PWART_SYSLIB_LIBFFI_ENABLED
 
+/* the same as for threads of libuv module */
+#define CALLBACK_STACK_SIZE (64*1024)
+
 /* Check if available before call any other ffi function. */
 static void wasm__ffi_is_enabled(void *fp){
     void *sp=fp;
@@ -130,7 +133,7 @@ static void wasm__ffi_closure_free(void *fp){
 static void wasmcb__ffi_closurecb(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *fn2=userdata2[0];
     void *user_data=userdata2[1];
-    void *stackbase=pwart_allocate_stack(4096);
+    void *stackbase=pwart_allocate_stack(CALLBACK_STACK_SIZE);
     void *sp=stackbase;
     pwart_rstack_put_ref(&sp,cif);
     pwart_rstack_put_ref(&sp,ret);
@@ -159,7 +162,7 @@ static void wasm__ffi_prep_closure_loc(void *fp){
 static void wasmcb__c2wasm_adapter(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *wasmfn=userdata2[0];
     void *user_data=userdata2[1];
-    void *stackbase=pwart_allocate_stack(4096);
+    void *stackbase=pwart_allocate_stack(CALLBACK_STACK_SIZE);
     void *sp=stackbase;
     for(int i=0;i<cif->nargs;i++){
         int size=cif->arg_types[i]->size;
-- 
2.43.0


From 9073903408834b44b61c097a78d9562685a5042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 62/69] fix: wasi sock_recv and sock_send hand wasm addresses
 to the host as pointers

---
 pwart_syslib/libwasi.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index 5d65337..147f020 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -402,8 +402,15 @@ static void wasm__sock_accept(void *fp) {
 static void wasm__sock_recv(void *fp) { 
    void *sp = fp;
   _wargi32(sock) _wargi32(ri_data) _wargi32(ri_data_len) _wargi32(ri_flags)
-      _wargi32(ro_datalen) _wargi32(ro_flags) uvwasi_errno_t err =
-          uvwasi_sock_recv(&uvwc, sock, uwmem->bytes + ri_data, ri_data_len,
+      _wargi32(ro_datalen) _wargi32(ro_flags)
+  uvwasi_iovec_t *iovs2=sp;
+  uint32_t i;
+  for(i=0;i<ri_data_len;i++){
+    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + ri_data + 8*i);
+    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + ri_data + 8*i+4);
+  }
+  uvwasi_errno_t err =
+          uvwasi_sock_recv(&uvwc, sock, iovs2, ri_data_len,
                            ri_flags, uwmem->bytes + ro_datalen,
                            uwmem->bytes + ro_flags);
   sp = fp;
@@ -412,8 +419,15 @@ static void wasm__sock_recv(void *fp) {
 static void wasm__sock_send(void *fp) { 
    void *sp = fp;
   _wargi32(sock) _wargi32(si_data) _wargi32(si_data_len) _wargi32(si_flags)
-      _wargi32(so_datalen) uvwasi_errno_t err =
-          uvwasi_sock_send(&uvwc, sock, uwmem->bytes + si_data, si_data_len,
+      _wargi32(so_datalen)
+  uvwasi_ciovec_t *iovs2=sp;
+  uint32_t i;
+  for(i=0;i<si_data_len;i++){
+    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + si_data + 8*i);
+    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + si_data + 8*i+4);
+  }
+  uvwasi_errno_t err =
+          uvwasi_sock_send(&uvwc, sock, iovs2, si_data_len,
                            si_flags, uwmem->bytes + so_datalen);
   sp = fp;
   pwart_rstack_put_i32(&sp, err);
-- 
2.43.0


From b93cc0984571225d76bc867f0238a0aaac1a36bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 63/69] fix: wasi environ functions leak the environment list

---
 pwart_syslib/libwasi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index 147f020..a386c54 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -69,6 +69,7 @@ static void wasm__environ_get(void *fp) {
     *buf='\0';
     buf+=1;
   }
+  uv_os_free_environ(penv,envcnt);
   sp = fp;
   pwart_rstack_put_i32(&sp, 0);
 }
@@ -82,6 +83,7 @@ static void wasm__environ_sizes_get(void *fp) {
   for(i=0;i<envcnt;i++){
     size+=strlen(penv[i].name)+strlen(penv[i].value)+2;
   } 
+  uv_os_free_environ(penv,envcnt);
   *(uint32_t *)(uwmem->bytes + environ_count)=envcnt;
   *(uint32_t *)(uwmem->bytes + environ_buf_size)=size;
   sp = fp;
-- 
2.43.0


From 90aab933aed44b1c9925f814166f8e92fdddff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 64/69] fix: wasi initialization leaks the preopen list

---
 pwart_syslib/libwasi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index a386c54..cc563cd 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -483,6 +483,7 @@ extern char *pwart_wasi_module_init(){
 
   /* Initialize the sandbox. */
   err = uvwasi_init(&uvwc, &init_options);
+  wa_free(init_options.preopens);
   if(err)return "uvwasi_init failed.";
   uvwcinited=1;
   return NULL;
-- 
2.43.0


From 3f81ca953b8eabf1473711fed1197463e1aeec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 65/69] fix: wasiexec crashes when the .wasm file can not be
 opened

---
 pwart_syslib/wasiexec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwart_syslib/wasiexec.c b/pwart_syslib/wasiexec.c
index 07fd6fb..0c3de8b 100644
--- a/pwart_syslib/wasiexec.c
+++ b/pwart_syslib/wasiexec.c
@@ -18,6 +18,10 @@ int main(int argc,char **argv){
         int returncode;
 
         f = fopen(modpath, "rb");
+        if(f==NULL){
+            printf("can not open %s\n",modpath);
+            return 1;
+        }
 
         fseek(f,0,SEEK_END);
         filesize=ftell(f);
-- 
2.43.0


From b2969da9a2458fa3a4445b3276a79bf44472108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 66/69] fix: sljit x86: load all 32 bytes of an unaligned
 memory operand of a 256-bit sljit_emit_simd_op2

---
 sljit/sljit_src/sljitNativeX86_common.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 0fc944a..6b65f47 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4909,7 +4909,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 
 	if ((src2 & SLJIT_MEM) && SLJIT_SIMD_GET_ELEM2_SIZE(type) < reg_size) {
 		mov_op = ((type & SLJIT_SIMD_FLOAT) ? (MOVUPS_x_xm | (elem_size == 3 ? EX86_PREF_66 : 0)) : (MOVDQU_x_xm | EX86_PREF_F3)) | EX86_SSE2;
-		if (use_vex)
+		if (reg_size == 5)
+			mov_op |= VEX_256;
+
+		if (reg_size == 5 || use_vex)
 			FAIL_IF(emit_vex_instruction(compiler, mov_op, TMP_FREG, 0, src2, src2w));
 		else
 			FAIL_IF(emit_groupf(compiler, mov_op, TMP_FREG, src2, src2w));
-- 
2.43.0


From 6808851615d18378c781dfe696eac547023b8543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 67/69] fix: sljit x86-64: do not truncate a 64-bit immediate
 stored into a vector lane

---
 sljit/sljit_src/sljitNativeX86_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 6b65f47..d5759ea 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4316,6 +4316,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	}
 
 	if (srcdst == SLJIT_IMM) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+		compiler->mode32 = elem_size != 3;
+#endif /* SLJIT_CONFIG_X86_64 */
 		EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_IMM, srcdstw);
 		srcdst = TMP_REG1;
 		srcdstw = 0;
-- 
2.43.0


From f3af957b641cfb6e1c6f38865d2ce38ba7e0b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 68/69] fix: sljit x86: sljit_emit_simd_sign with 16 bit lanes
 must not modify the flags

---
 sljit/sljit_src/sljitNativeX86_common.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index d5759ea..85e2d2e 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4748,7 +4748,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	sljit_s32 use_vex = (cpu_feature_list & CPU_FEATURE_AVX) && (compiler->options & SLJIT_ENTER_USE_VEX);
 	sljit_s32 dst_r;
 	sljit_uw op;
-	sljit_u8 *inst;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_simd_sign(compiler, type, vreg, dst, dstw));
@@ -4771,10 +4770,15 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 
 		switch (elem_size) {
 		case 1:
-			if (use_vex)
+			/* The upper half is cleared with MOVQ, because shifting the result would modify the flags. */
+			if (use_vex) {
 				FAIL_IF(emit_vex_instruction(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2 | VEX_SSE2_OPV, TMP_FREG, vreg, vreg, 0));
-			else
-				FAIL_IF(emit_groupf(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2, TMP_FREG, vreg, 0));
+				FAIL_IF(emit_vex_instruction(compiler, MOVQ_x_xm | EX86_PREF_F3 | EX86_SSE2, TMP_FREG, 0, TMP_FREG, 0));
+			} else {
+				FAIL_IF(emit_groupf(compiler, MOVDQA_x_xm | EX86_PREF_66 | EX86_SSE2, TMP_FREG, vreg, 0));
+				FAIL_IF(emit_groupf(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2, TMP_FREG, TMP_FREG, 0));
+				FAIL_IF(emit_groupf(compiler, MOVQ_x_xm | EX86_PREF_F3 | EX86_SSE2, TMP_FREG, TMP_FREG, 0));
+			}
 			vreg = TMP_FREG;
 			break;
 		case 2:
@@ -4794,12 +4798,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 		compiler->mode32 = type & SLJIT_32;
 #endif /* SLJIT_CONFIG_X86_64 */
 
-		if (elem_size == 1) {
-			inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_IMM, 8, dst_r, 0);
-			FAIL_IF(!inst);
-			inst[1] |= SHR;
-		}
-
 		if (dst_r == TMP_REG1)
 			return emit_mov(compiler, dst, dstw, TMP_REG1, 0);
 
-- 
2.43.0


From 974274eddcab8fe604dd57be34da1bad498cc161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:08 +0000
Subject: [PATCH 69/69] fix: sljit_emit_fop1 must check for a refused
 allocation in the register form of neg and abs

---
 sljit/sljit_src/sljitNativeX86_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 85e2d2e..d4ecea8 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -3310,6 +3310,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop1(struct sljit_compiler *compil
 		FAIL_IF(emit_groupf(compiler, PCMPEQD_x_xm | EX86_PREF_66 | EX86_SSE2, dst_r, dst_r, 0));
 
 		inst = emit_x86_instruction(compiler, 2 | EX86_PREF_66 | EX86_SSE2_OP2, 0, 0, dst_r, 0);
+		FAIL_IF(!inst);
 		inst[0] = GROUP_0F;
 		/* Same as PSRLD_x / PSRLQ_x */
 		inst[1] = (op & SLJIT_32) ? PSLLD_x_i8 : PSLLQ_x_i8;
-- 
2.43.0

