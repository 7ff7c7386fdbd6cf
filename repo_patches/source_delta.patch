From e2c8ca88cde61c0106cf4e1337696d9af4e07d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 01/49] fix: execute OP_SWAP, which the compiler emits for
 mixed int/float operands

---
 src/vm/vm_exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5d6b443..87c8ed6 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1420,6 +1420,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 break;
             }
 
+            case OP_SWAP: {
+                if (ctx->expr_sp < 2) return CND_ERR_STACK_UNDERFLOW;
+                uint64_t top = ctx->expr_stack[ctx->expr_sp - 1];
+                ctx->expr_stack[ctx->expr_sp - 1] = ctx->expr_stack[ctx->expr_sp - 2];
+                ctx->expr_stack[ctx->expr_sp - 2] = top;
+                break;
+            }
+
             case OP_EMIT: {
                 uint8_t type = FETCH_IL_U8(ctx);
                 uint64_t val;
-- 
2.43.0


From ba6cef4bacf6ef238ca5c4c40ef029801882d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:23 +0000
Subject: [PATCH 02/49] fix: define shifts by 64 or more, negation of INT64_MIN
 and out-of-range float to int conversion

---
 src/vm/vm_exec.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 87c8ed6..a5af795 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1569,8 +1569,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_NEG: {
                 uint64_t a;
                 if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
-                // Cast to signed to avoid C4146 (unary minus on unsigned)
-                if (stack_push(ctx, (uint64_t)(-(int64_t)a)) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+                // Subtract from zero: avoids C4146 (unary minus on unsigned) and signed overflow
+                if (stack_push(ctx, 0 - a) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
             }
 
@@ -1640,6 +1640,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_FTOI: {
                 uint64_t a_bits; if (stack_pop(ctx, &a_bits) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
                 double f; memcpy(&f, &a_bits, 8);
+                // Values outside int64 (and NaN) cannot be converted
+                if (!(f >= -9223372036854775808.0 && f < 9223372036854775808.0)) return CND_ERR_ARITHMETIC;
                 int64_t i = (int64_t)f;
                 if (stack_push(ctx, (uint64_t)i) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
@@ -1658,8 +1660,18 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_BIT_OR:  { BINARY_OP(|); break; }
             case OP_BIT_XOR: { BINARY_OP(^); break; }
             case OP_BIT_NOT: { UNARY_OP(~); break; }
-            case OP_SHL:     { BINARY_OP(<<); break; }
-            case OP_SHR:     { BINARY_OP(>>); break; }
+            case OP_SHL: {
+                uint64_t b; if (stack_pop(ctx, &b) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
+                uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
+                if (stack_push(ctx, (b < 64) ? (a << b) : 0) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+                break;
+            }
+            case OP_SHR: {
+                uint64_t b; if (stack_pop(ctx, &b) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
+                uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
+                if (stack_push(ctx, (b < 64) ? (a >> b) : 0) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+                break;
+            }
 
             // Comparison
             case OP_EQ:  { BINARY_OP(==); break; }
-- 
2.43.0


From ed92d25606d247e6fb34bb1d542057153b9f4f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 03/49] fix: report bitfields and padding that do not fit the
 data instead of truncating them silently

---
 src/vm/vm_exec.c     | 6 +++++-
 src/vm/vm_internal.h | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index a5af795..83cc02b 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -977,7 +977,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_F64: HANDLE_FLOAT(8, double, uint64_t, read_u64(ctx->data_buffer + ctx->cursor, ctx->endianness), write_u64(ctx->data_buffer + ctx->cursor, t, ctx->endianness));
 
             // ... Category C (Bitfields) ...
-            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
+            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if (b == 0 || b > 64) return CND_ERR_INVALID_OP; if (!bits_available(ctx, b)) return CND_ERR_OOB; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
             
             case OP_ENTER_BIT_MODE: {
                 // No-op for now
@@ -1009,6 +1009,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t k=FETCH_IL_U16(ctx); 
                 uint8_t b=FETCH_IL_U8(ctx); 
                 int64_t v=0; 
+                if (b == 0 || b > 64) return CND_ERR_INVALID_OP;
+                if (!bits_available(ctx, b)) return CND_ERR_OOB;
                 if(ctx->mode==CND_MODE_ENCODE){ 
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
@@ -1024,6 +1026,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BIT_BOOL: {
                 uint16_t k = FETCH_IL_U16(ctx);
                 uint8_t v = 0;
+                if (!bits_available(ctx, 1)) return CND_ERR_OOB;
                 if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1039,6 +1042,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             }
             case OP_ALIGN_PAD: { 
                 uint8_t b=FETCH_IL_U8(ctx); 
+                if (!bits_available(ctx, b)) return CND_ERR_OOB;
                 if (ctx->mode == CND_MODE_ENCODE) {
                     write_bits(ctx, 0, b);
                 } else {
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index d4d1331..329992f 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -94,6 +94,12 @@ static inline uint64_t read_u64(const uint8_t* buf, cnd_endian_t endian) {
     }
 }
 
+// True if `count` more bits fit between the current bit position and the end of the data
+static inline bool bits_available(const cnd_vm_ctx* ctx, uint8_t count) {
+    size_t bytes = ((size_t)ctx->bit_offset + count + 7) / 8;
+    return ctx->cursor <= ctx->data_len && bytes <= ctx->data_len - ctx->cursor;
+}
+
 static inline uint64_t read_bits(cnd_vm_ctx* ctx, uint8_t count) {
     // Optimization: Byte-aligned reads
     if (ctx->bit_offset == 0 && (count & 7) == 0) {
-- 
2.43.0


From b31c7350c5f53ccdfbc254a89ea7fecb388944e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:12 +0000
Subject: [PATCH 04/49] fix: do not leak stale buffer bits into the unused part
 of a bitfield byte

---
 src/vm/vm_internal.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index 329992f..03329f6 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -212,15 +212,17 @@ static inline void write_bits(cnd_vm_ctx* ctx, uint64_t val, uint8_t count) {
 
         if (ctx->endianness == CND_BE) {
             // BE: Write MSB of val first to MSB of stream
-            bit = (val >> (count - 1 - i)) & 1;
+            uint8_t shift = (uint8_t)(count - 1 - i);
+            bit = (shift < 64) ? ((val >> shift) & 1) : 0;
             mask = 1 << (7 - ctx->bit_offset);
         } else {
             // LE: Write LSB of val first to LSB of stream
-            bit = (val >> i) & 1;
+            bit = (i < 64) ? ((val >> i) & 1) : 0;
             mask = 1 << ctx->bit_offset;
         }
 
-        uint8_t current_byte = ctx->data_buffer[ctx->cursor];
+        // A freshly started byte holds no field yet: do not keep stale buffer bits
+        uint8_t current_byte = (ctx->bit_offset == 0) ? 0 : ctx->data_buffer[ctx->cursor];
         
         if (bit) current_byte |= mask;
         else current_byte &= ~mask;
-- 
2.43.0


From 55dae803d1205f0ec11b5d44e6a00b6ce9c59f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 05/49] fix: count a partially used last byte as part of the
 message

---
 src/vm/vm_exec.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 83cc02b..9dd1f8f 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1695,6 +1695,12 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
         }
     }
     
+    // A partially used last byte belongs to the message
+    if (ctx->bit_offset != 0) {
+        ctx->cursor++;
+        ctx->bit_offset = 0;
+    }
+
     // fprintf(stderr, "VM_DEBUG: Execution finished. Cursor=%zu, DataLen=%zu. Returning OK.\n", ctx->cursor, ctx->data_len);
     return CND_ERR_OK;
 }
-- 
2.43.0


From 7eb57d986366f953973fa906a8e02304b6c8c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 06/49] fix: bound enum, polynomial and spline operands by the
 data and the bytecode

---
 src/vm/vm_exec.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 9dd1f8f..09bcad9 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -794,6 +794,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 bool found = false;
                 
                 #define CHECK_ENUM(size, ctype, READ_EXPR) \
+                    if (ctx->cursor < size || (size_t)(end - pc) < (size_t)count * size) return CND_ERR_OOB; \
                     ctype actual = (READ_EXPR); \
                     for (uint16_t i = 0; i < count; i++) { \
                         ctype val = 0; \
@@ -803,7 +804,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         else if (size == 8) val = (ctype)FETCH_IL_U64(ctx); \
                         if (actual == val) { \
                             found = true; \
-                            pc += (count - 1 - i) * size; \
+                            pc += (size_t)(count - 1 - i) * size; \
                             break; \
                         } \
                     }
@@ -909,8 +910,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 ctx->trans_type = CND_TRANS_POLY;
                 ctx->trans_poly_count = count;
                 ctx->trans_poly_data = pc;
+                if ((size_t)(end - pc) < (size_t)count * 8) return CND_ERR_OOB;
                 pc += (count * 8);
-                if (pc > end) return CND_ERR_OOB;
                 break;
             }
 
@@ -919,8 +920,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 ctx->trans_type = CND_TRANS_SPLINE;
                 ctx->trans_spline_count = count;
                 ctx->trans_spline_data = pc;
+                if ((size_t)(end - pc) < (size_t)count * 16) return CND_ERR_OOB;
                 pc += (count * 2 * 8); // 2 doubles per point
-                if (pc > end) return CND_ERR_OOB;
                 break;
             }
 
-- 
2.43.0


From 8554dcfdb1b20c4f9a0f13e790469fb586f1146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:53 +0000
Subject: [PATCH 07/49] fix: bound switch tables by the bytecode, also for
 indexes that wrap around

---
 src/vm/vm_exec.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 09bcad9..4bec238 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1254,8 +1254,11 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 size_t original_ip = ctx->ip;
                 ctx->ip = table_start_ip;
                 
+                // The header (6 bytes) and all entries (12 bytes each) must lie inside the bytecode
+                if (ctx->program->bytecode_len - table_start_ip < 6) return CND_ERR_OOB;
                 uint16_t count = read_il_u16(ctx);
                 int32_t default_off = (int32_t)read_il_u32(ctx);
+                if ((ctx->program->bytecode_len - ctx->ip) / 12 < count) return CND_ERR_OOB;
                 
                 uint64_t disc_val = 0;
                 if (ctx->io_callback(ctx, key, OP_CTX_QUERY, &disc_val) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1320,10 +1323,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     uint64_t index = disc_val - min_val;
                     // Offset is at table_start + 8 + 8 + 4 + index * 4
                     // We are currently at table_start + 20 (ctx->ip)
-                    size_t offset_loc = ctx->ip + (size_t)(index * 4);
-                    
                     // Check bounds for the offset entry
-                    if (offset_loc + 4 > ctx->program->bytecode_len) return CND_ERR_OOB;
+                    if (index >= (ctx->program->bytecode_len - ctx->ip) / 4) return CND_ERR_OOB;
+                    size_t offset_loc = ctx->ip + (size_t)(index * 4);
                     
                     target_off = (int32_t)peek_il_u32(ctx, offset_loc);
                 }
-- 
2.43.0


From 5a2e2f30ef99fc33f72a4c2bf9b5b623b7694563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 08/49] fix: walk bytecode by instruction when verifying and
 when skipping empty arrays

---
 src/vm/vm_exec.c   |  28 +++--
 src/vm/vm_instr.h  | 204 ++++++++++++++++++++++++++++++
 src/vm/vm_verify.c | 301 ++++++---------------------------------------
 3 files changed, 262 insertions(+), 271 deletions(-)
 create mode 100644 src/vm/vm_instr.h

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 4bec238..3cd8460 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1,4 +1,5 @@
 #include "vm_internal.h"
+#include "vm_instr.h"
 #include <string.h>
 #include <stdio.h>
 #include <inttypes.h>
@@ -303,15 +304,23 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
 
 // --- Loop Stack Helpers ---
 
-static void skip_loop_body(cnd_vm_ctx* ctx) {
+// Moves ip behind the ARR_END that matches the array start just executed
+static cnd_error_t skip_loop_body(cnd_vm_ctx* ctx) {
+    const uint8_t* bc = ctx->program->bytecode;
+    size_t len = ctx->program->bytecode_len;
     int depth = 1;
-    while (ctx->ip < ctx->program->bytecode_len && depth > 0) {
-        uint8_t op = ctx->program->bytecode[ctx->ip];
+    instr_walk w;
+    instr_walk_init(&w, ctx->ip);
+    while (w.ip < len && depth > 0) {
+        uint8_t op = bc[w.ip];
         if (op == OP_ARR_FIXED || op == OP_ARR_PRE_U8 || 
             op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_EOF || op == OP_ARR_DYNAMIC) depth++;
         if (op == OP_ARR_END) depth--;
-        ctx->ip++; 
+        cnd_error_t err = instr_walk_next(&w, bc, len);
+        if (err != CND_ERR_OK) return err;
     }
+    ctx->ip = w.ip;
+    return (depth == 0) ? CND_ERR_OK : CND_ERR_OOB;
 }
 
 static bool loop_push(cnd_vm_ctx* ctx, size_t start_ip, uint32_t count) {
@@ -379,7 +388,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (!loop_push(ctx, ctx->ip, (uint32_t)count)) return CND_ERR_OOB; \
         } else { \
              SYNC_IP(); \
-             skip_loop_body(ctx); \
+             { cnd_error_t err = skip_loop_body(ctx); if (err != CND_ERR_OK) return err; } \
              RELOAD_PC(); \
         } \
         break; \
@@ -1141,7 +1150,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (!loop_push(ctx, ctx->ip, count)) return CND_ERR_OOB;
                 } else {
                      SYNC_IP();
-                     skip_loop_body(ctx);
+                     cnd_error_t err = skip_loop_body(ctx);
+                     if (err != CND_ERR_OK) return err;
                      RELOAD_PC();
                 }
                 break;
@@ -1161,7 +1171,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 // Check if we are already at EOF
                 if (ctx->cursor >= ctx->data_len) {
                     // Skip loop
-                    skip_loop_body(ctx);
+                    cnd_error_t err = skip_loop_body(ctx);
+                    if (err != CND_ERR_OK) return err;
                     RELOAD_PC();
                 }
                 break;
@@ -1186,7 +1197,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (try_optimize_byte_array(ctx, count)) { RELOAD_PC(); break; }
                     if (!loop_push(ctx, ctx->ip, count)) return CND_ERR_OOB;
                 } else {
-                     skip_loop_body(ctx);
+                     cnd_error_t err = skip_loop_body(ctx);
+                     if (err != CND_ERR_OK) return err;
                      RELOAD_PC();
                 }
                 break;
diff --git a/src/vm/vm_instr.h b/src/vm/vm_instr.h
new file mode 100644
index 0000000..b8530cf
--- /dev/null
+++ b/src/vm/vm_instr.h
@@ -0,0 +1,204 @@
+#ifndef VM_INSTR_H
+#define VM_INSTR_H
+
+// Shape of the bytecode: instruction lengths and the jump tables embedded in the code.
+// Shared by everything that walks bytecode without executing it.
+
+#include "concordia.h"
+
+#define CND_MAX_PENDING_TABLES 64
+
+static inline uint16_t instr_u16(const uint8_t* p) {
+    return (uint16_t)(p[0] | (p[1] << 8));
+}
+
+static inline uint32_t instr_u32(const uint8_t* p) {
+    return (uint32_t)p[0] | ((uint32_t)p[1] << 8) | ((uint32_t)p[2] << 16) | ((uint32_t)p[3] << 24);
+}
+
+static inline uint64_t instr_u64(const uint8_t* p) {
+    return (uint64_t)instr_u32(p) | ((uint64_t)instr_u32(p + 4) << 32);
+}
+
+// Size in bytes of an integer IO type, 0 if `type` is not one
+static inline size_t instr_int_size(uint8_t type) {
+    switch (type) {
+        case OP_IO_U8:  case OP_IO_I8:  return 1;
+        case OP_IO_U16: case OP_IO_I16: return 2;
+        case OP_IO_U32: case OP_IO_I32: return 4;
+        case OP_IO_U64: case OP_IO_I64: return 8;
+        default: return 0;
+    }
+}
+
+// Length of the instruction at `ip` including its operands. 0 if the opcode or an operand that
+// selects its shape is not defined. Larger than len - ip if the instruction is cut off.
+static inline size_t instr_length(const uint8_t* bc, size_t len, size_t ip) {
+    size_t left = len - ip;
+    const uint8_t* p = bc + ip;
+
+    switch (p[0]) {
+        case OP_NOOP:
+        case OP_SET_ENDIAN_LE: case OP_SET_ENDIAN_BE:
+        case OP_EXIT_STRUCT:
+        case OP_ENTER_BIT_MODE: case OP_EXIT_BIT_MODE:
+        case OP_ARR_END:
+        case OP_MARK_OPTIONAL:
+        case OP_POP: case OP_SWAP: case OP_DUP:
+        case OP_ADD: case OP_SUB: case OP_MUL: case OP_DIV: case OP_MOD: case OP_NEG:
+        case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FNEG:
+        case OP_SIN: case OP_COS: case OP_TAN: case OP_SQRT: case OP_POW: case OP_LOG: case OP_ABS:
+        case OP_ITOF: case OP_FTOI:
+        case OP_EQ_F: case OP_NEQ_F: case OP_GT_F: case OP_LT_F: case OP_GTE_F: case OP_LTE_F:
+        case OP_BIT_AND: case OP_BIT_OR: case OP_BIT_XOR: case OP_BIT_NOT: case OP_SHL: case OP_SHR:
+        case OP_EQ: case OP_NEQ: case OP_GT: case OP_LT: case OP_GTE: case OP_LTE:
+        case OP_LOG_AND: case OP_LOG_OR: case OP_LOG_NOT:
+            return 1;
+
+        case OP_META_VERSION:
+        case OP_ALIGN_PAD: case OP_ALIGN_FILL:
+            return 2;
+
+        case OP_META_NAME:
+        case OP_ENTER_STRUCT:
+        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
+        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
+        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL:
+        case OP_IO_BIT_BOOL:
+        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32:
+        case OP_ARR_EOF:
+        case OP_LOAD_CTX: case OP_STORE_CTX:
+            return 3;
+
+        case OP_IO_BIT_U: case OP_IO_BIT_I: // Key, Bits
+            if (left >= 4 && (p[3] == 0 || p[3] > 64)) return 0;
+            return 4;
+
+        case OP_STR_NULL:    // Key, MaxLen
+        case OP_ARR_DYNAMIC: // Key, RefKey
+        case OP_JUMP: case OP_JUMP_IF_NOT:
+            return 5;
+
+        case OP_ARR_FIXED: case OP_RAW_BYTES:      // Key, Count
+        case OP_SWITCH: case OP_SWITCH_TABLE:      // Key, Table offset
+            return 7;
+
+        case OP_CRC_16: return 8;  // Poly, Init, XorOut, Flags
+        case OP_CRC_32: return 14; // Poly, Init, XorOut, Flags
+
+        case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV:
+        case OP_PUSH_IMM:
+            return 9;
+
+        case OP_SCALE_LIN:
+            return 17;
+
+        case OP_TRANS_POLY:
+            return left < 2 ? 2 : 2 + (size_t)p[1] * 8;
+
+        case OP_TRANS_SPLINE:
+            return left < 2 ? 2 : 2 + (size_t)p[1] * 16;
+
+        case OP_EMIT: // Type
+            if (left < 2) return 2;
+            if (instr_int_size(p[1]) || p[1] == OP_IO_BOOL || p[1] == OP_IO_F32 || p[1] == OP_IO_F64) return 2;
+            return 0;
+
+        case OP_CONST_WRITE: { // Type, Value
+            if (left < 2) return 2;
+            if (p[1] != OP_IO_U8 && p[1] != OP_IO_U16 && p[1] != OP_IO_U32 && p[1] != OP_IO_U64) return 0;
+            return 2 + instr_int_size(p[1]);
+        }
+
+        case OP_CONST_CHECK: { // Key, Type, Value
+            if (left < 4) return 4;
+            size_t size = instr_int_size(p[3]);
+            return size ? 4 + size : 0;
+        }
+
+        case OP_RANGE_CHECK: { // Type, Min, Max
+            if (left < 2) return 2;
+            size_t size = instr_int_size(p[1]);
+            if (p[1] == OP_IO_F32) size = 4;
+            if (p[1] == OP_IO_F64) size = 8;
+            return size ? 2 + 2 * size : 0;
+        }
+
+        case OP_ENUM_CHECK: { // Type, Count, Values
+            if (left < 4) return 4;
+            size_t size = instr_int_size(p[1]);
+            return size ? 4 + (size_t)instr_u16(p + 2) * size : 0;
+        }
+
+        default:
+            return 0;
+    }
+}
+
+// Locates the table of the complete switch instruction at `ip`. False if the table is not inside the bytecode.
+static inline bool instr_table(const uint8_t* bc, size_t len, size_t ip, size_t* start, size_t* end) {
+    size_t base = ip + 7;
+    uint32_t rel = instr_u32(bc + ip + 3);
+    if (rel > len - base) return false;
+
+    const uint8_t* t = bc + base + rel;
+    size_t left = len - base - rel;
+    size_t size;
+    if (bc[ip] == OP_SWITCH) { // Count, Default, [Value, Offset]
+        if (left < 6) return false;
+        size = 6 + (size_t)instr_u16(t) * 12;
+    } else { // Min, Max, Default, [Offset]
+        if (left < 20) return false;
+        uint64_t min = instr_u64(t);
+        uint64_t max = instr_u64(t + 8);
+        if (max < min || max - min >= (left - 20) / 4) return false;
+        size = 20 + (size_t)(max - min + 1) * 4;
+    }
+    if (size > left) return false;
+    *start = base + rel;
+    *end = *start + size;
+    return true;
+}
+
+// Walks over the instructions of a program in order, stepping over the tables of its switches
+typedef struct {
+    size_t ip;
+    size_t pending; // Tables that lie ahead, the nearest last
+    struct { size_t start, end; } table[CND_MAX_PENDING_TABLES];
+} instr_walk;
+
+static inline void instr_walk_init(instr_walk* w, size_t ip) {
+    w->ip = ip;
+    w->pending = 0;
+}
+
+// Advances over the instruction at w->ip and any tables behind it
+static inline cnd_error_t instr_walk_next(instr_walk* w, const uint8_t* bc, size_t len) {
+    size_t n = instr_length(bc, len, w->ip);
+    if (n == 0) return CND_ERR_INVALID_OP;
+    if (n > len - w->ip) return CND_ERR_OOB;
+
+    if (bc[w->ip] == OP_SWITCH || bc[w->ip] == OP_SWITCH_TABLE) {
+        size_t start, end;
+        if (!instr_table(bc, len, w->ip, &start, &end)) return CND_ERR_OOB;
+        if (w->pending == CND_MAX_PENDING_TABLES) return CND_ERR_STACK_OVERFLOW;
+        size_t i = w->pending++;
+        while (i > 0 && w->table[i - 1].start < start) {
+            w->table[i] = w->table[i - 1];
+            i--;
+        }
+        w->table[i].start = start;
+        w->table[i].end = end;
+    }
+
+    w->ip += n;
+    while (w->pending > 0 && w->ip >= w->table[w->pending - 1].start) {
+        w->pending--;
+        if (w->ip != w->table[w->pending].start) return CND_ERR_VALIDATION; // Code and table overlap
+        w->ip = w->table[w->pending].end;
+    }
+    return CND_ERR_OK;
+}
+
+#endif
diff --git a/src/vm/vm_verify.c b/src/vm/vm_verify.c
index 0800f2f..0adbcef 100644
--- a/src/vm/vm_verify.c
+++ b/src/vm/vm_verify.c
@@ -1,5 +1,20 @@
-#include "concordia.h"
 #include "vm_internal.h"
+#include "vm_instr.h"
+
+// A jump may go to any instruction of the program or to its end. `w` stands behind the jump.
+static bool is_jump_target(const instr_walk* w, const uint8_t* bc, size_t len, int64_t target)
+{
+    if (target < 0 || (uint64_t)target > len) return false;
+
+    instr_walk t;
+    if ((uint64_t)target >= w->ip) t = *w;
+    else instr_walk_init(&t, 0);
+
+    while (t.ip < (uint64_t)target) {
+        if (instr_walk_next(&t, bc, len) != CND_ERR_OK) return false;
+    }
+    return t.ip == (uint64_t)target;
+}
 
 cnd_error_t cnd_verify_program(const cnd_program* program)
 {
@@ -7,276 +22,36 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
         return CND_ERR_OOB;
     }
 
-    uint32_t ip = 0;
-    uint32_t len = (uint32_t)program->bytecode_len;
     const uint8_t* bc = program->bytecode;
+    size_t len = program->bytecode_len;
 
-    while (ip < len) {
-        uint8_t opcode = bc[ip];
-        
-        // Get instruction length
-        uint32_t instr_len = 1; // Opcode itself
-        
-        // Add argument lengths based on opcode
-        switch (opcode) {
-            // 0 args
-            case OP_NOOP:
-            case OP_SET_ENDIAN_LE:
-            case OP_SET_ENDIAN_BE:
-            case OP_ENTER_STRUCT:
-            case OP_EXIT_STRUCT:
-            case OP_META_VERSION:
-            case OP_META_NAME:
-            case OP_ARR_END:
-            case OP_ARR_EOF:
-            case OP_ARR_DYNAMIC:
-            case OP_POP:
-            case OP_SWAP:
-            case OP_DUP:
-            case OP_EMIT:
-            case OP_ADD:
-            case OP_SUB:
-            case OP_MUL:
-            case OP_DIV:
-            case OP_MOD:
-            case OP_NEG:
-            case OP_FADD:
-            case OP_FSUB:
-            case OP_FMUL:
-            case OP_FDIV:
-            case OP_FNEG:
-            case OP_SIN:
-            case OP_COS:
-            case OP_TAN:
-            case OP_SQRT:
-            case OP_POW:
-            case OP_LOG:
-            case OP_ABS:
-            case OP_ITOF:
-            case OP_FTOI:
-            case OP_EQ_F:
-            case OP_NEQ_F:
-            case OP_GT_F:
-            case OP_LT_F:
-            case OP_GTE_F:
-            case OP_LTE_F:
-            case OP_BIT_AND:
-            case OP_BIT_OR:
-            case OP_BIT_XOR:
-            case OP_BIT_NOT:
-            case OP_SHL:
-            case OP_SHR:
-            case OP_EQ:
-            case OP_NEQ:
-            case OP_GT:
-            case OP_LT:
-            case OP_GTE:
-            case OP_LTE:
-            case OP_LOG_AND:
-            case OP_LOG_OR:
-            case OP_LOG_NOT:
-            case OP_LOAD_CTX:
-            case OP_STORE_CTX:
-            case OP_MARK_OPTIONAL:
-            case OP_ENTER_BIT_MODE:
-            case OP_EXIT_BIT_MODE:
-                instr_len = 1;
-                break;
-
-            // 1 byte arg
-            case OP_ALIGN_PAD:
-            case OP_ALIGN_FILL:
-                instr_len = 2;
-                break;
-
-            // 2 byte arg (Key ID)
-            case OP_CTX_QUERY:
-            case OP_IO_U8:
-            case OP_IO_U16:
-            case OP_IO_U32:
-            case OP_IO_U64:
-            case OP_IO_I8:
-            case OP_IO_I16:
-            case OP_IO_I32:
-            case OP_IO_I64:
-            case OP_IO_F32:
-            case OP_IO_F64:
-            case OP_IO_BOOL:
-            case OP_IO_BIT_U:
-            case OP_IO_BIT_I:
-            case OP_IO_BIT_BOOL:
-            case OP_STR_PRE_U8:
-            case OP_ARR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_ARR_PRE_U16:
-            case OP_STR_PRE_U32:
-            case OP_ARR_PRE_U32:
-                instr_len = 3;
-                break;
-
-            // Special cases
-            case OP_ARR_FIXED:
-                instr_len = 7; // 1 + 2 + 4
-                break;
-                
-            case OP_STR_NULL:
-                instr_len = 5; // 1 + Key(2) + MaxLen(2)
-                break;
-                
-            case OP_RAW_BYTES:
-                instr_len = 7; // 1 + Key(2) + Count(4)
-                break;
+    instr_walk w;
+    instr_walk_init(&w, 0);
 
-            case OP_CONST_CHECK:
-            case OP_CONST_WRITE:
-                // Key(2) + Type(1) + Value(8)
-                instr_len = 1 + 2 + 1 + 8;
-                break;
-                
-            case OP_RANGE_CHECK:
-                // Key(2) + Type(1) + Min(8) + Max(8)
-                instr_len = 1 + 2 + 1 + 8 + 8;
-                break;
-                
-            case OP_SCALE_LIN:
-                // Key(2) + Factor(8) + Offset(8)
-                instr_len = 1 + 2 + 8 + 8;
-                break;
-                
-            case OP_CRC_16:
-            case OP_CRC_32:
-                // Key(2) + StartOffset(4) + Length(4) + Poly(4) + Init(4) + XorOut(4) + RefIn(1) + RefOut(1)
-                // This is a guess based on typical CRC params, but let's assume it's handled or skip detailed check.
-                // Actually, let's just check opcode existence.
-                // If we don't know length, we can't verify.
-                // Assuming standard CRC32 params: 2+4+4+4+4+4+1+1 = 24 bytes?
-                // Let's assume 1 for now and hope it's not used in tests or fix later.
-                // Wait, tests use CRC16/32.
-                // Let's check vm_exec.c for CRC length.
-                // But I can't read it now.
-                // I'll assume 1 and if tests fail I'll fix.
-                instr_len = 1; 
-                break;
-
-            case OP_PUSH_IMM:
-                instr_len = 9; // 1 + 8
-                break;
-
-            case OP_JUMP:
-            case OP_JUMP_IF_NOT:
-                instr_len = 5; // 1 + Offset(4)
-                break;
-
-            case OP_SWITCH: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Count(2) + Default(4)
-                if (table_start + 6 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint16_t count = (uint16_t)(t_ptr[0] | (t_ptr[1] << 8));
-                
-                // Table size: 2 + 4 + count * (8 + 4)
-                uint32_t table_size = 6 + count * 12;
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check offsets
-                // Default offset
-                const uint8_t* def_ptr = bc + table_start + 2;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
-                
-                // Target relative to code_start_ip (ip + 7)
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Case offsets
-                for (uint16_t i = 0; i < count; i++) {
-                    const uint8_t* case_ptr = bc + table_start + 6 + (i * 12) + 8; // Skip value(8)
-                    int32_t off = (int32_t)(case_ptr[0] | (case_ptr[1] << 8) | (case_ptr[2] << 16) | (case_ptr[3] << 24));
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
-                }
-                
-                instr_len = 7;
-                break;
-            }
-            
-            case OP_SWITCH_TABLE: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Min(8) + Max(8) + Default(4)
-                if (table_start + 20 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint64_t min_val = (uint64_t)t_ptr[0] | ((uint64_t)t_ptr[1] << 8) | ((uint64_t)t_ptr[2] << 16) | ((uint64_t)t_ptr[3] << 24) |
-                                   ((uint64_t)t_ptr[4] << 32) | ((uint64_t)t_ptr[5] << 40) | ((uint64_t)t_ptr[6] << 48) | ((uint64_t)t_ptr[7] << 56);
-                uint64_t max_val = (uint64_t)t_ptr[8] | ((uint64_t)t_ptr[9] << 8) | ((uint64_t)t_ptr[10] << 16) | ((uint64_t)t_ptr[11] << 24) |
-                                   ((uint64_t)t_ptr[12] << 32) | ((uint64_t)t_ptr[13] << 40) | ((uint64_t)t_ptr[14] << 48) | ((uint64_t)t_ptr[15] << 56);
-                
-                if (max_val < min_val) return CND_ERR_VALIDATION;
-                
-                uint64_t count = max_val - min_val + 1;
-                if (count > 0xFFFFFFFF) return CND_ERR_OOB;
-                
-                uint64_t table_size_64 = 20 + count * 4;
-                if (table_size_64 > 0xFFFFFFFF) return CND_ERR_OOB;
-                uint32_t table_size = (uint32_t)table_size_64;
-                
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check default offset
-                const uint8_t* def_ptr = bc + table_start + 16;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Check table offsets
-                for (uint64_t i = 0; i < count; i++) {
-                    const uint8_t* entry_ptr = bc + table_start + 20 + (i * 4);
-                    int32_t off = (int32_t)(entry_ptr[0] | (entry_ptr[1] << 8) | (entry_ptr[2] << 16) | (entry_ptr[3] << 24));
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
-                }
-                
-                instr_len = 7;
-                break;
-            }
+    while (w.ip < len) {
+        size_t ip = w.ip;
+        uint8_t opcode = bc[ip];
 
-            default:
-                return CND_ERR_INVALID_OP;
-        }
+        cnd_error_t err = instr_walk_next(&w, bc, len);
+        if (err != CND_ERR_OK) return err;
 
-        // Check if instruction fits
-        if (ip + instr_len > len) {
-            return CND_ERR_OOB;
-        }
-
-        // Additional checks for JMP
         if (opcode == OP_JUMP || opcode == OP_JUMP_IF_NOT) {
-            const uint8_t* ptr = bc + ip + 1;
-            int32_t offset = (int32_t)(ptr[0] | (ptr[1] << 8) | (ptr[2] << 16) | (ptr[3] << 24));
-            
-            int64_t target = (int64_t)ip + 5 + offset;
-            if (target < 0 || target >= len) {
-                return CND_ERR_OOB;
+            int32_t offset = (int32_t)instr_u32(bc + ip + 1);
+            if (!is_jump_target(&w, bc, len, (int64_t)ip + 5 + offset)) return CND_ERR_OOB;
+        } else if (opcode == OP_SWITCH || opcode == OP_SWITCH_TABLE) {
+            size_t start, end;
+            if (!instr_table(bc, len, ip, &start, &end)) return CND_ERR_OOB;
+
+            // The default offset, then every offset of the table, relative to the code behind the switch
+            size_t first = (opcode == OP_SWITCH) ? start + 2 : start + 16;
+            size_t step = (opcode == OP_SWITCH) ? 12 : 4;
+            for (size_t at = first; at < end; at += step) {
+                int64_t target = (int64_t)ip + 7 + (int32_t)instr_u32(bc + at);
+                // An empty switch (table right behind it) may name its own start
+                if (start == ip + 7 && target == (int64_t)start) continue;
+                if (!is_jump_target(&w, bc, len, target)) return CND_ERR_OOB;
             }
         }
-
-        ip += instr_len;
     }
 
     return CND_ERR_OK;
-- 
2.43.0


From d115ebe6e8948a7f97c9414eb53bd2e967035323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 09/49] fix: undo transforms exactly and report values that do
 not fit instead of encoding something else

---
 src/vm/vm_exec.c | 258 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 180 insertions(+), 78 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 3cd8460..6735af6 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -31,9 +31,9 @@ static inline double vm_math_poly_eval(cnd_vm_ctx* ctx, double x) {
     return y;
 }
 
-static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
-    double x = 0;
-    for(int iter=0; iter<20; iter++) {
+// Newton's method; only converges from a good starting point
+static inline double vm_math_poly_newton(cnd_vm_ctx* ctx, double target_y, double x) {
+    for(int iter=0; iter<64; iter++) {
         double y = 0;
         double dy = 0;
         if (ctx->trans_poly_count > 0) {
@@ -49,13 +49,52 @@ static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
             }
         }
         double diff = y - target_y;
-        if (diff > -0.001 && diff < 0.001) break;
+        if (diff == 0) break;
         if (dy == 0) break;
-        x = x - diff / dy;
+        double next = x - diff / dy;
+        if (next == x) break;
+        x = next;
     }
     return x;
 }
 
+// Finds x in [lo, hi] with poly(x) = target_y. False if there is none.
+static bool vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y, double lo, double hi, double* out) {
+    // Bracket the root between neighbours of 0, 1, 2, 4, ... and 0, -1, -2, -4, ..., then bisect
+    for (int sign = 1; sign >= -1; sign -= 2) {
+        double x0 = 0;
+        double d0 = vm_math_poly_eval(ctx, x0) - target_y;
+        if (d0 == 0 && lo <= 0) { *out = 0; return true; }
+        for (double step = 1; x0 != ((sign > 0) ? hi : lo) && step <= 18446744073709551616.0; step *= 2) {
+            double x1 = sign * step;
+            if (x1 > hi) x1 = hi;
+            if (x1 < lo) x1 = lo;
+            double d1 = vm_math_poly_eval(ctx, x1) - target_y;
+            if (d1 == 0) { *out = x1; return true; }
+            if ((d0 < 0) != (d1 < 0)) {
+                double a = x0, b = x1;
+                for (int iter = 0; iter < 200; iter++) {
+                    double m = a + (b - a) / 2;
+                    if (m == a || m == b) break;
+                    double dm = vm_math_poly_eval(ctx, m) - target_y;
+                    if (dm == 0) { a = m; break; }
+                    if ((dm < 0) == (d0 < 0)) a = m; else b = m;
+                }
+                *out = a;
+                return true;
+            }
+            x0 = x1;
+            d0 = d1;
+        }
+    }
+
+    // No change of sign, but the curve may still touch the target
+    double x = vm_math_poly_newton(ctx, target_y, 0);
+    double diff = vm_math_poly_eval(ctx, x) - target_y;
+    if (x >= lo && x <= hi && diff > -0.001 && diff < 0.001) { *out = x; return true; }
+    return false;
+}
+
 static inline double vm_math_spline_eval(cnd_vm_ctx* ctx, double x) {
     double y = 0;
     if (ctx->trans_spline_count >= 2) {
@@ -66,7 +105,8 @@ static inline double vm_math_spline_eval(cnd_vm_ctx* ctx, double x) {
             memcpy(&tmp, ctx->trans_spline_data + (i * 2 + 1) * 8, 8); memcpy(&y0, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + ((i + 1) * 2) * 8, 8); memcpy(&x1, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + ((i + 1) * 2 + 1) * 8, 8); memcpy(&y1, &tmp, 8);
-            if ((x >= x0 && x <= x1) || (i == ctx->trans_spline_count - 2)) {
+            // Outside of the points, continue the first or the last segment
+            if ((x >= x0 && x <= x1) || (i == 0 && x < x0) || (i == ctx->trans_spline_count - 2)) {
                 if (x1 == x0) y = y0;
                 else y = y0 + (x - x0) * (y1 - y0) / (x1 - x0);
                 break;
@@ -76,46 +116,137 @@ static inline double vm_math_spline_eval(cnd_vm_ctx* ctx, double x) {
     return y;
 }
 
-static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
-    double x = 0;
-    if (ctx->trans_spline_count >= 2) {
-        for (int i = 0; i < ctx->trans_spline_count - 1; i++) {
+// Finds x with spline(x) = target_y. False if there is none.
+static bool vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y, double* out) {
+    if (ctx->trans_spline_count < 2) return false;
+    int last = ctx->trans_spline_count - 2;
+    // First inside the segments, then on the continuation of the first and of the last one
+    for (int outside = 0; outside <= 1; outside++) {
+        for (int i = 0; i <= last; i++) {
             double x0, y0, x1, y1;
             uint64_t tmp;
             memcpy(&tmp, ctx->trans_spline_data + (i * 2) * 8, 8); memcpy(&x0, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + (i * 2 + 1) * 8, 8); memcpy(&y0, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + ((i + 1) * 2) * 8, 8); memcpy(&x1, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + ((i + 1) * 2 + 1) * 8, 8); memcpy(&y1, &tmp, 8);
-            if ((target_y >= y0 && target_y <= y1) || (target_y <= y0 && target_y >= y1)) {
-                if (y1 == y0) x = x0;
-                else x = x0 + (target_y - y0) * (x1 - x0) / (y1 - y0);
-                break;
+            if (!outside) {
+                if (!((target_y >= y0 && target_y <= y1) || (target_y <= y0 && target_y >= y1))) continue;
+                if (y1 == y0) *out = x0;
+                else *out = x0 + (target_y - y0) * (x1 - x0) / (y1 - y0);
+                return true;
+            }
+            if (y1 == y0 || x1 == x0) continue;
+            double x = x0 + (target_y - y0) * (x1 - x0) / (y1 - y0);
+            if ((i == 0 && x < x0) || (i == last && x > x1)) {
+                *out = x;
+                return true;
             }
         }
     }
-    return x;
+    return false;
+}
+
+// Checked 64-bit arithmetic: false if the result does not fit
+static bool i64_add(int64_t a, int64_t b, int64_t* out) {
+    if ((b > 0 && a > INT64_MAX - b) || (b < 0 && a < INT64_MIN - b)) return false;
+    *out = a + b;
+    return true;
 }
 
-static inline int64_t vm_math_int_to_eng(cnd_vm_ctx* ctx, int64_t raw) {
+static bool i64_sub(int64_t a, int64_t b, int64_t* out) {
+    if ((b < 0 && a > INT64_MAX + b) || (b > 0 && a < INT64_MIN + b)) return false;
+    *out = a - b;
+    return true;
+}
+
+static bool i64_mul(int64_t a, int64_t b, int64_t* out) {
+    if (a > 0 && ((b > 0 && a > INT64_MAX / b) || (b < 0 && b < INT64_MIN / a))) return false;
+    if (a < 0 && ((b > 0 && a < INT64_MIN / b) || (b < 0 && b < INT64_MAX / a))) return false;
+    *out = a * b;
+    return true;
+}
+
+static bool i64_div(int64_t a, int64_t b, int64_t* out) {
+    if (b == 0) { *out = a; return true; }
+    if (a == INT64_MIN && b == -1) return false;
+    *out = a / b;
+    return true;
+}
+
+static bool vm_math_int_to_eng(cnd_vm_ctx* ctx, int64_t raw, int64_t* eng) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return raw + ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return raw - ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return raw * ctx->trans_i_val;
-        case CND_TRANS_DIV_I64: return (ctx->trans_i_val != 0) ? raw / ctx->trans_i_val : raw;
-        default: return raw;
+        case CND_TRANS_ADD_I64: return i64_add(raw, ctx->trans_i_val, eng);
+        case CND_TRANS_SUB_I64: return i64_sub(raw, ctx->trans_i_val, eng);
+        case CND_TRANS_MUL_I64: return i64_mul(raw, ctx->trans_i_val, eng);
+        case CND_TRANS_DIV_I64: return i64_div(raw, ctx->trans_i_val, eng);
+        default: *eng = raw; return true;
     }
 }
 
-static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
+static bool vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng, int64_t* raw) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return eng - ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return eng + ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return (ctx->trans_i_val != 0) ? eng / ctx->trans_i_val : eng;
-        case CND_TRANS_DIV_I64: return eng * ctx->trans_i_val;
-        default: return eng;
+        case CND_TRANS_ADD_I64: return i64_sub(eng, ctx->trans_i_val, raw);
+        case CND_TRANS_SUB_I64: return i64_add(eng, ctx->trans_i_val, raw);
+        case CND_TRANS_MUL_I64: return i64_div(eng, ctx->trans_i_val, raw);
+        case CND_TRANS_DIV_I64: return i64_mul(eng, (ctx->trans_i_val != 0) ? ctx->trans_i_val : 1, raw);
+        default: *raw = eng; return true;
     }
 }
 
+static bool vm_is_float_trans(const cnd_vm_ctx* ctx) {
+    return ctx->trans_type == CND_TRANS_SCALE_F64 || ctx->trans_type == CND_TRANS_POLY || ctx->trans_type == CND_TRANS_SPLINE;
+}
+
+static double vm_math_float_to_eng(cnd_vm_ctx* ctx, double raw) {
+    if (ctx->trans_type == CND_TRANS_POLY) return vm_math_poly_eval(ctx, raw);
+    if (ctx->trans_type == CND_TRANS_SPLINE) return vm_math_spline_eval(ctx, raw);
+    return raw * ctx->trans_f_factor + ctx->trans_f_offset;
+}
+
+// Undoes the transform. False if no raw value in [lo, hi] has this engineering value.
+static bool vm_math_float_to_raw(cnd_vm_ctx* ctx, double eng, double lo, double hi, double* raw) {
+    if (ctx->trans_type == CND_TRANS_POLY) return vm_math_poly_solve(ctx, eng, lo, hi, raw);
+    if (ctx->trans_type == CND_TRANS_SPLINE) return vm_math_spline_solve(ctx, eng, raw);
+    *raw = (eng - ctx->trans_f_offset) / ctx->trans_f_factor;
+    return true;
+}
+
+static double int_type_min(size_t size, bool is_signed) {
+    return is_signed ? -(double)((uint64_t)1 << (size * 8 - 1)) : 0.0;
+}
+
+static double int_type_max(size_t size, bool is_signed) {
+    return (double)(UINT64_MAX >> (64 - size * 8 + (is_signed ? 1 : 0)));
+}
+
+// Rounds to the nearest integer. False if the integer type cannot hold it.
+static bool f64_to_int(double d, size_t size, bool is_signed, uint64_t* out) {
+    uint64_t max = UINT64_MAX >> (64 - size * 8 + (is_signed ? 1 : 0));
+    if (!(d >= -9223372036854775808.0 && d < 18446744073709551616.0)) return false; // NaN and far out of range
+    bool negative = d < 0;
+    double mag = negative ? -d : d;
+    uint64_t u = (uint64_t)mag;
+    if (mag - (double)u >= 0.5) u++;
+    if (negative && u != 0) {
+        if (!is_signed || u > max + 1) return false;
+        *out = 0 - u;
+    } else {
+        if (u > max) return false;
+        *out = u;
+    }
+    return true;
+}
+
+static bool u64_fits_i64(uint64_t v) {
+    return v <= (uint64_t)INT64_MAX;
+}
+
+static bool i64_fits(int64_t v, size_t size, bool is_signed) {
+    if (!is_signed) return v >= 0 && (uint64_t)v <= (UINT64_MAX >> (64 - size * 8));
+    int64_t max = (int64_t)(UINT64_MAX >> (65 - size * 8));
+    return v >= -max - 1 && v <= max;
+}
+
 // --- Helpers / Macros to reduce repeated IO case code ---
 // HANDLE_PRIMITIVE(size, ctype, READ_EXPR, WRITE_EXPR)
 //   - size: number of bytes this IO consumes
@@ -135,42 +266,21 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
           return CND_ERR_OOB; \
       } \
       if (ctx->trans_type != CND_TRANS_NONE) { \
-          if (ctx->trans_type == CND_TRANS_SCALE_F64) { \
-              double eng_val = 0; \
-              if (ctx->mode == CND_MODE_ENCODE) { \
-                  SYNC_IP(); \
-                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
-                  WRITE_EXPR; \
-              } else { \
-                  ctype raw = (READ_EXPR); \
-                  eng_val = (double)raw * ctx->trans_f_factor + ctx->trans_f_offset; \
-                  SYNC_IP(); \
-                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-              } \
-          } else if (ctx->trans_type == CND_TRANS_POLY) { \
-              double eng_val = 0; \
-              if (ctx->mode == CND_MODE_ENCODE) { \
-                  SYNC_IP(); \
-                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_poly_solve(ctx, eng_val); \
-                  WRITE_EXPR; \
-              } else { \
-                  ctype raw = (READ_EXPR); \
-                  eng_val = vm_math_poly_eval(ctx, (double)raw); \
-                  SYNC_IP(); \
-                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-              } \
-          } else if (ctx->trans_type == CND_TRANS_SPLINE) { \
+          const bool is_signed = ((ctype)-1 < (ctype)1); \
+          if (vm_is_float_trans(ctx)) { \
               double eng_val = 0; \
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_spline_solve(ctx, eng_val); \
+                  double raw_f; \
+                  uint64_t raw; \
+                  if (!vm_math_float_to_raw(ctx, eng_val, int_type_min(size, is_signed), int_type_max(size, is_signed), &raw_f)) return CND_ERR_ARITHMETIC; \
+                  if (!f64_to_int(raw_f, size, is_signed, &raw)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)raw; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
-                  eng_val = vm_math_spline_eval(ctx, (double)raw); \
+                  eng_val = vm_math_float_to_eng(ctx, (double)raw); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
@@ -179,11 +289,14 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_int_to_raw(ctx, eng_val); \
+                  int64_t raw; \
+                  if (!vm_math_int_to_raw(ctx, eng_val, &raw) || !i64_fits(raw, size, is_signed)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)raw; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
-                  eng_val = vm_math_int_to_eng(ctx, (int64_t)raw); \
+                  if (!is_signed && !u64_fits_i64((uint64_t)raw)) return CND_ERR_ARITHMETIC; \
+                  if (!vm_math_int_to_eng(ctx, (int64_t)raw, &eng_val)) return CND_ERR_ARITHMETIC; \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
@@ -219,16 +332,18 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
           return CND_ERR_OOB; \
       } \
       if (ctx->trans_type != CND_TRANS_NONE) { \
-          if (ctx->trans_type == CND_TRANS_SCALE_F64) { \
+          if (vm_is_float_trans(ctx)) { \
               double eng_val = 0; \
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
+                  double raw_f; \
+                  if (!vm_math_float_to_raw(ctx, eng_val, -18446744073709551616.0, 18446744073709551616.0, &raw_f)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)raw_f; \
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
-                  eng_val = (double)val * ctx->trans_f_factor + ctx->trans_f_offset; \
+                  eng_val = vm_math_float_to_eng(ctx, (double)val); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
@@ -237,27 +352,14 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  int64_t raw64 = eng_val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: raw64 *= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
+                  int64_t raw64; \
+                  if (!vm_math_int_to_raw(ctx, eng_val, &raw64)) return CND_ERR_ARITHMETIC; \
                   ctype val = (ctype)raw64; \
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
-                  int64_t raw64 = (int64_t)val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: raw64 *= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  eng_val = raw64; \
+                  if (!(val >= (ctype)-9223372036854775808.0 && val < (ctype)9223372036854775808.0)) return CND_ERR_ARITHMETIC; \
+                  if (!vm_math_int_to_eng(ctx, (int64_t)val, &eng_val)) return CND_ERR_ARITHMETIC; \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
-- 
2.43.0


From 188fa7ed91cd96da6cbe1be35899b51a6914f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 10/49] fix: apply @optional to decoding only, to every field
 type, and to no other field

---
 src/vm/vm_exec.c | 144 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 122 insertions(+), 22 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 6735af6..fcc240b 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -247,6 +247,41 @@ static bool i64_fits(int64_t v, size_t size, bool is_signed) {
     return v >= -max - 1 && v <= max;
 }
 
+// --- Optional fields ---
+
+// To be called when the next field does not fit into the data. If it is an optional field of a message
+// being decoded it is missing, and whatever little is left of the data belonged to it.
+static bool optional_missing(cnd_vm_ctx* ctx) {
+    if (!ctx->is_next_optional || ctx->mode != CND_MODE_DECODE) return false;
+    ctx->is_next_optional = false;
+    ctx->cursor = ctx->data_len;
+    ctx->bit_offset = 0;
+    return true;
+}
+
+// Reports a missing field as zero or as the empty string, and moves ip behind its checks
+static cnd_error_t deliver_missing(cnd_vm_ctx* ctx, uint16_t key, uint8_t type) {
+    // All zero is 0, 0.0, false or, with a prefix of zero before it, the empty string. The host may keep strings.
+    static const uint64_t empty[2] = { 0, 0 };
+    uint64_t zero = 0;
+    void* ptr = (type >= OP_STR_NULL && type <= OP_STR_PRE_U32) ? (void*)&empty[1] : (void*)&zero;
+    const uint8_t* bc = ctx->program->bytecode;
+    size_t len = ctx->program->bytecode_len;
+
+    if (ctx->trans_type != CND_TRANS_NONE) type = vm_is_float_trans(ctx) ? OP_IO_F64 : OP_IO_I64;
+    ctx->trans_type = CND_TRANS_NONE;
+
+    cnd_error_t err = ctx->io_callback(ctx, key, type, ptr);
+    if (err != CND_ERR_OK) return err;
+
+    while (ctx->ip < len && (bc[ctx->ip] == OP_ENUM_CHECK || bc[ctx->ip] == OP_RANGE_CHECK)) {
+        size_t n = instr_length(bc, len, ctx->ip);
+        if (n == 0 || n > len - ctx->ip) break;
+        ctx->ip += n;
+    }
+    return CND_ERR_OK;
+}
+
 // --- Helpers / Macros to reduce repeated IO case code ---
 // HANDLE_PRIMITIVE(size, ctype, READ_EXPR, WRITE_EXPR)
 //   - size: number of bytes this IO consumes
@@ -256,11 +291,10 @@ static bool i64_fits(int64_t v, size_t size, bool is_signed) {
 #define HANDLE_PRIMITIVE(size, ctype, READ_EXPR, WRITE_EXPR) \
     { uint16_t key = FETCH_IL_U16(ctx); \
       if (ctx->cursor + (size) > ctx->data_len) { \
-          if (ctx->is_next_optional) { \
-              ctx->is_next_optional = false; \
-              ctype val = 0; \
+          if (optional_missing(ctx)) { \
               SYNC_IP(); \
-              if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              if (deliver_missing(ctx, key, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              RELOAD_PC(); \
               break; \
           } \
           return CND_ERR_OOB; \
@@ -322,11 +356,10 @@ static bool i64_fits(int64_t v, size_t size, bool is_signed) {
 #define HANDLE_FLOAT(size, ctype, int_t, READ_INT_EXPR, WRITE_INT_EXPR) \
     { uint16_t key = FETCH_IL_U16(ctx); \
       if (ctx->cursor + (size) > ctx->data_len) { \
-          if (ctx->is_next_optional) { \
-              ctx->is_next_optional = false; \
-              ctype val = 0; \
+          if (optional_missing(ctx)) { \
               SYNC_IP(); \
-              if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              if (deliver_missing(ctx, key, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              RELOAD_PC(); \
               break; \
           } \
           return CND_ERR_OOB; \
@@ -518,9 +551,19 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
             ctx->cursor += (size) + len; \
         } else { \
-            if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
-            ctype len_val = (READ_EXPR); \
-            if (ctx->cursor + (size) + len_val > ctx->data_len) return CND_ERR_OOB; \
+            ctype len_val = 0; \
+            bool fits = ctx->cursor + (size) <= ctx->data_len; \
+            if (fits) { \
+                len_val = (READ_EXPR); \
+                fits = len_val <= ctx->data_len - ctx->cursor - (size); \
+            } \
+            if (!fits) { \
+                if (!optional_missing(ctx)) return CND_ERR_OOB; \
+                SYNC_IP(); \
+                if (deliver_missing(ctx, key, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+                RELOAD_PC(); \
+                break; \
+            } \
             const char* ptr = (const char*)(ctx->data_buffer + ctx->cursor + (size)); \
             SYNC_IP(); \
             if (ctx->io_callback(ctx, key, opcode, (void*)ptr) != CND_ERR_OK) return CND_ERR_CALLBACK; \
@@ -872,7 +915,13 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 else if (type == OP_IO_U64 || type == OP_IO_I64) { expected = FETCH_IL_U64(ctx); size=8; }
                 else { return CND_ERR_INVALID_OP; }
                 
-                if (ctx->cursor + size > ctx->data_len) return CND_ERR_OOB;
+                if (ctx->cursor + size > ctx->data_len) {
+                    if (!optional_missing(ctx)) return CND_ERR_OOB;
+                    SYNC_IP();
+                    if (deliver_missing(ctx, key, type) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    RELOAD_PC();
+                    break;
+                }
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
                     if (size == 1) write_u8(ctx->data_buffer + ctx->cursor, (uint8_t)expected);
@@ -896,6 +945,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 }
                 
                 ctx->cursor += size;
+                ctx->is_next_optional = false;
                 break;
             }
 
@@ -972,7 +1022,10 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 uint32_t crc = calc_crc(ctx->data_buffer, ctx->cursor, poly, init, xorout, flags, 16);
                 
-                if (ctx->cursor + 2 > ctx->data_len) return CND_ERR_OOB;
+                if (ctx->cursor + 2 > ctx->data_len) {
+                    if (optional_missing(ctx)) break;
+                    return CND_ERR_OOB;
+                }
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
                     write_u16(ctx->data_buffer + ctx->cursor, (uint16_t)crc, ctx->endianness);
@@ -981,6 +1034,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (actual != (uint16_t)crc) return CND_ERR_CRC_MISMATCH;
                 }
                 ctx->cursor += 2;
+                ctx->is_next_optional = false;
                 break;
             }
 
@@ -992,7 +1046,10 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 uint32_t crc = calc_crc(ctx->data_buffer, ctx->cursor, poly, init, xorout, flags, 32);
                 
-                if (ctx->cursor + 4 > ctx->data_len) return CND_ERR_OOB;
+                if (ctx->cursor + 4 > ctx->data_len) {
+                    if (optional_missing(ctx)) break;
+                    return CND_ERR_OOB;
+                }
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
                     write_u32(ctx->data_buffer + ctx->cursor, crc, ctx->endianness);
@@ -1001,6 +1058,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (actual != crc) return CND_ERR_CRC_MISMATCH;
                 }
                 ctx->cursor += 4;
+                ctx->is_next_optional = false;
                 break;
             }
 
@@ -1059,11 +1117,10 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BOOL: {
                 uint16_t key = FETCH_IL_U16(ctx);
                 if (ctx->cursor + 1 > ctx->data_len) {
-                    if (ctx->is_next_optional) {
-                        ctx->is_next_optional = false;
-                        uint8_t val = 0;
+                    if (optional_missing(ctx)) {
                         SYNC_IP();
-                        if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        if (deliver_missing(ctx, key, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        RELOAD_PC();
                         break;
                     }
                     return CND_ERR_OOB;
@@ -1089,7 +1146,30 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_F64: HANDLE_FLOAT(8, double, uint64_t, read_u64(ctx->data_buffer + ctx->cursor, ctx->endianness), write_u64(ctx->data_buffer + ctx->cursor, t, ctx->endianness));
 
             // ... Category C (Bitfields) ...
-            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if (b == 0 || b > 64) return CND_ERR_INVALID_OP; if (!bits_available(ctx, b)) return CND_ERR_OOB; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
+            case OP_IO_BIT_U: {
+                uint16_t k=FETCH_IL_U16(ctx);
+                uint8_t b=FETCH_IL_U8(ctx);
+                uint64_t v=0;
+                if (b == 0 || b > 64) return CND_ERR_INVALID_OP;
+                if (!bits_available(ctx, b)) {
+                    if (!optional_missing(ctx)) return CND_ERR_OOB;
+                    SYNC_IP();
+                    if (deliver_missing(ctx, k, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    RELOAD_PC();
+                    break;
+                }
+                if(ctx->mode==CND_MODE_ENCODE){
+                    SYNC_IP();
+                    if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK;
+                    write_bits(ctx,v,b);
+                } else {
+                    v=read_bits(ctx,b);
+                    SYNC_IP();
+                    if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK;
+                }
+                ctx->is_next_optional = false;
+                break;
+            }
             
             case OP_ENTER_BIT_MODE: {
                 // No-op for now
@@ -1122,7 +1202,13 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint8_t b=FETCH_IL_U8(ctx); 
                 int64_t v=0; 
                 if (b == 0 || b > 64) return CND_ERR_INVALID_OP;
-                if (!bits_available(ctx, b)) return CND_ERR_OOB;
+                if (!bits_available(ctx, b)) {
+                    if (!optional_missing(ctx)) return CND_ERR_OOB;
+                    SYNC_IP();
+                    if (deliver_missing(ctx, k, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    RELOAD_PC();
+                    break;
+                }
                 if(ctx->mode==CND_MODE_ENCODE){ 
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
@@ -1133,12 +1219,19 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
                 } 
+                ctx->is_next_optional = false;
                 break; 
             }
             case OP_IO_BIT_BOOL: {
                 uint16_t k = FETCH_IL_U16(ctx);
                 uint8_t v = 0;
-                if (!bits_available(ctx, 1)) return CND_ERR_OOB;
+                if (!bits_available(ctx, 1)) {
+                    if (!optional_missing(ctx)) return CND_ERR_OOB;
+                    SYNC_IP();
+                    if (deliver_missing(ctx, k, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    RELOAD_PC();
+                    break;
+                }
                 if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1150,6 +1243,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
                 }
+                ctx->is_next_optional = false;
                 break;
             }
             case OP_ALIGN_PAD: { 
@@ -1209,7 +1303,13 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         ctx->cursor += len;
                     }
 
-                    if (ctx->cursor >= ctx->data_len) return CND_ERR_OOB; 
+                    if (ctx->cursor >= ctx->data_len) {
+                        if (!optional_missing(ctx)) return CND_ERR_OOB;
+                        SYNC_IP();
+                        if (deliver_missing(ctx, key, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        RELOAD_PC();
+                        break;
+                    }
                     
                     const char* ptr = (const char*)(ctx->data_buffer + start);
                     SYNC_IP();
-- 
2.43.0


From c93bf635d4e304fee01dec8b28070d74ed37424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 11/49] fix: bracket every array, end read-to-end arrays, and
 keep announced counts

---
 include/concordia.h |   5 +-
 src/vm/vm_exec.c    | 124 +++++++++++++++++++++++---------------------
 2 files changed, 68 insertions(+), 61 deletions(-)

diff --git a/include/concordia.h b/include/concordia.h
index c116bef..88c94bc 100644
--- a/include/concordia.h
+++ b/include/concordia.h
@@ -185,7 +185,10 @@ typedef enum {
 
 typedef struct {
     size_t start_ip;
-    uint32_t remaining;
+    uint32_t remaining;   // Elements still to be processed (unless until_eof)
+    bool until_eof;       // Read-to-end array: goes on until the end of the data
+    size_t start_cursor;  // Cursor and bit offset at the start of the current element (until_eof only)
+    uint8_t start_bit;
 } cnd_loop_frame;
 
 // Forward declaration for the IO callback
diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index fcc240b..d9977a8 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -458,10 +458,13 @@ static cnd_error_t skip_loop_body(cnd_vm_ctx* ctx) {
     return (depth == 0) ? CND_ERR_OK : CND_ERR_OOB;
 }
 
-static bool loop_push(cnd_vm_ctx* ctx, size_t start_ip, uint32_t count) {
+static bool loop_push(cnd_vm_ctx* ctx, size_t start_ip, uint32_t count, bool until_eof) {
     if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return false;
     ctx->loop_stack[ctx->loop_depth].start_ip = start_ip;
     ctx->loop_stack[ctx->loop_depth].remaining = count;
+    ctx->loop_stack[ctx->loop_depth].until_eof = until_eof;
+    ctx->loop_stack[ctx->loop_depth].start_cursor = ctx->cursor;
+    ctx->loop_stack[ctx->loop_depth].start_bit = ctx->bit_offset;
     ctx->loop_depth++;
     return true;
 }
@@ -472,8 +475,10 @@ static void loop_pop(cnd_vm_ctx* ctx) {
 
 // --- Optimization Helpers ---
 
+// Handles a whole array of plain bytes with one callback. Leaves ip at its ARR_END with the last element done.
 static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
     if (count == 0) return false;
+    if (ctx->trans_type != CND_TRANS_NONE || ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return false;
     if (ctx->ip + 3 >= ctx->program->bytecode_len) return false;
     
     uint8_t next_op = ctx->program->bytecode[ctx->ip];
@@ -492,12 +497,24 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
         }
         
         ctx->cursor += count;
-        ctx->ip += 4; // Skip OP_IO_U8(1) + KEY(2) + OP_ARR_END(1)
-        return true;
+        ctx->ip += 3; // Skip OP_IO_U8(1) + KEY(2)
+        return loop_push(ctx, ctx->ip, 1, false);
     }
     return false;
 }
 
+// Enters an array after its start has been reported. Empty arrays are reported as ended right away.
+static cnd_error_t begin_array(cnd_vm_ctx* ctx, uint32_t count) {
+    ctx->is_next_optional = false;
+    if (count == 0) {
+        cnd_error_t err = skip_loop_body(ctx);
+        if (err != CND_ERR_OK) return err;
+        return (ctx->io_callback(ctx, 0, OP_ARR_END, NULL) != CND_ERR_OK) ? CND_ERR_CALLBACK : CND_ERR_OK;
+    }
+    if (try_optimize_byte_array(ctx, count)) return CND_ERR_OK;
+    return loop_push(ctx, ctx->ip, count, false) ? CND_ERR_OK : CND_ERR_OOB;
+}
+
 // --- Array/String Helpers ---
 
 #define HANDLE_ARRAY_PRE(size, ctype, READ_EXPR, WRITE_EXPR) \
@@ -511,21 +528,18 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             WRITE_EXPR; \
             ctx->cursor += (size); \
         } else { \
-            if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
-            count = (READ_EXPR); \
-            ctx->cursor += (size); \
+            if (ctx->cursor + (size) <= ctx->data_len) { \
+                count = (READ_EXPR); \
+                ctx->cursor += (size); \
+            } else if (!optional_missing(ctx)) return CND_ERR_OOB; \
+            ctype reported = count; \
             SYNC_IP(); \
-            if (ctx->io_callback(ctx, key, opcode, &count) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-        } \
-        if (count > 0) { \
-            SYNC_IP(); \
-            if (try_optimize_byte_array(ctx, (uint32_t)count)) { RELOAD_PC(); break; } \
-            if (!loop_push(ctx, ctx->ip, (uint32_t)count)) return CND_ERR_OOB; \
-        } else { \
-             SYNC_IP(); \
-             { cnd_error_t err = skip_loop_body(ctx); if (err != CND_ERR_OK) return err; } \
-             RELOAD_PC(); \
+            if (ctx->io_callback(ctx, key, opcode, &reported) != CND_ERR_OK) return CND_ERR_CALLBACK; \
         } \
+        SYNC_IP(); \
+        cnd_error_t err = begin_array(ctx, (uint32_t)count); \
+        if (err != CND_ERR_OK) return err; \
+        RELOAD_PC(); \
         break; \
     }
 
@@ -1332,48 +1346,36 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_ARR_FIXED: {
                 uint16_t key = FETCH_IL_U16(ctx);
                 uint32_t count = FETCH_IL_U32(ctx);
-                // printf("VM_DEBUG: Calling callback for ARR_FIXED (Key %d)\n", key);
-                if (ctx->mode == CND_MODE_ENCODE) {
-                     // Notify host about array start so it can push context
-                     // We should probably pass u32, but for now let's cast or ensure callback handles it.
-                     // The callback signature is (ctx, key, type, void*).
-                     // For ARR_FIXED, we pass pointer to count.
-                     SYNC_IP();
-                     if (ctx->io_callback(ctx, key, opcode, &count) != CND_ERR_OK) return CND_ERR_CALLBACK;
-                } else {
-                     // Notify host about array start
-                     SYNC_IP();
-                     if (ctx->io_callback(ctx, key, opcode, &count) != CND_ERR_OK) return CND_ERR_CALLBACK;
-                }
+                
+                // Notify host about array start. The count is for information, the host cannot change it.
+                uint32_t reported = count;
+                SYNC_IP();
+                if (ctx->io_callback(ctx, key, opcode, &reported) != CND_ERR_OK) return CND_ERR_CALLBACK;
 
-                if (count > 0) {
-                    SYNC_IP();
-                    if (try_optimize_byte_array(ctx, count)) { RELOAD_PC(); break; }
-                    if (!loop_push(ctx, ctx->ip, count)) return CND_ERR_OOB;
-                } else {
-                     SYNC_IP();
-                     cnd_error_t err = skip_loop_body(ctx);
-                     if (err != CND_ERR_OK) return err;
-                     RELOAD_PC();
-                }
+                SYNC_IP();
+                cnd_error_t err = begin_array(ctx, count);
+                if (err != CND_ERR_OK) return err;
+                RELOAD_PC();
                 break;
             }
 
             case OP_ARR_EOF: {
                 uint16_t key = FETCH_IL_U16(ctx);
-                (void)key; // Unused for now
                 
+                // Notify host about array start. The number of elements is unknown when decoding; when encoding
+                // the host may set it, or else the array goes on until the buffer is full.
+                uint32_t count = 0xFFFFFFFF;
                 SYNC_IP();
+                if (ctx->io_callback(ctx, key, opcode, &count) != CND_ERR_OK) return CND_ERR_CALLBACK;
 
-                if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
-                cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
-                frame->start_ip = ctx->ip;
-                frame->remaining = 0xFFFFFFFF; // Special value for EOF loop
-                
-                // Check if we are already at EOF
-                if (ctx->cursor >= ctx->data_len) {
-                    // Skip loop
-                    cnd_error_t err = skip_loop_body(ctx);
+                bool until_eof = (ctx->mode == CND_MODE_DECODE || count == 0xFFFFFFFF);
+                if (until_eof && ctx->cursor >= ctx->data_len) count = 0; // Already at EOF
+
+                if (count > 0 && until_eof) {
+                    ctx->is_next_optional = false;
+                    if (!loop_push(ctx, ctx->ip, 0, true)) return CND_ERR_STACK_OVERFLOW;
+                } else {
+                    cnd_error_t err = begin_array(ctx, count);
                     if (err != CND_ERR_OK) return err;
                     RELOAD_PC();
                 }
@@ -1393,16 +1395,12 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint32_t count = (uint32_t)count_val;
                 
                 SYNC_IP();
-                if (ctx->io_callback(ctx, key, OP_ARR_DYNAMIC, &count) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                uint32_t reported = count;
+                if (ctx->io_callback(ctx, key, OP_ARR_DYNAMIC, &reported) != CND_ERR_OK) return CND_ERR_CALLBACK;
                 
-                if (count > 0) {
-                    if (try_optimize_byte_array(ctx, count)) { RELOAD_PC(); break; }
-                    if (!loop_push(ctx, ctx->ip, count)) return CND_ERR_OOB;
-                } else {
-                     cnd_error_t err = skip_loop_body(ctx);
-                     if (err != CND_ERR_OK) return err;
-                     RELOAD_PC();
-                }
+                cnd_error_t err = begin_array(ctx, count);
+                if (err != CND_ERR_OK) return err;
+                RELOAD_PC();
                 break;
             }
 
@@ -1413,9 +1411,15 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 bool loop_continue = false;
                 
-                if (frame->remaining == 0xFFFFFFFF) {
+                if (frame->until_eof) {
                     // EOF Loop
-                    if (ctx->cursor < ctx->data_len) loop_continue = true;
+                    if (ctx->cursor < ctx->data_len) {
+                        // An element that takes no data would be repeated forever
+                        if (ctx->cursor == frame->start_cursor && ctx->bit_offset == frame->start_bit) return CND_ERR_VALIDATION;
+                        frame->start_cursor = ctx->cursor;
+                        frame->start_bit = ctx->bit_offset;
+                        loop_continue = true;
+                    }
                 } else {
                     // Fixed/Prefixed Loop
                     if (frame->remaining > 0) frame->remaining--;
-- 
2.43.0


From 9c250f4ce53778f16c74075527fab0134371b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 12/49] fix: let computed fields narrower than 64 bits decode
 what they encode, byte aligned

---
 src/vm/vm_exec.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index d9977a8..8b3a761 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1657,6 +1657,13 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint8_t type = FETCH_IL_U8(ctx);
                 uint64_t val;
                 if (stack_pop(ctx, &val) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
+                if (type == OP_IO_BOOL && val > 1) return CND_ERR_VALIDATION;
+                
+                // Like any other primitive, a computed one starts at a byte boundary
+                if (ctx->bit_offset != 0) {
+                    ctx->cursor++;
+                    ctx->bit_offset = 0;
+                }
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
                     int size = 0;
@@ -1754,18 +1761,19 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         double d_val; memcpy(&d_val, &val, 8);
                         float f_val = (float)d_val;
                         
-                        float f_bin; memcpy(&f_bin, &bin_val, 4);
+                        float f_bin; uint32_t f_bits = (uint32_t)bin_val; memcpy(&f_bin, &f_bits, 4);
                         
                         float diff = f_val - f_bin;
-                        if (diff < -0.00001f || diff > 0.00001f) return CND_ERR_VALIDATION;
+                        if (memcmp(&f_val, &f_bin, 4) != 0 && !(diff >= -0.00001f && diff <= 0.00001f)) return CND_ERR_VALIDATION;
                     } else if (type == OP_IO_F64) {
                         double d_val; memcpy(&d_val, &val, 8);
                         double d_bin; memcpy(&d_bin, &bin_val, 8);
                         
                         double diff = d_val - d_bin;
-                        if (diff < -0.0000001 || diff > 0.0000001) return CND_ERR_VALIDATION;
+                        if (val != bin_val && !(diff >= -0.0000001 && diff <= 0.0000001)) return CND_ERR_VALIDATION;
                     } else {
-                        if (bin_val != val) return CND_ERR_VALIDATION;
+                        // Encoding keeps the low bytes of the computed value
+                        if (bin_val != (val & (UINT64_MAX >> (64 - size * 8)))) return CND_ERR_VALIDATION;
                     }
                     
                     ctx->cursor += size;
-- 
2.43.0


From e03a10e1411aa05f4acfdb9b1df7fb6efa94a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 13/49] fix: reject null-terminated strings longer than
 declared, accept absent strings

---
 src/vm/vm_exec.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 8b3a761..ff03bab 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -562,7 +562,7 @@ static cnd_error_t begin_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (ctx->cursor + (size) + len > ctx->data_len) return CND_ERR_OOB; \
             ctype len_val = (ctype)len; \
             WRITE_EXPR; \
-            memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
+            if (len > 0) memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
             ctx->cursor += (size) + len; \
         } else { \
             ctype len_val = 0; \
@@ -1295,7 +1295,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     if (ctx->cursor + len + 1 > ctx->data_len) return CND_ERR_OOB;
                     
-                    memcpy(ctx->data_buffer + ctx->cursor, str, len);
+                    if (len > 0) memcpy(ctx->data_buffer + ctx->cursor, str, len);
                     ctx->cursor += len;
                     ctx->data_buffer[ctx->cursor] = 0x00; // Null terminator
                     ctx->cursor++;
@@ -1305,7 +1305,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     // Optimization: Use memchr to find the null terminator quickly
                     size_t remaining = ctx->data_len - ctx->cursor;
-                    size_t search_len = (remaining < max_len) ? remaining : max_len;
+                    size_t search_len = (remaining <= max_len) ? remaining : (size_t)max_len + 1;
                     
                     void* found = memchr(ctx->data_buffer + ctx->cursor, 0x00, search_len);
                     
@@ -1317,6 +1317,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         ctx->cursor += len;
                     }
 
+                    if (!found && remaining > max_len) return CND_ERR_VALIDATION; // Longer than declared
+
                     if (ctx->cursor >= ctx->data_len) {
                         if (!optional_missing(ctx)) return CND_ERR_OOB;
                         SYNC_IP();
-- 
2.43.0


From 4ead2db05c51ec6b50b5b596f8a3bef16942e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 14/49] fix: reject images whose string table does not end
 inside the image

---
 src/vm/vm_exec.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index ff03bab..3d520ae 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -722,11 +722,20 @@ cnd_error_t cnd_program_load_il(cnd_program* program, const uint8_t* image, size
     if (image[5] != 1) return CND_ERR_INVALID_OP; // Version check
 
     uint16_t str_count = image[6] | (image[7] << 8);
-    uint32_t str_offset = image[8] | (image[9] << 8) | (image[10] << 16) | (image[11] << 24);
-    uint32_t bc_offset = image[12] | (image[13] << 8) | (image[14] << 16) | (image[15] << 24);
+    uint32_t str_offset = instr_u32(image + 8);
+    uint32_t bc_offset = instr_u32(image + 12);
 
     if (str_offset > len || bc_offset > len) return CND_ERR_OOB;
     
+    // Every string of the table must end inside the image, and before the bytecode if that follows
+    size_t str_end = (str_offset <= bc_offset) ? bc_offset : len;
+    const uint8_t* str = image + str_offset;
+    for (uint16_t i = 0; i < str_count; i++) {
+        const uint8_t* nul = (const uint8_t*)memchr(str, 0, (size_t)(image + str_end - str));
+        if (!nul) return CND_ERR_OOB;
+        str = nul + 1;
+    }
+    
     program->string_table = (const char*)(image + str_offset);
     program->string_count = str_count;
     program->bytecode = image + bc_offset;
-- 
2.43.0


From c612415e8a074024714705e7816c6927dd8c6844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 15/49] fix: shift bytes as unsigned when assembling 32-bit
 values

---
 src/vm/vm_exec.c     | 4 ++--
 src/vm/vm_internal.h | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 3d520ae..a54207d 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -598,7 +598,7 @@ static int64_t sign_extend(uint64_t val, uint8_t bits) {
 static uint32_t reflect(uint32_t val, int bits) {
     uint32_t res = 0;
     for (int i = 0; i < bits; i++) {
-        if (val & (1 << i)) res |= (1 << (bits - 1 - i));
+        if (val & ((uint32_t)1 << i)) res |= ((uint32_t)1 << (bits - 1 - i));
     }
     return res;
 }
@@ -856,7 +856,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #undef FETCH_IL_U16
     #define FETCH_IL_U8(c) ((pc < end) ? *pc++ : 0)
     #define FETCH_IL_U16(c) ((pc + 2 <= end) ? (pc += 2, (uint16_t)(pc[-2] | (pc[-1] << 8))) : 0)
-    #define FETCH_IL_U32(c) ((pc + 4 <= end) ? (pc += 4, (uint32_t)(pc[-4] | (pc[-3] << 8) | (pc[-2] << 16) | (pc[-1] << 24))) : 0)
+    #define FETCH_IL_U32(c) ((pc + 4 <= end) ? (pc += 4, ((uint32_t)pc[-4] | ((uint32_t)pc[-3] << 8) | ((uint32_t)pc[-2] << 16) | ((uint32_t)pc[-1] << 24))) : 0)
     #define FETCH_IL_U64(c) ((pc + 8 <= end) ? (pc += 8, ((uint64_t)pc[-8] | ((uint64_t)pc[-7] << 8) | ((uint64_t)pc[-6] << 16) | ((uint64_t)pc[-5] << 24) | ((uint64_t)pc[-4] << 32) | ((uint64_t)pc[-3] << 40) | ((uint64_t)pc[-2] << 48) | ((uint64_t)pc[-1] << 56))) : 0)
     
     #define SYNC_IP() (ctx->ip = (size_t)(pc - ctx->program->bytecode))
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index 03329f6..eb2e1c7 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -24,7 +24,7 @@ static inline uint32_t read_il_u32(cnd_vm_ctx* ctx) {
     uint32_t val = ctx->program->bytecode[ctx->ip] | 
                    (ctx->program->bytecode[ctx->ip + 1] << 8) | 
                    (ctx->program->bytecode[ctx->ip + 2] << 16) | 
-                   (ctx->program->bytecode[ctx->ip + 3] << 24);
+                   ((uint32_t)ctx->program->bytecode[ctx->ip + 3] << 24);
     ctx->ip += 4;
     return val;
 }
@@ -47,7 +47,7 @@ static inline uint64_t read_il_u64(cnd_vm_ctx* ctx) {
 static inline uint32_t peek_il_u32(cnd_vm_ctx* ctx, size_t idx) {
     if (idx + 4 > ctx->program->bytecode_len) return 0;
     const uint8_t* b = ctx->program->bytecode + idx;
-    return b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
+    return b[0] | (b[1] << 8) | (b[2] << 16) | ((uint32_t)b[3] << 24);
 }
 
 // --- Data Access (Read) ---
@@ -66,9 +66,9 @@ static inline uint16_t read_u16(const uint8_t* buf, cnd_endian_t endian) {
 
 static inline uint32_t read_u32(const uint8_t* buf, cnd_endian_t endian) {
     if (endian == CND_LE) {
-        return buf[0] | (buf[1] << 8) | (buf[2] << 16) | (buf[3] << 24);
+        return buf[0] | (buf[1] << 8) | (buf[2] << 16) | ((uint32_t)buf[3] << 24);
     } else {
-        return (buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
+        return ((uint32_t)buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
     }
 }
 
-- 
2.43.0


From 63f1404acf00af13e13d02b2275224ab3e93a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 16/49] fix: NaN lies in no range

---
 src/vm/vm_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index a54207d..5c17845 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -434,7 +434,7 @@ static cnd_error_t deliver_missing(cnd_vm_ctx* ctx, uint16_t key, uint8_t type)
         int_type ival = (BUF_READ); \
         ctype val; \
         memcpy(&val, &ival, sizeof(ctype)); \
-        if (val < min || val > max) return CND_ERR_VALIDATION; \
+        if (!(val >= min && val <= max)) return CND_ERR_VALIDATION; \
     }
 
 // --- Loop Stack Helpers ---
-- 
2.43.0


From e9fe61a493ec0b1087472842d3765a3d917151a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 17/49] fix: find the keys of every instruction when prefixing
 nested fields and pruning strings

---
 src/compiler/cnd_internal.h |  10 +-
 src/compiler/cnd_parser.c   |  17 +--
 src/compiler/cnd_utils.c    | 231 +++++---------------------------
 src/compiler/cndc.c         | 253 +++++-------------------------------
 src/vm/vm_instr.h           |  26 ++++
 5 files changed, 110 insertions(+), 427 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 820160a..dd61623 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -27,6 +27,10 @@ extern "C" {
 #define COLOR_CYAN    "\033[36m"
 #define COLOR_BOLD    "\033[1m"
 
+// --- Limits ---
+#define CND_MAX_PROGRAM_SIZE (16u * 1024 * 1024) // Bytes of bytecode
+#define CND_MAX_KEYS 65535u                      // Keys are 16 bit
+
 // --- Tokens ---
 typedef enum {
     TOK_EOF,
@@ -141,9 +145,9 @@ void strtab_init(StringTable* t);
 void strtab_free(StringTable* t);
 uint16_t strtab_add(StringTable* t, const char* start, int len);
 
-// Append struct bytecode with key IDs remapped to include prefix
-void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
-                            const char* prefix, int prefix_len, StringTable* strtab);
+// Append struct bytecode with key IDs remapped to include prefix. Returns 0 if the bytecode cannot be walked.
+int buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
+                           const char* prefix, int prefix_len, StringTable* strtab);
 
 // --- Utils: StringBuilder ---
 typedef struct {
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8e47fa3..a9d92cc 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1158,15 +1158,16 @@ void parse_field(Parser* p, const char* doc) {
 
             buf_push(p->target, OP_ENTER_STRUCT); buf_push_u16(p->target, key_id);
             
-            // Get the field name for prefixing nested fields
-            char field_name[256];
-            int field_name_len = name_tok.length < 255 ? name_tok.length : 255;
-            memcpy(field_name, name_tok.start, field_name_len);
-            field_name[field_name_len] = '\0';
-            
             // Append struct bytecode with field names prefixed
-            buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
-                                   field_name, field_name_len, &p->strtab);
+            if (p->target->size + sdef->bytecode.size > CND_MAX_PROGRAM_SIZE) {
+                parser_error(p, "Program too large");
+                return;
+            }
+            if (!buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
+                                        name_tok.start, name_tok.length, &p->strtab)) {
+                parser_error(p, "Struct is nested too deeply");
+                return;
+            }
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index f54b85e..4769173 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -1,4 +1,5 @@
 #include "cnd_internal.h"
+#include "../vm/vm_instr.h"
 
 char* cnd_canonicalize_path(const char* path) {
     if (!path) return NULL;
@@ -27,207 +28,43 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
-// Helper to get opcode instruction size (returns total bytes including opcode)
-static int get_opcode_size_and_keyid_offset(uint8_t op, int* keyid_offset) {
-    *keyid_offset = -1; // -1 means no key ID in this instruction
-    
-    switch (op) {
-        case OP_NOOP:
-        case OP_SET_ENDIAN_LE:
-        case OP_SET_ENDIAN_BE:
-        case OP_EXIT_STRUCT:
-        case OP_ARR_END:
-        case OP_EXIT_BIT_MODE:
-        case OP_ENTER_BIT_MODE:
-        case OP_ADD:
-        case OP_SUB:
-        case OP_MUL:
-        case OP_DIV:
-        case OP_MOD:
-        case OP_NEG:
-        case OP_LOG_AND:
-        case OP_LOG_OR:
-        case OP_LOG_NOT:
-        case OP_BIT_AND:
-        case OP_BIT_OR:
-        case OP_BIT_XOR:
-        case OP_BIT_NOT:
-        case OP_SHL:
-        case OP_SHR:
-        case OP_EQ:
-        case OP_NEQ:
-        case OP_GT:
-        case OP_LT:
-        case OP_GTE:
-        case OP_LTE:
-        case OP_POP:
-        case OP_DUP:
-        case OP_SWAP:
-        case OP_FADD:
-        case OP_FSUB:
-        case OP_FMUL:
-        case OP_FDIV:
-        case OP_FNEG:
-        case OP_SIN:
-        case OP_COS:
-        case OP_TAN:
-        case OP_SQRT:
-        case OP_POW:
-        case OP_LOG:
-        case OP_ABS:
-        case OP_ITOF:
-        case OP_FTOI:
-        case OP_EQ_F:
-        case OP_NEQ_F:
-        case OP_GT_F:
-        case OP_LT_F:
-        case OP_GTE_F:
-        case OP_LTE_F:
-            return 1;
-            
-        case OP_ALIGN_PAD:
-        case OP_ALIGN_FILL:
-        case OP_EMIT:
-            return 2;
-            
-        // Opcodes with key_id at offset 1
-        case OP_ENTER_STRUCT:
-        case OP_META_NAME:
-        case OP_META_VERSION:
-        case OP_IO_U8:
-        case OP_IO_U16:
-        case OP_IO_U32:
-        case OP_IO_U64:
-        case OP_IO_I8:
-        case OP_IO_I16:
-        case OP_IO_I32:
-        case OP_IO_I64:
-        case OP_IO_F32:
-        case OP_IO_F64:
-        case OP_IO_BOOL:
-        case OP_IO_BIT_BOOL:
-        case OP_LOAD_CTX:
-        case OP_STORE_CTX:
-        case OP_ARR_EOF:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_IO_BIT_U:
-        case OP_IO_BIT_I:
-            *keyid_offset = 1;
-            return 4; // op + key(2) + bits(1)
-            
-        case OP_STR_NULL:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + maxlen(2)
-            
-        case OP_STR_PRE_U8:
-        case OP_STR_PRE_U16:
-        case OP_STR_PRE_U32:
-        case OP_ARR_PRE_U8:
-        case OP_ARR_PRE_U16:
-        case OP_ARR_PRE_U32:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_ARR_FIXED:
-        case OP_RAW_BYTES:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + count(4)
-            
-        case OP_ARR_DYNAMIC:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + ref_key(2)
-            
-        case OP_JUMP:
-        case OP_JUMP_IF_NOT:
-            return 5; // op + offset(4)
-            
-        case OP_PUSH_IMM:
-            return 9; // op + val(8)
-            
-        case OP_SWITCH:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + table_off(4)
-            
-        // Variable length - skip for now, struct bytecode shouldn't have these
-        case OP_CONST_CHECK:
-        case OP_CONST_WRITE:
-        case OP_RANGE_CHECK:
-        case OP_SCALE_LIN:
-        case OP_TRANS_ADD:
-        case OP_TRANS_SUB:
-        case OP_TRANS_MUL:
-        case OP_TRANS_DIV:
-        case OP_TRANS_POLY:
-        case OP_TRANS_SPLINE:
-        case OP_CRC_16:
-        case OP_CRC_32:
-        case OP_ENUM_CHECK:
-        case OP_MARK_OPTIONAL:
-        default:
-            return -1; // Unknown/variable - can't process
-    }
-}
-
 // Append struct bytecode with key IDs remapped to include prefix
-void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
-                            const char* prefix, int prefix_len, StringTable* strtab) {
-    size_t i = 0;
-    while (i < len) {
-        uint8_t op = src[i];
-        int keyid_offset;
-        int instr_size = get_opcode_size_and_keyid_offset(op, &keyid_offset);
-        
-        if (instr_size < 0 || i + instr_size > len) {
-            // Unknown opcode or would overflow - just copy rest verbatim
-            buf_append(b, src + i, len - i);
-            break;
+int buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
+                           const char* prefix, int prefix_len, StringTable* strtab) {
+    StringBuilder name;
+    sb_init(&name);
+
+    instr_walk w;
+    instr_walk_init(&w, 0);
+    while (w.ip < len) {
+        size_t start = w.ip;
+        if (instr_walk_next(&w, src, len) != CND_ERR_OK) {
+            sb_free(&name);
+            return 0;
         }
-        
-        if (keyid_offset < 0) {
-            // No key ID to remap, just copy
-            buf_append(b, src + i, instr_size);
-        } else {
-            // Has key ID - need to remap
-            // Copy opcode byte(s) before key
-            buf_append(b, src + i, keyid_offset);
-            
-            // Read old key ID
-            uint16_t old_key = src[i + keyid_offset] | (src[i + keyid_offset + 1] << 8);
-            
-            // Look up old string
-            const char* old_name = (old_key < strtab->count) ? strtab->strings[old_key] : "";
-            int old_len = (int)strlen(old_name);
-            
-            // Build new prefixed name
-            char new_name[512];
-            if (prefix_len + 1 + old_len < 512) {
-                memcpy(new_name, prefix, prefix_len);
-                new_name[prefix_len] = '.';
-                memcpy(new_name + prefix_len + 1, old_name, old_len);
-                new_name[prefix_len + 1 + old_len] = '\0';
-            } else {
-                // Fallback - just use old name
-                memcpy(new_name, old_name, old_len + 1);
-            }
-            
-            // Add new name to strtab and get new key ID
-            uint16_t new_key = strtab_add(strtab, new_name, prefix_len + 1 + old_len);
-            
-            // Write new key ID
-            buf_push(b, new_key & 0xFF);
-            buf_push(b, (new_key >> 8) & 0xFF);
-            
-            // Copy rest of instruction after key ID
-            int after_key = instr_size - keyid_offset - 2;
-            if (after_key > 0) {
-                buf_append(b, src + i + keyid_offset + 2, after_key);
-            }
+
+        // Copy the instruction and any switch table behind it, then patch the keys
+        size_t dst = buf_current_offset(b);
+        buf_append(b, src + start, w.ip - start);
+
+        size_t key_offset[2];
+        int keys = instr_keys(src[start], key_offset);
+        for (int k = 0; k < keys; k++) {
+            uint16_t old_key = instr_u16(src + start + key_offset[k]);
+            if (old_key >= strtab->count) continue;
+
+            sb_reset(&name);
+            sb_append_n(&name, prefix, prefix_len);
+            sb_append_c(&name, '.');
+            sb_append(&name, strtab->strings[old_key]);
+
+            uint16_t new_key = strtab_add(strtab, name.data, (int)name.length);
+            buf_write_u16_at(b, dst + key_offset[k], new_key);
         }
-        
-        i += instr_size;
     }
+
+    sb_free(&name);
+    return 1;
 }
 
 // --- Buffer Implementation ---
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index bb50d52..76c4c58 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -2,138 +2,34 @@
 #include <stdlib.h>
 #include <string.h>
 #include "cnd_internal.h"
+#include "../vm/vm_instr.h"
 
-static int get_type_size(uint8_t type) {
-    switch (type) {
-        case OP_IO_U8: case OP_IO_I8: return 1;
-        case OP_IO_U16: case OP_IO_I16: return 2;
-        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
-        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
-        case OP_IO_BOOL: return 1;
-        default: return 0;
-    }
-}
-
-static void optimize_strings(Parser* p) {
-    if (p->strtab.count == 0) return;
-
-    // 1. Mark used strings
-    uint8_t* used = calloc(p->strtab.count, 1);
-    
-    size_t offset = 0;
+// Drop the strings no instruction refers to. Returns 0 if the bytecode cannot be walked.
+static int optimize_strings(Parser* p) {
     uint8_t* bc = p->global_bc.data;
     size_t len = p->global_bc.size;
+    size_t key_offset[2];
+    instr_walk w;
 
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        // Opcodes with string ID at offset 0 (immediately after op)
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t id = *(uint16_t*)(bc + offset);
-            if (id < p->strtab.count) used[id] = 1;
-            offset += 2;
+    // 1. Mark used strings
+    uint8_t* used = calloc(p->strtab.count + 1, 1);
+    
+    instr_walk_init(&w, 0);
+    while (w.ip < len) {
+        size_t start = w.ip;
+        if (instr_walk_next(&w, bc, len) != CND_ERR_OK) {
+            free(used);
+            return 0;
         }
-
-        // Skip other arguments
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_EOF: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t id = *(uint16_t*)(bc + offset);
-                if (id < p->strtab.count) used[id] = 1;
-                offset += 2; 
-                break;
-            }
-            
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2; // min, max
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break; // poly(2), init(2), xor(2), flags(1)
-            case OP_CRC_32: offset += 13; break; // poly(4), init(4), xor(4), flags(1)
-            case OP_SCALE_LIN: offset += 16; break; // double, double
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break; // double
-            case OP_TRANS_POLY: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 8;
-                break;
-            }
-            case OP_TRANS_SPLINE: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 16; // 2 doubles per point
-                break;
-            }
-            
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
+        int keys = instr_keys(bc[start], key_offset);
+        for (int k = 0; k < keys; k++) {
+            uint16_t id = instr_u16(bc + start + key_offset[k]);
+            if (id < p->strtab.count) used[id] = 1;
         }
     }
 
     // 2. Build new string table and map
-    uint16_t* map = malloc(p->strtab.count * sizeof(uint16_t));
+    uint16_t* map = malloc((p->strtab.count + 1) * sizeof(uint16_t));
     StringTable new_tab;
     strtab_init(&new_tab);
 
@@ -147,101 +43,14 @@ static void optimize_strings(Parser* p) {
     }
 
     // 3. Update bytecode
-    offset = 0;
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t* id_ptr = (uint16_t*)(bc + offset);
-            uint16_t old_id = *id_ptr;
-            if (old_id < p->strtab.count) {
-                *id_ptr = map[old_id];
-            }
-            offset += 2;
-        }
-
-        // Skip other arguments (same as above)
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t* id_ptr = (uint16_t*)(bc + offset);
-                uint16_t old_id = *id_ptr;
-                if (old_id < p->strtab.count) {
-                    *id_ptr = map[old_id];
-                }
-                offset += 2;
-                break;
-            }
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2;
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break;
-            case OP_CRC_32: offset += 13; break;
-            case OP_SCALE_LIN: offset += 16; break;
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break;
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
+    instr_walk_init(&w, 0);
+    while (w.ip < len) {
+        size_t start = w.ip;
+        instr_walk_next(&w, bc, len);
+        int keys = instr_keys(bc[start], key_offset);
+        for (int k = 0; k < keys; k++) {
+            uint16_t id = instr_u16(bc + start + key_offset[k]);
+            if (id < p->strtab.count) buf_write_u16_at(&p->global_bc, start + key_offset[k], map[id]);
         }
     }
 
@@ -252,6 +61,7 @@ static void optimize_strings(Parser* p) {
 
     free(used);
     free(map);
+    return 1;
 }
 
 // Implementation of cnd_compile_file using the new modular structure
@@ -293,10 +103,15 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     
     int ret = 0;
 
+    if (!p.had_error) {
+        if (p.strtab.count > CND_MAX_KEYS) parser_error(&p, "Too many names");
+        else if (p.global_bc.size > CND_MAX_PROGRAM_SIZE) parser_error(&p, "Program too large");
+        else if (!optimize_strings(&p)) parser_error(&p, "Switch statements are nested too deeply");
+    }
+
     if (p.had_error) {
         ret = 1;
     } else {
-        optimize_strings(&p);
 
         FILE* out = fopen(out_path, "wb");
         if (!out) { 
diff --git a/src/vm/vm_instr.h b/src/vm/vm_instr.h
index b8530cf..3aba6fa 100644
--- a/src/vm/vm_instr.h
+++ b/src/vm/vm_instr.h
@@ -136,6 +136,32 @@ static inline size_t instr_length(const uint8_t* bc, size_t len, size_t ip) {
     }
 }
 
+// Number of string table keys among the operands of an instruction, and their offsets from its opcode
+static inline int instr_keys(uint8_t op, size_t offset[2]) {
+    offset[0] = 1;
+    offset[1] = 3;
+    switch (op) {
+        case OP_META_NAME:
+        case OP_ENTER_STRUCT:
+        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
+        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
+        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL:
+        case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL:
+        case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_FIXED: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32:
+        case OP_ARR_EOF:
+        case OP_RAW_BYTES:
+        case OP_CONST_CHECK:
+        case OP_SWITCH: case OP_SWITCH_TABLE:
+        case OP_LOAD_CTX: case OP_STORE_CTX:
+            return 1;
+        case OP_ARR_DYNAMIC: // Key, RefKey
+            return 2;
+        default:
+            return 0;
+    }
+}
+
 // Locates the table of the complete switch instruction at `ip`. False if the table is not inside the bytecode.
 static inline bool instr_table(const uint8_t* bc, size_t len, size_t ip, size_t* start, size_t* end) {
     size_t base = ip + 7;
-- 
2.43.0


From ed34cd6a5752e7c2608cae263afb065c0a9c96f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 18/49] fix: emit no bit width for bool bitfields, the VM does
 not read one

---
 src/compiler/cnd_parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index a9d92cc..59ab0db 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1236,7 +1236,10 @@ void parse_field(Parser* p, const char* doc) {
                  }
                  else { parser_error(p, "Bitfields only supported for integer/bool types"); return; }
                  
-                 buf_push(p->target, op); buf_push_u16(p->target, key_id); buf_push(p->target, bit_width);
+                 if (op == OP_IO_BIT_BOOL && bit_width != 1) { parser_error(p, "Bool bitfields are 1 bit wide"); return; }
+                 
+                 buf_push(p->target, op); buf_push_u16(p->target, key_id);
+                 if (op != OP_IO_BIT_BOOL) buf_push(p->target, bit_width); // A bool is a single bit
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
                      p->current_bit_count += bit_width;
-- 
2.43.0


From 2b2a350f0f0556a383a39f8ab0e3eaed9d0732ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:00 +0000
Subject: [PATCH 19/49] fix: parse unary operators, parentheses and subtraction
 of literals, bound the recursion

---
 src/compiler/cnd_internal.h |  3 +++
 src/compiler/cnd_parser.c   | 38 +++++++++++++++++++++++++++++++------
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index dd61623..1906705 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -29,6 +29,8 @@ extern "C" {
 
 // --- Limits ---
 #define CND_MAX_PROGRAM_SIZE (16u * 1024 * 1024) // Bytes of bytecode
+#define CND_MAX_PARSE_DEPTH 256                  // Nesting of expressions and blocks
+#define CND_MAX_IMPORT_DEPTH 256
 #define CND_MAX_KEYS 65535u                      // Keys are 16 bit
 
 // --- Tokens ---
@@ -244,6 +246,7 @@ typedef struct {
     int verbose;     // Flag for verbose debug output
     int packet_count; // Track number of packets defined
     int import_depth; // Track recursion depth of imports
+    int depth;        // Track recursion depth of expressions and blocks
     
     // Decorator State
     int pending_unaligned; // Flag: Next struct is @unaligned_bytes
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 59ab0db..feb0a90 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -41,6 +41,9 @@ static ExprType parse_grouping(Parser* p);
 ExprType parse_expression(Parser* p);
 
 static int is_float_literal(Token t) {
+    for (int i = 0; i < t.length; i++) {
+        if (t.start[i] == 'x' || t.start[i] == 'X') return 0; // Hex digits include 'e'
+    }
     for (int i = 0; i < t.length; i++) {
         if (t.start[i] == '.' || t.start[i] == 'e' || t.start[i] == 'E') return 1;
     }
@@ -48,12 +51,13 @@ static int is_float_literal(Token t) {
 }
 
 static ExprType parse_unary(Parser* p) {
-    TokenType op = p->current.type;
-    advance(p);
+    TokenType op = p->previous.type;
     ExprType t = parse_precedence(p, PREC_UNARY);
     switch (op) {
         case TOK_BANG: buf_push(p->target, OP_LOG_NOT); return TYPE_INT;
-        case TOK_TILDE: buf_push(p->target, OP_BIT_NOT); return TYPE_INT;
+        case TOK_TILDE: 
+            if (t == TYPE_FLOAT) parser_error(p, "Operator needs integer operands");
+            buf_push(p->target, OP_BIT_NOT); return TYPE_INT;
         case TOK_MINUS: 
             if (t == TYPE_FLOAT) { buf_push(p->target, OP_FNEG); return TYPE_FLOAT; }
             else { buf_push(p->target, OP_NEG); return TYPE_INT; }
@@ -68,6 +72,13 @@ static ExprType parse_binary(Parser* p, ExprType left) {
     
     int is_float_op = 0;
     if (left == TYPE_FLOAT || right == TYPE_FLOAT) {
+        switch (op) {
+            case TOK_PIPE: case TOK_CARET: case TOK_AMP:
+            case TOK_LSHIFT: case TOK_RSHIFT: case TOK_PERCENT:
+                parser_error(p, "Operator needs integer operands");
+                break;
+            default: break;
+        }
         is_float_op = 1;
         if (left == TYPE_INT) {
             buf_push(p->target, OP_SWAP); buf_push(p->target, OP_ITOF); buf_push(p->target, OP_SWAP);
@@ -123,13 +134,12 @@ static ExprType parse_binary(Parser* p, ExprType left) {
 }
 
 static ExprType parse_grouping(Parser* p) {
-    advance(p); // Consume (
     ExprType t = parse_expression(p);
     consume(p, TOK_RPAREN, "Expect ) after expression");
     return t;
 }
 
-static ParseRule rules[] = {
+static ParseRule rules[TOK_ERROR + 1] = {
     [TOK_LPAREN]    = {parse_grouping, NULL, PREC_NONE},
     [TOK_MINUS]     = {parse_unary, parse_binary, PREC_TERM},
     [TOK_PLUS]      = {NULL, parse_binary, PREC_TERM},
@@ -167,6 +177,12 @@ ExprType parse_expression(Parser* p) {
 }
 
 static ExprType parse_precedence(Parser* p, Precedence prec) {
+    if (p->had_error) return TYPE_UNKNOWN;
+    if (p->depth >= CND_MAX_PARSE_DEPTH) {
+        parser_error(p, "Expression is nested too deeply");
+        return TYPE_UNKNOWN;
+    }
+
     advance(p);
     ParsePrefixFn prefix_rule = get_rule(p->previous.type)->prefix;
     if (prefix_rule == NULL) {
@@ -174,13 +190,23 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
         return TYPE_UNKNOWN;
     }
 
+    p->depth++;
     ExprType left = prefix_rule(p);
 
-    while (prec <= get_rule(p->current.type)->precedence) {
+    for (;;) {
+        // "a -1" is a subtraction, although the lexer reads "-1" as a number
+        if (p->current.type == TOK_NUMBER && p->current.start[0] == '-') {
+            p->lexer.current = p->current.start + 1;
+            p->current.type = TOK_MINUS;
+            p->current.length = 1;
+        }
+        if (p->had_error || prec > get_rule(p->current.type)->precedence) break;
+
         advance(p);
         ParseInfixFn infix_rule = get_rule(p->previous.type)->infix;
         left = infix_rule(p, left);
     }
+    p->depth--;
     return left;
 }
 
-- 
2.43.0


From 976cf74f335d15dfbe2d2c1de9186cc2b5247cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 20/49] fix: reject numbers that do not fit what they describe
 instead of wrapping them

---
 src/compiler/cnd_parser.c | 306 ++++++++++++++++++++++----------------
 src/compiler/cnd_utils.c  |   9 +-
 2 files changed, 183 insertions(+), 132 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index feb0a90..b135457 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -50,6 +50,76 @@ static int is_float_literal(Token t) {
     return 0;
 }
 
+// Value of an integer literal between min and max, in two's complement. Reports anything else.
+static uint64_t int_literal(Parser* p, Token t, int64_t min, uint64_t max, const char* msg) {
+    const char* s = t.start;
+    const char* end = t.start + t.length;
+    int neg = 0;
+    int ok = t.type == TOK_NUMBER;
+    uint64_t val = 0;
+
+    if (s < end && *s == '-') { neg = 1; s++; }
+    if (end - s >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
+        s += 2;
+        if (s == end) ok = 0;
+        for (; ok && s < end; s++) {
+            if (val >> 60) ok = 0;
+            val = (val << 4) | (uint64_t)hex_char_to_int(*s);
+        }
+    } else {
+        for (; ok && s < end; s++) {
+            uint64_t digit = (uint64_t)(*s - '0');
+            if (!is_digit_c(*s) || val > (UINT64_MAX - digit) / 10) ok = 0;
+            else val = val * 10 + digit;
+        }
+    }
+
+    if (neg && val != 0) {
+        if (min >= 0 || val > (uint64_t)0 - (uint64_t)min) ok = 0;
+        val = (uint64_t)0 - val;
+    } else if (val > max) {
+        ok = 0;
+    }
+    if (!ok) {
+        parser_error(p, msg);
+        return 0;
+    }
+    return val;
+}
+
+// IO opcode of a numeric or bool type name, OP_NOOP if it is none
+static uint8_t primitive_type(Token t) {
+    if (match_keyword(t, "uint8") || match_keyword(t, "byte") || match_keyword(t, "u8")) return OP_IO_U8;
+    if (match_keyword(t, "uint16") || match_keyword(t, "u16")) return OP_IO_U16;
+    if (match_keyword(t, "uint32") || match_keyword(t, "u32")) return OP_IO_U32;
+    if (match_keyword(t, "uint64") || match_keyword(t, "u64")) return OP_IO_U64;
+    if (match_keyword(t, "int8") || match_keyword(t, "i8")) return OP_IO_I8;
+    if (match_keyword(t, "int16") || match_keyword(t, "i16")) return OP_IO_I16;
+    if (match_keyword(t, "int32") || match_keyword(t, "i32")) return OP_IO_I32;
+    if (match_keyword(t, "int64") || match_keyword(t, "i64")) return OP_IO_I64;
+    if (match_keyword(t, "float") || match_keyword(t, "f32")) return OP_IO_F32;
+    if (match_keyword(t, "double") || match_keyword(t, "f64")) return OP_IO_F64;
+    if (match_keyword(t, "bool")) return OP_IO_BOOL;
+    return OP_NOOP;
+}
+
+// Bounds of an integer type
+static void int_type_bounds(uint8_t type, int64_t* min, uint64_t* max) {
+    *min = 0;
+    *max = 0;
+    switch (type) {
+        case OP_IO_U8:  *max = UINT8_MAX; break;
+        case OP_IO_U16: *max = UINT16_MAX; break;
+        case OP_IO_U32: *max = UINT32_MAX; break;
+        case OP_IO_U64: *max = UINT64_MAX; break;
+        case OP_IO_I8:  *min = INT8_MIN;  *max = INT8_MAX; break;
+        case OP_IO_I16: *min = INT16_MIN; *max = INT16_MAX; break;
+        case OP_IO_I32: *min = INT32_MIN; *max = INT32_MAX; break;
+        case OP_IO_I64: *min = INT64_MIN; *max = INT64_MAX; break;
+        default: break;
+    }
+}
+
 static ExprType parse_unary(Parser* p) {
     TokenType op = p->previous.type;
     ExprType t = parse_precedence(p, PREC_UNARY);
@@ -306,68 +376,54 @@ int match_keyword(Token t, const char* kw) {
 
 
 void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok) {
+    uint64_t imin = 0, imax = 0;
+    double dmin = 0, dmax = 0;
+
     // Validate range
-    if (type_op == OP_IO_U8 || type_op == OP_IO_U16 || type_op == OP_IO_U32) {
-        uint32_t min = parse_number_u32(min_tok.start, min_tok.length);
-        uint32_t max = parse_number_u32(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
-    } else if (type_op == OP_IO_I8 || type_op == OP_IO_I16 || type_op == OP_IO_I32 || type_op == OP_IO_I64) {
-        int64_t min = parse_number_i64(min_tok.start, min_tok.length);
-        int64_t max = parse_number_i64(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
-    } else if (type_op == OP_IO_U64) {
-        uint64_t min = (uint64_t)parse_number_i64(min_tok.start, min_tok.length);
-        uint64_t max = (uint64_t)parse_number_i64(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
-    } else if (type_op == OP_IO_F32 || type_op == OP_IO_F64) {
-        double min = parse_number_double(min_tok.start, min_tok.length);
-        double max = parse_number_double(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
+    if (type_op == OP_IO_F32 || type_op == OP_IO_F64) {
+        dmin = parse_number_double(min_tok.start, min_tok.length);
+        dmax = parse_number_double(max_tok.start, max_tok.length);
+        if (dmin > dmax) { parser_error(p, "Range min > max"); return; }
+    } else {
+        int64_t type_min;
+        uint64_t type_max;
+        int_type_bounds(type_op, &type_min, &type_max);
+        imin = int_literal(p, min_tok, type_min, type_max, "Range bound does not fit the field type");
+        imax = int_literal(p, max_tok, type_min, type_max, "Range bound does not fit the field type");
+        int empty = type_min < 0 ? (int64_t)imin > (int64_t)imax : imin > imax;
+        if (!p->had_error && empty) parser_error(p, "Range min > max");
+        if (p->had_error) return;
     }
 
     buf_push(p->target, OP_RANGE_CHECK);
     buf_push(p->target, type_op);
     
-    if (type_op == OP_IO_U8) {
-        buf_push(p->target, (uint8_t)parse_number_u32(min_tok.start, min_tok.length));
-        buf_push(p->target, (uint8_t)parse_number_u32(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_U16) {
-        buf_push_u16(p->target, (uint16_t)parse_number_u32(min_tok.start, min_tok.length));
-        buf_push_u16(p->target, (uint16_t)parse_number_u32(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_U32) {
-        buf_push_u32(p->target, parse_number_u32(min_tok.start, min_tok.length));
-        buf_push_u32(p->target, parse_number_u32(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I8) {
-        buf_push(p->target, (uint8_t)(int8_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push(p->target, (uint8_t)(int8_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I16) {
-        buf_push_u16(p->target, (uint16_t)(int16_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u16(p->target, (uint16_t)(int16_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I32) {
-        buf_push_u32(p->target, (uint32_t)(int32_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u32(p->target, (uint32_t)(int32_t)parse_number_i64(max_tok.start, max_tok.length));
+    if (type_op == OP_IO_U8 || type_op == OP_IO_I8) {
+        buf_push(p->target, (uint8_t)imin);
+        buf_push(p->target, (uint8_t)imax);
+    } else if (type_op == OP_IO_U16 || type_op == OP_IO_I16) {
+        buf_push_u16(p->target, (uint16_t)imin);
+        buf_push_u16(p->target, (uint16_t)imax);
+    } else if (type_op == OP_IO_U32 || type_op == OP_IO_I32) {
+        buf_push_u32(p->target, (uint32_t)imin);
+        buf_push_u32(p->target, (uint32_t)imax);
     } else if (type_op == OP_IO_F32) {
-        float fmin = (float)parse_number_double(min_tok.start, min_tok.length);
-        float fmax = (float)parse_number_double(max_tok.start, max_tok.length);
-        uint32_t imin, imax;
-        memcpy(&imin, &fmin, 4);
-        memcpy(&imax, &fmax, 4);
-        buf_push_u32(p->target, imin);
-        buf_push_u32(p->target, imax);
-    } else if (type_op == OP_IO_U64) {
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I64) {
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_F64) {
-        double dmin = parse_number_double(min_tok.start, min_tok.length);
-        double dmax = parse_number_double(max_tok.start, max_tok.length);
-        uint64_t imin, imax;
-        memcpy(&imin, &dmin, 8);
-        memcpy(&imax, &dmax, 8);
+        float fmin = (float)dmin;
+        float fmax = (float)dmax;
+        uint32_t bmin, bmax;
+        memcpy(&bmin, &fmin, 4);
+        memcpy(&bmax, &fmax, 4);
+        buf_push_u32(p->target, bmin);
+        buf_push_u32(p->target, bmax);
+    } else if (type_op == OP_IO_U64 || type_op == OP_IO_I64) {
         buf_push_u64(p->target, imin);
         buf_push_u64(p->target, imax);
+    } else if (type_op == OP_IO_F64) {
+        uint64_t bmin, bmax;
+        memcpy(&bmin, &dmin, 8);
+        memcpy(&bmax, &dmax, 8);
+        buf_push_u64(p->target, bmin);
+        buf_push_u64(p->target, bmax);
     }
 }
 
@@ -384,7 +440,7 @@ ExprType parse_primary(Parser* p) {
             buf_push_u64(p->target, bits);
             return TYPE_FLOAT;
         } else {
-            uint64_t val = (uint64_t)parse_number_i64(p->previous.start, p->previous.length);
+            uint64_t val = int_literal(p, p->previous, INT64_MIN, UINT64_MAX, "Number out of range");
             buf_push(p->target, OP_PUSH_IMM);
             buf_push_u64(p->target, val);
             return TYPE_INT;
@@ -568,7 +624,7 @@ void parse_switch(Parser* p) {
             
             uint64_t val = 0;
             if (p->current.type == TOK_NUMBER) {
-                val = (uint64_t)parse_number_i64(p->current.start, p->current.length);
+                val = int_literal(p, p->current, INT64_MIN, UINT64_MAX, "Invalid case value");
                 advance(p);
             } else if (p->current.type == TOK_IDENTIFIER) {
                 // Enum.Value syntax
@@ -597,6 +653,8 @@ void parse_switch(Parser* p) {
                 } else {
                     parser_error(p, "Expect . after Enum name (Enum.Value)");
                 }
+            } else {
+                parser_error(p, "Expect case value");
             }
             
             consume(p, TOK_COLON, "Expect : after case value");
@@ -608,6 +666,9 @@ void parse_switch(Parser* p) {
                     parser_error(p, "Duplicate case value");
                 }
             }
+            if (case_count == UINT16_MAX) {
+                parser_error(p, "Too many cases");
+            }
 
             if (case_count >= case_cap) {
                 case_cap = (case_cap == 0) ? 8 : case_cap * 2;
@@ -636,6 +697,7 @@ void parse_switch(Parser* p) {
             jump_fixups[jump_count++] = jump_loc;
 
         } else if (p->current.type == TOK_DEFAULT) {
+            if (default_offset != -1) parser_error(p, "Duplicate default");
             advance(p); consume(p, TOK_COLON, "Expect :");
             default_offset = (int32_t)(buf_current_offset(p->target) - code_start_loc);
             
@@ -778,6 +840,7 @@ void parse_field(Parser* p, const char* doc) {
     uint32_t array_fixed_count = 0;
     int has_fixed_array_count = 0;
     uint64_t const_val = 0;
+    Token const_tok = {0};
     int has_const = 0;
     int is_big_endian_field = 0;
     int is_standalone_op = 0;
@@ -804,6 +867,9 @@ void parse_field(Parser* p, const char* doc) {
     uint32_t crc_init = 0;
     uint32_t crc_xor = 0;
     uint8_t crc_flags = 0;
+    int has_crc_poly = 0;
+    int has_crc_init = 0;
+    int has_crc_xor = 0;
 
     int has_expr = 0;
     int has_eof = 0;
@@ -832,10 +898,7 @@ void parse_field(Parser* p, const char* doc) {
                 advance(p);
                 Token num = p->current;
                 consume(p, TOK_NUMBER, "Expect fill bit value (0 or 1)");
-                fill_val = (uint8_t)parse_number_u32(num.start, num.length);
-                if (fill_val > 1) {
-                    parser_error(p, "Fill bit must be 0 or 1");
-                }
+                fill_val = (uint8_t)int_literal(p, num, 0, 1, "Fill bit must be 0 or 1");
                 consume(p, TOK_RPAREN, "Expect )");
             }
             buf_push(p->target, OP_ALIGN_FILL);
@@ -868,17 +931,17 @@ void parse_field(Parser* p, const char* doc) {
                 } else if (p->current.type == TOK_NUMBER) {
                     Token num = p->current; 
                     advance(p);
-                    array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
+                    array_fixed_count = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "Invalid array size"); has_fixed_array_count = 1;
                 } else {
                     parser_error(p, "Expect number or variable name for count");
                 }
             } else if (match_keyword(dec_name_token, "const") || match_keyword(dec_name_token, "match")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect const/match value");
-                const_val = (uint64_t)parse_number_i64(num.start, num.length); has_const = 1;
+                const_tok = num; has_const = 1;
             } else if (match_keyword(dec_name_token, "pad")) {
                 is_standalone_op = 1;
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect pad bits");
-                uint32_t pad_bits = parse_number_u32(num.start, num.length); buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
+                uint32_t pad_bits = (uint32_t)int_literal(p, num, 0, UINT8_MAX, "Pad must be 0 to 255 bits"); buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
                 if (p->in_bit_mode && p->is_bit_count_valid) {
                     p->current_bit_count += pad_bits;
                 }
@@ -889,15 +952,14 @@ void parse_field(Parser* p, const char* doc) {
                 has_range = 1;
             } else if (match_keyword(dec_name_token, "crc")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect width");
-                crc_width = parse_number_u32(num.start, num.length); has_crc = 1;
-                if (crc_width == 16) { crc_poly = 0x1021; crc_init = 0xFFFF; crc_xor = 0; crc_flags = 0; } 
-                else if (crc_width == 32) { crc_poly = 0x04C11DB7; crc_init = 0xFFFFFFFF; crc_xor = 0xFFFFFFFF; crc_flags = 3; }
+                crc_width = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "Invalid CRC width"); has_crc = 1;
+                if (crc_width != 16 && crc_width != 32) parser_error(p, "CRC width must be 16 or 32");
             } else if (match_keyword(dec_name_token, "crc_poly")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC parameter out of range"); has_crc_poly = 1;
             } else if (match_keyword(dec_name_token, "crc_init")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC parameter out of range"); has_crc_init = 1;
             } else if (match_keyword(dec_name_token, "crc_xor")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC parameter out of range"); has_crc_xor = 1;
             } else if (match_keyword(dec_name_token, "scale")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect scale factor");
                 trans_type = CND_TRANS_SCALE_F64; trans_scale = parse_number_double(num.start, num.length);
@@ -906,16 +968,16 @@ void parse_field(Parser* p, const char* doc) {
                 if (trans_type != CND_TRANS_SCALE_F64) { trans_type = CND_TRANS_SCALE_F64; trans_scale = 1.0; } trans_offset = parse_number_double(num.start, num.length);
             } else if (match_keyword(dec_name_token, "mul")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect mul value");
-                trans_type = CND_TRANS_MUL_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_MUL_I64; trans_int_val = (int64_t)int_literal(p, num, INT64_MIN, INT64_MAX, "Expect an integer");
             } else if (match_keyword(dec_name_token, "div")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect div value");
-                trans_type = CND_TRANS_DIV_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_DIV_I64; trans_int_val = (int64_t)int_literal(p, num, INT64_MIN, INT64_MAX, "Expect an integer");
             } else if (match_keyword(dec_name_token, "add")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect add value");
-                trans_type = CND_TRANS_ADD_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_ADD_I64; trans_int_val = (int64_t)int_literal(p, num, INT64_MIN, INT64_MAX, "Expect an integer");
             } else if (match_keyword(dec_name_token, "sub")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect sub value");
-                trans_type = CND_TRANS_SUB_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_SUB_I64; trans_int_val = (int64_t)int_literal(p, num, INT64_MIN, INT64_MAX, "Expect an integer");
             } else if (match_keyword(dec_name_token, "poly")) {
                 trans_type = CND_TRANS_POLY;
                 while (true) {
@@ -977,9 +1039,17 @@ void parse_field(Parser* p, const char* doc) {
         return;
     }
     
-    // Emit CRC
+    // CRC parameters default to the standard ones of the width
     if (has_crc) {
-        // Do nothing here, wait until type is parsed
+        if (!has_crc_poly) crc_poly = crc_width == 16 ? 0x1021 : 0x04C11DB7;
+        if (!has_crc_init) crc_init = crc_width == 16 ? 0xFFFF : 0xFFFFFFFF;
+        if (!has_crc_xor)  crc_xor  = crc_width == 16 ? 0 : 0xFFFFFFFF;
+        if (crc_width == 32) crc_flags |= 3;
+        if (crc_width == 16 && (crc_poly > 0xFFFF || crc_init > 0xFFFF || crc_xor > 0xFFFF)) {
+            parser_error(p, "CRC parameter out of range");
+        }
+    } else if (has_crc_poly || has_crc_init || has_crc_xor || crc_flags) {
+        parser_error(p, "CRC parameters need @crc");
     }
     
     // Emit Transform Op
@@ -1031,7 +1101,17 @@ void parse_field(Parser* p, const char* doc) {
     uint8_t bit_width = 0;
     if (p->current.type == TOK_COLON) {
         advance(p); consume(p, TOK_NUMBER, "Expect bit width");
-        bit_width = (uint8_t)parse_number_u32(p->previous.start, p->previous.length);
+        uint64_t type_bits = 0;
+        switch (primitive_type(type_tok)) {
+            case OP_IO_BOOL: type_bits = 1; break;
+            case OP_IO_U8:  case OP_IO_I8:  type_bits = 8; break;
+            case OP_IO_U16: case OP_IO_I16: type_bits = 16; break;
+            case OP_IO_U32: case OP_IO_I32: type_bits = 32; break;
+            case OP_IO_U64: case OP_IO_I64: type_bits = 64; break;
+            default: parser_error(p, "Bitfields only supported for integer/bool types"); break;
+        }
+        bit_width = (uint8_t)int_literal(p, p->previous, 1, type_bits, "Bit width must be between 1 and the width of the type");
+        if (bit_width == 0 && !p->had_error) parser_error(p, "Bit width must be between 1 and the width of the type");
     }
 
     int is_array_field = 0; 
@@ -1046,7 +1126,7 @@ void parse_field(Parser* p, const char* doc) {
         if (p->current.type == TOK_RBRACKET) { advance(p); is_variable_array = 1; } 
         else {
             Token num = p->current; consume(p, TOK_NUMBER, "Expect array size");
-            array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
+            array_fixed_count = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "Invalid array size"); has_fixed_array_count = 1;
             consume(p, TOK_RBRACKET, "Expect ]");
         }
     } else {
@@ -1077,8 +1157,8 @@ void parse_field(Parser* p, const char* doc) {
             else parser_error(p, "Invalid prefix type for string");
         } else { parser_error(p, "Prefix keyword used for non-variable-array/non-string type"); }
     } else if (match_keyword(type_tok, "string")) {
-        if (match_keyword(p->current, "until")) { advance(p); consume(p, TOK_NUMBER, "Expect val"); has_until = 1; }
-        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)parse_number_u32(max_tok.start, max_tok.length); }
+        if (match_keyword(p->current, "until")) { advance(p); consume(p, TOK_NUMBER, "Expect val"); int_literal(p, p->previous, 0, 0, "Strings can only end with 0"); has_until = 1; }
+        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)int_literal(p, max_tok, 0, UINT16_MAX, "Max length must be 0 to 65535"); }
     }
 
     if (is_array_field && match_keyword(type_tok, "string")) {
@@ -1106,54 +1186,15 @@ void parse_field(Parser* p, const char* doc) {
     }
 
     if (has_const) {
-        uint8_t type_op = OP_IO_U16;
-        int is_signed = 0;
-        int width = 0; // 1, 2, 4, 8
-        int found = 0;
-
-        #define CHECK_TYPE(t1, t2, t3, op, w, s) \
-            if (!found && (match_keyword(type_tok, t1) || (t2 && match_keyword(type_tok, t2)) || (t3 && match_keyword(type_tok, t3)))) { \
-                type_op = op; width = w; is_signed = s; found = 1; \
-            }
-
-        CHECK_TYPE("uint8", "byte", "u8", OP_IO_U8, 1, 0)
-        CHECK_TYPE("int8", "i8", NULL, OP_IO_I8, 1, 1)
-        CHECK_TYPE("uint16", "u16", NULL, OP_IO_U16, 2, 0)
-        CHECK_TYPE("int16", "i16", NULL, OP_IO_I16, 2, 1)
-        CHECK_TYPE("uint32", "u32", NULL, OP_IO_U32, 4, 0)
-        CHECK_TYPE("int32", "i32", NULL, OP_IO_I32, 4, 1)
-        CHECK_TYPE("uint64", "u64", NULL, OP_IO_U64, 8, 0)
-        CHECK_TYPE("int64", "i64", NULL, OP_IO_I64, 8, 1)
-
-        if (!found) {
-             parser_error(p, "Const not supported for this type");
-        }
-        #undef CHECK_TYPE
-
-        // Validation
-        if (is_signed) {
-            int64_t val_i64 = (int64_t)const_val;
-            int64_t min = 0, max = 0;
-            if (width == 1) { min = -128; max = 127; }
-            else if (width == 2) { min = -32768; max = 32767; }
-            else if (width == 4) { min = -2147483648LL; max = 2147483647LL; }
-            else { min = INT64_MIN; max = INT64_MAX; }
-            
-            if (val_i64 < min || val_i64 > max) {
-                parser_error(p, "Const value out of range for signed type");
-            }
-        } else {
-            uint64_t val_u64 = const_val;
-            uint64_t max = 0;
-            if (width == 1) max = 255;
-            else if (width == 2) max = 65535;
-            else if (width == 4) max = 4294967295ULL;
-            else max = UINT64_MAX;
-            
-            if (val_u64 > max) {
-                parser_error(p, "Const value out of range for unsigned type");
-            }
+        uint8_t type_op = primitive_type(type_tok);
+        int64_t type_min;
+        uint64_t type_max;
+        int_type_bounds(type_op, &type_min, &type_max);
+        if (type_max == 0) {
+            parser_error(p, "Const not supported for this type");
+            return;
         }
+        const_val = int_literal(p, const_tok, type_min, type_max, "Const value does not fit the field type");
         
         buf_push(p->target, OP_CONST_CHECK); 
         buf_push_u16(p->target, key_id);
@@ -1383,6 +1424,10 @@ void parse_enum(Parser* p, const char* doc) {
 
     consume(p, TOK_LBRACE, "Expect {");
     
+    int64_t type_min;
+    uint64_t type_max;
+    int_type_bounds(def->underlying_type, &type_min, &type_max);
+
     int64_t next_val = 0;
     StringBuilder val_doc_sb;
     sb_init(&val_doc_sb);
@@ -1410,7 +1455,12 @@ void parse_enum(Parser* p, const char* doc) {
             advance(p);
             Token num = p->current;
             consume(p, TOK_NUMBER, "Expect enum value");
-            val = parse_number_i64(num.start, num.length);
+            val = (int64_t)int_literal(p, num, type_min, type_max, "Enum value does not fit its type");
+        } else if (def->count > 0 && (uint64_t)def->values[def->count - 1].value == type_max) {
+            parser_error(p, "Enum value does not fit its type");
+        }
+        if (def->count == UINT16_MAX) {
+            parser_error(p, "Too many enum values");
         }
         
         // Check for duplicate value
@@ -1433,7 +1483,7 @@ void parse_enum(Parser* p, const char* doc) {
         sb_reset(&val_doc_sb); // Reset for next
         def->count++;
         
-        next_val = val + 1;
+        next_val = (int64_t)((uint64_t)val + 1);
         
         if (p->current.type == TOK_COMMA) advance(p);
     }
@@ -1663,7 +1713,7 @@ void parse_top_level(Parser* p) {
             
             if (match_keyword(dec, "version")) {
                 consume(p, TOK_LPAREN, "Expect ("); Token ver = p->current; consume(p, TOK_NUMBER, "Expect version number");
-                uint32_t v = parse_number_u32(ver.start, ver.length); buf_push(p->target, OP_META_VERSION); buf_push(p->target, (uint8_t)v);
+                uint32_t v = (uint32_t)int_literal(p, ver, 0, UINT8_MAX, "Version must be 0 to 255"); buf_push(p->target, OP_META_VERSION); buf_push(p->target, (uint8_t)v);
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 4769173..787ee00 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -322,15 +322,16 @@ int64_t parse_number_i64(const char* start, int length) {
         }
     }
     
-    return neg ? -(int64_t)res : (int64_t)res;
+    return (int64_t)(neg ? (uint64_t)0 - res : res);
 }
 
 double parse_number_double(const char* start, int length) {
-    char buf[64];
-    if (length >= 63) return 0.0;
+    char* buf = malloc((size_t)length + 1);
     memcpy(buf, start, length);
     buf[length] = '\0';
-    return strtod(buf, NULL);
+    double val = strtod(buf, NULL);
+    free(buf);
+    return val;
 }
 
 // --- StringBuilder Implementation ---
-- 
2.43.0


From 75d9734417cb5c3ba1497815dbc04dac24bacba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 21/49] fix: let byte order decorators affect their field only,
 also inside structs and bit structs

---
 src/compiler/cnd_internal.h | 10 ++++++
 src/compiler/cnd_parser.c   | 62 +++++++++++++++++++++++++++++++------
 src/compiler/cnd_utils.c    |  2 ++
 src/compiler/cndc.c         |  1 +
 4 files changed, 66 insertions(+), 9 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 1906705..591f4a1 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -170,6 +170,7 @@ char* sb_build(StringBuilder* sb);
 typedef struct {
     char* name;
     Buffer bytecode;
+    Buffer restores; // Offsets (u32) in bytecode that return to the byte order of the place of use
     int line;
     char* file; // File path where defined
     char* doc_comment;
@@ -216,6 +217,12 @@ EnumDef* enum_reg_add(EnumRegistry* r, const char* name, int len, int line, cons
 EnumDef* enum_reg_find(EnumRegistry* r, const char* name, int len);
 
 // --- Parser ---
+typedef enum {
+    ENDIAN_LITTLE,
+    ENDIAN_BIG,
+    ENDIAN_INHERIT // Inside a struct: whatever applies where the struct is used
+} Endian;
+
 typedef struct {
     int line;
     int column;
@@ -236,6 +243,9 @@ typedef struct {
     const char* current_struct_name; // Name of the struct currently being parsed (for recursion check)
     int current_struct_name_len;
     
+    StructDef* current_struct;  // Struct currently being parsed, NULL inside a packet
+    Endian endian;              // Byte order in effect
+
     // Field tracking for collision detection
     StringTable current_struct_fields;
 
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index b135457..0f78e25 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1,4 +1,5 @@
 #include "cnd_internal.h"
+#include "../vm/vm_instr.h"
 
 // Precedence levels
 typedef enum {
@@ -427,6 +428,29 @@ void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok)
     }
 }
 
+// Switches the byte order for what follows. Inside a struct the surrounding byte order is only known
+// where the struct is used, so the instructions that return to it are recorded for patching.
+static void emit_endian(Parser* p, Endian endian) {
+    if (endian == ENDIAN_INHERIT) {
+        buf_push_u32(&p->current_struct->restores, (uint32_t)buf_current_offset(p->target));
+        buf_push(p->target, OP_SET_ENDIAN_LE);
+    } else {
+        buf_push(p->target, endian == ENDIAN_BIG ? OP_SET_ENDIAN_BE : OP_SET_ENDIAN_LE);
+    }
+}
+
+// Fixes the byte order of struct bytecode that was copied to `start`
+static void patch_endian(Parser* p, const StructDef* def, size_t start) {
+    for (size_t i = 0; i + 4 <= def->restores.size; i += 4) {
+        size_t at = start + instr_u32(def->restores.data + i);
+        if (p->endian == ENDIAN_INHERIT) {
+            buf_push_u32(&p->current_struct->restores, (uint32_t)at);
+        } else {
+            buf_write_u8_at(p->target, at, p->endian == ENDIAN_BIG ? OP_SET_ENDIAN_BE : OP_SET_ENDIAN_LE);
+        }
+    }
+}
+
 void parse_field(Parser* p, const char* doc); // Forward declaration
 void parse_block(Parser* p); // Forward declaration
 
@@ -842,7 +866,8 @@ void parse_field(Parser* p, const char* doc) {
     uint64_t const_val = 0;
     Token const_tok = {0};
     int has_const = 0;
-    int is_big_endian_field = 0;
+    Endian outer_endian = p->endian;
+    Endian field_endian = p->endian;
     int is_standalone_op = 0;
     
     int has_range = 0;
@@ -888,9 +913,9 @@ void parse_field(Parser* p, const char* doc) {
         consume(p, TOK_IDENTIFIER, "Expect decorator name");
         
         if (match_keyword(dec_name_token, "big_endian") || match_keyword(dec_name_token, "be")) {
-            is_big_endian_field = 1;
+            field_endian = ENDIAN_BIG;
         } else if (match_keyword(dec_name_token, "little_endian") || match_keyword(dec_name_token, "le")) {
-             is_big_endian_field = 0;
+             field_endian = ENDIAN_LITTLE;
         } else if (match_keyword(dec_name_token, "fill")) {
             is_standalone_op = 1;
             uint8_t fill_val = 0;
@@ -1167,7 +1192,10 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
-    if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_BE); }
+    if (field_endian != outer_endian) {
+        emit_endian(p, field_endian);
+        p->endian = field_endian;
+    }
 
     if (arr_prefix_op != OP_NOOP) {
         buf_push(p->target, arr_prefix_op); buf_push_u16(p->target, key_id);
@@ -1230,11 +1258,13 @@ void parse_field(Parser* p, const char* doc) {
                 parser_error(p, "Program too large");
                 return;
             }
+            size_t struct_start = buf_current_offset(p->target);
             if (!buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
                                         name_tok.start, name_tok.length, &p->strtab)) {
                 parser_error(p, "Struct is nested too deeply");
                 return;
             }
+            patch_endian(p, sdef, struct_start);
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
@@ -1362,7 +1392,10 @@ void parse_field(Parser* p, const char* doc) {
 
     consume(p, TOK_SEMICOLON, "Expect ; after field");
 
-    if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_LE); }
+    if (field_endian != outer_endian) {
+        emit_endian(p, outer_endian);
+        p->endian = outer_endian;
+    }
 }
 
 void parse_block(Parser* p) {
@@ -1516,6 +1549,9 @@ void parse_struct(Parser* p, const char* doc) {
     p->current_struct_name_len = name.length;
 
     Buffer* prev = p->target; p->target = &def->bytecode;
+    Endian prev_endian = p->endian;
+    p->endian = ENDIAN_INHERIT;
+    p->current_struct = def;
 
     int was_in_bit_mode = p->in_bit_mode;
     int prev_bit_count = p->current_bit_count;
@@ -1523,7 +1559,8 @@ void parse_struct(Parser* p, const char* doc) {
 
     if (p->pending_unaligned) {
         buf_push(p->target, OP_ENTER_BIT_MODE);
-        buf_push(p->target, OP_SET_ENDIAN_BE);
+        emit_endian(p, ENDIAN_BIG);
+        p->endian = ENDIAN_BIG;
         p->in_bit_mode = 1;
         p->pending_unaligned = 0;
         p->current_bit_count = 0;
@@ -1546,6 +1583,7 @@ void parse_struct(Parser* p, const char* doc) {
             parser_error(p, msg);
         }
         buf_push(p->target, OP_EXIT_BIT_MODE);
+        emit_endian(p, ENDIAN_INHERIT);
         p->in_bit_mode = 0;
     }
     p->in_bit_mode = was_in_bit_mode;
@@ -1553,6 +1591,8 @@ void parse_struct(Parser* p, const char* doc) {
     p->is_bit_count_valid = prev_bit_valid;
 
     p->target = prev;
+    p->endian = prev_endian;
+    p->current_struct = NULL;
 
     p->current_struct_name = prev_name;
     p->current_struct_name_len = prev_len;
@@ -1592,7 +1632,9 @@ void parse_packet(Parser* p, const char* doc) {
             parser_error(p, "Struct not found");
         } else {
             // Inline the struct's bytecode
+            size_t struct_start = buf_current_offset(p->target);
             buf_append(p->target, sdef->bytecode.data, sdef->bytecode.size);
+            patch_endian(p, sdef, struct_start);
         }
     } else {
         strtab_init(&p->current_struct_fields);
@@ -1717,10 +1759,12 @@ void parse_top_level(Parser* p) {
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
-            } else if (match_keyword(dec, "big_endian")) {
-                buf_push(p->target, OP_SET_ENDIAN_BE);
+            } else if (match_keyword(dec, "big_endian") || match_keyword(dec, "be")) {
+                p->endian = ENDIAN_BIG;
+                emit_endian(p, p->endian);
             } else if (match_keyword(dec, "little_endian") || match_keyword(dec, "le")) {
-                buf_push(p->target, OP_SET_ENDIAN_LE);
+                p->endian = ENDIAN_LITTLE;
+                emit_endian(p, p->endian);
             } else if (match_keyword(dec, "unaligned_bytes")) {
                 p->pending_unaligned = 1;
             } else {
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 787ee00..f7cd0e0 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -185,6 +185,7 @@ void reg_free(StructRegistry* r) {
         if (r->defs[i].file) free(r->defs[i].file);
         if (r->defs[i].doc_comment) free(r->defs[i].doc_comment);
         buf_free(&r->defs[i].bytecode);
+        buf_free(&r->defs[i].restores);
     }
     free(r->defs);
     r->count = 0;
@@ -205,6 +206,7 @@ StructDef* reg_add(StructRegistry* r, const char* name, int len, int line, const
     def->file = file ? strdup(file) : NULL;
     def->doc_comment = doc ? strdup(doc) : NULL;
     buf_init(&def->bytecode);
+    buf_init(&def->restores);
     return def;
 }
 
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 76c4c58..605d865 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -156,6 +156,7 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
         for(size_t i=0; i<p.registry.count; i++) {
             free(p.registry.defs[i].name);
             buf_free(&p.registry.defs[i].bytecode);
+            buf_free(&p.registry.defs[i].restores);
             if(p.registry.defs[i].file) free(p.registry.defs[i].file);
             if(p.registry.defs[i].doc_comment) free(p.registry.defs[i].doc_comment);
         }
-- 
2.43.0


From d33dc5af878f229bdf661057935a5f6aef3205cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 22/49] fix: apply transforms and @optional to array elements,
 convert computed values to the field type, reject decorators that would be
 ignored

---
 src/compiler/cnd_parser.c | 133 +++++++++++++++++++++++++++++---------
 1 file changed, 101 insertions(+), 32 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 0f78e25..2d41936 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -88,6 +88,12 @@ static uint64_t int_literal(Parser* p, Token t, int64_t min, uint64_t max, const
     return val;
 }
 
+static uint64_t double_bits(double d) {
+    uint64_t bits;
+    memcpy(&bits, &d, 8);
+    return bits;
+}
+
 // IO opcode of a numeric or bool type name, OP_NOOP if it is none
 static uint8_t primitive_type(Token t) {
     if (match_keyword(t, "uint8") || match_keyword(t, "byte") || match_keyword(t, "u8")) return OP_IO_U8;
@@ -575,6 +581,8 @@ ExprType parse_primary(Parser* p) {
 }
 
 void parse_if(Parser* p) {
+    p->is_bit_count_valid = 0; // Depends on the branch taken
+
     consume(p, TOK_LPAREN, "Expect ( after if");
     parse_expression(p);
     consume(p, TOK_RPAREN, "Expect ) after if condition");
@@ -598,7 +606,13 @@ void parse_if(Parser* p) {
         advance(p);
         if (p->current.type == TOK_IF) {
             advance(p);
+            if (p->depth >= CND_MAX_PARSE_DEPTH) {
+                parser_error(p, "Too many else branches");
+                return;
+            }
+            p->depth++;
             parse_if(p); // recursive else if
+            p->depth--;
         } else {
             parse_block(p);
         }
@@ -616,6 +630,8 @@ typedef struct {
 } SwitchCase;
 
 void parse_switch(Parser* p) {
+    p->is_bit_count_valid = 0; // Depends on the branch taken
+
     consume(p, TOK_LPAREN, "Expect ( after switch");
     Token field_tok = p->current;
     consume(p, TOK_IDENTIFIER, "Expect discriminator field name");
@@ -897,6 +913,8 @@ void parse_field(Parser* p, const char* doc) {
     int has_crc_xor = 0;
 
     int has_expr = 0;
+    ExprType expr_type = TYPE_UNKNOWN;
+    int has_optional = 0;
     int has_eof = 0;
     int has_count_ref = 0;
     uint16_t count_ref_id = 0;
@@ -938,7 +956,7 @@ void parse_field(Parser* p, const char* doc) {
         } else if (match_keyword(dec_name_token, "crc_refout")) {
             crc_flags |= 2;
         } else if (match_keyword(dec_name_token, "optional")) {
-            buf_push(p->target, OP_MARK_OPTIONAL);
+            has_optional = 1;
         } else if (match_keyword(dec_name_token, "eof")) {
             has_eof = 1;
         } else { 
@@ -968,7 +986,7 @@ void parse_field(Parser* p, const char* doc) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect pad bits");
                 uint32_t pad_bits = (uint32_t)int_literal(p, num, 0, UINT8_MAX, "Pad must be 0 to 255 bits"); buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
                 if (p->in_bit_mode && p->is_bit_count_valid) {
-                    p->current_bit_count += pad_bits;
+                    p->current_bit_count = (int)((p->current_bit_count + pad_bits) % 8);
                 }
             } else if (match_keyword(dec_name_token, "range")) {
                 range_min_tok = p->current; if (range_min_tok.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect min");
@@ -1049,7 +1067,7 @@ void parse_field(Parser* p, const char* doc) {
                     }
                 }
             } else if (match_keyword(dec_name_token, "expr")) {
-                parse_expression(p);
+                expr_type = parse_expression(p);
                 has_expr = 1;
             } else { 
                 parser_error(p, "Unknown decorator");
@@ -1077,33 +1095,6 @@ void parse_field(Parser* p, const char* doc) {
         parser_error(p, "CRC parameters need @crc");
     }
     
-    // Emit Transform Op
-    if (trans_type == CND_TRANS_SCALE_F64) {
-        buf_push(p->target, OP_SCALE_LIN);
-        buf_push_u64(p->target, *(uint64_t*)&trans_scale);
-        buf_push_u64(p->target, *(uint64_t*)&trans_offset);
-    } else if (trans_type == CND_TRANS_MUL_I64) {
-        buf_push(p->target, OP_TRANS_MUL); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_DIV_I64) {
-        buf_push(p->target, OP_TRANS_DIV); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_ADD_I64) {
-        buf_push(p->target, OP_TRANS_ADD); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_SUB_I64) {
-        buf_push(p->target, OP_TRANS_SUB); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_POLY) {
-        buf_push(p->target, OP_TRANS_POLY);
-        buf_push(p->target, poly_count);
-        for (int i = 0; i < poly_count; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&poly_coeffs[i]);
-        }
-    } else if (trans_type == CND_TRANS_SPLINE) {
-        buf_push(p->target, OP_TRANS_SPLINE);
-        buf_push(p->target, spline_count);
-        for (int i = 0; i < spline_count * 2; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&spline_points[i]);
-        }
-    }
-
     Token type_tok = p->current;
     consume(p, TOK_IDENTIFIER, "Expect field type");
 
@@ -1186,6 +1177,39 @@ void parse_field(Parser* p, const char* doc) {
         if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)int_literal(p, max_tok, 0, UINT16_MAX, "Max length must be 0 to 65535"); }
     }
 
+    // Reject combinations that have no meaning
+    {
+        int is_struct = reg_find(&p->registry, type_tok.start, type_tok.length) != NULL;
+        int is_enum = enum_reg_find(&p->enums, type_tok.start, type_tok.length) != NULL;
+        int is_string = match_keyword(type_tok, "string");
+        uint8_t prim = primitive_type(type_tok);
+        int is_number = !is_struct && !is_enum && !is_string && prim != OP_NOOP && prim != OP_IO_BOOL;
+        int is_plain = !has_const && !has_crc && !has_expr && bit_width == 0 && !p->in_bit_mode;
+        int array_sizes = (arr_prefix_op != OP_NOOP) + has_eof + has_count_ref + has_fixed_array_count;
+
+        if (has_const + has_crc + has_expr > 1) parser_error(p, "Only one of const, crc and expr can define the value of a field");
+        if ((has_crc || has_expr) && is_array_field) parser_error(p, "Crc and expr are not supported for arrays");
+        if (has_expr && (is_struct || is_enum || is_string)) parser_error(p, "Expr only supported for integer, float and bool types");
+        if (has_const && (is_struct || is_enum)) parser_error(p, "Const not supported for this type");
+        if (bit_width > 0 && (has_const || has_crc || has_expr)) parser_error(p, "Bitfields cannot be const, crc or expr");
+        if (p->in_bit_mode && (has_const || has_crc || has_expr || is_struct || is_enum || is_string)) {
+            parser_error(p, "Only integer and bool types allowed in unaligned_bytes struct");
+        }
+        if (trans_type != CND_TRANS_NONE && !(is_number && is_plain)) {
+            parser_error(p, "Transforms are only supported for plain integer and float fields");
+        }
+        if (has_range && !((is_number && !has_crc && !has_expr && bit_width == 0 && !p->in_bit_mode) || (is_enum && !has_const))) {
+            parser_error(p, "Range is only supported for plain integer, float and enum fields");
+        }
+        if (has_optional && is_struct) parser_error(p, "Optional is not supported for struct fields");
+        if ((has_eof || has_count_ref || (has_fixed_array_count && !is_array_field)) && !is_array_field) {
+            parser_error(p, "Array size given for a field that is not an array");
+        }
+        if (is_array_field && array_sizes == 0) parser_error(p, "Array needs a size, 'prefix', @count or @eof");
+        if (is_array_field && array_sizes > 1) parser_error(p, "Array size given more than once");
+        if (p->had_error) return;
+    }
+
     if (is_array_field && match_keyword(type_tok, "string")) {
         if (str_prefix_op == OP_NOOP && !has_until && !has_fixed_array_count && !has_count_ref) {
             parser_error(p, "String arrays must specify 'prefix' or 'until' or be fixed/dynamic count");
@@ -1198,6 +1222,7 @@ void parse_field(Parser* p, const char* doc) {
     }
 
     if (arr_prefix_op != OP_NOOP) {
+        if (has_optional) buf_push(p->target, OP_MARK_OPTIONAL); // The prefix may be missing
         buf_push(p->target, arr_prefix_op); buf_push_u16(p->target, key_id);
     } else if (has_eof && is_array_field) {
         buf_push(p->target, OP_ARR_EOF); buf_push_u16(p->target, key_id);
@@ -1209,6 +1234,38 @@ void parse_field(Parser* p, const char* doc) {
         buf_push_u32(p->target, array_fixed_count);
     } 
     
+    // These apply to the next value, so inside an array they are repeated for every element
+    if (has_optional && arr_prefix_op == OP_NOOP && !has_eof) {
+        buf_push(p->target, OP_MARK_OPTIONAL);
+    }
+
+    // Emit Transform Op
+    if (trans_type == CND_TRANS_SCALE_F64) {
+        buf_push(p->target, OP_SCALE_LIN);
+        buf_push_u64(p->target, double_bits(trans_scale));
+        buf_push_u64(p->target, double_bits(trans_offset));
+    } else if (trans_type == CND_TRANS_MUL_I64) {
+        buf_push(p->target, OP_TRANS_MUL); buf_push_u64(p->target, (uint64_t)trans_int_val);
+    } else if (trans_type == CND_TRANS_DIV_I64) {
+        buf_push(p->target, OP_TRANS_DIV); buf_push_u64(p->target, (uint64_t)trans_int_val);
+    } else if (trans_type == CND_TRANS_ADD_I64) {
+        buf_push(p->target, OP_TRANS_ADD); buf_push_u64(p->target, (uint64_t)trans_int_val);
+    } else if (trans_type == CND_TRANS_SUB_I64) {
+        buf_push(p->target, OP_TRANS_SUB); buf_push_u64(p->target, (uint64_t)trans_int_val);
+    } else if (trans_type == CND_TRANS_POLY) {
+        buf_push(p->target, OP_TRANS_POLY);
+        buf_push(p->target, poly_count);
+        for (int i = 0; i < poly_count; i++) {
+            buf_push_u64(p->target, double_bits(poly_coeffs[i]));
+        }
+    } else if (trans_type == CND_TRANS_SPLINE) {
+        buf_push(p->target, OP_TRANS_SPLINE);
+        buf_push(p->target, spline_count);
+        for (int i = 0; i < spline_count * 2; i++) {
+            buf_push_u64(p->target, double_bits(spline_points[i]));
+        }
+    }
+
     if (str_prefix_op != OP_NOOP) {
         buf_push(p->target, str_prefix_op); buf_push_u16(p->target, key_id);
     }
@@ -1339,7 +1396,9 @@ void parse_field(Parser* p, const char* doc) {
                  if (op != OP_IO_BIT_BOOL) buf_push(p->target, bit_width); // A bool is a single bit
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
-                     p->current_bit_count += bit_width;
+                     if (!is_array_field) p->current_bit_count = (p->current_bit_count + bit_width) % 8;
+                     else if (has_fixed_array_count) p->current_bit_count = (int)((p->current_bit_count + (uint64_t)bit_width * array_fixed_count) % 8);
+                     else p->is_bit_count_valid = 0;
                  }
             } else {
                 if (p->in_bit_mode) {
@@ -1377,6 +1436,9 @@ void parse_field(Parser* p, const char* doc) {
                          buf_push(p->target, crc_flags);
                      }
                 } else if (has_expr) {
+                    int is_float_field = op == OP_IO_F32 || op == OP_IO_F64;
+                    if (expr_type == TYPE_INT && is_float_field) buf_push(p->target, OP_ITOF);
+                    else if (expr_type == TYPE_FLOAT && !is_float_field) buf_push(p->target, OP_FTOI);
                     buf_push(p->target, OP_DUP);
                     buf_push(p->target, OP_STORE_CTX); buf_push_u16(p->target, key_id);
                     buf_push(p->target, OP_EMIT); buf_push(p->target, op);
@@ -1399,6 +1461,12 @@ void parse_field(Parser* p, const char* doc) {
 }
 
 void parse_block(Parser* p) {
+    if (p->depth >= CND_MAX_PARSE_DEPTH) {
+        parser_error(p, "Blocks are nested too deeply");
+        return;
+    }
+    p->depth++;
+
     consume(p, TOK_LBRACE, "Expect {");
     StringBuilder doc_sb;
     sb_init(&doc_sb);
@@ -1418,6 +1486,7 @@ void parse_block(Parser* p) {
     }
     consume(p, TOK_RBRACE, "Expect }");
     sb_free(&doc_sb);
+    p->depth--;
 }
 
 void parse_enum(Parser* p, const char* doc) {
@@ -1578,7 +1647,7 @@ void parse_struct(Parser* p, const char* doc) {
             memcpy(struct_name, p->current_struct_name, len);
             struct_name[len] = '\0';
             
-            snprintf(msg, sizeof(msg), "Unaligned struct '%s' must end on byte boundary (current bits: %d). Use @fill.", 
+            snprintf(msg, sizeof(msg), "Unaligned struct '%s' must end on byte boundary (%d bits past one). Use @fill.", 
                      struct_name, p->current_bit_count);
             parser_error(p, msg);
         }
-- 
2.43.0


From c0596ab3705214a797cb1057406ed48d2e18cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 23/49] fix: reject counts, discriminators and expressions that
 refer to unknown fields

---
 src/compiler/cnd_internal.h |  1 +
 src/compiler/cnd_parser.c   | 23 +++++++++++++++--------
 src/compiler/cnd_utils.c    |  7 +++++++
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 591f4a1..cf4e223 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -145,6 +145,7 @@ typedef struct {
 
 void strtab_init(StringTable* t);
 void strtab_free(StringTable* t);
+int strtab_has(const StringTable* t, const char* start, int len);
 uint16_t strtab_add(StringTable* t, const char* start, int len);
 
 // Append struct bytecode with key IDs remapped to include prefix. Returns 0 if the bytecode cannot be walked.
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 2d41936..b054942 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -460,6 +460,17 @@ static void patch_endian(Parser* p, const StructDef* def, size_t start) {
 void parse_field(Parser* p, const char* doc); // Forward declaration
 void parse_block(Parser* p); // Forward declaration
 
+// Key of the field a count, switch or expression refers to. The field must come first.
+static uint16_t field_ref(Parser* p, const char* name, int len) {
+    int first = 0;
+    while (first < len && name[first] != '.') first++;
+
+    if (!strtab_has(&p->current_struct_fields, name, first) || !strtab_has(&p->strtab, name, len)) {
+        parser_error(p, "Reference to an unknown field");
+    }
+    return strtab_add(&p->strtab, name, len);
+}
+
 // Expression Parsing
 ExprType parse_primary(Parser* p) {
     if (p->previous.type == TOK_NUMBER) {
@@ -565,13 +576,13 @@ ExprType parse_primary(Parser* p) {
                     len += sub.length;
                 }
                 
-                uint16_t key_id = strtab_add(&p->strtab, full_name, len);
+                uint16_t key_id = field_ref(p, full_name, len);
                 buf_push(p->target, OP_LOAD_CTX);
                 buf_push_u16(p->target, key_id);
                 return TYPE_UNKNOWN;
             }
 
-            uint16_t key_id = strtab_add(&p->strtab, name.start, name.length);
+            uint16_t key_id = field_ref(p, name.start, name.length);
             buf_push(p->target, OP_LOAD_CTX);
             buf_push_u16(p->target, key_id);
             return TYPE_UNKNOWN;
@@ -636,7 +647,7 @@ void parse_switch(Parser* p) {
     Token field_tok = p->current;
     consume(p, TOK_IDENTIFIER, "Expect discriminator field name");
     if (p->verbose) printf("  [Switch] Discriminator: '%.*s'\n", field_tok.length, field_tok.start);
-    uint16_t key_id = strtab_add(&p->strtab, field_tok.start, field_tok.length);
+    uint16_t key_id = field_ref(p, field_tok.start, field_tok.length);
     consume(p, TOK_RPAREN, "Expect )");
     consume(p, TOK_LBRACE, "Expect {");
 
@@ -965,11 +976,7 @@ void parse_field(Parser* p, const char* doc) {
                 if (p->current.type == TOK_IDENTIFIER) {
                     Token ref_tok = p->current;
                     advance(p);
-                    // Verify that the referenced field exists (simple check: must be in string table already?)
-                    // Actually, we can't easily check existence here because fields might be defined later?
-                    // But for array counts, the length field usually comes BEFORE the array.
-                    // Let's just ensure it's a valid identifier for now.
-                    count_ref_id = strtab_add(&p->strtab, ref_tok.start, ref_tok.length);
+                    count_ref_id = field_ref(p, ref_tok.start, ref_tok.length);
                     has_count_ref = 1;
                 } else if (p->current.type == TOK_NUMBER) {
                     Token num = p->current; 
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index f7cd0e0..f81cbf2 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -144,6 +144,13 @@ void strtab_init(StringTable* t) {
     t->strings = malloc(t->capacity * sizeof(char*));
 }
 
+int strtab_has(const StringTable* t, const char* start, int len) {
+    for (size_t i = 0; i < t->count; i++) {
+        if (strlen(t->strings[i]) == (size_t)len && strncmp(t->strings[i], start, len) == 0) return 1;
+    }
+    return 0;
+}
+
 uint16_t strtab_add(StringTable* t, const char* start, int len) {
     for (size_t i = 0; i < t->count; i++) {
         if (strlen(t->strings[i]) == (size_t)len && strncmp(t->strings[i], start, len) == 0) {
-- 
2.43.0


From 970d223abba37bf4c4638bcc4ddc37755ecf6a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 24/49] fix: report unreadable sources and failed writes,
 escape JSON diagnostics

---
 src/compiler/cnd_internal.h |  6 ++++
 src/compiler/cnd_lexer.c    |  5 ++-
 src/compiler/cnd_parser.c   | 44 +++++++++++++++++---------
 src/compiler/cnd_utils.c    | 35 +++++++++++++++++++++
 src/compiler/cndc.c         | 62 ++++++++++++++++++++++++-------------
 5 files changed, 114 insertions(+), 38 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index cf4e223..cc820ee 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -281,6 +281,12 @@ typedef struct {
 // Caller owns the returned string.
 char* cnd_canonicalize_path(const char* path);
 
+// Returns the content of a text file in a newly-allocated string, NULL if it cannot be read or is not text.
+char* cnd_read_source(const char* path);
+
+// Prints text with the escapes a JSON string needs
+void cnd_print_json_escaped(const char* text, size_t len);
+
 void parser_error(Parser* p, const char* msg);
 void advance(Parser* p);
 void consume(Parser* p, TokenType type, const char* msg);
diff --git a/src/compiler/cnd_lexer.c b/src/compiler/cnd_lexer.c
index 0b15e2f..d8d513a 100644
--- a/src/compiler/cnd_lexer.c
+++ b/src/compiler/cnd_lexer.c
@@ -132,7 +132,10 @@ Token lexer_next(Lexer* lexer) {
             case '"': {
                 token.type = TOK_STRING;
                 token.start = lexer->current;
-                while (*lexer->current != '"' && *lexer->current != '\0') lexer->current++;
+                while (*lexer->current != '"' && *lexer->current != '\0') {
+                    if (*lexer->current == '\n') lexer->line++;
+                    lexer->current++;
+                }
                 token.length = (int)(lexer->current - token.start);
                 if (*lexer->current == '"') lexer->current++;
                 return token;
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index b054942..c2f0df5 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -323,8 +323,13 @@ void parser_error(Parser* p, const char* msg) {
     if (p->json_output) {
         // JSON format: {"file": "...", "line": N, "message": "...", "token": "..."}
         // We use manual JSON construction to avoid dependency on cJSON in the compiler core
-        printf("{\"file\": \"%s\", \"line\": %d, \"message\": \"%s\", \"token\": \"%.*s\"}\n",
-            p->current_path, p->current.line, msg, p->current.length, p->current.start);
+        printf("{\"file\": \"");
+        cnd_print_json_escaped(p->current_path, strlen(p->current_path));
+        printf("\", \"line\": %d, \"message\": \"", p->current.line);
+        cnd_print_json_escaped(msg, strlen(msg));
+        printf("\", \"token\": \"");
+        cnd_print_json_escaped(p->current.start, (size_t)p->current.length);
+        printf("\"}\n");
     } else {
         // Standard error format: file:line:col: error: message
         // With colors: Bold File, Red Error
@@ -1751,14 +1756,15 @@ void parse_import(Parser* p) {
     consume(p, TOK_STRING, "Expect file path string");
     consume(p, TOK_RPAREN, "Expect ) after import path");
     
+    if (p->had_error) return;
+
     // Extract string content (Lexer already removed quotes)
-    char rel_path[256];
-    int len = path_tok.length;
-    if (len >= 256) { parser_error(p, "Import path too long"); return; }
-    memcpy(rel_path, path_tok.start, len);
-    rel_path[len] = '\0';
+    char* rel_path = malloc((size_t)path_tok.length + 1);
+    memcpy(rel_path, path_tok.start, (size_t)path_tok.length);
+    rel_path[path_tok.length] = '\0';
     
     char* joined_path = resolve_path(p->current_path, rel_path);
+    free(rel_path);
     char* full_path = cnd_canonicalize_path(joined_path);
     free(joined_path);
     
@@ -1772,21 +1778,25 @@ void parse_import(Parser* p) {
     
     // Add to imports
     strtab_add(&p->imports, full_path, (int)strlen(full_path));
+
+    if (p->import_depth >= CND_MAX_IMPORT_DEPTH) {
+        parser_error(p, "Imports are nested too deeply");
+        free(full_path);
+        return;
+    }
     
     // Read file
-    FILE* f = fopen(full_path, "rb");
-    if (!f) {
-        char msg[512];
-        snprintf(msg, sizeof(msg), "Could not open imported file: %s", full_path);
+    char* source = cnd_read_source(full_path);
+    if (!source) {
+        size_t len = strlen(full_path) + 64;
+        char* msg = malloc(len);
+        snprintf(msg, len, "Could not open imported file: %s", full_path);
         parser_error(p, msg);
+        free(msg);
         free(full_path);
         return;
     }
     
-    fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = (char*)malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
-    fclose(f);
-    
     // Save state
     Lexer old_lexer = p->lexer;
     Token old_cur = p->current;
@@ -1854,6 +1864,10 @@ void parse_top_level(Parser* p) {
 
         char* doc_str = doc_sb.length > 0 ? sb_build(&doc_sb) : NULL;
 
+        if (p->pending_unaligned && p->current.type != TOK_STRUCT) {
+            parser_error(p, "unaligned_bytes only applies to structs");
+        }
+
         if (p->current.type == TOK_STRUCT) {
             advance(p); parse_struct(p, doc_str);
             sb_reset(&doc_sb);
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index f81cbf2..d9138de 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -28,6 +28,41 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
+void cnd_print_json_escaped(const char* text, size_t len) {
+    for (size_t i = 0; i < len; i++) {
+        unsigned char c = (unsigned char)text[i];
+        if (c == '"' || c == '\\') printf("\\%c", c);
+        else if (c < 0x20) printf("\\u%04x", c);
+        else putchar(c);
+    }
+}
+
+char* cnd_read_source(const char* path) {
+    FILE* f = fopen(path, "rb");
+    if (!f) return NULL;
+
+    size_t size = 0;
+    size_t capacity = 4096;
+    char* source = malloc(capacity);
+    for (;;) {
+        size_t n = fread(source + size, 1, capacity - size - 1, f);
+        if (n == 0) break;
+        size += n;
+        if (size + 1 == capacity) {
+            capacity *= 2;
+            source = realloc(source, capacity);
+        }
+    }
+    int failed = ferror(f) || memchr(source, '\0', size) != NULL;
+    fclose(f);
+    if (failed) {
+        free(source);
+        return NULL;
+    }
+    source[size] = '\0';
+    return source;
+}
+
 // Append struct bytecode with key IDs remapped to include prefix
 int buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
                            const char* prefix, int prefix_len, StringTable* strtab) {
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 605d865..db1c828 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -70,16 +70,17 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     char* canonical_in_path = cnd_canonicalize_path(in_path);
     const char* open_path = canonical_in_path ? canonical_in_path : in_path;
 
-    FILE* f = fopen(open_path, "rb");
-    if (!f) { 
-        if (json_output) printf("{\"error\": \"Error opening input file: %s\"}\n", open_path);
+    char* source = cnd_read_source(open_path);
+    if (!source) { 
+        if (json_output) {
+            printf("{\"error\": \"Error opening input file: ");
+            cnd_print_json_escaped(open_path, strlen(open_path));
+            printf("\"}\n");
+        }
         else printf("Error opening input file: %s\n", open_path);
         if (canonical_in_path) free(canonical_in_path);
         return 1; 
     }
-    fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
-    fclose(f);
 
     Parser p;
     memset(&p, 0, sizeof(Parser)); // Zero init
@@ -115,30 +116,47 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
 
         FILE* out = fopen(out_path, "wb");
         if (!out) { 
-            if (json_output) printf("{\"status\": \"error\", \"message\": \"Error opening output file: %s\"}\n", out_path);
+            if (json_output) {
+                printf("{\"status\": \"error\", \"message\": \"Error opening output file: ");
+                cnd_print_json_escaped(out_path, strlen(out_path));
+                printf("\"}\n");
+            }
             else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error opening output file: %s\n", out_path); 
             ret = 1; 
         } else {
-            fwrite("CNDIL", 1, 5, out); fputc(1, out);
-            uint16_t str_count = (uint16_t)p.strtab.count; fwrite(&str_count, 2, 1, out); 
-            
             uint32_t str_offset = 16;
             uint32_t str_bytes = 0;
             for(size_t i=0; i<p.strtab.count; i++) { str_bytes += (uint32_t)(strlen(p.strtab.strings[i]) + 1); }
             uint32_t bytecode_offset = str_offset + str_bytes;
-            
-            fwrite(&str_offset, 4, 1, out); fwrite(&bytecode_offset, 4, 1, out);
-            
-            for(size_t i=0; i<p.strtab.count; i++) { fwrite(p.strtab.strings[i], 1, strlen(p.strtab.strings[i]) + 1, out); }
-            
-            fwrite(p.global_bc.data, 1, p.global_bc.size, out);
-            
-            fclose(out);
+
+            Buffer image;
+            buf_init(&image);
+            buf_append(&image, (const uint8_t*)"CNDIL\1", 6);
+            buf_push_u16(&image, (uint16_t)p.strtab.count);
+            buf_push_u32(&image, str_offset);
+            buf_push_u32(&image, bytecode_offset);
+            for(size_t i=0; i<p.strtab.count; i++) { buf_append(&image, (const uint8_t*)p.strtab.strings[i], strlen(p.strtab.strings[i]) + 1); }
+            buf_append(&image, p.global_bc.data, p.global_bc.size);
+
+            int written = fwrite(image.data, 1, image.size, out) == image.size;
+            if (fclose(out) != 0) written = 0;
+            buf_free(&image);
+
+            if (!written) {
+                if (json_output) {
+                    printf("{\"status\": \"error\", \"message\": \"Error writing output file: ");
+                    cnd_print_json_escaped(out_path, strlen(out_path));
+                    printf("\"}\n");
+                }
+                else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error writing output file: %s\n", out_path); 
+                ret = 1;
+            } else
             if (json_output) {
-                // Escape paths for JSON (simple check)
-                // For now assuming paths don't have crazy characters, but in production should be escaped properly
-                printf("{\"status\": \"success\", \"input\": \"%s\", \"output\": \"%s\", \"stats\": {\"strings\": %zu, \"bytecode_size\": %zu}}\n",
-                    in_path, out_path, p.strtab.count, p.global_bc.size);
+                printf("{\"status\": \"success\", \"input\": \"");
+                cnd_print_json_escaped(in_path, strlen(in_path));
+                printf("\", \"output\": \"");
+                cnd_print_json_escaped(out_path, strlen(out_path));
+                printf("\", \"stats\": {\"strings\": %zu, \"bytecode_size\": %zu}}\n", p.strtab.count, p.global_bc.size);
             } else {
                 printf(COLOR_BOLD COLOR_GREEN "[SUCCESS]" COLOR_RESET " Compiled " COLOR_CYAN "%s" COLOR_RESET "\n", in_path);
                 printf("  " COLOR_BOLD "Output:" COLOR_RESET "   %s\n", out_path);
-- 
2.43.0


From 3621835a66d41d3128e1c0757e1d3ba715bb8c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 25/49] fix: keep block comments and line breaks when
 formatting, report failed reads and writes

---
 src/compiler/cnd_fmt.c | 56 ++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index 89abf8a..c03a4f7 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -23,6 +23,7 @@ typedef enum {
     FMT_COMMA,     // ,
     FMT_AT,        // @
     FMT_COMMENT,   // // ...
+    FMT_BLOCK_COMMENT, // /* ... */
     FMT_NEWLINE,   // \n
     FMT_WHITESPACE // spaces/tabs
 } FmtTokenType;
@@ -83,6 +84,20 @@ static FmtToken fmt_next(FmtLexer* l) {
         return t;
     }
 
+    if (c == '/' && *l->current == '*') {
+        t.type = FMT_BLOCK_COMMENT;
+        l->current++;
+        while (*l->current != '\0') {
+            if (*l->current == '*' && *(l->current + 1) == '/') {
+                l->current += 2;
+                break;
+            }
+            l->current++;
+        }
+        t.length = (int)(l->current - t.start);
+        return t;
+    }
+
     switch (c) {
         case '{': t.type = FMT_LBRACE; return t;
         case '}': t.type = FMT_RBRACE; return t;
@@ -139,7 +154,8 @@ char* cnd_format_source(const char* source) {
     sb_init(&out);
 
     int indent = 0;
-    int newline_pending = 0;
+    int newline_pending = 0; // Newline demanded by the previous token
+    int input_newlines = 0;  // Newlines found in the source
     int space_pending = 0;
     int on_new_line = 1;
 
@@ -159,7 +175,7 @@ char* cnd_format_source(const char* source) {
         }
 
         if (t.type == FMT_NEWLINE) {
-            if (newline_pending < 2) newline_pending++;
+            if (input_newlines < 2) input_newlines++;
             continue;
         }
 
@@ -168,7 +184,10 @@ char* cnd_format_source(const char* source) {
             indent--;
             if (indent < 0) indent = 0;
             newline_pending = 1;
+            input_newlines = 0;
         }
+        if (input_newlines > newline_pending) newline_pending = input_newlines;
+        input_newlines = 0;
 
         // Apply newlines
         if (newline_pending > 0) {
@@ -185,15 +204,11 @@ char* cnd_format_source(const char* source) {
         if (on_new_line) {
             sb_indent(&out, indent);
             on_new_line = 0;
-        } else if (space_pending) {
+        } else if (space_pending || t.type == FMT_LBRACE) { // Space before {
             sb_append(&out, " ");
             space_pending = 0;
         }
 
-        if (t.type == FMT_LBRACE) {
-            sb_append(&out, " "); // Space before {
-        }
-
         sb_append_n(&out, t.start, t.length);
 
         if (t.type == FMT_LBRACE) {
@@ -215,21 +230,12 @@ char* cnd_format_source(const char* source) {
 }
 
 int cnd_format_file(const char* in_path, const char* out_path) {
-    FILE* f = fopen(in_path, "rb");
-    if (!f) {
-        fprintf(stderr, "Failed to open input file: %s\n", in_path);
+    char* source = cnd_read_source(in_path);
+    if (!source) {
+        fprintf(stderr, "Failed to read input file: %s\n", in_path);
         return 1;
     }
 
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    char* source = (char*)malloc(size + 1);
-    fread(source, 1, size, f);
-    source[size] = '\0';
-    fclose(f);
-
     char* formatted = cnd_format_source(source);
     free(source);
 
@@ -245,9 +251,17 @@ int cnd_format_file(const char* in_path, const char* out_path) {
         }
     }
 
-    fputs(formatted, out);
+    int failed = fputs(formatted, out) == EOF;
     
-    if (out_path && out != stdout) fclose(out);
+    if (out_path && out != stdout) {
+        if (fclose(out) != 0) failed = 1;
+    } else if (fflush(out) != 0) {
+        failed = 1;
+    }
     free(formatted);
+    if (failed) {
+        fprintf(stderr, "Failed to write output file\n");
+        return 1;
+    }
     return 0;
 }
-- 
2.43.0


From 9d1553aaa258fd82b606c92e5740839633be04bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 26/49] fix: give references in expressions the type of the
 field

---
 src/compiler/cnd_internal.h |  2 ++
 src/compiler/cnd_parser.c   | 46 ++++++++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index cc820ee..b42b8e5 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -250,6 +250,8 @@ typedef struct {
     // Field tracking for collision detection
     StringTable current_struct_fields;
 
+    uint8_t key_types[65536]; // By key: type of the value an expression gets for the field (ExprType)
+
     int had_error;
     int error_count; // Total number of errors encountered
     int json_output; // Flag for JSON error output
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index c2f0df5..f9a4406 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -19,9 +19,9 @@ typedef enum {
 } Precedence;
 
 typedef enum {
+    TYPE_UNKNOWN,
     TYPE_INT,
-    TYPE_FLOAT,
-    TYPE_UNKNOWN
+    TYPE_FLOAT
 } ExprType;
 
 typedef ExprType (*ParsePrefixFn)(Parser* p);
@@ -476,6 +476,34 @@ static uint16_t field_ref(Parser* p, const char* name, int len) {
     return strtab_add(&p->strtab, name, len);
 }
 
+// Records the type of the fields whose code starts at `start`, as it is when a host looks at them
+static void record_key_types(Parser* p, size_t start) {
+    const uint8_t* bc = p->target->data + start;
+    size_t len = p->target->size - start;
+    ExprType transformed = TYPE_UNKNOWN;
+    instr_walk w;
+    instr_walk_init(&w, 0);
+    while (w.ip < len) {
+        const uint8_t* i = bc + w.ip;
+        if (instr_walk_next(&w, bc, len) != CND_ERR_OK) return;
+
+        if (i[0] >= OP_TRANS_ADD && i[0] <= OP_TRANS_DIV) transformed = TYPE_INT;
+        else if (i[0] == OP_SCALE_LIN || i[0] == OP_TRANS_POLY || i[0] == OP_TRANS_SPLINE) transformed = TYPE_FLOAT;
+
+        uint8_t type = i[0];
+        if (type == OP_CONST_CHECK) type = i[3];
+        if (type == OP_STORE_CTX) type = i[4]; // Operand of the OP_EMIT behind it
+
+        ExprType value;
+        if (type == OP_IO_F32 || type == OP_IO_F64) value = TYPE_FLOAT;
+        else if ((type >= OP_IO_U8 && type <= OP_IO_BOOL) || (type >= OP_IO_BIT_U && type <= OP_IO_BIT_BOOL)) value = TYPE_INT;
+        else continue;
+        if (transformed != TYPE_UNKNOWN) value = transformed;
+        transformed = TYPE_UNKNOWN;
+        p->key_types[instr_u16(i + 1)] = (uint8_t)value;
+    }
+}
+
 // Expression Parsing
 ExprType parse_primary(Parser* p) {
     if (p->previous.type == TOK_NUMBER) {
@@ -551,15 +579,13 @@ ExprType parse_primary(Parser* p) {
             return TYPE_FLOAT;
         } else if (match_keyword(name, "float")) {
             consume(p, TOK_LPAREN, "Expect ("); 
-            parse_expression(p); // Ignore type, force ITOF
+            if (parse_expression(p) != TYPE_FLOAT) buf_push(p->target, OP_ITOF);
             consume(p, TOK_RPAREN, "Expect )");
-            buf_push(p->target, OP_ITOF);
             return TYPE_FLOAT;
         } else if (match_keyword(name, "int")) {
             consume(p, TOK_LPAREN, "Expect ("); 
-            parse_expression(p); // Ignore type, force FTOI
+            if (parse_expression(p) == TYPE_FLOAT) buf_push(p->target, OP_FTOI);
             consume(p, TOK_RPAREN, "Expect )");
-            buf_push(p->target, OP_FTOI);
             return TYPE_INT;
         } else {
             // Handle Dot Notation (e.g. position.x)
@@ -584,13 +610,13 @@ ExprType parse_primary(Parser* p) {
                 uint16_t key_id = field_ref(p, full_name, len);
                 buf_push(p->target, OP_LOAD_CTX);
                 buf_push_u16(p->target, key_id);
-                return TYPE_UNKNOWN;
+                return (ExprType)p->key_types[key_id];
             }
 
             uint16_t key_id = field_ref(p, name.start, name.length);
             buf_push(p->target, OP_LOAD_CTX);
             buf_push_u16(p->target, key_id);
-            return TYPE_UNKNOWN;
+            return (ExprType)p->key_types[key_id];
         }
     }
     return TYPE_UNKNOWN;
@@ -892,6 +918,8 @@ void parse_field(Parser* p, const char* doc) {
         return;
     }
 
+    size_t field_start = buf_current_offset(p->target);
+
     // Decorator State Variables
     uint32_t array_fixed_count = 0;
     int has_fixed_array_count = 0;
@@ -1470,6 +1498,8 @@ void parse_field(Parser* p, const char* doc) {
         emit_endian(p, outer_endian);
         p->endian = outer_endian;
     }
+
+    record_key_types(p, field_start);
 }
 
 void parse_block(Parser* p) {
-- 
2.43.0


From 6a57d3ace19c9ada940fea14021091df9c60b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 27/49] fix: keep JSON values exact in encode and decode,
 refuse documents that do not match the schema

---
 include/cli_helpers.h  |  30 +-
 src/cli/cli_helpers.c  |  87 ++--
 src/cli/cmd_decode.c   |  51 +--
 src/cli/cmd_encode.c   |  69 ++--
 src/cli/json_binding.c | 887 ++++++++++++++++++++++++++---------------
 5 files changed, 695 insertions(+), 429 deletions(-)

diff --git a/include/cli_helpers.h b/include/cli_helpers.h
index 0fd7b66..17926e2 100644
--- a/include/cli_helpers.h
+++ b/include/cli_helpers.h
@@ -28,17 +28,29 @@ int load_il(const char* path, ILFile* il);
 void free_il(ILFile* il);
 
 // --- VM IO Callback (JSON Binding) ---
+#define JSON_MAX_DEPTH 256
+#define JSON_MAX_ARRAYS 32
+
+typedef enum {
+    JSON_VALUE_NONE,
+    JSON_VALUE_CONST,
+    JSON_VALUE_INT,  // 64-bit integer
+    JSON_VALUE_FLOAT // Bits of a double
+} JsonValueKind;
+
 typedef struct {
     ILFile* il;
-    cJSON* stack[32]; // Stack for nested objects
+    cJSON* stack[JSON_MAX_DEPTH]; // Stack for nested objects
     int depth;
 
     // For robust array handling
-    cJSON* array_stack[32]; // Stack for current array cJSON object
-    int array_index_stack[32]; // Stack for current index within that array
-    int array_start_depth[32]; // Stack for io->depth when array started
+    cJSON* array_stack[JSON_MAX_ARRAYS]; // Stack for current array cJSON object (NULL if missing)
+    cJSON* array_next[JSON_MAX_ARRAYS]; // Stack for next element of that array (encode)
+    int array_start_depth[JSON_MAX_ARRAYS]; // Stack for io->depth when array started
     int array_depth; // Current depth in array stack
     
+    bool failed; // A value was refused. The VM takes that as absence where the field is optional.
+
     int hex_mode; // Flag to enable hex string output for byte arrays
 
     // State for hex string accumulation for current byte array
@@ -46,7 +58,17 @@ typedef struct {
     char* hex_str_buffer;
     size_t hex_str_buffer_len;
     size_t hex_str_buffer_capacity;
+
+    // By key: value of the field, as counts, switches and expressions get it
+    struct {
+        JsonValueKind kind;
+        uint64_t bits;
+    } values[65536];
 } IOCtx;
+
+cJSON* json_parse(const char* text);
+// Prepares an execution. Keeps hex_mode.
+void json_io_reset(IOCtx* io, ILFile* il, cJSON* root);
 cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr);
 
 
diff --git a/src/cli/cli_helpers.c b/src/cli/cli_helpers.c
index 2eb3ebd..a954e1f 100644
--- a/src/cli/cli_helpers.c
+++ b/src/cli/cli_helpers.c
@@ -8,48 +8,54 @@
 // File IO Helpers
 // =================================================================================================
 
+// The bytes are followed by a NUL
 uint8_t* read_file_bytes(const char* path, size_t* out_len) {
     FILE* f = fopen(path, "rb");
     if (!f) return NULL;
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    uint8_t* buf = malloc(size);
-    if (buf) fread(buf, 1, size, f);
+
+    size_t len = 0;
+    size_t capacity = 4096;
+    uint8_t* buf = malloc(capacity);
+    while (buf) {
+        len += fread(buf + len, 1, capacity - len - 1, f);
+        if (ferror(f)) {
+            free(buf);
+            buf = NULL;
+        } else if (feof(f)) {
+            buf[len] = '\0';
+            break;
+        } else {
+            capacity *= 2;
+            uint8_t* bigger = realloc(buf, capacity);
+            if (!bigger) free(buf);
+            buf = bigger;
+        }
+    }
     fclose(f);
-    if (out_len) *out_len = size;
+    if (out_len) *out_len = len;
     return buf;
 }
 
 char* read_file_text(const char* path) {
-    FILE* f = fopen(path, "rb");
-    if (!f) return NULL;
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    char* buf = malloc(size + 1);
-    if (buf) {
-        fread(buf, 1, size, f);
-        buf[size] = '\0';
+    size_t len;
+    char* text = (char*)read_file_bytes(path, &len);
+    if (text && strlen(text) != len) { // Not text
+        free(text);
+        text = NULL;
     }
-    fclose(f);
-    return buf;
+    return text;
 }
 
 int write_file_bytes(const char* path, const uint8_t* data, size_t len) {
     FILE* f = fopen(path, "wb");
     if (!f) return 0;
-    fwrite(data, 1, len, f);
-    fclose(f);
-    return 1;
+    int ok = fwrite(data, 1, len, f) == len;
+    if (fclose(f) != 0) ok = 0;
+    return ok;
 }
 
 int write_file_text(const char* path, const char* text) {
-    FILE* f = fopen(path, "w");
-    if (!f) return 0;
-    fputs(text, f);
-    fclose(f);
-    return 1;
+    return write_file_bytes(path, (const uint8_t*)text, strlen(text));
 }
 
 // =================================================================================================
@@ -57,34 +63,37 @@ int write_file_text(const char* path, const char* text) {
 // =================================================================================================
 
 int load_il(const char* path, ILFile* il) {
+    memset(il, 0, sizeof(*il));
     il->raw_data = read_file_bytes(path, &il->raw_len);
     if (!il->raw_data) return 0;
     
-    if (il->raw_len < 16 || memcmp(il->raw_data, "CNDIL", 5) != 0) {
-        printf("Invalid IL file magic\n");
+    cnd_program program;
+    if (cnd_program_load_il(&program, il->raw_data, il->raw_len) != CND_ERR_OK) {
+        printf("Invalid IL file\n");
+        free_il(il);
         return 0;
     }
     
-    il->str_count = *(uint16_t*)(il->raw_data + 6);
-    uint32_t str_offset = *(uint32_t*)(il->raw_data + 8);
-    uint32_t bc_offset = *(uint32_t*)(il->raw_data + 12);
-    
-    if (str_offset > il->raw_len || bc_offset > il->raw_len) return 0;
-
-    il->string_table = malloc(il->str_count * sizeof(char*));
-    const char* ptr = (const char*)(il->raw_data + str_offset);
+    il->str_count = program.string_count;
+    il->string_table = malloc((il->str_count + 1) * sizeof(char*));
+    if (!il->string_table) {
+        free_il(il);
+        return 0;
+    }
+    const char* ptr = program.string_table;
     for (int i = 0; i < il->str_count; i++) {
         il->string_table[i] = ptr;
         ptr += strlen(ptr) + 1;
     }
     
-    il->bytecode = il->raw_data + bc_offset;
-    il->bytecode_len = il->raw_len - bc_offset;
+    il->bytecode = program.bytecode;
+    il->bytecode_len = program.bytecode_len;
     
     return 1;
 }
 
 void free_il(ILFile* il) {
-    if (il->raw_data) free(il->raw_data);
-    if (il->string_table) free(il->string_table);
+    free(il->raw_data);
+    free(il->string_table);
+    memset(il, 0, sizeof(*il));
 }
diff --git a/src/cli/cmd_decode.c b/src/cli/cmd_decode.c
index d6dff1d..12090d7 100644
--- a/src/cli/cmd_decode.c
+++ b/src/cli/cmd_decode.c
@@ -6,54 +6,45 @@ int cmd_decode(int argc, char** argv) {
         return 1;
     }
     
-    int hex_mode = 0;
-    if (argc >= 6 && strcmp(argv[5], "--hex") == 0) {
-        hex_mode = 1;
-    }
-    
     ILFile il;
     if (!load_il(argv[2], &il)) { printf("Failed to load IL\n"); return 1; }
     
     size_t bin_len;
     uint8_t* bin_data = read_file_bytes(argv[3], &bin_len);
-    if (!bin_data) { printf("Failed to read binary\n"); return 1; }
+    if (!bin_data) { printf("Failed to read binary\n"); free_il(&il); return 1; }
     
     cJSON* root = cJSON_CreateObject();
-    static IOCtx io_ctx; // Made static to persist
-    memset(&io_ctx, 0, sizeof(IOCtx)); // Initialize all fields to 0
-    io_ctx.il = &il;
-    io_ctx.stack[0] = root;
-    io_ctx.depth = 0;
-    io_ctx.array_depth = 0; // Initialize array depth
-    io_ctx.hex_mode = hex_mode;
-    io_ctx.in_hex_byte_array = false; // Initialize new hex-related fields
-    io_ctx.hex_str_buffer = NULL;
-    io_ctx.hex_str_buffer_len = 0;
-    io_ctx.hex_str_buffer_capacity = 0;
+    static IOCtx io_ctx;
+    io_ctx.hex_mode = (argc >= 6 && strcmp(argv[5], "--hex") == 0);
+    json_io_reset(&io_ctx, &il, root);
     
     cnd_vm_ctx vm;
     cnd_program program;
-    cnd_program_load(&program, il.bytecode, il.bytecode_len);
+    cnd_program_load_il(&program, il.raw_data, il.raw_len);
     cnd_init(&vm, CND_MODE_DECODE, &program, bin_data, bin_len, json_io_callback, &io_ctx);
     
+    int ret = 0;
     cnd_error_t err = cnd_execute(&vm);
     if (err != CND_ERR_OK) {
         printf("VM Error: %d\n", err);
-        return 1;
+        ret = 1;
+    } else {
+        char* out_json = cJSON_Print(root);
+        if (!out_json) {
+            printf("Failed to render JSON\n");
+            ret = 1;
+        } else if (!write_file_text(argv[4], out_json)) {
+            printf("Failed to write %s\n", argv[4]);
+            ret = 1;
+        } else {
+            printf("Decoded to %s\n", argv[4]);
+        }
+        free(out_json);
     }
     
-    char* out_json = cJSON_Print(root);
-    if (!out_json) {
-        printf("Failed to render JSON\n");
-        return 1;
-    }
-    
-    write_file_text(argv[4], out_json);
-    printf("Decoded to %s\n", argv[4]);
-    
-    free(out_json);
+    free(io_ctx.hex_str_buffer);
     cJSON_Delete(root);
     free(bin_data);
     free_il(&il);
-    return 0;
+    return ret;
 }
diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index fa46d91..981e47e 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -1,5 +1,7 @@
 #include "cli_helpers.h"
 
+#define MAX_MESSAGE_SIZE ((size_t)64 * 1024 * 1024)
+
 int cmd_encode(int argc, char** argv) {
     if (argc < 5) {
         printf("Usage: cnd encode <schema.il> <input.json> <output.bin>\n");
@@ -10,43 +12,52 @@ int cmd_encode(int argc, char** argv) {
     if (!load_il(argv[2], &il)) { printf("Failed to load IL\n"); return 1; }
     
     char* json_text = read_file_text(argv[3]);
-    if (!json_text) { printf("Failed to read JSON\n"); return 1; }
+    if (!json_text) { printf("Failed to read JSON\n"); free_il(&il); return 1; }
     
-    cJSON* root = cJSON_Parse(json_text);
+    cJSON* root = json_parse(json_text);
     free(json_text);
-    if (!root) { printf("Failed to parse JSON\n"); return 1; }
-    
-    // Encode
-    uint8_t buffer[1024]; 
-    memset(buffer, 0, sizeof(buffer));
-    
-    static IOCtx io_ctx; // Made static to persist
-    io_ctx.il = &il;
-    io_ctx.stack[0] = root;
-    io_ctx.depth = 0;
-    io_ctx.array_depth = 0; // Initialize array depth
+    if (!cJSON_IsObject(root)) {
+        printf("Failed to parse JSON\n");
+        cJSON_Delete(root);
+        free_il(&il);
+        return 1;
+    }
     
-    cnd_vm_ctx vm;
     cnd_program program;
-    cnd_program_load(&program, il.bytecode, il.bytecode_len);
-    cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, sizeof(buffer), json_io_callback, &io_ctx);
-    
-    cnd_error_t err = cnd_execute(&vm);
-    //fprintf(stderr, "DEBUG: cnd_execute returned %d\n", err);
+    cnd_program_load_il(&program, il.raw_data, il.raw_len);
+
+    // Encode, with a larger buffer if it does not fit
+    static IOCtx io_ctx;
+    uint8_t* buffer = NULL;
+    size_t size = 1024;
+    size_t final_len = 0;
+    cnd_error_t err;
+    do {
+        free(buffer);
+        buffer = calloc(size, 1);
+        if (!buffer) { err = CND_ERR_OOB; break; }
+
+        cnd_vm_ctx vm;
+        json_io_reset(&io_ctx, &il, root);
+        cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, size, json_io_callback, &io_ctx);
+        err = cnd_execute(&vm);
+        if (io_ctx.failed) err = CND_ERR_CALLBACK;
+        final_len = vm.cursor;
+        if (vm.bit_offset > 0) final_len++;
+        size *= 4;
+    } while (err == CND_ERR_OOB && size <= MAX_MESSAGE_SIZE);
+
+    int ret = 0;
     if (err != CND_ERR_OK) {
         fprintf(stderr, "VM Error: %d\n", err);
-        return 1;
+        ret = 1;
+    } else if (!write_file_bytes(argv[4], buffer, final_len)) {
+        fprintf(stderr, "Failed to write %s\n", argv[4]);
+        ret = 1;
     }
     
-    // fprintf(stderr, "DEBUG: Writing file...\n");
-    size_t final_len = vm.cursor;
-    if (vm.bit_offset > 0) final_len++;
-    write_file_bytes(argv[4], buffer, final_len);
-    // fprintf(stderr, "Encoded %zu bytes to %s\n", final_len, argv[4]);
-    
-    // fprintf(stderr, "DEBUG: Cleaning up...\n");
+    free(buffer);
     cJSON_Delete(root);
     free_il(&il);
-    // fprintf(stderr, "DEBUG: Done.\n");
-    return 0;
+    return ret;
 }
diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 96b178d..d07eb86 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -2,380 +2,613 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <inttypes.h>
+#include <math.h>
 #include "cli_helpers.h"
-#include <cJSON.h>
-#include "concordia.h"
-#include "compiler.h"
+#include "../vm/vm_instr.h"
 
 // =================================================================================================
-// JSON IO Callback & Helpers
+// JSON text
 // =================================================================================================
 
-static void append_hex_byte(IOCtx* io, uint8_t byte) {
-    if (io->hex_str_buffer_len + 3 > io->hex_str_buffer_capacity) {
-        io->hex_str_buffer_capacity = (io->hex_str_buffer_capacity == 0) ? 64 : io->hex_str_buffer_capacity * 2;
-        char* new_ptr = realloc(io->hex_str_buffer, io->hex_str_buffer_capacity);
-        if (!new_ptr) return; // OOM
-        io->hex_str_buffer = new_ptr;
-    }
-    sprintf(io->hex_str_buffer + io->hex_str_buffer_len, "%02X", byte);
-    io->hex_str_buffer_len += 2;
+// cJSON keeps numbers as doubles only. Integer literals with too many digits for that are handed to it
+// as strings with this mark, which is not valid UTF-8 and therefore in no other string.
+#define LONG_INT_MARK "\xFFint:"
+#define LONG_INT_DIGITS 16
+
+static const char* long_int_text(const cJSON* item) {
+    size_t n = strlen(LONG_INT_MARK);
+    if (!cJSON_IsString(item) || strncmp(item->valuestring, LONG_INT_MARK, n) != 0) return NULL;
+    return item->valuestring + n;
 }
 
-static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, const char* key_name, cJSON* parent, void* ptr) {
-    // Determine if this array should be treated as a Hex String (byte array)
-    bool is_hex_array = false;
-    if (io->hex_mode && ctx->mode == CND_MODE_DECODE) {
-        if (type == OP_RAW_BYTES) {
-            is_hex_array = true;
-        } else {
-            // Peek IL for element type
-            const uint8_t* ip = ctx->program->bytecode + ctx->ip;
-            const uint8_t* end = ctx->program->bytecode + ctx->program->bytecode_len;
-            if (ip < end) {
-                // Skip current instruction args to find NEXT instruction
-                if (type == OP_ARR_FIXED) ip += 6; // Key(2) + Count(4)
-                else ip += 2; // Key(2) for ARR_PRE
-                
-                if (ip < end && *ip == OP_IO_U8) is_hex_array = true;
-            }
+cJSON* json_parse(const char* text) {
+    size_t len = strlen(text);
+    char* out = malloc(len + len / LONG_INT_DIGITS * (strlen(LONG_INT_MARK) + 2) + 16);
+    if (!out) return NULL;
+
+    size_t o = 0;
+    bool in_string = false;
+    for (size_t i = 0; i < len; ) {
+        char c = text[i];
+        if (in_string) {
+            if (c == '\\' && i + 1 < len) out[o++] = text[i++];
+            else if (c == '"') in_string = false;
+            out[o++] = text[i++];
+            continue;
         }
+        if (c == '"') in_string = true;
+        if (c != '-' && (c < '0' || c > '9')) {
+            out[o++] = text[i++];
+            continue;
+        }
+        size_t n = strspn(text + i, "-+.eE0123456789");
+        size_t digits = strspn(text + i + (c == '-'), "0123456789");
+        bool is_long = digits >= LONG_INT_DIGITS && n == digits + (c == '-') && text[i + (c == '-')] != '0';
+        if (is_long) o += (size_t)sprintf(out + o, "\"%s", LONG_INT_MARK);
+        memcpy(out + o, text + i, n);
+        o += n;
+        i += n;
+        if (is_long) out[o++] = '"';
     }
+    out[o] = '\0';
 
-    if (ctx->mode == CND_MODE_ENCODE) {
-        cJSON* item = cJSON_GetObjectItem(parent, key_name);
-        if (!item || (!cJSON_IsArray(item) && !(type == OP_RAW_BYTES && cJSON_IsString(item)))) {
-            // If missing or wrong type, write 0 length
-            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = 0;
-            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = 0;
-            else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = 0;
-            else if (type == OP_ARR_FIXED) *(uint32_t*)ptr = 0;
-            // For RAW_BYTES encode, we need to handle data copy elsewhere or fail here
-            return CND_ERR_OK; // Treat as empty/skip
-        }
-        
-        // Push stack
-        if (io->array_depth >= 31) return CND_ERR_OOB;
-        io->array_stack[io->array_depth] = item;
-        io->array_index_stack[io->array_depth] = 0;
-        io->array_start_depth[io->array_depth] = io->depth;
-        io->array_depth++;
-
-        // Write length
-        if (type != OP_RAW_BYTES && type != OP_ARR_FIXED && type != OP_ARR_DYNAMIC) {
-            int len = cJSON_GetArraySize(item);
-            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = (uint8_t)len;
-            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = (uint16_t)len;
-            else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = (uint32_t)len;
+    cJSON* root = cJSON_ParseWithOpts(out, NULL, 1);
+    free(out);
+    return root;
+}
+
+static cJSON* json_uint(uint64_t v) {
+    char text[32];
+    snprintf(text, sizeof(text), "%" PRIu64, v);
+    return cJSON_CreateRaw(text);
+}
+
+static cJSON* json_int(int64_t v) {
+    char text[32];
+    snprintf(text, sizeof(text), "%" PRId64, v);
+    return cJSON_CreateRaw(text);
+}
+
+// JSON has no infinities and no NaN. They are written as strings, unusual NaNs with their bits.
+static cJSON* json_non_finite(bool negative, bool nan, bool plain, uint64_t bits) {
+    char text[32];
+    if (!nan) return cJSON_CreateString(negative ? "-Infinity" : "Infinity");
+    if (plain) return cJSON_CreateString("NaN");
+    snprintf(text, sizeof(text), "NaN(%" PRIX64 ")", bits);
+    return cJSON_CreateString(text);
+}
+
+static cJSON* json_f64(uint64_t bits) {
+    double v;
+    memcpy(&v, &bits, 8);
+    if (!isfinite(v)) return json_non_finite(v < 0, isnan(v) != 0, bits == 0x7FF8000000000000ULL, bits);
+    if (v == 0) return cJSON_CreateRaw((bits >> 63) ? "-0.0" : "0");
+
+    char text[40];
+    for (int digits = 15; digits <= 17; digits++) {
+        snprintf(text, sizeof(text), "%.*g", digits, v);
+        if (strtod(text, NULL) == v) break;
+    }
+    return cJSON_CreateRaw(text);
+}
+
+static cJSON* json_f32(uint32_t bits) {
+    float v;
+    memcpy(&v, &bits, 4);
+    if (!isfinite(v)) return json_non_finite(v < 0, isnan(v) != 0, bits == 0x7FC00000, bits);
+    if (v == 0) return cJSON_CreateRaw((bits >> 31) ? "-0.0" : "0");
+
+    char text[40];
+    for (int digits = 6; digits <= 9; digits++) {
+        snprintf(text, sizeof(text), "%.*g", digits, (double)v);
+        if (strtof(text, NULL) == v) break;
+    }
+    return cJSON_CreateRaw(text);
+}
+
+// The string a host gets must be whole, JSON strings end at the first NUL
+static cJSON* json_string(const char* s, size_t len) {
+    if (memchr(s, 0, len)) return NULL;
+    char* copy = malloc(len + 1);
+    if (!copy) return NULL;
+    memcpy(copy, s, len);
+    copy[len] = '\0';
+    cJSON* item = cJSON_CreateString(copy);
+    free(copy);
+    return item;
+}
+
+// Reads an integer between min (negative) and max as two's complement
+static bool json_get_int(const cJSON* item, int64_t min, uint64_t max, uint64_t* out) {
+    bool negative;
+    uint64_t magnitude;
+    const char* text = long_int_text(item);
+    if (text) {
+        negative = (*text == '-');
+        if (negative) text++;
+        magnitude = 0;
+        for (; *text; text++) {
+            uint64_t digit = (uint64_t)(*text - '0');
+            if (magnitude > (UINT64_MAX - digit) / 10) return false;
+            magnitude = magnitude * 10 + digit;
         }
-    } else { // DECODE
-        if (io->array_depth >= 31) return CND_ERR_OOB;
-        
-        cJSON* new_item;
-        if (is_hex_array) {
-            new_item = cJSON_CreateString(""); // Placeholder
-            io->in_hex_byte_array = true;
-            io->hex_str_buffer_len = 0;
-            if (io->hex_str_buffer) free(io->hex_str_buffer);
-            io->hex_str_buffer = NULL;
-            io->hex_str_buffer_capacity = 0;
-        } else {
-            new_item = cJSON_CreateArray();
+    } else if (cJSON_IsNumber(item)) {
+        double d = item->valuedouble;
+        if (d != floor(d) || fabs(d) >= 18446744073709551616.0) return false;
+        negative = d < 0;
+        magnitude = (uint64_t)fabs(d);
+    } else {
+        return false;
+    }
+    if (negative) {
+        if (magnitude > 0 - (uint64_t)min) return false;
+        *out = 0 - magnitude;
+    } else {
+        if (magnitude > max) return false;
+        *out = magnitude;
+    }
+    return true;
+}
+
+static bool json_get_nan(const cJSON* item, uint64_t exponent, uint64_t mask, uint64_t* bits) {
+    if (!cJSON_IsString(item)) return false;
+    if (strcmp(item->valuestring, "Infinity") == 0) *bits = exponent;
+    else if (strcmp(item->valuestring, "-Infinity") == 0) *bits = exponent | (mask ^ (mask >> 1));
+    else if (strcmp(item->valuestring, "NaN") == 0) *bits = exponent | ((exponent >> 1) & ~exponent);
+    else {
+        int end = 0;
+        if (sscanf(item->valuestring, "NaN(%" SCNx64 ")%n", bits, &end) != 1 || end == 0 || item->valuestring[end]) return false;
+        if (*bits > mask || (*bits & exponent) != exponent) return false;
+    }
+    return true;
+}
+
+static bool json_get_number(const cJSON* item, double* out) {
+    const char* text = long_int_text(item);
+    if (text) *out = strtod(text, NULL);
+    else if (cJSON_IsNumber(item)) *out = item->valuedouble;
+    else return false;
+    return isfinite(*out) != 0;
+}
+
+static bool json_get_f64(const cJSON* item, uint64_t* bits) {
+    double d;
+    if (json_get_nan(item, 0x7FF0000000000000ULL, UINT64_MAX, bits)) return true;
+    if (!json_get_number(item, &d)) return false;
+    memcpy(bits, &d, 8);
+    return true;
+}
+
+static bool json_get_f32(const cJSON* item, uint32_t* bits) {
+    uint64_t special;
+    double d;
+    if (json_get_nan(item, 0x7F800000, UINT32_MAX, &special)) {
+        *bits = (uint32_t)special;
+        return true;
+    }
+    if (!json_get_number(item, &d)) return false;
+    float f = (float)d;
+    if (!isfinite(f)) return false;
+    memcpy(bits, &f, 4);
+    return true;
+}
+
+// Turns a string of hex digits into an array of numbers
+static cJSON* json_hex_array(const char* hex) {
+    size_t len = strlen(hex);
+    if (len % 2 != 0 || strspn(hex, "0123456789abcdefABCDEF") != len) return NULL;
+    cJSON* array = cJSON_CreateArray();
+    for (size_t i = 0; i < len; i += 2) {
+        char digits[3] = { hex[i], hex[i + 1], 0 };
+        cJSON_AddItemToArray(array, cJSON_CreateNumber((double)strtoul(digits, NULL, 16)));
+    }
+    return array;
+}
+
+// =================================================================================================
+// Binding state
+// =================================================================================================
+
+static const char* key_full_name(const IOCtx* io, uint16_t key_id) {
+    return key_id < io->il->str_count ? io->il->string_table[key_id] : "";
+}
+
+// Helper: get the last component of a dot-separated key (e.g., "position.x" -> "x")
+static const char* get_json_key(const char* key_name) {
+    const char* dot = strrchr(key_name, '.');
+    return dot ? (dot + 1) : key_name;
+}
+
+void json_io_reset(IOCtx* io, ILFile* il, cJSON* root) {
+    int hex_mode = io->hex_mode;
+    free(io->hex_str_buffer);
+    memset(io, 0, sizeof(*io));
+    io->hex_mode = hex_mode;
+    io->il = il;
+    io->stack[0] = root;
+
+    // Constants are known from the start, the VM does not ask for them
+    instr_walk w;
+    instr_walk_init(&w, 0);
+    while (w.ip < il->bytecode_len) {
+        const uint8_t* p = il->bytecode + w.ip;
+        if (instr_walk_next(&w, il->bytecode, il->bytecode_len) != CND_ERR_OK) break;
+        if (p[0] != OP_CONST_CHECK) continue;
+
+        uint64_t value = 0;
+        size_t size = instr_int_size(p[3]);
+        for (size_t i = 0; i < size; i++) value |= (uint64_t)p[4 + i] << (8 * i);
+        if (p[3] >= OP_IO_I8 && p[3] <= OP_IO_I64 && size < 8 && (value >> (8 * size - 1))) value |= UINT64_MAX << (8 * size);
+        io->values[instr_u16(p + 1)].kind = JSON_VALUE_CONST;
+        io->values[instr_u16(p + 1)].bits = value;
+    }
+}
+
+static void set_value(IOCtx* io, uint16_t key_id, JsonValueKind kind, uint64_t bits) {
+    io->values[key_id].kind = kind;
+    io->values[key_id].bits = bits;
+}
+
+// The fields of a struct have no values yet when another instance of it begins
+static void forget_values(IOCtx* io, const char* struct_name) {
+    size_t len = strlen(struct_name);
+    for (int i = 0; i < io->il->str_count; i++) {
+        const char* name = io->il->string_table[i];
+        if (io->values[i].kind != JSON_VALUE_CONST && strncmp(name, struct_name, len) == 0 && name[len] == '.') {
+            io->values[i].kind = JSON_VALUE_NONE;
         }
-        
-        cJSON_AddItemToObject(parent, key_name, new_item);
-        
-        io->array_stack[io->array_depth] = new_item;
-        io->array_index_stack[io->array_depth] = 0;
-        io->array_start_depth[io->array_depth] = io->depth;
-        io->array_depth++;
     }
+}
+
+static bool in_array(const IOCtx* io) {
+    return io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1];
+}
+
+// The JSON value that belongs to what is encoded now: the next array element, or the named member
+static cJSON* next_item(IOCtx* io, const char* key_name) {
+    if (!in_array(io)) return cJSON_GetObjectItemCaseSensitive(io->stack[io->depth], key_name);
+    cJSON** next = &io->array_next[io->array_depth - 1];
+    cJSON* item = *next;
+    if (item) *next = item->next;
+    return item;
+}
+
+static cnd_error_t add_item(IOCtx* io, const char* key_name, cJSON* item) {
+    if (!item) return CND_ERR_CALLBACK;
+    if (in_array(io)) cJSON_AddItemToArray(io->array_stack[io->array_depth - 1], item);
+    else cJSON_AddItemToObject(io->stack[io->depth], key_name, item);
     return CND_ERR_OK;
 }
 
-static cnd_error_t handle_primitive(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, void* ptr, cJSON* item) {
+// =================================================================================================
+// JSON IO Callback
+// =================================================================================================
+
+static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, const char* key_name, void* ptr) {
+    if (io->array_depth >= JSON_MAX_ARRAYS) return CND_ERR_STACK_OVERFLOW;
+
+    // Byte arrays may be written as strings of hex digits
+    bool is_byte_array = ctx->ip < ctx->program->bytecode_len && ctx->program->bytecode[ctx->ip] == OP_IO_U8;
+    cJSON* array;
+
     if (ctx->mode == CND_MODE_ENCODE) {
-        if (!item) {
-            // Allow implicit zero/empty if not found - write only the correct size
-            switch (type) {
-                case OP_IO_U8:  case OP_IO_I8:  case OP_IO_BOOL: case OP_IO_BIT_BOOL: *(uint8_t*)ptr = 0; break;
-                case OP_IO_U16: case OP_IO_I16: *(uint16_t*)ptr = 0; break;
-                case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: *(uint32_t*)ptr = 0; break;
-                case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: case OP_IO_BIT_U: case OP_IO_BIT_I: *(uint64_t*)ptr = 0; break;
-                default: break;
-            }
-            return CND_ERR_OK;
+        array = next_item(io, key_name);
+        if (array && is_byte_array && cJSON_IsString(array)) {
+            cJSON* parent = in_array(io) ? io->array_stack[io->array_depth - 1] : io->stack[io->depth];
+            cJSON* bytes = json_hex_array(array->valuestring);
+            if (!bytes) return CND_ERR_CALLBACK;
+            if (in_array(io)) cJSON_ReplaceItemViaPointer(parent, array, bytes);
+            else cJSON_ReplaceItemInObjectCaseSensitive(parent, key_name, bytes);
+            array = bytes;
         }
-        // Extract value
+        if (array && !cJSON_IsArray(array)) return CND_ERR_CALLBACK;
+
+        // A missing array is empty, or zero if its size is given by something else
+        uint32_t len = array ? (uint32_t)cJSON_GetArraySize(array) : 0;
         switch (type) {
-            case OP_IO_U8:  *(uint8_t*)ptr  = (uint8_t)item->valueint; break;
-            case OP_IO_U16: *(uint16_t*)ptr = (uint16_t)item->valueint; break;
-            case OP_IO_U32: *(uint32_t*)ptr = (uint32_t)item->valueint; break;
-            case OP_IO_U64: *(uint64_t*)ptr = (uint64_t)item->valuedouble; break;
-            case OP_IO_I8:  *(int8_t*)ptr   = (int8_t)item->valueint; break;
-            case OP_IO_I16: *(int16_t*)ptr  = (int16_t)item->valueint; break;
-            case OP_IO_I32: *(int32_t*)ptr  = (int32_t)item->valueint; break;
-            case OP_IO_I64: *(int64_t*)ptr  = (int64_t)item->valuedouble; break;
-            case OP_IO_F32: *(float*)ptr    = (float)item->valuedouble; break;
-            case OP_IO_F64: *(double*)ptr   = (double)item->valuedouble; break;
-            case OP_IO_BIT_U: *(uint64_t*)ptr = (uint64_t)item->valueint; break;
-            case OP_IO_BIT_I: *(int64_t*)ptr  = (int64_t)item->valueint; break;
-            case OP_IO_BOOL:
-            case OP_IO_BIT_BOOL: *(uint8_t*)ptr = cJSON_IsTrue(item) ? 1 : 0; break;
-            case OP_STR_NULL: 
-            case OP_STR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_STR_PRE_U32: {
-                const char* s = cJSON_IsString(item) ? item->valuestring : "";
-                *(const char**)ptr = s;
+            case OP_ARR_PRE_U8:
+                if (len > UINT8_MAX) return CND_ERR_CALLBACK;
+                *(uint8_t*)ptr = (uint8_t)len;
                 break;
-            }
-            case OP_RAW_BYTES: {
-                // Encode Hex String to Bytes
-                if (cJSON_IsString(item)) {
-                    const char* hex = item->valuestring;
-                    size_t len = strlen(hex);
-                    uint8_t* b = (uint8_t*)ptr;
-                    for(size_t i=0; i<len/2; i++) {
-                        sscanf(hex + i*2, "%2hhX", &b[i]);
-                    }
-                }
+            case OP_ARR_PRE_U16:
+                if (len > UINT16_MAX) return CND_ERR_CALLBACK;
+                *(uint16_t*)ptr = (uint16_t)len;
                 break;
-            }
-        }
-    } else { // DECODE
-        // Special case: Hex Byte accumulation
-        if (io->in_hex_byte_array && type == OP_IO_U8) {
-            append_hex_byte(io, *(uint8_t*)ptr);
-            return CND_ERR_OK;
-        }
-
-        cJSON* val = NULL;
-        switch (type) {
-            case OP_IO_U8:  val = cJSON_CreateNumber(*(uint8_t*)ptr); break;
-            case OP_IO_U16: val = cJSON_CreateNumber(*(uint16_t*)ptr); break;
-            case OP_IO_U32: val = cJSON_CreateNumber(*(uint32_t*)ptr); break;
-            case OP_IO_U64: val = cJSON_CreateNumber((double)*(uint64_t*)ptr); break;
-            case OP_IO_I8:  val = cJSON_CreateNumber(*(int8_t*)ptr); break;
-            case OP_IO_I16: val = cJSON_CreateNumber(*(int16_t*)ptr); break;
-            case OP_IO_I32: val = cJSON_CreateNumber(*(int32_t*)ptr); break;
-            case OP_IO_I64: val = cJSON_CreateNumber((double)*(int64_t*)ptr); break;
-            case OP_IO_F32: val = cJSON_CreateNumber(*(float*)ptr); break;
-            case OP_IO_F64: val = cJSON_CreateNumber(*(double*)ptr); break;
-            case OP_IO_BIT_U: val = cJSON_CreateNumber((double)*(uint64_t*)ptr); break;
-            case OP_IO_BIT_I: val = cJSON_CreateNumber((double)*(int64_t*)ptr); break;
-            case OP_IO_BOOL: case OP_IO_BIT_BOOL: val = cJSON_CreateBool(*(uint8_t*)ptr); break;
-            case OP_STR_NULL: val = cJSON_CreateString((const char*)ptr); break;
-            case OP_STR_PRE_U8: { 
-                uint8_t len = ((uint8_t*)ptr)[-1];
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U16: {
-                uint16_t len = (ctx->endianness==CND_LE) ? (((uint8_t*)ptr)[-2]|((uint8_t*)ptr)[-1]<<8) : (((uint8_t*)ptr)[-2]<<8|((uint8_t*)ptr)[-1]);
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U32: {
-                // Simplified logic, assume little endian for temp
-                uint32_t len = 0; memcpy(&len, (uint8_t*)ptr-4, 4); 
-                // Proper:
-                uint8_t* p = (uint8_t*)ptr-4;
-                len = p[0] | p[1]<<8 | p[2]<<16 | p[3]<<24; // Assume LE for now or fix with ctx
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_RAW_BYTES: {
-                // Should ideally read count from IL.
-                // For now, ignore single RAW_BYTES in decode.
+            case OP_ARR_PRE_U32:
+            case OP_ARR_EOF:
+                *(uint32_t*)ptr = len;
+                break;
+            default:
+                if (array && len != *(uint32_t*)ptr) return CND_ERR_CALLBACK;
                 break;
-            }
         }
-        
-        if (val) {
-            // Add to parent
-            cJSON* target = NULL;
-            if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-                target = io->array_stack[io->array_depth - 1];
-                io->array_index_stack[io->array_depth - 1]++;
-                cJSON_AddItemToArray(target, val);
-            } else {
-                // We need to find the key_name for adding to object.
-                // This helper logic is tricky because `key_name` is not passed here.
-                // Caller must handle adding.
-                // Wait, I removed `key_name` argument?
-                // I need to return `val` to caller.
-                return CND_ERR_OK; // Caller adds `val`.
-            }
+        io->array_next[io->array_depth] = array ? array->child : NULL;
+    } else {
+        if (io->hex_mode && is_byte_array) {
+            array = cJSON_CreateString("");
+            io->in_hex_byte_array = true;
+            io->hex_str_buffer_len = 0;
+        } else {
+            array = cJSON_CreateArray();
         }
-        // This helper is slightly broken because `val` needs to be added.
-        // Let's fix this by adding `val` inside the caller or passing needed context.
-        // But `json_io_callback` is monolithic.
-        // I will merge `handle_primitive` back into `json_io_callback` logic flow in `json_io_callback` for simplicity in this file.
-        // See below.
+        cnd_error_t err = add_item(io, key_name, array);
+        if (err != CND_ERR_OK) return err;
     }
+
+    io->array_stack[io->array_depth] = array;
+    io->array_start_depth[io->array_depth] = io->depth;
+    io->array_depth++;
     return CND_ERR_OK;
 }
 
-// Helper: get the last component of a dot-separated key (e.g., "position.x" -> "x")
-static const char* get_json_key(const char* key_name) {
-    const char* dot = strrchr(key_name, '.');
-    return dot ? (dot + 1) : key_name;
+static cnd_error_t handle_array_end(IOCtx* io) {
+    if (io->array_depth == 0) return CND_ERR_CALLBACK;
+    io->array_depth--;
+    if (io->in_hex_byte_array) {
+        io->in_hex_byte_array = false;
+        if (io->hex_str_buffer_len > 0 && !cJSON_SetValuestring(io->array_stack[io->array_depth], io->hex_str_buffer)) return CND_ERR_CALLBACK;
+    }
+    return CND_ERR_OK;
 }
 
-cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr) {
-    IOCtx* io = (IOCtx*)ctx->user_ptr;
-    
-    // Get Key Name (full path)
-    const char* key_name_full = "";
-    if (key_id < io->il->str_count) key_name_full = io->il->string_table[key_id];
-    
-    // For JSON lookups, use only the last component (after the last dot)
-    const char* key_name = get_json_key(key_name_full);
-
-    // Get Current Context
-    cJSON* current = io->stack[io->depth];
-    
-    // Handle Structs
-    if (type == OP_ENTER_STRUCT) {
-        cJSON* item = NULL;
-        // If in array, get/create next element
-        if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-            if (ctx->mode == CND_MODE_ENCODE) {
-                item = cJSON_GetArrayItem(io->array_stack[io->array_depth - 1], io->array_index_stack[io->array_depth - 1]++);
-            } else {
-                item = cJSON_CreateObject();
-                cJSON_AddItemToArray(io->array_stack[io->array_depth - 1], item);
-                io->array_index_stack[io->array_depth - 1]++;
-            }
-        } else {
-            // In object
-            if (ctx->mode == CND_MODE_ENCODE) item = cJSON_GetObjectItem(current, key_name);
-            else {
-                item = cJSON_CreateObject();
-                cJSON_AddItemToObject(current, key_name, item);
-            }
-        }
-        
-        if (!item && ctx->mode == CND_MODE_ENCODE) return CND_ERR_CALLBACK;
-        io->stack[++io->depth] = item;
-        return CND_ERR_OK;
-    }
-    
-    if (type == OP_EXIT_STRUCT) {
-        if (io->depth > 0) io->depth--;
-        return CND_ERR_OK;
+static cnd_error_t append_hex_byte(IOCtx* io, uint8_t byte) {
+    if (io->hex_str_buffer_len + 3 > io->hex_str_buffer_capacity) {
+        size_t capacity = (io->hex_str_buffer_capacity == 0) ? 64 : io->hex_str_buffer_capacity * 2;
+        char* new_ptr = realloc(io->hex_str_buffer, capacity);
+        if (!new_ptr) return CND_ERR_CALLBACK;
+        io->hex_str_buffer = new_ptr;
+        io->hex_str_buffer_capacity = capacity;
     }
+    sprintf(io->hex_str_buffer + io->hex_str_buffer_len, "%02X", byte);
+    io->hex_str_buffer_len += 2;
+    return CND_ERR_OK;
+}
 
-    // Handle Arrays
-    if (type == OP_ARR_PRE_U8 || type == OP_ARR_PRE_U16 || type == OP_ARR_PRE_U32 || type == OP_ARR_FIXED || type == OP_RAW_BYTES || type == OP_ARR_DYNAMIC) {
-        return handle_array_start(io, ctx, type, key_name, current, ptr);
+static cnd_error_t handle_struct(IOCtx* io, cnd_vm_ctx* ctx, uint16_t key_id) {
+    if (io->depth + 1 >= JSON_MAX_DEPTH) return CND_ERR_STACK_OVERFLOW;
+
+    const char* key_name = get_json_key(key_full_name(io, key_id));
+    cJSON* item;
+    if (ctx->mode == CND_MODE_ENCODE) {
+        item = next_item(io, key_name);
+        if (!cJSON_IsObject(item)) return CND_ERR_CALLBACK;
+    } else {
+        item = cJSON_CreateObject();
+        cnd_error_t err = add_item(io, key_name, item);
+        if (err != CND_ERR_OK) return err;
     }
-    
-    if (type == OP_ARR_END) {
-        // Finalize hex string if needed
-        if (io->in_hex_byte_array && ctx->mode == CND_MODE_DECODE) {
-            cJSON* str = io->array_stack[io->array_depth - 1];
-            if (io->hex_str_buffer) {
-                cJSON_SetValuestring(str, io->hex_str_buffer);
-                free(io->hex_str_buffer); io->hex_str_buffer = NULL;
+    forget_values(io, key_full_name(io, key_id));
+    io->stack[++io->depth] = item;
+    return CND_ERR_OK;
+}
+
+// Gives the VM the value of a field for a count, a switch or an expression
+static cnd_error_t handle_query(IOCtx* io, uint16_t key_id, uint8_t type, void* ptr) {
+    uint64_t bits = io->values[key_id].bits;
+    switch (io->values[key_id].kind) {
+        case JSON_VALUE_NONE:
+            printf("JSON_BINDING: Query failed for key '%s'\n", key_full_name(io, key_id));
+            return CND_ERR_CALLBACK;
+        case JSON_VALUE_FLOAT:
+            if (type == OP_CTX_QUERY) {
+                double d;
+                memcpy(&d, &bits, 8);
+                if (!(d > -9223372036854775808.0 && d < 9223372036854775808.0)) return CND_ERR_CALLBACK;
+                bits = (uint64_t)(int64_t)d;
             }
-            io->hex_str_buffer_len = 0;
-            io->hex_str_buffer_capacity = 0;
-            io->in_hex_byte_array = false;
-        }
-        if (io->array_depth > 0) io->array_depth--;
-        return CND_ERR_OK;
+            break;
+        default:
+            break;
     }
+    *(uint64_t*)ptr = bits;
+    return CND_ERR_OK;
+}
 
-    // Handle Control Flow
-    if (type == OP_CTX_QUERY || type == OP_LOAD_CTX) {
-        cJSON* item = cJSON_GetObjectItem(current, key_name);
-        if (!item) {
-            printf("JSON_BINDING: Query failed for key '%s'\n", key_name);
-            return CND_ERR_CALLBACK;
+static cnd_error_t handle_store(IOCtx* io, cnd_vm_ctx* ctx, uint16_t key_id, const void* ptr) {
+    uint64_t bits = *(const uint64_t*)ptr;
+
+    // Computed fields are followed by their type
+    uint8_t type = OP_NOOP;
+    if (ctx->ip + 1 < ctx->program->bytecode_len && ctx->program->bytecode[ctx->ip] == OP_EMIT) type = ctx->program->bytecode[ctx->ip + 1];
+    bool is_float = (type == OP_IO_F32 || type == OP_IO_F64);
+    set_value(io, key_id, is_float ? JSON_VALUE_FLOAT : JSON_VALUE_INT, bits);
+
+    if (ctx->mode == CND_MODE_ENCODE) return CND_ERR_OK;
+
+    cJSON* val;
+    switch (type) {
+        case OP_IO_U8:  val = json_uint((uint8_t)bits); break;
+        case OP_IO_U16: val = json_uint((uint16_t)bits); break;
+        case OP_IO_U32: val = json_uint((uint32_t)bits); break;
+        case OP_IO_U64: val = json_uint(bits); break;
+        case OP_IO_I8:  val = json_int((int8_t)bits); break;
+        case OP_IO_I16: val = json_int((int16_t)bits); break;
+        case OP_IO_I32: val = json_int((int32_t)bits); break;
+        case OP_IO_BOOL: val = cJSON_CreateBool(bits != 0); break;
+        case OP_IO_F64: val = json_f64(bits); break;
+        case OP_IO_F32: {
+            double d;
+            float f;
+            uint32_t f_bits;
+            memcpy(&d, &bits, 8);
+            f = (float)d;
+            memcpy(&f_bits, &f, 4);
+            val = json_f32(f_bits);
+            break;
         }
-        if (cJSON_IsBool(item)) *(uint64_t*)ptr = cJSON_IsTrue(item) ? 1 : 0;
-        else *(uint64_t*)ptr = (uint64_t)item->valuedouble;
-        return CND_ERR_OK;
+        default: val = json_int((int64_t)bits); break;
     }
+    return add_item(io, get_json_key(key_full_name(io, key_id)), val);
+}
 
-    if (type == OP_STORE_CTX) {
-        if (ctx->mode == CND_MODE_DECODE) {
-            uint64_t val = *(uint64_t*)ptr;
-            cJSON_AddNumberToObject(current, key_name, (double)val);
-        }
-        return CND_ERR_OK;
+// Length of the string after its prefix
+static size_t prefixed_length(const cnd_vm_ctx* ctx, uint8_t type, const uint8_t* str) {
+    size_t size = (type == OP_STR_PRE_U8) ? 1 : (type == OP_STR_PRE_U16) ? 2 : 4;
+    size_t len = 0;
+    for (size_t i = 0; i < size; i++) {
+        size_t at = (ctx->endianness == CND_BE) ? i : size - 1 - i;
+        len = (len << 8) | str[(ptrdiff_t)at - (ptrdiff_t)size];
     }
+    return len;
+}
 
-    // Handle Primitives
-    cJSON* item_to_process = NULL;
-    if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-        if (ctx->mode == CND_MODE_ENCODE) {
-            item_to_process = cJSON_GetArrayItem(io->array_stack[io->array_depth - 1], io->array_index_stack[io->array_depth - 1]);
-            io->array_index_stack[io->array_depth - 1]++;
+static cnd_error_t decode_value(IOCtx* io, cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, const void* ptr) {
+    JsonValueKind kind = JSON_VALUE_INT;
+    uint64_t bits = 0;
+    cJSON* val = NULL;
+
+    if (io->in_hex_byte_array && type == OP_IO_U8) return append_hex_byte(io, *(const uint8_t*)ptr);
+
+    switch (type) {
+        case OP_IO_U8:    bits = *(const uint8_t*)ptr;  val = json_uint(bits); break;
+        case OP_IO_U16:   bits = *(const uint16_t*)ptr; val = json_uint(bits); break;
+        case OP_IO_U32:   bits = *(const uint32_t*)ptr; val = json_uint(bits); break;
+        case OP_IO_U64:
+        case OP_IO_BIT_U: bits = *(const uint64_t*)ptr; val = json_uint(bits); break;
+        case OP_IO_I8:    bits = (uint64_t)(int64_t)*(const int8_t*)ptr;  val = json_int((int64_t)bits); break;
+        case OP_IO_I16:   bits = (uint64_t)(int64_t)*(const int16_t*)ptr; val = json_int((int64_t)bits); break;
+        case OP_IO_I32:   bits = (uint64_t)(int64_t)*(const int32_t*)ptr; val = json_int((int64_t)bits); break;
+        case OP_IO_I64:
+        case OP_IO_BIT_I: bits = (uint64_t)*(const int64_t*)ptr; val = json_int((int64_t)bits); break;
+        case OP_IO_BOOL:
+        case OP_IO_BIT_BOOL: bits = *(const uint8_t*)ptr; val = cJSON_CreateBool(bits != 0); break;
+        case OP_IO_F32: {
+            double d = (double)*(const float*)ptr;
+            uint32_t f_bits;
+            memcpy(&f_bits, ptr, 4);
+            memcpy(&bits, &d, 8);
+            kind = JSON_VALUE_FLOAT;
+            val = json_f32(f_bits);
+            break;
         }
-    } else {
-        if (ctx->mode == CND_MODE_ENCODE) item_to_process = cJSON_GetObjectItem(current, key_name);
+        case OP_IO_F64:
+            memcpy(&bits, ptr, 8);
+            kind = JSON_VALUE_FLOAT;
+            val = json_f64(bits);
+            break;
+        case OP_STR_NULL:
+            kind = JSON_VALUE_NONE;
+            val = json_string(ptr, strlen(ptr));
+            break;
+        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+            kind = JSON_VALUE_NONE;
+            val = json_string(ptr, prefixed_length(ctx, type, ptr));
+            break;
+        default:
+            return CND_ERR_INVALID_OP;
     }
+    set_value(io, key_id, kind, bits);
+    return add_item(io, get_json_key(key_full_name(io, key_id)), val);
+}
 
-    // Special handling for Primitive Add (Decode) inside json_io_callback to keep it simple with `val` addition
-    if (ctx->mode == CND_MODE_DECODE) {
-        // Check Hex
-        if (io->in_hex_byte_array && type == OP_IO_U8) {
-            append_hex_byte(io, *(uint8_t*)ptr);
-            return CND_ERR_OK;
-        }
-        
-        cJSON* val = NULL;
-        #define TO_JSON(expr) val = cJSON_CreateNumber(expr)
-        switch (type) {
-            case OP_IO_U8: TO_JSON(*(uint8_t*)ptr); break;
-            case OP_IO_U16: TO_JSON(*(uint16_t*)ptr); break;
-            case OP_IO_U32: TO_JSON(*(uint32_t*)ptr); break;
-            case OP_IO_U64: TO_JSON((double)*(uint64_t*)ptr); break;
-            case OP_IO_I8: TO_JSON(*(int8_t*)ptr); break;
-            case OP_IO_I16: TO_JSON(*(int16_t*)ptr); break;
-            case OP_IO_I32: TO_JSON(*(int32_t*)ptr); break;
-            case OP_IO_I64: TO_JSON((double)*(int64_t*)ptr); break;
-            case OP_IO_F32: TO_JSON(*(float*)ptr); break;
-            case OP_IO_F64: TO_JSON(*(double*)ptr); break;
-            case OP_IO_BIT_U: TO_JSON((double)*(uint64_t*)ptr); break;
-            case OP_IO_BIT_I: TO_JSON((double)*(int64_t*)ptr); break;
-            case OP_IO_BOOL: case OP_IO_BIT_BOOL: val = cJSON_CreateBool(*(uint8_t*)ptr); break;
-            case OP_STR_NULL: val = cJSON_CreateString((const char*)ptr); break;
-            case OP_STR_PRE_U8: { 
-                uint8_t len = ((uint8_t*)ptr)[-1];
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U16: {
-                uint16_t len = (ctx->endianness==CND_LE) ? (((uint8_t*)ptr)[-2]|((uint8_t*)ptr)[-1]<<8) : (((uint8_t*)ptr)[-2]<<8|((uint8_t*)ptr)[-1]);
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U32: {
-                uint8_t* p = (uint8_t*)ptr-4;
-                uint32_t len = p[0] | p[1]<<8 | p[2]<<16 | p[3]<<24;
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_RAW_BYTES: break;
-        }
-        #undef TO_JSON
-        
-        if (val) {
-            if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-                cJSON_AddItemToArray(io->array_stack[io->array_depth - 1], val);
-                io->array_index_stack[io->array_depth - 1]++;
+static cnd_error_t encode_value(IOCtx* io, cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr) {
+    cJSON* item = next_item(io, get_json_key(key_full_name(io, key_id))); // Missing fields are zero or empty
+    JsonValueKind kind = JSON_VALUE_INT;
+    uint64_t bits = 0;
+
+    switch (type) {
+        #define INTEGER(ctype, min, max) \
+            if (item && !json_get_int(item, min, max, &bits)) return CND_ERR_CALLBACK; \
+            *(ctype*)ptr = (ctype)bits; \
+            break
+        case OP_IO_U8:  INTEGER(uint8_t, 0, UINT8_MAX);
+        case OP_IO_U16: INTEGER(uint16_t, 0, UINT16_MAX);
+        case OP_IO_U32: INTEGER(uint32_t, 0, UINT32_MAX);
+        case OP_IO_U64: INTEGER(uint64_t, 0, UINT64_MAX);
+        case OP_IO_I8:  INTEGER(int8_t, INT8_MIN, INT8_MAX);
+        case OP_IO_I16: INTEGER(int16_t, INT16_MIN, INT16_MAX);
+        case OP_IO_I32: INTEGER(int32_t, INT32_MIN, INT32_MAX);
+        case OP_IO_I64: INTEGER(int64_t, INT64_MIN, INT64_MAX);
+        case OP_IO_BIT_U:
+        case OP_IO_BIT_I: { // The width is the last operand
+            uint8_t width = ctx->program->bytecode[ctx->ip - 1];
+            if (width == 0 || width > 64) return CND_ERR_INVALID_OP;
+            if (type == OP_IO_BIT_U) {
+                INTEGER(uint64_t, 0, UINT64_MAX >> (64 - width));
             } else {
-                cJSON_AddItemToObject(current, key_name, val);
+                uint64_t max = (UINT64_MAX >> (64 - width)) >> 1;
+                INTEGER(int64_t, -(int64_t)max - 1, max);
             }
         }
-    } else {
-        // ENCODE Primitive
-        handle_primitive(io, ctx, type, ptr, item_to_process);
+        #undef INTEGER
+        case OP_IO_BOOL:
+        case OP_IO_BIT_BOOL:
+            if (cJSON_IsBool(item)) bits = cJSON_IsTrue(item) ? 1 : 0;
+            else if (item && !json_get_int(item, 0, 1, &bits)) return CND_ERR_CALLBACK;
+            *(uint8_t*)ptr = (uint8_t)bits;
+            break;
+        case OP_IO_F32: {
+            uint32_t f_bits = 0;
+            if (item && !json_get_f32(item, &f_bits)) return CND_ERR_CALLBACK;
+            memcpy(ptr, &f_bits, 4);
+            double d = (double)*(float*)ptr;
+            memcpy(&bits, &d, 8);
+            kind = JSON_VALUE_FLOAT;
+            break;
+        }
+        case OP_IO_F64:
+            if (item && !json_get_f64(item, &bits)) return CND_ERR_CALLBACK;
+            memcpy(ptr, &bits, 8);
+            kind = JSON_VALUE_FLOAT;
+            break;
+        case OP_STR_NULL:
+        case OP_STR_PRE_U8:
+        case OP_STR_PRE_U16:
+        case OP_STR_PRE_U32: {
+            if (item && (!cJSON_IsString(item) || long_int_text(item))) return CND_ERR_CALLBACK;
+            const char* s = item ? item->valuestring : "";
+            size_t max = UINT32_MAX;
+            if (type == OP_STR_NULL) max = instr_u16(ctx->program->bytecode + ctx->ip - 2); // The last operand
+            if (type == OP_STR_PRE_U8) max = UINT8_MAX;
+            if (type == OP_STR_PRE_U16) max = UINT16_MAX;
+            if (strlen(s) > max) return CND_ERR_CALLBACK;
+            *(const char**)ptr = s;
+            return CND_ERR_OK;
+        }
+        default:
+            return CND_ERR_INVALID_OP;
     }
-
+    set_value(io, key_id, kind, bits);
     return CND_ERR_OK;
 }
+
+cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr) {
+    IOCtx* io = (IOCtx*)ctx->user_ptr;
+
+    switch (type) {
+        case OP_ENTER_STRUCT:
+            return handle_struct(io, ctx, key_id);
+
+        case OP_EXIT_STRUCT:
+            if (io->depth == 0) return CND_ERR_CALLBACK;
+            io->depth--;
+            return CND_ERR_OK;
+
+        case OP_ARR_FIXED:
+        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32:
+        case OP_ARR_EOF:
+        case OP_ARR_DYNAMIC:
+            return handle_array_start(io, ctx, type, get_json_key(key_full_name(io, key_id)), ptr);
+
+        case OP_ARR_END:
+            return handle_array_end(io);
+
+        case OP_CTX_QUERY:
+        case OP_LOAD_CTX:
+            return handle_query(io, key_id, type, ptr);
+
+        case OP_STORE_CTX:
+            return handle_store(io, ctx, key_id, ptr);
+
+        case OP_RAW_BYTES:
+            return CND_ERR_INVALID_OP; // Declined, the VM goes on byte by byte then
+
+        default: {
+            if (ctx->mode == CND_MODE_DECODE) return decode_value(io, ctx, key_id, type, ptr);
+            cnd_error_t err = encode_value(io, ctx, key_id, type, ptr);
+            if (err != CND_ERR_OK) io->failed = true;
+            return err;
+        }
+    }
+}
-- 
2.43.0


From 96d33407c5c84573886fdcc1cc3f8ec6df8b21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 28/49] fix: keep inspect in step with the bytecode and inside
 the image

---
 src/cli/cmd_inspect.c | 205 +++++++++++++++++++++++++-----------------
 1 file changed, 121 insertions(+), 84 deletions(-)

diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index 94a123a..738782a 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -3,7 +3,8 @@
 #include <string.h>
 #include <stdint.h>
 #include <inttypes.h>
-#include "concordia.h"
+#include "cli_helpers.h"
+#include "../vm/vm_instr.h"
 
 // Helper to read bytes from memory safely
 static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
@@ -20,7 +21,7 @@ static uint16_t read_u16(const uint8_t** ptr, const uint8_t* end) {
 
 static uint32_t read_u32(const uint8_t** ptr, const uint8_t* end) {
     if (*ptr + 4 > end) return 0;
-    uint32_t v = (*ptr)[0] | ((*ptr)[1] << 8) | ((*ptr)[2] << 16) | ((*ptr)[3] << 24);
+    uint32_t v = (*ptr)[0] | ((*ptr)[1] << 8) | ((*ptr)[2] << 16) | ((uint32_t)(*ptr)[3] << 24);
     *ptr += 4;
     return v;
 }
@@ -42,6 +43,7 @@ static const char* get_opcode_name(uint8_t op) {
         case OP_EXIT_STRUCT: return "EXIT_STRUCT";
         case OP_META_VERSION: return "META_VERSION";
         case OP_META_NAME: return "META_NAME";
+        case OP_CTX_QUERY: return "CTX_QUERY";
         case OP_IO_U8: return "IO_U8";
         case OP_IO_U16: return "IO_U16";
         case OP_IO_U32: return "IO_U32";
@@ -88,6 +90,7 @@ static const char* get_opcode_name(uint8_t op) {
         case OP_ENUM_CHECK: return "ENUM_CHECK";
         case OP_JUMP_IF_NOT: return "JUMP_IF_NOT";
         case OP_SWITCH: return "SWITCH";
+        case OP_SWITCH_TABLE: return "SWITCH_TABLE";
         case OP_JUMP: return "JUMP";
         case OP_LOAD_CTX: return "LOAD_CTX";
         case OP_STORE_CTX: return "STORE_CTX";
@@ -141,6 +144,62 @@ static const char* get_opcode_name(uint8_t op) {
     }
 }
 
+// Prints a value of an integer type and moves behind it
+static void print_int(uint8_t type, const uint8_t** ptr, const uint8_t* end) {
+    switch (type) {
+        case OP_IO_U8:  printf("%u", read_u8(ptr, end)); break;
+        case OP_IO_U16: printf("%u", read_u16(ptr, end)); break;
+        case OP_IO_U32: printf("%" PRIu32, read_u32(ptr, end)); break;
+        case OP_IO_U64: printf("%" PRIu64, read_u64(ptr, end)); break;
+        case OP_IO_I8:  printf("%d", (int8_t)read_u8(ptr, end)); break;
+        case OP_IO_I16: printf("%d", (int16_t)read_u16(ptr, end)); break;
+        case OP_IO_I32: printf("%" PRId32, (int32_t)read_u32(ptr, end)); break;
+        case OP_IO_I64: printf("%" PRId64, (int64_t)read_u64(ptr, end)); break;
+        default: break;
+    }
+}
+
+static void print_number(uint8_t type, const uint8_t** ptr, const uint8_t* end) {
+    if (type == OP_IO_F32) {
+        uint32_t bits = read_u32(ptr, end);
+        float f;
+        memcpy(&f, &bits, 4);
+        printf("%.9g", f);
+    } else if (type == OP_IO_F64) {
+        uint64_t bits = read_u64(ptr, end);
+        double d;
+        memcpy(&d, &bits, 8);
+        printf("%.17g", d);
+    } else {
+        print_int(type, ptr, end);
+    }
+}
+
+// Prints where the switch at `ip` goes to
+static void print_table(const uint8_t* bc, size_t len, size_t ip) {
+    size_t start, end;
+    if (!instr_table(bc, len, ip, &start, &end)) return;
+
+    const uint8_t* t = bc + start;
+    size_t base = ip + 7;
+    if (bc[ip] == OP_SWITCH) {
+        uint16_t count = instr_u16(t);
+        printf(" Default=%04zX Cases=[", base + instr_u32(t + 2));
+        for (uint16_t i = 0; i < count; i++) {
+            const uint8_t* c = t + 6 + (size_t)i * 12;
+            printf("%s%" PRId64 ":%04zX", i > 0 ? ", " : "", (int64_t)instr_u64(c), base + instr_u32(c + 8));
+        }
+    } else {
+        uint64_t min = instr_u64(t);
+        uint64_t max = instr_u64(t + 8);
+        printf(" Default=%04zX Cases=[", base + instr_u32(t + 16));
+        for (uint64_t i = 0; i <= max - min; i++) {
+            printf("%s%" PRId64 ":%04zX", i > 0 ? ", " : "", (int64_t)(min + i), base + instr_u32(t + 20 + i * 4));
+        }
+    }
+    printf("]");
+}
+
 int cmd_inspect(int argc, char** argv) {
     if (argc < 3) {
         printf("Usage: cnd inspect <file.il>\n");
@@ -148,62 +207,50 @@ int cmd_inspect(int argc, char** argv) {
     }
 
     const char* path = argv[2];
-    FILE* f = fopen(path, "rb");
-    if (!f) {
+    ILFile il;
+    size_t size;
+    uint8_t* data = read_file_bytes(path, &size);
+    if (!data) {
         printf("Error opening file: %s\n", path);
         return 1;
     }
 
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    uint8_t* data = (uint8_t*)malloc(size);
-    fread(data, 1, size, f);
-    fclose(f);
-
-    printf("Inspecting: %s (%ld bytes)\n", path, size);
-
-    // Parse Header
-    if (size < 16 || memcmp(data, "CNDIL", 5) != 0) {
-        printf("Error: Invalid IL file format (Missing Magic)\n");
-        free(data);
+    printf("Inspecting: %s (%zu bytes)\n", path, size);
+    free(data);
+    if (!load_il(path, &il)) {
+        printf("Error: Invalid IL file format\n");
         return 1;
     }
 
-    uint8_t version = data[5];
-    uint16_t str_count = data[6] | (data[7] << 8);
-    uint32_t str_offset = data[8] | (data[9] << 8) | (data[10] << 16) | (data[11] << 24);
-    uint32_t bc_offset = data[12] | (data[13] << 8) | (data[14] << 16) | (data[15] << 24);
-
     printf("\n--- Header ---\n");
-    printf("Version: %d\n", version);
-    printf("String Count: %d\n", str_count);
-    printf("String Table Offset: %d\n", str_offset);
-    printf("Bytecode Offset: %d\n", bc_offset);
+    printf("Version: %d\n", il.raw_data[5]);
+    printf("String Count: %d\n", il.str_count);
+    printf("String Table Offset: %" PRIu32 "\n", instr_u32(il.raw_data + 8));
+    printf("Bytecode Offset: %" PRIu32 "\n", instr_u32(il.raw_data + 12));
 
     // Print String Table
     printf("\n--- String Table ---\n");
-    if ((long)str_offset < size) {
-        const char* ptr = (const char*)(data + str_offset);
-        for (int i = 0; i < str_count; i++) {
-            printf("[%d] %s\n", i, ptr);
-            while (*ptr) ptr++;
-            ptr++; // Skip null
-            if ((uint8_t*)ptr > data + size) break;
-        }
-    }
+    for (int i = 0; i < il.str_count; i++) printf("[%d] %s\n", i, il.string_table[i]);
 
     // Disassemble Bytecode
     printf("\n--- Bytecode ---\n");
-    if ((long)bc_offset < size) {
-        const uint8_t* ptr = data + bc_offset;
-        const uint8_t* end = data + size;
-        const uint8_t* start = ptr;
-
-        while (ptr < end) {
-            uint32_t offset = (uint32_t)(ptr - start);
+    int ret = 0;
+    {
+        const uint8_t* start = il.bytecode;
+        instr_walk walk;
+        instr_walk_init(&walk, 0);
+
+        while (walk.ip < il.bytecode_len) {
+            size_t offset = walk.ip;
+            if (instr_walk_next(&walk, start, il.bytecode_len) != CND_ERR_OK) {
+                printf("Error: Invalid instruction at %04zX\n", offset);
+                ret = 1;
+                break;
+            }
+            const uint8_t* ptr = start + offset;
+            const uint8_t* end = start + il.bytecode_len;
             uint8_t op = read_u8(&ptr, end);
-            printf("%04X: %-15s", offset, get_opcode_name(op));
+            printf("%04zX: %-15s", offset, get_opcode_name(op));
 
             switch (op) {
                 case OP_META_VERSION: {
@@ -250,6 +297,7 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_ARR_PRE_U8:
                 case OP_ARR_PRE_U16:
                 case OP_ARR_PRE_U32:
+                case OP_ARR_EOF:
                     printf(" KeyID=%d", read_u16(&ptr, end));
                     break;
 
@@ -271,7 +319,7 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_ARR_FIXED: {
                     uint16_t k = read_u16(&ptr, end);
                     uint32_t c = read_u32(&ptr, end);
-                    printf(" KeyID=%d Count=%d", k, c);
+                    printf(" KeyID=%d Count=%" PRIu32, k, c);
                     break;
                 }
 
@@ -285,17 +333,14 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_RAW_BYTES: {
                     uint16_t k = read_u16(&ptr, end);
                     uint32_t c = read_u32(&ptr, end);
-                    printf(" KeyID=%d Count=%d", k, c);
+                    printf(" KeyID=%d Count=%" PRIu32, k, c);
                     break;
                 }
 
                 case OP_CONST_WRITE: {
                     uint8_t type = read_u8(&ptr, end);
                     printf(" Type=%s Val=", get_opcode_name(type));
-                    if (type == OP_IO_U8) printf("%u", read_u8(&ptr, end));
-                    else if (type == OP_IO_U16) printf("%u", read_u16(&ptr, end));
-                    else if (type == OP_IO_U32) printf("%u", read_u32(&ptr, end));
-                    else if (type == OP_IO_U64) printf("%" PRIu64, read_u64(&ptr, end));
+                    print_int(type, &ptr, end);
                     break;
                 }
 
@@ -303,26 +348,17 @@ int cmd_inspect(int argc, char** argv) {
                     uint16_t key = read_u16(&ptr, end);
                     uint8_t type = read_u8(&ptr, end);
                     printf(" KeyID=%d Type=%s Val=", key, get_opcode_name(type));
-                    if (type == OP_IO_U8 || type == OP_IO_I8) printf("%u", read_u8(&ptr, end));
-                    else if (type == OP_IO_U16 || type == OP_IO_I16) printf("%u", read_u16(&ptr, end));
-                    else if (type == OP_IO_U32 || type == OP_IO_I32) printf("%u", read_u32(&ptr, end));
-                    else if (type == OP_IO_U64 || type == OP_IO_I64) printf("%" PRIu64, read_u64(&ptr, end));
+                    print_int(type, &ptr, end);
                     break;
                 }
 
                 case OP_RANGE_CHECK: {
                     uint8_t type = read_u8(&ptr, end);
                     printf(" Type=%s Range=[", get_opcode_name(type));
-                    if (type == OP_IO_U8) { printf("%u, %u]", read_u8(&ptr, end), read_u8(&ptr, end)); }
-                    else if (type == OP_IO_I8) { printf("%d, %d]", (int8_t)read_u8(&ptr, end), (int8_t)read_u8(&ptr, end)); }
-                    else if (type == OP_IO_U16) { printf("%u, %u]", read_u16(&ptr, end), read_u16(&ptr, end)); }
-                    else if (type == OP_IO_I16) { printf("%d, %d]", (int16_t)read_u16(&ptr, end), (int16_t)read_u16(&ptr, end)); }
-                    else if (type == OP_IO_U32) { printf("%u, %u]", read_u32(&ptr, end), read_u32(&ptr, end)); }
-                    else if (type == OP_IO_I32) { printf("%d, %d]", (int32_t)read_u32(&ptr, end), (int32_t)read_u32(&ptr, end)); }
-                    else if (type == OP_IO_U64) { printf("%" PRIu64 ", %" PRIu64 "]", read_u64(&ptr, end), read_u64(&ptr, end)); }
-                    else if (type == OP_IO_I64) { printf("%" PRId64 ", %" PRId64 "]", (int64_t)read_u64(&ptr, end), (int64_t)read_u64(&ptr, end)); }
-                    else if (type == OP_IO_F32) { printf("F32 Range"); ptr += 8; }
-                    else if (type == OP_IO_F64) { printf("F64 Range"); ptr += 16; }
+                    print_number(type, &ptr, end);
+                    printf(", ");
+                    print_number(type, &ptr, end);
+                    printf("]");
                     break;
                 }
 
@@ -332,7 +368,7 @@ int cmd_inspect(int argc, char** argv) {
                     double fac_val, o;
                     memcpy(&fac_val, &fac, 8);
                     memcpy(&o, &off, 8);
-                    printf(" Factor=%f Offset=%f", fac_val, o);
+                    printf(" Factor=%.17g Offset=%.17g", fac_val, o);
                     break;
                 }
 
@@ -350,7 +386,7 @@ int cmd_inspect(int argc, char** argv) {
                         uint64_t tmp = read_u64(&ptr, end);
                         double val;
                         memcpy(&val, &tmp, 8);
-                        printf("%f%s", val, i == count - 1 ? "" : ", ");
+                        printf("%.17g%s", val, i == count - 1 ? "" : ", ");
                     }
                     printf("]");
                     break;
@@ -365,21 +401,27 @@ int cmd_inspect(int argc, char** argv) {
                         double x, y;
                         memcpy(&x, &tmp_x, 8);
                         memcpy(&y, &tmp_y, 8);
-                        printf("(%f, %f)%s", x, y, i == count - 1 ? "" : ", ");
+                        printf("(%.17g, %.17g)%s", x, y, i == count - 1 ? "" : ", ");
                     }
                     printf("]");
                     break;
                 }
 
-                case OP_CRC_16:
-                    printf(" Poly=0x%04X Init=0x%04X Xor=0x%04X Flags=%d", 
-                        read_u16(&ptr, end), read_u16(&ptr, end), read_u16(&ptr, end), read_u8(&ptr, end));
+                case OP_CRC_16: {
+                    uint16_t poly = read_u16(&ptr, end);
+                    uint16_t init = read_u16(&ptr, end);
+                    uint16_t xor_out = read_u16(&ptr, end);
+                    printf(" Poly=0x%04X Init=0x%04X Xor=0x%04X Flags=%d", poly, init, xor_out, read_u8(&ptr, end));
                     break;
+                }
 
-                case OP_CRC_32:
-                    printf(" Poly=0x%08X Init=0x%08X Xor=0x%08X Flags=%d", 
-                        read_u32(&ptr, end), read_u32(&ptr, end), read_u32(&ptr, end), read_u8(&ptr, end));
+                case OP_CRC_32: {
+                    uint32_t poly = read_u32(&ptr, end);
+                    uint32_t init = read_u32(&ptr, end);
+                    uint32_t xor_out = read_u32(&ptr, end);
+                    printf(" Poly=0x%08" PRIX32 " Init=0x%08" PRIX32 " Xor=0x%08" PRIX32 " Flags=%d", poly, init, xor_out, read_u8(&ptr, end));
                     break;
+                }
 
                 case OP_ENUM_CHECK: {
                     uint8_t type = read_u8(&ptr, end);
@@ -387,23 +429,18 @@ int cmd_inspect(int argc, char** argv) {
                     printf(" Type=%s Count=%d Values=[", get_opcode_name(type), count);
                     for(int i=0; i<count; i++) {
                         if (i > 0) printf(", ");
-                        if (type == OP_IO_U8) printf("%u", read_u8(&ptr, end));
-                        else if (type == OP_IO_U16) printf("%u", read_u16(&ptr, end));
-                        else if (type == OP_IO_U32) printf("%u", read_u32(&ptr, end));
-                        else if (type == OP_IO_U64) printf("%" PRIu64, read_u64(&ptr, end));
-                        else if (type == OP_IO_I8) printf("%d", (int8_t)read_u8(&ptr, end));
-                        else if (type == OP_IO_I16) printf("%d", (int16_t)read_u16(&ptr, end));
-                        else if (type == OP_IO_I32) printf("%d", (int32_t)read_u32(&ptr, end));
-                        else if (type == OP_IO_I64) printf("%" PRId64, (int64_t)read_u64(&ptr, end));
+                        print_int(type, &ptr, end);
                     }
                     printf("]");
                     break;
                 }
 
-                case OP_SWITCH: {
+                case OP_SWITCH:
+                case OP_SWITCH_TABLE: {
                     uint16_t k = read_u16(&ptr, end);
                     uint32_t t = read_u32(&ptr, end);
-                    printf(" KeyID=%d TableOff=%u", k, t);
+                    printf(" KeyID=%d TableOff=%" PRIu32, k, t);
+                    print_table(start, il.bytecode_len, offset);
                     break;
                 }
 
@@ -452,6 +489,6 @@ int cmd_inspect(int argc, char** argv) {
         }
     }
 
-    free(data);
-    return 0;
+    free_il(&il);
+    return ret;
 }
-- 
2.43.0


From 9f036f012b833208e9534b9a10e3a0abcc292074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 29/49] fix: let @optional on a computed field mean this field
 and no later one

---
 src/vm/vm_exec.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5c17845..7ab7002 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1759,7 +1759,10 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     else if (type == OP_IO_U64 || type == OP_IO_I64 || type == OP_IO_F64) size = 8;
                     else return CND_ERR_INVALID_OP;
                     
-                    if (ctx->cursor + size > ctx->data_len) return CND_ERR_OOB;
+                    if (ctx->cursor + size > ctx->data_len) {
+                        if (optional_missing(ctx)) break; // The host has the computed value already
+                        return CND_ERR_OOB;
+                    }
                     
                     uint64_t bin_val = 0;
                     if (size == 1) bin_val = read_u8(ctx->data_buffer + ctx->cursor);
@@ -1789,6 +1792,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     ctx->cursor += size;
                 }
+                ctx->is_next_optional = false;
                 break;
             }
 
-- 
2.43.0


From a7a11ab7ecf557bae20b644123cc785f1d0ca354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:33 +0000
Subject: [PATCH 30/49] fix: start the table driven CRC-32 from the reflected
 initial value

---
 src/vm/vm_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 7ab7002..3e88485 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -641,7 +641,7 @@ static const uint32_t crc32_table[256] = {
 static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_t init, uint32_t xorout, uint8_t flags, int width) {
     // Fast path for Standard CRC32 (Poly 0x04C11DB7, RefIn=1, RefOut=1)
     if (width == 32 && poly == 0x04C11DB7 && (flags & 1) && (flags & 2)) {
-        uint32_t crc = init;
+        uint32_t crc = reflect(init, 32); // The table works on the reflected register
         for (size_t i = 0; i < len; i++) {
             crc = (crc >> 8) ^ crc32_table[(crc ^ data[i]) & 0xFF];
         }
-- 
2.43.0


From 5c2407e12b769807eb83fc528d175b241bb89d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:27 +0000
Subject: [PATCH 31/49] fix: reject programs whose code runs into a switch
 table

---
 src/vm/vm_verify.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/vm_verify.c b/src/vm/vm_verify.c
index 0adbcef..5fbd064 100644
--- a/src/vm/vm_verify.c
+++ b/src/vm/vm_verify.c
@@ -35,6 +35,10 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
         cnd_error_t err = instr_walk_next(&w, bc, len);
         if (err != CND_ERR_OK) return err;
 
+        // Only code that jumps away may stand right in front of a table
+        if (opcode != OP_JUMP && opcode != OP_SWITCH && opcode != OP_SWITCH_TABLE &&
+            w.ip != ip + instr_length(bc, len, ip)) return CND_ERR_VALIDATION;
+
         if (opcode == OP_JUMP || opcode == OP_JUMP_IF_NOT) {
             int32_t offset = (int32_t)instr_u32(bc + ip + 1);
             if (!is_jump_target(&w, bc, len, (int64_t)ip + 5 + offset)) return CND_ERR_OOB;
-- 
2.43.0


From a3bc5b9624c35572dc5f79c3fa5c181f3ebff355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:38 +0000
Subject: [PATCH 32/49] fix: reject a struct or enum named like the packet
 above it

---
 src/compiler/cnd_internal.h |  1 +
 src/compiler/cnd_parser.c   | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index b42b8e5..36b2451 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -258,6 +258,7 @@ typedef struct {
     int silent;      // Flag to suppress all output (for LSP)
     int verbose;     // Flag for verbose debug output
     int packet_count; // Track number of packets defined
+    const char* packet_name; // Name of the packet once it is parsed
     int import_depth; // Track recursion depth of imports
     int depth;        // Track recursion depth of expressions and blocks
     
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index f9a4406..d0958dd 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1531,6 +1531,12 @@ void parse_block(Parser* p) {
     p->depth--;
 }
 
+// Whether the packet, if there is one already, has this name
+static int is_packet_name(const Parser* p, Token name) {
+    if (!p->packet_name) return 0;
+    return strlen(p->packet_name) == (size_t)name.length && memcmp(p->packet_name, name.start, name.length) == 0;
+}
+
 void parse_enum(Parser* p, const char* doc) {
     Token name = p->current; consume(p, TOK_IDENTIFIER, "Expect enum name");
     
@@ -1541,6 +1547,9 @@ void parse_enum(Parser* p, const char* doc) {
     if (reg_find(&p->registry, name.start, name.length)) {
         parser_error(p, "Name collision with Struct");
     }
+    if (is_packet_name(p, name)) {
+        parser_error(p, "Name collision with Packet");
+    }
 
     if (p->verbose) printf("[VERBOSE] Parsing enum '%.*s'\n", name.length, name.start);
     EnumDef* def = enum_reg_add(&p->enums, name.start, name.length, name.line, p->current_path, doc);
@@ -1647,6 +1656,9 @@ void parse_struct(Parser* p, const char* doc) {
     if (enum_reg_find(&p->enums, name.start, name.length)) {
         parser_error(p, "Name collision with Enum");
     }
+    if (is_packet_name(p, name)) {
+        parser_error(p, "Name collision with Packet");
+    }
 
     if (p->verbose) printf("[VERBOSE] Parsing struct '%.*s'\n", name.length, name.start);
     StructDef* def = reg_add(&p->registry, name.start, name.length, name.line, p->current_path, doc);
@@ -1758,6 +1770,7 @@ void parse_packet(Parser* p, const char* doc) {
     
     // Patch the key
     buf_write_u16_at(p->target, meta_loc + 1, key_id);
+    p->packet_name = p->strtab.strings[key_id];
 }
 
 // Helper to resolve path relative to base
-- 
2.43.0


From 7ea19a21001758549a21a91860203d7fbab3c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:58 +0000
Subject: [PATCH 33/49] fix: accept a doc comment behind an import or a
 top-level decorator

---
 src/compiler/cnd_parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index d0958dd..787ce9d 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1905,6 +1905,8 @@ void parse_top_level(Parser* p) {
             }
         }
 
+        if (p->current.type == TOK_DOC_COMMENT) continue; // Between the decorators and what they apply to
+
         char* doc_str = doc_sb.length > 0 ? sb_build(&doc_sb) : NULL;
 
         if (p->pending_unaligned && p->current.type != TOK_STRUCT) {
@@ -1936,6 +1938,9 @@ void parse_top_level(Parser* p) {
     }
     sb_free(&doc_sb);
 
+    if (p->pending_unaligned && !p->had_error) {
+        parser_error(p, "unaligned_bytes only applies to structs");
+    }
     if (p->packet_count == 0 && p->import_depth == 0) {
         parser_error(p, "No packet definition found. A .cnd file must contain exactly one 'packet Name { ... }' block.");
     }
-- 
2.43.0


From 0252bda61f64f5d7fc52cdba23cb3c2ef4f12368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:37 +0000
Subject: [PATCH 34/49] fix: leave the end of an unterminated string or comment
 alone when formatting

---
 src/compiler/cnd_fmt.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index c03a4f7..cb8d7f7 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -146,6 +146,13 @@ static void sb_indent(StringBuilder* sb, int level) {
     for (int i = 0; i < level; i++) sb_append(sb, "    ");
 }
 
+// A string or block comment that reaches to the end of the source
+static int fmt_is_open(FmtToken t) {
+    if (t.type == FMT_STRING) return t.length < 2 || t.start[t.length - 1] != '"';
+    if (t.type == FMT_BLOCK_COMMENT) return t.length < 4 || memcmp(t.start + t.length - 2, "*/", 2) != 0;
+    return 0;
+}
+
 char* cnd_format_source(const char* source) {
     FmtLexer lexer;
     fmt_init(&lexer, source);
@@ -223,7 +230,7 @@ char* cnd_format_source(const char* source) {
         prev = t;
     }
     
-    sb_append(&out, "\n");
+    if (!fmt_is_open(prev)) sb_append(&out, "\n"); // Otherwise it would become part of the token
     char* result = sb_build(&out);
     sb_free(&out);
     return result;
-- 
2.43.0


From ad25e88b320ef4573c1d8e8cc288847fa8e68eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 35/49] fix: OP_CONST_WRITE wrote into the data while decoding

---
 src/vm/vm_exec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 3e88485..c3b0ad4 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -918,6 +918,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 if (ctx->cursor + size > ctx->data_len) return CND_ERR_OOB;
                 
+                // Decoding passes over the bytes: the data is the caller's and is only read
+                if (ctx->mode != CND_MODE_ENCODE) { ctx->cursor += size; break; }
+                
                 if (size == 1) write_u8(ctx->data_buffer + ctx->cursor, (uint8_t)val);
                 else if (size == 2) write_u16(ctx->data_buffer + ctx->cursor, (uint16_t)val, ctx->endianness);
                 else if (size == 4) write_u32(ctx->data_buffer + ctx->cursor, (uint32_t)val, ctx->endianness);
-- 
2.43.0


From 73a4eb3e77f52c9218f458173008f7c6c1396ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:35 +0000
Subject: [PATCH 36/49] fix: reject JSON texts with an escaped NUL instead of
 cutting the string there

---
 src/cli/json_binding.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index d07eb86..4a1bc80 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -32,6 +32,10 @@ cJSON* json_parse(const char* text) {
     for (size_t i = 0; i < len; ) {
         char c = text[i];
         if (in_string) {
+            if (strncmp(text + i, "\\u0000", 6) == 0) { // cJSON would end the string there
+                free(out);
+                return NULL;
+            }
             if (c == '\\' && i + 1 < len) out[o++] = text[i++];
             else if (c == '"') in_string = false;
             out[o++] = text[i++];
-- 
2.43.0


From 0b3ad9894ed8075ba2df0844d9fc8b7ab51fd757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:45 +0000
Subject: [PATCH 37/49] fix: answer malformed and unknown language server
 requests instead of crashing or stopping

---
 src/cli/cmd_lsp.c | 353 +++++++++++++++++++++++++++++++---------------
 1 file changed, 236 insertions(+), 117 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index a9d1454..22f460d 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -67,43 +67,119 @@ static void send_json(cJSON* json) {
     free(str);
 }
 
-static cJSON* read_json(void) {
-    // Read header: "Content-Length: <N>\r\n\r\n"
+// Reads a header line of any length. Returns 0 at the end of the input.
+static int read_header_line(StringBuilder* line) {
+    int c;
+    sb_reset(line);
+    while ((c = getc(stdin)) != EOF && c != '\n') sb_append_c(line, (char)c);
+    if (line->length > 0 && line->data[line->length - 1] == '\r') line->data[--line->length] = '\0';
+    return c != EOF;
+}
+
+// Returns 0 if the header line is not a Content-Length with a number
+static int parse_content_length(const char* line, size_t* content_len) {
+    const char* name = "content-length:";
+    while (*name) {
+        if (tolower((unsigned char)*line++) != *name++) return 0;
+    }
+    while (*line == ' ' || *line == '\t') line++;
+    if (!is_digit_c(*line)) return 0;
+    size_t value = 0;
+    for (; is_digit_c(*line); line++) {
+        if (value > (SIZE_MAX - 9) / 10) return 0;
+        value = value * 10 + (size_t)(*line - '0');
+    }
+    while (*line == ' ' || *line == '\t') line++;
+    if (*line) return 0;
+    *content_len = value;
+    return 1;
+}
+
+// Reads the next message: header lines, an empty line, content.
+// *json is NULL if it is not a JSON text. Returns 0 at the end of the input.
+static int read_json(cJSON** json) {
     size_t content_len = 0;
-    while (1) {
-        char line[1024];
-        // fgets reads until newline. In binary mode, \r\n is preserved.
-        if (!fgets(line, sizeof(line), stdin)) return NULL;
-        
-        if (strncmp(line, "Content-Length: ", 16) == 0) {
-            content_len = atoi(line + 16);
-        } else if (strcmp(line, "\r\n") == 0 || strcmp(line, "\n") == 0) { 
-            // Handle both \r\n and \n just in case, though spec says \r\n
-            break; // End of headers
+    StringBuilder text;
+    sb_init(&text);
+    *json = NULL;
+
+    for (;;) {
+        if (!read_header_line(&text)) {
+            sb_free(&text);
+            return 0;
         }
+        if (text.length == 0) break; // End of headers
+        parse_content_length(text.data, &content_len);
     }
-    
-    if (content_len == 0) return NULL;
-    
-    char* buf = malloc(content_len + 1);
-    if (!buf) return NULL;
-    size_t read_len = fread(buf, 1, content_len, stdin);
-    buf[read_len] = 0;
-    
-    cJSON* json = cJSON_Parse(buf);
-    free(buf);
-    return json;
+
+    sb_reset(&text);
+    while (text.length < content_len) {
+        char chunk[4096];
+        size_t want = content_len - text.length;
+        size_t n = fread(chunk, 1, want < sizeof(chunk) ? want : sizeof(chunk), stdin);
+        if (n == 0) {
+            sb_free(&text);
+            return 0;
+        }
+        sb_append_n(&text, chunk, n);
+    }
+
+    if (strlen(text.data) == text.length) *json = cJSON_ParseWithOpts(text.data, NULL, 1);
+    sb_free(&text);
+    return 1;
 }
 
-static void send_response(cJSON* id, cJSON* result) {
+static cJSON* create_response(cJSON* id) {
     cJSON* res = cJSON_CreateObject();
     cJSON_AddStringToObject(res, "jsonrpc", "2.0");
-    if (id) cJSON_AddItemToObject(res, "id", cJSON_Duplicate(id, 1));
+    cJSON_AddItemToObject(res, "id", id ? cJSON_Duplicate(id, 1) : cJSON_CreateNull());
+    return res;
+}
+
+static void send_response(cJSON* id, cJSON* result) {
+    cJSON* res = create_response(id);
     cJSON_AddItemToObject(res, "result", result);
     send_json(res);
     cJSON_Delete(res);
 }
 
+#define RPC_PARSE_ERROR      (-32700)
+#define RPC_INVALID_REQUEST  (-32600)
+#define RPC_METHOD_NOT_FOUND (-32601)
+#define RPC_INVALID_PARAMS   (-32602)
+
+static void send_error(cJSON* id, int code, const char* message) {
+    cJSON* res = create_response(id);
+    cJSON* error = cJSON_CreateObject();
+    cJSON_AddNumberToObject(error, "code", code);
+    cJSON_AddStringToObject(error, "message", message);
+    cJSON_AddItemToObject(res, "error", error);
+    send_json(res);
+    cJSON_Delete(res);
+}
+
+// --- Parameters ---
+
+static cJSON* get_member(const cJSON* object, const char* name) {
+    return cJSON_GetObjectItemCaseSensitive(object, name);
+}
+
+// URI of the document the message is about, NULL if it names none
+static const char* get_uri(const cJSON* params) {
+    return cJSON_GetStringValue(get_member(get_member(params, "textDocument"), "uri"));
+}
+
+// Returns 0 if the message has no valid position
+static int get_position(const cJSON* params, int* line, int* character) {
+    const cJSON* pos = get_member(params, "position");
+    const cJSON* l = get_member(pos, "line");
+    const cJSON* c = get_member(pos, "character");
+    if (!cJSON_IsNumber(l) || !cJSON_IsNumber(c)) return 0;
+    *line = l->valueint;
+    *character = c->valueint;
+    return *line >= 0 && *character >= 0;
+}
+
 // --- Document Store ---
 typedef struct {
     char* uri;
@@ -489,14 +565,15 @@ static void skip_instruction(const uint8_t** ptr, const uint8_t* end, uint8_t op
 }
 
 static void handle_completion(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
+    const char* uri = get_uri(params);
+    int line, character;
+    if (!uri || !get_position(params, &line, &character)) {
+        send_error(id, RPC_INVALID_PARAMS, "Expect a document and a position");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = doc_get(uri_item->valuestring);
+    char* path = file_uri_to_path(uri);
+    char* source = doc_get(uri);
     if (!source) source = read_file_text(path);
 
     if (!source) {
@@ -769,10 +846,13 @@ static void handle_completion(cJSON* id, cJSON* params) {
 }
 
 static void handle_formatting(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
+    const char* uri = get_uri(params);
+    if (!uri) {
+        send_error(id, RPC_INVALID_PARAMS, "Expect a document");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
+    char* path = file_uri_to_path(uri);
     char* source = read_file_text(path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -805,10 +885,13 @@ static void handle_formatting(cJSON* id, cJSON* params) {
 }
 
 static void handle_document_symbol(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
+    const char* uri = get_uri(params);
+    if (!uri) {
+        send_error(id, RPC_INVALID_PARAMS, "Expect a document");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
+    char* path = file_uri_to_path(uri);
     char* source = read_file_text(path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -837,7 +920,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
         cJSON_AddNumberToObject(sym, "kind", 23); // Struct
         
         cJSON* loc = cJSON_CreateObject();
-        cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+        cJSON_AddStringToObject(loc, "uri", uri);
         cJSON* range = cJSON_CreateObject();
         cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p.registry.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
         cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p.registry.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
@@ -855,7 +938,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
         cJSON_AddNumberToObject(sym, "kind", 10); // Enum
         
         cJSON* loc = cJSON_CreateObject();
-        cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+        cJSON_AddStringToObject(loc, "uri", uri);
         cJSON* range = cJSON_CreateObject();
         cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p.enums.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
         cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p.enums.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
@@ -938,49 +1021,44 @@ static void publish_diagnostics(const char* uri, const char* source) {
 }
 
 static void handle_didOpen(cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    cJSON* text = cJSON_GetObjectItem(doc, "text");
-    if (uri && text && uri->valuestring && text->valuestring) {
-        doc_update(uri->valuestring, text->valuestring);
-        publish_diagnostics(uri->valuestring, text->valuestring);
+    const char* uri = get_uri(params);
+    const char* text = cJSON_GetStringValue(get_member(get_member(params, "textDocument"), "text"));
+    if (uri && text) {
+        doc_update(uri, text);
+        publish_diagnostics(uri, text);
     }
 }
 
 static void handle_didChange(cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    cJSON* changes = cJSON_GetObjectItem(params, "contentChanges");
-    if (uri && changes && cJSON_GetArraySize(changes) > 0) {
+    const char* uri = get_uri(params);
+    cJSON* changes = get_member(params, "contentChanges");
+    if (uri && cJSON_IsArray(changes) && cJSON_GetArraySize(changes) > 0) {
         // Full sync: last change has full text
         cJSON* lastChange = cJSON_GetArrayItem(changes, cJSON_GetArraySize(changes) - 1);
-        cJSON* text = cJSON_GetObjectItem(lastChange, "text");
-        if (text && text->valuestring) {
-            doc_update(uri->valuestring, text->valuestring);
-            publish_diagnostics(uri->valuestring, text->valuestring);
+        const char* text = cJSON_GetStringValue(get_member(lastChange, "text"));
+        if (text) {
+            doc_update(uri, text);
+            publish_diagnostics(uri, text);
         }
     }
 }
 
 static void handle_didSave(cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    if (uri && uri->valuestring) {
+    const char* uri = get_uri(params);
+    if (uri) {
         // We need source content. If it's a save, we can read from disk.
-        char* path = file_uri_to_path(uri->valuestring);
+        char* path = file_uri_to_path(uri);
         char* source = read_file_text(path);
         if (source) {
-            publish_diagnostics(uri->valuestring, source);
+            publish_diagnostics(uri, source);
             free(source);
         }
         free(path);
     }
 }
 
-static void handle_initialize(cJSON* id) {
+static void handle_initialize(cJSON* id, cJSON* params) {
+    (void)params;
     cJSON* res = cJSON_CreateObject();
     cJSON* cap = cJSON_CreateObject();
     cJSON_AddBoolToObject(cap, "definitionProvider", 1);
@@ -990,7 +1068,8 @@ static void handle_initialize(cJSON* id) {
     
     cJSON* comp = cJSON_CreateObject();
     cJSON_AddBoolToObject(comp, "resolveProvider", 0);
-    cJSON_AddStringToObject(comp, "triggerCharacters", "."); 
+    const char* triggers[] = { "." };
+    cJSON_AddItemToObject(comp, "triggerCharacters", cJSON_CreateStringArray(triggers, 1));
     cJSON_AddItemToObject(cap, "completionProvider", comp);
     
     // Advertise text document sync (1 = Full)
@@ -1001,16 +1080,17 @@ static void handle_initialize(cJSON* id) {
 }
 
 static void handle_definition(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
+    const char* uri = get_uri(params);
+    int line, character;
+    if (!uri || !get_position(params, &line, &character)) {
+        send_error(id, RPC_INVALID_PARAMS, "Expect a document and a position");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
+    char* path = file_uri_to_path(uri);
     
     // Read file content
-    char* source = doc_get(uri_item->valuestring);
+    char* source = doc_get(uri);
     if (!source) source = read_file_text(path);
 
     if (!source) {
@@ -1032,19 +1112,19 @@ static void handle_definition(cJSON* id, cJSON* params) {
             // VS Code expects file:///...
             // If def_file is "import_a.cnd" (relative), and we opened "import_b.cnd" at "/abs/path/to/import_b.cnd",
             // the resolve_path in parser made it absolute. So res.def_file should be absolute.
-            char uri[1024];
+            char def_uri[1024];
             // Windows path handling
             if (res.def_file[1] == ':') {
-                snprintf(uri, sizeof(uri), "file:///%s", res.def_file);
+                snprintf(def_uri, sizeof(def_uri), "file:///%s", res.def_file);
             } else {
-                snprintf(uri, sizeof(uri), "file://%s", res.def_file);
+                snprintf(def_uri, sizeof(def_uri), "file://%s", res.def_file);
             }
             // Normalize backslashes to slashes for URI
-            for(int i=0; uri[i]; i++) if(uri[i] == '\\') uri[i] = '/';
+            for(int i=0; def_uri[i]; i++) if(def_uri[i] == '\\') def_uri[i] = '/';
             
-            cJSON_AddStringToObject(loc, "uri", uri);
+            cJSON_AddStringToObject(loc, "uri", def_uri);
         } else {
-            cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+            cJSON_AddStringToObject(loc, "uri", uri);
         }
 
         cJSON* range = cJSON_CreateObject();
@@ -1073,14 +1153,15 @@ static void handle_definition(cJSON* id, cJSON* params) {
 
 static void handle_hover(cJSON* id, cJSON* params) {
     // Similar to definition, but returns markdown
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
+    const char* uri = get_uri(params);
+    int line, character;
+    if (!uri || !get_position(params, &line, &character)) {
+        send_error(id, RPC_INVALID_PARAMS, "Expect a document and a position");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = doc_get(uri_item->valuestring);
+    char* path = file_uri_to_path(uri);
+    char* source = doc_get(uri);
     if (!source) source = read_file_text(path);
 
     if (!source) {
@@ -1127,6 +1208,56 @@ static void handle_hover(cJSON* id, cJSON* params) {
     free(path);
 }
 
+static void handle_shutdown(cJSON* id, cJSON* params) {
+    (void)params;
+    send_response(id, cJSON_CreateNull());
+}
+
+typedef struct {
+    const char* method;
+    void (*handle)(cJSON* id, cJSON* params);
+} RequestHandler;
+
+static const RequestHandler REQUESTS[] = {
+    {"initialize", handle_initialize},
+    {"textDocument/definition", handle_definition},
+    {"textDocument/hover", handle_hover},
+    {"textDocument/completion", handle_completion},
+    {"textDocument/formatting", handle_formatting},
+    {"textDocument/documentSymbol", handle_document_symbol},
+    {"shutdown", handle_shutdown},
+    {NULL, NULL}
+};
+
+typedef struct {
+    const char* method;
+    void (*handle)(cJSON* params);
+} NotificationHandler;
+
+static const NotificationHandler NOTIFICATIONS[] = {
+    {"textDocument/didOpen", handle_didOpen},
+    {"textDocument/didChange", handle_didChange},
+    {"textDocument/didSave", handle_didSave},
+    {NULL, NULL}
+};
+
+// A message with an id is a request and gets a response, one without is a notification
+static void handle_message(cJSON* id, const char* method, cJSON* params) {
+    if (id) {
+        for (int i = 0; REQUESTS[i].method; i++) {
+            if (strcmp(method, REQUESTS[i].method) == 0) {
+                REQUESTS[i].handle(id, params);
+                return;
+            }
+        }
+        send_error(id, RPC_METHOD_NOT_FOUND, "Method not found");
+    } else {
+        for (int i = 0; NOTIFICATIONS[i].method; i++) {
+            if (strcmp(method, NOTIFICATIONS[i].method) == 0) NOTIFICATIONS[i].handle(params);
+        }
+    }
+}
+
 int cmd_lsp(int argc, char** argv) {
     (void)argc; (void)argv;
 #ifdef _WIN32
@@ -1135,41 +1266,29 @@ int cmd_lsp(int argc, char** argv) {
 #endif
 
     // Standard LSP loop
-    while (1) {
-        cJSON* req = read_json();
-        if (!req) break;
-        
-        cJSON* id = cJSON_GetObjectItem(req, "id");
-        cJSON* method = cJSON_GetObjectItem(req, "method");
-        cJSON* params = cJSON_GetObjectItem(req, "params");
-        
-        if (method && method->valuestring) {
-            if (strcmp(method->valuestring, "initialize") == 0) {
-                handle_initialize(id);
-            } else if (strcmp(method->valuestring, "textDocument/definition") == 0) {
-                handle_definition(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/hover") == 0) {
-                handle_hover(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/completion") == 0) {
-                handle_completion(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/formatting") == 0) {
-                handle_formatting(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/documentSymbol") == 0) {
-                handle_document_symbol(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/didOpen") == 0) {
-                handle_didOpen(params);
-            } else if (strcmp(method->valuestring, "textDocument/didChange") == 0) {
-                handle_didChange(params);
-            } else if (strcmp(method->valuestring, "textDocument/didSave") == 0) {
-                handle_didSave(params);
-            } else if (strcmp(method->valuestring, "shutdown") == 0) {
-                send_response(id, cJSON_CreateNull());
-            } else if (strcmp(method->valuestring, "exit") == 0) {
-                cJSON_Delete(req);
-                return 0;
+    cJSON* req;
+    while (read_json(&req)) {
+        if (!req) {
+            send_error(NULL, RPC_PARSE_ERROR, "Parse error");
+            continue;
+        }
+
+        cJSON* id = get_member(req, "id");
+        const char* method = cJSON_GetStringValue(get_member(req, "method"));
+
+        if (!method) {
+            // Responses need no answer, the server asks nothing
+            if (!get_member(req, "result") && !get_member(req, "error")) {
+                send_error(id, RPC_INVALID_REQUEST, "Invalid request");
             }
+        } else if (strcmp(method, "exit") == 0) {
+            if (id) send_response(id, cJSON_CreateNull());
+            cJSON_Delete(req);
+            return 0;
+        } else {
+            handle_message(id, method, get_member(req, "params"));
         }
-        
+
         cJSON_Delete(req);
     }
     return 0;
-- 
2.43.0


From 28b38a98b63aa3ab199058f5369b511662ef073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:47 +0000
Subject: [PATCH 38/49] fix: language server answers from the text of the open
 document, not the file

---
 src/cli/cmd_lsp.c | 66 ++++++++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 41 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 22f460d..4cfd6f0 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -216,44 +216,17 @@ static char* doc_get(const char* uri) {
     return NULL;
 }
 
-#ifdef __GNUC__
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wunused-function"
-#endif
-
 static void doc_remove(const char* uri) {
-    (void)uri;
-    /*
     for (size_t i = 0; i < doc_count; i++) {
         if (strcmp(docs[i].uri, uri) == 0) {
             free(docs[i].uri);
             free(docs[i].content);
-            if (i < doc_count - 1) {
-                docs[i] = docs[doc_count - 1];
-            }
-            doc_count--;
+            docs[i] = docs[--doc_count];
             return;
         }
     }
-    */
 }
 
-static void handle_didClose(cJSON* params) {
-    (void)params; // Unused
-    /*
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    if (uri && uri->valuestring) {
-        doc_remove(uri->valuestring);
-    }
-    */
-}
-
-#ifdef __GNUC__
-#pragma GCC diagnostic pop
-#endif
-
 // --- Analysis Logic ---
 
 static const char* get_type_name(uint8_t type) {
@@ -477,6 +450,12 @@ static char* file_uri_to_path(const char* uri) {
     return decoded;
 }
 
+// Latest text of a document: what the client sent, or the file if it is not open
+static char* get_source(const char* uri, const char* path) {
+    char* source = doc_get(uri);
+    return source ? source : read_file_text(path);
+}
+
 // --- Bytecode Helpers for Completion ---
 static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
     if (*ptr >= end) return 0;
@@ -573,8 +552,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
     }
     
     char* path = file_uri_to_path(uri);
-    char* source = doc_get(uri);
-    if (!source) source = read_file_text(path);
+    char* source = get_source(uri, path);
 
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -853,7 +831,7 @@ static void handle_formatting(cJSON* id, cJSON* params) {
     }
     
     char* path = file_uri_to_path(uri);
-    char* source = read_file_text(path);
+    char* source = get_source(uri, path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
@@ -862,12 +840,17 @@ static void handle_formatting(cJSON* id, cJSON* params) {
     
     char* formatted = cnd_format_source(source);
     
+    int line_count = 1;
+    for (const char* c = source; *c; c++) {
+        if (*c == '\n' || *c == '\r') line_count++;
+    }
+
     cJSON* edits = cJSON_CreateArray();
     cJSON* edit = cJSON_CreateObject();
     
     cJSON* range = cJSON_CreateObject();
     cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", 0); cJSON_AddNumberToObject(start, "character", 0);
-    cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", 999999); cJSON_AddNumberToObject(end, "character", 0);
+    cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", line_count); cJSON_AddNumberToObject(end, "character", 0);
     
     cJSON_AddItemToObject(range, "start", start);
     cJSON_AddItemToObject(range, "end", end);
@@ -892,7 +875,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     }
     
     char* path = file_uri_to_path(uri);
-    char* source = read_file_text(path);
+    char* source = get_source(uri, path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
@@ -1043,12 +1026,16 @@ static void handle_didChange(cJSON* params) {
     }
 }
 
+static void handle_didClose(cJSON* params) {
+    const char* uri = get_uri(params);
+    if (uri) doc_remove(uri);
+}
+
 static void handle_didSave(cJSON* params) {
     const char* uri = get_uri(params);
     if (uri) {
-        // We need source content. If it's a save, we can read from disk.
         char* path = file_uri_to_path(uri);
-        char* source = read_file_text(path);
+        char* source = get_source(uri, path);
         if (source) {
             publish_diagnostics(uri, source);
             free(source);
@@ -1088,10 +1075,7 @@ static void handle_definition(cJSON* id, cJSON* params) {
     }
     
     char* path = file_uri_to_path(uri);
-    
-    // Read file content
-    char* source = doc_get(uri);
-    if (!source) source = read_file_text(path);
+    char* source = get_source(uri, path);
 
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -1161,8 +1145,7 @@ static void handle_hover(cJSON* id, cJSON* params) {
     }
     
     char* path = file_uri_to_path(uri);
-    char* source = doc_get(uri);
-    if (!source) source = read_file_text(path);
+    char* source = get_source(uri, path);
 
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -1238,6 +1221,7 @@ static const NotificationHandler NOTIFICATIONS[] = {
     {"textDocument/didOpen", handle_didOpen},
     {"textDocument/didChange", handle_didChange},
     {"textDocument/didSave", handle_didSave},
+    {"textDocument/didClose", handle_didClose},
     {NULL, NULL}
 };
 
-- 
2.43.0


From 9ea8822240af8d96d895506721a46d5cb09983a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:51 +0000
Subject: [PATCH 39/49] fix: language server diagnostics and symbols agree with
 the compiler, imports included

---
 src/cli/cmd_lsp.c           | 160 ++++++++++++++++--------------------
 src/compiler/cnd_internal.h |   4 +
 src/compiler/cnd_parser.c   |   1 +
 src/compiler/cndc.c         |  13 +--
 4 files changed, 82 insertions(+), 96 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 4cfd6f0..9125762 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -246,6 +246,38 @@ static const char* get_type_name(uint8_t type) {
     }
 }
 
+// Parses what the compiler would parse. `path` is canonical.
+static void parse_document(Parser* p, const char* source, const char* path) {
+    memset(p, 0, sizeof(Parser));
+    p->silent = 1; // CRITICAL: Suppress stdout/stderr to avoid breaking LSP
+
+    buf_init(&p->global_bc);
+    p->target = &p->global_bc;
+    strtab_init(&p->strtab);
+    strtab_init(&p->imports);
+    reg_init(&p->registry);
+    enum_reg_init(&p->enums);
+    lexer_init(&p->lexer, source);
+    p->current_path = path;
+    strtab_add(&p->imports, path, (int)strlen(path));
+
+    advance(p);
+    parse_top_level(p);
+}
+
+static void parser_free(Parser* p) {
+    buf_free(&p->global_bc);
+    strtab_free(&p->strtab);
+    strtab_free(&p->imports);
+    reg_free(&p->registry);
+    enum_reg_free(&p->enums);
+    for (size_t i = 0; i < p->error_cap && i < (size_t)p->error_count; i++) {
+        free(p->errors[i].message);
+        free(p->errors[i].file);
+    }
+    free(p->errors);
+}
+
 // Helper to analyze a source string and find definition for symbol at position
 typedef struct {
     int found;
@@ -271,24 +303,7 @@ static void analyze_source(const char* source, const char* file_path, int line,
 
     // 1. Setup Parser to build registry
     Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; 
-    p.silent = 1; // CRITICAL: Suppress stdout/stderr to avoid breaking LSP
-    
-    // Initialize buffers
-    Buffer bc;
-    buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc);
-    strtab_init(&p.strtab);
-    strtab_init(&p.imports);
-    reg_init(&p.registry);
-    enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
-    p.current_path = file_path; // For import resolution (might fail for relative imports if not handled) 
-    
-    advance(&p);
-    parse_top_level(&p);
+    parse_document(&p, source, file_path);
     
     // Registry is now populated. 
     
@@ -393,16 +408,7 @@ static void analyze_source(const char* source, const char* file_path, int line,
     
     // Cleanup
 cleanup:
-    buf_free(&bc);
-    buf_free(&p.global_bc);
-    strtab_free(&p.strtab);
-    strtab_free(&p.imports);
-    reg_free(&p.registry);
-    enum_reg_free(&p.enums);
-    if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
-        free(p.errors);
-    }
+    parser_free(&p);
 }
 
 // --- Handlers ---
@@ -413,7 +419,7 @@ static void url_decode(const char* src, char* dst) {
     while (*src) {
         if ((*src == '%') &&
             ((a = src[1]) && (b = src[2])) &&
-            (isxdigit(a) && isxdigit(b))) {
+            (isxdigit((unsigned char)a) && isxdigit((unsigned char)b))) {
             if (a >= 'a') a -= 'a'-'A';
             if (a >= 'A') a -= ('A' - 10);
             else a -= '0';
@@ -429,6 +435,7 @@ static void url_decode(const char* src, char* dst) {
     *dst++ = '\0';
 }
 
+// Canonical, as the compiler has it for the files it reads
 static char* file_uri_to_path(const char* uri) {
     // Skip "file://"
     const char* raw_path = uri;
@@ -441,13 +448,12 @@ static char* file_uri_to_path(const char* uri) {
     
     // Handle Windows "/C:/..." -> "C:/..."
     // Also handle lower case drive letter normalization if needed?
-    if (decoded[0] == '/' && isalpha(decoded[1]) && decoded[2] == ':') {
-        char* fixed = strdup(decoded + 1);
-        free(decoded);
-        return fixed;
-    }
-    
-    return decoded;
+    const char* path = decoded;
+    if (decoded[0] == '/' && isalpha((unsigned char)decoded[1]) && decoded[2] == ':') path++;
+
+    char* canonical = cnd_canonicalize_path(path);
+    free(decoded);
+    return canonical;
 }
 
 // Latest text of a document: what the client sent, or the file if it is not open
@@ -562,18 +568,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
     
     // 1. Parse to build registry
     Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; p.silent = 1;
-    
-    Buffer bc; buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc);
-    strtab_init(&p.strtab); strtab_init(&p.imports);
-    reg_init(&p.registry); enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
-    p.current_path = path;
-    advance(&p);
-    parse_top_level(&p);
+    parse_document(&p, source, path);
     
     // 2. Scan to find context
     Lexer scanner;
@@ -813,13 +808,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
     // Cleanup
     if (active_decorator) free(active_decorator);
     if (active_struct) free(active_struct);
-    buf_free(&bc); buf_free(&p.global_bc);
-    strtab_free(&p.strtab); strtab_free(&p.imports);
-    reg_free(&p.registry); enum_reg_free(&p.enums);
-    if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
-        free(p.errors);
-    }
+    parser_free(&p);
     free(source); free(path);
 }
 
@@ -884,20 +873,13 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     
     // Parse
     Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; p.silent = 1;
-    Buffer bc; buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc); strtab_init(&p.strtab); strtab_init(&p.imports); reg_init(&p.registry); enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
-    p.current_path = path;
-    advance(&p);
-    parse_top_level(&p);
+    parse_document(&p, source, path);
     
     cJSON* symbols = cJSON_CreateArray();
     
     // Structs
     for (size_t i = 0; i < p.registry.count; i++) {
+        if (strcmp(p.registry.defs[i].file, path) != 0) continue; // Imported
         cJSON* sym = cJSON_CreateObject();
         cJSON_AddStringToObject(sym, "name", p.registry.defs[i].name);
         cJSON_AddNumberToObject(sym, "kind", 23); // Struct
@@ -916,6 +898,7 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     
     // Enums
     for (size_t i = 0; i < p.enums.count; i++) {
+        if (strcmp(p.enums.defs[i].file, path) != 0) continue; // Imported
         cJSON* sym = cJSON_CreateObject();
         cJSON_AddStringToObject(sym, "name", p.enums.defs[i].name);
         cJSON_AddNumberToObject(sym, "kind", 10); // Enum
@@ -934,29 +917,16 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     
     send_response(id, symbols);
     
-    buf_free(&bc); buf_free(&p.global_bc);
-    strtab_free(&p.strtab); strtab_free(&p.imports);
-    reg_free(&p.registry); enum_reg_free(&p.enums);
-    if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
-        free(p.errors);
-    }
+    parser_free(&p);
     free(source); free(path);
 }
 
 static void publish_diagnostics(const char* uri, const char* source) {
     // Parse to collect errors
     Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; p.silent = 1;
-    Buffer bc; buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc); strtab_init(&p.strtab); strtab_init(&p.imports); reg_init(&p.registry); enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
     char* path = file_uri_to_path(uri);
-    p.current_path = path;
-    advance(&p);
-    parse_top_level(&p);
+    parse_document(&p, source, path);
+    if (!p.had_error) finish_program(&p);
     
     // Send diagnostics
     cJSON* notification = cJSON_CreateObject();
@@ -971,24 +941,35 @@ static void publish_diagnostics(const char* uri, const char* source) {
     for (size_t i = 0; i < (size_t)p.error_count; i++) {
         if (i >= (size_t)p.error_cap || !p.errors) break;
         CompilerError* err = &p.errors[i];
-        
+        int line = err->line - 1;
+        int column = err->column - 1;
+
+        StringBuilder message;
+        sb_init(&message);
+        if (strcmp(err->file, path) != 0) { // In an imported file, which has other lines
+            char where[32];
+            snprintf(where, sizeof(where), ":%d: ", err->line);
+            sb_append(&message, err->file);
+            sb_append(&message, where);
+            line = column = 0;
+        }
+        sb_append(&message, err->message);
+
         cJSON* diag = cJSON_CreateObject();
         
         cJSON* range = cJSON_CreateObject();
-        cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", err->line - 1); cJSON_AddNumberToObject(start, "character", err->column - 1);
-        cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", err->line - 1); cJSON_AddNumberToObject(end, "character", err->column); // Just 1 char width or more?
+        cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", line); cJSON_AddNumberToObject(start, "character", column);
+        cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", line); cJSON_AddNumberToObject(end, "character", column + 1); // Just 1 char width or more?
         cJSON_AddItemToObject(range, "start", start); cJSON_AddItemToObject(range, "end", end);
         
         cJSON_AddItemToObject(diag, "range", range);
         cJSON_AddNumberToObject(diag, "severity", 1); // Error
-        cJSON_AddStringToObject(diag, "message", err->message);
+        cJSON_AddStringToObject(diag, "message", message.data);
         cJSON_AddStringToObject(diag, "source", "concordia");
         
         cJSON_AddItemToArray(diagnostics, diag);
-        
-        free(err->message);
+        sb_free(&message);
     }
-    if (p.errors) free(p.errors);
     
     cJSON_AddItemToObject(params, "diagnostics", diagnostics);
     cJSON_AddItemToObject(notification, "params", params);
@@ -996,10 +977,7 @@ static void publish_diagnostics(const char* uri, const char* source) {
     send_json(notification);
     cJSON_Delete(notification);
     
-    buf_free(&bc); buf_free(&p.global_bc);
-    strtab_free(&p.strtab); strtab_free(&p.imports);
-    reg_free(&p.registry); enum_reg_free(&p.enums);
-    // p.errors already freed in loop above
+    parser_free(&p);
     free(path);
 }
 
diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 36b2451..ccc7c32 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -228,6 +228,7 @@ typedef struct {
     int line;
     int column;
     char* message;
+    char* file;
 } CompilerError;
 
 typedef struct {
@@ -297,6 +298,9 @@ int match_keyword(Token t, const char* kw);
 
 void parse_top_level(Parser* p);
 
+// What is left to do and to check once everything is parsed
+void finish_program(Parser* p);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 787ce9d..046df4f 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -316,6 +316,7 @@ void parser_error(Parser* p, const char* msg) {
         err->line = p->current.line;
         err->column = col;
         err->message = strdup(msg); // Make sure to free this later!
+        err->file = strdup(p->current_path);
     }
 
     if (p->silent) return;
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index db1c828..7b2fbdd 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -64,6 +64,12 @@ static int optimize_strings(Parser* p) {
     return 1;
 }
 
+void finish_program(Parser* p) {
+    if (p->strtab.count > CND_MAX_KEYS) parser_error(p, "Too many names");
+    else if (p->global_bc.size > CND_MAX_PROGRAM_SIZE) parser_error(p, "Program too large");
+    else if (!optimize_strings(p)) parser_error(p, "Switch statements are nested too deeply");
+}
+
 // Implementation of cnd_compile_file using the new modular structure
 int cnd_compile_file(const char* in_path, const char* out_path, int json_output, int verbose) {
     setbuf(stdout, NULL); // Ensure debug prints are flushed immediately
@@ -104,11 +110,7 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     
     int ret = 0;
 
-    if (!p.had_error) {
-        if (p.strtab.count > CND_MAX_KEYS) parser_error(&p, "Too many names");
-        else if (p.global_bc.size > CND_MAX_PROGRAM_SIZE) parser_error(&p, "Program too large");
-        else if (!optimize_strings(&p)) parser_error(&p, "Switch statements are nested too deeply");
-    }
+    if (!p.had_error) finish_program(&p);
 
     if (p.had_error) {
         ret = 1;
@@ -198,6 +200,7 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     if (p.errors) {
         for(size_t i=0; i<(size_t)p.error_count && i<p.error_cap; i++) {
             if(p.errors[i].message) free(p.errors[i].message);
+            if(p.errors[i].file) free(p.errors[i].file);
         }
         free(p.errors);
     }
-- 
2.43.0


From 7fa48b57932e5dd7df1be0bdddb28adea64185b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 40/49] fix: hover and definition of long names, comments and
 paths, and at the start of a name

---
 src/cli/cmd_lsp.c | 108 ++++++++++++++++++++++++++++------------------
 1 file changed, 67 insertions(+), 41 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 9125762..2a4c8cf 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -281,6 +281,7 @@ static void parser_free(Parser* p) {
 // Helper to analyze a source string and find definition for symbol at position
 typedef struct {
     int found;
+    int built_in; // Has no definition to go to
     int def_line;
     char* def_file;
     char* symbol_name;
@@ -295,6 +296,7 @@ typedef struct {
 
 static void analyze_source(const char* source, const char* file_path, int line, int character, AnalysisResult* res) {
     res->found = 0;
+    res->built_in = 0;
     res->def_line = 0;
     res->def_file = NULL;
     res->symbol_name = NULL;
@@ -338,7 +340,8 @@ static void analyze_source(const char* source, const char* file_path, int line,
             int col_start = (int)(t.start - line_start);
             int col_end = col_start + t.length;
             
-            if (character >= col_start && character <= col_end) {
+            // The cursor may touch the token before the name too
+            if (t.type == TOK_IDENTIFIER && character >= col_start && character <= col_end) {
                 target_token = t;
                 if (prev_token.type == TOK_AT) target_is_decorator = 1;
                 break;
@@ -357,6 +360,7 @@ static void analyze_source(const char* source, const char* file_path, int line,
                      res->symbol_name = strdup(BUILTIN_DECORATORS[i].name);
                      res->doc_comment = strdup(BUILTIN_DECORATORS[i].doc);
                      res->type_details = strdup(BUILTIN_DECORATORS[i].detail);
+                     res->built_in = 1;
                      res->def_file = strdup("built-in");
                      res->def_line = 0;
                      goto cleanup;
@@ -390,18 +394,23 @@ static void analyze_source(const char* source, const char* file_path, int line,
                 }
 
                 // Generate type details
-                Buffer tb; buf_init(&tb);
-                char tmp[256];
-                snprintf(tmp, sizeof(tmp), "Type: `%s`\n\nMembers:\n", get_type_name(edef->underlying_type));
-                buf_append(&tb, (uint8_t*)tmp, strlen(tmp));
+                StringBuilder sb; sb_init(&sb);
+                sb_append(&sb, "Type: `");
+                sb_append(&sb, get_type_name(edef->underlying_type));
+                sb_append(&sb, "`\n\nMembers:\n");
                 
                 for(size_t i=0; i<edef->count; i++) {
-                    snprintf(tmp, sizeof(tmp), "- `%s` = `%" PRId64 "`\n", edef->values[i].name, edef->values[i].value);
-                    buf_append(&tb, (uint8_t*)tmp, strlen(tmp));
+                    char value[32];
+                    if (edef->underlying_type == OP_IO_U64) snprintf(value, sizeof(value), "%" PRIu64, (uint64_t)edef->values[i].value);
+                    else snprintf(value, sizeof(value), "%" PRId64, edef->values[i].value);
+                    sb_append(&sb, "- `");
+                    sb_append(&sb, edef->values[i].name);
+                    sb_append(&sb, "` = `");
+                    sb_append(&sb, value);
+                    sb_append(&sb, "`\n");
                 }
-                buf_push(&tb, 0);
-                res->type_details = strdup((char*)tb.data);
-                buf_free(&tb);
+                res->type_details = sb_build(&sb);
+                sb_free(&sb);
             }
         }
     }
@@ -411,6 +420,13 @@ cleanup:
     parser_free(&p);
 }
 
+static void analysis_free(AnalysisResult* res) {
+    free(res->symbol_name);
+    free(res->def_file);
+    free(res->doc_comment);
+    free(res->type_details);
+}
+
 // --- Handlers ---
 
 // Helper for URI decoding
@@ -456,6 +472,25 @@ static char* file_uri_to_path(const char* uri) {
     return canonical;
 }
 
+static char* path_to_file_uri(const char* path) {
+    StringBuilder uri;
+    sb_init(&uri);
+    sb_append(&uri, "file://");
+    if (path[0] != '/') sb_append_c(&uri, '/'); // Windows path handling
+    for (; *path; path++) {
+        if (*path == '\\') {
+            sb_append_c(&uri, '/');
+        } else if (is_alpha_c(*path) || is_digit_c(*path) || strchr("/:-.~", *path)) {
+            sb_append_c(&uri, *path);
+        } else {
+            char escape[4];
+            snprintf(escape, sizeof(escape), "%%%02X", (unsigned char)*path);
+            sb_append(&uri, escape);
+        }
+    }
+    return uri.data;
+}
+
 // Latest text of a document: what the client sent, or the file if it is not open
 static char* get_source(const char* uri, const char* path) {
     char* source = doc_get(uri);
@@ -1064,27 +1099,14 @@ static void handle_definition(cJSON* id, cJSON* params) {
     AnalysisResult res;
     analyze_source(source, path, line, character, &res);
     
-    if (res.found) {
+    if (res.found && !res.built_in) {
         cJSON* loc = cJSON_CreateObject();
         
         // Use resolved file if available, else fallback to current URI
-        if (res.def_file) {
-            // Convert file path to URI
-            // Hacky: assume absolute path or simple relative?
-            // VS Code expects file:///...
-            // If def_file is "import_a.cnd" (relative), and we opened "import_b.cnd" at "/abs/path/to/import_b.cnd",
-            // the resolve_path in parser made it absolute. So res.def_file should be absolute.
-            char def_uri[1024];
-            // Windows path handling
-            if (res.def_file[1] == ':') {
-                snprintf(def_uri, sizeof(def_uri), "file:///%s", res.def_file);
-            } else {
-                snprintf(def_uri, sizeof(def_uri), "file://%s", res.def_file);
-            }
-            // Normalize backslashes to slashes for URI
-            for(int i=0; def_uri[i]; i++) if(def_uri[i] == '\\') def_uri[i] = '/';
-            
+        if (res.def_file && strcmp(res.def_file, path) != 0) {
+            char* def_uri = path_to_file_uri(res.def_file);
             cJSON_AddStringToObject(loc, "uri", def_uri);
+            free(def_uri);
         } else {
             cJSON_AddStringToObject(loc, "uri", uri);
         }
@@ -1102,13 +1124,11 @@ static void handle_definition(cJSON* id, cJSON* params) {
         cJSON_AddItemToObject(loc, "range", range);
         
         send_response(id, loc);
-        if (res.symbol_name) free(res.symbol_name);
-        if (res.def_file) free(res.def_file);
-        if (res.doc_comment) free(res.doc_comment);
     } else {
         send_response(id, cJSON_CreateNull());
     }
     
+    analysis_free(&res);
     free(source);
     free(path);
 }
@@ -1139,32 +1159,38 @@ static void handle_hover(cJSON* id, cJSON* params) {
         cJSON* contents = cJSON_CreateObject();
         cJSON_AddStringToObject(contents, "kind", "markdown");
         
-        char msg[4096]; // Increased buffer size
         const char* file_display = res.def_file ? res.def_file : "current file";
-        
-        int offset = 0;
-        offset += snprintf(msg + offset, sizeof(msg) - offset, "**%s**\n\nDefined in %s on line %d.", res.symbol_name, file_display, res.def_line + 1);
+        char line_display[32];
+        snprintf(line_display, sizeof(line_display), " on line %d.", res.def_line + 1);
+
+        StringBuilder msg;
+        sb_init(&msg);
+        sb_append(&msg, "**");
+        sb_append(&msg, res.symbol_name);
+        sb_append(&msg, "**\n\nDefined in ");
+        sb_append(&msg, file_display);
+        sb_append(&msg, line_display);
         
         if (res.doc_comment) {
-            offset += snprintf(msg + offset, sizeof(msg) - offset, "\n\n%s", res.doc_comment);
+            sb_append(&msg, "\n\n");
+            sb_append(&msg, res.doc_comment);
         }
 
         if (res.type_details) {
-            offset += snprintf(msg + offset, sizeof(msg) - offset, "\n\n%s", res.type_details);
+            sb_append(&msg, "\n\n");
+            sb_append(&msg, res.type_details);
         }
         
-        cJSON_AddStringToObject(contents, "value", msg);
+        cJSON_AddStringToObject(contents, "value", msg.data);
+        sb_free(&msg);
         
         cJSON_AddItemToObject(h, "contents", contents);
         send_response(id, h);
-        if (res.symbol_name) free(res.symbol_name);
-        if (res.def_file) free(res.def_file);
-        if (res.doc_comment) free(res.doc_comment);
-        if (res.type_details) free(res.type_details);
     } else {
         send_response(id, cJSON_CreateNull());
     }
     
+    analysis_free(&res);
     free(source);
     free(path);
 }
-- 
2.43.0


From 3084e1616385aac628faa4f19819eb64e3c87df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:51 +0000
Subject: [PATCH 41/49] fix: completion walks all instructions and does not
 read past the bytecode

---
 src/cli/cmd_lsp.c | 149 +++++++++-------------------------------------
 1 file changed, 29 insertions(+), 120 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 2a4c8cf..b56590f 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -5,6 +5,7 @@
 #include <inttypes.h>
 #include <cJSON.h>
 #include "../compiler/cnd_internal.h"
+#include "../vm/vm_instr.h"
 #include "cli_helpers.h"
 #include "compiler.h" // For cnd_format_source
 
@@ -478,9 +479,13 @@ static char* path_to_file_uri(const char* path) {
     sb_append(&uri, "file://");
     if (path[0] != '/') sb_append_c(&uri, '/'); // Windows path handling
     for (; *path; path++) {
+#ifdef _WIN32
         if (*path == '\\') {
             sb_append_c(&uri, '/');
-        } else if (is_alpha_c(*path) || is_digit_c(*path) || strchr("/:-.~", *path)) {
+            continue;
+        }
+#endif
+        if (is_alpha_c(*path) || is_digit_c(*path) || strchr("/:-.~", *path)) {
             sb_append_c(&uri, *path);
         } else {
             char escape[4];
@@ -497,93 +502,6 @@ static char* get_source(const char* uri, const char* path) {
     return source ? source : read_file_text(path);
 }
 
-// --- Bytecode Helpers for Completion ---
-static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr >= end) return 0;
-    return *(*ptr)++;
-}
-
-static uint16_t read_u16(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 2 > end) return 0;
-    uint16_t v = (*ptr)[0] | ((*ptr)[1] << 8);
-    *ptr += 2;
-    return v;
-}
-
-static void skip_instruction(const uint8_t** ptr, const uint8_t* end, uint8_t op) {
-    switch (op) {
-        case OP_META_VERSION: *ptr += 1; break;
-        case OP_META_NAME: *ptr += 2; break;
-        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
-        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
-        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL:
-        case OP_ENTER_STRUCT: *ptr += 2; break;
-        case OP_STR_NULL: *ptr += 4; break;
-        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
-        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: *ptr += 2; break;
-        case OP_IO_BIT_U: case OP_IO_BIT_I: *ptr += 3; break;
-        case OP_IO_BIT_BOOL: *ptr += 2; break;
-        case OP_ARR_FIXED: *ptr += 6; break;
-        case OP_RAW_BYTES: *ptr += 6; break;
-        case OP_CONST_WRITE: {
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8) *ptr += 1;
-            else if (type == OP_IO_U16) *ptr += 2;
-            else if (type == OP_IO_U32) *ptr += 4;
-            else if (type == OP_IO_U64) *ptr += 8;
-            break;
-        }
-        case OP_CONST_CHECK: {
-            *ptr += 2; // key
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8 || type == OP_IO_I8) *ptr += 1;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) *ptr += 2;
-            else if (type == OP_IO_U32 || type == OP_IO_I32) *ptr += 4;
-            else if (type == OP_IO_U64 || type == OP_IO_I64) *ptr += 8;
-            break;
-        }
-        case OP_RANGE_CHECK: {
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8 || type == OP_IO_I8) *ptr += 2;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) *ptr += 4;
-            else if (type == OP_IO_U32 || type == OP_IO_I32 || type == OP_IO_F32) *ptr += 8;
-            else if (type == OP_IO_U64 || type == OP_IO_I64 || type == OP_IO_F64) *ptr += 16;
-            break;
-        }
-        case OP_SCALE_LIN: *ptr += 16; break;
-        case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: *ptr += 8; break;
-        case OP_TRANS_POLY: {
-            uint8_t count = read_u8(ptr, end);
-            *ptr += count * 8;
-            break;
-        }
-        case OP_TRANS_SPLINE: {
-            uint8_t count = read_u8(ptr, end);
-            *ptr += count * 16;
-            break;
-        }
-        case OP_CRC_16: *ptr += 7; break;
-        case OP_CRC_32: *ptr += 13; break;
-        case OP_ENUM_CHECK: {
-            uint8_t type = read_u8(ptr, end);
-            uint16_t count = read_u16(ptr, end);
-            int sz = 0;
-            if (type == OP_IO_U8 || type == OP_IO_I8) sz = 1;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) sz = 2;
-            else if (type == OP_IO_U32 || type == OP_IO_I32) sz = 4;
-            else if (type == OP_IO_U64 || type == OP_IO_I64) sz = 8;
-            *ptr += count * sz;
-            break;
-        }
-        case OP_SWITCH: *ptr += 6; break;
-        case OP_JUMP: case OP_JUMP_IF_NOT: *ptr += 4; break;
-        case OP_LOAD_CTX: case OP_STORE_CTX: *ptr += 2; break;
-        case OP_PUSH_IMM: *ptr += 8; break;
-        case OP_ALIGN_PAD: case OP_ALIGN_FILL: *ptr += 1; break;
-        default: break;
-    }
-}
-
 static void handle_completion(cJSON* id, cJSON* params) {
     const char* uri = get_uri(params);
     int line, character;
@@ -620,7 +538,8 @@ static void handle_completion(cJSON* id, cJSON* params) {
         if (*ptr == '\n') l++;
         ptr++;
     }
-    cursor_offset = (ptr - source) + character;
+    cursor_offset = (ptr - source);
+    for (int c = 0; c < character && source[cursor_offset] && source[cursor_offset] != '\n'; c++) cursor_offset++;
     
     int context_is_enum_member = 0;
     char* enum_name = NULL;
@@ -756,39 +675,29 @@ static void handle_completion(cJSON* id, cJSON* params) {
         if (active_struct) {
             StructDef* sdef = reg_find(&p.registry, active_struct, (int)strlen(active_struct));
             if (sdef && sdef->bytecode.data) {
-                const uint8_t* bc_ptr = sdef->bytecode.data;
-                const uint8_t* end = bc_ptr + sdef->bytecode.size;
-                while (bc_ptr < end) {
-                    uint8_t op = read_u8(&bc_ptr, end);
-                    // Check for IO operations that define fields
-                    if (op == OP_IO_U8 || op == OP_IO_U16 || op == OP_IO_U32 || op == OP_IO_U64 ||
-                        op == OP_IO_I8 || op == OP_IO_I16 || op == OP_IO_I32 || op == OP_IO_I64 ||
-                        op == OP_IO_F32 || op == OP_IO_F64 || op == OP_IO_BOOL ||
-                        op == OP_IO_BIT_U || op == OP_IO_BIT_I || op == OP_IO_BIT_BOOL ||
-                        op == OP_STR_NULL || op == OP_STR_PRE_U8 || op == OP_STR_PRE_U16 || op == OP_STR_PRE_U32 ||
-                        op == OP_ARR_PRE_U8 || op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_FIXED ||
-                        op == OP_ENTER_STRUCT || op == OP_LOAD_CTX || op == OP_STORE_CTX) {
-                        uint16_t key = read_u16(&bc_ptr, end);
-                        if (key < p.strtab.count) {
-                            // Only add each field once (skip struct markers and use leaf fields)
-                            const char* field_name = p.strtab.strings[key];
-                            // Skip ENTER_STRUCT names (they're not leaf fields)
-                            if (op != OP_ENTER_STRUCT) {
-                                cJSON* item = cJSON_CreateObject();
-                                cJSON_AddStringToObject(item, "label", field_name);
-                                cJSON_AddNumberToObject(item, "kind", 5); // Field
-                                cJSON_AddStringToObject(item, "detail", "Field");
-                                cJSON_AddItemToArray(items, item);
-                            }
-                        }
-                        // Skip remaining bytes for ops that have more data after key
-                        if (op == OP_IO_BIT_U || op == OP_IO_BIT_I) bc_ptr += 1; // bits
-                        else if (op == OP_STR_NULL) bc_ptr += 2; // max_len
-                        else if (op == OP_ARR_FIXED) bc_ptr += 4; // count
-                    } else {
-                        skip_instruction(&bc_ptr, end, op);
+                const uint8_t* code = sdef->bytecode.data;
+                uint8_t* added = calloc(p.strtab.count + 1, 1);
+                instr_walk w;
+                instr_walk_init(&w, 0);
+                while (w.ip < sdef->bytecode.size) {
+                    size_t at = w.ip;
+                    if (instr_walk_next(&w, code, sdef->bytecode.size) != CND_ERR_OK) break;
+                    // Skip ENTER_STRUCT names (they're not leaf fields)
+                    if (code[at] == OP_ENTER_STRUCT) continue;
+                    size_t key_offset[2];
+                    int keys = instr_keys(code[at], key_offset);
+                    for (int k = 0; k < keys; k++) {
+                        uint16_t key = instr_u16(code + at + key_offset[k]);
+                        if (key >= p.strtab.count || added[key]) continue;
+                        added[key] = 1; // Only add each field once
+                        cJSON* item = cJSON_CreateObject();
+                        cJSON_AddStringToObject(item, "label", p.strtab.strings[key]);
+                        cJSON_AddNumberToObject(item, "kind", 5); // Field
+                        cJSON_AddStringToObject(item, "detail", "Field");
+                        cJSON_AddItemToArray(items, item);
                     }
                 }
+                free(added);
             }
         }
     } else {
-- 
2.43.0


From 4d90c70b4f8486ffb33547f4d4559f2ff5fe1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:06 +0000
Subject: [PATCH 42/49] fix: a struct or enum without a name is not a symbol

---
 src/compiler/cnd_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 046df4f..ddb5120 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1540,6 +1540,7 @@ static int is_packet_name(const Parser* p, Token name) {
 
 void parse_enum(Parser* p, const char* doc) {
     Token name = p->current; consume(p, TOK_IDENTIFIER, "Expect enum name");
+    if (p->had_error) return;
     
     // Check for name collisions
     if (enum_reg_find(&p->enums, name.start, name.length)) {
@@ -1649,6 +1650,7 @@ void parse_enum(Parser* p, const char* doc) {
 
 void parse_struct(Parser* p, const char* doc) {
     Token name = p->current; consume(p, TOK_IDENTIFIER, "Expect struct name");
+    if (p->had_error) return;
     
     // Check for name collisions
     if (reg_find(&p->registry, name.start, name.length)) {
-- 
2.43.0


From 5a58de88c04368d79a684bf8533fcc9105f2388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:08 +0000
Subject: [PATCH 43/49] fix: the Go binding ran a cut IL image as bytecode

---
 go/concordia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/concordia.go b/go/concordia.go
index d9eda24..9db0125 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -134,7 +134,7 @@ func LoadProgram(data []byte) (*Program, error) {
 
 	// Check for IL Header: "CNDIL"
 	isIL := false
-	if len(data) >= 16 && string(data[:5]) == "CNDIL" {
+	if len(data) >= 5 && string(data[:5]) == "CNDIL" {
 		isIL = true
 	}
 
-- 
2.43.0


From c1ba8663e666e919f48193fb58921866b788f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 44/49] fix: the Go binding refused empty data

---
 go/concordia.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/go/concordia.go b/go/concordia.go
index 9db0125..2908677 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -193,13 +193,10 @@ func (p *Program) GetKeyID(name string) uint16 {
 
 // Execute runs the VM with the given data
 func (p *Program) Execute(data []byte, mode Mode, cb CallbackFunc) error {
-	var cData unsafe.Pointer
-	var cDataLen C.size_t
-	if len(data) > 0 {
-		cData = C.CBytes(data)
-		defer C.free(cData)
-		cDataLen = C.size_t(len(data))
-	}
+	// The VM wants a buffer even if it is empty
+	cData := C.CBytes(data)
+	defer C.free(cData)
+	cDataLen := C.size_t(len(data))
 
 	cCtx := (*C.cnd_vm_ctx)(C.calloc(1, C.size_t(unsafe.Sizeof(C.cnd_vm_ctx{}))))
 	if cCtx == nil {
@@ -242,9 +239,7 @@ func (p *Program) Execute(data []byte, mode Mode, cb CallbackFunc) error {
 	ret := C.cnd_execute(cCtx)
 
 	// Copy data back if needed
-	if len(data) > 0 && cData != nil {
-		copy(data, C.GoBytes(cData, C.int(cDataLen)))
-	}
+	copy(data, unsafe.Slice((*byte)(cData), len(data)))
 
 	return parseError(Error(ret))
 }
-- 
2.43.0


From 82e02d81bb65677cfdc993804dd5971bc3cd9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:39 +0000
Subject: [PATCH 45/49] fix: the Go binding gave CRC and arithmetic errors no
 value of their own

---
 go/concordia.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/concordia.go b/go/concordia.go
index 2908677..67882d6 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -34,6 +34,8 @@ var (
 	GoErrStackUnderflow = errors.New("stack underflow")
 	GoErrValidation     = errors.New("validation error")
 	GoErrCallback       = errors.New("callback error")
+	GoErrCRCMismatch    = errors.New("CRC mismatch")
+	GoErrArithmetic     = errors.New("arithmetic error")
 	GoErrUnknown        = errors.New("unknown error")
 )
 
@@ -58,6 +60,10 @@ func parseError(err Error) error {
 		return GoErrValidation
 	case ErrCallback:
 		return GoErrCallback
+	case ErrCRCMismatch:
+		return GoErrCRCMismatch
+	case ErrArithmetic:
+		return GoErrArithmetic
 	default:
 		return errors.New(err.String())
 	}
-- 
2.43.0


From c8444f68cabd5df82dd6087634c7a7c04b34f2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:40 +0000
Subject: [PATCH 46/49] fix: the Go package did not link on Linux without -lm
 in the environment

---
 go/concordia.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/concordia.go b/go/concordia.go
index 67882d6..0c8e21b 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -2,6 +2,7 @@ package concordia
 
 /*
 #cgo CFLAGS: -I../include -I../src/vm -std=c99
+#cgo !windows LDFLAGS: -lm
 #include "../include/concordia.h"
 #include <stdlib.h>
 
-- 
2.43.0


From 8bbf37df2c2999124d3ec41a4c392088a32cae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:31 +0000
Subject: [PATCH 47/49] fix: the binding generator continued the values of an
 enum in the next one

---
 src/tools/gen_bindings.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/tools/gen_bindings.c b/src/tools/gen_bindings.c
index ab5e2e6..59b6741 100644
--- a/src/tools/gen_bindings.c
+++ b/src/tools/gen_bindings.c
@@ -127,8 +127,12 @@ void process_line(char *line) {
     }
 
     // Handle Enum values
+    static int last_val = -1;
     char *ptr = line;
     while (*ptr && isspace(*ptr)) ptr++;
+
+    // Every enum starts from 0
+    if (strncmp(ptr, "enum", 4) == 0 || strncmp(ptr, "typedef enum", 12) == 0) last_val = -1;
     
     if (strncmp(ptr, "CND_", 4) == 0) {
         char *eq = strchr(ptr, '=');
@@ -141,14 +145,7 @@ void process_line(char *line) {
         strncpy(name, ptr, len);
         name[len] = '\0';
 
-        // Determine value
-        static int last_val = -1;
-        
-        // Check if we switched enum blocks (heuristic: prefix change)
-        // Actually, C enums reset to 0 if not specified, but usually they are in a block.
-        // We can just rely on the fact that if '=' is present, we parse it.
-        // If not, we increment last_val.
-        
+        // Determine value: if '=' is present, we parse it. If not, we increment last_val.
         if (eq) {
             char *val_start = eq + 1;
             while (*val_start && isspace(*val_start)) val_start++;
-- 
2.43.0


From 557a1ec5955da6db6d277f292136713066c4842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:04 +0000
Subject: [PATCH 48/49] fix: the compiler counted the bits of arrays in
 unaligned structs without their alignment

---
 src/compiler/cnd_parser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index ddb5120..4c3f8e9 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1438,8 +1438,7 @@ void parse_field(Parser* p, const char* doc) {
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
                      if (!is_array_field) p->current_bit_count = (p->current_bit_count + bit_width) % 8;
-                     else if (has_fixed_array_count) p->current_bit_count = (int)((p->current_bit_count + (uint64_t)bit_width * array_fixed_count) % 8);
-                     else p->is_bit_count_valid = 0;
+                     else p->current_bit_count = 0; // The start of an array and every element of it align to a byte
                  }
             } else {
                 if (p->in_bit_mode) {
-- 
2.43.0


From f20a99f7b809d0fe296a8ee7226f102aa5a02e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:49 +0000
Subject: [PATCH 49/49] fix: accept byte as a type of enums and of length
 prefixes, like uint8 and u8

---
 src/compiler/cnd_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 4c3f8e9..8a5ca29 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1203,12 +1203,12 @@ void parse_field(Parser* p, const char* doc) {
     if (match_keyword(p->current, "prefix")) {
         advance(p); Token ptype = p->current; consume(p, TOK_IDENTIFIER, "Expect prefix type");
         if (is_variable_array && !has_fixed_array_count && !has_count_ref) {
-            if (match_keyword(ptype, "uint8") || match_keyword(ptype, "u8")) arr_prefix_op = OP_ARR_PRE_U8;
+            if (match_keyword(ptype, "uint8") || match_keyword(ptype, "byte") || match_keyword(ptype, "u8")) arr_prefix_op = OP_ARR_PRE_U8;
             else if (match_keyword(ptype, "uint16") || match_keyword(ptype, "u16")) arr_prefix_op = OP_ARR_PRE_U16;
             else if (match_keyword(ptype, "uint32") || match_keyword(ptype, "u32")) arr_prefix_op = OP_ARR_PRE_U32;
             else parser_error(p, "Invalid prefix type for variable array");
         } else if (match_keyword(type_tok, "string")) {
-            if (match_keyword(ptype, "uint8") || match_keyword(ptype, "u8")) str_prefix_op = OP_STR_PRE_U8;
+            if (match_keyword(ptype, "uint8") || match_keyword(ptype, "byte") || match_keyword(ptype, "u8")) str_prefix_op = OP_STR_PRE_U8;
             else if (match_keyword(ptype, "uint16") || match_keyword(ptype, "u16")) str_prefix_op = OP_STR_PRE_U16;
             else if (match_keyword(ptype, "uint32") || match_keyword(ptype, "u32")) str_prefix_op = OP_STR_PRE_U32;
             else parser_error(p, "Invalid prefix type for string");
@@ -1565,7 +1565,7 @@ void parse_enum(Parser* p, const char* doc) {
         Token type_tok = p->current;
         consume(p, TOK_IDENTIFIER, "Expect underlying type");
         
-        if (match_keyword(type_tok, "uint8") || match_keyword(type_tok, "u8")) def->underlying_type = OP_IO_U8;
+        if (match_keyword(type_tok, "uint8") || match_keyword(type_tok, "byte") || match_keyword(type_tok, "u8")) def->underlying_type = OP_IO_U8;
         else if (match_keyword(type_tok, "int8") || match_keyword(type_tok, "i8")) def->underlying_type = OP_IO_I8;
         else if (match_keyword(type_tok, "uint16") || match_keyword(type_tok, "u16")) def->underlying_type = OP_IO_U16;
         else if (match_keyword(type_tok, "int16") || match_keyword(type_tok, "i16")) def->underlying_type = OP_IO_I16;
-- 
2.43.0

