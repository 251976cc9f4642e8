From d67f51e5c864b995d9b81a5a6b9732acc960fac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 01/76] fix: simplified operations must not resize their
 operands in place

An operation that simplifies to one of its operands (e.g. a select() with a
literal mask or an addition with a literal zero) returned
jitc_var_resize(operand, size), which changes the size of an unevaluated scalar
operand in place when its only reference is the caller's handle. Restrict the
in-place path to jit_var_resize(), where it is documented.
---
 src/api.cpp | 2 +-
 src/var.cpp | 4 ++--
 src/var.h   | 7 ++++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index 5847f0f..ddb1db6 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1035,7 +1035,7 @@ int jit_var_is_unaligned(uint32_t index) {
 
 uint32_t jit_var_resize(uint32_t index, size_t size) {
     lock_guard guard(state.lock);
-    return jitc_var_resize(index, size);
+    return jitc_var_resize(index, size, /* in_place = */ true);
 }
 
 VarType jit_var_type(uint32_t index) {
diff --git a/src/var.cpp b/src/var.cpp
index 7ff9e74..81d7da3 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1996,7 +1996,7 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
     return result;
 }
 
-uint32_t jitc_var_resize(uint32_t index, size_t size) {
+uint32_t jitc_var_resize(uint32_t index, size_t size, bool in_place) {
     if (index == 0 && size == 0)
         return 0;
 
@@ -2022,7 +2022,7 @@ uint32_t jitc_var_resize(uint32_t index, size_t size) {
     }
 
     uint32_t result;
-    if (!v->is_evaluated() && v->ref_count == 1) {
+    if (in_place && !v->is_evaluated() && v->ref_count == 1) {
         // Nobody else holds a reference -- we can directly resize this variable
         jitc_var_inc_ref(index, v);
         jitc_lvn_drop(index, v);
diff --git a/src/var.h b/src/var.h
index e68d12f..4dd4ddd 100644
--- a/src/var.h
+++ b/src/var.h
@@ -102,7 +102,12 @@ extern uint32_t jitc_var_copy(uint32_t index);
 extern uint32_t jitc_var_copy_opaque(uint32_t index);
 
 /// Create a resized copy of a variable
-extern uint32_t jitc_var_resize(uint32_t index, size_t size);
+///
+/// When 'in_place' is set, the caller gives up its claim that 'index' keeps its
+/// current size, and the function may resize an otherwise unreferenced variable
+/// directly instead of creating a new one.
+extern uint32_t jitc_var_resize(uint32_t index, size_t size,
+                                bool in_place = false);
 
 /// Increase the external reference count of a given variable
 extern void jitc_var_inc_ref(uint32_t index, Variable *v) noexcept;
-- 
2.43.0


From 18661fa937ea4f3ffba57d82d0944688570807b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 02/76] fix: wait for all users of a kernel in
 jit_flush_kernel_cache()

The loop waiting for 'jitc_task' made no progress when the calling thread had
no LLVM thread state and spun forever while holding the main lock. Furthermore,
kernels that a concurrent jit_eval() already launched, but that are not yet
reachable through 'jitc_task', were released while they were running.
---
 src/io.cpp | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 56a7f82..b4fdc20 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -684,10 +684,39 @@ void jitc_kernel_free(int device_id, const Kernel &kernel) {
 }
 
 void jitc_flush_kernel_cache() {
-    // Drain in-flight work first
-    do {
+    /* Kernels can be released once no task that could reference them remains.
+       Besides queued work ('jitc_task', which this thread must be able to wait
+       for even when it lacks an LLVM ThreadState), this includes kernels that
+       a jitc_eval() call on another thread already launched while it
+       temporarily released the main lock. Such launches only become part of
+       'jitc_task' when that evaluation finishes, hence also acquire 'eval_lock'
+       (in the same order as jitc_eval(), and not while waiting for tasks). */
+    while (true) {
         jitc_sync_thread();
-    } while (jitc_task);
+
+        Task *task = jitc_task;
+        if (task) {
+            task_retain(task);
+            {
+                unlock_guard guard(state.lock);
+                task_wait(task);
+            }
+            if (task == jitc_task) {
+                jitc_task = nullptr;
+                task_release(task);
+            }
+            task_release(task);
+        }
+
+        lock_release(state.lock);
+        lock_acquire(state.eval_lock);
+        lock_acquire(state.lock);
+
+        if (!jitc_task)
+            break;
+
+        lock_release(state.eval_lock);
+    }
 
     jitc_log(Info, "jit_flush_kernel_cache(): releasing %zu kernel%s ..",
             state.kernel_cache.size(),
@@ -699,4 +728,5 @@ void jitc_flush_kernel_cache() {
 
     state.kernel_cache.clear();
     state.kernel_cache_generation++;
+    lock_release(state.eval_lock);
 }
-- 
2.43.0


From c38e42daf14ea4ddae80beb4f8cb69978cf0b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 03/76] fix: bounds check of packet scatter-reductions with an
 expanded target

In debug mode, the bounds check considered the index into the expanded
(per-worker) target, which reported and masked valid writes.
---
 src/op.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index 5d59f0d..aa801f8 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -3265,6 +3265,9 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
     // Must compute final index before potentially expanding below
     index = steal(jitc_var_mul(index, scale));
 
+    // Position within 'target_', which remains valid after the expansion
+    Ref index_unexpanded = borrow(index);
+
     // Check if it is safe to directly write to ``target``.
     // See the original scatter operation for details.
     target_v = jitc_var(target);
@@ -3291,7 +3294,7 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
         mask_2 = steal(jitc_var_check_bounds(
             op == ReduceOp::Identity ? BoundsCheckType::PacketScatter
                                      : BoundsCheckType::PacketScatterReduce,
-            /* original index */ index, mask_2, target_size));
+            index_unexpanded, mask_2, target_size));
     }
 
     uint32_t op_size = std::max(var_info.size, jitc_var(mask_2)->size);
-- 
2.43.0


From 8a94cb32338f4a959dca7318dc9c070c316145d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:14 +0000
Subject: [PATCH 04/76] fix: do not assemble the output of jit_var_str() in a
 shared buffer

Copying array elements temporarily releases the main lock. Concurrent calls to
jit_var_whos(), jit_var_str(), etc., then mixed their output into the result.
---
 src/var.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 81d7da3..deb8aa2 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1407,11 +1407,13 @@ const char *jitc_var_str(uint32_t index) {
     if (v->is_literal())
         memcpy(dst, &v->literal, isize);
 
-    var_buffer.clear();
-    var_buffer.put('[');
+    // jitc_memcpy() below temporarily releases the lock, during which other
+    // threads may write to 'var_buffer'. Assemble the string separately.
+    StringBuffer buf;
+    buf.put('[');
     for (uint32_t i = 0; i < size; ++i) {
         if (size > state.print_limit && i == limit_remainder / 2) {
-            var_buffer.fmt(".. %zu skipped .., ", size - limit_remainder);
+            buf.fmt(".. %zu skipped .., ", size - limit_remainder);
             i = (uint32_t) (size - limit_remainder / 2 - 1);
             continue;
         }
@@ -1423,22 +1425,23 @@ const char *jitc_var_str(uint32_t index) {
 
         const char *comma = i + 1 < (uint32_t) size ? ", " : "";
         switch (vt) {
-            case VarType::Bool:    var_buffer.fmt("%"   PRIu8  "%s", *(( uint8_t *) dst), comma); break;
-            case VarType::Int8:    var_buffer.fmt("%"   PRId8  "%s", *((  int8_t *) dst), comma); break;
-            case VarType::UInt8:   var_buffer.fmt("%"   PRIu8  "%s", *(( uint8_t *) dst), comma); break;
-            case VarType::Int16:   var_buffer.fmt("%"   PRId16 "%s", *(( int16_t *) dst), comma); break;
-            case VarType::UInt16:  var_buffer.fmt("%"   PRIu16 "%s", *((uint16_t *) dst), comma); break;
-            case VarType::Int32:   var_buffer.fmt("%"   PRId32 "%s", *(( int32_t *) dst), comma); break;
-            case VarType::UInt32:  var_buffer.fmt("%"   PRIu32 "%s", *((uint32_t *) dst), comma); break;
-            case VarType::Int64:   var_buffer.fmt("%"   PRId64 "%s", *(( int64_t *) dst), comma); break;
-            case VarType::UInt64:  var_buffer.fmt("%"   PRIu64 "%s", *((uint64_t *) dst), comma); break;
-            case VarType::Float16: var_buffer.fmt("%g%s", float(*((drjit::half *) dst)), comma); break;
-            case VarType::Float32: var_buffer.fmt("%g%s", *((float *) dst), comma); break;
-            case VarType::Float64: var_buffer.fmt("%g%s", *((double *) dst), comma); break;
+            case VarType::Bool:    buf.fmt("%"   PRIu8  "%s", *(( uint8_t *) dst), comma); break;
+            case VarType::Int8:    buf.fmt("%"   PRId8  "%s", *((  int8_t *) dst), comma); break;
+            case VarType::UInt8:   buf.fmt("%"   PRIu8  "%s", *(( uint8_t *) dst), comma); break;
+            case VarType::Int16:   buf.fmt("%"   PRId16 "%s", *(( int16_t *) dst), comma); break;
+            case VarType::UInt16:  buf.fmt("%"   PRIu16 "%s", *((uint16_t *) dst), comma); break;
+            case VarType::Int32:   buf.fmt("%"   PRId32 "%s", *(( int32_t *) dst), comma); break;
+            case VarType::UInt32:  buf.fmt("%"   PRIu32 "%s", *((uint32_t *) dst), comma); break;
+            case VarType::Int64:   buf.fmt("%"   PRId64 "%s", *(( int64_t *) dst), comma); break;
+            case VarType::UInt64:  buf.fmt("%"   PRIu64 "%s", *((uint64_t *) dst), comma); break;
+            case VarType::Float16: buf.fmt("%g%s", float(*((drjit::half *) dst)), comma); break;
+            case VarType::Float32: buf.fmt("%g%s", *((float *) dst), comma); break;
+            case VarType::Float64: buf.fmt("%g%s", *((double *) dst), comma); break;
             default: jitc_fail("jit_var_str(): unsupported type!");
         }
     }
-    var_buffer.put(']');
+    buf.put(']');
+    var_buffer.swap(buf);
     return var_buffer.get();
 }
 
-- 
2.43.0


From 809314358c69b98fc2b2a22d020872562bac5b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:07 +0000
Subject: [PATCH 05/76] fix: only reset the calling thread's state while
 synchronizing

jitc_sync_thread(ts) temporarily cleared the dynamic state of 'ts', which
may belong to another thread (jitc_sync_device(), jitc_sync_all_devices()).
Variables scheduled by that thread during the wait were lost when the old
state was written back. Deferred frees were rolled back in the same way.
---
 src/init.cpp   |  6 +++++-
 src/internal.h | 10 +++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index fdd3aef..c1607fa 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -539,8 +539,12 @@ void jitc_sync_thread(ThreadState *ts) {
          * However we don't want the ThreadState dynamic internal
          * variables (e.g. scheduled, side_effects, mask_stack) to
          * be shared across these tasks
+         *
+         * Only the calling thread may run such tasks: 'ts' can belong to
+         * another thread (see jitc_sync_device()), which keeps using its
+         * state in the meantime.
          */
-        scoped_reset_thread_state ts_guard(ts);
+        scoped_reset_thread_state ts_guard(jitc_thread_local().ts_llvm);
         {
             unlock_guard guard(state.lock);
             task_wait(task);
diff --git a/src/internal.h b/src/internal.h
index 2564814..3199342 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -1028,11 +1028,19 @@ struct ThreadState : public ThreadStateBase {
 /// RAII helper for scoped reset dynamic thread state
 class scoped_reset_thread_state {
 public:
-    scoped_reset_thread_state(ThreadState* ts) :ts(ts), cached_ts(*ts) {
+    scoped_reset_thread_state(ThreadState *ts) : ts(ts) {
+        if (!ts)
+            return;
+        cached_ts = *ts;
         ts->reset_state();
     }
 
     ~scoped_reset_thread_state() {
+        if (!ts)
+            return;
+        // Not part of the dynamic state; may have changed in the meantime
+        cached_ts.free_later = std::move(ts->free_later);
+        cached_ts.free_next = std::move(ts->free_next);
         *ts = std::move(cached_ts);
     }
     scoped_reset_thread_state(const scoped_reset_thread_state &) = delete;
-- 
2.43.0


From ab6b95e6175397cee3de8dbf8a97b4ae666ae77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:13 +0000
Subject: [PATCH 06/76] fix: integer division by the padding of an array must
 not trap

LLVM kernels process whole packets. When the size of an array was not a
multiple of the vector width, the lanes past its end divided by stale
memory contents and terminated the process with SIGFPE.
---
 src/llvm_eval.cpp | 69 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 61 insertions(+), 8 deletions(-)

diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index ba6e8aa..923aa34 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -73,6 +73,64 @@ static void jitc_llvm_render_trace(const Variable *v,
                                    const Variable *func,
                                    const Variable *scene);
 
+/**
+ * Integer division and remainder
+ *
+ * Kernels process whole SIMD packets. The divisor of an inactive lane (e.g.,
+ * in the padding past the end of an array) is arbitrary, and the processor
+ * traps when it is zero or when the quotient overflows (INT_MIN / -1). Both
+ * cases are rerouted to a division by one.
+ */
+static void jitc_llvm_render_int_div(const Variable *v, const Variable *a0,
+                                     const Variable *a1) {
+    bool is_uint = jitc_is_uint(v), is_div = (VarKind) v->kind == VarKind::Div;
+    const char *op = is_div ? (is_uint ? "udiv" : "sdiv")
+                            : (is_uint ? "urem" : "srem");
+
+    // Trap-free divisor, most common case
+    if (a1->is_literal() && a1->literal != 0 && (is_uint || a1->literal == 1)) {
+        fmt("    $v = $s $V, $v\n", v, op, a0, a1);
+        return;
+    }
+
+    // Replace 0 by 1
+    fmt("    $v_0 = icmp eq $V, $z\n"
+        "    $v_1 = zext <$w x i1> $v_0 to $T\n"
+        "    $v_2 = or $V, $v_1\n",
+        v, a1,
+        v, v, v,
+        v, a1, v);
+
+    if (is_uint) {
+        fmt("    $v = $s $V, $v_2\n", v, op, a0, v);
+        return;
+    }
+
+    // Replace -1 by 1 and negate the quotient (the remainder is zero)
+    fmt("    $v_3 = icmp eq $V, $v\n"
+        "    $v_4 = sext <$w x i1> $v_3 to $T\n"
+        "    $v_5 = icmp eq $V, $v_4\n"
+        "    $v_6 = sext <$w x i1> $v_5 to $T\n"
+        "    $v_7 = add $V_6, $v_6\n"
+        "    $v_8 = sub $V_2, $v_7\n",
+        v, a1, a1,
+        v, v, v,
+        v, a1, v,
+        v, v, v,
+        v, v, v,
+        v, v, v);
+
+    if (is_div)
+        fmt("    $v_9 = sdiv $V, $v_8\n"
+            "    $v_10 = xor $V_9, $v_6\n"
+            "    $v = sub $V_10, $v_6\n",
+            v, a0, v,
+            v, v, v,
+            v, v, v);
+    else
+        fmt("    $v = srem $V, $v_8\n", v, a0, v);
+}
+
 void jitc_llvm_assemble(ThreadState *ts, ScheduledGroup group) {
     bool print_labels = jitc_log_active(LogLevel::Trace) ||
                         (jitc_flags() & (uint32_t) JitFlag::PrintIR);
@@ -679,18 +737,13 @@ static void jitc_llvm_render(Variable *v) {
 
         case VarKind::Div:
             if (jitc_is_float(v))
-                stmt = "    $v = fdiv $V, $v\n";
-            else if (jitc_is_uint(v))
-                stmt = "    $v = udiv $V, $v\n";
+                fmt("    $v = fdiv $V, $v\n", v, a0, a1);
             else
-                stmt = "    $v = sdiv $V, $v\n";
-            fmt(stmt, v, a0, a1);
+                jitc_llvm_render_int_div(v, a0, a1);
             break;
 
         case VarKind::Mod:
-            fmt(jitc_is_uint(v) ? "    $v = urem $V, $v\n"
-                                : "    $v = srem $V, $v\n",
-                v, a0, a1);
+            jitc_llvm_render_int_div(v, a0, a1);
             break;
 
         case VarKind::MulHi:
-- 
2.43.0


From 7b3d32f77071613a8b9130aa6f8f7ed91eeb0493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 07/76] fix: jit_var_shrink() of variables with pending writes
 or undefined contents

The view was created without performing the pending writes, and it referred
to freed memory when the variable had not been stored in memory before.
---
 src/var.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index deb8aa2..25d01bf 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1986,11 +1986,11 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
         result = jitc_var_literal(backend, vt, &v->literal, size, 0);
     } else {
         void *dst_addr = nullptr;
-        Ref dst = steal(jitc_var_data(index, false, &dst_addr));
+        Ref dst = steal(jitc_var_data(index, true, &dst_addr));
 
+        // Note: 'dst' owns the data and may differ from 'index'
         result = jitc_var_mem_map(backend, vt, dst_addr, size, false);
-        jitc_var(result)->dep[3] = index;
-        jitc_var_inc_ref(index);
+        jitc_var(result)->dep[3] = dst.release();
     }
 
     jitc_log(Debug, "jit_var_shrink(): %s r%u[%zu] = shrink(r%u)",
-- 
2.43.0


From a7c23febb33abf60e091471d8f398cded7bbe4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:42 +0000
Subject: [PATCH 08/76] fix: reference leak in jit_var_scatter_cas()

The early-outs released ownership of a reference that is not returned.
---
 src/op.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index aa801f8..b75abda 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2634,13 +2634,11 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
         target_v->literal == value_v->literal) {
         print_log("skipped, target/source are value variables with the "
                   "same value");
-        target.release();
         return;
     }
 
     if (mask_v->is_literal() && mask_v->literal == 0) {
         print_log("skipped, always masked");
-        target.release();
         return;
     }
 
-- 
2.43.0


From 3ba0fadaae3cfd274af1e3d91070a272a2dfe25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 09/76] fix: perform pending writes before expanding the target
 of a scatter-reduction

ReduceMode.Expand copied the current contents of the target to a new array.
Pending scatters into the original array were subsequently dropped, since
nothing referenced it anymore.
---
 src/var.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index 25d01bf..c32f9ff 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2914,7 +2914,9 @@ std::pair<uint32_t, uint32_t> jitc_var_expand(uint32_t index, ReduceOp op) {
     v = jitc_var(index);
     if (!v->is_literal() || v->literal != identity) {
         void *src_addr = nullptr;
-        Ref src = steal(jitc_var_data(index, false, &src_addr));
+        // Perform pending writes first, they refer to the original array
+        bool symbolic = jit_flag(JitFlag::SymbolicScope);
+        Ref src = steal(jitc_var_data(index, !symbolic, &src_addr));
         jitc_memcpy_async(backend, dst_addr, src_addr,
                           size * tsize);
     }
-- 
2.43.0


From e654cc8ba06acef6aed0896bbf8d350dc1c2ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:43 +0000
Subject: [PATCH 10/76] fix: do not drop asynchronous work submitted by other
 threads

submit_cpu() with JitFlag::LaunchBlocking and LLVMThreadState::barrier()
overwrote 'jitc_task' although another thread may have submitted work while
the lock was released. Subsequent operations did not wait for that work.
---
 src/llvm_ts.cpp | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 816d6f5..70f2cc7 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -24,11 +24,6 @@ static void submit_cpu(KernelType type, KernelRecordingMode recording_mode,
         [](uint32_t index, void *payload) { ((Payload *) payload)->f(index); },
         &payload, sizeof(Payload), nullptr, 0);
 
-    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
-        unlock_guard guard(state.lock);
-        task_wait(new_task);
-    }
-
     if (unlikely(jit_flag(JitFlag::KernelHistory))) {
         KernelHistoryEntry entry = {};
         entry.backend = JitBackend::LLVM;
@@ -44,29 +39,51 @@ static void submit_cpu(KernelType type, KernelRecordingMode recording_mode,
 
     task_release(jitc_task);
     jitc_task = new_task;
+
+    // Other threads may submit work and replace 'jitc_task' during the wait
+    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
+        task_retain(new_task);
+        unlock_guard guard(state.lock);
+        task_wait_and_release(new_task);
+    }
 }
 
 /// Temporary scratch space for scheduled tasks
 static std::vector<Task *> scheduled_tasks;
 
+/// Parent of the first entry of 'scheduled_tasks'
+static Task *scheduled_parent = nullptr;
+
 void LLVMThreadState::barrier() {
     // All tasks in 'scheduled_tasks' have 'jitc_task' (if present) as parent.
     // To create a barrier, we release 'jitc_task' and initialize it with a new
     // dummy task that has all members of 'scheduled_tasks' as parents. This
     // allows groups of kernel launches to run in parallel, while serializing
     // subsequent groups.
+    //
+    // Another thread may have submitted further work in the meantime, e.g.,
+    // while this thread released the lock to compile a kernel. In that case,
+    // 'jitc_task' isn't a parent, and the dummy task must also depend on it.
+
+    bool replaced = jitc_task != scheduled_parent;
+    task_release(scheduled_parent);
+    scheduled_parent = nullptr;
 
-    if (scheduled_tasks.size() == 1) {
+    if (scheduled_tasks.size() == 1 && !replaced) {
         task_release(jitc_task);
         jitc_task = scheduled_tasks[0];
     } else {
         jitc_assert(!scheduled_tasks.empty(),
                     "jit_eval(): no tasks generated!");
 
+        if (replaced && jitc_task)
+            scheduled_tasks.push_back(jitc_task);
+        else
+            task_release(jitc_task);
+
         // Insert a barrier task
         Task *new_task = task_submit_dep(nullptr, scheduled_tasks.data(),
                                          (uint32_t) scheduled_tasks.size());
-        task_release(jitc_task);
         for (Task *t : scheduled_tasks)
             task_release(t);
         jitc_task = new_task;
@@ -179,6 +196,12 @@ LLVMThreadState::launch(Kernel kernel, KernelKey & /*key*/,
                packets, packet_size, packets == 1 ? "" : "s", blocks,
                blocks == 1 ? "" : "s", block_size);
 
+    if (scheduled_tasks.empty()) {
+        scheduled_parent = jitc_task;
+        if (scheduled_parent)
+            task_retain(scheduled_parent);
+    }
+
     ret_task = task_submit_dep(
         nullptr, &jitc_task, 1, blocks,
         callback, kernel_params.data(),
-- 
2.43.0


From 62ba3ebaee7f0be47c053597e4e2434753d9e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 11/76] fix: jit_var_migrate() accessed a variable after
 releasing the lock

---
 src/var.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index c32f9ff..3784ec3 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2065,6 +2065,7 @@ uint32_t jitc_var_migrate(uint32_t src_index, JitBackend dst_backend) {
 
     if (v->is_literal() || v->is_undefined()) {
         size_t size = v->size;
+        VarType vt = (VarType) v->type;
         void *ptr = jitc_malloc(dst_backend, type_size[v->type] * size);
         v = jitc_var(src_index);
 
@@ -2104,7 +2105,8 @@ uint32_t jitc_var_migrate(uint32_t src_index, JitBackend dst_backend) {
             }
         }
 
-        return jitc_var_mem_map(backend, (VarType) v->type, ptr, v->size, 1);
+        // The above may release the lock, which invalidates 'v'
+        return jitc_var_mem_map(backend, vt, ptr, size, 1);
     }
 
     if (!v->is_evaluated() || v->is_dirty()) {
-- 
2.43.0


From 176a41f3b9c53b95ec0d85cef0bbe484c3f87328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:23 +0000
Subject: [PATCH 12/76] fix: shrunk masks must not share storage with their
 source

jit_var_any() and jit_var_all() initialize up to 3 entries past the end of a
mask. When the mask was created by jit_var_shrink(), these entries belong to
another variable.
---
 src/var.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 3784ec3..b76387c 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1989,8 +1989,14 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
         Ref dst = steal(jitc_var_data(index, true, &dst_addr));
 
         // Note: 'dst' owns the data and may differ from 'index'
-        result = jitc_var_mem_map(backend, vt, dst_addr, size, false);
-        jitc_var(result)->dep[3] = dst.release();
+        if (vt == VarType::Bool && size % 4) {
+            // jitc_any() and jitc_all() pad masks to a multiple of 4 entries in
+            // place, which must not affect the remainder of 'dst'.
+            result = jitc_var_mem_copy(backend, vt, dst_addr, size, false);
+        } else {
+            result = jitc_var_mem_map(backend, vt, dst_addr, size, false);
+            jitc_var(result)->dep[3] = dst.release();
+        }
     }
 
     jitc_log(Debug, "jit_var_shrink(): %s r%u[%zu] = shrink(r%u)",
-- 
2.43.0


From aebd03d9a3ff5542686a7815f09dc524760e7888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 13/76] fix: wait for all users of cached allocations in
 jit_flush_malloc_cache()

The function waited before taking possession of the allocation cache. Other
threads could submit asynchronous work and free the associated memory in the
meantime, which was then unmapped while still in use.
---
 src/malloc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 2d7b380..0e91980 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -455,7 +455,7 @@ void jitc_flush_malloc_cache(bool warn) {
 
     AllocInfoMap alloc_free;
 
-    // Another synchronization to be sure that 'alloc_free' can be released
+    // Return allocations, whose release was deferred, to 'alloc_free'
     jitc_sync_all_devices();
 
     /* Critical section */ {
@@ -463,6 +463,11 @@ void jitc_flush_malloc_cache(bool warn) {
         alloc_free.swap(state.alloc_free);
     }
 
+    // Another synchronization to be sure that 'alloc_free' can be released.
+    // Other threads may have submitted work and freed memory used by it while
+    // the previous call waited without holding 'state.lock'.
+    jitc_sync_all_devices();
+
     size_t trim_count[(int) JitBackend::Count] = { 0 },
            trim_size [(int) JitBackend::Count] = { 0 };
 
-- 
2.43.0


From 55d74936687d0471fe95d6510077e262c92ad072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 14/76] fix: strings returned by jit_var_str() etc. must not be
 modified by other threads

---
 src/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index b76387c..84b41b0 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -359,7 +359,8 @@ const char *var_kind_name[(int) VarKind::Count] {
 };
 
 /// Temporary string buffer for miscellaneous variable-related tasks
-StringBuffer var_buffer(0);
+/// Thread-local, as jit_var_str() etc. return a pointer into this buffer
+static thread_local StringBuffer var_buffer(0);
 
 static std::vector<uint32_t> free_todo;
 
-- 
2.43.0


From bb28bee6b36c26e892e17b78e77ec3b3dedf2ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:20 +0000
Subject: [PATCH 15/76] fix: block_mkperm() with a trailing partial block

When the last sorting group is smaller than 'block_size', tasks assigned to
it may start past the end of the array, and their loops then never reached
the end of the range.
---
 src/llvm_ts.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 70f2cc7..5a2145b 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -860,9 +860,10 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
             uint32_t group = index / tasks_per_group;
             uint32_t task_in_group = index % tasks_per_group;
             uint32_t group_start = group * block_size;
-            uint32_t start = group_start + task_in_group * task_size;
-            uint32_t end = std::min(start + task_size,
-                           std::min(group_start + block_size, size));
+            uint32_t group_end = std::min(group_start + block_size, size);
+            uint32_t start = std::min(group_start + task_in_group * task_size,
+                                      group_end);
+            uint32_t end = std::min(start + task_size, group_end);
 
             size_t bsize = sizeof(uint32_t) * (size_t) bucket_count;
             uint32_t *buckets_local = (uint32_t *) malloc_check(bsize);
@@ -930,9 +931,10 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
             uint32_t group = index / tasks_per_group;
             uint32_t task_in_group = index % tasks_per_group;
             uint32_t group_start = group * block_size;
-            uint32_t start = group_start + task_in_group * task_size;
-            uint32_t end = std::min(start + task_size,
-                           std::min(group_start + block_size, size));
+            uint32_t group_end = std::min(group_start + block_size, size);
+            uint32_t start = std::min(group_start + task_in_group * task_size,
+                                      group_end);
+            uint32_t end = std::min(start + task_size, group_end);
 
             uint32_t *buckets_local = buckets[index];
 
-- 
2.43.0


From 03c22a4654729f454d51bd283e539a2997be1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:20 +0000
Subject: [PATCH 16/76] fix: argument order of jit_reduce() and
 jit_block_prefix_reduce()

The former was defined with another signature than declared in jit.h (i.e. it
was missing at link time), the latter interpreted its 'block_size' and 'size'
parameters the other way around.
---
 src/api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index ddb1db6..f448806 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1301,7 +1301,7 @@ void jit_memcpy_async(JitBackend backend, void *dst, const void *src, size_t siz
 }
 
 void jit_reduce(JitBackend backend, VarType type, ReduceOp op,
-                uint32_t size, const void *in, void *out) {
+                const void *in, uint32_t size, void *out) {
     lock_guard guard(state.lock);
     jitc_reduce(backend, type, op, size, in, out);
 }
@@ -1332,7 +1332,7 @@ void jit_block_prefix_reduce(JitBackend backend, VarType type, ReduceOp op,
                              uint32_t block_size, uint32_t size, int exclusive,
                              int reverse, const void *in, void *out) {
     lock_guard guard(state.lock);
-    jitc_block_prefix_reduce(backend, type, op, block_size, size,
+    jitc_block_prefix_reduce(backend, type, op, size, block_size,
                              exclusive != 0, reverse != 0, in, out);
 }
 
-- 
2.43.0


From 0a7257de4391c36598ed2e2ec06b3248725f648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:50 +0000
Subject: [PATCH 17/76] fix: block (prefix) reductions of literals

Exclusive min/max prefix reductions must start with the identity, reverse
prefix sums mishandled a trailing partial block, products of integers were
computed in double precision with a truncated exponent, and half precision
sums of zeros over more than 65519 elements were NaN.
---
 src/var.cpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 84b41b0..f5147e4 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2428,14 +2428,28 @@ uint32_t jitc_var_compress(uint32_t index) {
 template <typename T> static void jitc_var_reduce_scalar_add(uint32_t size, void *ptr) {
     T value;
     memcpy(&value, ptr, sizeof(T));
-    value = T(value * T(size));
+    if constexpr (std::is_same_v<T, drjit::half>)
+        value = T((float) value * (float) size); // 'size' may exceed its range
+    else
+        value = T(value * T(size));
     memcpy(ptr, &value, sizeof(T));
 }
 
 template <typename T> static void jitc_var_reduce_scalar_mul(uint32_t size, void *ptr) {
     T value;
     memcpy(&value, ptr, sizeof(T));
-    value = T(std::pow((double) value, (double) T(size)));
+    if constexpr (std::is_integral_v<T>) {
+        // Exponentiation by squaring, with wrap-around
+        uint64_t base = (uint64_t) value, result = 1;
+        for (uint32_t i = size; i != 0; i >>= 1) {
+            if (i & 1)
+                result *= base;
+            base *= base;
+        }
+        value = (T) result;
+    } else {
+        value = T(std::pow((double) value, (double) size));
+    }
     memcpy(ptr, &value, sizeof(T));
 }
 
@@ -2830,10 +2844,17 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
     uint32_t size = v->size;
 
     if (v->is_literal()) {
-        if (op == ReduceOp::Max || op == ReduceOp::Min) {
+        // An exclusive reduction starts with the identity element
+        bool keep = (op == ReduceOp::Max || op == ReduceOp::Min) && !exclusive;
+
+        // The formula below can't handle a trailing partial block in reverse
+        bool affine = op == ReduceOp::Add && block_size != 0 &&
+                      (!reverse || size % block_size == 0);
+
+        if (keep) {
             jitc_var_inc_ref(index);
             return index;
-        } else if (op == ReduceOp::Add) {
+        } else if (affine) {
             Ref ctr = steal(jitc_var_counter(backend, size, true));
             if (block_size != size) {
                 Ref bsize = steal(jitc_var_u32(backend, block_size));
@@ -2857,12 +2878,9 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
         }
     }
 
-    if (!v->is_evaluated() || v->is_dirty()) {
-        jitc_var_eval(index);
-        v = jitc_var(index);
-    }
-
-    const void *data_in = v->data;
+    // Evaluate the input if needed (this case also covers literals)
+    void *data_in = nullptr;
+    Ref input = steal(jitc_var_data(index, true, &data_in));
 
     void *data_out =
         jitc_malloc(backend, (size_t) type_size[(int) vt] * size);
-- 
2.43.0


From 74a32bf4630f3871e9ccddfd6dbcf30ab8e6be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 18/76] fix: stale pointer in jit_var_block_reduce() of
 literals

Creating the first literal may reallocate the list of variables, after which
the pointer to the input was still accessed.
---
 src/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index f5147e4..f041b98 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2526,11 +2526,11 @@ uint32_t jitc_var_block_reduce(ReduceOp op, uint32_t index, uint32_t block_size,
                 break; // Nothing to do for the other reducion types
         }
 
-        Ref result = steal(jitc_var_literal((JitBackend) v->backend, (VarType) v->type, &value_header, reduced, 0));
+        Ref result = steal(jitc_var_literal(backend, vt, &value_header, reduced, 0));
 
         if (reduced * block_size != size) {
 
-            Ref trailer = steal(jitc_var_literal((JitBackend) v->backend, (VarType) v->type, &value_trailer, reduced, 0)),
+            Ref trailer = steal(jitc_var_literal(backend, vt, &value_trailer, reduced, 0)),
                 counter = steal(jitc_var_counter(backend, reduced, true)),
                 limit = steal(jitc_var_u32(backend, reduced - 1)),
                 mask = steal(jitc_var_lt(counter, limit));
-- 
2.43.0


From c025bc788444f65601639637a12b4883018b15b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 19/76] fix: jit_var_reduce_dot() of an evaluated array and a
 literal

The fast path interpreted the value of the literal as a pointer.
---
 src/var.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index f041b98..934ce9d 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2759,17 +2759,11 @@ uint32_t jitc_var_reduce_dot(uint32_t index_1, uint32_t index_2) {
         (v1->is_evaluated() || v2->is_evaluated())) {
         uint32_t size = v1->size;
 
-        // Fast path
-        bool eval = jitc_var_eval(index_1);
-        eval |= (bool)jitc_var_eval(index_2);
-        if (eval) {
-            v1 = jitc_var(index_1);
-            v2 = jitc_var(index_2);
-        }
-
-        void *ptr_1 = v1->data,
-             *ptr_2 = v2->data,
-             *data = jitc_malloc(backend, (size_t) type_size[(int) vt]);
+        // Fast path. The operands may still need to be evaluated (e.g. literals)
+        void *ptr_1 = nullptr, *ptr_2 = nullptr;
+        Ref eval_1 = steal(jitc_var_data(index_1, true, &ptr_1));
+        Ref eval_2 = steal(jitc_var_data(index_2, true, &ptr_2));
+        void *data = jitc_malloc(backend, (size_t) type_size[(int) vt]);
 
         jitc_reduce_dot(backend, vt, ptr_1, ptr_2, size, data);
 
-- 
2.43.0


From 2c74c6e01632f309098c971feccd260b8278d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:20 +0000
Subject: [PATCH 20/76] fix: keep variables consistent while their callbacks
 run without the lock

The entry of 'state.extra' may move once the lock is released, a callback may
be removed before the evaluation notification is delivered, and dependencies
of a freed variable that were queued for removal could still be found (local
value numbering, weak references) and were then freed while in use.
---
 src/eval.cpp |  7 +++++--
 src/var.cpp  | 41 ++++++++++++++++++++++++++++-------------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index ea25e80..80987c5 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1013,8 +1013,11 @@ void jitc_eval(ThreadState *ts) {
 
         jitc_log(Trace, "jit_eval(): running %zu callbacks ..", cb.size());
         for (uint32_t index: cb) {
-            VariableExtra &extra = state.extra[jitc_var(index)->extra];
-            if (extra.callback_internal) {
+            // Make a copy, 'state.extra' may be reallocated without the lock
+            VariableExtra extra = state.extra[jitc_var(index)->extra];
+            if (!extra.callback) {
+                // Removed in the meantime
+            } else if (extra.callback_internal) {
                 extra.callback(index, 0, extra.callback_data);
             } else {
                 unlock_guard guard_2(state.lock);
diff --git a/src/var.cpp b/src/var.cpp
index 934ce9d..197ff67 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -362,6 +362,7 @@ const char *var_kind_name[(int) VarKind::Count] {
 /// Thread-local, as jit_var_str() etc. return a pointer into this buffer
 static thread_local StringBuffer var_buffer(0);
 
+/// Variables that 'jitc_var_free()' still has to release (owns a reference)
 static std::vector<uint32_t> free_todo;
 
 /// Cleanup handler, called when the internal/external reference count reaches zero
@@ -410,11 +411,15 @@ JIT_NOINLINE void jitc_var_free(uint32_t index, Variable *v) noexcept {
             /* Notify callback that the variable was freed.
                Do this first, before freeing any dependencies */
             if (extra.callback) {
+                // 'state.extra' may be reallocated once the lock is released
+                auto callback = extra.callback;
+                void *callback_data = extra.callback_data;
+
                 if (extra.callback_internal) {
-                    extra.callback(index, 1, extra.callback_data);
+                    callback(index, 1, callback_data);
                 } else {
                     unlock_guard guard(state_.lock);
-                    extra.callback(index, 1, extra.callback_data);
+                    callback(index, 1, callback_data);
                 }
             }
 
@@ -444,13 +449,18 @@ JIT_NOINLINE void jitc_var_free(uint32_t index, Variable *v) noexcept {
                     jitc_fail("jit_var_dec_ref(): variable r%u has no references!", index2);
 
                 jitc_trace("jit_var_dec_ref(r%u): %u", index2, (uint32_t) v2->ref_count - 1);
-                v2->ref_count--;
 
-                if (v2->ref_count == 0 && v2->ref_count_se == 0) {
-                    if (!index)
+                if (v2->ref_count == 1 && v2->ref_count_se == 0) {
+                    if (!index) {
+                        v2->ref_count--;
                         index = index2; // free this variable next
-                    else
-                        free_todo.push_back(index2); // push on TODO list
+                    } else {
+                        // Push on TODO list, which takes over the reference.
+                        // Free callbacks may release the lock
+                        free_todo.push_back(index2);
+                    }
+                } else {
+                    v2->ref_count--;
                 }
             }
         } else if (dep[3]) {
@@ -468,15 +478,20 @@ JIT_NOINLINE void jitc_var_free(uint32_t index, Variable *v) noexcept {
                 index = index2; // free this variable next
         }
 
-        if (!index) {
-            // Out of work, pull from todo list
-            if (free_todo.empty())
-                break;
-
-            index = free_todo.back();
+        while (!index && !free_todo.empty()) {
+            // Out of work, pull from todo list. Skip variables that were
+            // referenced again while a callback was running
+            uint32_t index2 = free_todo.back();
             free_todo.pop_back();
+
+            Variable *v2 = &state_.variables[index2];
+            if (--v2->ref_count == 0 && v2->ref_count_se == 0)
+                index = index2;
         }
 
+        if (!index)
+            break;
+
         v = &state_.variables[index];
     } while (true);
 
-- 
2.43.0


From e236363ae34b5d78d178755a34d9861918bd3583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:20 +0000
Subject: [PATCH 21/76] fix: release the lock while jit_event_elapsed_time()
 waits

Otherwise, host functions that use the API (and that precede the event) can
never finish.
---
 src/llvm_ts.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 5a2145b..329056e 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -1248,9 +1248,17 @@ float jitc_llvm_event_elapsed_time(JitEvent start, JitEvent end) {
     if (!s->llvm_task || !e->llvm_task)
         jitc_raise("jit_event_elapsed_time(): events must be recorded");
 
-    // Ensure both tasks are complete
-    task_wait(s->llvm_task);
-    task_wait(e->llvm_task);
+    // Ensure both tasks are complete. Release the lock while waiting
+    Task *s_task = s->llvm_task, *e_task = e->llvm_task;
+    task_retain(s_task);
+    task_retain(e_task);
 
-    return (float) task_time_rel(s->llvm_task, e->llvm_task);
+    unlock_guard guard(state.lock);
+    task_wait(s_task);
+    task_wait(e_task);
+
+    float result = (float) task_time_rel(s_task, e_task);
+    task_release(s_task);
+    task_release(e_task);
+    return result;
 }
-- 
2.43.0


From 1553fcdac431382731409c8a55701c883f1adad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 22/76] fix: lost updates in expanded scatter-reductions run by
 several helper threads

Threads outside of the thread pool that help out while waiting all have the
thread ID zero and would concurrently update the same part of the target.
---
 src/init.cpp    | 22 ++++++++++++++++------
 src/llvm_ts.cpp | 13 +++++++++++--
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index c1607fa..24cf852 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -155,11 +155,16 @@ void jitc_shutdown(int light) {
 
     if (jitc_task) {
         Task *task = jitc_task;
-        task_wait(task);
+        task_retain(task);
+        {
+            unlock_guard guard(state.lock);
+            task_wait(task);
+        }
         if (jitc_task == task) {
             task_release(task);
             jitc_task = nullptr;
         }
+        task_release(task);
     }
 
     if (!state.kernel_cache.empty()) {
@@ -801,9 +806,14 @@ void KernelHistory::append(const KernelHistoryEntry &value) {
 }
 
 KernelHistoryEntry *KernelHistory::get() {
+    // Detach the data, the loop below may temporarily release the lock
     KernelHistoryEntry *data = m_data;
+    size_t size = m_size;
 
-    for (size_t i = 0; i < m_size; i++) {
+    m_data = nullptr;
+    m_size = m_capacity = 0;
+
+    for (size_t i = 0; i < size; i++) {
         KernelHistoryEntry &k = data[i];
 #if defined(DRJIT_ENABLE_CUDA)
         if (jitc_is_cuda(k.backend)) {
@@ -823,16 +833,16 @@ KernelHistoryEntry *KernelHistory::get() {
         } else
 #endif
         {
-            task_wait((Task *) k.task);
+            {
+                unlock_guard guard(state.lock);
+                task_wait((Task *) k.task);
+            }
             k.execution_time = (float) task_time((Task *) k.task);
             task_release((Task *) k.task);
             k.task = nullptr;
         }
     }
 
-    m_data = nullptr;
-    m_size = m_capacity = 0;
-
     return data;
 }
 
diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 329056e..30acf14 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -7,6 +7,7 @@
 #include "util.h"
 #include "llvm_red.h"
 #include "llvm_gemm.h"
+#include <mutex>
 
 /// Helper function: enqueue parallel CPU task (synchronous or asynchronous)
 template <typename Func>
@@ -175,8 +176,16 @@ LLVMThreadState::launch(Kernel kernel, KernelKey & /*key*/,
         __itt_task_begin(drjit_domain, __itt_null, __itt_null,
                          (__itt_string_handle *) params[2]);
 #endif
-        // Perform the main computation
-        kernel(start, end, thread_id, params);
+        // Perform the main computation. All threads outside of the pool (which
+        // help out while they wait) share the ID 0, which identifies a part of
+        // the target of expanded scatter-reductions (see jitc_var_expand())
+        if (thread_id == 0) {
+            static std::mutex mutex;
+            std::lock_guard<std::mutex> guard(mutex);
+            kernel(start, end, thread_id, params);
+        } else {
+            kernel(start, end, thread_id, params);
+        }
 
 #if defined(DRJIT_ENABLE_ITTNOTIFY)
         // Signal termination of kernel
-- 
2.43.0


From 81d73ebfeac9218ce7f5b8ae3d28d989933fd9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:38 +0000
Subject: [PATCH 23/76] fix: release the lock while waiting for kernels, the
 kernel history, and jit_shutdown()

Host functions enqueued on the same task chain may need the lock to make
progress.
---
 src/llvm_ts.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 30acf14..0d13531 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -218,9 +218,6 @@ LLVMThreadState::launch(Kernel kernel, KernelKey & /*key*/,
         nullptr
     );
 
-    if (unlikely(jit_flag(JitFlag::LaunchBlocking)))
-        task_wait(ret_task);
-
     scheduled_tasks.push_back(ret_task);
 
     if (kernel_history_entry) {
@@ -229,6 +226,13 @@ LLVMThreadState::launch(Kernel kernel, KernelKey & /*key*/,
         state.kernel_history.append(*kernel_history_entry);
     }
 
+    // Release the lock while waiting (host functions may need it)
+    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
+        task_retain(ret_task);
+        unlock_guard guard(state.lock);
+        task_wait_and_release(ret_task);
+    }
+
     return ret_task;
 }
 
-- 
2.43.0


From 14fab7e0cf08bcc9588bd348b73f3e34fdb15794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 24/76] fix: gathers from literals that have a variable
 callback

---
 src/op.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index b75abda..c3bfa06 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2198,8 +2198,11 @@ uint32_t jitc_var_gather(uint32_t src_, uint32_t index, uint32_t mask) {
     }
 
     // At this point, we *will* have to evalute the source, if not done already.
-    if (!result)
-        jitc_var_eval(src);
+    // Literals (e.g. with an attached callback) require a separate allocation.
+    if (!result) {
+        void *src_ptr = nullptr;
+        src = steal(jitc_var_data(src, true, &src_ptr));
+    }
 
     /// Perform a memcpy when this is a size-1 literal load
     /// (if not in a function freezing scope)
-- 
2.43.0


From 3bdc652b7eb6fae054b96b6c2cf60c3ab18cc25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 25/76] fix: do not re-index variable arrays and scatter_inc()
 operations in gathers

Gathering from an unevaluated scatter_inc() result duplicated the operation
and incremented counters twice; variable arrays lost their length and state.
---
 src/op.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index c3bfa06..b49c21e 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1932,6 +1932,9 @@ static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
     if (v->is_evaluated() || (VarType) v->type == VarType::Void)
         return 0; // evaluated variable, give up
 
+    if (v->is_array() || (VarKind) v->kind == VarKind::ScatterInc)
+        return 0; // variable array or operation with a side effect, give up
+
     if (v->extra) {
         VariableExtra *e = jitc_var_extra(v);
         if (e->callback)
-- 
2.43.0


From c2950a12b88f9b3cbbab31a6919581151c2e0a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 26/76] fix: signed and unsigned scatter-reductions (min/max)
 in the same kernel

---
 src/llvm_scatter.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/llvm_scatter.cpp b/src/llvm_scatter.cpp
index 2301d72..f7035d9 100644
--- a/src/llvm_scatter.cpp
+++ b/src/llvm_scatter.cpp
@@ -174,6 +174,18 @@ static const char *reduce_op_name[(int) ReduceOp::Count] = {
     "", "add", "mul", "min", "max", "and", "or"
 };
 
+/// Name of a reduction used to generate function names. LLVM types don't
+/// distinguish signed and unsigned integers, while minima/maxima must do so.
+static const char *jitc_llvm_reduce_op_name(VarType vt, ReduceOp op) {
+    if (jitc_is_uint(vt)) {
+        if (op == ReduceOp::Min)
+            return "umin";
+        else if (op == ReduceOp::Max)
+            return "umax";
+    }
+    return reduce_op_name[(int) op];
+}
+
 static const char *jitc_llvm_append_reduce_op_direct(VarType vt, ReduceOp op, const Variable *v) {
     if (jitc_llvm_vector_width > 32)
         jitc_fail("jitc_llvm_append_reduce_op_direct(): internal error -- code generation "
@@ -184,7 +196,7 @@ static const char *jitc_llvm_append_reduce_op_direct(VarType vt, ReduceOp op, co
              val_align = type_size[(int) vt],
              val_align_vec = val_align * jitc_llvm_vector_width;
 
-    const char *op_name = reduce_op_name[(int) op];
+    const char *op_name = jitc_llvm_reduce_op_name(vt, op);
     std::string atomic = jitc_llvm_render_atomic(vt, op, "%val_i", "loop_suffix");
 
     fmt_intrinsic(
@@ -234,7 +246,7 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
              ptr_align_vec = std::min(ptr_align * jitc_llvm_vector_width, jitc_llvm_max_align),
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
-    const char *op_name = reduce_op_name[(int) op],
+    const char *op_name = jitc_llvm_reduce_op_name(vt, op),
                *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
 
     std::string atomic = jitc_llvm_render_atomic(vt, op, "%red_out", "do_scatter_end");
@@ -330,7 +342,7 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
              val_align = type_size[(int) vt],
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
-    const char *op_name = reduce_op_name[(int) op],
+    const char *op_name = jitc_llvm_reduce_op_name(vt, op),
                *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
 
 
@@ -518,7 +530,7 @@ void jitc_llvm_render_scatter_reduce(const Variable *v,
         "    call fastcc void @reduce_$s_$h_$s(<$w x ptr> $v_1, $V, i$w $v_2)\n",
         v, value, ptr, index,
         v, mask,
-        reduce_op_name[(int) op], value, variant, v, value, v);
+        jitc_llvm_reduce_op_name(vt, op), value, variant, v, value, v);
 }
 
 void jitc_llvm_render_scatter_inc(Variable *v, const Variable *ptr,
-- 
2.43.0


From 199f2404c121dc804c74508f66545730912af6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 27/76] fix: broadcasting of evaluated variable arrays with a
 single thread

---
 src/llvm_array.cpp | 53 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index b694b2d..c8ba27b 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -338,15 +338,56 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
 }
 
 void jitc_llvm_render_array_memcpy_in(const Variable *v) {
-    fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
     fmt( "    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
-         "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n"
-         "    $v_p3 = mul i64 %index, $u\n"
+         "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n",
+         v, v,
+         v, v);
+
+    if (v->size == 1) {
+        // Only the first SIMD lane is initialized, broadcast it
+        fmt("    br label %l_$u_in_pre\n\n"
+            "l_$u_in_pre:\n"
+            "    br label %l_$u_in_loop\n\n"
+            "l_$u_in_loop:\n"
+            "    $v_cur = phi i64 [ 0, %l_$u_in_pre ], [ $v_next, %l_$u_in_loop ]\n"
+            "    $v_p3 = getelementptr inbounds $M, ptr $v_p2, i64 $v_cur\n"
+            "    $v_0 = load $m, ptr $v_p3, align $a\n"
+            "    $v_1 = insertelement $M undef, $m $v_0, i32 0\n"
+            "    $v_2 = shufflevector $M $v_1, $M undef, <$w x i32> $z\n"
+            "    $v_p4 = getelementptr inbounds $M, ptr %arr_$u, i64 $v_cur\n"
+            "    store $M $v_2, ptr $v_p4, align $A\n"
+            "    $v_next = add i64 $v_cur, 1\n"
+            "    $v_cont = icmp ult i64 $v_next, $u\n"
+            "    br i1 $v_cont, label %l_$u_in_loop, label %l_$u_in_done\n\n"
+            "l_$u_in_done:\n",
+            v->reg_index,
+            v->reg_index,
+            v->reg_index,
+            v->reg_index,
+            // phi
+            v, v->reg_index, v, v->reg_index,
+            // load
+            v, v, v, v,
+            v, v, v, v,
+            // broadcast
+            v, v, v, v,
+            v, v, v, v,
+            // store
+            v, v, v->reg_index, v,
+            v, v, v, v,
+            v, v,
+            v, v, v->array_length,
+            v, v->reg_index, v->reg_index,
+            v->reg_index
+        );
+        return;
+    }
+
+    fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
+    fmt( "    $v_p3 = mul i64 %index, $u\n"
          "    $v_p4 = getelementptr inbounds $m, ptr $v_p2, i64 $v_p3\n"
          "    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) %arr_$u, ptr align($A) $v_p4, i32 $u, i1 0)\n",
-        v, v,
-        v, v,
-        v, v->size == 1 ? 0 : v->array_length,
+        v, v->array_length,
         v, v, v, v,
         v, v->reg_index, v, v, v->array_length * type_size[v->type] * jitc_llvm_vector_width
     );
-- 
2.43.0


From aa3a6049a96bde76f20e79d6fd34e7d5f89f176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 28/76] fix: kernels with large evaluated variable arrays on
 LLVM 18

The SROA pass turns llvm.memcpy.inline into a call to memcpy(), which fails
to link and aborts the process.
---
 src/llvm_array.cpp | 164 ++++++++++++++++++++++++++++++---------------
 1 file changed, 110 insertions(+), 54 deletions(-)

diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index c8ba27b..b544502 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -212,10 +212,36 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
     if (copy) {
         target_buffer = jitc_array_buffer(v)->reg_index;
 
-        fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
-        fmt("    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) %arr_$u, ptr align($A) %arr_$u, i32 $u, i1 0)\n",
-            v, target_buffer, v, target->reg_index,
-            target->array_length * type_size[target->type] * jitc_llvm_vector_width);
+        fmt("    br label %l_$u_cp_pre\n\n"
+            "l_$u_cp_pre:\n"
+            "    br label %l_$u_cp_loop\n\n"
+            "l_$u_cp_loop:\n"
+            "    $v_cur = phi i64 [ 0, %l_$u_cp_pre ], [ $v_next, %l_$u_cp_loop ]\n"
+            "    $v_ps = getelementptr inbounds $M, ptr %arr_$u, i64 $v_cur\n"
+            "    $v_pd = getelementptr inbounds $M, ptr %arr_$u, i64 $v_cur\n"
+            "    $v_cp = load $M, ptr $v_ps, align $A\n"
+            "    store $M $v_cp, ptr $v_pd, align $A\n"
+            "    $v_next = add i64 $v_cur, 1\n"
+            "    $v_cont = icmp ult i64 $v_next, $u\n"
+            "    br i1 $v_cont, label %l_$u_cp_loop, label %l_$u_cp_done\n\n"
+            "l_$u_cp_done:\n",
+            v->reg_index,
+            v->reg_index,
+            v->reg_index,
+            v->reg_index,
+            // phi
+            v, v->reg_index, v, v->reg_index,
+            // gep
+            v, v, target->reg_index, v,
+            v, v, target_buffer, v,
+            // load/store
+            v, v, v, v,
+            v, v, v, v,
+            v, v,
+            v, v, v->array_length,
+            v, v->reg_index, v->reg_index,
+            v->reg_index
+        );
     }
 
     const char *ext = "";
@@ -337,74 +363,104 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
     v->reg_index = target_buffer;
 }
 
+/**
+ * Note: the following two functions (and the copy performed by
+ * ``jitc_llvm_render_array_write()``) don't use ``llvm.memcpy.inline``. The
+ * SROA pass of LLVM 18 turns it into a call to memcpy() when a part of the
+ * array can be kept in registers, and such calls cannot be linked.
+ */
 void jitc_llvm_render_array_memcpy_in(const Variable *v) {
-    fmt( "    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
-         "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n",
-         v, v,
-         v, v);
+    fmt("    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
+        "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n"
+        "    $v_p3 = mul i64 %index, $u\n"
+        "    $v_p4 = getelementptr inbounds $m, ptr $v_p2, i64 $v_p3\n"
+        "    br label %l_$u_in_pre\n\n"
+        "l_$u_in_pre:\n"
+        "    br label %l_$u_in_loop\n\n"
+        "l_$u_in_loop:\n"
+        "    $v_cur = phi i64 [ 0, %l_$u_in_pre ], [ $v_next, %l_$u_in_loop ]\n"
+        "    $v_ps = getelementptr inbounds $M, ptr $v_p4, i64 $v_cur\n"
+        "    $v_pd = getelementptr inbounds $M, ptr %arr_$u, i64 $v_cur\n",
+        v, v,
+        v, v,
+        v, v->size == 1 ? 0 : v->array_length,
+        v, v, v, v,
+        v->reg_index,
+        v->reg_index,
+        v->reg_index,
+        v->reg_index,
+        // phi
+        v, v->reg_index, v, v->reg_index,
+        // gep
+        v, v, v, v,
+        v, v, v->reg_index, v
+    );
 
     if (v->size == 1) {
         // Only the first SIMD lane is initialized, broadcast it
-        fmt("    br label %l_$u_in_pre\n\n"
-            "l_$u_in_pre:\n"
-            "    br label %l_$u_in_loop\n\n"
-            "l_$u_in_loop:\n"
-            "    $v_cur = phi i64 [ 0, %l_$u_in_pre ], [ $v_next, %l_$u_in_loop ]\n"
-            "    $v_p3 = getelementptr inbounds $M, ptr $v_p2, i64 $v_cur\n"
-            "    $v_0 = load $m, ptr $v_p3, align $a\n"
+        fmt("    $v_0 = load $m, ptr $v_ps, align $a\n"
             "    $v_1 = insertelement $M undef, $m $v_0, i32 0\n"
-            "    $v_2 = shufflevector $M $v_1, $M undef, <$w x i32> $z\n"
-            "    $v_p4 = getelementptr inbounds $M, ptr %arr_$u, i64 $v_cur\n"
-            "    store $M $v_2, ptr $v_p4, align $A\n"
-            "    $v_next = add i64 $v_cur, 1\n"
-            "    $v_cont = icmp ult i64 $v_next, $u\n"
-            "    br i1 $v_cont, label %l_$u_in_loop, label %l_$u_in_done\n\n"
-            "l_$u_in_done:\n",
-            v->reg_index,
-            v->reg_index,
-            v->reg_index,
-            v->reg_index,
-            // phi
-            v, v->reg_index, v, v->reg_index,
-            // load
+            "    $v_2 = shufflevector $M $v_1, $M undef, <$w x i32> $z\n",
             v, v, v, v,
             v, v, v, v,
-            // broadcast
-            v, v, v, v,
-            v, v, v, v,
-            // store
-            v, v, v->reg_index, v,
-            v, v, v, v,
-            v, v,
-            v, v, v->array_length,
-            v, v->reg_index, v->reg_index,
-            v->reg_index
-        );
-        return;
+            v, v, v, v);
+    } else {
+        fmt("    $v_2 = load $M, ptr $v_ps, align $A\n",
+            v, v, v, v);
     }
 
-    fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
-    fmt( "    $v_p3 = mul i64 %index, $u\n"
-         "    $v_p4 = getelementptr inbounds $m, ptr $v_p2, i64 $v_p3\n"
-         "    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) %arr_$u, ptr align($A) $v_p4, i32 $u, i1 0)\n",
-        v, v->array_length,
+    fmt("    store $M $v_2, ptr $v_pd, align $A\n"
+        "    $v_next = add i64 $v_cur, 1\n"
+        "    $v_cont = icmp ult i64 $v_next, $u\n"
+        "    br i1 $v_cont, label %l_$u_in_loop, label %l_$u_in_done\n\n"
+        "l_$u_in_done:\n",
         v, v, v, v,
-        v, v->reg_index, v, v, v->array_length * type_size[v->type] * jitc_llvm_vector_width
+        v, v,
+        v, v, v->array_length,
+        v, v->reg_index, v->reg_index,
+        v->reg_index
     );
 }
 
 void jitc_llvm_render_array_memcpy_out(const Variable *v) {
-    fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
-    fmt( "    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
-         "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n"
-         "    $v_p3 = mul i64 %index, $u\n"
-         "    $v_p4 = getelementptr inbounds $m, ptr $v_p2, i64 $v_p3\n"
-         "    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) $v_p4, ptr align($A) %arr_$u, i32 $u, i1 0)\n",
+    // 'reg_index' may refer to the buffer of another array
+    fmt("    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
+        "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n"
+        "    $v_p3 = mul i64 %index, $u\n"
+        "    $v_p4 = getelementptr inbounds $m, ptr $v_p2, i64 $v_p3\n"
+        "    br label %l_$o_out_pre\n\n"
+        "l_$o_out_pre:\n"
+        "    br label %l_$o_out_loop\n\n"
+        "l_$o_out_loop:\n"
+        "    $v_$o_cur = phi i64 [ 0, %l_$o_out_pre ], [ $v_$o_next, %l_$o_out_loop ]\n"
+        "    $v_$o_ps = getelementptr inbounds $M, ptr %arr_$u, i64 $v_$o_cur\n"
+        "    $v_$o_pd = getelementptr inbounds $M, ptr $v_p4, i64 $v_$o_cur\n"
+        "    $v_$o_v = load $M, ptr $v_$o_ps, align $A\n"
+        "    store $M $v_$o_v, ptr $v_$o_pd, align $A\n"
+        "    $v_$o_next = add i64 $v_$o_cur, 1\n"
+        "    $v_$o_cont = icmp ult i64 $v_$o_next, $u\n"
+        "    br i1 $v_$o_cont, label %l_$o_out_loop, label %l_$o_out_done\n\n"
+        "l_$o_out_done:\n",
         v, v,
         v, v,
         v, v->array_length,
         v, v, v, v,
-        v, v, v, v->reg_index, v->array_length * type_size[v->type] * jitc_llvm_vector_width
+        v,
+        v,
+        v,
+        v,
+        // phi
+        v, v, v, v, v, v,
+        // gep
+        v, v, v, v->reg_index, v, v,
+        v, v, v, v, v, v,
+        // load/store
+        v, v, v, v, v, v,
+        v, v, v, v, v, v,
+        v, v, v, v,
+        v, v, v, v, v->array_length,
+        v, v, v, v,
+        v
     );
 }
 
-- 
2.43.0


From 5cec86ead44e3fe954b6d7460464f9d24941d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 29/76] fix: order of log messages delivered by several threads

---
 src/log.cpp | 57 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/log.cpp b/src/log.cpp
index d20365d..541ac3f 100644
--- a/src/log.cpp
+++ b/src/log.cpp
@@ -69,27 +69,44 @@ static std::string jitc_vformat(const char *fmt, va_list args) {
     return result;
 }
 
-/// Hand queued messages to the log callback. No Dr.Jit lock may be held.
-static void jitc_log_deliver() noexcept {
-    std::vector<LogMessage> todo;
-
-    {
-        std::lock_guard<std::mutex> guard(log_mutex);
-        todo.swap(log_postponed);
-    }
+/// Is a thread currently passing messages to the callback? (see 'log_mutex')
+static bool log_delivering = false;
+
+/**
+ * Hand queued messages to the log callback. No Dr.Jit lock may be held.
+ *
+ * Only one thread delivers at a time to preserve the order of messages. Others
+ * (including log callbacks that log) leave their messages to this thread unless
+ * \c force is set.
+ */
+static void jitc_log_deliver(bool force = false) noexcept {
+    while (true) {
+        std::vector<LogMessage> todo;
+
+        {
+            std::lock_guard<std::mutex> guard(log_mutex);
+            if (log_postponed.empty() || (log_delivering && !force))
+                return;
+            log_delivering = true;
+            todo.swap(log_postponed);
+        }
 
-    LogCallback callback = state.log_callback;
-    for (LogMessage &message : todo) {
-        if (unlikely(!callback))
-            break;
-
-        // The callback runs user code, which may fail in arbitrary ways
-        try {
-            callback(message.level, message.msg.c_str());
-        } catch (...) {
-            fputs(message.msg.c_str(), stderr);
-            fputc('\n', stderr);
+        LogCallback callback = state.log_callback;
+        for (LogMessage &message : todo) {
+            if (unlikely(!callback))
+                break;
+
+            // The callback runs user code, which may fail in arbitrary ways
+            try {
+                callback(message.level, message.msg.c_str());
+            } catch (...) {
+                fputs(message.msg.c_str(), stderr);
+                fputc('\n', stderr);
+            }
         }
+
+        std::lock_guard<std::mutex> guard(log_mutex);
+        log_delivering = false;
     }
 }
 
@@ -183,7 +200,7 @@ void jitc_vfail(const char* fmt, va_list args) noexcept {
         state.lock.recursion_count = 1;
         lock_release(state.lock);
     }
-    jitc_log_deliver(); // Unconditional: we are about to abort
+    jitc_log_deliver(true); // Unconditional: we are about to abort
 
     if (state.log_callback) {
         state.log_callback(Error, msg.c_str());
-- 
2.43.0


From 93fc9acb02c00b09d9074db58bd967e3a87cbeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 30/76] fix: registry state left behind by jit_shutdown()

---
 src/registry.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 0aaaa26..f334c10 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -68,7 +68,7 @@ uint32_t jitc_registry_put(const char *variant, const char *domain_name, void *p
 
     auto [it1, result1] =
         r.rev_map.try_emplace(ptr, ReverseKey{});
-    if (unlikely(!result1))
+    if (unlikely(!result1 && it1->second.domain_id != UINT32_MAX))
         jitc_raise("jit_registry_put(domain=\"%s\", ptr=%p): pointer is "
                    "already registered!", domain_name, ptr);
 
@@ -250,8 +250,11 @@ void jitc_registry_shutdown() {
         if (!r.rev_map.empty()) {
             std::vector<size_t> leak_counts(r.domains.size(), 0);
 
-            for (const auto &entry : r.rev_map)
-                leak_counts.at(entry.second.domain_id)++;
+            for (const auto &entry : r.rev_map) {
+                // Skip instances that were leaked by a previous session
+                if (entry.second.domain_id != UINT32_MAX)
+                    leak_counts.at(entry.second.domain_id)++;
+            }
 
             for (size_t i = 0; i < r.domains.size(); i++) {
                 if (leak_counts[i] > 0)
@@ -262,6 +265,10 @@ void jitc_registry_shutdown() {
         }
     }
 
+    // Mark leaked instances as cleared. They can still be removed later on.
+    for (auto it = r.rev_map.begin(); it != r.rev_map.end(); ++it)
+        it.value() = ReverseKey { UINT32_MAX, UINT32_MAX };
+
     r.domain_ids.clear();
     r.domains.clear();
 }
-- 
2.43.0


From ffeeb6a508cb90adac537f659b3cf15cb0ce2ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 31/76] fix: partially written cache entries when process
 identifiers collide

Hosts or containers sharing a kernel cache may use the same pid. The temporary
file of one process could then be truncated by another after it was published
(or, following a crash, was still linked to a published entry).
---
 src/io.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index b4fdc20..e6c7519 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -442,9 +442,15 @@ bool jitc_kernel_write(const char *source, uint32_t source_size,
     jitc_lz4_init();
 
     // The temporary name carries the pid: a process that dies before the
-    // cleanup below must not poison this kernel for every future process.
-    char tmp_suffix[24];
-    snprintf(tmp_suffix, sizeof(tmp_suffix), ".%u.tmp", (unsigned) jitc_getpid());
+    // cleanup below must not poison this kernel for every future process. It
+    // also carries the time: the pid alone is not unique when hosts or
+    // containers share the directory, and writing into a file that another
+    // process has already published would expose a partial entry.
+    char tmp_suffix[48];
+    snprintf(tmp_suffix, sizeof(tmp_suffix), ".%u.%llx.tmp",
+             (unsigned) jitc_getpid(),
+             (unsigned long long) std::chrono::system_clock::now()
+                 .time_since_epoch().count());
 
     fs::path path = jitc_cache_entry(hash, backend), path_tmp = path;
     path_tmp += tmp_suffix;
-- 
2.43.0


From 03aba31618c3840d0a7d73484f7402a66bb5ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 32/76] fix: error messages must not overwrite a kernel that
 another thread compiles

The error path of the operand checks formatted its message into the global
'buffer'. While another thread compiles (without holding the lock), this buffer
contains the kernel source that is later stored in the kernel cache.
---
 src/op.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index b49c21e..cc5f9bb 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -205,21 +205,22 @@ auto jitc_var_check_impl(const char *name, std::index_sequence<Is...>, Args... a
     );
 
 fail:
-    buffer.clear();
-    buffer.fmt("%s(", name);
+    // Don't use the global 'buffer': another thread may be compiling its contents
+    StringBuffer msg(128);
+    msg.fmt("%s(", name);
     for (uint32_t i = 0; i < Size; ++i)
-        buffer.fmt("r%u%s", dep[i], i + 1 < Size ? ", " : "");
-    buffer.fmt("): %s!", err);
+        msg.fmt("r%u%s", dep[i], i + 1 < Size ? ", " : "");
+    msg.fmt("): %s!", err);
 
     if (size == (uint32_t) -1) {
-        buffer.put(" (sizes: ");
+        msg.put(" (sizes: ");
         for (uint32_t i = 0; i < Size; ++i)
-            buffer.fmt("%u%s", dep[i] ? jitc_var(dep[i])->size : 0,
+            msg.fmt("%u%s", dep[i] ? jitc_var(dep[i])->size : 0,
                        i + 1 < Size ? ", " : "");
-        buffer.put(")");
+        msg.put(")");
     }
 
-    throw std::runtime_error(buffer.get());
+    throw std::runtime_error(msg.get());
 }
 
 template <int Flags = IgnoreTypes, typename... Args>
-- 
2.43.0


From ccd22fbf26cff57d5f591457e36c1a478d432df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 33/76] fix: jit_var_whos() failed while another thread
 evaluated an indirect call

The buffer holding the call data has no storage until the kernel was assembled,
and the lock may be released before that.
---
 src/var.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index 197ff67..8dd4723 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -3118,7 +3118,10 @@ const char *jitc_var_whos() {
             var_buffer.put("const.     ");
         } else if (v.is_evaluated()) {
             auto it = state.alloc_used.find((uintptr_t) v.data);
-            if (unlikely(it == state.alloc_used.end())) {
+            if (unlikely(!v.data)) {
+                // Call data of a kernel that another thread is still assembling
+                var_buffer.put("           ");
+            } else if (unlikely(it == state.alloc_used.end())) {
                 if (!v.retain_data)
                     jitc_raise("jit_var_whos(): Cannot resolve pointer to actual allocation!");
                 else
-- 
2.43.0


From 4ac3813e8552d8435c0e32d88e0fe245f916da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 34/76] fix: concurrent sweeps of the kernel cache evicted too
 much

A sweep did not account for entries removed by another process, and went on to
evict further (more recently used) ones in their place.
---
 src/io.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index e6c7519..6578392 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -598,8 +598,13 @@ static void jitc_cache_sweep_thread(fs::path dir, size_t max_size, bool verbose)
             for (const Entry &e : entries) {
                 if (total <= target)
                     break;
-                if (fs::remove(e.path, ec)) {
-                    total -= e.size;
+                bool removed_here = fs::remove(e.path, ec);
+                if (ec)
+                    continue;
+                // Also account for entries that another process just removed,
+                // otherwise two concurrent sweeps evict twice as much.
+                total -= e.size;
+                if (removed_here) {
                     removed_size += e.size;
                     removed++;
                 }
-- 
2.43.0


From e96c9e643b94ba5fd64035ef953ea53b71627ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 35/76] fix: scatter-reductions were lost when an earlier
 recording was abandoned

---
 src/op.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index cc5f9bb..0d514aa 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2867,16 +2867,12 @@ jitc_var_infer_reduce_mode(const char *name, JitBackend backend, Ref &target,
             const Variable *index_v2 = jitc_var(index);
             uint32_t size = index_v2->size;
 
-            // Track if this is the first time that 'jit_var_expand' is called
-            reduce_expanded =
-                jitc_var(target)->reduce_op() == ReduceOp::Identity;
-
-            // When capturing symbolic loops, side effects might be deleted
-            // and re-recorded. So, even if `jit_var_expand` was already called
-            // once, its corresponding side effect might have been deleted. We
-            // therefore always mark this as the first time it's being called
-            // when inside a symbolic scope.
-            reduce_expanded |= (bool) jit_flag(JitFlag::SymbolicScope);
+            // Every scatter must be followed by a reduction of the expanded
+            // array, even if 'jit_var_expand' was already called before: the
+            // preceding side effect might have been deleted (e.g. when a
+            // symbolic loop was re-recorded, or when a symbolic recording
+            // session was abandoned). Redundant reductions have no effect.
+            reduce_expanded = true;
 
             auto [target_i, expand_i] = jitc_var_expand(target, op);
             target = steal(target_i);
-- 
2.43.0


From 1cfe831e5ccd4b4bbbbada6e6ee10bb48fd4c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 36/76] fix: expanded arrays rejected other writes after a
 recording was abandoned

---
 src/op.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 0d514aa..116759e 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2836,6 +2836,15 @@ jitc_var_infer_reduce_mode(const char *name, JitBackend backend, Ref &target,
     // Raise an error if the target array is currently stored in an expanded
     // form that isn't compatible with the operation to be performed.
     ReduceOp op_cur = jitc_var(target)->reduce_op();
+
+    // The scatter-reductions that required the expansion might have been
+    // deleted (e.g. when an abandoned recording session contained them)
+    if (op_cur != ReduceOp::Identity && op_cur != op &&
+        !jitc_var(target)->is_dirty()) {
+        jitc_var_reduce_expanded(target);
+        op_cur = ReduceOp::Identity;
+    }
+
     if (op_cur != ReduceOp::Identity && op_cur != op)
         jitc_raise(
             "%s(): it is not legal to mix different types of "
-- 
2.43.0


From 3fac933e74abd8dd97a27438e5a5b054f915a7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 37/76] fix: scatter-reductions recorded into arrays with
 pending writes

---
 src/op.cpp  | 18 ++++++++++++++++++
 src/var.cpp |  4 +---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 116759e..8a23dba 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2866,6 +2866,24 @@ jitc_var_infer_reduce_mode(const char *name, JitBackend backend, Ref &target,
                 mode = ReduceMode::Auto;
         }
 
+        // Pending writes refer to the original array, perform them before it is
+        // expanded. Those of a surrounding symbolic recording session cannot
+        // be evaluated at this point, hence do not expand the target. When the
+        // target is already expanded, a recording session must not add to
+        // pending reductions: these could be evaluated before it ends, which
+        // undoes the expansion.
+        if (mode == ReduceMode::Expand && jitc_var(target)->is_dirty()) {
+            ThreadState *ts = thread_state(backend);
+
+            if (op_cur == ReduceOp::Identity ||
+                (jit_flag(JitFlag::SymbolicScope) && !ts->side_effects.empty()))
+                jitc_eval(ts);
+
+            const Variable *v = jitc_var(target);
+            if (v->is_dirty() && (ReduceOp) v->reduce_op() == ReduceOp::Identity)
+                mode = ReduceMode::Auto;
+        }
+
         if (mode == ReduceMode::Auto)
             mode = jit_flag(JitFlag::ScatterReduceLocal)
                        ? ReduceMode::Local
diff --git a/src/var.cpp b/src/var.cpp
index 8dd4723..fc0844a 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2950,9 +2950,7 @@ std::pair<uint32_t, uint32_t> jitc_var_expand(uint32_t index, ReduceOp op) {
     v = jitc_var(index);
     if (!v->is_literal() || v->literal != identity) {
         void *src_addr = nullptr;
-        // Perform pending writes first, they refer to the original array
-        bool symbolic = jit_flag(JitFlag::SymbolicScope);
-        Ref src = steal(jitc_var_data(index, !symbolic, &src_addr));
+        Ref src = steal(jitc_var_data(index, false, &src_addr));
         jitc_memcpy_async(backend, dst_addr, src_addr,
                           size * tsize);
     }
-- 
2.43.0


From 0a334410ff84d862efadf7526e3af4ffb07f6172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 38/76] fix: size of outputs of conditionals with scalar
 conditions

---
 src/cond.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cond.cpp b/src/cond.cpp
index d23e516..0048cec 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -133,7 +133,7 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
             v3.backend = (uint32_t) backend;
             v3.type = (uint32_t) vt;
             v3.symbolic = symbolic;
-            v3.size = std::max(size, size);
+            v3.size = std::max(size, std::max(v_t->size, v_f->size));
             v3.array_state = (uint32_t) ArrayState::Clean;
             v3.array_length = v_f->array_length;
             v3.dep[0] = i_f;
@@ -172,6 +172,7 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
         v2.dep[1] = i_f;
         v2.dep[2] = pred;
         v2.type = (uint32_t) vt;
+        v2.size = lm;
         jitc_var_inc_ref(i_t, v_t);
         jitc_var_inc_ref(i_f, v_f);
         jitc_var_inc_ref(pred);
-- 
2.43.0


From 455d756ef02517ad168e0c334704a61a878a4a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 39/76] fix: conditionals returned literals of the scope of a
 branch

---
 src/cond.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cond.cpp b/src/cond.cpp
index 0048cec..91f5501 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -148,8 +148,17 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
             continue;
         }
 
-        if (i_t == i_f || v_f->is_dirty() ||
-            (v_f->is_literal() && v_t->is_literal() && v_f->literal == v_t->literal)) {
+        if (i_t != i_f && v_f->is_literal() && v_t->is_literal() &&
+            v_f->literal == v_t->literal) {
+            // Don't return 'i_f', which may belong to the scope of a branch
+            uint64_t literal = v_f->literal;
+            rv_out[i] = jitc_var_literal(backend, vt, &literal,
+                                         std::max(v_t->size, v_f->size), 0);
+            cd->indices_out.emplace_back(0, 0);
+            continue;
+        }
+
+        if (i_t == i_f || v_f->is_dirty()) {
             jitc_var_inc_ref(i_f, v_f);
             rv_out[i] = i_f;
             cd->indices_out.emplace_back(0, 0);
-- 
2.43.0


From f10629fe1295f92421587b5bc60018011f9ee7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 40/76] fix: conditionals ignored assignments to arrays with
 pending writes

---
 src/cond.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cond.cpp b/src/cond.cpp
index 91f5501..90c8e3a 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -53,9 +53,21 @@ uint32_t jitc_var_cond_start(const char *name, bool symbolic, uint32_t cond_t, u
 }
 
 uint32_t jitc_var_cond_append(uint32_t index, const uint32_t *rv, size_t count) {
+    JitBackend backend = (JitBackend) jitc_var(index)->backend;
+
+    // Perform pending writes to return values that precede the conditional.
+    // Return values that remain dirty are the target of its side effects.
+    if (!thread_state(backend)->side_effects.empty()) {
+        for (size_t i = 0; i < count; ++i) {
+            if (rv[i] && jitc_var(rv[i])->is_dirty()) {
+                jitc_eval(thread_state(backend));
+                break;
+            }
+        }
+    }
+
     const Variable *v = jitc_var(index);
     CondData *cd = (CondData *) v->data;
-    JitBackend backend = (JitBackend) v->backend;
 
     Variable v2;
     v2.kind = (uint32_t) (cd->labels[0] ? VarKind::CondEnd : VarKind::CondMid);
-- 
2.43.0


From 3a7e401ba42c960094d171c929f3071938835ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 41/76] fix: name clashes between callables

---
 src/eval.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 80987c5..b855160 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1311,9 +1311,13 @@ XXH128_hash_t jitc_assemble_func(const CallData *call, uint32_t inst,
     size_t kernel_length = buffer.size() - kernel_offset;
 
     if (jit_flag(JitFlag::MergeFunctions)) {
-        kernel_hash = XXH128(buffer.get() + kernel_offset, kernel_length, 0);
+        // Direct/indirect callables are registered separately, don't let their
+        // names clash when they have the same body
+        kernel_hash = XXH128(buffer.get() + kernel_offset, kernel_length,
+                             call->n_inst != 1 ? 0 : 1);
     } else {
-        kernel_hash.low64 = indirect_callable_count;
+        // Unique, also when there are several calls with a single instance
+        kernel_hash.low64 = globals_map.size();
         kernel_hash.high64 = 0;
     }
 
-- 
2.43.0


From c37fc3f840c4155320753c4b4e39d3a0bb4f453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 42/76] fix: captured variables also used by the surrounding
 kernel

---
 src/call.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/call.cpp b/src/call.cpp
index 7ca8b53..11a45e5 100644
--- a/src/call.cpp
+++ b/src/call.cpp
@@ -867,6 +867,7 @@ void jitc_var_call_assemble(CallData *call, uint32_t call_reg,
         call_perm.emplace_back(type_size[jitc_var(call->inner_in[i])->type], i);
     std::sort(call_perm.begin(), call_perm.end());
 
+    std::vector<uint32_t> in_offset(n_in, 0);
     for (auto [size, i] : call_perm) {
         Variable *v = jitc_var(call->outer_in[i]);
         Variable *v_in = jitc_var(call->inner_in[i]);
@@ -882,7 +883,7 @@ void jitc_var_call_assemble(CallData *call, uint32_t call_reg,
             continue;
 
         in_size_all += size;
-        v->param_offset = in_size;
+        v->param_offset = in_offset[i] = in_size;
         in_size += size;
         in_align = std::max(size, in_align);
         n_in_active++;
@@ -942,6 +943,19 @@ void jitc_var_call_assemble(CallData *call, uint32_t call_reg,
     alloca_size = alloca_size_backup;
     alloca_align = alloca_align_backup;
 
+    // Variables that are both captured by a callable and accessed by the
+    // surrounding code (e.g. as an input of this call) were modified above
+    for (const JitBackupRecord &b : backup) {
+        Variable *v = jitc_var(b.sv.index);
+        v->param_type = b.param_type;
+        v->reg_index = b.reg_index;
+    }
+
+    for (uint32_t i = 0; i < n_in; ++i) {
+        if (call->in_active[i])
+            jitc_var(call->outer_in[i])->param_offset = in_offset[i];
+    }
+
     if (jitc_is_llvm(call->backend))
         jitc_var_call_assemble_llvm(call, call_reg, self_reg, mask_reg,
                                     out_size, out_align);
-- 
2.43.0


From dc34a7cbe1d240f912ec2988457959281fc01f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 43/76] fix: stale register indices leaked between kernels of
 an evaluation

---
 src/eval.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eval.cpp b/src/eval.cpp
index b855160..e948390 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1147,6 +1147,12 @@ void jitc_eval_impl(ThreadState *ts) {
     for (ScheduledGroup &group : schedule_groups) {
         jitc_assemble(ts, group);
         jitc_run(ts, group);
+
+        // Register indices indicate what is part of the kernel being compiled
+        // (e.g., which outputs of conditionals/calls it needs). Don't leak
+        // them into the next group.
+        for (uint32_t i = group.start; i != group.end; ++i)
+            jitc_var(schedule[i].index)->reg_index = 0;
     }
 
     // Subsequent kernel launches must be serialized wrt. the launches above.
-- 
2.43.0


From ef595c6f7ef04971488da61e2d10711068f2bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 44/76] fix: outputs of loops that aren't part of the kernel

---
 src/llvm_eval.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index 923aa34..1a7a309 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -1247,7 +1247,9 @@ static void jitc_llvm_render(Variable *v) {
                              *outer_out = jitc_var(ld->outer_out[l]);
                     fmt("    $v = phi $T [ $v, %l_$u_before ], [ $v, %l_$u_end ]\n",
                         v, v, outer_in, a0->reg_index, inner_out, a0->reg_index);
-                    if (outer_out && (VarKind) outer_out->kind == VarKind::LoopOutput)
+                    // Skip outputs that aren't part of the current kernel
+                    if (outer_out && (VarKind) outer_out->kind == VarKind::LoopOutput &&
+                        outer_out->reg_index)
                         outer_out->reg_index = inner_in->reg_index;
                 }
             }
-- 
2.43.0


From 3d7e1db019961a00c8f9b9a82877cd3e39e0e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 45/76] fix: bounds checks of evaluated masks

---
 src/op.cpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 8a23dba..44aacdb 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2005,6 +2005,16 @@ static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
     return result;
 }
 
+/// State of a bounds check. Stored separately since the variable representing
+/// the check (a mask) loses its operands when it is evaluated.
+struct BoundsCheckData {
+    BoundsCheckType type;
+    uint32_t array_size;
+    uint32_t buf; // Owned reference, '0' once the check is completed
+
+    ~BoundsCheckData() { jitc_var_dec_ref(buf); }
+};
+
 uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
                                uint32_t mask, uint32_t array_size) {
     auto [info, v_index, v_mask] =
@@ -2020,24 +2030,35 @@ uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
         info.symbolic, index, jitc_var(index), mask, jitc_var(mask), buffer_ptr,
         jitc_var(buffer_ptr), array_size | (((uint64_t) bct) << 32)));
 
+    jitc_var_inc_ref(buf);
     jitc_var_set_callback(result,
-         [](uint32_t index, int free, void *) {
-             if (free)
-                 return;
+         [](uint32_t index, int free, void *p) {
+            BoundsCheckData *bcd = (BoundsCheckData *) p;
+            if (free) {
+                delete bcd;
+                return;
+            }
+
+            if (!bcd->buf)
+                return;
 
             Variable *v = jitc_var(index);
             uint32_t captured = 0;
             jitc_memcpy((JitBackend) v->backend, &captured,
-                        jitc_var(v->dep[2])->data, sizeof(uint32_t));
-            v = jitc_var(index);
+                        jitc_var(bcd->buf)->data, sizeof(uint32_t));
+
+            if (jitc_var(index)->is_evaluated()) {
+                jitc_var_dec_ref(bcd->buf);
+                bcd->buf = 0;
+            }
 
             const char *label = jitc_var_label(index);
             if (captured) {
                 const char *msg = nullptr;
                 const char *msg2 = " in an array of size";
-                uint32_t size = (uint32_t) v->literal;
+                uint32_t size = bcd->array_size;
 
-                switch ((BoundsCheckType) (v->literal >> 32)) {
+                switch (bcd->type) {
                     case BoundsCheckType::Gather:
                         msg = "drjit.gather(): out-of-bounds read from position";
                         break;
@@ -2098,7 +2119,7 @@ uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
                          label ? ")" : "");
             }
         },
-        nullptr, true);
+        new BoundsCheckData{ bct, array_size, buf }, true);
 
     return result.release();
 }
-- 
2.43.0


From daf584f8310faeed7de49276d13a82f7f23c19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 46/76] fix: writes to local arrays within conditionals

---
 src/array.cpp | 74 ++++++++++++++++++++++++++++++++++++++++++++++++---
 src/array.h   |  6 +++++
 src/eval.cpp  |  6 +++++
 3 files changed, 82 insertions(+), 4 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index 4ab7c6e..936b346 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -387,6 +387,69 @@ uint32_t jitc_array_write(uint32_t target, uint32_t offset, uint32_t value,
     return op;
 }
 
+/// Array state transitions (variable index, previous state) that took place
+/// within the conditionals that are currently being processed
+static std::vector<std::pair<uint32_t, ArrayState>> array_log;
+
+/// A conditional that is currently being processed
+struct ArrayCond {
+    /// Size of 'array_log' at the start of the current branch
+    size_t offset;
+    /// State reached at the end of the first branch
+    std::vector<std::pair<uint32_t, ArrayState>> state_t;
+};
+
+static std::vector<ArrayCond> array_conds;
+
+static void jitc_set_array_state(uint32_t index, Variable *v, ArrayState state) {
+    if (!array_conds.empty())
+        array_log.emplace_back(index, (ArrayState) v->array_state);
+    v->array_state = (uint32_t) state;
+}
+
+void jitc_process_array_reset() {
+    array_log.clear();
+    array_conds.clear();
+}
+
+void jitc_process_array_cond(VarKind kind) {
+    // At most one branch of a conditional is active in a given SIMD lane/thread,
+    // and writes are masked. Accesses to an array by different branches hence
+    // don't conflict, and they must all refer to the same storage region.
+    if (kind == VarKind::CondStart) {
+        array_conds.push_back({ array_log.size(), { } });
+        return;
+    }
+
+    if (array_conds.empty())
+        jitc_raise("jit_process_array_cond(): internal error!");
+
+    ArrayCond &cond = array_conds.back();
+    if (kind == VarKind::CondMid) {
+        // Save the final state of the first branch, then revert it
+        for (size_t i = cond.offset; i < array_log.size(); ++i) {
+            uint32_t index = array_log[i].first;
+            cond.state_t.emplace_back(
+                index, (ArrayState) jitc_var(index)->array_state);
+        }
+        while (array_log.size() > cond.offset) {
+            auto [index, state] = array_log.back();
+            array_log.pop_back();
+            jitc_var(index)->array_state = (uint32_t) state;
+        }
+    } else {
+        // Combine the final states of both branches
+        std::vector<std::pair<uint32_t, ArrayState>> state_t;
+        state_t.swap(cond.state_t);
+        array_conds.pop_back();
+        for (auto [index, state] : state_t) {
+            Variable *v = jitc_var(index);
+            if ((uint32_t) state > v->array_state)
+                jitc_set_array_state(index, v, state);
+        }
+    }
+}
+
 void jitc_process_array_op(VarKind kind, Variable *v) {
     // This function evolves a simple state machine that elides unnecessary
     // array copies. For context, a 'write' operation performed via the
@@ -419,7 +482,10 @@ void jitc_process_array_op(VarKind kind, Variable *v) {
         }
         if (v->output_flag)
             array_state = ArrayState::Conflicted;
-    } else if (kind == VarKind::ArrayRead || kind == VarKind::ArrayPhi) {
+    } else if (kind == VarKind::ArrayPhi) {
+        // The result refers to the storage region used by both branches
+        return;
+    } else if (kind == VarKind::ArrayRead) {
         switch (array_state) {
             case ArrayState::Clean:      array_state = ArrayState::Clean; break;
             case ArrayState::Modified:
@@ -433,9 +499,9 @@ void jitc_process_array_op(VarKind kind, Variable *v) {
     if (array_state == ArrayState::Invalid)
         jitc_raise("jit_process_array_op(): internal error! (2)");
 
-    parent->array_state = (uint32_t) array_state;
+    jitc_set_array_state(parent_id, parent, array_state);
     if (parent->kind == (uint32_t) VarKind::ArrayWrite) {
-        Variable *buf = jitc_var(jitc_array_buffer(parent_id));
-        buf->array_state = (uint32_t) array_state;
+        uint32_t buf = jitc_array_buffer(parent_id);
+        jitc_set_array_state(buf, jitc_var(buf), array_state);
     }
 }
diff --git a/src/array.h b/src/array.h
index bd8384f..0f68c56 100644
--- a/src/array.h
+++ b/src/array.h
@@ -36,3 +36,9 @@ extern const Variable *jitc_array_buffer(const Variable *v);
 
 /// Evolve array state machine during jitc_assemble()
 extern void jitc_process_array_op(VarKind kind, Variable *v);
+
+/// Prepare for processing the array operations of a new kernel
+extern void jitc_process_array_reset();
+
+/// Keep track of the conditionals surrounding array operations
+extern void jitc_process_array_cond(VarKind kind);
diff --git a/src/eval.cpp b/src/eval.cpp
index e948390..59eb1ad 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -409,6 +409,8 @@ void jitc_assemble(ThreadState *ts, ScheduledGroup group) {
     bool has_call = false;
 #endif
 
+    jitc_process_array_reset();
+
     for (uint32_t group_index = group.start; group_index != group.end; ++group_index) {
         ScheduledVariable &sv = schedule[group_index];
         uint32_t index = sv.index;
@@ -462,6 +464,10 @@ void jitc_assemble(ThreadState *ts, ScheduledGroup group) {
                      kind == VarKind::ArrayWrite ||
                      kind == VarKind::ArrayRead)) {
             jitc_process_array_op(kind, v);
+        } else if (unlikely(kind == VarKind::CondStart ||
+                            kind == VarKind::CondMid ||
+                            kind == VarKind::CondEnd)) {
+            jitc_process_array_cond(kind);
         }
 
         if (v->is_evaluated()) {
-- 
2.43.0


From 19307d2a46bbf245de53b3795cdb674e9d25e24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 47/76] fix: non-uniform scalar offsets into local arrays

---
 src/array.cpp      | 10 ++++++----
 src/llvm_array.cpp | 10 ++++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index 936b346..3e1cdce 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -120,11 +120,12 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
         uint64_t zero = 0;
         return jitc_var_literal(backend, (VarType) jitc_var(source)->type,
                                 &zero, 1, 0);
-    } else if ((vo->is_literal() || vo->size == 1) &&
+    } else if (vo->is_literal() &&
                (vm->kind == (uint32_t) VarKind::DefaultMask ||
                 vm->kind == (uint32_t) VarKind::CallMask)) {
         // When we know that the read is always from a uniform location, we
-        // can remove any default masking, which slightly improves code generation
+        // can remove any default masking, which slightly improves code generation.
+        // (This excludes offsets of size 1, inactive lanes may hold other values.)
         uint64_t one = 1;
         mask = steal(jitc_var_literal(backend, VarType::Bool, &one, 1, 0));
     }
@@ -258,11 +259,12 @@ uint32_t jitc_array_write(uint32_t target, uint32_t offset, uint32_t value,
         // Elide the write (it is fully masked)
         jitc_var_inc_ref(target);
         return target;
-    } else if ((vo->is_literal() || vo->size == 1) &&
+    } else if (vo->is_literal() &&
                (vm->kind == (uint32_t) VarKind::DefaultMask ||
                 vm->kind == (uint32_t) VarKind::CallMask)) {
         // When we know that the write is always to a uniform location, we
-        // can remove any default masking, which slightly improves code generation
+        // can remove any default masking, which slightly improves code generation.
+        // (This excludes offsets of size 1, inactive lanes may hold other values.)
         uint64_t one = 1;
         mask = steal(jitc_var_literal(backend, VarType::Bool, &one, 1, 0));
     }
diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index b544502..286f0fe 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -81,6 +81,12 @@ extern void jitc_llvm_render_array_init(Variable *v, Variable *pred, Variable *v
     );
 }
 
+/// Does this offset have the same value in all lanes? Symbolic variables of size
+/// 1 (e.g., the state of a loop that has a greater size) may violate this.
+static bool is_uniform(const Variable *offset) {
+    return offset->size == 1 && !offset->symbolic;
+}
+
 void jitc_llvm_render_array_read(Variable *v, Variable *source, Variable *mask,
                                  Variable *offset) {
 
@@ -88,7 +94,7 @@ void jitc_llvm_render_array_read(Variable *v, Variable *source, Variable *mask,
     if (v->type == (uint32_t) VarType::Bool)
         ext = "_r";
 
-    if (!offset || offset->size == 1) {
+    if (!offset || is_uniform(offset)) {
         // Scalar/literal offset case: we can avoid a gather operation
         if (offset) {
             fmt_intrinsic("declare i32 @llvm.vector.reduce.umax.v$wi32(<$w x i32>)");
@@ -251,7 +257,7 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
         ext = "_e";
     }
 
-    if (!offset || offset->size == 1) {
+    if (!offset || is_uniform(offset)) {
         // Scalar/literal offset case: we can avoid a scatter operation
         if (offset) {
             fmt_intrinsic("declare i32 @llvm.vector.reduce.umax.v$wi32(<$w x i32>)");
-- 
2.43.0


From 933b197fc95d8ab19a3bbcd5be72f5aea4de079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 48/76] fix: loop state variables that become constant

---
 src/op.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 44aacdb..08e28c8 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1283,6 +1283,9 @@ uint32_t jitc_var_select(uint32_t a0, uint32_t a1, uint32_t a2) {
             return jitc_var_resize(a1, info.size);
         else if (jitc_is_zero(v0))
             return jitc_var_resize(a2, info.size);
+        else if (v1->is_literal() && v2->is_literal() &&
+                 v1->literal == v2->literal)
+            return jitc_var_resize(a1, info.size);
     }
 
     if (!result && info.size) {
-- 
2.43.0


From eed3f4caa3af56d0a4649d9b7f5c7e1563a00ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 49/76] fix: LLVM code buffer left dangling when its allocation
 fails

---
 src/llvm_memmgr.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/llvm_memmgr.cpp b/src/llvm_memmgr.cpp
index ee09ebb..37da6d7 100644
--- a/src/llvm_memmgr.cpp
+++ b/src/llvm_memmgr.cpp
@@ -63,12 +63,19 @@ void jitc_llvm_memmgr_prepare(size_t size) {
     size_t target_size = size * 10;
 
     if (jitc_llvm_memmgr_size <= target_size) {
+        // Release the old buffer. The allocation below could fail
+        uint8_t *prev = jitc_llvm_memmgr_data;
+        jitc_llvm_memmgr_data = nullptr;
+        jitc_llvm_memmgr_size = 0;
+
 #if !defined(_WIN32)
-        free(jitc_llvm_memmgr_data);
-        if (posix_memalign((void **) &jitc_llvm_memmgr_data, 4096, target_size))
+        free(prev);
+        void *ptr = nullptr;
+        if (posix_memalign(&ptr, 4096, target_size))
             jitc_raise("jit_llvm_compile(): could not allocate %zu bytes of memory!", target_size);
+        jitc_llvm_memmgr_data = (uint8_t *) ptr;
 #else
-        _aligned_free(jitc_llvm_memmgr_data);
+        _aligned_free(prev);
         jitc_llvm_memmgr_data = (uint8_t *) _aligned_malloc(target_size, 4096);
         if (!jitc_llvm_memmgr_data)
             jitc_raise("jit_llvm_compile(): could not allocate %zu bytes of memory!", target_size);
-- 
2.43.0


From 63ea9889248abc1c93707e26f1a60f0e6259ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 50/76] fix: failure of mmap() mistaken for a valid allocation

---
 src/malloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 0e91980..ea519a1 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -80,7 +80,7 @@ static void *aligned_malloc(size_t size) {
             madvise(ptr, size, MADV_HUGEPAGE);
 #endif
 
-        return ptr;
+        return ptr != MAP_FAILED ? ptr : nullptr;
     }
 #else
     return _aligned_malloc(size, 64);
-- 
2.43.0


From 97bc29d7ea2bb510126744a7e1c92e3a5e8c6897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 51/76] fix: refused allocations changed the memory statistics

---
 src/malloc.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index ea519a1..bd5dc3f 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -203,6 +203,11 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
             jitc_metal_register_buffer(ptr, metal_buf, size);
 #endif
 
+        if (unlikely(!ptr))
+            jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
+                       "(backend=%s, shared=%i).", size,
+                       jitc_backend_name(backend), (int) shared);
+
         descr = "new allocation";
 
         state.alloc_allocated[(int) backend] += size;
@@ -211,11 +216,6 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
                      state.alloc_watermark[(int) backend]);
     }
 
-    if (unlikely(!ptr))
-        jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
-                   "(backend=%s, shared=%i).", size,
-                   jitc_backend_name(backend), (int) shared);
-
     state.alloc_used.emplace((uintptr_t) ptr, ai);
     state.alloc_usage[(int) backend] += size;
 
-- 
2.43.0


From 93ae80eafdaf6da0843d46509519f7b0562ddc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 52/76] fix: moving migrations did not update the memory
 watermark

---
 src/malloc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index bd5dc3f..09fba30 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -337,6 +337,9 @@ void* jitc_malloc_migrate(void *ptr, JitBackend dst_backend, int move) {
             state.alloc_usage[(int) dst_backend] += size;
             state.alloc_allocated[(int) src_backend] -= size;
             state.alloc_allocated[(int) dst_backend] += size;
+            state.alloc_watermark[(int) dst_backend] =
+                std::max(state.alloc_allocated[(int) dst_backend],
+                         state.alloc_watermark[(int) dst_backend]);
             it.value() = alloc_info_encode(size, dst_backend, 0, 0);
             return ptr;
         }
-- 
2.43.0


From 0651c7091be17237078d41fd151dced749556d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 53/76] fix: shared allocations released by a thread without
 LLVM state leaked

---
 src/malloc.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 09fba30..38696ac 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -283,8 +283,15 @@ void jitc_free(void *ptr) {
     if (ts)
         ts->notify_free(ptr);
 
-    if (shared && !ts) // Leak shared allocation if Dr.Jit has already shut down
-        return;
+    if (shared && !ts) {
+        // Leak shared allocation if Dr.Jit has already shut down
+        if (!jitc_is_llvm(backend) ||
+            !(state.backends & (1u << (uint32_t) JitBackend::LLVM)))
+            return;
+
+        // The current thread did not use this backend before
+        ts = thread_state(backend);
+    }
 
     // A freed Metal buffer is not safe to reuse (by other threads) until the
     // current thread has committed its command buffer, so park it until then
-- 
2.43.0


From 6bc1c6ddbbe939466be4fb0f17aa9574d70b859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 54/76] fix: statistics of the allocation cache updated after
 releasing the lock

---
 src/malloc.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 38696ac..9fcbaf1 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -481,6 +481,18 @@ void jitc_flush_malloc_cache(bool warn) {
     size_t trim_count[(int) JitBackend::Count] = { 0 },
            trim_size [(int) JitBackend::Count] = { 0 };
 
+    // Update the statistics before releasing the main lock, other threads may
+    // allocate memory in the meantime
+    for (auto& kv : alloc_free) {
+        auto [size, backend, shared, device] = alloc_info_decode(kv.first);
+        (void) shared; (void) device;
+        trim_count[(int) backend] += kv.second.size();
+        trim_size [(int) backend] += size * kv.second.size();
+    }
+
+    for (int i = 0; i < (int) JitBackend::Count; ++i)
+        state.alloc_allocated[i] -= trim_size[i];
+
     /* Temporarily release the main lock */ {
         unlock_guard guard(state.lock);
 
@@ -488,9 +500,6 @@ void jitc_flush_malloc_cache(bool warn) {
             auto [size, backend, shared, device] = alloc_info_decode(kv.first);
             const std::vector<void *> &entries = kv.second;
 
-            trim_count[(int) backend] += entries.size();
-            trim_size [(int) backend] += size * entries.size();
-
             if (backend == JitBackend::None || jitc_is_llvm(backend)) {
                 for (void *ptr : entries)
                     aligned_free(ptr, size);
@@ -534,9 +543,6 @@ void jitc_flush_malloc_cache(bool warn) {
         }
     }
 
-    for (int i = 0; i < (int) JitBackend::Count; ++i)
-        state.alloc_allocated[i] -= trim_size[i];
-
     size_t total = 0;
     for (int i = 0; i < (int) JitBackend::Count; ++i)
         total += trim_count[i];
-- 
2.43.0


From 132493351328e8837591b2ff2741ef6a3a40a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 55/76] fix: failures after part of an evaluation was already
 launched

---
 src/eval.cpp | 175 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 112 insertions(+), 63 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 59eb1ad..74334b4 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -860,7 +860,7 @@ Task *jitc_run(ThreadState *ts, ScheduledGroup group) {
 static ProfilerRegion profiler_region_eval("jit_eval");
 
 // Forward declaration
-void jitc_eval_impl(ThreadState *ts);
+void jitc_eval_impl(ThreadState *ts, size_t &callbacks_baseline);
 
 /// Implementation detail of jitc_schedule_sort()
 struct Bucket { uint32_t size, scope, count, offset; };
@@ -999,6 +999,7 @@ void jitc_eval(ThreadState *ts) {
        therefore temporarily unlocks 'state.lock' and then locks a separate
        lock 'state.eval_lock' specifically guarding these data structures */
 
+    std::exception_ptr error;
     {
         lock_release(state.lock);
         lock_guard guard(state.eval_lock);
@@ -1006,10 +1007,10 @@ void jitc_eval(ThreadState *ts) {
 
         size_t callbacks_baseline = eval_callbacks.size();
         try {
-            jitc_eval_impl(ts);
+            jitc_eval_impl(ts, callbacks_baseline);
         } catch (...) {
             jitc_eval_rollback(callbacks_baseline);
-            throw;
+            error = std::current_exception();
         }
     }
 
@@ -1036,10 +1037,70 @@ void jitc_eval(ThreadState *ts) {
             cb.swap(eval_callbacks);
     }
 
+    if (unlikely(error))
+        std::rethrow_exception(error);
+
     jitc_log(Info, "jit_eval(): done.");
 }
 
-void jitc_eval_impl(ThreadState *ts) {
+/// Turn the first 'count' entries of the schedule, whose kernels were launched,
+/// into evaluated variables and release the references held by the schedule
+static void jitc_eval_finish(size_t count) {
+    for (size_t i = 0; i < count; ++i) {
+        ScheduledVariable sv = schedule[i];
+        uint32_t index = sv.index;
+        Variable *v = jitc_var(index);
+        v->reg_index = 0;
+
+        if (unlikely(v->extra)) {
+            VariableExtra &extra = state.extra[v->extra];
+            if (extra.callback) {
+                eval_callbacks.push_back(index);
+                jitc_var_inc_ref(index, v);
+            }
+        }
+
+        if (!(v->output_flag || v->side_effect)) {
+            jitc_var_dec_ref(index, v);
+            continue;
+        }
+
+        jitc_assert(!v->is_literal(),
+                   "jit_eval(): internal error: did not expect a literal "
+                   "constant variable here!");
+
+        jitc_lvn_drop(index, v);
+
+        if (v->output_flag && v->size == sv.size) {
+            v->kind = (uint32_t) VarKind::Evaluated;
+            v->data = sv.data;
+            v->output_flag = false;
+            v->consumed = false;
+
+            // Now a data buffer; reset scope to match the rule in jitc_var_new.
+            v->scope = v->is_array() ? SCOPE_ARRAY : SCOPE_BUFFER;
+
+#ifndef NDEBUG
+            state.ptr_to_variable.insert({ v->data, index });
+#endif
+        }
+
+        uint32_t dep[4], side_effect = v->side_effect;
+        memcpy(dep, v->dep, sizeof(uint32_t) * 4);
+        memset(v->dep, 0, sizeof(uint32_t) * 4);
+        v->side_effect = false;
+
+        jitc_var_dec_ref(index, v);
+
+        if (side_effect)
+            jitc_var_dec_ref(index, v);
+
+        for (int j = 0; j < 4; ++j)
+            jitc_var_dec_ref(dep[j]);
+    }
+}
+
+void jitc_eval_impl(ThreadState *ts, size_t &callbacks_baseline) {
     visit_later.clear();
     schedule.clear();
     eval_tasks.clear();
@@ -1150,15 +1211,53 @@ void jitc_eval_impl(ThreadState *ts) {
     scoped_set_context_maybe guard2(ts->context);
 #endif
 
-    for (ScheduledGroup &group : schedule_groups) {
-        jitc_assemble(ts, group);
-        jitc_run(ts, group);
+    // Number of schedule entries and callbacks of kernels that were launched
+    size_t n_launched = 0, n_callbacks = eval_callbacks.size();
+
+    try {
+        for (ScheduledGroup &group : schedule_groups) {
+            jitc_assemble(ts, group);
+            jitc_run(ts, group);
+
+            // Register indices indicate what is part of the kernel being
+            // compiled (e.g., which outputs of conditionals/calls it needs).
+            // Don't leak them into the next group.
+            for (uint32_t i = group.start; i != group.end; ++i)
+                jitc_var(schedule[i].index)->reg_index = 0;
+
+            n_launched = group.end;
+            n_callbacks = eval_callbacks.size();
+        }
+    } catch (...) {
+        // The kernels launched so far will run. Subsequent work must wait for
+        // them, and their outputs and side effects are valid. Complete this
+        // part of the evaluation and leave the rest to jitc_eval_rollback().
+        if (n_launched) {
+            ts->barrier();
+
+            for (size_t i = 0; i < n_launched; ++i) {
+                uint32_t index = schedule[i].index;
+                if (!jitc_var(index)->side_effect)
+                    continue;
+                for (EvalTask &t : eval_tasks) {
+                    if (t.side_effect && t.index == index) {
+                        t = eval_tasks.back();
+                        eval_tasks.pop_back();
+                        break;
+                    }
+                }
+            }
 
-        // Register indices indicate what is part of the kernel being compiled
-        // (e.g., which outputs of conditionals/calls it needs). Don't leak
-        // them into the next group.
-        for (uint32_t i = group.start; i != group.end; ++i)
-            jitc_var(schedule[i].index)->reg_index = 0;
+            while (eval_callbacks.size() > n_callbacks) {
+                jitc_var_dec_ref(eval_callbacks.back());
+                eval_callbacks.pop_back();
+            }
+
+            jitc_eval_finish(n_launched);
+            schedule.erase(schedule.begin(), schedule.begin() + n_launched);
+            callbacks_baseline = eval_callbacks.size();
+        }
+        throw;
     }
 
     // Subsequent kernel launches must be serialized wrt. the launches above.
@@ -1178,57 +1277,7 @@ void jitc_eval_impl(ThreadState *ts) {
        between them can be removed. This will cause many variables to expire. */
     jitc_log(Debug, "jit_eval(): cleaning up..");
 
-    for (ScheduledVariable sv : schedule) {
-        uint32_t index = sv.index;
-        Variable *v = jitc_var(index);
-        v->reg_index = 0;
-
-        if (unlikely(v->extra)) {
-            VariableExtra &extra = state.extra[v->extra];
-            if (extra.callback) {
-                eval_callbacks.push_back(index);
-                jitc_var_inc_ref(index, v);
-            }
-        }
-
-        if (!(v->output_flag || v->side_effect)) {
-            jitc_var_dec_ref(index, v);
-            continue;
-        }
-
-        jitc_assert(!v->is_literal(),
-                   "jit_eval(): internal error: did not expect a literal "
-                   "constant variable here!");
-
-        jitc_lvn_drop(index, v);
-
-        if (v->output_flag && v->size == sv.size) {
-            v->kind = (uint32_t) VarKind::Evaluated;
-            v->data = sv.data;
-            v->output_flag = false;
-            v->consumed = false;
-
-            // Now a data buffer; reset scope to match the rule in jitc_var_new.
-            v->scope = v->is_array() ? SCOPE_ARRAY : SCOPE_BUFFER;
-
-#ifndef NDEBUG
-            state.ptr_to_variable.insert({ v->data, index });
-#endif
-        }
-
-        uint32_t dep[4], side_effect = v->side_effect;
-        memcpy(dep, v->dep, sizeof(uint32_t) * 4);
-        memset(v->dep, 0, sizeof(uint32_t) * 4);
-        v->side_effect = false;
-
-        jitc_var_dec_ref(index, v);
-
-        if (side_effect)
-            jitc_var_dec_ref(index, v);
-
-        for (int j = 0; j < 4; ++j)
-            jitc_var_dec_ref(dep[j]);
-    }
+    jitc_eval_finish(schedule.size());
 }
 
 static ProfilerRegion profiler_region_assemble_func("jit_assemble_func");
-- 
2.43.0


From dedba68fb3dab7ebb0d3d5f28c463782ba2e0f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 56/76] fix: copy of a variable leaked when its label was
 refused

---
 src/api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index f448806..85ce89f 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1102,9 +1102,9 @@ uint32_t jit_var_set_label(uint32_t index, size_t argc, ...) {
         jitc_var_inc_ref(index, v);
         return index;
     } else {
-        uint32_t result = jitc_var_copy(index);
+        Ref result = steal(jitc_var_copy(index));
         jitc_var_set_label(result, label);
-        return result;
+        return result.release();
     }
 }
 
-- 
2.43.0


From 6904519eea351870957fdad36e15b2f492ef0fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 57/76] fix: host functions issuing work during shutdown were
 not waited for

---
 src/init.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/init.cpp b/src/init.cpp
index 24cf852..53fdc0e 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -153,7 +153,8 @@ void jitc_shutdown(int light) {
                      ts->mask_stack.size());
     }
 
-    if (jitc_task) {
+    // Repeat: host functions could have issued further work in the meantime
+    while (jitc_task) {
         Task *task = jitc_task;
         task_retain(task);
         {
-- 
2.43.0


From 22e871a1129c6a4e311c53506e92f87396976936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 58/76] fix: block size smaller than the packet size after
 changing the vector width

---
 src/llvm_core.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/llvm_core.cpp b/src/llvm_core.cpp
index 752f121..e824799 100644
--- a/src/llvm_core.cpp
+++ b/src/llvm_core.cpp
@@ -258,6 +258,10 @@ void jitc_llvm_shutdown() {
 }
 
 void jitc_llvm_update_strings() {
+    // Work units must consist of whole packets, see jit_llvm_set_block_size()
+    if (jitc_llvm_block_size < jitc_llvm_vector_width)
+        jitc_llvm_block_size = jitc_llvm_vector_width;
+
     StringBuffer buf;
     uint32_t width = jitc_llvm_vector_width;
 
-- 
2.43.0


From c5dd56387feaa335fe7465c0a5514b8a2fa39d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 59/76] fix: replayed any/all reductions looked at one of four
 partial results

The replay of jit_var_any_async() / jit_var_all_async() in a frozen function allocated a single element for the packed intermediate result and passed its size on, so that 3 of the 4 entries were ignored by the final reduction.
---
 src/record_ts.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 9a553b2..d2d4ac2 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -1351,7 +1351,9 @@ int Recording::replay_block_reduce_bool(Operation &op) {
     ReplayVariable &in_var = replay_variables[in_info.slot];
     ReplayVariable &out_var = replay_variables[out_info.slot];
 
-    out_var.alloc(backend, 1, VarType::Bool);
+    // The operation produces 4 partial results, which a subsequent block
+    // reduction combines (see jitc_any_async())
+    out_var.alloc(backend, 4, VarType::Bool);
 
     uint32_t size = in_var.size(VarType::Bool);
 
-- 
2.43.0


From ea77511837f85e28c4d2a39731a71faa238ab748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 60/76] fix: frozen functions replayed by several threads
 shared their state

Replaying e.g. dr.compress() or an opaque width temporarily releases the main lock. Another thread that began a replay at that point overwrote the list of replay variables, the kernel parameters and the dry-run flag.
---
 src/record_ts.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index d2d4ac2..0c88ef4 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -147,11 +147,11 @@ const char *op_type_name[(int) OpType::Count]{
 /// Indicating, that we are replaying in dry-run mode. In this mode,
 /// replaying a recording will not execute kernels, and only calculate the
 /// output size. This variable will be set by ``jitc_freeze_dry_run()``
-static bool dry_run = false;
+static thread_local bool dry_run = false;
 
 /// Indicates, that replaying a frozen function will generate kernel history
 /// entries. This function will be set by ``jitc_freeze_replay()``.
-static bool record_kernel_history = false;
+static thread_local bool record_kernel_history = false;
 
 
 /**
@@ -260,14 +260,18 @@ struct ReplayVariable {
     }
 };
 
+// The following are specific to the thread that replays a recording. Some
+// operations temporarily release 'state.lock', in which case another thread can
+// begin its own replay.
+
 /// Kernel parameter buffer
-static std::vector<void *> kernel_params;
+static thread_local std::vector<void *> kernel_params;
 
 /// ThreadState used during replay
-static ThreadState *ts = nullptr;
+static thread_local ThreadState *ts = nullptr;
 
 /// Temporary variables used for replaying a recording.
-static std::vector<ReplayVariable> replay_variables;
+static thread_local std::vector<ReplayVariable> replay_variables;
 
 static ProfilerRegion pr_kernel_launch("KernelLaunch");
 static ProfilerRegion pr_barrier("Barrier");
-- 
2.43.0


From 181b8d00265ac17ce11295636495df98af57a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 61/76] fix: frozen functions launched kernels that were
 already released

The kernel cache can be cleared between the dry run of a frozen function and its replay, and while an earlier operation of the replay released the main lock. When a kernel was compiled again in between, the dry run succeeded, but the replay still launched the released code. Check for this before each launch and refresh the recorded kernels. Also release temporary variables when a replay raises an exception.
---
 src/record_ts.cpp | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 0c88ef4..ef563e7 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -314,6 +314,20 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
     scoped_set_context_maybe guard2(ts->context);
 #endif
 
+    // Release temporary variables when leaving this function, including when an
+    // exception interrupts the replay
+    struct cleanup_guard {
+        bool active = true;
+
+        ~cleanup_guard() {
+            for (ReplayVariable &rv : replay_variables) {
+                if (active && rv.init == RecordedVarInit::None && rv.data)
+                    rv.free();
+            }
+            replay_variables.clear();
+        }
+    } cleanup;
+
     // Initialize replay_variables
     replay_variables.clear();
     replay_variables.reserve(recorded_variables.size());
@@ -434,6 +448,7 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
         return true;
 
     ProfilerPhase profiler(pr_output);
+    cleanup.active = false; // Outputs take ownership of their memory
     // Create output variables
     jitc_log(LogLevel::Debug, "replay(): creating outputs");
     for (uint32_t i = 0; i < outputs.size(); ++i) {
@@ -463,19 +478,15 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
         }
     }
 
-    // Set \c rv.data to nullptr for next step, where we free all remaining
-    // temporary variables
+    // Set \c rv.data to nullptr for the next step, where \ref cleanup_guard frees
+    // all remaining temporary variables
     for (uint32_t i = 0; i < outputs.size(); ++i) {
         uint32_t slot      = outputs[i].slot;
         ReplayVariable &rv = replay_variables[slot];
 
         rv.data = nullptr;
     }
-
-    for (ReplayVariable &rv : replay_variables) {
-        if (rv.init == RecordedVarInit::None && rv.data)
-            rv.free();
-    }
+    cleanup.active = true;
 
     return true;
 }
@@ -1010,6 +1021,12 @@ int Recording::replay_launch(Operation &op) {
                  op.uses_optix ? " uses optix" : "");
 #endif
 
+        // The kernel cache may have been cleared after the dry run, or while an
+        // earlier operation temporarily released the lock
+        if (!check_kernel_cache())
+            jitc_raise("replay(): The kernel cache was cleared, and a recorded "
+                       "kernel is no longer available.");
+
         Kernel kernel = op.kernel.kernel;
 #if defined(DRJIT_ENABLE_OPTIX)
         uses_optix = op.uses_optix;
@@ -2330,6 +2347,9 @@ bool Recording::check_kernel_cache() {
             auto it = state.kernel_cache.find(key);
             if (it == state.kernel_cache.end())
                 return false;
+
+            // The kernel may have been released and compiled again
+            op.kernel.kernel = it->second;
         }
     }
 
-- 
2.43.0


From 35c41dd9a9c5153642d26ad348a9c931a9f58ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 62/76] fix: clearing the kernel cache while another thread
 replays a frozen function

The replay isn't covered by 'eval_lock'. Kernels that it launched weren't waited for before their barrier was reached, and a concurrent jit_eval() could include them in its own barrier, in which case the assertion in the barrier of the replay failed.
---
 src/io.cpp      |  5 +++++
 src/llvm.h      |  3 +++
 src/llvm_ts.cpp | 15 +++++++++++----
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 6578392..36639b4 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -10,6 +10,7 @@
 #include "io.h"
 #include "log.h"
 #include "internal.h"
+#include "llvm.h"
 #include "profile.h"
 #include "cuda.h"
 #include "optix.h"
@@ -723,6 +724,10 @@ void jitc_flush_kernel_cache() {
         lock_acquire(state.eval_lock);
         lock_acquire(state.lock);
 
+        // A frozen function replayed by another thread isn't covered by
+        // 'eval_lock' and may have launched kernels without a barrier so far
+        jitc_llvm_barrier();
+
         if (!jitc_task)
             break;
 
diff --git a/src/llvm.h b/src/llvm.h
index 24f8691..77923f2 100644
--- a/src/llvm.h
+++ b/src/llvm.h
@@ -23,6 +23,9 @@ extern Task *jitc_task;
 /// Attempt to dynamically load LLVM into the process
 extern bool jitc_llvm_api_init();
 
+/// Ensure that subsequent work (\ref jitc_task) depends on all launched kernels
+extern void jitc_llvm_barrier();
+
 /// Free any resources allocated by jitc_llvm_api_init()
 extern void jitc_llvm_api_shutdown();
 
diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 0d13531..ea4357b 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -55,7 +55,7 @@ static std::vector<Task *> scheduled_tasks;
 /// Parent of the first entry of 'scheduled_tasks'
 static Task *scheduled_parent = nullptr;
 
-void LLVMThreadState::barrier() {
+void jitc_llvm_barrier() {
     // All tasks in 'scheduled_tasks' have 'jitc_task' (if present) as parent.
     // To create a barrier, we release 'jitc_task' and initialize it with a new
     // dummy task that has all members of 'scheduled_tasks' as parents. This
@@ -66,6 +66,12 @@ void LLVMThreadState::barrier() {
     // while this thread released the lock to compile a kernel. In that case,
     // 'jitc_task' isn't a parent, and the dummy task must also depend on it.
 
+    // Such work may also already have included a barrier for the tasks of this
+    // thread, in which case there is nothing left to be done.
+
+    if (scheduled_tasks.empty())
+        return;
+
     bool replaced = jitc_task != scheduled_parent;
     task_release(scheduled_parent);
     scheduled_parent = nullptr;
@@ -74,9 +80,6 @@ void LLVMThreadState::barrier() {
         task_release(jitc_task);
         jitc_task = scheduled_tasks[0];
     } else {
-        jitc_assert(!scheduled_tasks.empty(),
-                    "jit_eval(): no tasks generated!");
-
         if (replaced && jitc_task)
             scheduled_tasks.push_back(jitc_task);
         else
@@ -90,6 +93,10 @@ void LLVMThreadState::barrier() {
         jitc_task = new_task;
     }
     scheduled_tasks.clear();
+}
+
+void LLVMThreadState::barrier() {
+    jitc_llvm_barrier();
 
     if (!free_later.empty())
         flush_deferred_free();
-- 
2.43.0


From ed05dcd54a2ecac1aeee81f792d20bed8613501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:01 +0000
Subject: [PATCH 63/76] fix: cooperative vectors: perform pending writes to
 operands first

jit_coop_vec_load() and jit_coop_vec_matvec() read buffers with pending side
effects before those were performed. jit_coop_vec_pack() created variables that
depend on arrays with pending side effects, which aborted the process when the
vector was evaluated.
---
 src/coop_vec.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/coop_vec.cpp b/src/coop_vec.cpp
index 20200ea..22233a2 100644
--- a/src/coop_vec.cpp
+++ b/src/coop_vec.cpp
@@ -8,6 +8,7 @@
 */
 
 #include "var.h"
+#include "eval.h"
 #include "coop_vec.h"
 #include "internal.h"
 #include "log.h"
@@ -60,6 +61,14 @@ uint32_t jitc_coop_vec_pack(uint32_t n, const uint32_t *in) {
     for (uint32_t i = 0; i < n; ++i) {
         if (in[i] == 0)
             jitc_raise("jit_coop_vec_pack(): argument %u is uninitialized!", i);
+
+        // Make sure that the argument doesn't have pending side effects
+        const Variable *v2 = jitc_var(in[i]);
+        if (unlikely(v2->is_dirty())) {
+            jitc_eval(thread_state(v2->backend));
+            if (jitc_var(in[i])->is_dirty())
+                jitc_raise_dirty_error(in[i]);
+        }
     }
 
     const Variable *arg_v = jitc_var(in[0]);
@@ -171,7 +180,8 @@ uint32_t jitc_coop_vec_load(uint32_t buffer, uint32_t offset, uint32_t length) {
     }
 
     void *p = nullptr;
-    Ref tmp = steal(jitc_var_data(buffer, false, &p));
+    // Any pending writes to the buffer must take place before the load
+    Ref tmp = steal(jitc_var_data(buffer, true, &p));
     Ref buf_ptr = steal(jitc_var_pointer(backend, p, tmp, 0));
 
     Ref mask = steal(jitc_var_bool(backend, true));
@@ -498,7 +508,8 @@ uint32_t jitc_coop_vec_matvec(uint32_t A_index,
     Ref a_ptr, b_ptr;
     {
         void *p = nullptr;
-        Ref tmp = steal(jitc_var_data(A_index, false, &p));
+        // Any pending writes to the buffer must take place before the load
+        Ref tmp = steal(jitc_var_data(A_index, true, &p));
 
         a_vt = (VarType) jitc_var(tmp)->type;
         a_ptr = steal(jitc_var_pointer(backend, p, tmp, 0));
@@ -521,7 +532,7 @@ uint32_t jitc_coop_vec_matvec(uint32_t A_index,
 
     if (b_index && b_descr) {
         void *p = nullptr;
-        Ref tmp = steal(jitc_var_data(b_index, false, &p));
+        Ref tmp = steal(jitc_var_data(b_index, true, &p));
 
         b_vt = (VarType) jitc_var(tmp)->type;
         b_ptr = steal(jitc_var_pointer(backend, p, tmp, 0));
-- 
2.43.0


From 5891f2f08aef1a844fa4d3b1f3e23d23862f1c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:01 +0000
Subject: [PATCH 64/76] fix: LLVM: matrix-vector products ignored the row
 stride of the matrix

---
 src/llvm_coop_vec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/llvm_coop_vec.cpp b/src/llvm_coop_vec.cpp
index dd5d2c8..b38f504 100644
--- a/src/llvm_coop_vec.cpp
+++ b/src/llvm_coop_vec.cpp
@@ -425,7 +425,7 @@ void jitc_llvm_render_coop_vec(const Variable *v, const Variable *a0,
                 );
 
                 fmt("    $v_a1 = getelementptr inbounds [$u x $t], $<ptr$> $v_pa, i32 $v_$s, i32 $v_$s\n",
-                    v, transpose ? m : n,
+                    v, d->A_descr.stride,
                     v, v,
                     v, transpose ? "j" : "i",
                     v, transpose ? "i" : "j");
-- 
2.43.0


From 5fb2d115a61c29619d2e4d3c4540bfb7324bfd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:01 +0000
Subject: [PATCH 65/76] fix: LLVM: conversion and resizing of cooperative
 vectors

Integers were treated as unsigned, conversions between integers of the same
size, between half and double precision, and the resizing of a vector produced
code that LLVM rejects, which aborts the process.
---
 src/llvm_coop_vec.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/llvm_coop_vec.cpp b/src/llvm_coop_vec.cpp
index b38f504..5bc2bcc 100644
--- a/src/llvm_coop_vec.cpp
+++ b/src/llvm_coop_vec.cpp
@@ -209,7 +209,7 @@ void jitc_llvm_render_coop_vec(const Variable *v, const Variable *a0,
                     case JitOp::FMin: op = is_float ? "minnum" : (is_sint ? "smin" : "umin"); is_intrinsic = true; break;
                     case JitOp::Max:
                     case JitOp::FMax: op = is_float ? "maxnum" : (is_sint ? "smax" : "umax"); is_intrinsic = true; break;
-                    case JitOp::Step: op = is_float ? "fcmp olt" : "icmp lt"; break;
+                    case JitOp::Step: op = is_float ? "fcmp olt" : (is_sint ? "icmp slt" : "icmp ult"); break;
                     default:
                         jitc_fail("CoopVecBinaryOp: unsupported operation!");
                 }
@@ -269,21 +269,36 @@ void jitc_llvm_render_coop_vec(const Variable *v, const Variable *a0,
 
         case VarKind::Bitcast:
                 for (uint32_t i =  0; i < v->array_length; ++i)
-                    fmt("    $v_$u = bitcast $V_u to $T\n", v, i, a0, i, v);
+                    fmt("    $v_$u = bitcast $V_$u to $T\n", v, i, a0, i, v);
             break;
 
         case VarKind::CoopVecCast: {
                 bool bigger = type_size[v->type] > type_size[a0->type],
                      dst_float = jitc_is_float(v),
-                     src_signed = jitc_is_float(a0),
-                     dst_signed = jitc_is_float(v),
+                     src_signed = jitc_is_sint(a0),
+                     dst_signed = jitc_is_sint(v),
                      src_float = jitc_is_float(a0);
 
+                // Split casts between half and double precision into two steps
+                // (see the case VarKind::Cast in jitc_llvm_render())
+                if ((jitc_is_double(v) && jitc_is_half(a0)) ||
+                    (jitc_is_half(v) && jitc_is_double(a0))) {
+                    const char *op_2 = bigger ? "fpext" : "fptrunc";
+                    for (uint32_t i =  0; i < v->array_length; ++i)
+                        fmt("    $v_$u_f = $s $V_$u to <$w x float>\n"
+                            "    $v_$u = $s <$w x float> $v_$u_f to $T\n",
+                            v, i, op_2, a0, i,
+                            v, i, op_2, v, i, v);
+                    break;
+                }
+
                 const char *op;
                 if (src_float && dst_float)
                     op = bigger ? "fpext" : "fptrunc";
                 else if (!src_float && !dst_float)
-                    op = bigger ? (src_signed ? "sext" : "zext") : "trunc";
+                    op = type_size[v->type] == type_size[a0->type]
+                             ? "bitcast"
+                             : (bigger ? (src_signed ? "sext" : "zext") : "trunc");
                 else if (src_float && !dst_float)
                     op = dst_signed ? "fptosi" : "fptoui";
                 else
-- 
2.43.0


From 008fc4fed8d27ea77c9d70aee2fd56fbd3df69ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 66/76] fix: jit_shutdown(): drop pending side effects before
 deleting thread states

Releasing a side effect can free memory via the thread state of the thread
that calls jit_shutdown(). When that thread state came first in state.tss, it
was already deleted by the time the side effects of the others were dropped.
---
 src/init.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index 53fdc0e..456f627 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -218,10 +218,16 @@ void jitc_shutdown(int light) {
         jitc_log(Info, "jit_shutdown(): releasing %zu thread state%s ..",
                 state.tss.size(), state.tss.size() > 1 ? "s" : "");
 
-        for (ThreadState *ts : state.tss) {
-            for (uint32_t index : ts->side_effects)
+        // Drop side effects that were never evaluated. This can release memory
+        // via the thread state of the calling thread, which must still exist.
+        for (size_t i = 0; i < state.tss.size(); ++i) {
+            std::vector<uint32_t> side_effects;
+            side_effects.swap(state.tss[i]->side_effects);
+            for (uint32_t index : side_effects)
                 jitc_var_dec_ref(index);
+        }
 
+        for (ThreadState *ts : state.tss) {
 #if defined(DRJIT_ENABLE_CUDA)
             if (jitc_is_cuda(ts->backend) && ts->stream) {
                 scoped_set_context guard(ts->context);
-- 
2.43.0


From f20e0174cf782bc306be155d9ab084feff52793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 67/76] fix: do not re-index cooperative vectors in gathers

---
 src/op.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 08e28c8..c1fbf41 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1936,8 +1936,9 @@ static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
     if (v->is_evaluated() || (VarType) v->type == VarType::Void)
         return 0; // evaluated variable, give up
 
-    if (v->is_array() || (VarKind) v->kind == VarKind::ScatterInc)
-        return 0; // variable array or operation with a side effect, give up
+    if (v->is_array() || v->coop_vec ||
+        (VarKind) v->kind == VarKind::ScatterInc)
+        return 0; // array, cooperative vector or side effect, give up
 
     if (v->extra) {
         VariableExtra *e = jitc_var_extra(v);
-- 
2.43.0


From 2c3a7b8025eee387e19f457b8bd3a56dce1e746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 68/76] fix: detect unevaluated writes to the third and fourth
 operand of a node

The checks following the evaluation tested the second operand instead. An
operand with a write that cannot be evaluated because it belongs to a symbolic
recording session was therefore not reported.
---
 src/var.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index fc0844a..d862f2c 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1286,7 +1286,7 @@ uint32_t jitc_var_new_node_3(JitBackend backend, VarKind kind, VarType vt,
             jitc_raise_dirty_error(a1);
 
         v2 = jitc_var(a2);
-        if (v1->is_dirty())
+        if (v2->is_dirty())
             jitc_raise_dirty_error(a2);
     }
 
@@ -1325,11 +1325,11 @@ uint32_t jitc_var_new_node_4(JitBackend backend, VarKind kind, VarType vt,
             jitc_raise_dirty_error(a1);
 
         v2 = jitc_var(a2);
-        if (v1->is_dirty())
+        if (v2->is_dirty())
             jitc_raise_dirty_error(a2);
 
         v3 = jitc_var(a3);
-        if (v1->is_dirty())
+        if (v3->is_dirty())
             jitc_raise_dirty_error(a3);
     }
 
-- 
2.43.0


From b5eb381a1af8b08502a4bfed2b4a46cc8eb69734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 69/76] fix: pending writes to the operands of a scatter
 operation

Such writes were performed after the target of a scatter-reduction had been
expanded, which undid the expansion: the reduction was lost. The values of a
packet scatter with pending writes aborted the process.
---
 src/op.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index c1fbf41..6ef72c1 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2949,6 +2949,25 @@ jitc_var_infer_reduce_mode(const char *name, JitBackend backend, Ref &target,
     return { mode, reduce_expanded };
 }
 
+/// Perform pending writes to the operands of a scatter operation. This must be
+/// done first, since the evaluation would undo the expansion of the target.
+static void jitc_scatter_flush(JitBackend backend, const uint32_t *indices,
+                               size_t size) {
+    bool dirty = false;
+    for (size_t i = 0; i < size; ++i)
+        dirty |= jitc_var(indices[i])->is_dirty();
+
+    if (likely(!dirty))
+        return;
+
+    jitc_eval(thread_state(backend));
+
+    for (size_t i = 0; i < size; ++i) {
+        if (jitc_var(indices[i])->is_dirty())
+            jitc_raise_dirty_error(indices[i]);
+    }
+}
+
 uint32_t jitc_var_scatter(uint32_t target_, uint32_t value, uint32_t index_,
                           uint32_t mask, ReduceOp op, ReduceMode mode) {
     Ref target = borrow(target_), index = borrow(index_), ptr;
@@ -3031,6 +3050,9 @@ uint32_t jitc_var_scatter(uint32_t target_, uint32_t value, uint32_t index_,
         return target.release();
     }
 
+    const uint32_t operands[] = { value, (uint32_t) index, mask };
+    jitc_scatter_flush(backend, operands, 3);
+
     // Check if it is safe to directly write to ``target``. We borrowed
     // ``target`` above, and the caller also owns one reference. Therefore, the
     // target array can be directly modified when the reference count exactly
@@ -3254,6 +3276,10 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
         return target.release();
     }
 
+    const uint32_t operands[] = { (uint32_t) index, mask };
+    jitc_scatter_flush(backend, operands, 2);
+    jitc_scatter_flush(backend, values, n);
+
     bool use_packet_op = false;
 
     if (flags & (uint32_t) JitFlag::PacketOps) {
-- 
2.43.0


From ede6bfe338d3bbd6836d18d934fcef7a4d330c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:24 +0000
Subject: [PATCH 70/76] fix: loops ignored assignments of arrays with pending
 writes

A state variable that was set to an array with pending writes (of the code
preceding the loop) was mistaken for the target of a side effect of the loop.
---
 src/loop.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/loop.cpp b/src/loop.cpp
index 3f27f1d..3d10583 100644
--- a/src/loop.cpp
+++ b/src/loop.cpp
@@ -162,6 +162,17 @@ bool jitc_var_loop_end(uint32_t loop, uint32_t cond, uint32_t *indices, uint32_t
     Variable *cond_v = jitc_var(cond);
     JitBackend backend = (JitBackend) cond_v->backend;
 
+    // Perform pending writes to state variables that precede the loop. State
+    // variables that remain dirty are the target of its side effects.
+    if (!thread_state(backend)->side_effects.empty()) {
+        for (size_t i = 0; i < ld->size; ++i) {
+            if (indices[i] && jitc_var(indices[i])->is_dirty()) {
+                jitc_eval(thread_state(backend));
+                break;
+            }
+        }
+    }
+
     // Determine the size of variables that are processed by this loop
     uint32_t size = jitc_var(cond)->size;
     {
-- 
2.43.0


From 57f8371992e71cceaf6ea2ccd12df52c1c88d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:16 +0000
Subject: [PATCH 71/76] fix: jit_array_read() with pending writes to the offset
 or mask

The evaluation of such writes invalidated the pointer to the mask variable.
---
 src/array.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index 3e1cdce..8c7e0a8 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -169,14 +169,17 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
         }
     }
 
-    if (vo->is_dirty()) {
+    if (vo->is_dirty() || vm->is_dirty()) {
         jitc_eval(thread_state((JitBackend) vs->backend));
 
         vs = jitc_var(source);
         vo = jitc_var(offset);
+        vm = jitc_var(mask);
 
         if (vo->is_dirty())
             jitc_raise_dirty_error(offset);
+        if (vm->is_dirty())
+            jitc_raise_dirty_error(mask);
     }
 
     Variable v;
-- 
2.43.0


From 4a06ed35b4e69a7426fc71b54aa96c87541de77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 72/76] fix: replay of a permutation over a whole array of
 another size

---
 src/record_ts.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index ef563e7..fe13992 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -1674,6 +1674,8 @@ int Recording::replay_block_mkperm(Operation &op) {
     uint32_t size         = values_var.size(values_info.vtype);
     uint32_t bucket_count = op.block_mkperm.bucket_count;
     uint32_t block_size   = op.block_mkperm.block_size;
+    if (block_size == op.size)
+        block_size = size;
 
     perm_var.alloc(backend, size, perm_info.vtype);
 
-- 
2.43.0


From 99ebe5c997cc6fc8fb492a8ff5cb9ea84cf30221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:28 +0000
Subject: [PATCH 73/76] fix: frozen functions with calls that reference opaque
 literals

---
 src/record_ts.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index fe13992..de89873 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -2122,6 +2122,7 @@ void RecordThreadState::record_aggregate(void *dst, AggregationEntry *agg,
             info.type           = ParamType::Input;
             info.pointer_access = p.size == 8;
             info.extra.offset   = p.offset;
+            info.extra.type_size = p.size;
             info.test_uninit    = false;
             add_param(info);
 
@@ -2190,9 +2191,7 @@ int Recording::replay_aggregate(Operation &op) {
                 jitc_log(LogLevel::Debug, " -> s%u is_pointer=%u offset=%u",
                          param.slot, param.pointer_access, param.extra.offset);
 
-            p->size   = (int16_t) (param.pointer_access
-                            ? 8
-                            : -(int) type_size[(uint32_t) param.vtype]);
+            p->size   = param.extra.type_size;
             p->resource_kind = 0;
             p->offset = param.extra.offset;
             p->src    = rv.data;
-- 
2.43.0


From c670393b766aa3f0092c911466541ac652691e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 74/76] fix: frozen functions that compress or sort memory
 filled by memset

---
 src/record_ts.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index de89873..9966adc 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -1561,7 +1561,7 @@ void RecordThreadState::record_compress(const uint8_t *in, uint32_t size,
              size, out);
 
     uint32_t start = (uint32_t) m_recording.dependencies.size();
-    add_in_param(in);
+    add_in_param(in, VarType::Bool);
     add_out_param(out, VarType::UInt32);
     uint32_t end = (uint32_t) m_recording.dependencies.size();
 
@@ -1645,7 +1645,7 @@ void RecordThreadState::record_block_mkperm(const uint32_t *values,
                  values, size, block_size, bucket_count, perm, offsets);
 
         uint32_t start = (uint32_t) m_recording.dependencies.size();
-        add_in_param(values);
+        add_in_param(values, VarType::UInt32);
         add_out_param(perm, VarType::UInt32);
         add_out_param(offsets, VarType::UInt32);
         uint32_t end = (uint32_t) m_recording.dependencies.size();
-- 
2.43.0


From 3d1fd2ca3f059403d52e76e465925e7845efedb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:29 +0000
Subject: [PATCH 75/76] fix: jit_var_shrink() within frozen functions

---
 src/var.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index d862f2c..6d2979a 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2005,7 +2005,13 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
         Ref dst = steal(jitc_var_data(index, true, &dst_addr));
 
         // Note: 'dst' owns the data and may differ from 'index'
-        if (vt == VarType::Bool && size % 4) {
+        if (jitc_flag(JitFlag::FreezingScope)) {
+            // A recording identifies arrays by their address and can't
+            // represent a view that has a different size
+            Ref counter = steal(jitc_var_counter(backend, size, true)),
+                mask    = steal(jitc_var_bool(backend, true));
+            result = jitc_var_gather(dst, counter, mask);
+        } else if (vt == VarType::Bool && size % 4) {
             // jitc_any() and jitc_all() pad masks to a multiple of 4 entries in
             // place, which must not affect the remainder of 'dst'.
             result = jitc_var_mem_copy(backend, vt, dst_addr, size, false);
-- 
2.43.0


From 7549d9e29c8f7c07bd7ea5beeb2038b1501117da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 76/76] fix: single precision minima/maxima of converted half
 precision values (LLVM)

---
 src/llvm_eval.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index 1a7a309..0e3fb19 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -815,8 +815,10 @@ static void jitc_llvm_render(Variable *v) {
 #if !defined(__aarch64__)
                 // LLVM turns the 'minnum'/'maxnum' intrinsics into
                 // 'fminf'/'fmaxf' libcalls even when upcasting to float32.
+                // This also affects single precision operations, which it
+                // narrows when the operands were converted from half precision.
                 // Provide an alternative equivalent instruction sequence that avoids this.
-                expand = jitc_is_half(v);
+                expand = true;
 #endif
 
                 if (expand) {
-- 
2.43.0

