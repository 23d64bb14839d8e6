From 1319407b38edceb56d2c73c9c8205f3f5d620288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 01/34] fix: unary minus overflows for the smallest integer,
 not for -1

---
 src/vm/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index aff551b..62d55b0 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -181,7 +181,7 @@ Fallible<Number> unary_minus(Context& ctx, Handle<Value> v) {
 
     if (v->is<Integer>()) {
         i64 iv = v.must_cast<Integer>()->value();
-        if (TIRO_UNLIKELY(iv == -1))
+        if (TIRO_UNLIKELY(iv == std::numeric_limits<i64>::min()))
             return TIRO_FORMAT_EXCEPTION(ctx, "integer overflow in unary minus");
         return static_cast<Number>(ctx.get_integer(-iv));
     }
-- 
2.43.0


From 4cc10f28ded113bbb41159e5d09b69486587b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 02/34] fix: -1 raised to an even negative power is 1

---
 src/compiler/ir_gen/const_eval.cpp | 2 +-
 src/vm/math.cpp                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 0692143..f64e73a 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -229,7 +229,7 @@ static EvalResult eval_power(const Constant& lhs, const Constant& rhs) {
         if (a == 0 && b < 0)
             return EvalResult::make_divide_by_zero();
         if (b < 0)
-            return make_int(a == 1 || a == -1 ? a : 0);
+            return make_int(a == 1 ? 1 : a == -1 ? ((b & 1) ? -1 : 1) : 0);
 
         // https://stackoverflow.com/a/101613
         SafeInt base = a;
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index 62d55b0..3785559 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -84,7 +84,7 @@ struct pow_op {
             return TIRO_FORMAT_EXCEPTION(ctx, "cannot raise integer 0 to a negative power");
 
         if (b < 0)
-            return a == 1 || a == -1 ? a : 0;
+            return a == 1 ? 1 : a == -1 ? ((b & 1) ? -1 : 1) : 0;
 
         // https://stackoverflow.com/a/101613
         i64 result = 1;
-- 
2.43.0


From 0b06c1b3591844ea0c64a0fc0d2cb40413c9ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 03/34] fix: compare integers and floats by their exact values

---
 src/common/math.hpp                | 18 ++++++++++++++++++
 src/compiler/ir_gen/const_eval.cpp | 17 ++++++++---------
 src/vm/math.cpp                    | 10 ++++++++++
 src/vm/objects/value.cpp           | 10 ++--------
 4 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/common/math.hpp b/src/common/math.hpp
index fece8b3..1378f9c 100644
--- a/src/common/math.hpp
+++ b/src/common/math.hpp
@@ -262,6 +262,24 @@ To checked_cast(From from) {
     }
 }
 
+/// Compares an integer with a float by their exact values, i.e. without rounding the integer.
+/// Returns a value < 0, == 0 or > 0. `rhs` must not be NaN.
+inline int compare_exact(i64 lhs, f64 rhs) {
+    constexpr f64 limit = 9223372036854775808.0; // 2^63
+    if (rhs >= limit)
+        return -1;
+    if (rhs < -limit)
+        return 1;
+
+    const i64 truncated = static_cast<i64>(rhs);
+    if (lhs != truncated)
+        return lhs < truncated ? -1 : 1;
+
+    // Equal integral parts, the fraction decides.
+    const f64 integral = static_cast<f64>(truncated);
+    return integral < rhs ? -1 : (integral > rhs ? 1 : 0);
+}
+
 } // namespace tiro
 
 #endif // TIRO_COMMON_MATH_HPP
diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index f64e73a..89ec161 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -1,5 +1,6 @@
 #include "compiler/ir_gen/const_eval.hpp"
 
+#include "common/math.hpp"
 #include "common/safe_int.hpp"
 
 #include <cmath>
@@ -103,14 +104,7 @@ static i64 to_signed(u64 v) {
 }
 
 static bool i64_f64_equal(i64 lhs, f64 rhs) {
-    if (!std::isfinite(rhs))
-        return false;
-
-    // Check whether converting the float to int and back preserves the value.
-    // If that is the case, the two integers can be equal.
-    i64 rhs_int = rhs;
-    f64 rhs_roundtrip = rhs_int;
-    return rhs_roundtrip == rhs && lhs == rhs_int;
+    return std::isfinite(rhs) && compare_exact(lhs, rhs) == 0;
 }
 
 static bool is_equal(const Constant& lhs, const Constant& rhs) {
@@ -309,7 +303,12 @@ static EvalResult numeric_compare(const Constant& lhs, const Constant& rhs, Test
         return make_bool(test(0));
     }
 
-    // Apply normal int / float promotion rules.
+    // Integers and floats are compared by their exact values (same as at runtime).
+    if (is_integer(lhs) && is_float(rhs) && !std::isnan(get_float(rhs)))
+        return make_bool(test(compare_exact(get_int(lhs), get_float(rhs))));
+    if (is_float(lhs) && is_integer(rhs) && !std::isnan(get_float(lhs)))
+        return make_bool(test(-compare_exact(get_int(rhs), get_float(lhs))));
+
     auto op = [&](auto a, auto b) -> EvalResult {
         return make_bool(test(a < b ? -1 : (a > b ? 1 : 0)));
     };
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index 3785559..ab3f31d 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -1,5 +1,6 @@
 #include "vm/math.hpp"
 
+#include "common/math.hpp"
 #include "vm/context.hpp"
 #include "vm/objects/exception.hpp"
 #include "vm/objects/primitives.hpp"
@@ -222,6 +223,15 @@ Fallible<int> compare(Context& ctx, Handle<Value> a, Handle<Value> b) {
         return 1;
 
     auto cmp = [](auto lhs, auto rhs) {
+        if constexpr (std::is_same_v<decltype(lhs), i64> && std::is_same_v<decltype(rhs), f64>) {
+            if (!std::isnan(rhs))
+                return compare_exact(lhs, rhs);
+        } else if constexpr (std::is_same_v<decltype(lhs), f64>
+                             && std::is_same_v<decltype(rhs), i64>) {
+            if (!std::isnan(lhs))
+                return -compare_exact(rhs, lhs);
+        }
+
         if (lhs > rhs)
             return 1;
         if (lhs < rhs)
diff --git a/src/vm/objects/value.cpp b/src/vm/objects/value.cpp
index f955c6b..6c08379 100644
--- a/src/vm/objects/value.cpp
+++ b/src/vm/objects/value.cpp
@@ -1,5 +1,6 @@
 #include "vm/objects/value.hpp"
 
+#include "common/math.hpp"
 #include "vm/hash.hpp"
 #include "vm/objects/all.hpp"
 
@@ -203,14 +204,7 @@ size_t hash(Value v) {
 }
 
 static bool int_float_equal(i64 lhs, f64 rhs) {
-    if (!std::isfinite(rhs))
-        return false;
-
-    // Check whether converting the float to int and back preserves the value.
-    // If that is the case, the two integers can be equal.
-    i64 rhs_int = rhs;
-    f64 rhs_roundtrip = rhs_int;
-    return rhs_roundtrip == rhs && lhs == rhs_int;
+    return std::isfinite(rhs) && compare_exact(lhs, rhs) == 0;
 }
 
 // TODO think about float / integer equality.
-- 
2.43.0


From 6cb33f6fc4a23390da0287e37f1e81c8e8620e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 04/34] fix: comparisons with NaN are false

---
 src/compiler/ir_gen/const_eval.cpp |  9 +++++--
 src/vm/interpreter.cpp             |  8 +++----
 src/vm/math.cpp                    | 38 +++++++++++++++++-------------
 src/vm/math.hpp                    |  5 +++-
 4 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 89ec161..6d0b4c0 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -303,10 +303,15 @@ static EvalResult numeric_compare(const Constant& lhs, const Constant& rhs, Test
         return make_bool(test(0));
     }
 
+    // NaN is not ordered.
+    if ((is_float(lhs) && std::isnan(get_float(lhs)))
+        || (is_float(rhs) && std::isnan(get_float(rhs))))
+        return make_bool(false);
+
     // Integers and floats are compared by their exact values (same as at runtime).
-    if (is_integer(lhs) && is_float(rhs) && !std::isnan(get_float(rhs)))
+    if (is_integer(lhs) && is_float(rhs))
         return make_bool(test(compare_exact(get_int(lhs), get_float(rhs))));
-    if (is_float(lhs) && is_integer(rhs) && !std::isnan(get_float(lhs)))
+    if (is_float(lhs) && is_integer(rhs))
         return make_bool(test(-compare_exact(get_int(rhs), get_float(lhs))));
 
     auto op = [&](auto a, auto b) -> EvalResult {
diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 1c3a9c4..51b5d57 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -477,16 +477,16 @@ void BytecodeInterpreter::run() {
             TIRO_UNOP(bitwise_not);
             break;
         case BytecodeOp::Gt:
-            TIRO_CMP((cmp > 0));
+            TIRO_CMP((cmp && *cmp > 0));
             break;
         case BytecodeOp::Gte:
-            TIRO_CMP((cmp >= 0));
+            TIRO_CMP((cmp && *cmp >= 0));
             break;
         case BytecodeOp::Lt:
-            TIRO_CMP((cmp < 0));
+            TIRO_CMP((cmp && *cmp < 0));
             break;
         case BytecodeOp::Lte:
-            TIRO_CMP((cmp <= 0));
+            TIRO_CMP((cmp && *cmp <= 0));
             break;
         case BytecodeOp::Eq: {
             auto lhs = read_local();
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index ab3f31d..9872685 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -213,33 +213,39 @@ static void unwrap_number(Value v, Callback&& cb) {
     }
 };
 
-Fallible<int> compare(Context& ctx, Handle<Value> a, Handle<Value> b) {
+Fallible<std::optional<int>> compare(Context& ctx, Handle<Value> a, Handle<Value> b) {
+    using Ordering = std::optional<int>;
+
     if (a->is_null()) {
         if (b->is_null())
-            return 0;
-        return -1;
+            return Ordering(0);
+        return Ordering(-1);
     }
     if (b->is_null())
-        return 1;
+        return Ordering(1);
 
-    auto cmp = [](auto lhs, auto rhs) {
+    auto cmp = [](auto lhs, auto rhs) -> Ordering {
         if constexpr (std::is_same_v<decltype(lhs), i64> && std::is_same_v<decltype(rhs), f64>) {
-            if (!std::isnan(rhs))
-                return compare_exact(lhs, rhs);
+            if (std::isnan(rhs))
+                return {};
+            return compare_exact(lhs, rhs);
         } else if constexpr (std::is_same_v<decltype(lhs), f64>
                              && std::is_same_v<decltype(rhs), i64>) {
-            if (!std::isnan(lhs))
-                return -compare_exact(rhs, lhs);
+            if (std::isnan(lhs))
+                return {};
+            return -compare_exact(rhs, lhs);
+        } else {
+            if (lhs > rhs)
+                return 1;
+            if (lhs < rhs)
+                return -1;
+            if (lhs == rhs)
+                return 0;
+            return {};
         }
-
-        if (lhs > rhs)
-            return 1;
-        if (lhs < rhs)
-            return -1;
-        return 0;
     };
 
-    std::optional<int> result;
+    std::optional<Ordering> result;
     unwrap_number(
         *a, [&](auto lhs) { unwrap_number(*b, [&](auto rhs) { result = cmp(lhs, rhs); }); });
 
diff --git a/src/vm/math.hpp b/src/vm/math.hpp
index 0b87caf..e69a481 100644
--- a/src/vm/math.hpp
+++ b/src/vm/math.hpp
@@ -4,6 +4,8 @@
 #include "common/defs.hpp"
 #include "vm/fwd.hpp"
 
+#include <optional>
+
 namespace tiro::vm {
 
 // Implements the binary arithmetic operations.
@@ -25,7 +27,8 @@ Fallible<Integer> bitwise_not(Context& ctx, Handle<Value> v);
 //  - < 0 iff a < b
 //  - = 0 iff a == b
 //  - > 0 iff a > b
-Fallible<int> compare(Context& ctx, Handle<Value> a, Handle<Value> b);
+//  - an empty optional if the operands are unordered (NaN)
+Fallible<std::optional<int>> compare(Context& ctx, Handle<Value> a, Handle<Value> b);
 
 } // namespace tiro::vm
 
-- 
2.43.0


From 5665c6e22c531041806291b577e009beccc70fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 05/34] fix: keep the constants 0.0 and -0.0 apart in value
 numbering

---
 src/compiler/ir_gen/compile_value.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compiler/ir_gen/compile_value.cpp b/src/compiler/ir_gen/compile_value.cpp
index 69b41fc..697fb88 100644
--- a/src/compiler/ir_gen/compile_value.cpp
+++ b/src/compiler/ir_gen/compile_value.cpp
@@ -6,6 +6,7 @@
 
 #include "absl/container/inlined_vector.h"
 
+#include <cmath>
 #include <optional>
 #include <utility>
 
@@ -158,6 +159,12 @@ InstId ValueCompiler::visit_observe_assign(const Value::ObserveAssign& obs) {
 }
 
 InstId ValueCompiler::visit_constant(const Constant& constant) {
+    // Negative zero compares equal to zero but it is not the same value.
+    if (constant.type() == ConstantType::Float && constant.as_float().value == 0
+        && std::signbit(constant.as_float().value)) {
+        return define_new(constant);
+    }
+
     const auto key = ComputedValue::make_constant(constant);
     return memoize_value(key, [&]() { return define_new(constant); });
 }
-- 
2.43.0


From 6ed052d83b7df671d3363313491dc447c755f1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 06/34] fix: equal integers and floats have equal hashes

---
 src/vm/hash.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vm/hash.cpp b/src/vm/hash.cpp
index cbd3fba..3b93c70 100644
--- a/src/vm/hash.cpp
+++ b/src/vm/hash.cpp
@@ -65,6 +65,13 @@ size_t float_hash(f64 data) {
     if (std::isnan(data))
         return fnv1a(raw_span(canonic_nan));
 
+    // Floats and integers of the same value are equal and must have the same hash.
+    if (data >= -0x1p63 && data < 0x1p63) {
+        const i64 integer = static_cast<i64>(data);
+        if (static_cast<f64>(integer) == data)
+            return integer_hash(static_cast<u64>(integer));
+    }
+
     return fnv1a(raw_span(data));
 }
 
-- 
2.43.0


From cfb7b78785bb0f237a72579cc782feb8f845602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 07/34] fix: removing from a hash table shifts the whole probe
 chain back

---
 src/vm/objects/hash_table.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 25da8e6..cc4fe42 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -466,6 +466,10 @@ void HashTable::remove_from_index(Layout* data, size_t erased_bucket) {
                 "Backshift invariant: distance does not get worse.");
             indices[erased_bucket] = index;
             indices[current_bucket] = ST::empty_value;
+
+            // Continue with the bucket that has just been vacated.
+            erased_bucket = current_bucket;
+            current_bucket = next_bucket(data, current_bucket);
         } else {
             break;
         }
-- 
2.43.0


From 583431b8f1cbfe0702f9bf1f75d8a7898fd576e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 08/34] fix: register size of cyclic phi functions is resolved
 by the outermost phi

Swapping variables inside a nested block of a loop creates phi functions whose
operands are all in the process of being visited.
---
 src/compiler/bytecode_gen/alloc_registers.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compiler/bytecode_gen/alloc_registers.cpp b/src/compiler/bytecode_gen/alloc_registers.cpp
index 8a9dea7..80f5643 100644
--- a/src/compiler/bytecode_gen/alloc_registers.cpp
+++ b/src/compiler/bytecode_gen/alloc_registers.cpp
@@ -483,7 +483,14 @@ std::optional<u32> RegisterAllocator::allocated_size_recursive(InstId inst_id) {
             }
         }
 
-        TIRO_DEBUG_ASSERT(resolved, "Register size of phi function could not be resolved.");
+        if (!resolved) {
+            // All operands are phi functions that are currently being visited by one of our callers,
+            // (cyclic references, e.g. variables being swapped in a loop). The caller will determine the
+            // size using its other operands, this instruction will be visited again if needed.
+            phi_sizes_.erase(inst_id);
+            return {};
+        }
+
         phi_sizes_[inst_id] = *resolved;
         return *resolved;
     }
-- 
2.43.0


From 615a0fd0c6922dcb27fffbe005bc18db7145a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 09/34] fix: do not iterate incomplete phis while the
 containing map is modified

Adding operands to a pending phi may register incomplete phis for other unsealed
blocks, which may rehash the map and invalidate the list being iterated.
---
 src/compiler/ir_gen/func.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index a5d12c8..46f1ee5 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -457,14 +457,14 @@ void FunctionIRGen::seal(BlockId block_id) {
     TIRO_DEBUG_ASSERT(!block->sealed(), "Block was already sealed.");
 
     // Patch incomplete phis. See [BB+13], Section 2.3.
+    // NOTE: Adding operands may create incomplete phis in other (unsealed) blocks, which modifies
+    // the incomplete_phis_ map. The pending phis must be moved out of the map before visiting them.
     if (auto pos = incomplete_phis_.find(block_id); pos != incomplete_phis_.end()) {
-
-        auto& phis = pos->second;
+        auto phis = std::move(pos->second);
+        incomplete_phis_.erase(pos);
         for (const auto& [symbol, phi] : phis) {
             add_phi_operands(symbol, phi, block_id);
         }
-
-        incomplete_phis_.erase(pos);
     }
 
     block->sealed(true);
-- 
2.43.0


From a18d220db35d18614baa1e5b8a77a331d61bde61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 10/34] fix: code after constructs that never complete is
 unreachable

An if/else whose branches both leave the block, a loop without condition and without break and
conditions or assert messages that contain jumps produced blocks without predecessors and without
terminator: the compiler failed with an internal error.
---
 src/compiler/ir_gen/compile_expr.cpp |  6 ++++++
 src/compiler/ir_gen/compile_stmt.cpp | 21 +++++++++++++++------
 src/compiler/ir_gen/func.cpp         |  8 ++++++--
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 9887fe7..54d13fd 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -586,6 +586,12 @@ InstResult ExprCompiler::visit_if_expr(NotNull<AstIfExpr*> expr, CurrentBlock& b
     ctx().seal(end_block);
     bb.assign(end_block);
 
+    // Control flow never reaches the end block if none of the branches do.
+    if (!then_result && !else_result) {
+        bb.end(Terminator::make_never(result().exit()));
+        return unreachable;
+    }
+
     if (!has_value) {
         TIRO_DEBUG_ASSERT(can_elide(), "Must be able to elide value generation.");
         return InstId();
diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index dd2b473..c91877d 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -66,10 +66,9 @@ OkResult StmtCompiler::visit_assert_stmt(NotNull<AstAssertStmt*> stmt, CurrentBl
 
             return nested.compile_value(Constant::make_null());
         }();
-        if (!message_result)
-            return message_result.failure();
-
-        nested.end(Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
+        // Evaluation of the message may leave the fail block (e.g. return), only that block is unreachable then.
+        if (message_result)
+            nested.end(Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
     }
 
     bb.assign(ok_block);
@@ -190,7 +189,14 @@ OkResult StmtCompiler::visit_for_stmt(NotNull<AstForStmt*> stmt, CurrentBlock& b
     ctx().seal(cond_block);
     ctx().seal(end_block);
     bb.assign(end_block);
-    return cond_result;
+
+    // Loops without a condition (or whose condition does not return normally) are only left by
+    // break expressions. The following code is unreachable if there are none.
+    if (ctx().result()[end_block].predecessor_count() == 0) {
+        bb.end(Terminator::make_never(ctx().result().exit()));
+        return unreachable;
+    }
+    return ok;
 }
 
 OkResult StmtCompiler::visit_for_each_stmt(NotNull<AstForEachStmt*> stmt, CurrentBlock& bb) {
@@ -276,8 +282,11 @@ OkResult StmtCompiler::visit_while_stmt(NotNull<AstWhileStmt*> stmt, CurrentBloc
         CurrentBlock cond_bb = ctx().make_current(cond_block);
         auto cond_result = compile_loop_cond(stmt->cond(), body_block, end_block, cond_bb);
         if (!cond_result) {
+            // The loop is never entered and never left.
             ctx().seal(cond_block);
-            bb.assign(cond_block);
+            ctx().seal(end_block);
+            bb.assign(end_block);
+            bb.end(Terminator::make_never(ctx().result().exit()));
             return cond_result;
         }
     }
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 46f1ee5..799e2c7 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -249,9 +249,13 @@ void FunctionIRGen::enter_compilation(FunctionRef<void(CurrentBlock& bb)> compil
 
     compile_body(bb);
 
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() == TerminatorType::Return,
+    // The last block is terminated by "never" if the end of the function is unreachable.
+    [[maybe_unused]] const auto& last_terminator = result_[bb.id()].terminator();
+    TIRO_DEBUG_ASSERT(last_terminator.type() == TerminatorType::Return
+                          || last_terminator.type() == TerminatorType::Never,
         "The last block must perform a return.");
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().as_return().target == result_.exit(),
+    TIRO_DEBUG_ASSERT(last_terminator.type() != TerminatorType::Return
+                          || last_terminator.as_return().target == result_.exit(),
         "The last block at function level must always return to the exit "
         "block.");
 
-- 
2.43.0


From dc5211c61f7887bb61594fa3214244c3bd64f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 11/34] fix: unreachable tail of optional chains must not be
 terminated twice

---
 src/compiler/ir_gen/compile_expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 54d13fd..a373476 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -187,7 +187,9 @@ InstResult PathCompiler::compile(NotNull<AstExpr*> topmost) {
     // If an end block was created due to optional accesses, continue in that block. Otherwise,
     // we must still be in the original block.
     if (end_block_) {
-        chain_bb_.end(Terminator::make_jump(*end_block_));
+        // The remainder of the chain may be unreachable (e.g. `a?.b(return 1)`).
+        if (chain_result)
+            chain_bb_.end(Terminator::make_jump(*end_block_));
         ctx().seal(*end_block_);
         chain_bb_.assign(*end_block_);
     }
-- 
2.43.0


From 95b152cbd52c7d5432473109e9d8fd8a0acf916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 12/34] fix: do not read past the end of the file after ? + - *
 < >

A source file that ends with one of these characters failed with an internal error
in debug builds; release builds could accept a second operator that was not there.
---
 src/compiler/syntax/lexer.cpp | 16 ++++++++++------
 src/compiler/syntax/lexer.hpp |  3 +++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/compiler/syntax/lexer.cpp b/src/compiler/syntax/lexer.cpp
index cac32ef..eec2624 100644
--- a/src/compiler/syntax/lexer.cpp
+++ b/src/compiler/syntax/lexer.cpp
@@ -221,7 +221,7 @@ std::optional<TokenType> Lexer::lex_operator() {
         TIRO_OP(':', return TokenType::Colon;)
         TIRO_OP(';', return TokenType::Semicolon;)
         TIRO_OP('?', {
-            switch (current()) {
+            switch (current_or_eof()) {
                 TIRO_OP('.', return TokenType::QuestionDot;)
                 TIRO_OP('(', return TokenType::QuestionLeftParen;)
                 TIRO_OP('[', return TokenType::QuestionLeftBracket;)
@@ -231,7 +231,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('+', {
-            switch (current()) {
+            switch (current_or_eof()) {
                 TIRO_OP('+', return TokenType::PlusPlus;)
                 TIRO_OP('=', return TokenType::PlusEquals;)
             default:
@@ -239,7 +239,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('-', {
-            switch (current()) {
+            switch (current_or_eof()) {
                 TIRO_OP('-', return TokenType::MinusMinus;)
                 TIRO_OP('=', return TokenType::MinusEquals;)
             default:
@@ -247,7 +247,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('*', {
-            switch (current()) {
+            switch (current_or_eof()) {
                 TIRO_OP('*', {
                     if (accept('='))
                         return TokenType::StarStarEquals;
@@ -291,7 +291,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             return TokenType::Equals;
         })
         TIRO_OP('<', {
-            switch (current()) {
+            switch (current_or_eof()) {
                 TIRO_OP('=', return TokenType::LessEquals;)
                 TIRO_OP('<', return TokenType::LeftShift;)
             default:
@@ -299,7 +299,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('>', {
-            switch (current()) {
+            switch (current_or_eof()) {
                 TIRO_OP('=', return TokenType::GreaterEquals;)
                 TIRO_OP('>', return TokenType::RightShift;)
             default:
@@ -451,6 +451,10 @@ CodePoint Lexer::current() const {
     return input_.get();
 }
 
+CodePoint Lexer::current_or_eof() const {
+    return eof() ? invalid_code_point : current();
+}
+
 std::optional<CodePoint> Lexer::ahead(size_t n) {
     return input_.peek(n);
 }
diff --git a/src/compiler/syntax/lexer.hpp b/src/compiler/syntax/lexer.hpp
index 5638e60..221e7ed 100644
--- a/src/compiler/syntax/lexer.hpp
+++ b/src/compiler/syntax/lexer.hpp
@@ -87,6 +87,9 @@ private:
     // Returns the current code point. Must not be at eof.
     CodePoint current() const;
 
+    // Returns the current code point or `invalid_code_point` at the end of the file.
+    CodePoint current_or_eof() const;
+
     // Returns the nth code point from the current one. `ahead(0)` is the same as `current()`.
     std::optional<CodePoint> ahead(size_t n);
 
-- 
2.43.0


From cb8a01c4cf8080314bfb963ae8484638faef9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:01 +0000
Subject: [PATCH 13/34] fix: std.debug_repr must handle strings that are not
 valid utf8

Strings may contain arbitrary bytes (e.g. slices of multi byte characters). Dumping such a string
aborted the virtual machine with an internal error.
---
 src/vm/builtins/dump.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/vm/builtins/dump.cpp b/src/vm/builtins/dump.cpp
index 7c79999..c125d5a 100644
--- a/src/vm/builtins/dump.cpp
+++ b/src/vm/builtins/dump.cpp
@@ -97,8 +97,21 @@ struct EscapedString {
 
     void format(FormatStream& stream) const {
         stream.format("\"");
-        for (auto cp : CodePointRange(str)) {
-            format_escaped(cp, stream);
+
+        // Strings may contain arbitrary bytes, those that are not valid utf8 are escaped one by one.
+        std::string_view rest = str;
+        while (!rest.empty()) {
+            const auto validation = validate_utf8(rest);
+            const auto valid = validation.ok ? rest : rest.substr(0, validation.error_offset);
+            for (auto cp : CodePointRange(valid)) {
+                format_escaped(cp, stream);
+            }
+            rest.remove_prefix(valid.size());
+
+            if (!rest.empty()) {
+                stream.format("\\x{:02X}", static_cast<u8>(rest.front()));
+                rest.remove_prefix(1);
+            }
         }
         stream.format("\"");
     }
-- 
2.43.0


From b38f7417b46c153d6ee2fb150da6059260f41d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:50 +0000
Subject: [PATCH 14/34] fix: float literals denote the nearest floating point
 value

The digits after the '.' were added one by one with inexact factors, 0.3 was parsed as 0.30000000000000004.
---
 src/compiler/syntax/grammar/literals.cpp | 56 +++++++++---------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/src/compiler/syntax/grammar/literals.cpp b/src/compiler/syntax/grammar/literals.cpp
index ec685d7..6fdb170 100644
--- a/src/compiler/syntax/grammar/literals.cpp
+++ b/src/compiler/syntax/grammar/literals.cpp
@@ -101,27 +101,30 @@ std::optional<i64> parse_integer_value(
     return {};
 }
 
-// TODO: Algorithm is not very correct nor fast
+// Note: the result is exact (i.e. the floating point value nearest to the literal) while all digits
+// fit into the mantissa of a double.
 std::optional<f64>
 parse_float_value(std::string_view float_source, FunctionRef<void(std::string_view)> error_sink) {
     const auto [base, has_explicit_base] = read_base(float_source);
-    const f64 base_inv = 1.0 / base;
     (void) has_explicit_base;
 
-    f64 int_value = 0;
-    f64 frac_value = 0;
-    bool has_digit = false;
+    // Additional fractional digits do not contribute to the result once these limits are reached.
+    const f64 max_mantissa = 9007199254740992.0; // 2^53
+    const f64 max_scale = 1e300;
 
-    auto p = float_source.begin();
-    const auto e = float_source.end();
+    f64 mantissa = 0; // Value of all digits, ignoring the '.'
+    f64 scale = 1;    // base ^ (number of fractional digits)
+    bool has_digit = false;
+    bool fraction = false;
 
-    // Integer part
-    for (; p != e; ++p) {
-        auto c = *p;
+    for (auto c : float_source) {
         if (c == '_')
             continue;
-        if (c == '.')
-            break;
+
+        if (c == '.' && !fraction) {
+            fraction = true;
+            continue;
+        }
 
         auto digit = to_digit(c, base);
         if (TIRO_UNLIKELY(!digit)) {
@@ -130,37 +133,20 @@ parse_float_value(std::string_view float_source, FunctionRef<void(std::string_vi
         }
 
         has_digit = true;
-        int_value *= base;
-        int_value += *digit;
-    }
-
-    // Float part
-    if (p != e && *p == '.') {
-        ++p;
-
-        f64 factor = base_inv;
-        for (; p != e; ++p) {
-            auto c = *p;
-            if (c == '_')
+        if (fraction) {
+            if (mantissa >= max_mantissa || scale >= max_scale)
                 continue;
-
-            auto digit = to_digit(c, base);
-            if (TIRO_UNLIKELY(!digit)) {
-                error_sink("invalid digit for this base");
-                return {};
-            }
-
-            has_digit = true;
-            frac_value += factor * *digit;
-            factor *= base_inv;
+            scale *= base;
         }
+        mantissa *= base;
+        mantissa += *digit;
     }
 
     if (!has_digit) {
         error_sink("expected at least one digit");
         return {};
     }
-    return int_value + frac_value;
+    return mantissa / scale;
 }
 
 std::optional<u32>
-- 
2.43.0


From 6b33194899c6291df46a1a336dd403fc751bc0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:38 +0000
Subject: [PATCH 15/34] fix: give every coroutine a name of its own

---
 src/vm/interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 51b5d57..d3da5b3 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -926,7 +926,7 @@ void Interpreter::init(Context& ctx) {
 Coroutine Interpreter::make_coroutine(Handle<Value> func, MaybeHandle<Tuple> arguments) {
     Scope sc(ctx());
     Local stack = sc.local(CoroutineStack::make(ctx(), CoroutineStack::initial_size));
-    Local name = sc.local(String::format(ctx(), "Coroutine-{}", next_id_));
+    Local name = sc.local(String::format(ctx(), "Coroutine-{}", next_id_++));
     return Coroutine::make(ctx(), name, func, arguments, stack);
 }
 
-- 
2.43.0


From 075060a40a8ab954ffd5d6f4285ff5a765361e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:39 +0000
Subject: [PATCH 16/34] fix: catch_panic ignores additional arguments instead
 of failing an assertion

---
 src/vm/interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index d3da5b3..449556a 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -1087,7 +1087,7 @@ void Interpreter::run_frame(Handle<Coroutine> coro, NotNull<CatchFrame*> frame)
     TIRO_DEBUG_ASSERT(frame->type == FrameType::Catch, "expected a catch frame");
     TIRO_DEBUG_ASSERT(
         coro->state() == CoroutineState::Running, "the coroutine must be marked as running");
-    TIRO_DEBUG_ASSERT(frame->argc == 1, "expected a single argument");
+    TIRO_DEBUG_ASSERT(frame->argc >= 1, "expected at least one argument");
 
     // Fresh frame.
     if ((frame->flags & FRAME_CATCH_STARTED) == 0) {
-- 
2.43.0


From c427ec7cdf85edb927e7d64886ce36344193759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:43 +0000
Subject: [PATCH 17/34] fix: reject allocations whose cell count does not fit
 into 32 bits

---
 src/vm/heap/heap.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 7b31865..ad2ff16 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -1,6 +1,7 @@
 #include "vm/heap/heap.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <new>
 
 #include "fmt/format.h"
@@ -213,7 +214,10 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     }
 
     // Objects of large size get an allocation of their own.
-    const u32 cells_request = ceil_div(bytes_request, cell_size);
+    const size_t cells_total = bytes_request / cell_size + (bytes_request % cell_size != 0);
+    if (TIRO_UNLIKELY(cells_total > std::numeric_limits<u32>::max()))
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "allocation request is too large");
+    const u32 cells_request = static_cast<u32>(cells_total);
     if (cells_request >= layout_.large_object_cells) {
         auto lob = add_lob(cells_request);
         stats_.allocated_objects += 1;
-- 
2.43.0


From 4657395e7379efd84a70f149cbfe79b9e536050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:43 +0000
Subject: [PATCH 18/34] fix: do not account for blocks which could not be
 allocated

---
 src/vm/heap/heap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index ad2ff16..b689ec3 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -302,11 +302,11 @@ void* Heap::allocate_raw(size_t size, size_t align) {
     TIRO_DEBUG_ASSERT(stats_.total_bytes <= max_size_, "invalid total bytes count");
     if (TIRO_UNLIKELY(size > max_size_ - stats_.total_bytes))
         TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "memory limit reached");
-    stats_.total_bytes += size;
 
     void* result = alloc_.allocate_aligned(size, align);
     if (TIRO_UNLIKELY(!result))
-        TIRO_ERROR("failed to allocate block of size {}", size);
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "failed to allocate block of size {}", size);
+    stats_.total_bytes += size;
     return result;
 }
 
-- 
2.43.0


From b8405d59f5c3f8a4525a41682e7ae1c75bc53038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:43 +0000
Subject: [PATCH 19/34] fix: tiro_coroutine_set_callback accepts missing
 cleanup functions when it fails

---
 src/api/objects.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index a6724e0..4daaf5e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -842,7 +842,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
     tiro_error_t* err) {
     return entry_point(err, [&] {
         if (!vm || !coroutine || !callback) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_ARG);
         }
 
@@ -896,7 +897,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
 
         auto maybe_coro = to_internal(coroutine).try_cast<vm::Coroutine>();
         if (!maybe_coro) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 07b3306b0effec4223f648b7630b868323b8f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 20/34] fix: calling a method with an unsuitable instance
 panics instead of raising an internal error

---
 src/vm/objects/native.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/vm/objects/native.hpp b/src/vm/objects/native.hpp
index 2c49f04..43560b9 100644
--- a/src/vm/objects/native.hpp
+++ b/src/vm/objects/native.hpp
@@ -172,6 +172,11 @@ private:
     ResumableFrameContinuation& cont_;
 };
 
+/// Thrown by `check_instance` to make the calling native function panic.
+struct InvalidInstance final {
+    std::string_view expected;
+};
+
 class SyncFrameContext final {
 public:
     explicit SyncFrameContext(ResumableFrameContext& parent)
@@ -481,7 +486,12 @@ private:
                 "unexpected frame state when invoking a sync function");
 
             SyncFrameContext sync(frame);
-            func(sync);
+            try {
+                func(sync);
+            } catch (const InvalidInstance& err) {
+                return frame.panic(
+                    TIRO_FORMAT_EXCEPTION(frame.ctx(), "`this` is not a {}", err.expected));
+            }
             if (frame.cont().action() == ResumableFrameContinuation::NONE)
                 frame.return_value(Value::null());
         }
@@ -516,13 +526,15 @@ private:
     };
 };
 
+/// Returns the `this` argument of a method. Methods can be called with arbitrary values (e.g. `Type.method(value)`),
+/// the calling function panics if the argument is not a `T`.
 template<typename T>
 Handle<T> check_instance(SyncFrameContext& frame) {
     Handle<Value> value = frame.arg(0);
     if (auto instance = value.try_cast<T>()) {
         return instance.handle();
     }
-    TIRO_ERROR("`this` is not a {}", to_string(TypeToTag<T>));
+    throw InvalidInstance{to_string(TypeToTag<T>)};
 }
 
 class NativeObject final : public HeapValue {
-- 
2.43.0


From c6048d363fdfa64ace719107a3b65ff9ce464c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 21/34] fix: resumable functions can pass tuples of arguments
 to invoked functions

---
 src/api/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/functions.cpp b/src/api/functions.cpp
index c1eeb0a..d125b7e 100644
--- a/src/api/functions.cpp
+++ b/src/api/functions.cpp
@@ -268,7 +268,7 @@ void tiro_resumable_frame_invoke(tiro_resumable_frame_t frame, int next_state, t
         auto maybe_args = to_internal_maybe(args);
         if (maybe_args) {
             auto args_handle = maybe_args.handle();
-            if (!args_handle->is<vm::Null>() && args_handle->is<vm::Tuple>())
+            if (!args_handle->is<vm::Null>() && !args_handle->is<vm::Tuple>())
                 return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 89c89875b9242193ba92db16a86e12dfe929dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 22/34] fix: tiro_boolean_value returns false for invalid
 handles

---
 src/api/objects.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index 4daaf5e..047d09e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -201,7 +201,7 @@ void tiro_make_boolean(tiro_vm_t vm, bool value, tiro_handle_t result, tiro_erro
 
 bool tiro_boolean_value(tiro_vm_t vm, tiro_handle_t value) {
     return entry_point(nullptr, false, [&] {
-        if (!vm)
+        if (!vm || !value)
             return false;
 
         vm::Context& ctx = vm->ctx;
-- 
2.43.0


From 8b10ee105f5291bbeca08295deab4d81d6d9e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:02 +0000
Subject: [PATCH 23/34] fix: convert floats that are out of range to integers
 without undefined behaviour

---
 src/vm/objects/primitives.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/vm/objects/primitives.cpp b/src/vm/objects/primitives.cpp
index 47786dd..4fa72a2 100644
--- a/src/vm/objects/primitives.cpp
+++ b/src/vm/objects/primitives.cpp
@@ -3,6 +3,9 @@
 #include "vm/context.hpp"
 #include "vm/object_support/factory.hpp"
 
+#include <cmath>
+#include <limits>
+
 namespace tiro::vm {
 
 Undefined Undefined::make(Context& ctx) {
@@ -99,7 +102,21 @@ f64 Number::convert_float() {
 }
 
 i64 Number::convert_int() {
-    return visit([](auto&& v) { return static_cast<i64>(v.value()); });
+    struct Visitor {
+        i64 operator()(Integer i) { return i.value(); }
+        i64 operator()(Float f) {
+            // Values that are not representable are mapped to the nearest integer (0 for NaN).
+            const f64 value = f.value();
+            if (std::isnan(value))
+                return 0;
+            if (value >= 9223372036854775808.0)
+                return std::numeric_limits<i64>::max();
+            if (value < -9223372036854775808.0)
+                return std::numeric_limits<i64>::min();
+            return static_cast<i64>(value);
+        }
+    };
+    return visit(Visitor());
 }
 
 std::optional<i64> Number::try_extract_int() {
-- 
2.43.0


From 1f7ca7c4d2f7c8d948a14c579caaacb073b8e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:02 +0000
Subject: [PATCH 24/34] fix: verify the index registers of element accesses

---
 src/vm/modules/verify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 5bf7a5f..5f3d8a0 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -517,6 +517,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_tuple_member(
 void FunctionVerifier::InstructionVisitor::visit_load_index(
     const BytecodeInstr::LoadIndex& load_index) {
     self.check(load_index.array);
+    self.check(load_index.index);
     self.check(load_index.target);
 }
 
@@ -524,6 +525,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_index(
     const BytecodeInstr::StoreIndex& store_index) {
     self.check(store_index.source);
     self.check(store_index.array);
+    self.check(store_index.index);
 }
 
 void FunctionVerifier::InstructionVisitor::visit_load_closure(
-- 
2.43.0


From 8c26f9092330707850d311913ea42b9735ddeb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:02 +0000
Subject: [PATCH 25/34] fix: verify that functions and record schemas of a
 module exist

---
 src/vm/modules/verify.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 5f3d8a0..48601f8 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -268,7 +268,7 @@ void ModuleVerifier::visit_variable(
     [[maybe_unused]] const BytecodeMember::Variable& v, [[maybe_unused]] BytecodeMemberId id) {}
 
 void ModuleVerifier::visit_function(const BytecodeMember::Function& f, BytecodeMemberId id) {
-    if (!f.id) {
+    if (!f.id || !module_.functions().in_bounds(f.id)) {
         fail(fmt::format("invalid function reference (in member {})", id.value()));
     }
 
@@ -286,7 +286,7 @@ void ModuleVerifier::visit_function(const BytecodeMember::Function& f, BytecodeM
 
 void ModuleVerifier::visit_record_schema(
     const BytecodeMember::RecordSchema& r, BytecodeMemberId id) {
-    if (!r.id) {
+    if (!r.id || !module_.records().in_bounds(r.id)) {
         fail(fmt::format("invalid record schema reference (in member {})", id.value()));
     }
 
-- 
2.43.0


From 4abf208bf93a2d4e00368a934718ab5772b53e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:01 +0000
Subject: [PATCH 26/34] fix: initialize imported modules when an earlier
 attempt has failed

---
 src/vm/modules/registry.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/vm/modules/registry.cpp b/src/vm/modules/registry.cpp
index 6da5ff6..7b9db57 100644
--- a/src/vm/modules/registry.cpp
+++ b/src/vm/modules/registry.cpp
@@ -149,21 +149,25 @@ void ModuleRegistry::resolve_module(Context& ctx, Handle<Module> module) {
                 current_members = frame.module_->members();
                 while (i < n) {
                     current_member = current_members->unchecked_get(i);
-                    if (!current_member->is<UnresolvedImport>()) {
+                    if (auto resolved = current_member.try_cast<Module>()) {
+                        // Linked by an earlier attempt that failed before the module was initialized.
+                        imported_module = *resolved.handle();
+                        ++i;
+                    } else if (current_member->is<UnresolvedImport>()) {
+                        // Search for the imported module and link it into the members tuple on success.
+                        imported_name = current_member.must_cast<UnresolvedImport>()->module_name();
+                        if (auto found = find_module(*imported_name)) {
+                            imported_module = *found;
+                        } else {
+                            TIRO_ERROR_WITH_CODE(TIRO_ERROR_MODULE_NOT_FOUND,
+                                "module '{}' was not found", imported_name->view());
+                        }
+                        current_members->unchecked_set(i, *imported_module);
                         ++i;
-                        continue;
-                    }
-
-                    // Search for the imported module and link it into the members tuple on success.
-                    imported_name = current_member.must_cast<UnresolvedImport>()->module_name();
-                    if (auto found = find_module(*imported_name)) {
-                        imported_module = *found;
                     } else {
-                        TIRO_ERROR_WITH_CODE(TIRO_ERROR_MODULE_NOT_FOUND,
-                            "module '{}' was not found", imported_name->view());
+                        ++i;
+                        continue;
                     }
-                    current_members->unchecked_set(i, *imported_module);
-                    ++i;
 
                     // Recurse if necessary. CAREFUL: if recurse() pushes a new frame,
                     // the `frame` is invalidated!
-- 
2.43.0


From cd33930f4e6f64e3b5bac0418bbbd40cc9d2b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:51 +0000
Subject: [PATCH 27/34] fix: do not schedule the initializer of a module when
 it cannot be run

A native function that requests an export of a module that is not
initialized yet gets an error because nested calls are not allowed. The
initializer was scheduled nevertheless (and ran later), and it was
executed again by the next request.
---
 src/vm/context.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 9bafe51..a871e17 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -125,6 +125,10 @@ bool Context::has_ready() {
 }
 
 Result Context::run_init(Handle<Value> func, MaybeHandle<Tuple> args) {
+    // Must not leave a scheduled coroutine behind.
+    if (running_)
+        TIRO_ERROR("already running, modules cannot be initialized by nested calls");
+
     Scope sc(*this);
     Local coro = sc.local(make_coroutine(func, args));
     start(coro);
-- 
2.43.0


From 5637a4823403bee4d700329a43076e8c5b494583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:27 +0000
Subject: [PATCH 28/34] fix: async tokens must not resume a coroutine that does
 not wait for an async function

A token that was acquired by an async function that returns without
yielding is still valid when the coroutine yields later. Using it wrote
the result into the frame of a different function.
---
 src/vm/objects/native.cpp | 25 +++++++++++++++++++++++++
 src/vm/objects/native.hpp | 12 +++++++++---
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/vm/objects/native.cpp b/src/vm/objects/native.cpp
index 0de761f..5a2e912 100644
--- a/src/vm/objects/native.cpp
+++ b/src/vm/objects/native.cpp
@@ -21,6 +21,10 @@ u32 NativeFunction::locals() {
     return layout()->static_payload()->locals;
 }
 
+bool NativeFunction::async() {
+    return layout()->static_payload()->async;
+}
+
 NativeFunctionHolder NativeFunction::function() {
     return layout()->static_payload()->function;
 }
@@ -42,6 +46,7 @@ NativeFunction NativeFunction::make_impl(Context& ctx, const Builder& builder) {
     data->write_static_slot(ClosureSlot, builder.closure_.to_nullable());
     data->static_payload()->params = builder.params_;
     data->static_payload()->locals = builder.locals_;
+    data->static_payload()->async = builder.async_;
     data->static_payload()->function = builder.holder_;
     return NativeFunction(from_heap(data));
 }
@@ -199,6 +204,20 @@ void UnownedAsyncResumeToken::panic(Exception ex) {
     complete(ex, true);
 }
 
+// True if the topmost frame of the coroutine is an async function that has yielded.
+static bool waits_for_async(Coroutine coro) {
+    auto stack = coro.stack();
+    TIRO_DEBUG_ASSERT(!stack.is_null(), "waiting coroutines must have a stack");
+
+    auto frame = stack.value().top_frame();
+    if (!frame || frame->type != FrameType::Resumable)
+        return false;
+
+    auto resumable_frame = static_cast<ResumableFrame*>(frame);
+    return resumable_frame->func.async()
+           && resumable_frame->state == AsyncFrameContext::STATE_RESUME;
+}
+
 void UnownedAsyncResumeToken::complete(Value unsafe_value, bool panic) {
     Context& ctx = get_ctx();
     Scope sc(ctx);
@@ -207,6 +226,12 @@ void UnownedAsyncResumeToken::complete(Value unsafe_value, bool panic) {
         TIRO_ERROR("invalid usage of async resume token: frame did not yield yet");
     }
 
+    // The token is also valid if the coroutine yielded for a different reason, e.g. because
+    // the native function returned without yielding.
+    if (token_->valid() && coro->state() == CoroutineState::Waiting && !waits_for_async(*coro)) {
+        TIRO_ERROR("invalid usage of async resume token: the async function did not yield");
+    }
+
     Local value = sc.local(unsafe_value);
     if (!CoroutineToken::resume(ctx, token_)) {
         TIRO_ERROR(
diff --git a/src/vm/objects/native.hpp b/src/vm/objects/native.hpp
index 43560b9..b1cd358 100644
--- a/src/vm/objects/native.hpp
+++ b/src/vm/objects/native.hpp
@@ -398,6 +398,7 @@ private:
     struct Payload {
         u32 params;
         u32 locals;
+        bool async;
         NativeFunctionHolder function;
     };
 
@@ -424,9 +425,10 @@ public:
     private:
         friend NativeFunction;
 
-        Builder(const NativeFunctionHolder& holder, u32 locals)
+        Builder(const NativeFunctionHolder& holder, u32 locals, bool async = false)
             : holder_(holder)
-            , locals_(locals) {}
+            , locals_(locals)
+            , async_(async) {}
 
     private:
         NativeFunctionHolder holder_;
@@ -434,6 +436,7 @@ public:
         MaybeHandle<Value> closure_;
         u32 params_ = 0;
         u32 locals_ = 0;
+        bool async_ = false;
     };
 
 public:
@@ -449,7 +452,7 @@ public:
     static Builder async(AsyncFn&& fn) {
         using Adapter = AsyncAdapter<remove_cvref_t<AsyncFn>>;
         return Builder(NativeFunctionHolder::wrap(Adapter(std::forward<AsyncFn>(fn))),
-            AsyncFrameContext::LOCALS_COUNT);
+            AsyncFrameContext::LOCALS_COUNT, true);
     }
 
     template<typename ResumableFn>
@@ -465,6 +468,9 @@ public:
     u32 params();
     u32 locals();
 
+    /// True if this function was created by `async()`.
+    bool async();
+
     /// Returns the actual native function.
     NativeFunctionHolder function();
 
-- 
2.43.0


From 1c7a4c592ad39dcf7abe755810b662e4366883e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:27 +0000
Subject: [PATCH 29/34] verification hook: collect garbage before chosen
 allocations (TIRO_VERIFY)

---
 src/vm/heap/chunks.cpp |  9 +++++++++
 src/vm/heap/heap.cpp   | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/vm/heap/chunks.cpp b/src/vm/heap/chunks.cpp
index cc84ad5..ed0c310 100644
--- a/src/vm/heap/chunks.cpp
+++ b/src/vm/heap/chunks.cpp
@@ -3,6 +3,10 @@
 #include "vm/heap/heap.hpp"
 #include "vm/objects/value.hpp"
 
+#ifdef TIRO_VERIFY
+#    include <cstring>
+#endif
+
 namespace tiro::vm {
 
 NotNull<Page*> Page::from_address(const void* address, Heap& heap) {
@@ -142,6 +146,11 @@ void Page::sweep(SweepStats& stats, FreeSpace& free_space) {
                                                              : total_cells - current_free;
             TIRO_DEBUG_ASSERT(free_size > 0, "empty free block");
 
+#ifdef TIRO_VERIFY
+            // Verification hook: free memory must not be used anymore.
+            std::memset(cell(current_free), 0xdd, free_size * cell_size);
+#endif
+
             // register the coalesced block with the free space.
             free_space.insert_free(cells().subspan(current_free, free_size));
             free_cells += free_size;
diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index b689ec3..f400b62 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -9,6 +9,11 @@
 #include "common/scope_guards.hpp"
 #include "vm/heap/allocator.hpp"
 
+#ifdef TIRO_VERIFY
+// Verification hook: true if garbage must be collected before the next allocation.
+extern "C" bool tiro_verify_collect();
+#endif
+
 namespace tiro::vm {
 
 #if 0
@@ -208,6 +213,12 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     // TODO: Improve the decision when the collector runs.
     //  - Should also run if the allocation would exceed the max_size
     bool collector_ran = false;
+#ifdef TIRO_VERIFY
+    if (tiro_verify_collect()) {
+        collector_.collect(GcReason::Forced);
+        collector_ran = true;
+    }
+#endif
     if (stats_.allocated_bytes >= collector_.next_threshold()) {
         collector_.collect(GcReason::Automatic);
         collector_ran = true;
-- 
2.43.0


From aeae1e608e55c85b1ac733dae237156b4f1602b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:46 +0000
Subject: [PATCH 30/34] fix: break and continue must not refer to a loop of the
 surrounding function

---
 src/compiler/semantics/structure_check.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/semantics/structure_check.cpp b/src/compiler/semantics/structure_check.cpp
index b5e0b60..94c73a3 100644
--- a/src/compiler/semantics/structure_check.cpp
+++ b/src/compiler/semantics/structure_check.cpp
@@ -115,6 +115,8 @@ void StructureChecker::visit_binding(NotNull<AstBinding*> binding) {
 
 void StructureChecker::visit_func_decl(NotNull<AstFuncDecl*> decl) {
     auto reset_func = enter_func(decl);
+    // Loops of the surrounding function cannot be controlled from within a nested function.
+    auto reset_loop = replace_value(current_loop_, nullptr);
     visit_decl(decl);
 }
 
-- 
2.43.0


From 82407d6fe4caacd483ae5bc1fd1bd53d50652b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:46 +0000
Subject: [PATCH 31/34] fix: bind named function expressions to their name so
 that they can refer to themselves

---
 src/compiler/ir_gen/compile_expr.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index a373476..ee96d12 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -520,13 +520,23 @@ InstResult ExprCompiler::visit_func_expr(NotNull<AstFuncExpr*> expr, CurrentBloc
     auto env = ctx().current_env();
 
     ModuleMemberId func_id = ctx().module_gen().add_function(decl, envs, env);
-    if (env) {
-        auto env_id = bb.compile_env(env);
-        return bb.compile_value(Value::make_make_closure(env_id, func_id));
-    }
+    auto func_inst = [&] {
+        if (env) {
+            auto env_id = bb.compile_env(env);
+            return bb.compile_value(Value::make_make_closure(env_id, func_id));
+        }
+
+        auto lvalue = LValue::make_module(func_id);
+        return bb.compile_value(Value::make_read(lvalue));
+    }();
+
+    // Named functions can be referenced by their name, for example from their own body.
+    // Functions at module level are already linked to a module member.
+    auto symbol_id = symbols().get_decl(decl->id());
+    const auto& symbol = symbols()[symbol_id];
+    if (symbol.name() && symbols()[symbol.parent()].type() != ScopeType::Module)
+        bb.compile_assign(symbol_id, func_inst);
 
-    auto lvalue = LValue::make_module(func_id);
-    auto func_inst = bb.compile_value(Value::make_read(lvalue));
     return func_inst;
 }
 
-- 
2.43.0


From 314778f07a744cd761ebd15a578f35fa4a723ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:46 +0000
Subject: [PATCH 32/34] fix: do not eliminate operators whose constant
 evaluation failed

---
 .../ir_passes/dead_code_elimination.cpp       | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/compiler/ir_passes/dead_code_elimination.cpp b/src/compiler/ir_passes/dead_code_elimination.cpp
index 8ac8c59..e6ecbb8 100644
--- a/src/compiler/ir_passes/dead_code_elimination.cpp
+++ b/src/compiler/ir_passes/dead_code_elimination.cpp
@@ -34,10 +34,8 @@ static bool has_side_effects(const LValue& value) {
 ///
 /// TODO: The implementation is very conservative regarding unary and binary operators,
 /// they can probably be optimized in some situations.
-static bool has_side_effects(const Value& value, const Function& func) {
+static bool has_side_effects(const Value& value) {
     struct Visitor {
-        const Function& func;
-
         bool visit_read(const Value::Read& r) { return has_side_effects(r.target); }
 
         bool visit_write(const Value::Write&) { return true; }
@@ -55,17 +53,11 @@ static bool has_side_effects(const Value& value, const Function& func) {
 
         bool visit_outer_environment(const Value::OuterEnvironment&) { return false; }
 
-        bool visit_binary_op(const Value::BinaryOp& b) {
-            const auto& lhs = func[b.left];
-            const auto& rhs = func[b.right];
-            return lhs.value().type() != ValueType::Constant
-                   || rhs.value().type() != ValueType::Constant;
-        }
+        // Operators with constant operands are evaluated at compile time. If such an operator is still
+        // present, its evaluation failed (e.g. division by zero) and it will throw at runtime.
+        bool visit_binary_op(const Value::BinaryOp&) { return true; }
 
-        bool visit_unary_op(const Value::UnaryOp& u) {
-            const auto& operand = func[u.operand];
-            return operand.value().type() != ValueType::Constant;
-        }
+        bool visit_unary_op(const Value::UnaryOp&) { return true; }
 
         bool visit_call(const Value::Call&) { return true; }
 
@@ -105,7 +97,7 @@ static bool has_side_effects(const Value& value, const Function& func) {
         bool visit_nop(const Value::Nop&) { return false; }
     };
 
-    return value.visit(Visitor{func});
+    return value.visit(Visitor{});
 }
 
 void eliminate_dead_code(Function& func) {
@@ -127,7 +119,7 @@ void eliminate_dead_code(Function& func) {
 
         for (const auto& inst_id : block.insts()) {
             const auto& inst = func[inst_id];
-            if (has_side_effects(inst.value(), func))
+            if (has_side_effects(inst.value()))
                 visit(inst_id);
         }
 
-- 
2.43.0


From 8b04d845bd2753329511d56a528b23b2fd7662de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:46 +0000
Subject: [PATCH 33/34] fix: visit blocks in depth first post order

---
 src/compiler/ir/traversal.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/compiler/ir/traversal.cpp b/src/compiler/ir/traversal.cpp
index 536b0c0..74513b9 100644
--- a/src/compiler/ir/traversal.cpp
+++ b/src/compiler/ir/traversal.cpp
@@ -47,20 +47,24 @@ static std::vector<BlockId> dfs_postorder(const Function& func) {
 
     auto visit = [&](BlockId node) {
         TIRO_DEBUG_ASSERT(node, "Visited node must be valid.");
-        const auto index = node.value();
-        if (!visited[index]) {
-            visited[index] = true;
+        if (!visited[node.value()])
             visit_stack.emplace_back(node, true);
-            return true;
-        }
-        return false;
     };
 
     visit(func.entry());
     while (!visit_stack.empty()) {
-        auto& [id, first] = visit_stack.back();
+        auto [id, first] = visit_stack.back();
         if (first) {
-            first = false;
+            // The node may have been pushed multiple times before it was reached. Nodes must
+            // be marked here (instead of on push) because they would not be visited depth first otherwise.
+            const auto index = id.value();
+            if (visited[index]) {
+                visit_stack.pop_back();
+                continue;
+            }
+
+            visited[index] = true;
+            visit_stack.back().second = false;
 
             const auto& block = func[id];
             successors.clear();
-- 
2.43.0


From 305386fa707276ae073e239798caacbfbebb34d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:47 +0000
Subject: [PATCH 34/34] fix: report invalid utf8 instead of failing with an
 internal error

A file with invalid utf8 has a syntax tree without a root node, which neither the
construction of the ast nor the dump of the syntax tree expected.
---
 src/compiler/ast_gen/build_ast.cpp | 3 ++-
 src/compiler/syntax/dump.cpp       | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ast_gen/build_ast.cpp b/src/compiler/ast_gen/build_ast.cpp
index 7350048..f7be073 100644
--- a/src/compiler/ast_gen/build_ast.cpp
+++ b/src/compiler/ast_gen/build_ast.cpp
@@ -1205,7 +1205,8 @@ SyntaxNodeId AstBuilder::get_syntax_node() {
     // Visit the root node and emit errors.
     // The root node contains errors that could not be attached to any open syntax node during parsing.
     auto root_id = tree_.root_id();
-    TIRO_DEBUG_ASSERT(root_id, "Syntax tree does not have a root.");
+    if (!root_id)
+        return {}; // The file was not parsed at all, e.g. because of invalid utf8.
 
     auto node = read_checked<SyntaxType::Root>(root_id);
     if (!node)
diff --git a/src/compiler/syntax/dump.cpp b/src/compiler/syntax/dump.cpp
index 04a7722..6b573ef 100644
--- a/src/compiler/syntax/dump.cpp
+++ b/src/compiler/syntax/dump.cpp
@@ -71,9 +71,9 @@ std::string dump(const SyntaxTree& tree, const SourceMap& map) {
 
 void TreeWriter::dump() {
     auto root_id = tree_.root_id();
-    TIRO_CHECK(root_id, "syntax tree does not have a root");
+    if (root_id)
+        dump_node(root_id);
 
-    dump_node(root_id);
     if (!tree_.errors().empty()) {
         stream_.format("\nErrors:\n");
 
-- 
2.43.0

