From 0182ee53ffaeac7b3839be3f3bc4ddd52519a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 01/35] Add collector seams for deterministic simulation
 (TIRO_SIM_HOOKS, off by default)

---
 src/vm/heap/chunks.cpp    |  6 ++++++
 src/vm/heap/collector.cpp |  6 ++++++
 src/vm/heap/heap.cpp      | 34 ++++++++++++++++++++++++++++++
 src/vm/heap/sim_hooks.hpp | 44 +++++++++++++++++++++++++++++++++++++++
 4 files changed, 90 insertions(+)
 create mode 100644 src/vm/heap/sim_hooks.hpp

diff --git a/src/vm/heap/chunks.cpp b/src/vm/heap/chunks.cpp
index cc84ad5..a609c1f 100644
--- a/src/vm/heap/chunks.cpp
+++ b/src/vm/heap/chunks.cpp
@@ -1,6 +1,7 @@
 #include "vm/heap/chunks.hpp"
 
 #include "vm/heap/heap.hpp"
+#include "vm/heap/sim_hooks.hpp"
 #include "vm/objects/value.hpp"
 
 namespace tiro::vm {
@@ -142,6 +143,11 @@ void Page::sweep(SweepStats& stats, FreeSpace& free_space) {
                                                              : total_cells - current_free;
             TIRO_DEBUG_ASSERT(free_size > 0, "empty free block");
 
+#ifdef TIRO_SIM_HOOKS
+            if (auto hook = sim_hooks::table.cells_freed)
+                hook(static_cast<void*>(cell(current_free)), free_size * cell_size);
+#endif
+
             // register the coalesced block with the free space.
             free_space.insert_free(cells().subspan(current_free, free_size));
             free_cells += free_size;
diff --git a/src/vm/heap/collector.cpp b/src/vm/heap/collector.cpp
index 45e0b67..6ebf8c3 100644
--- a/src/vm/heap/collector.cpp
+++ b/src/vm/heap/collector.cpp
@@ -6,6 +6,7 @@
 #include "common/scope_guards.hpp"
 #include "common/type_traits.hpp"
 #include "vm/heap/heap.hpp"
+#include "vm/heap/sim_hooks.hpp"
 #include "vm/objects/all.hpp"
 #include "vm/root_set.hpp"
 
@@ -69,6 +70,11 @@ void Collector::collect([[maybe_unused]] GcReason reason) {
         "Collection took {} ms. New heap size is {} ({} objects). Next "
         "auto-collect at heap size {}.\n",
         duration, size_after_collect, objects_after_collect, next_threshold_);
+
+#ifdef TIRO_SIM_HOOKS
+    if (auto hook = sim_hooks::table.after_collect)
+        hook(&heap_);
+#endif
 }
 
 class Collector::Tracer final {
diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 7b31865..ce1a0c5 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -7,6 +7,30 @@
 
 #include "common/scope_guards.hpp"
 #include "vm/heap/allocator.hpp"
+#include "vm/heap/sim_hooks.hpp"
+
+#ifdef TIRO_SIM_HOOKS
+namespace tiro::sim_hooks {
+
+Table table;
+
+void collect(void* heap) {
+    static_cast<vm::Heap*>(heap)->collector().collect(vm::GcReason::Forced);
+}
+
+Stats stats(void* heap) {
+    auto h = static_cast<vm::Heap*>(heap);
+    Stats result;
+    result.total_bytes = h->stats().total_bytes;
+    result.allocated_bytes = h->stats().allocated_bytes;
+    result.free_bytes = h->stats().free_bytes;
+    result.allocated_objects = h->stats().allocated_objects;
+    result.max_bytes = h->max_size();
+    return result;
+}
+
+} // namespace tiro::sim_hooks
+#endif
 
 namespace tiro::vm {
 
@@ -204,6 +228,16 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     TIRO_DEBUG_ASSERT(!collector_.running(), "collector must not be running");
     TIRO_DEBUG_ASSERT(bytes_request > 0, "zero sized allocation");
 
+#ifdef TIRO_SIM_HOOKS
+    if (auto hook = sim_hooks::table.before_allocate) {
+        const int action = hook(this, bytes_request);
+        if (action == 1)
+            collector_.collect(GcReason::Forced);
+        if (action == 2)
+            TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "memory limit reached");
+    }
+#endif
+
     // TODO: Improve the decision when the collector runs.
     //  - Should also run if the allocation would exceed the max_size
     bool collector_ran = false;
diff --git a/src/vm/heap/sim_hooks.hpp b/src/vm/heap/sim_hooks.hpp
new file mode 100644
index 0000000..ff31a0c
--- /dev/null
+++ b/src/vm/heap/sim_hooks.hpp
@@ -0,0 +1,44 @@
+#ifndef TIRO_VM_HEAP_SIM_HOOKS_HPP
+#define TIRO_VM_HEAP_SIM_HOOKS_HPP
+
+// Seams for deterministic simulation of the garbage collector.
+// Nothing in this file exists unless TIRO_SIM_HOOKS is defined, which no regular build does.
+#ifdef TIRO_SIM_HOOKS
+
+#    include <cstddef>
+
+namespace tiro::sim_hooks {
+
+struct Table {
+    /// Called before every object allocation.
+    /// Returns 0 (proceed normally), 1 (collect garbage first) or 2 (fail as if the heap limit was reached).
+    int (*before_allocate)(void* heap, size_t bytes) = nullptr;
+
+    /// Called when a sweep reclaimed a block of cells, before the block is put on the free list.
+    void (*cells_freed)(void* address, size_t bytes) = nullptr;
+
+    /// Called after every completed garbage collection.
+    void (*after_collect)(void* heap) = nullptr;
+};
+
+struct Stats {
+    size_t total_bytes = 0;
+    size_t allocated_bytes = 0;
+    size_t free_bytes = 0;
+    size_t allocated_objects = 0;
+    size_t max_bytes = 0;
+};
+
+extern Table table;
+
+/// Runs the garbage collector now. `heap` is a pointer previously passed to a hook function.
+void collect(void* heap);
+
+/// Returns the current statistics of the heap.
+Stats stats(void* heap);
+
+} // namespace tiro::sim_hooks
+
+#endif // TIRO_SIM_HOOKS
+
+#endif // TIRO_VM_HEAP_SIM_HOOKS_HPP
-- 
2.43.0


From 6642311f4e39954650236f914d06a2c242eb63be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 02/35] fix: run all finalizers before pages are destroyed in
 Heap::~Heap

Finalizers look at the type instance of their object, which could already
have been destroyed together with another page.
---
 src/vm/heap/heap.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index ce1a0c5..4e2b939 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -211,16 +211,19 @@ Heap::Heap(size_t page_size, HeapAllocator& alloc)
     , free_(layout_) {}
 
 Heap::~Heap() {
-    for (auto page : pages_) {
+    // Finalizers may access other objects (e.g. the type instance of the finalized object),
+    // so all of them must run before the first page is destroyed.
+    for (auto page : pages_)
         page->invoke_finalizers();
+    for (auto lob : lobs_)
+        lob->invoke_finalizer();
+
+    for (auto page : pages_)
         Page::destroy(page);
-    }
     pages_.clear();
 
-    for (auto lob : lobs_) {
-        lob->invoke_finalizer();
+    for (auto lob : lobs_)
         LargeObject::destroy(lob);
-    }
     lobs_.clear();
 }
 
-- 
2.43.0


From 7607a12f01df066677a761e6ac8b99264f503f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 03/35] fix: accept tuples as arguments in
 tiro_resumable_frame_invoke

The type check was inverted: tuples were rejected, other values accepted.
---
 src/api/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/functions.cpp b/src/api/functions.cpp
index c1eeb0a..d125b7e 100644
--- a/src/api/functions.cpp
+++ b/src/api/functions.cpp
@@ -268,7 +268,7 @@ void tiro_resumable_frame_invoke(tiro_resumable_frame_t frame, int next_state, t
         auto maybe_args = to_internal_maybe(args);
         if (maybe_args) {
             auto args_handle = maybe_args.handle();
-            if (!args_handle->is<vm::Null>() && args_handle->is<vm::Tuple>())
+            if (!args_handle->is<vm::Null>() && !args_handle->is<vm::Tuple>())
                 return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 55e73912456ccb4cd134a21c933536c102e81cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 04/35] fix: do not use invalidated map references in
 FunctionIRGen::seal

add_phi_operands() may insert into incomplete_phis_ while the entry of the
sealed block is being visited.
---
 src/compiler/ir_gen/func.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index a5d12c8..c564ed0 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -457,14 +457,16 @@ void FunctionIRGen::seal(BlockId block_id) {
     TIRO_DEBUG_ASSERT(!block->sealed(), "Block was already sealed.");
 
     // Patch incomplete phis. See [BB+13], Section 2.3.
-    if (auto pos = incomplete_phis_.find(block_id); pos != incomplete_phis_.end()) {
+    // Note: add_phi_operands() may visit other unsealed blocks and insert into incomplete_phis_,
+    // which invalidates iterators and references into that map.
+    for (auto pos = incomplete_phis_.find(block_id); pos != incomplete_phis_.end();
+         pos = incomplete_phis_.find(block_id)) {
+        auto phis = std::move(pos->second);
+        incomplete_phis_.erase(pos);
 
-        auto& phis = pos->second;
         for (const auto& [symbol, phi] : phis) {
             add_phi_operands(symbol, phi, block_id);
         }
-
-        incomplete_phis_.erase(pos);
     }
 
     block->sealed(true);
-- 
2.43.0


From 72d89d7f5fbf67ddc8490542bb225765e69c38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 05/35] fix: keep the exception handler of enclosing scopes
 after return, break or continue

Leaving scopes early replaced the current handler for all code that follows
in these scopes: their deferred expressions were skipped by later panics.
---
 src/compiler/ir_gen/compile_expr.cpp | 6 ++++++
 src/compiler/ir_gen/func.cpp         | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 9887fe7..0cfbbba 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -1,6 +1,7 @@
 #include "compiler/ir_gen/compile.hpp"
 
 #include "common/fix.hpp"
+#include "common/scope_guards.hpp"
 #include "compiler/ast/ast.hpp"
 #include "compiler/ir/function.hpp"
 #include "compiler/ir_gen/func.hpp"
@@ -426,6 +427,11 @@ InstResult ExprCompiler::visit_block_expr(NotNull<AstBlockExpr*> expr, CurrentBl
     auto scope = ctx().enter_scope();
     auto scope_id = ctx().current_scope_id(); // TODO Awkward api
 
+    // Handlers registered by deferred expressions end with this scope, even if its end is unreachable.
+    ScopeExit restore_handler = [&, handler = ctx().current_handler()] {
+        ctx().current_handler(handler);
+    };
+
     auto& stmts = expr->stmts();
 
     bool has_value = can_use_as_value(get_type(expr));
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index c564ed0..8a5e223 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -395,6 +395,10 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
 OkResult FunctionIRGen::compile_scope_exit_until(RegionId target, CurrentBlock& bb) {
     TIRO_DEBUG_ASSERT(!target || target.value() < active_regions_.size(), "Invalid target index.");
 
+    // The current scopes remain active for the code that follows the control flow expression (e.g. after
+    // a conditional return), so their handler must be restored.
+    ScopeExit restore_handler = [&, handler = current_handler()] { current_handler(handler); };
+
     // inclusive index:
     const size_t until = target ? target.value() + 1 : 0;
     for (size_t i = active_regions_.size(); i-- > until;) {
-- 
2.43.0


From 83c5028e7eaf69909d3d41c72a09fc3c136b2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 06/35] fix: survive failing allocations in the bookkeeping of
 heap pages and handles

absl::flat_hash_set is left in an invalid state when its allocation throws,
which crashed the destructors of Heap and ExternalStorage afterwards.
---
 src/vm/handles/external.hpp |  5 ++---
 src/vm/heap/chunks.cpp      |  2 +-
 src/vm/heap/chunks.hpp      |  4 ++--
 src/vm/heap/collector.cpp   |  2 ++
 src/vm/heap/heap.cpp        | 11 +++++------
 src/vm/heap/heap.hpp        |  6 +++---
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/vm/handles/external.hpp b/src/vm/handles/external.hpp
index ae7dbb8..f5a654d 100644
--- a/src/vm/handles/external.hpp
+++ b/src/vm/handles/external.hpp
@@ -10,10 +10,9 @@
 #include "vm/objects/fwd.hpp"
 #include "vm/objects/value.hpp"
 
-#include <absl/container/flat_hash_set.h>
-
 #include <bitset>
 #include <climits>
+#include <unordered_set>
 #include <utility>
 
 namespace tiro::vm {
@@ -116,7 +115,7 @@ private:
     Context* ctx_ = nullptr;
 
     // Contains all allocated pages.
-    absl::flat_hash_set<Page*> pages_;
+    std::unordered_set<Page*> pages_;
 
     // Linked list of free slots. Free slots have the "allocated" bit set to free in their page.
     Slot* first_free_ = nullptr;
diff --git a/src/vm/heap/chunks.cpp b/src/vm/heap/chunks.cpp
index a609c1f..47e3d70 100644
--- a/src/vm/heap/chunks.cpp
+++ b/src/vm/heap/chunks.cpp
@@ -254,7 +254,7 @@ void Page::set_free(u32 index, [[maybe_unused]] u32 size) {
 void Page::mark_finalizer(u32 index) {
     TIRO_DEBUG_ASSERT(index < cells_count(), "cell index out of bounds");
     TIRO_DEBUG_ASSERT(is_allocated_block_start(index), "cell index is not the start of a block");
-    TIRO_DEBUG_ASSERT(!finalizers_.contains(index), "cell already marked as having a finalizer");
+    TIRO_DEBUG_ASSERT(finalizers_.count(index) == 0, "cell already marked as having a finalizer");
     finalizers_.insert(index);
 }
 
diff --git a/src/vm/heap/chunks.hpp b/src/vm/heap/chunks.hpp
index c1d5502..5d9e583 100644
--- a/src/vm/heap/chunks.hpp
+++ b/src/vm/heap/chunks.hpp
@@ -9,7 +9,7 @@
 #include "vm/heap/fwd.hpp"
 #include "vm/heap/memory.hpp"
 
-#include "absl/container/flat_hash_set.h"
+#include <unordered_set>
 
 namespace tiro::vm {
 
@@ -211,7 +211,7 @@ private:
 
 private:
     // Set of cell indices that contain objects that must be finalized.
-    absl::flat_hash_set<u32> finalizers_;
+    std::unordered_set<u32> finalizers_;
 };
 static_assert(alignof(Page) == cell_align);
 
diff --git a/src/vm/heap/collector.cpp b/src/vm/heap/collector.cpp
index 6ebf8c3..2ef27bf 100644
--- a/src/vm/heap/collector.cpp
+++ b/src/vm/heap/collector.cpp
@@ -12,6 +12,8 @@
 
 #include "vm/root_set.ipp"
 
+#include <chrono>
+
 #if 0
 #    define TIRO_TRACE_COLLECTOR(...) fmt::print("collector: " __VA_ARGS__);
 #else
diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 4e2b939..db9ef52 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -219,11 +219,11 @@ Heap::~Heap() {
         lob->invoke_finalizer();
 
     for (auto page : pages_)
-        Page::destroy(page);
+        Page::destroy(TIRO_NN(page));
     pages_.clear();
 
     for (auto lob : lobs_)
-        LargeObject::destroy(lob);
+        LargeObject::destroy(TIRO_NN(lob));
     lobs_.clear();
 }
 
@@ -307,14 +307,13 @@ void Heap::sweep() {
     stats_.allocated_bytes = 0;
     free_.reset();
 
-    // see absl flat_hash_set::erase for the erase_if idiom.
     for (auto it = lobs_.begin(), end = lobs_.end(); it != end;) {
         auto lob = *it;
-        auto erase = it++;
+        auto erase = it++; // iterator is invalidated by erase()
         if (!lob->is_marked()) {
             lob->invoke_finalizer();
             lobs_.erase(erase);
-            destroy_lob(lob);
+            destroy_lob(TIRO_NN(lob));
         } else {
             lob->set_marked(false);
             stats_.allocated_bytes += lob->cells_count() * cell_size;
@@ -370,7 +369,7 @@ NotNull<LargeObject*> Heap::add_lob(u32 cells) {
 }
 
 void Heap::destroy_lob(NotNull<LargeObject*> lob) {
-    TIRO_DEBUG_ASSERT(!lobs_.contains(lob), "large object was not unregistered");
+    TIRO_DEBUG_ASSERT(lobs_.count(lob) == 0, "large object was not unregistered");
     LargeObject::destroy(lob);
 }
 
diff --git a/src/vm/heap/heap.hpp b/src/vm/heap/heap.hpp
index 283fbec..16528d8 100644
--- a/src/vm/heap/heap.hpp
+++ b/src/vm/heap/heap.hpp
@@ -13,7 +13,7 @@
 #include "vm/heap/memory.hpp"
 #include "vm/object_support/fwd.hpp"
 
-#include "absl/container/flat_hash_set.h"
+#include <unordered_set>
 
 namespace tiro::vm {
 
@@ -251,8 +251,8 @@ private:
     const PageLayout layout_;
     Collector collector_;
     FreeSpace free_;
-    absl::flat_hash_set<NotNull<Page*>> pages_;
-    absl::flat_hash_set<NotNull<LargeObject*>> lobs_;
+    std::unordered_set<Page*> pages_;
+    std::unordered_set<LargeObject*> lobs_;
     HeapStats stats_;
     size_t max_size_ = size_t(-1);
 };
-- 
2.43.0


From 605829841dc8ff7cdac7edf48a7968703b9f2660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 07/35] fix: do not count memory that could not be allocated in
 Heap::allocate_raw

---
 src/vm/heap/heap.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index db9ef52..f28c0e3 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -334,11 +334,11 @@ void* Heap::allocate_raw(size_t size, size_t align) {
     TIRO_DEBUG_ASSERT(stats_.total_bytes <= max_size_, "invalid total bytes count");
     if (TIRO_UNLIKELY(size > max_size_ - stats_.total_bytes))
         TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "memory limit reached");
-    stats_.total_bytes += size;
 
-    void* result = alloc_.allocate_aligned(size, align);
+    void* result = alloc_.allocate_aligned(size, align); // may throw
     if (TIRO_UNLIKELY(!result))
-        TIRO_ERROR("failed to allocate block of size {}", size);
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "failed to allocate block of size {}", size);
+    stats_.total_bytes += size;
     return result;
 }
 
-- 
2.43.0


From 7930d14ad75bd1fbda921b9e69a8cea09dcb23ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 08/35] fix: refuse allocations whose size does not fit the
 cell count in Heap::allocate

---
 src/vm/heap/heap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index f28c0e3..6ff87f0 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -1,6 +1,7 @@
 #include "vm/heap/heap.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <new>
 
 #include "fmt/format.h"
@@ -250,6 +251,9 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     }
 
     // Objects of large size get an allocation of their own.
+    if (TIRO_UNLIKELY(bytes_request > size_t(std::numeric_limits<u32>::max()) * cell_size))
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "allocation of size {} is too large", bytes_request);
+
     const u32 cells_request = ceil_div(bytes_request, cell_size);
     if (cells_request >= layout_.large_object_cells) {
         auto lob = add_lob(cells_request);
-- 
2.43.0


From c7071c513f2cf9986281fd90be3b857d31d57358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 09/35] fix: reclaim garbage before large allocations fail at
 the heap limit

---
 src/vm/heap/chunks.cpp |  5 +++++
 src/vm/heap/chunks.hpp |  3 +++
 src/vm/heap/heap.cpp   | 37 +++++++++++++++++++++++++++++++++++++
 src/vm/heap/heap.hpp   |  9 +++++++++
 4 files changed, 54 insertions(+)

diff --git a/src/vm/heap/chunks.cpp b/src/vm/heap/chunks.cpp
index 47e3d70..44215de 100644
--- a/src/vm/heap/chunks.cpp
+++ b/src/vm/heap/chunks.cpp
@@ -182,6 +182,11 @@ void Page::invoke_finalizers() {
     }
 }
 
+bool Page::is_empty() {
+    auto block = block_bitmap();
+    return block.find_set() == block.npos;
+}
+
 Span<Cell> Page::cells() {
     return Span(cell(0), cells_count());
 }
diff --git a/src/vm/heap/chunks.hpp b/src/vm/heap/chunks.hpp
index 5d9e583..03676f5 100644
--- a/src/vm/heap/chunks.hpp
+++ b/src/vm/heap/chunks.hpp
@@ -138,6 +138,9 @@ public:
     /// when the heap is shutting down.
     void invoke_finalizers();
 
+    /// Returns true if there are no allocated blocks within this page.
+    bool is_empty();
+
     /// Returns a span over this page's cell array.
     Span<Cell> cells();
 
diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 6ff87f0..e476427 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -146,6 +146,18 @@ void FreeSpace::insert_free_with_metadata(Span<Cell> cells) {
     insert_free(cells);
 }
 
+void FreeSpace::remove_free(Span<Cell> cells) {
+    TIRO_DEBUG_ASSERT(cells.size() > 0, "zero sized cell span");
+
+    FreeListEntry** cursor = &lists_[class_index(cells.size())].head;
+    while (*cursor && reinterpret_cast<Cell*>(*cursor) != cells.data())
+        cursor = &(*cursor)->next;
+
+    TIRO_DEBUG_ASSERT(*cursor, "block is not on the free list");
+    TIRO_DEBUG_ASSERT((*cursor)->cells == cells.size(), "block has unexpected size");
+    *cursor = (*cursor)->next;
+}
+
 void FreeSpace::reset() {
     std::fill(lists_.begin(), lists_.end(), FreeList());
 }
@@ -256,6 +268,18 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
 
     const u32 cells_request = ceil_div(bytes_request, cell_size);
     if (cells_request >= layout_.large_object_cells) {
+        // Reclaim garbage before giving up at the memory limit.
+        const size_t raw_size = LargeObject::dynamic_size(cells_request);
+        auto limit_exceeded = [&]() { return raw_size > max_size_ - stats_.total_bytes; };
+        if (limit_exceeded()) {
+            if (!collector_ran) {
+                collector_.collect(GcReason::AllocFailure);
+                collector_ran = true;
+            }
+            if (limit_exceeded())
+                release_empty_pages();
+        }
+
         auto lob = add_lob(cells_request);
         stats_.allocated_objects += 1;
         stats_.allocated_bytes += bytes_request;
@@ -363,6 +387,19 @@ NotNull<Page*> Heap::add_page() {
     return page;
 }
 
+void Heap::release_empty_pages() {
+    for (auto it = pages_.begin(), end = pages_.end(); it != end;) {
+        auto page = TIRO_NN(*it);
+        auto erase = it++; // iterator is invalidated by erase()
+        if (page->is_empty()) {
+            free_.remove_free(page->cells());
+            stats_.free_bytes -= layout_.cells_size * cell_size;
+            pages_.erase(erase);
+            Page::destroy(page);
+        }
+    }
+}
+
 NotNull<LargeObject*> Heap::add_lob(u32 cells) {
     NotNull<LargeObject*> lob = LargeObject::allocate(*this, cells); // may throw
     TIRO_DEBUG_ASSERT(lob->cells_count() == cells, "large object has inconsistent number of cells");
diff --git a/src/vm/heap/heap.hpp b/src/vm/heap/heap.hpp
index 16528d8..1461da5 100644
--- a/src/vm/heap/heap.hpp
+++ b/src/vm/heap/heap.hpp
@@ -93,6 +93,11 @@ public:
     /// \pre `cells.size() >= 1`.
     void insert_free_with_metadata(Span<Cell> cells);
 
+    /// Removes a block of free cells that was previously inserted by `insert_free`.
+    ///
+    /// \pre `cells` must be on the free list as a single block.
+    void remove_free(Span<Cell> cells);
+
     /// Drops all references to free blocks.
     void reset();
 
@@ -236,6 +241,10 @@ private:
     NotNull<Page*> add_page();
     NotNull<LargeObject*> add_lob(u32 cells);
 
+    // Returns the memory of pages without any allocated objects to the system.
+    // Must be called immediately after a garbage collection (i.e. when free blocks are coalesced).
+    void release_empty_pages();
+
     // Must already be unregistered.
     void destroy_lob(NotNull<LargeObject*> lob);
 
-- 
2.43.0


From f3d788dd39534160b5e8268d48ed59ad41f1f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 10/35] fix: shift all displaced followers when an entry is
 removed from a hash table

---
 src/vm/objects/hash_table.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 25da8e6..b439ee4 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -469,6 +469,10 @@ void HashTable::remove_from_index(Layout* data, size_t erased_bucket) {
         } else {
             break;
         }
+
+        // Continue with the bucket that was just vacated: all displaced followers must be shifted.
+        erased_bucket = current_bucket;
+        current_bucket = next_bucket(data, current_bucket);
     }
 }
 
-- 
2.43.0


From 299a02e86821d7e05a8d630e4592b55753760bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 11/35] fix: keep hash tables consistent if an allocation fails
 while they grow

---
 src/vm/objects/hash_table.cpp | 24 ++++++++++++++++--------
 src/vm/objects/hash_table.hpp |  3 ++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index b439ee4..9229e72 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -558,9 +558,14 @@ void HashTable::init_first(Layout* data, Context& ctx) {
     using InitialSizeClass = SizeClassTraits<SizeClass::U8>;
 
     TIRO_TABLE_TRACE("Initializing hash table to initial capacity");
-    set_entries(data, HashTableStorage::make(ctx, initial_table_capacity));
-    set_index(data, InitialSizeClass::BufferAccess::make(
-                        ctx, initial_index_capacity, InitialSizeClass::empty_value));
+
+    // Entries and index must be replaced together, i.e. only when both allocations succeeded.
+    Scope sc(ctx);
+    Local entries = sc.local(HashTableStorage::make(ctx, initial_table_capacity));
+    Local index = sc.local(InitialSizeClass::BufferAccess::make(
+        ctx, initial_index_capacity, InitialSizeClass::empty_value));
+    set_entries(data, *entries);
+    set_index(data, *index);
     data->static_payload()->size = 0;
     data->static_payload()->mask = initial_index_capacity - 1;
 }
@@ -606,12 +611,11 @@ void HashTable::grow_to_capacity(
                 new_entries->append(entry);
         }
     }
-    set_entries(data, *new_entries);
 
     // TODO: make rehashing cheaper by reusing the old index table...
     const SizeClass next_size_class = index_size_class(new_entry_capacity);
     dispatch_size_class(next_size_class, [&](auto traits) {
-        this->template recreate_index<decltype(traits)>(data, ctx, new_index_capacity);
+        this->template recreate_index<decltype(traits)>(data, ctx, new_entries, new_index_capacity);
     });
 }
 
@@ -654,13 +658,17 @@ void HashTable::compact(Layout* data) {
 }
 
 template<typename ST>
-void HashTable::recreate_index(Layout* data, Context& ctx, size_t capacity) {
+void HashTable::recreate_index(
+    Layout* data, Context& ctx, Handle<HashTableStorage> new_entries, size_t capacity) {
     TIRO_DEBUG_ASSERT(
-        size() == occupied_entries(), "Entries array must not have any deleted elements.");
+        size() == new_entries->size(), "Entries array must not have any deleted elements.");
     TIRO_DEBUG_ASSERT(is_pow2(capacity), "New index capacity must be a power of two.");
 
+    // Entries and index must be replaced together, i.e. only when all allocations succeeded.
     // TODO rehashing can be made faster, see rust index map at https://github.com/bluss/indexmap
-    set_index(data, ST::BufferAccess::make(ctx, capacity, ST::empty_value));
+    auto new_index = ST::BufferAccess::make(ctx, capacity, ST::empty_value); // may throw
+    set_entries(data, *new_entries);
+    set_index(data, new_index);
     data->static_payload()->mask = capacity - 1;
     rehash_index<ST>(data);
 }
diff --git a/src/vm/objects/hash_table.hpp b/src/vm/objects/hash_table.hpp
index 3071da2..a1a8646 100644
--- a/src/vm/objects/hash_table.hpp
+++ b/src/vm/objects/hash_table.hpp
@@ -300,7 +300,8 @@ private:
     // Creates a new index table from an existing entries array.
     // This could be optimized further by using the old index table (?).
     template<typename ST>
-    void recreate_index(Layout* data, Context& ctx, size_t capacity);
+    void recreate_index(
+        Layout* data, Context& ctx, Handle<HashTableStorage> new_entries, size_t capacity);
 
     // Creates the index from scratch using the existing index array.
     // The index array should have been cleared (if reused) or initialized
-- 
2.43.0


From c138a534d9f945a2141bc4d41928135a13f20259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 12/35] fix: discard mark bits when a collection fails to trace
 the heap

---
 src/vm/heap/chunks.cpp    | 8 ++++++++
 src/vm/heap/chunks.hpp    | 3 +++
 src/vm/heap/collector.cpp | 7 +++++++
 src/vm/heap/heap.cpp      | 7 +++++++
 src/vm/heap/heap.hpp      | 4 ++++
 5 files changed, 29 insertions(+)

diff --git a/src/vm/heap/chunks.cpp b/src/vm/heap/chunks.cpp
index 44215de..e124a20 100644
--- a/src/vm/heap/chunks.cpp
+++ b/src/vm/heap/chunks.cpp
@@ -167,6 +167,14 @@ void Page::sweep(SweepStats& stats, FreeSpace& free_space) {
     stats.allocated_cells = cells_count() - free_cells;
 }
 
+void Page::clear_marks() {
+    // Only the mark bits of allocated blocks (11 -> 10), free blocks (01) keep their encoding.
+    auto block = block_bitmap_storage();
+    auto mark = mark_bitmap_storage();
+    for (size_t i = 0, n = block.size(); i < n; ++i)
+        mark[i] = mark[i] & ~block[i];
+}
+
 void Page::invoke_finalizers() {
     for (auto it = finalizers_.begin(), end = finalizers_.end(); it != end;) {
         auto index = *it;
diff --git a/src/vm/heap/chunks.hpp b/src/vm/heap/chunks.hpp
index 03676f5..1086d6e 100644
--- a/src/vm/heap/chunks.hpp
+++ b/src/vm/heap/chunks.hpp
@@ -133,6 +133,9 @@ public:
     /// As a side effect, all blocks within this page are reset to `unmarked`.
     void sweep(SweepStats& stats, FreeSpace& free_space);
 
+    /// Resets all blocks within this page to `unmarked` without sweeping it.
+    void clear_marks();
+
     /// Invoke the finalizers of unmarked objects.
     /// This is usually called automatically from sweep(), but it is also called directly
     /// when the heap is shutting down.
diff --git a/src/vm/heap/collector.cpp b/src/vm/heap/collector.cpp
index 2ef27bf..1c29e74 100644
--- a/src/vm/heap/collector.cpp
+++ b/src/vm/heap/collector.cpp
@@ -113,6 +113,13 @@ void Collector::trace(RootSet& roots) {
     TIRO_DEBUG_ASSERT(running_, "must be running");
     TIRO_DEBUG_ASSERT(to_trace_.empty(), "trace stack must be empty");
 
+    // The trace stack may fail to grow. Do not leave a partially marked heap behind in that case:
+    // the next collection would not visit the objects that are marked already.
+    ScopeFailure discard_marks = [&]() {
+        to_trace_.clear();
+        heap_.clear_marks();
+    };
+
     // Visit all root objects.
     // The tracer will call `mark(value)` for every value it encounters.
     Tracer tracer{*this};
diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index e476427..39f3304 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -358,6 +358,13 @@ void Heap::sweep() {
     }
 }
 
+void Heap::clear_marks() {
+    for (auto lob : lobs_)
+        lob->set_marked(false);
+    for (auto page : pages_)
+        page->clear_marks();
+}
+
 void* Heap::allocate_raw(size_t size, size_t align) {
     TIRO_DEBUG_ASSERT(stats_.total_bytes <= max_size_, "invalid total bytes count");
     if (TIRO_UNLIKELY(size > max_size_ - stats_.total_bytes))
diff --git a/src/vm/heap/heap.hpp b/src/vm/heap/heap.hpp
index 1461da5..b46da77 100644
--- a/src/vm/heap/heap.hpp
+++ b/src/vm/heap/heap.hpp
@@ -220,6 +220,10 @@ private:
     /// Called by the collector after tracing the heap.
     void sweep();
 
+    /// Called by the collector when tracing could not be completed.
+    /// Resets all objects to `unmarked`.
+    void clear_marks();
+
 private:
     /// Attempts to allocate the given amount of bytes.
     /// May trigger garbage collection when necessary.
-- 
2.43.0


From 988b8ea89674ca872330b43e341ddfff44e85dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 13/35] fix: report failed allocations during error reporting
 as allocation errors

---
 src/api/error.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/error.cpp b/src/api/error.cpp
index bf242fb..7b9fb29 100644
--- a/src/api/error.cpp
+++ b/src/api/error.cpp
@@ -77,6 +77,8 @@ void report_caught_exception(tiro_error_t* err) {
             return report_error(err, {}, TIRO_ERROR_INTERNAL,
                 [&]() { return "internal exception of unknown type"; });
         }
+    } catch (const std::bad_alloc&) {
+        report_static_error(err, static_alloc_error);
     } catch (...) {
         report_static_error(err, static_internal_error);
     }
-- 
2.43.0


From 7f137d805e816ecced4041f470ced831934ac76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 14/35] fix: optional cleanup and failed registration in
 tiro_coroutine_set_callback

---
 src/api/objects.cpp | 6 ++++--
 src/vm/context.cpp  | 5 -----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index a6724e0..4daaf5e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -842,7 +842,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
     tiro_error_t* err) {
     return entry_point(err, [&] {
         if (!vm || !coroutine || !callback) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_ARG);
         }
 
@@ -896,7 +897,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
 
         auto maybe_coro = to_internal(coroutine).try_cast<vm::Coroutine>();
         if (!maybe_coro) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 9bafe51..0e7101f 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -66,11 +66,6 @@ Coroutine Context::make_coroutine(Handle<Value> func, MaybeHandle<Tuple> args) {
 void Context::set_callback(Handle<Coroutine> coro, CoroutineCallback& on_complete) {
     Scope sc(*this);
 
-    Local existing = sc.local(coro->native_callback());
-    if (existing->has_value()) {
-        coro->native_callback({});
-    }
-
     Local callback = sc.local(
         NativeObject::make(*this, &coroutine_callback_type, on_complete.size()));
     void* data = callback->data();
-- 
2.43.0


From 20622e5234206451805433407e5f00ea69836473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:06 +0000
Subject: [PATCH 15/35] fix: link imports only after the imported module has
 been initialized

---
 src/vm/modules/registry.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vm/modules/registry.cpp b/src/vm/modules/registry.cpp
index 6da5ff6..9c81de1 100644
--- a/src/vm/modules/registry.cpp
+++ b/src/vm/modules/registry.cpp
@@ -162,14 +162,17 @@ void ModuleRegistry::resolve_module(Context& ctx, Handle<Module> module) {
                         TIRO_ERROR_WITH_CODE(TIRO_ERROR_MODULE_NOT_FOUND,
                             "module '{}' was not found", imported_name->view());
                     }
-                    current_members->unchecked_set(i, *imported_module);
-                    ++i;
 
                     // Recurse if necessary. CAREFUL: if recurse() pushes a new frame,
                     // the `frame` is invalidated!
+                    // The member is visited again once the imported module has been initialized. It must
+                    // not be linked before: later attempts would skip the import if its initialization fails.
                     if (recurse(imported_module)) {
                         goto next;
                     }
+
+                    current_members->unchecked_set(i, *imported_module);
+                    ++i;
                 }
             }
             frame.state_ = Init;
-- 
2.43.0


From 133c59fae7539e812fb132d53d091767228d5cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 16/35] fix: refuse to initialize a module before its coroutine
 is started when the main loop is active

The initializer was started first and remained in the queue of the active loop although an error was reported: it ran later, and a second request ran it again.
---
 src/vm/context.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 0e7101f..9b2a685 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -120,6 +120,10 @@ bool Context::has_ready() {
 }
 
 Result Context::run_init(Handle<Value> func, MaybeHandle<Tuple> args) {
+    // Must be checked before the coroutine is started: it would be run by the active loop otherwise.
+    if (running_)
+        TIRO_ERROR("modules cannot be initialized while the main loop is running");
+
     Scope sc(*this);
     Local coro = sc.local(make_coroutine(func, args));
     start(coro);
-- 
2.43.0


From 45f8639773641fb810e8f13b2049a6668b0ee6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 17/35] fix: visit assignment observers in a well defined order

The order of operands (and with it the compiled output) depended on the addresses of hash tables.
---
 src/compiler/ir_passes/assignment_observers.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ir_passes/assignment_observers.cpp b/src/compiler/ir_passes/assignment_observers.cpp
index 4967ec1..621b857 100644
--- a/src/compiler/ir_passes/assignment_observers.cpp
+++ b/src/compiler/ir_passes/assignment_observers.cpp
@@ -7,6 +7,9 @@
 #include "absl/container/flat_hash_set.h"
 #include "absl/container/inlined_vector.h"
 
+#include <algorithm>
+#include <vector>
+
 namespace tiro::ir {
 
 namespace {
@@ -87,7 +90,17 @@ void Pass::link_instructions() {
     // All publish_assign instructions that stay completely unreferenced by any observe_assign
     // instructions (these should be the vast majority in normal code) will be optimized out by the dead
     // code elimination pass.
-    for (const auto& [handler_id, source_ids] : reverse_handlers_) {
+    //
+    // Handlers and operands must be visited in a well defined order. The iteration order of the hash tables
+    // depends on memory addresses and would become visible in the compiled output.
+    std::vector<BlockId> handler_ids;
+    handler_ids.reserve(reverse_handlers_.size());
+    for (const auto& entry : reverse_handlers_)
+        handler_ids.push_back(entry.first);
+    std::sort(handler_ids.begin(), handler_ids.end());
+
+    for (const auto& handler_id : handler_ids) {
+        const auto& source_ids = reverse_handlers_.find(handler_id)->second;
         auto handler = func_.ptr_to(handler_id);
         for (auto inst_id : handler->insts()) {
             auto inst = func_.ptr_to(inst_id);
@@ -117,6 +130,7 @@ void Pass::link_instructions() {
 
             // Alter the existing instruction
             LocalList::Storage storage(operand_set.begin(), operand_set.end());
+            std::sort(storage.begin(), storage.end());
             obs.operands = func_.make(LocalList(std::move(storage)));
             inst->value(std::move(obs));
         }
-- 
2.43.0


From abf3a1b6cad699132d2529bc2d7aeb9f12016188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 18/35] fix: do not keep a compiled module if tiro_compiler_run
 reports an error

If the message callback of a program with warnings requested an abort, the module was available in spite of the error; it was also available while the callback still ran.
---
 src/api/compiler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/compiler.cpp b/src/api/compiler.cpp
index e1e52bb..857ee34 100644
--- a/src/api/compiler.cpp
+++ b/src/api/compiler.cpp
@@ -168,6 +168,9 @@ void tiro_compiler_run(tiro_compiler_t comp, tiro_error_t* err) {
         comp->files.clear();
 
         comp->result = compiler.run();
+
+        // The module only becomes available if this function returns without an error.
+        auto module = std::move(comp->result->module);
         for (const auto& message : compiler.diag().messages()) {
             if (!report(comp, compiler, message)) {
                 return TIRO_REPORT(
@@ -177,6 +180,8 @@ void tiro_compiler_run(tiro_compiler_t comp, tiro_error_t* err) {
 
         if (!comp->result->success)
             return TIRO_REPORT(err, TIRO_ERROR_BAD_SOURCE);
+
+        comp->result->module = std::move(module);
     });
 }
 
-- 
2.43.0


From d32d2ec88eba217e7c8a4ba8b49fa461b02e7af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 19/35] fix: lex operators at the end of a file

A source that ends with an operator that could be longer (e.g. '+') failed with an internal error.
---
 src/compiler/syntax/lexer.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/compiler/syntax/lexer.cpp b/src/compiler/syntax/lexer.cpp
index cac32ef..74ae661 100644
--- a/src/compiler/syntax/lexer.cpp
+++ b/src/compiler/syntax/lexer.cpp
@@ -199,6 +199,9 @@ TokenType Lexer::lex_symbol() {
 std::optional<TokenType> Lexer::lex_operator() {
     TIRO_DEBUG_ASSERT(!eof(), "Already at the end of file.");
 
+    // Operators may be the last characters of the file.
+    auto current_or_zero = [&]() -> CodePoint { return eof() ? 0 : current(); };
+
     switch (current()) {
 
 #define TIRO_OP(c, ...) \
@@ -221,7 +224,7 @@ std::optional<TokenType> Lexer::lex_operator() {
         TIRO_OP(':', return TokenType::Colon;)
         TIRO_OP(';', return TokenType::Semicolon;)
         TIRO_OP('?', {
-            switch (current()) {
+            switch (current_or_zero()) {
                 TIRO_OP('.', return TokenType::QuestionDot;)
                 TIRO_OP('(', return TokenType::QuestionLeftParen;)
                 TIRO_OP('[', return TokenType::QuestionLeftBracket;)
@@ -231,7 +234,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('+', {
-            switch (current()) {
+            switch (current_or_zero()) {
                 TIRO_OP('+', return TokenType::PlusPlus;)
                 TIRO_OP('=', return TokenType::PlusEquals;)
             default:
@@ -239,7 +242,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('-', {
-            switch (current()) {
+            switch (current_or_zero()) {
                 TIRO_OP('-', return TokenType::MinusMinus;)
                 TIRO_OP('=', return TokenType::MinusEquals;)
             default:
@@ -247,7 +250,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('*', {
-            switch (current()) {
+            switch (current_or_zero()) {
                 TIRO_OP('*', {
                     if (accept('='))
                         return TokenType::StarStarEquals;
@@ -291,7 +294,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             return TokenType::Equals;
         })
         TIRO_OP('<', {
-            switch (current()) {
+            switch (current_or_zero()) {
                 TIRO_OP('=', return TokenType::LessEquals;)
                 TIRO_OP('<', return TokenType::LeftShift;)
             default:
@@ -299,7 +302,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('>', {
-            switch (current()) {
+            switch (current_or_zero()) {
                 TIRO_OP('=', return TokenType::GreaterEquals;)
                 TIRO_OP('>', return TokenType::RightShift;)
             default:
-- 
2.43.0


From 4a579c826d9f1f6264ed0825d705f35ea6e3bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 20/35] fix: report invalid utf8 as an error in the source

The syntax tree of a file with invalid utf8 had no root node, which failed with an internal error instead of the intended message.
---
 src/compiler/compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 609b2b5..36e6493 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -138,7 +138,7 @@ SyntaxTree Compiler::parse_file(std::string_view source) {
     };
 
     if (auto res = validate_utf8(source); !res.ok) {
-        SyntaxTree tree(source);
+        SyntaxTree tree = build_syntax_tree(source, {}); // Empty, but with a valid root node
         tree.errors().push_back(SyntaxError(
             "The file contains invalid utf8.", SourceRange::from_std_offset(res.error_offset)));
         return tree;
-- 
2.43.0


From 96e3836e68b6646ad55326f0f038c90b35e2f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 21/35] fix: accept additional arguments in catch_panic

Native functions ignore additional arguments. For std.catch_panic they failed an assertion, which terminated the main loop.
---
 src/vm/interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 1c3a9c4..7a79c00 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -1087,7 +1087,7 @@ void Interpreter::run_frame(Handle<Coroutine> coro, NotNull<CatchFrame*> frame)
     TIRO_DEBUG_ASSERT(frame->type == FrameType::Catch, "expected a catch frame");
     TIRO_DEBUG_ASSERT(
         coro->state() == CoroutineState::Running, "the coroutine must be marked as running");
-    TIRO_DEBUG_ASSERT(frame->argc == 1, "expected a single argument");
+    TIRO_DEBUG_ASSERT(frame->argc >= 1, "expected at least one argument"); // See enter_function
 
     // Fresh frame.
     if ((frame->flags & FRAME_CATCH_STARTED) == 0) {
-- 
2.43.0


From 0766034365986dc0045a9f6c7f2c9c985dd871af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:24 +0000
Subject: [PATCH 22/35] fix: access closure environments from deferred
 expressions

---
 src/compiler/ir_gen/compile_stmt.cpp |  5 +--
 src/compiler/ir_gen/func.cpp         | 57 +++++++++++++++++++++++++---
 src/compiler/ir_gen/func.hpp         |  7 ++++
 src/compiler/ir_gen/support.cpp      |  5 ++-
 src/compiler/ir_gen/support.hpp      | 10 ++++-
 support/codegen/ir_gen.py            |  9 +++++
 6 files changed, 80 insertions(+), 13 deletions(-)

diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index dd2b473..702c7d4 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -83,14 +83,13 @@ OkResult StmtCompiler::visit_defer_stmt(NotNull<AstDeferStmt*> stmt, CurrentBloc
     // point to that handler (handler edge), until the scope exit or until another defer statement is encountered.
     // NOTE: the new handler block inherits the current exception handler from the ctx.
     auto handler_block = ctx().make_handler_block(strings().insert("defer-panic"));
-    [&] {
-        CurrentBlock nested = ctx().make_current(handler_block);
+    ctx().compile_handler(handler_block, [&](CurrentBlock& nested) {
         auto expr_result = nested.compile_expr(expr, ExprOptions::MaybeInvalid);
         if (!expr_result)
             return;
 
         nested.end(Terminator::make_rethrow(ctx().result().exit()));
-    }();
+    });
 
     // Normal control flow: the expression is remembered and compiled by the scope exit (ExprCompiler::visit_block_expr).
     {
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 8a5e223..fa9e96b 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -143,7 +143,8 @@ FunctionIRGen::RegionGuard FunctionIRGen::enter_loop(BlockId jump_break, BlockId
 }
 
 FunctionIRGen::RegionGuard FunctionIRGen::enter_scope() {
-    auto id = active_regions_.push_back(Region::make_scope(current_handler(), 0, {}));
+    auto id = active_regions_.push_back(
+        Region::make_scope(current_handler(), local_env_stack_.size(), 0, {}));
     return RegionGuard(this, id, current_scope_);
 }
 
@@ -357,16 +358,27 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
     u32 initial_processed;
     u32 deferred_count;
     BlockId original_handler;
+    u32 env_count;
     {
         auto& scope = get_scope();
         initial_processed = scope.processed;
         deferred_count = scope.deferred.size();
         original_handler = scope.original_handler;
+        env_count = scope.env_count;
         TIRO_DEBUG_ASSERT(initial_processed <= deferred_count, "Processed count must be <= size.");
     }
     ScopeSuccess restore_processed = [&] { get_scope().processed = initial_processed; };
     ScopeSuccess restore_handler = [&] { current_handler(original_handler); };
 
+    // The scope may be left from within nested loops, whose environments are not visible to the deferred expressions.
+    TIRO_DEBUG_ASSERT(env_count <= local_env_stack_.size(), "Environments of the scope must be active.");
+    std::vector<EnvContext> inner_envs(
+        local_env_stack_.begin() + env_count, local_env_stack_.end());
+    local_env_stack_.resize(env_count);
+    ScopeExit restore_envs = [&] {
+        local_env_stack_.insert(local_env_stack_.end(), inner_envs.begin(), inner_envs.end());
+    };
+
     for (u32 i = deferred_count - initial_processed; i-- > 0;) {
         AstExpr* expr = nullptr;
         BlockId handler;
@@ -433,6 +445,24 @@ BlockId FunctionIRGen::make_handler_block(InternedString label) {
     return block_id;
 }
 
+void FunctionIRGen::compile_handler(
+    BlockId handler_id, FunctionRef<void(CurrentBlock& bb)> compile_body) {
+    TIRO_DEBUG_ASSERT(result_[handler_id].is_handler(), "Block must be a handler block.");
+
+    // Environments that have been created in the function's normal control flow cannot be referenced
+    // by the handler directly, they must be observed like all other variables.
+    auto saved_locations = local_env_locations_;
+    ScopeExit restore_locations = [&] { local_env_locations_ = std::move(saved_locations); };
+
+    CurrentBlock bb = make_current(handler_id);
+    if (outer_env_)
+        local_env_locations_[outer_env_] = bb.define_new(Value::make_outer_environment());
+    for (const auto& context : local_env_stack_)
+        local_env_locations_[context.env] = read_variable(context.symbol, handler_id);
+
+    compile_body(bb);
+}
+
 InstId FunctionIRGen::define_new(Value&& value, BlockId block_id) {
     return define_new(Inst(std::move(value)), block_id);
 }
@@ -661,16 +691,31 @@ void FunctionIRGen::enter_env(ScopeId parent_scope_id, CurrentBlock& bb) {
 
     const u32 captured_count = checked_cast<u32>(captured.size());
     const ClosureEnvId parent = current_env();
-    const ClosureEnvId env = envs_->make(ClosureEnv(parent, checked_cast<u32>(captured.size())));
-    for (u32 i = 0; i < captured.size(); ++i) {
-        envs_->write_location(captured[i], ClosureEnvLocation(env, i));
-    }
+    const ClosureEnvId env = [&] {
+        // Deferred expressions are compiled multiple times, all copies share the same environments.
+        if (auto loc = envs_->read_location(captured.front())) {
+            TIRO_DEBUG_ASSERT(
+                (*envs_)[loc->env].parent() == parent, "Copies must be in the same context.");
+            return loc->env;
+        }
+
+        const ClosureEnvId new_env = envs_->make(ClosureEnv(parent, captured_count));
+        for (u32 i = 0; i < captured_count; ++i) {
+            envs_->write_location(captured[i], ClosureEnvLocation(new_env, i));
+        }
+        return new_env;
+    }();
 
     const auto parent_inst = parent ? get_env(parent) : bb.compile_value(Constant::make_null());
     const auto env_inst = bb.compile_value(
         Value::make_make_environment(parent_inst, captured_count));
-    local_env_stack_.push_back({env, parent_scope_id});
+    local_env_stack_.push_back({env, parent_scope_id, captured.front()});
     local_env_locations_[env] = env_inst;
+
+    // Exception handlers must be able to access the environment, see compile_handler(). The captured symbols
+    // themselves are never used as ssa variables.
+    write_variable(captured.front(), env_inst, bb.id());
+    define_new(Value::make_publish_assign(captured.front(), env_inst), bb.id());
 }
 
 void FunctionIRGen::exit_env(ScopeId parent_scope) {
diff --git a/src/compiler/ir_gen/func.hpp b/src/compiler/ir_gen/func.hpp
index c45a9a3..86eafdf 100644
--- a/src/compiler/ir_gen/func.hpp
+++ b/src/compiler/ir_gen/func.hpp
@@ -108,6 +108,9 @@ private:
 struct EnvContext {
     ClosureEnvId env;
     ScopeId starter;
+
+    // The first captured symbol. Represents the environment in the variable numbering of the function.
+    SymbolId symbol;
 };
 
 /// Compilation options for expressions.
@@ -226,6 +229,10 @@ public:
     /// Creates a new handler block.
     BlockId make_handler_block(InternedString label);
 
+    /// Compiles the body of the given handler block (and the blocks that follow it). Makes sure that all
+    /// active closure environments are accessible there.
+    void compile_handler(BlockId handler_id, FunctionRef<void(CurrentBlock& bb)> compile_body);
+
 private:
     void enter_compilation(FunctionRef<void(CurrentBlock& bb)> compile_body);
 
diff --git a/src/compiler/ir_gen/support.cpp b/src/compiler/ir_gen/support.cpp
index a30e390..fb28f6f 100644
--- a/src/compiler/ir_gen/support.cpp
+++ b/src/compiler/ir_gen/support.cpp
@@ -279,9 +279,10 @@ Region Region::make_loop(const BlockId& jump_break, const BlockId& jump_continue
     return {Loop{jump_break, jump_continue}};
 }
 
-Region Region::make_scope(const BlockId& original_handler, const u32& processed,
+Region Region::make_scope(const BlockId& original_handler, const u32& env_count,
+    const u32& processed,
     absl::InlinedVector<std::pair<NotNull<AstExpr*>, BlockId>, 3> deferred) {
-    return {Scope{original_handler, processed, std::move(deferred)}};
+    return {Scope{original_handler, env_count, processed, std::move(deferred)}};
 }
 
 Region::Region(Loop loop)
diff --git a/src/compiler/ir_gen/support.hpp b/src/compiler/ir_gen/support.hpp
index 1d6f473..86513a0 100644
--- a/src/compiler/ir_gen/support.hpp
+++ b/src/compiler/ir_gen/support.hpp
@@ -250,6 +250,10 @@ public:
         /// The original exception handler when this scope was entered.
         BlockId original_handler;
 
+        /// The number of active local closure environments when this scope was entered.
+        /// Deferred expressions must be compiled in the context of these environments.
+        u32 env_count;
+
         /// Signals already completed deferred executions to recursive scope exit invocations.
         /// This is important when nested control flow instructions are encountered while
         /// evaluating deferred statements.
@@ -259,15 +263,17 @@ public:
         /// scope exit, e.g. return or break.
         absl::InlinedVector<std::pair<NotNull<AstExpr*>, BlockId>, 3> deferred;
 
-        Scope(const BlockId& original_handler_, const u32& processed_,
+        Scope(const BlockId& original_handler_, const u32& env_count_, const u32& processed_,
             absl::InlinedVector<std::pair<NotNull<AstExpr*>, BlockId>, 3> deferred_)
             : original_handler(original_handler_)
+            , env_count(env_count_)
             , processed(processed_)
             , deferred(std::move(deferred_)) {}
     };
 
     static Region make_loop(const BlockId& jump_break, const BlockId& jump_continue);
-    static Region make_scope(const BlockId& original_handler, const u32& processed,
+    static Region make_scope(const BlockId& original_handler, const u32& env_count,
+        const u32& processed,
         absl::InlinedVector<std::pair<NotNull<AstExpr*>, BlockId>, 3> deferred);
 
     Region(Loop loop);
diff --git a/support/codegen/ir_gen.py b/support/codegen/ir_gen.py
index 114ba43..3332765 100644
--- a/support/codegen/ir_gen.py
+++ b/support/codegen/ir_gen.py
@@ -100,6 +100,15 @@ Region = (
                         "BlockId",
                         doc="The original exception handler when this scope was entered.",
                     ),
+                    Field(
+                        "env_count",
+                        "u32",
+                        doc=dedent(
+                            """\
+                            The number of active local closure environments when this scope was entered.
+                            Deferred expressions must be compiled in the context of these environments."""
+                        ),
+                    ),
                     Field(
                         "processed",
                         "u32",
-- 
2.43.0


From eec05fe81fae07d72179bb5841b2afd0768775f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 23/35] fix: exception handlers observe all assignments that
 may reach them

---
 .../ir_passes/assignment_observers.cpp        | 197 ++++++------------
 1 file changed, 68 insertions(+), 129 deletions(-)

diff --git a/src/compiler/ir_passes/assignment_observers.cpp b/src/compiler/ir_passes/assignment_observers.cpp
index 621b857..fefc9c3 100644
--- a/src/compiler/ir_passes/assignment_observers.cpp
+++ b/src/compiler/ir_passes/assignment_observers.cpp
@@ -5,7 +5,6 @@
 
 #include "absl/container/flat_hash_map.h"
 #include "absl/container/flat_hash_set.h"
-#include "absl/container/inlined_vector.h"
 
 #include <algorithm>
 #include <vector>
@@ -16,7 +15,8 @@ namespace {
 
 using ValueSet = absl::flat_hash_set<InstId, UseHasher>;
 
-using ValueList = absl::InlinedVector<InstId, 3>;
+// The value(s) of a symbol at the start of every block.
+using ValueMap = absl::flat_hash_map<BlockId, ValueSet, UseHasher>;
 
 class Pass {
 public:
@@ -34,28 +34,23 @@ private:
     // in the exception handler's observe_assign instructions.
     void link_instructions();
 
-    // Gathers all assignments for that block + symbol combination.
-    void fill_operand_set(ValueSet& operands, BlockId block_id, SymbolId symbol_id);
+    // Computes the value(s) of the given symbol at the start of every block.
+    ValueMap compute_values(SymbolId symbol_id);
 
-    // Gathers the value(s) of the given symbol at the start of the block.
-    // CAREFUL: in_values must not modified, pointer references unstable hash map memory.
-    ValueList* in_values(BlockId block_id, SymbolId symbol_id);
-
-    // Gathers the value(s) of the given symbol at the end of the block.
-    // CAREFUL: out_values must not modified, pointer references unstable hash map memory.
-    ValueList* out_values(BlockId block_id, SymbolId symbol_id);
+    // Adds the values of the symbol that a successor of the block may observe.
+    // Normal successors can only see the last value. An exception handler may be entered after every
+    // instruction, so it can observe all values.
+    void add_values(ValueSet& values, const ValueMap& start_values, BlockId block_id,
+        SymbolId symbol_id, bool for_handler);
 
 private:
     Function& func_;
 
+    // All reachable blocks, including exception handlers.
+    std::vector<BlockId> blocks_;
+
     // Maps from handler blocks to source blocks that use that handler.
     absl::flat_hash_map<BlockId, std::vector<BlockId>, UseHasher> reverse_handlers_;
-
-    // Memoized values for the symbol's value at the start of a block.
-    absl::flat_hash_map<std::tuple<BlockId, SymbolId>, ValueList, UseHasher> in_values_;
-
-    // Memoized values for the symbol's value at the end of a block.
-    absl::flat_hash_map<std::tuple<BlockId, SymbolId>, ValueList, UseHasher> out_values_;
 };
 
 } // namespace
@@ -69,6 +64,8 @@ void Pass::run() {
 
 bool Pass::analyze_cfg() {
     for (auto block_id : PreorderTraversal(func_)) {
+        blocks_.push_back(block_id);
+
         const auto& block = func_[block_id];
         auto handler_id = block.handler();
         if (handler_id) {
@@ -79,8 +76,6 @@ bool Pass::analyze_cfg() {
 }
 
 void Pass::link_instructions() {
-    ValueSet operand_set;
-
     // Walk every exception handler block and construct the operand sets for all observe_assign instructions.
     // This is done by walking the reverse edges to the source blocks (which use the block as a handler) and
     // inspecting the current value(s) for a certain symbol - very similar to the classical phi node analysis.
@@ -99,8 +94,8 @@ void Pass::link_instructions() {
         handler_ids.push_back(entry.first);
     std::sort(handler_ids.begin(), handler_ids.end());
 
+    absl::flat_hash_map<SymbolId, ValueMap, UseHasher> symbol_values;
     for (const auto& handler_id : handler_ids) {
-        const auto& source_ids = reverse_handlers_.find(handler_id)->second;
         auto handler = func_.ptr_to(handler_id);
         for (auto inst_id : handler->insts()) {
             auto inst = func_.ptr_to(inst_id);
@@ -112,23 +107,12 @@ void Pass::link_instructions() {
             TIRO_DEBUG_ASSERT(!obs.operands.valid(),
                 "Operands must not have been assigned to this ObserveAssign instruction yet.");
 
-            // Construct operand set
-            operand_set.clear();
-            for (auto source_id : source_ids) {
-                TIRO_DEBUG_ASSERT(
-                    func_[source_id].handler() == handler_id, "Inconsistent block handler.");
-                fill_operand_set(operand_set, source_id, obs.symbol);
-            }
-
-#if TIRO_DEBUG
-            for (const auto op_inst_id : operand_set) {
-                const auto& op_inst = func_[op_inst_id];
-                TIRO_DEBUG_ASSERT(op_inst.value().type() == ValueType::PublishAssign,
-                    "All operands must be publish_assign instructions.");
-            }
-#endif
+            auto pos = symbol_values.find(obs.symbol);
+            if (pos == symbol_values.end())
+                pos = symbol_values.emplace(obs.symbol, compute_values(obs.symbol)).first;
 
             // Alter the existing instruction
+            const auto& operand_set = pos->second[handler_id];
             LocalList::Storage storage(operand_set.begin(), operand_set.end());
             std::sort(storage.begin(), storage.end());
             obs.operands = func_.make(LocalList(std::move(storage)));
@@ -137,108 +121,63 @@ void Pass::link_instructions() {
     }
 }
 
-void Pass::fill_operand_set(ValueSet& operands, BlockId block_id, SymbolId symbol_id) {
-    TIRO_DEBUG_ASSERT(block_id != func_.entry(), "Must not visit the entry block.");
-
-    // Ensure initial value is available to the exception handler.
-    {
-        ValueList* pred_values = in_values(block_id, symbol_id);
-        operands.insert(pred_values->begin(), pred_values->end());
-    }
-
-    // Simulate assignments in this block.
-    const auto& block = func_[block_id];
-    for (auto inst_id : block.insts()) {
-        const auto& inst = func_[inst_id];
-        switch (inst.value().type()) {
-        case ValueType::PublishAssign: {
-            auto& assign = inst.value().as_publish_assign();
-            if (assign.symbol == symbol_id)
-                operands.insert(inst_id);
-            break;
-        }
-        default:
-            break;
-        }
-    }
-}
-
-ValueList* Pass::in_values(BlockId block_id, SymbolId symbol_id) {
-    if (auto it = in_values_.find({block_id, symbol_id}); it != in_values_.end()) {
-        return &it->second;
-    }
+ValueMap Pass::compute_values(SymbolId symbol_id) {
+    ValueMap start_values;
+    for (const auto block_id : blocks_)
+        start_values[block_id];
+
+    // The sets only grow, visit the blocks until nothing changes anymore.
+    bool changed;
+    do {
+        changed = false;
+
+        for (const auto block_id : blocks_) {
+            const auto& block = func_[block_id];
+
+            ValueSet values;
+            if (block.is_handler()) {
+                const auto sources = reverse_handlers_.find(block_id);
+                if (sources != reverse_handlers_.end()) {
+                    for (const auto source_id : sources->second) {
+                        TIRO_DEBUG_ASSERT(func_[source_id].handler() == block_id,
+                            "Inconsistent block handler.");
+                        add_values(values, start_values, source_id, symbol_id, true);
+                    }
+                }
+            } else {
+                for (const auto pred_id : block.predecessors())
+                    add_values(values, start_values, pred_id, symbol_id, false);
+            }
 
-    auto write = [&](ValueList set) -> ValueList* {
-        return &(in_values_[{block_id, symbol_id}] = std::move(set));
-    };
-
-    auto block = func_.ptr_to(block_id);
-
-    // Must also take handler edges into account here.
-    if (block->is_handler()) {
-        const auto reverse_it = reverse_handlers_.find(block_id);
-        TIRO_DEBUG_ASSERT(reverse_it != reverse_handlers_.end(),
-            "There must be reverse edges for every handler block.");
-
-        const auto& handler_preds = reverse_it->second;
-        if (handler_preds.empty())
-            return write({});
-        if (handler_preds.size() == 1)
-            return write(*out_values(handler_preds[0], symbol_id));
-
-        ValueSet set;
-        write({}); // Place a sentinel to stop recursion in control flow loops.
-        for (const auto pred_id : reverse_it->second) {
-            ValueList* pred_values = out_values(pred_id, symbol_id);
-            set.insert(pred_values->begin(), pred_values->end());
+            auto& current = start_values[block_id];
+            if (values.size() != current.size()) {
+                current = std::move(values);
+                changed = true;
+            }
         }
-        return write(ValueList(set.begin(), set.end()));
-    }
-
-    // Not a handler, inspect normal predecessors.
-    const auto pred_count = block->predecessor_count();
-    if (pred_count == 0)
-        return write({});
-    if (pred_count == 1)
-        return write(*out_values(block->predecessor(0), symbol_id));
-
-    ValueSet set;
-    write({}); // Place a sentinel to stop recursion in control flow loops.
-    for (const auto pred_id : block->predecessors()) {
-        ValueList* pred_values = out_values(pred_id, symbol_id);
-        set.insert(pred_values->begin(), pred_values->end());
-    }
-    return write(ValueList(set.begin(), set.end()));
+    } while (changed);
+    return start_values;
 }
 
-ValueList* Pass::out_values(BlockId block_id, SymbolId symbol_id) {
-    if (auto it = out_values_.find({block_id, symbol_id}); it != out_values_.end()) {
-        return &it->second;
-    }
-
-    auto write = [&](ValueList set) -> ValueList* {
-        return &(out_values_[{block_id, symbol_id}] = std::move(set));
-    };
-
-    auto block = func_.ptr_to(block_id);
+void Pass::add_values(ValueSet& values, const ValueMap& start_values, BlockId block_id,
+    SymbolId symbol_id, bool for_handler) {
 
     // Simulate assignments to the symbol.
-    for (const auto& inst_id : reverse_view(block->insts())) {
-        const auto& inst = func_[inst_id];
-        switch (inst.value().type()) {
-        case ValueType::PublishAssign: {
-            const auto& assign = inst.value().as_publish_assign();
-            if (assign.symbol == symbol_id)
-                return write({inst_id});
-            break;
-        }
-        default:
-            break;
-        }
+    const auto& block = func_[block_id];
+    for (const auto& inst_id : reverse_view(block.insts())) {
+        const auto& value = func_[inst_id].value();
+        if (value.type() != ValueType::PublishAssign
+            || value.as_publish_assign().symbol != symbol_id)
+            continue;
+
+        values.insert(inst_id);
+        if (!for_handler)
+            return;
     }
 
-    // No assignment found in this block, lookup in the predecessors.
-    return write(*in_values(block_id, symbol_id));
+    // Include the values at the start of the block (there are none if the block is not reachable).
+    if (const auto pos = start_values.find(block_id); pos != start_values.end())
+        values.insert(pos->second.begin(), pos->second.end());
 }
 
 void connect_assignment_observers(Function& func) {
-- 
2.43.0


From 9aa7be85047098227eedc4d10b6f232daa373b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:20 +0000
Subject: [PATCH 24/35] fix: resolve register sizes of mutually recursive phi
 functions

---
 src/compiler/bytecode_gen/alloc_registers.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/compiler/bytecode_gen/alloc_registers.cpp b/src/compiler/bytecode_gen/alloc_registers.cpp
index 8a9dea7..eb28683 100644
--- a/src/compiler/bytecode_gen/alloc_registers.cpp
+++ b/src/compiler/bytecode_gen/alloc_registers.cpp
@@ -483,7 +483,13 @@ std::optional<u32> RegisterAllocator::allocated_size_recursive(InstId inst_id) {
             }
         }
 
-        TIRO_DEBUG_ASSERT(resolved, "Register size of phi function could not be resolved.");
+        if (!resolved) {
+            // All operands are phi functions that are currently being visited by our callers (nested loops).
+            // The size is determined by the other operands of those functions.
+            phi_sizes_.erase(inst_id);
+            return {};
+        }
+
         phi_sizes_[inst_id] = *resolved;
         return *resolved;
     }
-- 
2.43.0


From ccc78de7d0eae7f5c6ba9bb3aae3b744b1c40a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:54 +0000
Subject: [PATCH 25/35] fix: report failure to write to stdout in the command
 line runner

---
 src/run/main.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/run/main.cpp b/src/run/main.cpp
index d14d876..75cfcd8 100644
--- a/src/run/main.cpp
+++ b/src/run/main.cpp
@@ -40,6 +40,7 @@ OptionsResult parse_options(int argc, char** argv);
 tiro::compiled_module compile(const std::vector<InputFile>& files, const Options& options);
 int run(const tiro::compiled_module& module, std::string_view function_name);
 std::string read_file_contents(const char* path);
+void check_output();
 
 static const std::string_view test_module_name = "main";
 
@@ -54,6 +55,7 @@ int main(int argc, char* argv[]) {
         }
         if (auto help = std::get_if<ShowHelp>(&options_result)) {
             fmt::print(stdout, "{}\n", help->content);
+            check_output();
             return 0;
         }
 
@@ -79,13 +81,16 @@ int main(int argc, char* argv[]) {
             return 1;
         }
 
+        int exit_code = 0;
         if (options.call)
-            return run(*compiled, *options.call);
+            exit_code = run(*compiled, *options.call);
+
+        check_output();
+        return exit_code;
     } catch (const std::exception& e) {
         fmt::print(stderr, "Fatal error: {}\n", e.what());
         return 1;
     }
-    return 0;
 }
 
 namespace {
@@ -281,4 +286,10 @@ std::string read_file_contents(const char* path) {
     return result;
 }
 
+// Output to stdout is buffered, i.e. write errors might not have been observed until now.
+void check_output() {
+    if (std::fflush(stdout) != 0 || std::ferror(stdout))
+        throw std::runtime_error("failed to write to standard output");
+}
+
 } // namespace
-- 
2.43.0


From b03e56a6bbee0b88109995a926ea1094a40c66e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 26/35] fix: report dumps that could not be produced in the
 command line runner

---
 src/run/main.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/run/main.cpp b/src/run/main.cpp
index 75cfcd8..badf143 100644
--- a/src/run/main.cpp
+++ b/src/run/main.cpp
@@ -153,10 +153,15 @@ OptionsResult parse_options(int argc, char** argv) {
 tiro::compiled_module compile(const std::vector<InputFile>& files, const Options& options) {
     std::exception_ptr error;
     std::optional<std::string> cst, ast, ir, bytecode;
-    auto try_extract = [](auto fn) -> std::optional<decltype(fn())> {
+    auto try_extract = [&](bool requested, auto fn) -> std::optional<decltype(fn())> {
+        if (!requested)
+            return {};
+
         try {
             return fn();
         } catch (...) {
+            if (!error)
+                error = std::current_exception();
             return {};
         }
     };
@@ -191,10 +196,14 @@ tiro::compiled_module compile(const std::vector<InputFile>& files, const Options
     }
 
     // Print as much as possible, regardless of errors
-    cst = try_extract([&] { return compiler.get_attachment(tiro::attachment::cst); });
-    ast = try_extract([&] { return compiler.get_attachment(tiro::attachment::ast); });
-    ir = try_extract([&] { return compiler.get_attachment(tiro::attachment::ir); });
-    bytecode = try_extract([&] { return compiler.get_attachment(tiro::attachment::bytecode); });
+    cst = try_extract(
+        options.dump_cst, [&] { return compiler.get_attachment(tiro::attachment::cst); });
+    ast = try_extract(
+        options.dump_ast, [&] { return compiler.get_attachment(tiro::attachment::ast); });
+    ir = try_extract(
+        options.dump_ir, [&] { return compiler.get_attachment(tiro::attachment::ir); });
+    bytecode = try_extract(
+        options.dump_bytecode, [&] { return compiler.get_attachment(tiro::attachment::bytecode); });
     for (const auto* opt : {&cst, &ast, &ir, &bytecode}) {
         if (opt->has_value())
             fmt::print("{}\n\n", **opt);
-- 
2.43.0


From 7919dbcfa5422373275c1b47dd46498b60d9ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 27/35] fix: do not print from the coroutine callback in the
 command line runner

---
 src/run/main.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/run/main.cpp b/src/run/main.cpp
index badf143..86ae71e 100644
--- a/src/run/main.cpp
+++ b/src/run/main.cpp
@@ -232,25 +232,25 @@ int run(const tiro::compiled_module& module, std::string_view function_name) {
         return 1;
     }
 
-    std::optional<int> exit;
-    tiro::run_async(vm, target->as<tiro::function>(), [&](tiro::vm&, const tiro::coroutine& coro) {
-        tiro::result result = coro.result();
-        if (result.is_success()) {
-            fmt::print("Function returned {}\n", result.value().to_string().view());
-            exit = 0;
-        } else {
-            fmt::print("Function panicked: {}\n", result.error().to_string().view());
-            exit = 1;
-        }
-    });
+    // Note: the callback must not throw, i.e. the result is printed when the main loop has completed.
+    std::optional<tiro::result> result;
+    tiro::run_async(vm, target->as<tiro::function>(),
+        [&](tiro::vm&, const tiro::coroutine& coro) { result = coro.result(); });
 
     while (vm.has_ready()) {
         vm.run_ready();
     }
 
-    if (!exit)
+    if (!result)
         throw std::logic_error("function did not return after main loop completed");
-    return *exit;
+
+    if (result->is_success()) {
+        fmt::print("Function returned {}\n", result->value().to_string().view());
+        return 0;
+    } else {
+        fmt::print("Function panicked: {}\n", result->error().to_string().view());
+        return 1;
+    }
 }
 
 std::string read_file_contents(const char* path) {
-- 
2.43.0


From e5f6adda6777e3524e0208622c17df57c6d9331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 28/35] fix: resume tokens belong to a single asynchronous call

The completion token of an asynchronous native call was shared with every other token of
the coroutine: a token of a call that returned immediately (or one the script created before
the call) could complete a later suspension of the same coroutine.
---
 src/vm/objects/coroutine.cpp |  6 +++++-
 src/vm/objects/coroutine.hpp |  1 +
 src/vm/objects/native.cpp    | 16 ++++++++++++++++
 src/vm/objects/native.hpp    | 13 ++++++++-----
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/vm/objects/coroutine.cpp b/src/vm/objects/coroutine.cpp
index 9cb66de..8f878e4 100644
--- a/src/vm/objects/coroutine.cpp
+++ b/src/vm/objects/coroutine.cpp
@@ -108,8 +108,12 @@ Nullable<CoroutineToken> Coroutine::current_token() {
     return layout()->read_static_slot<Nullable<CoroutineToken>>(CurrentTokenSlot);
 }
 
+void Coroutine::current_token(Nullable<CoroutineToken> token) {
+    layout()->write_static_slot(CurrentTokenSlot, token);
+}
+
 void Coroutine::reset_token() {
-    layout()->write_static_slot<Nullable<CoroutineToken>>(CurrentTokenSlot, {});
+    current_token({});
 }
 
 Nullable<Coroutine> Coroutine::next_ready() {
diff --git a/src/vm/objects/coroutine.hpp b/src/vm/objects/coroutine.hpp
index bbf9fe6..8c2c116 100644
--- a/src/vm/objects/coroutine.hpp
+++ b/src/vm/objects/coroutine.hpp
@@ -76,6 +76,7 @@ public:
     // Returns the current coroutine token, if any has been created. Tokens are created (and then cached)
     // by calling `create_token`, and they are reset after the coroutine resumes the next time.
     Nullable<CoroutineToken> current_token();
+    void current_token(Nullable<CoroutineToken> token);
 
     // Sets the current coroutine token to null. Called when the coroutine is resumed by the Context.
     void reset_token();
diff --git a/src/vm/objects/native.cpp b/src/vm/objects/native.cpp
index 0de761f..3ade6b3 100644
--- a/src/vm/objects/native.cpp
+++ b/src/vm/objects/native.cpp
@@ -178,6 +178,22 @@ NotNull<ResumableFrame*> ResumableFrameContext::frame() const {
     return TIRO_NN(frame_);
 }
 
+void AsyncFrameContext::start(
+    ResumableFrameContext& parent, FunctionRef<void(AsyncFrameContext& frame)> func) {
+    Handle coro = parent.coro();
+
+    Scope sc(parent.ctx());
+    auto outer_token = sc.local(coro->current_token());
+    coro->reset_token();
+
+    AsyncFrameContext frame(parent);
+    func(frame);
+    if (parent.cont().action() == ResumableFrameContinuation::NONE)
+        parent.return_value(Value::null());
+    if (parent.cont().action() != ResumableFrameContinuation::YIELD)
+        coro->current_token(*outer_token);
+}
+
 AsyncResumeToken AsyncFrameContext::resume_token() {
     Context& ctx = parent_.ctx();
     UniqueExternal token(ctx.externals().allocate(parent_.resume_token()));
diff --git a/src/vm/objects/native.hpp b/src/vm/objects/native.hpp
index 2c49f04..ddc67de 100644
--- a/src/vm/objects/native.hpp
+++ b/src/vm/objects/native.hpp
@@ -226,6 +226,12 @@ public:
         STATE_RESUME = 1,
     };
 
+    /// Calls the native function for the first time. Resume tokens belong to a single call: tokens that were
+    /// acquired before the call cannot be used to resume it, and tokens that were acquired by the call
+    /// become invalid if it returns without yielding.
+    static void
+    start(ResumableFrameContext& parent, FunctionRef<void(AsyncFrameContext& frame)> func);
+
     explicit AsyncFrameContext(ResumableFrameContext& parent)
         : parent_(parent) {}
 
@@ -497,11 +503,8 @@ private:
         void operator()(ResumableFrameContext& frame) {
             switch (frame.state()) {
             case AsyncFrameContext::STATE_START: {
-                AsyncFrameContext async(frame);
-                func(async);
-                if (frame.cont().action() == ResumableFrameContinuation::NONE)
-                    frame.return_value(Value::null());
-                return;
+                return AsyncFrameContext::start(
+                    frame, [&](AsyncFrameContext& async) { func(async); });
             }
             case AsyncFrameContext::STATE_RESUME: {
                 auto result = frame.local(AsyncFrameContext::LOCAL_RESULT);
-- 
2.43.0


From e5030f8b81281d6f8205eb826da7293ea425680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 29/35] fix: native methods that are called with a wrong
 instance panic

Methods can be fetched from a type and called with arbitrary values; that is an error of the
program, not an internal error that takes down the main loop.
---
 src/vm/objects/array.cpp      |  6 +++---
 src/vm/objects/buffer.cpp     |  3 ++-
 src/vm/objects/class.cpp      |  3 ++-
 src/vm/objects/coroutine.cpp  |  9 +++++----
 src/vm/objects/exception.cpp  |  4 ++--
 src/vm/objects/hash_table.cpp | 12 ++++++------
 src/vm/objects/native.hpp     |  7 +++++--
 src/vm/objects/result.cpp     | 11 ++++++-----
 src/vm/objects/set.cpp        | 10 +++++-----
 src/vm/objects/string.cpp     | 34 +++++++++++++++++-----------------
 src/vm/objects/tuple.cpp      |  3 ++-
 11 files changed, 55 insertions(+), 47 deletions(-)

diff --git a/src/vm/objects/array.cpp b/src/vm/objects/array.cpp
index 9c1f21f..3f71341 100644
--- a/src/vm/objects/array.cpp
+++ b/src/vm/objects/array.cpp
@@ -153,18 +153,18 @@ std::optional<Value> ArrayIterator::next() {
 }
 
 static void array_size_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     frame.return_value(frame.ctx().get_integer(static_cast<i64>(array->size())));
 }
 
 static void array_append_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     auto value = frame.arg(1);
     TIRO_FRAME_TRY_VOID(array->append(frame.ctx(), value));
 }
 
 static void array_clear_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     array->clear();
 }
 
diff --git a/src/vm/objects/buffer.cpp b/src/vm/objects/buffer.cpp
index d93c0b2..305bc25 100644
--- a/src/vm/objects/buffer.cpp
+++ b/src/vm/objects/buffer.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/buffer.hpp"
 
 #include "vm/context.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
@@ -56,7 +57,7 @@ Buffer Buffer::make_impl(Context& ctx, size_t total_size, Init&& init) {
 }
 
 static void buffer_size_impl(SyncFrameContext& frame) {
-    auto buffer = check_instance<Buffer>(frame);
+    TIRO_FRAME_TRY(buffer, check_instance<Buffer>(frame));
     i64 size = static_cast<i64>(buffer->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
diff --git a/src/vm/objects/class.cpp b/src/vm/objects/class.cpp
index 90aefd5..8f18d8b 100644
--- a/src/vm/objects/class.cpp
+++ b/src/vm/objects/class.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/class.hpp"
 
 #include "vm/context.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/handles/scope.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
@@ -67,7 +68,7 @@ std::optional<Value> Type::find_member(Handle<Symbol> name) {
 }
 
 static void class_name_impl(SyncFrameContext& frame) {
-    auto type = check_instance<Type>(frame);
+    TIRO_FRAME_TRY(type, check_instance<Type>(frame));
     frame.return_value(type->name());
 }
 
diff --git a/src/vm/objects/coroutine.cpp b/src/vm/objects/coroutine.cpp
index 8f878e4..4b38857 100644
--- a/src/vm/objects/coroutine.cpp
+++ b/src/vm/objects/coroutine.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/coroutine.hpp"
 
 #include "vm/context.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
 #include "vm/objects/result.hpp"
@@ -168,7 +169,7 @@ bool CoroutineToken::resume(Context& ctx, Handle<CoroutineToken> token) {
 }
 
 static void coroutine_name_impl(SyncFrameContext& frame) {
-    auto coroutine = check_instance<Coroutine>(frame);
+    TIRO_FRAME_TRY(coroutine, check_instance<Coroutine>(frame));
     frame.return_value(coroutine->name());
 }
 
@@ -179,17 +180,17 @@ static const FunctionDesc coroutine_methods[] = {
 const TypeDesc coroutine_type_desc{"Coroutine"sv, coroutine_methods};
 
 static void coroutine_token_coroutine_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     frame.return_value(token->coroutine());
 }
 
 static void coroutine_token_valid_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     frame.return_value(frame.ctx().get_boolean(token->valid()));
 }
 
 static void coroutine_token_resume_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     bool success = CoroutineToken::resume(frame.ctx(), token);
     frame.return_value(frame.ctx().get_boolean(success));
 }
diff --git a/src/vm/objects/exception.cpp b/src/vm/objects/exception.cpp
index ffaa399..3a46647 100644
--- a/src/vm/objects/exception.cpp
+++ b/src/vm/objects/exception.cpp
@@ -99,12 +99,12 @@ Exception vformat_exception_impl(Context& ctx, std::string_view format, fmt::for
 }
 
 static void exception_message_impl(SyncFrameContext& frame) {
-    auto ex = check_instance<Exception>(frame);
+    TIRO_FRAME_TRY(ex, check_instance<Exception>(frame));
     frame.return_value(ex->message());
 }
 
 static void exception_trace_impl(SyncFrameContext& frame) {
-    auto ex = check_instance<Exception>(frame);
+    TIRO_FRAME_TRY(ex, check_instance<Exception>(frame));
     frame.return_value(ex->trace());
 }
 
diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 9229e72..98d808c 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -878,34 +878,34 @@ Value HashTableValueIterator::return_value(
 }
 
 static void hash_table_size_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     i64 size = static_cast<i64>(table->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void hash_table_contains_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     bool result = table->contains(*frame.arg(1));
     frame.return_value(frame.ctx().get_boolean(result));
 }
 
 static void hash_table_keys_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     frame.return_value(HashTableKeyView::make(frame.ctx(), table));
 }
 
 static void hash_table_values_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     frame.return_value(HashTableValueView::make(frame.ctx(), table));
 }
 
 static void hash_table_clear_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     table->clear();
 }
 
 static void hash_table_remove_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     table->remove(*frame.arg(1));
 }
 
diff --git a/src/vm/objects/native.hpp b/src/vm/objects/native.hpp
index ddc67de..6f40a8f 100644
--- a/src/vm/objects/native.hpp
+++ b/src/vm/objects/native.hpp
@@ -519,13 +519,16 @@ private:
     };
 };
 
+/// Returns the instance a native method has been called with (i.e. the first argument).
+/// Instances of a wrong type are errors of the program: methods can be fetched from a type and
+/// called with arbitrary values.
 template<typename T>
-Handle<T> check_instance(SyncFrameContext& frame) {
+Fallible<Handle<T>> check_instance(SyncFrameContext& frame) {
     Handle<Value> value = frame.arg(0);
     if (auto instance = value.try_cast<T>()) {
         return instance.handle();
     }
-    TIRO_ERROR("`this` is not a {}", to_string(TypeToTag<T>));
+    return TIRO_FORMAT_EXCEPTION(frame.ctx(), "`this` is not a {}", to_string(TypeToTag<T>));
 }
 
 class NativeObject final : public HeapValue {
diff --git a/src/vm/objects/result.cpp b/src/vm/objects/result.cpp
index 5e2c7af..56777ad 100644
--- a/src/vm/objects/result.cpp
+++ b/src/vm/objects/result.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/result.hpp"
 
 #include "vm/math.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
 #include "vm/objects/exception.hpp"
@@ -67,7 +68,7 @@ Integer Result::get_which() {
 }
 
 static void result_type_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     switch (result->which()) {
     case Result::Success:
         frame.return_value(frame.ctx().get_symbol("success"));
@@ -79,17 +80,17 @@ static void result_type_impl(SyncFrameContext& frame) {
 }
 
 static void result_is_success_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     frame.return_value(frame.ctx().get_boolean(result->is_success()));
 }
 
 static void result_is_error_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     frame.return_value(frame.ctx().get_boolean(result->is_error()));
 }
 
 static void result_value_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     if (!result->is_success()) {
         return frame.panic(
             TIRO_FORMAT_EXCEPTION(frame.ctx(), "cannot access value on failure result"));
@@ -98,7 +99,7 @@ static void result_value_impl(SyncFrameContext& frame) {
 }
 
 static void result_error_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     if (!result->is_error()) {
         return frame.panic(
             TIRO_FORMAT_EXCEPTION(frame.ctx(), "cannot access reason on successful result"));
diff --git a/src/vm/objects/set.cpp b/src/vm/objects/set.cpp
index 44f5c2a..4667fc6 100644
--- a/src/vm/objects/set.cpp
+++ b/src/vm/objects/set.cpp
@@ -78,30 +78,30 @@ std::optional<Value> SetIterator::next(Context& ctx) {
 }
 
 static void set_size_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     i64 size = static_cast<i64>(set->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void set_contains_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     bool result = set->contains(*frame.arg(1));
     frame.return_value(frame.ctx().get_boolean(result));
 }
 
 static void set_clear_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     set->clear();
 }
 
 static void set_insert_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     TIRO_FRAME_TRY(inserted, set->insert(frame.ctx(), frame.arg(1)));
     frame.return_value(frame.ctx().get_boolean(inserted));
 }
 
 static void set_remove_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     set->remove(*frame.arg(1));
 }
 
diff --git a/src/vm/objects/string.cpp b/src/vm/objects/string.cpp
index 698946a..2b93c7e 100644
--- a/src/vm/objects/string.cpp
+++ b/src/vm/objects/string.cpp
@@ -421,34 +421,34 @@ StringLike::Which StringLike::which() {
 
 static void string_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "String.contains", "str", frame.arg(1)));
     bool found = str_contains(string->view(), needle->view());
     frame.return_value(ctx.get_boolean(found));
 }
 
 static void string_size_impl(SyncFrameContext& frame) {
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     frame.return_value(frame.ctx().get_integer(string->size()));
 }
 
 static void string_slice_first_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice_first", "offset", frame.arg(1)));
     frame.return_value(string->slice_first(frame.ctx(), offset));
 }
 
 static void string_slice_last_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice_last", "offset", frame.arg(1)));
     frame.return_value(string->slice_last(frame.ctx(), offset));
 }
 
 static void string_slice_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice", "offset", frame.arg(1)));
     TIRO_FRAME_TRY(size, slice_arg(ctx, "String.slice", "size", frame.arg(2)));
     frame.return_value(string->slice(frame.ctx(), offset, size));
@@ -466,41 +466,41 @@ constexpr TypeDesc string_type_desc{"String"sv, string_methods};
 
 static void string_slice_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "StringSlice.contains", "str", frame.arg(1)));
     bool found = str_contains(slice->view(), needle->view());
     frame.return_value(ctx.get_boolean(found));
 }
 
 static void string_slice_size_impl(SyncFrameContext& frame) {
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     frame.return_value(frame.ctx().get_integer(slice->size()));
 }
 
 static void string_slice_slice_first_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice_first", "offset", frame.arg(1)));
     frame.return_value(slice->slice_first(frame.ctx(), offset));
 }
 
 static void string_slice_slice_last_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice_last", "offset", frame.arg(1)));
     frame.return_value(slice->slice_last(frame.ctx(), offset));
 }
 
 static void string_slice_slice_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice", "offset", frame.arg(1)));
     TIRO_FRAME_TRY(size, slice_arg(ctx, "StringSlice.slice", "size", frame.arg(2)));
     frame.return_value(slice->slice(frame.ctx(), offset, size));
 }
 
 static void string_slice_to_string_impl(SyncFrameContext& frame) {
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     frame.return_value(slice->to_string(frame.ctx()));
 }
 
@@ -516,7 +516,7 @@ static constexpr FunctionDesc string_slice_methods[] = {
 constexpr TypeDesc string_slice_type_desc{"StringSlice"sv, string_slice_methods};
 
 static void string_builder_append_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     for (size_t i = 1; i < frame.arg_count(); ++i) {
         Handle<Value> arg = frame.arg(i);
         to_string(frame.ctx(), builder, arg);
@@ -525,7 +525,7 @@ static void string_builder_append_impl(SyncFrameContext& frame) {
 
 static void string_builder_append_byte_impl(SyncFrameContext& frame) {
     Context& ctx = frame.ctx();
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     Handle arg = frame.arg(1);
 
     byte b;
@@ -540,26 +540,26 @@ static void string_builder_append_byte_impl(SyncFrameContext& frame) {
 }
 
 static void string_builder_clear_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     builder->clear();
 }
 
 static void string_builder_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "StringBuilder.contains", "str", frame.arg(1)));
     bool found = str_contains(builder->view(), needle->view());
     frame.return_value(frame.ctx().get_boolean(found));
 }
 
 static void string_builder_size_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     size_t size = static_cast<size_t>(builder->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void string_builder_to_string_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     frame.return_value(builder->to_string(frame.ctx()));
 }
 
diff --git a/src/vm/objects/tuple.cpp b/src/vm/objects/tuple.cpp
index fd68032..a5afb95 100644
--- a/src/vm/objects/tuple.cpp
+++ b/src/vm/objects/tuple.cpp
@@ -1,5 +1,6 @@
 #include "vm/objects/tuple.hpp"
 
+#include "vm/error_utils.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
 
@@ -98,7 +99,7 @@ std::optional<Value> TupleIterator::next() {
 }
 
 static void tuple_size_impl(SyncFrameContext& frame) {
-    auto tuple = check_instance<Tuple>(frame);
+    TIRO_FRAME_TRY(tuple, check_instance<Tuple>(frame));
     frame.return_value(frame.ctx().get_integer(static_cast<i64>(tuple->size())));
 }
 
-- 
2.43.0


From 8d10b81a6e3f030e1a6991684c90886962772a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 30/35] fix: debug_repr of strings that are not valid utf-8

Slices, string builders and host strings may contain arbitrary bytes. Printing them failed with
an internal error that took down the main loop.
---
 src/vm/builtins/dump.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/vm/builtins/dump.cpp b/src/vm/builtins/dump.cpp
index 7c79999..42aeed0 100644
--- a/src/vm/builtins/dump.cpp
+++ b/src/vm/builtins/dump.cpp
@@ -97,8 +97,20 @@ struct EscapedString {
 
     void format(FormatStream& stream) const {
         stream.format("\"");
-        for (auto cp : CodePointRange(str)) {
-            format_escaped(cp, stream);
+        std::string_view rest = str;
+        while (!rest.empty()) {
+            auto result = validate_utf8(rest);
+            auto valid = result.ok ? rest : rest.substr(0, result.error_offset);
+            for (auto cp : CodePointRange(valid)) {
+                format_escaped(cp, stream);
+            }
+            rest.remove_prefix(valid.size());
+
+            // Strings may contain arbitrary bytes (slices, string builders, host strings).
+            if (!rest.empty()) {
+                stream.format("\\x{:02X}", static_cast<u8>(rest.front()));
+                rest.remove_prefix(1);
+            }
         }
         stream.format("\"");
     }
-- 
2.43.0


From 14ea78b6512ef01beef3a311c80e5ba05d90b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:11 +0000
Subject: [PATCH 31/35] fix: set_callback of the C++ interface frees its
 callback twice when it fails

---
 include/tiropp/objects.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tiropp/objects.hpp b/include/tiropp/objects.hpp
index 62923ac..0fb818b 100644
--- a/include/tiropp/objects.hpp
+++ b/include/tiropp/objects.hpp
@@ -810,9 +810,10 @@ public:
             in_place_t(), std::forward<Callback>(on_complete));
 
         detail::check_handles(raw_vm(), *this);
+
+        // The cleanup function will be invoked exactly once, even if the call fails.
         tiro_coroutine_set_callback(raw_vm(), raw_handle(), &wrapper_type::invoke,
-            &wrapper_type::cleanup, wrapper.get(), error_adapter());
-        wrapper.release();
+            &wrapper_type::cleanup, wrapper.release(), error_adapter());
     }
 
     /// Starts this coroutine's execution.
-- 
2.43.0


From 469ec2da62daee4d4edacb2c81bacbf0fa51a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:11 +0000
Subject: [PATCH 32/35] fix: userdata of a tiro::vm outlives its objects

---
 include/tiropp/vm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tiropp/vm.hpp b/include/tiropp/vm.hpp
index 0431c18..0c6673c 100644
--- a/include/tiropp/vm.hpp
+++ b/include/tiropp/vm.hpp
@@ -123,8 +123,10 @@ private:
 
 private:
     vm_settings settings_;
-    detail::resource_holder<tiro_vm_t, tiro_vm_free> raw_vm_;
     std::any userdata_ = nullptr;
+
+    // Must be destroyed first: releases native objects and callbacks, which may access the other members.
+    detail::resource_holder<tiro_vm_t, tiro_vm_free> raw_vm_;
 };
 
 } // namespace tiro
-- 
2.43.0


From 70b8a18a517369491df7f73619c0f7edf56172f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:34 +0000
Subject: [PATCH 33/35] fix: function bodies are not part of the loop that
 surrounds the function

A break or continue in a function declared within a loop body was accepted by the
structure check and later failed the compilation with an internal error.
---
 src/compiler/semantics/structure_check.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/semantics/structure_check.cpp b/src/compiler/semantics/structure_check.cpp
index b5e0b60..88d72a9 100644
--- a/src/compiler/semantics/structure_check.cpp
+++ b/src/compiler/semantics/structure_check.cpp
@@ -57,6 +57,7 @@ private:
 
     ResetValue<AstNode*> enter_loop(NotNull<AstNode*> loop);
     ResetValue<AstNode*> enter_func(NotNull<AstNode*> func);
+    ResetValue<AstNode*> leave_loop();
 
 private:
     const SymbolTable& symbols_;
@@ -115,6 +116,7 @@ void StructureChecker::visit_binding(NotNull<AstBinding*> binding) {
 
 void StructureChecker::visit_func_decl(NotNull<AstFuncDecl*> decl) {
     auto reset_func = enter_func(decl);
+    auto reset_loop = leave_loop(); // The function body is not part of the surrounding loop
     visit_decl(decl);
 }
 
@@ -379,6 +381,10 @@ ResetValue<AstNode*> StructureChecker::enter_func(NotNull<AstNode*> func) {
     return replace_value(current_function_, func.get());
 }
 
+ResetValue<AstNode*> StructureChecker::leave_loop() {
+    return replace_value(current_loop_, static_cast<AstNode*>(nullptr));
+}
+
 void check_structure(const SemanticAst& ast, Diagnostics& diag) {
     StructureChecker checker(ast.symbols(), ast.strings(), diag);
     checker.check(ast.root());
-- 
2.43.0


From 45c024f31a388cebf4b0235ebbf7c3c70c6b7195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:34 +0000
Subject: [PATCH 34/35] fix: optional paths may end in an expression that never
 returns

x?[return 1] and x?(return 1) terminated the same block twice, the compilation failed with an internal error.
---
 src/compiler/ir_gen/compile_expr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 0cfbbba..31d7a97 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -188,7 +188,8 @@ InstResult PathCompiler::compile(NotNull<AstExpr*> topmost) {
     // If an end block was created due to optional accesses, continue in that block. Otherwise,
     // we must still be in the original block.
     if (end_block_) {
-        chain_bb_.end(Terminator::make_jump(*end_block_));
+        if (chain_result) // Otherwise the end of the path is unreachable
+            chain_bb_.end(Terminator::make_jump(*end_block_));
         ctx().seal(*end_block_);
         chain_bb_.assign(*end_block_);
     }
-- 
2.43.0


From c6f7eb9b31a4e704df6bf1098fceaf219c49ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:34 +0000
Subject: [PATCH 35/35] fix: code after control flow that never continues

The compiler continued in merge blocks without predecessors after an if whose branches
both leave, after endless for loops and after conditions or assert messages that leave:
the compilation failed with an internal error. Such blocks are now treated as unreachable.
---
 src/compiler/ir_gen/compile_expr.cpp |  5 +++--
 src/compiler/ir_gen/compile_stmt.cpp | 22 ++++++++++------------
 src/compiler/ir_gen/func.cpp         | 19 ++++++++++++++++---
 src/compiler/ir_gen/func.hpp         |  4 ++++
 4 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 31d7a97..b5e61cd 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -590,8 +590,9 @@ InstResult ExprCompiler::visit_if_expr(NotNull<AstIfExpr*> expr, CurrentBlock& b
     auto then_result = compile_branch(then_block, TIRO_NN(expr->then_branch()));
     auto else_result = compile_branch(else_block, TIRO_NN(expr->else_branch()));
 
-    ctx().seal(end_block);
-    bb.assign(end_block);
+    auto end_result = ctx().continue_at(end_block, bb);
+    if (!end_result)
+        return end_result.failure();
 
     if (!has_value) {
         TIRO_DEBUG_ASSERT(can_elide(), "Must be able to elide value generation.");
diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index 702c7d4..7cf2ca2 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -66,10 +66,8 @@ OkResult StmtCompiler::visit_assert_stmt(NotNull<AstAssertStmt*> stmt, CurrentBl
 
             return nested.compile_value(Constant::make_null());
         }();
-        if (!message_result)
-            return message_result.failure();
-
-        nested.end(Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
+        if (message_result) // Otherwise the end of the message expression is unreachable
+            nested.end(Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
     }
 
     bb.assign(ok_block);
@@ -137,10 +135,8 @@ OkResult StmtCompiler::visit_for_stmt(NotNull<AstForStmt*> stmt, CurrentBlock& b
     bb.end(Terminator::make_jump(cond_block));
 
     // Compile condition.
-    auto cond_result = [&]() -> OkResult {
-        CurrentBlock cond_bb = ctx().make_current(cond_block);
-        return compile_loop_cond(stmt->cond(), body_block, end_block, cond_bb);
-    }();
+    CurrentBlock cond_bb = ctx().make_current(cond_block);
+    auto cond_result = compile_loop_cond(stmt->cond(), body_block, end_block, cond_bb);
 
     if (cond_result) {
         // Compile loop body.
@@ -187,9 +183,11 @@ OkResult StmtCompiler::visit_for_stmt(NotNull<AstForStmt*> stmt, CurrentBlock& b
     }
 
     ctx().seal(cond_block);
-    ctx().seal(end_block);
-    bb.assign(end_block);
-    return cond_result;
+    if (!cond_result) {
+        bb.assign(cond_bb.id());
+        return cond_result;
+    }
+    return ctx().continue_at(end_block, bb);
 }
 
 OkResult StmtCompiler::visit_for_each_stmt(NotNull<AstForEachStmt*> stmt, CurrentBlock& bb) {
@@ -276,7 +274,7 @@ OkResult StmtCompiler::visit_while_stmt(NotNull<AstWhileStmt*> stmt, CurrentBloc
         auto cond_result = compile_loop_cond(stmt->cond(), body_block, end_block, cond_bb);
         if (!cond_result) {
             ctx().seal(cond_block);
-            bb.assign(cond_block);
+            bb.assign(cond_bb.id());
             return cond_result;
         }
     }
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index fa9e96b..03be3bb 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -250,9 +250,11 @@ void FunctionIRGen::enter_compilation(FunctionRef<void(CurrentBlock& bb)> compil
 
     compile_body(bb);
 
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() == TerminatorType::Return,
-        "The last block must perform a return.");
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().as_return().target == result_.exit(),
+    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() == TerminatorType::Return
+                          || result_[bb.id()].terminator().type() == TerminatorType::Never,
+        "The last block must perform a return or must be unreachable.");
+    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() != TerminatorType::Return
+                          || result_[bb.id()].terminator().as_return().target == result_.exit(),
         "The last block at function level must always return to the exit "
         "block.");
 
@@ -535,6 +537,17 @@ void FunctionIRGen::emit(InstId inst, BlockId block_id) {
     }
 }
 
+OkResult FunctionIRGen::continue_at(BlockId block_id, CurrentBlock& bb) {
+    seal(block_id);
+    bb.assign(block_id);
+
+    if (result_[block_id].predecessor_count() == 0) {
+        bb.end(Terminator::make_never(result_.exit()));
+        return unreachable;
+    }
+    return ok;
+}
+
 void FunctionIRGen::end(Terminator term, BlockId block_id) {
     TIRO_DEBUG_ASSERT(term.type() != TerminatorType::None, "Invalid terminator.");
 
diff --git a/src/compiler/ir_gen/func.hpp b/src/compiler/ir_gen/func.hpp
index 86eafdf..27f41fb 100644
--- a/src/compiler/ir_gen/func.hpp
+++ b/src/compiler/ir_gen/func.hpp
@@ -326,6 +326,10 @@ public:
     /// It is an error when a block is left unsealed.
     void seal(BlockId block_id);
 
+    /// Seals the given merge block and continues compilation there. If the block has no predecessors
+    /// (i.e. control flow cannot reach it), then it will be terminated and the result is unreachable.
+    OkResult continue_at(BlockId block_id, CurrentBlock& bb);
+
     /// Ends the block by settings outgoing edges. The block automatically becomes filled.
     void end(Terminator term, BlockId block_id);
 
-- 
2.43.0

