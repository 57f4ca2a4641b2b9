From 3abfed977173f4a2d6c384bb6646557e631a22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 01/21] fix: destroy the copied elements when an in-place
 concatenation fails

When concat_mut_l / concat_mut_lr_l ran out of memory after filling the left
tail, the handler destroyed elements of the right tail, which may be shared
with other vectors, and leaked the ones it had just constructed.
---
 immer/detail/rbts/rrbtree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 843921b..c830775 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -827,7 +827,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
@@ -1105,7 +1105,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From 299a06249698408b2964f402143b8623da7b1898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 02/21] fix: count the reference taken when prepending a moved
 transient with a full tail

concat_mut_lr_r pushed the tail of the left operand into the new tree without
incrementing its reference count, unlike concat_mut_r, so that it was released
twice.
---
 immer/detail/rbts/rrbtree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index c830775..8e61cdc 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -1204,6 +1204,7 @@ struct rrbtree
                 // are tagged with `er`
                 auto res =
                     l.push_tail(l.root, l.shift, tail_offst, l.tail, tail_size);
+                l.tail->inc();
                 r = {l.size + r.size, get<0>(res), get<1>(res), r.tail->inc()};
                 return;
             } else if (tail_size + r.size <= branches<BL>) {
-- 
2.43.0


From 2cecc74ee86dd6d2439dfc065397eeb5817c8910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 03/21] fix: compare the elements that only one side holds in
 its tail in flex_vector ==

---
 immer/detail/rbts/rrbtree.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 8e61cdc..37e76e9 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -320,10 +320,9 @@ struct rrbtree
                    ? make_leaf_sub_pos(tail, tail_size())
                          .visit(equals_visitor{}, other.tail)
                : tail_off > tail_off_other
-                   ? std::equal(tail->leaf(),
-                                tail->leaf() + (size - tail_off),
-                                other.tail->leaf() +
-                                    (tail_off - tail_off_other))
+                   ? std::equal(other.tail->leaf(),
+                                other.tail->leaf() + (size - tail_off_other),
+                                iter_t{*this} + tail_off_other)
                    /* otherwise */
                    : std::equal(tail->leaf(),
                                 tail->leaf() + (size - tail_off),
-- 
2.43.0


From 83b0a4a712209b53840f5a9dab168279c5f8fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 04/21] fix: destroy the elements that array::take removes in
 place

---
 immer/detail/arrays/with_capacity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index c80f706..0069147 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -302,7 +302,7 @@ struct with_capacity
     {
         assert(sz <= size);
         if (ptr->can_mutate(e)) {
-            detail::destroy_n(data() + size, size - sz);
+            detail::destroy_n(data() + sz, size - sz);
             size = sz;
         } else {
             auto cap = recommend_down(sz, capacity);
-- 
2.43.0


From ef3e452cfd7c2775d94a9b79128a4f4cf1b037e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 05/21] fix: let array::take accept more elements than there
 are, as documented

---
 immer/detail/arrays/no_capacity.hpp   | 2 ++
 immer/detail/arrays/with_capacity.hpp | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/immer/detail/arrays/no_capacity.hpp b/immer/detail/arrays/no_capacity.hpp
index a24f6da..980538b 100644
--- a/immer/detail/arrays/no_capacity.hpp
+++ b/immer/detail/arrays/no_capacity.hpp
@@ -12,6 +12,7 @@
 #include <immer/config.hpp>
 #include <immer/detail/arrays/node.hpp>
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <stdexcept>
@@ -201,6 +202,7 @@ struct no_capacity
 
     no_capacity take(std::size_t sz) const
     {
+        sz     = std::min(sz, size);
         auto p = node_t::copy_n(sz, ptr, sz);
         return {p, sz};
     }
diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index 0069147..1351dea 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -11,6 +11,7 @@
 #include <immer/config.hpp>
 #include <immer/detail/arrays/no_capacity.hpp>
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <stdexcept>
@@ -292,7 +293,7 @@ struct with_capacity
 
     with_capacity take(std::size_t sz) const
     {
-        assert(sz <= size);
+        sz       = std::min(sz, size);
         auto cap = recommend_down(sz, capacity);
         auto p   = node_t::copy_n(cap, ptr, sz);
         return {p, sz, cap};
@@ -300,7 +301,7 @@ struct with_capacity
 
     void take_mut(edit_t e, std::size_t sz)
     {
-        assert(sz <= size);
+        sz = std::min(sz, size);
         if (ptr->can_mutate(e)) {
             detail::destroy_n(data() + sz, size - sz);
             size = sz;
-- 
2.43.0


From 425da494f02cbf775725a402d60aa9d8a11ec85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 06/21] fix: do not look into free list nodes that another
 thread may be taking

---
 immer/heap/free_list_heap.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/immer/heap/free_list_heap.hpp b/immer/heap/free_list_heap.hpp
index 15ae01d..7ad86a2 100644
--- a/immer/heap/free_list_heap.hpp
+++ b/immer/heap/free_list_heap.hpp
@@ -36,14 +36,25 @@ struct free_list_heap : Base
         assert(size <= sizeof(free_list_node) + Size);
         assert(size >= sizeof(free_list_node));
 
-        free_list_node* n;
-        do {
-            n = head().data;
-            if (!n) {
-                auto p = base_t::allocate(Size + sizeof(free_list_node));
-                return static_cast<free_list_node*>(p);
+        // detach the whole list before looking into it: another thread may
+        // pop the first node, and reuse or release it, at any time otherwise
+        auto n = head().data.exchange(nullptr);
+        if (!n) {
+            auto p = base_t::allocate(Size + sizeof(free_list_node));
+            return static_cast<free_list_node*>(p);
+        }
+        // give back the rest
+        if (auto rest = n->next) {
+            auto current = static_cast<free_list_node*>(nullptr);
+            if (!head().data.compare_exchange_strong(current, rest)) {
+                auto last = rest;
+                while (last->next)
+                    last = last->next;
+                do {
+                    last->next = current;
+                } while (!head().data.compare_exchange_weak(current, rest));
             }
-        } while (!head().data.compare_exchange_weak(n, n->next));
+        }
         head().count.fetch_sub(1u, std::memory_order_relaxed);
         return n;
     }
-- 
2.43.0


From 5a6de8001647d7a47aa812f57b2d12fd569eeabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 07/21] fix: own the sizes of a relaxed node before changing
 the node in place

---
 immer/detail/rbts/node.hpp       | 46 +++++++-------------------------
 immer/detail/rbts/operations.hpp | 19 ++++++++-----
 2 files changed, 23 insertions(+), 42 deletions(-)

diff --git a/immer/detail/rbts/node.hpp b/immer/detail/rbts/node.hpp
index 55a512b..ee6a25c 100644
--- a/immer/detail/rbts/node.hpp
+++ b/immer/detail/rbts/node.hpp
@@ -873,18 +873,18 @@ struct node
                     node_t::ownee(src_r).can_mutate(e))
                     return src_r;
                 else {
-                    auto dst_r = impl.d.data.inner.relaxed =
+                    auto dst_r =
                         new (heap::allocate(max_sizeof_relaxed)) relaxed_t;
-                    if (src_r) {
-                        auto n = dst_r->d.count = src_r->d.count;
-                        std::copy(
-                            src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
-                        if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
-                    }
+                    auto n = dst_r->d.count = src_r->d.count;
+                    std::copy(
+                        src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
                     node_t::ownee(dst_r) = e;
-                    return dst_r;
+                    if (node_t::refs(src_r).dec())
+                        heap::deallocate(node_t::ownee(src_r).owned()
+                                             ? node_t::max_sizeof_relaxed
+                                             : node_t::sizeof_relaxed_n(n),
+                                         src_r);
+                    return impl.d.data.inner.relaxed = dst_r;
                 }
             });
     }
@@ -916,32 +916,6 @@ struct node
             });
     }
 
-    relaxed_t* ensure_mutable_relaxed_n(edit_t e, count_t n)
-    {
-        auto src_r = relaxed();
-        return static_if<embed_relaxed, relaxed_t*>(
-            [&](auto) { return src_r; },
-            [&](auto) {
-                if (node_t::refs(src_r).unique() ||
-                    node_t::ownee(src_r).can_mutate(e))
-                    return src_r;
-                else {
-                    auto dst_r =
-                        new (heap::allocate(max_sizeof_relaxed)) relaxed_t;
-                    if (src_r) {
-                        std::copy(
-                            src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
-                        if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
-                    }
-                    dst_r->d.count                   = n;
-                    node_t::ownee(dst_r)             = e;
-                    return impl.d.data.inner.relaxed = dst_r;
-                }
-            });
-    }
-
     node_t* inc()
     {
         refs(this).inc();
diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index d5ff679..9d854ee 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -688,7 +688,10 @@ struct push_tail_mut_visitor
 
         if (new_idx >= branches<B>)
             return nullptr;
-        else if (idx == new_idx) {
+        // do this before anything changes, since it may throw
+        if (mutate)
+            pos.relaxed_ = node->ensure_mutable_relaxed(e);
+        if (idx == new_idx) {
             new_child =
                 mutate ? pos.last_oh_csh(this_t{}, idx, children, e, tail, ts)
                        : pos.last_oh_csh(
@@ -704,7 +707,7 @@ struct push_tail_mut_visitor
 
         if (mutate) {
             auto count             = new_idx + 1;
-            auto relaxed           = node->ensure_mutable_relaxed_n(e, new_idx);
+            auto relaxed           = node->relaxed();
             node->inner()[new_idx] = new_child;
             relaxed->d.sizes[new_idx] = pos.size() + ts;
             relaxed->d.count          = count;
@@ -921,6 +924,9 @@ struct slice_right_mut_visitor
             return res;
         } else {
             using std::get;
+            // do this before anything changes, since it may throw
+            if (mutate)
+                pos.relaxed_ = node->ensure_mutable_relaxed(e);
             auto subs =
                 mutate ? pos.towards_oh(no_collapse_t{}, last, idx, e)
                        : pos.towards_oh(no_collapse_no_mut_t{}, last, idx, e);
@@ -930,7 +936,7 @@ struct slice_right_mut_visitor
             IMMER_TRY {
                 if (next) {
                     if (mutate) {
-                        auto nodr = node->ensure_mutable_relaxed_n(e, idx);
+                        auto nodr = node->relaxed();
                         pos.each_right(dec_visitor{}, idx + 1);
                         node->inner()[idx] = next;
                         nodr->d.sizes[idx] = last + 1 - ts;
@@ -962,7 +968,7 @@ struct slice_right_mut_visitor
                 } else {
                     if (mutate) {
                         pos.each_right(dec_visitor{}, idx + 1);
-                        node->ensure_mutable_relaxed_n(e, idx)->d.count = idx;
+                        node->relaxed()->d.count = idx;
                         return std::make_tuple(pos.shift(), node, ts, tail);
                     } else {
                         auto newn = node_t::copy_inner_r_e(e, node, idx);
@@ -1261,8 +1267,9 @@ struct slice_left_mut_visitor
             return r;
         } else {
             using std::get;
-            auto newn     = mutate ? (node->ensure_mutable_relaxed(e), node)
-                                   : node_t::make_inner_r_e(e);
+            if (mutate)
+                pos.relaxed_ = node->ensure_mutable_relaxed(e);
+            auto newn     = mutate ? node : node_t::make_inner_r_e(e);
             auto newr     = newn->relaxed();
             auto newcount = count - idx;
             auto new_child_size = child_size - child_dropped_size;
-- 
2.43.0


From d727e3defc42093572739920b7dda38ce788057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 08/21] fix: release the nodes that an in-place take keeps when
 another thread lets go meanwhile

---
 immer/detail/rbts/operations.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index 9d854ee..51c0394 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -919,8 +919,10 @@ struct slice_right_mut_visitor
         if (Collapse && idx == 0) {
             auto res = mutate ? pos.towards_oh(this_t{}, last, idx, e)
                               : pos.towards_oh(no_mut_t{}, last, idx, e);
-            if (Mutating)
+            if (mutate)
                 pos.visit(dec_right_visitor{}, count_t{1});
+            else if (Mutating)
+                pos.visit(dec_visitor{});
             return res;
         } else {
             using std::get;
@@ -955,15 +957,19 @@ struct slice_right_mut_visitor
                         return std::make_tuple(pos.shift(), newn, ts, tail);
                     }
                 } else if (idx == 0) {
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{1});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift(), nullptr, ts, tail);
                 } else if (Collapse && idx == 1 && pos.shift() > BL) {
                     auto newn = pos.node()->inner()[0];
                     if (!mutate)
                         newn->inc();
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{2});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift() - B, newn, ts, tail);
                 } else {
                     if (mutate) {
@@ -1000,8 +1006,10 @@ struct slice_right_mut_visitor
         if (Collapse && idx == 0) {
             auto res = mutate ? pos.towards_oh(this_t{}, last, idx, e)
                               : pos.towards_oh(no_mut_t{}, last, idx, e);
-            if (Mutating)
+            if (mutate)
                 pos.visit(dec_right_visitor{}, count_t{1});
+            else if (Mutating)
+                pos.visit(dec_visitor{});
             return res;
         } else {
             using std::get;
@@ -1025,15 +1033,19 @@ struct slice_right_mut_visitor
                         return std::make_tuple(pos.shift(), newn, ts, tail);
                     }
                 } else if (idx == 0) {
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{1});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift(), nullptr, ts, tail);
                 } else if (Collapse && idx == 1 && pos.shift() > BL) {
                     auto newn = pos.node()->inner()[0];
                     if (!mutate)
                         newn->inc();
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{2});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift() - B, newn, ts, tail);
                 } else {
                     if (mutate) {
-- 
2.43.0


From 7197f7ea79c5157ddfb41625fb49a298a57a48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 09/21] fix: destroy the replaced colliding element once when
 copying the others fails

---
 immer/detail/hamts/node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/hamts/node.hpp b/immer/detail/hamts/node.hpp
index 1801984..d9cc256 100644
--- a/immer/detail/hamts/node.hpp
+++ b/immer/detail/hamts/node.hpp
@@ -503,7 +503,7 @@ struct node
                     detail::uninitialized_copy(pos + 1, srcp + n, dstp);
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy(dst->collisions(), dstp);
+                    detail::destroy(dst->collisions() + 1, dstp);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From ffb6c4af091839c17580fa6fdd470f1e255c6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 10/21] fix: keep an erased element's node until the one that
 replaces it is made

---
 immer/detail/hamts/champ.hpp | 88 ++++++++++--------------------------
 immer/detail/hamts/node.hpp  | 35 ++++++--------
 2 files changed, 39 insertions(+), 84 deletions(-)

diff --git a/immer/detail/hamts/champ.hpp b/immer/detail/hamts/champ.hpp
index 0e04d57..6763486 100644
--- a/immer/detail/hamts/champ.hpp
+++ b/immer/detail/hamts/champ.hpp
@@ -1314,13 +1314,6 @@ struct champ
         sub_result_mut()
             : kind{kind_t::nothing}
             , mutated{false} {};
-        sub_result_mut(T* x, bool m)
-            : kind{kind_t::singleton}
-            , owned{m}
-            , mutated{m}
-        {
-            data.singleton = x;
-        };
         sub_result_mut(T* x, bool o, bool m)
             : kind{kind_t::singleton}
             , owned{o}
@@ -1337,13 +1330,15 @@ struct champ
         };
     };
 
+    // When only one element is left under `node`, it is not moved out of there.
+    // The nodes are left as they are for the caller to take the element from
+    // them, when it is `owned`, and to release them afterwards.
     template <typename K>
     sub_result_mut do_sub_mut(edit_t e,
                               node_t* node,
                               const K& k,
                               hash_t hash,
-                              shift_t shift,
-                              void* store) const
+                              shift_t shift) const
     {
         auto mutate = node->can_mutate(e);
         if (shift == max_shift<B>) {
@@ -1352,14 +1347,8 @@ struct champ
             for (auto cur = fst; cur != lst; ++cur) {
                 if (Equal{}(*cur, k)) {
                     if (node->collision_count() <= 2) {
-                        if (mutate) {
-                            auto r = new (store)
-                                T{std::move(node->collisions()[cur == fst])};
-                            node_t::delete_collision(node);
-                            return sub_result_mut{r, true};
-                        } else {
-                            return sub_result_mut{fst + (cur == fst), false};
-                        }
+                        return sub_result_mut{
+                            fst + (cur == fst), mutate, false};
                     } else {
                         auto r = mutate
                                      ? node_t::move_collision_remove(node, cur)
@@ -1377,7 +1366,7 @@ struct champ
                 auto children = node->children();
                 auto child    = children[offset];
                 auto result =
-                    mutate ? do_sub_mut(e, child, k, hash, shift + B, store)
+                    mutate ? do_sub_mut(e, child, k, hash, shift + B)
                            : do_sub(child, k, hash, shift + B);
                 switch (result.kind) {
                 case sub_result::nothing:
@@ -1385,30 +1374,21 @@ struct champ
                 case sub_result::singleton:
                     if (node->datamap() == 0 && node->children_count() == 1 &&
                         shift > 0) {
-                        if (mutate) {
-                            node_t::delete_inner(node);
-                            if (!result.mutated && child->dec())
-                                node_t::delete_deep_shift(child, shift + B);
-                        }
-                        return {result.data.singleton, result.owned, mutate};
+                        return {result.data.singleton, result.owned, false};
                     } else {
+                        auto val = result.data.singleton;
+                        // only move it when no copy may fail afterwards
+                        auto take =
+                            result.owned && (node->data_count() == 0 ||
+                                             node->can_mutate_values(e));
                         auto r =
-                            mutate ? node_t::move_inner_replace_inline(
-                                         e,
-                                         node,
-                                         bit,
-                                         offset,
-                                         result.owned
-                                             ? std::move(*result.data.singleton)
-                                             : *result.data.singleton)
-                                   : node_t::copy_inner_replace_inline(
-                                         node,
-                                         bit,
-                                         offset,
-                                         *result.data.singleton);
-                        if (result.owned)
-                            detail::destroy_at(result.data.singleton);
-                        if (!result.mutated && mutate && child->dec())
+                            !mutate ? node_t::copy_inner_replace_inline(
+                                          node, bit, offset, *val)
+                            : take  ? node_t::move_inner_replace_inline(
+                                         e, node, bit, offset, std::move(*val))
+                                    : node_t::move_inner_replace_inline(
+                                         e, node, bit, offset, *val);
+                        if (mutate && child->dec())
                             node_t::delete_deep_shift(child, shift + B);
                         return {node_t::owned_values(r, e), mutate};
                     }
@@ -1437,33 +1417,14 @@ struct champ
                 auto mutate_values = mutate && node->can_mutate_values(e);
                 if (Equal{}(*val, k)) {
                     auto nv = node->data_count();
-                    if (node->nodemap() || nv > 2) {
+                    if (node->nodemap() || nv > 2 || (nv == 2 && shift == 0)) {
                         auto r = mutate ? node_t::move_inner_remove_value(
                                               e, node, bit, offset)
                                         : node_t::copy_inner_remove_value(
                                               node, bit, offset);
                         return {node_t::owned_values_safe(r, e), mutate};
                     } else if (nv == 2) {
-                        if (shift > 0) {
-                            if (mutate_values) {
-                                auto r = new (store)
-                                    T{std::move(node->values()[!offset])};
-                                node_t::delete_inner(node);
-                                return {r, true};
-                            } else {
-                                return {node->values() + !offset, false};
-                            }
-                        } else {
-                            auto& v = node->values()[!offset];
-                            auto r  = node_t::make_inner_n(
-                                0,
-                                node->datamap() & ~bit,
-                                mutate_values ? std::move(v) : v);
-                            assert(!node->nodemap());
-                            if (mutate)
-                                node_t::delete_inner(node);
-                            return {node_t::owned_values(r, e), mutate};
-                        }
+                        return {node->values() + !offset, mutate_values, false};
                     } else {
                         assert(shift == 0);
                         if (mutate)
@@ -1479,9 +1440,8 @@ struct champ
     template <typename K>
     void sub_mut(edit_t e, const K& k)
     {
-        auto store = aligned_storage_for<T>{};
-        auto hash  = Hash{}(k);
-        auto res   = do_sub_mut(e, root, k, hash, 0, &store);
+        auto hash = Hash{}(k);
+        auto res  = do_sub_mut(e, root, k, hash, 0);
         switch (res.kind) {
         case sub_result::nothing:
             break;
diff --git a/immer/detail/hamts/node.hpp b/immer/detail/hamts/node.hpp
index d9cc256..8d10037 100644
--- a/immer/detail/hamts/node.hpp
+++ b/immer/detail/hamts/node.hpp
@@ -731,8 +731,9 @@ struct node
         return dst;
     }
 
+    template <typename U>
     static node_t* move_inner_replace_inline(
-        edit_t e, node_t* src, bitmap_t bit, count_t noffset, T value)
+        edit_t e, node_t* src, bitmap_t bit, count_t noffset, U&& value)
     {
         IMMER_ASSERT_TAGGED(src->kind() == kind_t::inner);
         assert(!(src->datamap() & bit));
@@ -747,37 +748,31 @@ struct node
         IMMER_TRY {
             auto mutate_values =
                 nv && can_mutate(src->impl.d.data.inner.values, e);
-            if (nv) {
+            new (dst->values() + voffset) T{std::forward<U>(value)};
+            IMMER_TRY {
                 if (mutate_values)
                     detail::uninitialized_move(
                         src->values(), src->values() + voffset, dst->values());
-                else
+                else if (nv)
                     detail::uninitialized_copy(
                         src->values(), src->values() + voffset, dst->values());
-            }
-            IMMER_TRY {
-                new (dst->values() + voffset) T{std::move(value)};
                 IMMER_TRY {
-                    if (nv) {
-                        if (mutate_values)
-                            detail::uninitialized_move(src->values() + voffset,
-                                                       src->values() + nv,
-                                                       dst->values() + voffset +
-                                                           1);
-                        else
-                            detail::uninitialized_copy(src->values() + voffset,
-                                                       src->values() + nv,
-                                                       dst->values() + voffset +
-                                                           1);
-                    }
+                    if (mutate_values)
+                        detail::uninitialized_move(src->values() + voffset,
+                                                   src->values() + nv,
+                                                   dst->values() + voffset + 1);
+                    else if (nv)
+                        detail::uninitialized_copy(src->values() + voffset,
+                                                   src->values() + nv,
+                                                   dst->values() + voffset + 1);
                 }
                 IMMER_CATCH (...) {
-                    dst->values()[voffset].~T();
+                    detail::destroy_n(dst->values(), voffset);
                     IMMER_RETHROW;
                 }
             }
             IMMER_CATCH (...) {
-                detail::destroy_n(dst->values(), voffset);
+                dst->values()[voffset].~T();
                 IMMER_RETHROW;
             }
         }
-- 
2.43.0


From de85adcb1e89dfa7e7dc9398785c91408930445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 11/21] fix: do not move a displaced element before the memory
 for it is there

---
 immer/detail/hamts/champ.hpp | 101 +++++++++++++++++++++--------------
 immer/detail/hamts/node.hpp  | 100 +++++++++++++++++++++-------------
 2 files changed, 126 insertions(+), 75 deletions(-)

diff --git a/immer/detail/hamts/champ.hpp b/immer/detail/hamts/champ.hpp
index 6763486..21247ea 100644
--- a/immer/detail/hamts/champ.hpp
+++ b/immer/detail/hamts/champ.hpp
@@ -638,6 +638,61 @@ struct champ
         bool mutated;
     };
 
+    // Puts `v` in the place of the value at `offset`, together with that value.
+    add_mut_result do_merge_mut(edit_t e,
+                                node_t* node,
+                                bitmap_t bit,
+                                count_t offset,
+                                T v,
+                                hash_t hash,
+                                shift_t shift) const
+    {
+        auto val    = node->values() + offset;
+        auto hash2  = Hash{}(*val);
+        auto mutate = node->can_mutate(e);
+        if (mutate && node->can_mutate_values(e)) {
+            // allocate everything before moving the value
+            auto dst   = node_t::make_inner_replace_merged(node);
+            auto child = static_cast<node_t*>(nullptr);
+            IMMER_TRY {
+                child = node_t::make_merged_e(
+                    e, shift + B, std::move(v), hash, std::move(*val), hash2);
+            }
+            IMMER_CATCH (...) {
+                node_t::deallocate_inner_replace_merged(dst, node);
+                IMMER_RETHROW;
+            }
+            IMMER_TRY {
+                auto r = node_t::move_inner_replace_merged(
+                    e, dst, node, bit, offset, child);
+                return {node_t::owned_values_safe(r, e), true, true};
+            }
+            IMMER_CATCH (...) {
+                node_t::delete_deep_shift(child, shift + B);
+                IMMER_RETHROW;
+            }
+        } else {
+            auto child = node_t::make_merged_e(
+                e, shift + B, std::move(v), hash, *val, hash2);
+            IMMER_TRY {
+                auto r = mutate ? node_t::move_inner_replace_merged(
+                                      e,
+                                      node_t::make_inner_replace_merged(node),
+                                      node,
+                                      bit,
+                                      offset,
+                                      child)
+                                : node_t::copy_inner_replace_merged(
+                                      node, bit, offset, child);
+                return {node_t::owned_values_safe(r, e), true, mutate};
+            }
+            IMMER_CATCH (...) {
+                node_t::delete_deep_shift(child, shift + B);
+                IMMER_RETHROW;
+            }
+        }
+    }
+
     add_mut_result
     do_add_mut(edit_t e, node_t* node, T v, hash_t hash, shift_t shift) const
     {
@@ -701,27 +756,8 @@ struct champ
                         return {node_t::owned_values(r, e), false, false};
                     }
                 } else {
-                    auto mutate        = node->can_mutate(e);
-                    auto mutate_values = mutate && node->can_mutate_values(e);
-                    auto hash2         = Hash{}(*val);
-                    auto child         = node_t::make_merged_e(
-                        e,
-                        shift + B,
-                        std::move(v),
-                        hash,
-                        mutate_values ? std::move(*val) : *val,
-                        hash2);
-                    IMMER_TRY {
-                        auto r = mutate ? node_t::move_inner_replace_merged(
-                                              e, node, bit, offset, child)
-                                        : node_t::copy_inner_replace_merged(
-                                              node, bit, offset, child);
-                        return {node_t::owned_values_safe(r, e), true, mutate};
-                    }
-                    IMMER_CATCH (...) {
-                        node_t::delete_deep_shift(child, shift + B);
-                        IMMER_RETHROW;
-                    }
+                    return do_merge_mut(
+                        e, node, bit, offset, std::move(v), hash, shift);
                 }
             } else {
                 auto mutate = node->can_mutate(e);
@@ -1000,28 +1036,15 @@ struct champ
                         return {node_t::owned_values(r, e), false, false};
                     }
                 } else {
-                    auto mutate        = node->can_mutate(e);
-                    auto mutate_values = mutate && node->can_mutate_values(e);
-                    auto hash2         = Hash{}(*val);
-                    auto child         = node_t::make_merged_e(
+                    return do_merge_mut(
                         e,
-                        shift + B,
+                        node,
+                        bit,
+                        offset,
                         Combine{}(std::forward<K>(k),
                                   std::forward<Fn>(fn)(Default{}())),
                         hash,
-                        mutate_values ? std::move(*val) : *val,
-                        hash2);
-                    IMMER_TRY {
-                        auto r = mutate ? node_t::move_inner_replace_merged(
-                                              e, node, bit, offset, child)
-                                        : node_t::copy_inner_replace_merged(
-                                              node, bit, offset, child);
-                        return {node_t::owned_values_safe(r, e), true, mutate};
-                    }
-                    IMMER_CATCH (...) {
-                        node_t::delete_deep_shift(child, shift + B);
-                        IMMER_RETHROW;
-                    }
+                        shift);
                 }
             } else {
                 auto mutate = node->can_mutate(e);
diff --git a/immer/detail/hamts/node.hpp b/immer/detail/hamts/node.hpp
index 8d10037..34920e8 100644
--- a/immer/detail/hamts/node.hpp
+++ b/immer/detail/hamts/node.hpp
@@ -293,8 +293,9 @@ struct node
         return p;
     }
 
+    template <typename U1, typename U2>
     static node_t*
-    make_inner_n(count_t n, count_t idx1, T x1, count_t idx2, T x2)
+    make_inner_n(count_t n, count_t idx1, U1&& x1, count_t idx2, U2&& x2)
     {
         assert(idx1 != idx2);
         auto p = make_inner_n(n, 2);
@@ -303,9 +304,9 @@ struct node
         auto assign = [&](auto&& x1, auto&& x2) {
             auto vp = p->values();
             IMMER_TRY {
-                new (vp) T{std::move(x1)};
+                new (vp) T{std::forward<decltype(x1)>(x1)};
                 IMMER_TRY {
-                    new (vp + 1) T{std::move(x2)};
+                    new (vp + 1) T{std::forward<decltype(x2)>(x2)};
                 }
                 IMMER_CATCH (...) {
                     immer::detail::hamts::destroy_at(vp);
@@ -318,9 +319,9 @@ struct node
             }
         };
         if (idx1 < idx2)
-            assign(x1, x2);
+            assign(std::forward<U1>(x1), std::forward<U2>(x2));
         else
-            assign(x2, x1);
+            assign(std::forward<U2>(x2), std::forward<U1>(x1));
         return p;
     }
 
@@ -335,7 +336,8 @@ struct node
         return p;
     }
 
-    static node_t* make_collision(T v1, T v2)
+    template <typename U1, typename U2>
+    static node_t* make_collision(U1&& v1, U2&& v2)
     {
         auto m = heap::allocate(sizeof_collision_n(2));
         auto p = new (m) node_t;
@@ -345,9 +347,9 @@ struct node
         p->impl.d.data.collision.count = 2;
         auto cols                      = p->collisions();
         IMMER_TRY {
-            new (cols) T{std::move(v1)};
+            new (cols) T{std::forward<U1>(v1)};
             IMMER_TRY {
-                new (cols + 1) T{std::move(v2)};
+                new (cols + 1) T{std::forward<U2>(v2)};
             }
             IMMER_CATCH (...) {
                 cols->~T();
@@ -629,8 +631,26 @@ struct node
         return dst;
     }
 
-    static node_t* move_inner_replace_merged(
-        edit_t e, node_t* src, bitmap_t bit, count_t voffset, node_t* node)
+    static node_t* make_inner_replace_merged(const node_t* src)
+    {
+        return make_inner_n(src->children_count() + 1, src->data_count() - 1);
+    }
+
+    static void deallocate_inner_replace_merged(node_t* dst, const node_t* src)
+    {
+        if (src->data_count() > 1)
+            deallocate_inner(
+                dst, src->children_count() + 1, src->data_count() - 1);
+        else
+            deallocate_inner(dst, src->children_count() + 1);
+    }
+
+    static node_t* move_inner_replace_merged(edit_t e,
+                                             node_t* dst,
+                                             node_t* src,
+                                             bitmap_t bit,
+                                             count_t voffset,
+                                             node_t* node)
     {
         IMMER_ASSERT_TAGGED(src->kind() == kind_t::inner);
         assert(!(src->nodemap() & bit));
@@ -638,7 +658,6 @@ struct node
         assert(voffset == src->data_count(bit));
         auto n                         = src->children_count();
         auto nv                        = src->data_count();
-        auto dst                       = make_inner_n(n + 1, nv - 1);
         auto noffset                   = src->children_count(bit);
         dst->impl.d.data.inner.datamap = src->datamap() & ~bit;
         dst->impl.d.data.inner.nodemap = src->nodemap() | bit;
@@ -667,7 +686,7 @@ struct node
                 }
             }
             IMMER_CATCH (...) {
-                deallocate_inner(dst, n + 1, nv - 1);
+                deallocate_inner_replace_merged(dst, src);
                 IMMER_RETHROW;
             }
         }
@@ -1008,35 +1027,44 @@ struct node
         }
     }
 
+    // `v2` is not moved from when this fails to allocate.
+    template <typename U>
     static node_t* make_merged_e(
-        edit_t e, shift_t shift, T v1, hash_t hash1, T v2, hash_t hash2)
+        edit_t e, shift_t shift, T v1, hash_t hash1, U&& v2, hash_t hash2)
     {
-        if (shift < max_shift<B>) {
-            auto idx1 = hash1 & (mask<B> << shift);
-            auto idx2 = hash2 & (mask<B> << shift);
-            if (idx1 == idx2) {
-                auto merged = make_merged_e(
-                    e, shift + B, std::move(v1), hash1, std::move(v2), hash2);
-                IMMER_TRY {
-                    return owned(
-                        make_inner_n(
-                            1, static_cast<count_t>(idx1 >> shift), merged),
-                        e);
+        auto result = static_cast<node_t*>(nullptr);
+        auto link   = &result;
+        IMMER_TRY {
+            for (;; shift += B) {
+                if (shift == max_shift<B>) {
+                    *link = owned(
+                        make_collision(std::move(v1), std::forward<U>(v2)), e);
+                    return result;
                 }
-                IMMER_CATCH (...) {
-                    delete_deep_shift(merged, shift + B);
-                    IMMER_RETHROW;
+                auto idx1 =
+                    static_cast<count_t>((hash1 & (mask<B> << shift)) >> shift);
+                auto idx2 =
+                    static_cast<count_t>((hash2 & (mask<B> << shift)) >> shift);
+                if (idx1 != idx2) {
+                    *link = owned_values(make_inner_n(0,
+                                                      idx1,
+                                                      std::move(v1),
+                                                      idx2,
+                                                      std::forward<U>(v2)),
+                                         e);
+                    return result;
                 }
-            } else {
-                auto r = make_inner_n(0,
-                                      static_cast<count_t>(idx1 >> shift),
-                                      std::move(v1),
-                                      static_cast<count_t>(idx2 >> shift),
-                                      std::move(v2));
-                return owned_values(r, e);
+                *link = owned(make_inner_n(1, idx1, static_cast<node_t*>(nullptr)), e);
+                link  = (*link)->children();
             }
-        } else {
-            return owned(make_collision(std::move(v1), std::move(v2)), e);
+        }
+        IMMER_CATCH (...) {
+            while (result) {
+                auto child = result->children()[0];
+                deallocate_inner(result, 1);
+                result = child;
+            }
+            IMMER_RETHROW;
         }
     }
 
-- 
2.43.0


From 0088b39771dc6d6026afe8bc1a9e530dd83f5042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 12/21] fix: let the collector see the owner tokens that
 relaxed nodes hold

---
 immer/detail/rbts/node.hpp       | 4 ++--
 immer/detail/rbts/operations.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/immer/detail/rbts/node.hpp b/immer/detail/rbts/node.hpp
index ee6a25c..222a872 100644
--- a/immer/detail/rbts/node.hpp
+++ b/immer/detail/rbts/node.hpp
@@ -238,7 +238,7 @@ struct node
             mr = reinterpret_cast<unsigned char*>(mp) + sizeof_inner_n(n);
         } else {
             IMMER_TRY {
-                mr = heap::allocate(sizeof_relaxed_n(n), norefs_tag{});
+                mr = heap::allocate(sizeof_relaxed_n(n));
             }
             IMMER_CATCH (...) {
                 heap::deallocate(sizeof_inner_r_n(n), mp);
@@ -280,7 +280,7 @@ struct node
             mr = reinterpret_cast<unsigned char*>(mp) + max_sizeof_inner;
         } else {
             IMMER_TRY {
-                mr = heap::allocate(max_sizeof_relaxed, norefs_tag{});
+                mr = heap::allocate(max_sizeof_relaxed);
             }
             IMMER_CATCH (...) {
                 heap::deallocate(max_sizeof_inner_r, mp);
diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index 51c0394..f12478a 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -1347,8 +1347,8 @@ struct slice_left_mut_visitor
             auto newcount = count - idx;
             auto newn =
                 mutate ? (node->impl.d.data.inner.relaxed = new (
-                              node_t::heap::allocate(node_t::max_sizeof_relaxed,
-                                                     norefs_tag{})) relaxed_t,
+                              node_t::heap::allocate(
+                                  node_t::max_sizeof_relaxed)) relaxed_t,
                           node)
                        : node_t::make_inner_r_e(e);
             auto newr = newn->relaxed();
-- 
2.43.0


From 43ede8e0a8d45e32b67e470b82aadc1bc7f5e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 13/21] fix: index and update trees of more than six levels

---
 immer/config.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/config.hpp b/immer/config.hpp
index af34e5f..1808895 100644
--- a/immer/config.hpp
+++ b/immer/config.hpp
@@ -111,7 +111,7 @@
 // #define IMMER_PREFETCH(p)    __builtin_prefetch(p)
 #endif
 
-#define IMMER_DESCENT_DEEP 0
+#define IMMER_DESCENT_DEEP 1
 
 #ifndef IMMER_ENABLE_DEBUG_SIZE_HEAP
 #ifdef NDEBUG
-- 
2.43.0


From 4a8e01988e61b9dd1be5b1b48a89487b6fc34232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 14/21] fix: look at all branches of a node when checking a
 champ with 64 of them

---
 immer/detail/hamts/champ.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/detail/hamts/champ.hpp b/immer/detail/hamts/champ.hpp
index 21247ea..0838515 100644
--- a/immer/detail/hamts/champ.hpp
+++ b/immer/detail/hamts/champ.hpp
@@ -205,7 +205,7 @@ struct champ
             if (nodemap) {
                 auto fst = node->children();
                 for (auto idx = std::size_t{}; idx < branches<B>; ++idx) {
-                    if (nodemap & (1 << idx)) {
+                    if (nodemap & (bitmap_t{1u} << idx)) {
                         auto child = *fst++;
                         result +=
                             do_check_champ(child,
@@ -219,7 +219,7 @@ struct champ
             if (datamap) {
                 auto fst = node->values();
                 for (auto idx = std::size_t{}; idx < branches<B>; ++idx) {
-                    if (datamap & (1 << idx)) {
+                    if (datamap & (bitmap_t{1u} << idx)) {
                         auto hash  = Hash{}(*fst++);
                         auto check = (hash & hash_mask) ==
                                      (path_hash | (idx << (B * depth)));
-- 
2.43.0


From 8bbab8214c9fc46539cfcb49c0894d702139fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 15/21] fix: slice sequences of more than 2^32 elements

---
 immer/detail/rbts/position.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/detail/rbts/position.hpp b/immer/detail/rbts/position.hpp
index cbdd1c2..3fc600d 100644
--- a/immer/detail/rbts/position.hpp
+++ b/immer/detail/rbts/position.hpp
@@ -654,7 +654,7 @@ decltype(auto) towards_sub_oh_regular(
     assert(offset_hint == p.index(idx));
     auto is_leaf = p.shift() == BL;
     auto child   = p.node()->inner()[offset_hint];
-    auto lsize   = offset_hint << p.shift();
+    auto lsize   = size_t{offset_hint} << p.shift();
     auto size    = p.this_size();
     auto is_full = (size - lsize) >= (size_t{1} << p.shift());
     return is_full
@@ -870,7 +870,7 @@ struct regular_sub_pos
     void each_right_sub_(Visitor v, count_t i, Args&&... args)
     {
         auto last  = count() - 1;
-        auto lsize = size_ - (last << shift_);
+        auto lsize = size_ - (size_t{last} << shift_);
         auto n     = node()->inner() + i;
         auto e     = node()->inner() + last;
         if (shift() == BL) {
-- 
2.43.0


From 3eb7aae8bec52e8b9ce29ba36364169991f5962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 16/21] fix: own the array copied by a transient's set()

with_capacity::assoc_mut() left the copy it makes without the owner token,
so with gc_transience_policy every set() on an array_transient copied the
whole array again, while all other in-place operations own their copy.
---
 immer/detail/arrays/with_capacity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index 1351dea..4a697f6 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -244,7 +244,7 @@ struct with_capacity
         if (ptr->can_mutate(e)) {
             data()[idx] = std::move(value);
         } else {
-            auto p = node_t::copy_n(capacity, ptr, size);
+            auto p = node_t::copy_e(e, capacity, ptr, size);
             IMMER_TRY {
                 p->data()[idx] = std::move(value);
                 *this          = {p, size, capacity};
-- 
2.43.0


From 11578824b0365166d97f145d3f157d5f1b8ed877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 17/21] fix: find the right subtree when a dvektor grows away
 from its focus

---
 immer/experimental/detail/dvektor_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/immer/experimental/detail/dvektor_impl.hpp b/immer/experimental/detail/dvektor_impl.hpp
index 7a21f1f..e2a2583 100644
--- a/immer/experimental/detail/dvektor_impl.hpp
+++ b/immer/experimental/detail/dvektor_impl.hpp
@@ -275,6 +275,7 @@ struct ref
                                 ->inner()[(new_index >> shift) & mask<B>];
                 display[display_idx] =
                     node ? std::move(node) : make_node(inner_t{});
+                shift -= B;
             }
             display[0] = make_node(leaf_t{});
         }
-- 
2.43.0


From ac943409b57a3f14a88b05f826f58918e7f42a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 18/21] fix: let dvektor iterators reach the end of full leaves
 and of nothing

---
 immer/experimental/detail/dvektor_impl.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/immer/experimental/detail/dvektor_impl.hpp b/immer/experimental/detail/dvektor_impl.hpp
index e2a2583..e458ee2 100644
--- a/immer/experimental/detail/dvektor_impl.hpp
+++ b/immer/experimental/detail/dvektor_impl.hpp
@@ -420,9 +420,12 @@ struct iterator
 
     iterator(const impl<T, B, MP>& v)
         : p_{v.p}
+        , size_{v.size}
         , i_{0}
         , base_{0}
     {
+        if (!size_)
+            return;
         if (v.dirty)
             p_.stabilize(v.focus);
         p_.goto_pos(0, 0 ^ v.focus);
@@ -431,9 +434,12 @@ struct iterator
 
     iterator(const impl<T, B, MP>& v, end_t)
         : p_{v.p}
+        , size_{v.size}
         , i_{v.size}
-        , base_{(v.size - 1) & ~mask<B>}
+        , base_{v.size ? (v.size - 1) & ~mask<B> : 0}
     {
+        if (!size_)
+            return;
         if (v.dirty)
             p_.stabilize(v.focus);
         p_.goto_pos(base_, base_ ^ v.focus);
@@ -445,14 +451,15 @@ private:
     using leaf_iterator = typename leaf_node<T, B>::const_iterator;
 
     ref<T, B, MP> p_;
+    std::size_t size_;
     std::size_t i_;
     std::size_t base_;
-    leaf_iterator curr_;
+    leaf_iterator curr_{};
 
     void increment()
     {
         ++i_;
-        if (i_ - base_ < branches<B>) {
+        if (i_ - base_ < branches<B> || i_ == size_) {
             ++curr_;
         } else {
             auto new_base = base_ + branches<B>;
@@ -479,10 +486,10 @@ private:
     void advance(std::ptrdiff_t n)
     {
         i_ += n;
-        if (i_ <= base_ && i_ - base_ < branches<B>) {
+        if (i_ >= base_ && i_ - base_ < branches<B>) {
             curr_ += n;
         } else {
-            auto new_base = i_ & ~mask<B>;
+            auto new_base = (i_ < size_ ? i_ : i_ - 1) & ~mask<B>;
             p_.goto_pos(new_base, base_ ^ new_base);
             base_ = new_base;
             curr_ = p_.display[0]->leaf().begin() + (i_ - base_);
-- 
2.43.0


From 25d10711364cfd70de589ad0e501fffdc913cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:47 +0000
Subject: [PATCH 19/21] fix: let exceptions of a range's iterators out of array
 constructors

---
 immer/detail/util.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/immer/detail/util.hpp b/immer/detail/util.hpp
index f1af9d0..801e8f2 100644
--- a/immer/detail/util.hpp
+++ b/immer/detail/util.hpp
@@ -143,13 +143,23 @@ auto uninitialized_move(Iter1 first, Iter1 last, Iter2 out)
     }
 }
 
-template <typename SourceIter, typename Sent, typename SinkIter>
-auto uninitialized_copy(SourceIter first, Sent last, SinkIter out) noexcept
+template <typename SourceIter, typename SinkIter>
+auto uninitialized_copy(SourceIter first, SourceIter last, SinkIter out)
     -> std::enable_if_t<can_trivially_copy<SourceIter, SinkIter>, SinkIter>
 {
     return std::copy(first, last, out);
 }
 template <typename SourceIter, typename Sent, typename SinkIter>
+auto uninitialized_copy(SourceIter first, Sent last, SinkIter out)
+    -> std::enable_if_t<can_trivially_copy<SourceIter, SinkIter> &&
+                            !std::is_same<SourceIter, Sent>::value,
+                        SinkIter>
+{
+    for (; first != last; ++first, (void) ++out)
+        *out = *first;
+    return out;
+}
+template <typename SourceIter, typename Sent, typename SinkIter>
 auto uninitialized_copy(SourceIter first, Sent last, SinkIter out)
     -> std::enable_if_t<!can_trivially_copy<SourceIter, SinkIter>, SinkIter>
 {
-- 
2.43.0


From 06b666ac85488778bb950e4f3475d69307d08288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:47 +0000
Subject: [PATCH 20/21] fix: give a copy of an object its own intrusive
 reference count

---
 immer/refcount/enable_intrusive_ptr.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/immer/refcount/enable_intrusive_ptr.hpp b/immer/refcount/enable_intrusive_ptr.hpp
index 1185a21..d5de0fa 100644
--- a/immer/refcount/enable_intrusive_ptr.hpp
+++ b/immer/refcount/enable_intrusive_ptr.hpp
@@ -22,6 +22,15 @@ public:
         : refcount_data_{disowned{}}
     {}
 
+    // the references to another object are not references to this one
+    enable_intrusive_ptr(const enable_intrusive_ptr&)
+        : enable_intrusive_ptr{}
+    {}
+    enable_intrusive_ptr& operator=(const enable_intrusive_ptr&)
+    {
+        return *this;
+    }
+
     friend void intrusive_ptr_add_ref(const Deriv* x)
     {
         x->refcount_data_.inc();
-- 
2.43.0


From 1dbe3e81dd17b95ff2be4147c21e9cb97971df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 21/21] fix: vector::max_size() was 0 when whole levels use up
 all bits of a size

---
 immer/detail/rbts/rbtree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/immer/detail/rbts/rbtree.hpp b/immer/detail/rbts/rbtree.hpp
index c8fa425..14a7528 100644
--- a/immer/detail/rbts/rbtree.hpp
+++ b/immer/detail/rbts/rbtree.hpp
@@ -15,6 +15,7 @@
 #include <immer/detail/type_traits.hpp>
 
 #include <cassert>
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <stdexcept>
@@ -38,7 +39,10 @@ struct rbtree
     constexpr static size_t max_size()
     {
         auto S = sizeof(size_t) * 8;
-        return (size_t{1} << BL) * ipow(size_t{1} << B, (S - BL) / B);
+        // when whole levels use up all of the bits, every size is possible
+        return (S - BL) % B == 0
+                   ? std::numeric_limits<size_t>::max()
+                   : (size_t{1} << BL) * ipow(size_t{1} << B, (S - BL) / B);
     }
 
     static node_t* empty_root()
-- 
2.43.0

