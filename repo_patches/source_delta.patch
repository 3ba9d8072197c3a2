From 02d29139320d3a2a2ff1844dd363d61f9aa3f1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:39 +0000
Subject: [PATCH 001/178] fix: SegmentTree::max_right/min_left must call e()
 (they did not compile)

---
 library/datastructure/segment_tree/segment_tree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/segment_tree/segment_tree.hpp b/library/datastructure/segment_tree/segment_tree.hpp
index d5568f9..2898f7a 100644
--- a/library/datastructure/segment_tree/segment_tree.hpp
+++ b/library/datastructure/segment_tree/segment_tree.hpp
@@ -50,10 +50,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int max_right(int l, const Pred &f) const {
             assert(0 <= l and l <= n);
-            assert(f(e));
+            assert(f(e()));
             if (l == n) return n;
             l += m;
-            T sum_l = e;
+            T sum_l = e();
             do {
                 while (l % 2 == 0) l >>= 1;
                 if (not f(op(sum_l, data[l]))) {
@@ -74,10 +74,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int min_left(int r, const Pred &f) const {
             assert(0 <= r && r <= n);
-            assert(f(e));
+            assert(f(e()));
             if (r == 0) return 0;
             r += m;
-            T sum_r = e;
+            T sum_r = e();
             do {
                 r--;
                 while (r > 1 && (r % 2)) r >>= 1;
-- 
2.43.0


From de99d061dac474d568121dd4a5190794ebdfba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:39 +0000
Subject: [PATCH 002/178] fix: multi-dimensional CompressedSegmentTree::set
 lost other points with the same trailing coordinates

---
 .../segment_tree/compressed_segment_tree.hpp       | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/compressed_segment_tree.hpp b/library/datastructure/segment_tree/compressed_segment_tree.hpp
index 36b7ea5..1db8fef 100644
--- a/library/datastructure/segment_tree/compressed_segment_tree.hpp
+++ b/library/datastructure/segment_tree/compressed_segment_tree.hpp
@@ -18,6 +18,7 @@ namespace suisen {
                 return xs.size();
             }
             int operator()(const value_type& x) const { return std::lower_bound(xs.begin(), xs.end(), x) - xs.begin(); }
+            bool contains(const value_type& x) const { return std::binary_search(xs.begin(), xs.end(), x); }
         private:
             std::vector<value_type> xs;
         };
@@ -60,8 +61,15 @@ namespace suisen {
         value_type get(const point_type& p) const {
             return data[comp(p[0]) + n].get(tail(p));
         }
+        // returns e() if the point p is not registered
+        value_type get_or_identity(const point_type& p) const {
+            return comp.contains(p[0]) ? data[comp(p[0]) + n].get_or_identity(tail(p)) : e();
+        }
         void set(const point_type& p, const value_type& val) {
-            for (int i = comp(p[0]) + n; i; i >>= 1) data[i].set(tail(p), val);
+            const auto q = tail(p);
+            int i = comp(p[0]) + n;
+            data[i].set(q, val);
+            while (i >>= 1) data[i].set(q, op(data[2 * i + 0].get_or_identity(q), data[2 * i + 1].get_or_identity(q)));
         }
         void apply(const point_type& p, const value_type& val) {
             for (int i = comp(p[0]) + n; i; i >>= 1) data[i].apply(tail(p), val);
@@ -112,6 +120,10 @@ namespace suisen {
         value_type get(const point_type &i) const {
             return data[comp(i) + n];
         }
+        // returns e() if the point i is not registered
+        value_type get_or_identity(const point_type &i) const {
+            return comp.contains(i) ? get(i) : e();
+        }
 
         void set(const point_type& p, const value_type& val) {
             int i = comp(p) + n;
-- 
2.43.0


From 729f14ab88f1b50fcd9ff21070fe75b81eee6780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:41 +0000
Subject: [PATCH 003/178] fix: LazySegmentTree::suffix_prod aborted unless n
 was a power of two

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 0e0fab6..90af0f9 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -44,7 +44,7 @@ namespace suisen {
 
         value_type prod(int l, int r) { return (*this)(l, r); }
         value_type prefix_prod(int r) { return (*this)(0, r); }
-        value_type suffix_prod(int l) { return (*this)(l, m); }
+        value_type suffix_prod(int l) { return (*this)(l, n); }
         value_type all_prod() const { return data[1]; }
 
         auto operator[](int p) {
-- 
2.43.0


From da70a00e7c46210b9d684d5b806d6aaafc8ca723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:41 +0000
Subject: [PATCH 004/178] fix: RangeSetRangeComposite(n, val) aborted because
 its position set had no room

---
 library/range_query/range_set_range_composite.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/library/range_query/range_set_range_composite.hpp b/library/range_query/range_set_range_composite.hpp
index 91f1193..a40bdab 100644
--- a/library/range_query/range_set_range_composite.hpp
+++ b/library/range_query/range_set_range_composite.hpp
@@ -9,9 +9,11 @@ namespace suisen {
     template <typename T, T(*op)(T, T), T(*e)()>
     struct RangeSetRangeComposite {
         RangeSetRangeComposite() : RangeSetRangeComposite(0) {}
-        explicit RangeSetRangeComposite(int n, T val = e()) : _n(n), _seg(std::vector(_n, e())), _vs(n, e()) {
-            _pos.insert(0), _vs[0] = val;
-            _seg.set(0, _pow(0, n));
+        explicit RangeSetRangeComposite(int n, T val = e()) : _n(n), _seg(std::vector(_n, e())), _vs(n, e()), _pos(n + 1) {
+            if (n) {
+                _pos.insert(0), _vs[0] = val;
+                _seg.set(0, _pow(0, n));
+            }
             _pos.insert(_n);
         }
         explicit RangeSetRangeComposite(const std::vector<T>& a) : _n(a.size()), _seg(a), _vs(a), _pos(_n + 1, true) {}
-- 
2.43.0


From 27f90987e207b3a8948626eb8852f7f69d128ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:41 +0000
Subject: [PATCH 005/178] fix: fenwick_tree_set::max_leq read out of bounds
 when the universe is empty

---
 library/datastructure/fenwick_tree/fenwick_tree_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
index 63dad3e..82ad048 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
@@ -127,8 +127,8 @@ namespace suisen {
         // O(log n).
         // Max element <= `v` or `-1` if not exists
         int max_leq(int v) const {
-            if (v < 0) return -1;
             v = std::min(v, _n - 1);
+            if (v < 0) return -1;
             const auto [t, u] = index(v);
             const int lz = (WORD - 1) - u;
             if (const uint64_t bits = _bs[t] << lz >> lz) {
-- 
2.43.0


From 2c78a269b367fa3c67f307b77020b22658c2e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:41 +0000
Subject: [PATCH 006/178] fix: SortableSegmentTree::pop_front/pop_back did not
 return the erased entry

---
 library/datastructure/segment_tree/sortable_segment_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 6fd6590..45be4fd 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -665,8 +665,8 @@ namespace suisen {
             outer_node::dealloc_node(tm);
             return res;
         }
-        std::pair<key_type, value_type> pop_front() { erase(0); }
-        std::pair<key_type, value_type> pop_back() { erase(size() - 1); }
+        std::pair<key_type, value_type> pop_front() { return erase(0); }
+        std::pair<key_type, value_type> pop_back() { return erase(size() - 1); }
 
         SortableSegmentTree split(size_type i) {
             assert(0 <= i and i <= size());
-- 
2.43.0


From c04f7316321f3365e15baedf025b79b4600f3dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:41 +0000
Subject: [PATCH 007/178] fix: SortableSegmentTree::concat did not compile, and
 copies shared (and freed twice) their nodes

---
 .../segment_tree/sortable_segment_tree.hpp            | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 45be4fd..346a11a 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -610,6 +610,15 @@ namespace suisen {
         SortableSegmentTree() : SortableSegmentTree(nullptr) {}
         SortableSegmentTree(const std::vector<std::pair<key_type, value_type>>& dat) : SortableSegmentTree(outer_node::build(dat)) {}
 
+        // Each tree owns its nodes.
+        SortableSegmentTree(const SortableSegmentTree&) = delete;
+        SortableSegmentTree& operator=(const SortableSegmentTree&) = delete;
+        SortableSegmentTree(SortableSegmentTree&& other) : _root(std::exchange(other._root, nullptr)) {}
+        SortableSegmentTree& operator=(SortableSegmentTree&& other) {
+            std::swap(_root, other._root);
+            return *this;
+        }
+
         ~SortableSegmentTree() {
             outer_node::dealloc_all(_root);
         }
@@ -675,7 +684,7 @@ namespace suisen {
             return SortableSegmentTree{ root_r };
         }
         void concat(SortableSegmentTree tr) {
-            _root = outer_node::concat(_root, tr->_root);
+            _root = outer_node::concat(_root, std::exchange(tr._root, nullptr));
         }
 
         value_type prod(size_type l, size_type r) {
-- 
2.43.0


From adf6f09d29a3365a6c0704e0ed7a153339db42c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:42 +0000
Subject: [PATCH 008/178] fix: SortableSegmentTree::max_right/min_left walked
 descending blocks in the wrong direction

---
 .../segment_tree/sortable_segment_tree.hpp    | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 346a11a..a3ed49a 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -242,39 +242,41 @@ namespace suisen {
             }
 
             template <typename Predicate, std::enable_if_t<std::is_invocable_r_v<bool, Predicate, value_type>, std::nullptr_t> = nullptr>
-            static std::pair<size_type, value_type> max_right(inner_node_pointer t, const Predicate& f, const value_type& init_sum = e()) {
+            static std::pair<size_type, value_type> max_right(inner_node_pointer t, bool rev, const Predicate& f, const value_type& init_sum = e()) {
                 size_type r = 0;
                 value_type s = init_sum;
                 while (t) {
-                    if (value_type nxt_s = op(s, safe_sum(child0(t))); f(nxt_s)) {
+                    const inner_node_pointer tl = rev ? child1(t) : child0(t), tr = rev ? child0(t) : child1(t);
+                    if (value_type nxt_s = op(s, rev ? toggle(safe_sum(tl)) : safe_sum(tl)); f(nxt_s)) {
                         s = std::move(nxt_s);
-                        r += safe_size(child0(t));
-                        if (nxt_s = op(s, value(t)); f(nxt_s)) {
+                        r += safe_size(tl);
+                        if (nxt_s = op(s, rev ? toggle(value(t)) : value(t)); f(nxt_s)) {
                             s = std::move(nxt_s);
                             r += 1;
-                            t = child1(t);
+                            t = tr;
                         } else break;
                     } else {
-                        t = child0(t);
+                        t = tl;
                     }
                 }
                 return { r, s };
             }
             template <typename Predicate, std::enable_if_t<std::is_invocable_r_v<bool, Predicate, value_type>, std::nullptr_t> = nullptr>
-            static std::pair<size_type, value_type> min_left(inner_node_pointer t, const Predicate& f, const value_type& init_sum = e()) {
+            static std::pair<size_type, value_type> min_left(inner_node_pointer t, bool rev, const Predicate& f, const value_type& init_sum = e()) {
                 size_type l = safe_size(t);
                 value_type s = init_sum;
                 while (t) {
-                    if (value_type nxt_s = op(safe_sum(child1(t)), s); f(nxt_s)) {
+                    const inner_node_pointer tl = rev ? child1(t) : child0(t), tr = rev ? child0(t) : child1(t);
+                    if (value_type nxt_s = op(rev ? toggle(safe_sum(tr)) : safe_sum(tr), s); f(nxt_s)) {
                         s = std::move(nxt_s);
-                        l -= safe_size(child1(t));
-                        if (nxt_s = op(value(t), s); f(nxt_s)) {
+                        l -= safe_size(tr);
+                        if (nxt_s = op(rev ? toggle(value(t)) : value(t), s); f(nxt_s)) {
                             s = std::move(nxt_s);
                             l -= 1;
-                            t = child0(t);
+                            t = tl;
                         } else break;
                     } else {
-                        t = child1(t);
+                        t = tr;
                     }
                 }
                 return { l, s };
@@ -541,7 +543,7 @@ namespace suisen {
                             t = child1(t);
                         } else {
                             size_type r_inner;
-                            std::tie(r_inner, s) = inner_node::max_right(inner(t), f, s);
+                            std::tie(r_inner, s) = inner_node::max_right(inner(t), reversed(t), f, s);
                             r += r_inner;
                             break;
                         }
@@ -572,7 +574,7 @@ namespace suisen {
                             t = child0(t);
                         } else {
                             size_type l_inner;
-                            std::tie(l_inner, s) = inner_node::min_left(inner(t), f, s);
+                            std::tie(l_inner, s) = inner_node::min_left(inner(t), reversed(t), f, s);
                             l -= inner_size(t) - l_inner;
                             break;
                         }
-- 
2.43.0


From 948dae802a522570cdef32af178fcb12ad19899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:41 +0000
Subject: [PATCH 009/178] fix: LazySegmentTree::min_left pushed the nodes of r
 instead of r - 1 (out of bounds at r == n)

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 90af0f9..611fef0 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -86,7 +86,7 @@ namespace suisen {
             assert(g(e()));
             if (r == 0) return 0;
             r += m;
-            for (int i = lg; i >= 1; --i) push(r >> i);
+            for (int i = lg; i >= 1; --i) push((r - 1) >> i);
             value_type sum = e();
             do {
                 r--;
-- 
2.43.0


From 4f3c1ec671af6c1a614142c74562981fbc3c1e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:16 +0000
Subject: [PATCH 010/178] fix: RedBlackTree set did not compile (its updater
 takes no argument)

---
 library/datastructure/bbst/red_black_tree_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 3e51775..7178e2b 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -119,7 +119,7 @@ namespace suisen::bbst::internal {
             return merge(merge(tl, top), tr);
         }
         static tree_type set(tree_type node, size_type k, value_type val) {
-            return update_value(node, k, [&val]{ return val; });
+            return update_value(node, k, [&val](const value_type&) { return val; });
         }
         static std::pair<tree_type, value_type> get(tree_type node, size_type k) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
-- 
2.43.0


From af7d7ab05a20631f4a616f735be1b2deb62e24af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:24 +0000
Subject: [PATCH 011/178] fix: persistent red-black trees modified nodes shared
 with earlier versions

---
 .../datastructure/bbst/red_black_tree_base.hpp    | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 7178e2b..e3543df 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -45,7 +45,8 @@ namespace suisen::bbst::internal {
                 tree_type c = l->_ch[1] = merge<false>(l->_ch[1], r);
                 if (l->_col == BLACK and c->_col == RED and color(c->_ch[1]) == RED) {
                     std::swap(l->_col, c->_col);
-                    if (std::exchange(l->_ch[0]->_col, BLACK) == BLACK) return rotate(l, 1);
+                    if (l->_ch[0]->_col == BLACK) return rotate(l, 1);
+                    l->_ch[0] = node_type::clone(l->_ch[0]), l->_ch[0]->_col = BLACK;
                 }
                 res = node_type::update(l);
             } else if (hr > hl) {
@@ -53,7 +54,8 @@ namespace suisen::bbst::internal {
                 tree_type c = r->_ch[0] = merge<false>(l, r->_ch[0]);
                 if (r->_col == BLACK and c->_col == RED and color(c->_ch[0]) == RED) {
                     std::swap(r->_col, c->_col);
-                    if (std::exchange(r->_ch[1]->_col, BLACK) == BLACK) return rotate(r, 0);
+                    if (r->_ch[1]->_col == BLACK) return rotate(r, 0);
+                    r->_ch[1] = node_type::clone(r->_ch[1]), r->_ch[1]->_col = BLACK;
                 }
                 res = node_type::update(r);
             } else {
@@ -74,8 +76,8 @@ namespace suisen::bbst::internal {
 
             free_node(node);
 
-            if (color(l) == RED) l->_col = BLACK;
-            if (color(r) == RED) r->_col = BLACK;
+            if (color(l) == RED) l = node_type::clone(l), l->_col = BLACK;
+            if (color(r) == RED) r = node_type::clone(r), r->_col = BLACK;
 
             size_type szl = size(l);
             tree_type m;
@@ -106,7 +108,7 @@ namespace suisen::bbst::internal {
         static std::pair<tree_type, value_type> erase(tree_type node, size_type k) {
             auto [tl, tm, tr] = split_range(node, k, k + 1);
             value_type erased_value = tm->_val;
-            free_node(tm);
+            free_node(node_type::clone(tm));
             return { merge(tl, tr) , erased_value };
         }
         static std::pair<tree_type, value_type> pop_front(tree_type node) { return erase(node, 0); }
@@ -115,6 +117,7 @@ namespace suisen::bbst::internal {
         template <typename Fun>
         static tree_type update_value(tree_type node, size_type k, Fun &&fun) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
+            top = node_type::clone(top);
             top->_val = fun(top->_val);
             return merge(merge(tl, top), tr);
         }
@@ -223,7 +226,7 @@ namespace suisen::bbst::internal {
             return node;
         }
         static tree_type push(tree_type node) {
-            return node;
+            return node_type::clone(node);
         }
 
         static tree_type rotate(tree_type node, int index) {
-- 
2.43.0


From 3e41a9ab37c44f756ffa4e47def19c55e9f5fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:24 +0000
Subject: [PATCH 012/178] fix: PersistentArray::dump repeated the first element

---
 library/datastructure/persistent_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/persistent_array.hpp b/library/datastructure/persistent_array.hpp
index 7be4f0f..3c7b31c 100644
--- a/library/datastructure/persistent_array.hpp
+++ b/library/datastructure/persistent_array.hpp
@@ -59,7 +59,7 @@ namespace suisen {
                 std::vector<value_type> res;
                 auto dfs = [&](auto dfs, node_pointer_type cur, int id, int p) -> void {
                     if (int(res.size()) <= id) res.resize(id + 1);
-                    res[id] = node->_val;
+                    res[id] = cur->_val;
                     int np = p << lg_ary, nid = id + p;
                     for (int d = 1; d < 1 << lg_ary; ++d, nid += p) {
                         if (cur->_ch[d]) dfs(dfs, cur->_ch[d], nid, np);
-- 
2.43.0


From 5c1a6aca70f777b50910daa82ce9df68d8162360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:24 +0000
Subject: [PATCH 013/178] fix: PersistentFenwickTree ignored its initial values

---
 library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
index e6335f7..3ad98b2 100644
--- a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
@@ -40,6 +40,7 @@ namespace suisen {
                     return res;
                 };
                 node_pointer_type res = rec(rec, p, p);
+                for (int i = 1; i <= n; ++i) nodes[i]->_dat = dat[i - 1];
                 for (int i = 1; i <= n; ++i) {
                     int par = i + (i & -i);
                     if (par <= n) nodes[par]->_dat += nodes[i]->_dat;
-- 
2.43.0


From e1c868633857c74d4a79b654c2f2aa7e2ce68f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:24 +0000
Subject: [PATCH 014/178] fix: PersistentUnionFind path compression changed
 entries shared with other versions

---
 .../datastructure/union_find/persistent_union_find.hpp    | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/library/datastructure/union_find/persistent_union_find.hpp b/library/datastructure/union_find/persistent_union_find.hpp
index 6e6539d..6d5c020 100644
--- a/library/datastructure/union_find/persistent_union_find.hpp
+++ b/library/datastructure/union_find/persistent_union_find.hpp
@@ -19,12 +19,8 @@ namespace suisen {
 
         // Get the root of `x`. equivalent to `operator[](x)`
         int root(int x) {
-            static std::vector<int> buf;
-            while (true) {
-                if (int r = _dat.get(x); r >= 0) buf.push_back(std::exchange(x, r));
-                else break;
-            }
-            while (buf.size()) _dat.mut_set(buf.back(), x), buf.pop_back();
+            // no path compression: it would change entries that are shared with other versions
+            for (int r; (r = _dat.get(x)) >= 0;) x = r;
             return x;
         }
         // Get the root of `x`. euivalent to `root(x)`
-- 
2.43.0


From d28455eae9f43661a145c3069dda1c497b9af0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:24 +0000
Subject: [PATCH 015/178] fix: max_right<pred>/min_left<pred> of the persistent
 segment trees were static and did not compile

---
 .../segment_tree/persistent_lazy_segment_tree.hpp             | 4 ++--
 .../datastructure/segment_tree/persistent_segment_tree.hpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 4aea0a9..871fa49 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -260,7 +260,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename Pred>
@@ -269,7 +269,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index b75814b..ec53449 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -210,7 +210,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename F>
@@ -219,7 +219,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
-- 
2.43.0


From 1113f787ba78d38993dacdee223e04b011a67842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:24 +0000
Subject: [PATCH 016/178] fix: PersistentLazySegmentTree::apply(i, f) did not
 compile

---
 .../datastructure/segment_tree/persistent_lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 871fa49..9b315ed 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -247,7 +247,7 @@ namespace suisen {
         template <typename Func>
         PersistentLazySegmentTree apply(int i, Func&& f) {
             assert(0 <= i and i < _n);
-            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<F>(f)));
+            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<Func>(f)));
         }
         PersistentLazySegmentTree set(int i, const value_type& v) {
             assert(0 <= i and i < _n);
-- 
2.43.0


From 880556976db49959329b7362701a1f08f6d80859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:24 +0000
Subject: [PATCH 017/178] fix: PersistentLazySegmentTree::dump emitted inner
 nodes and composed operators in the wrong order

---
 .../segment_tree/persistent_lazy_segment_tree.hpp             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 9b315ed..895fc0c 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -194,8 +194,8 @@ namespace suisen {
                     if (is_leaf(cur)) {
                         *it++ = mapping(f, cur->_dat);
                     } else {
-                        *it++ = mapping(f, cur->_dat);
-                        rec(rec, cur->_ch[0], composition(cur->_laz, f)), rec(rec, cur->_ch[1], composition(cur->_laz, f));
+                        operator_type g = composition(f, cur->_laz);
+                        rec(rec, cur->_ch[0], g), rec(rec, cur->_ch[1], g);
                     }
                 };
                 rec(rec, node, id());
-- 
2.43.0


From a051c144ba885009b795579f74d56e0969b7668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 018/178] fix: persistent segment trees built after
 clear_pool() took stale children for leaves

---
 .../datastructure/segment_tree/persistent_lazy_segment_tree.hpp  | 1 +
 library/datastructure/segment_tree/persistent_segment_tree.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 895fc0c..8d2cd75 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -54,6 +54,7 @@ namespace suisen {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
                     node_pointer_type res = _pool.alloc();
                     if (r - l == 1) {
+                        res->_ch[0] = res->_ch[1] = nullptr; // nodes are reused after clear_pool()
                         res->_dat = dat[l];
                         res->_laz = id();
                     } else {
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index ec53449..73a89cd 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -39,6 +39,7 @@ namespace suisen {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
                     node_pointer_type res = _pool.alloc();
                     if (r - l == 1) {
+                        res->_ch[0] = res->_ch[1] = nullptr; // nodes are reused after clear_pool()
                         res->_dat = dat[l];
                     } else {
                         int m = (l + r) >> 1;
-- 
2.43.0


From 9fcb55deb6bd2b843fda1d11b89360ca32c89f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:34 +0000
Subject: [PATCH 019/178] fix: FenwickTreePrefix(vector) lost elements: parents
 were filled before their children

---
 library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp b/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
index 934baf4..04ff3dc 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
@@ -9,7 +9,7 @@ namespace suisen {
         FenwickTreePrefix() : FenwickTreePrefix(0) {}
         explicit FenwickTreePrefix(int n) : _n(n), _dat(_n + 1, e()) {}
         FenwickTreePrefix(const std::vector<T> &dat) : _n(dat.size()), _dat(_n + 1, e()) {
-            for (int i = _n; i > 0; --i) {
+            for (int i = 1; i <= _n; ++i) {
                 _dat[i] = op(_dat[i], dat[i - 1]);
                 if (int p = i + (-i & i); p <= _n) _dat[p] = op(_dat[p], _dat[i]);
             }
-- 
2.43.0


From 38ca71eaff85d1bfe26a7af203bab237eb924ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:34 +0000
Subject: [PATCH 020/178] fix: MapFenwickTree did not compile and truncated its
 index type to int

---
 .../datastructure/fenwick_tree/fenwick_tree.hpp    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree.hpp b/library/datastructure/fenwick_tree/fenwick_tree.hpp
index 3e39a3d..e3d24fc 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree.hpp
@@ -3,6 +3,7 @@
 
 #include <vector>
 #include <map>
+#include <type_traits>
 #include <unordered_map>
 
 namespace suisen {
@@ -22,9 +23,9 @@ namespace suisen {
             T sum(index_t l, index_t r) const {
                 return sum(r) - sum(l);
             }
-            auto operator[](int i) {
+            auto operator[](index_t i) {
                 struct {
-                    int i;
+                    index_t i;
                     FenwickTreeBase& ft;
                     operator T() const { return ft.sum(i, i + 1); }
                     auto& operator++() { return *this += 1; }
@@ -38,7 +39,7 @@ namespace suisen {
                 } obj{ i, *this };
                 return obj;
             }
-            T operator()(int l, int r) const { return sum(l, r); }
+            T operator()(index_t l, index_t r) const { return sum(l, r); }
 
             Container& get_internal_container() { return data; }
         protected:
@@ -47,9 +48,12 @@ namespace suisen {
             template <typename ...Args>
             FenwickTreeBase(index_t n, Args &&...args) : n(n), data(std::forward<Args>(args)...) {}
         private:
-            T sum(int r) const {
+            T sum(index_t r) const {
                 T s{};
-                for (; r; r -= r & -r) s += data[r - 1];
+                for (; r; r -= r & -r) {
+                    if constexpr (std::is_same_v<Container, std::vector<T>>) s += data[r - 1];
+                    else if (auto it = data.find(r - 1); it != data.end()) s += it->second;
+                }
                 return s;
             }
         };
-- 
2.43.0


From dc11f9a0cdf1c2328efa53c9160142d0fb2b52d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 021/178] fix: five headers shared an include guard with
 another header, so the second one included was dropped

---
 .../datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp   | 6 +++---
 library/datastructure/union_find/union_find_lazy.hpp        | 6 +++---
 library/graph/assignment_problem.hpp                        | 6 +++---
 library/tree/link_cut_tree_path_foldable.hpp                | 6 +++---
 library/tree/rerooting_invertible.hpp                       | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
index 4fedbb8..289fa97 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_SEGMENT_TREE_2D_SPARSE
-#define SUISEN_SEGMENT_TREE_2D_SPARSE
+#ifndef SUISEN_FENWICK_TREE_2D_SPARSE
+#define SUISEN_FENWICK_TREE_2D_SPARSE
 
 #include <algorithm>
 #include <cassert>
@@ -111,4 +111,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_SEGMENT_TREE_2D_SPARSE
+#endif // SUISEN_FENWICK_TREE_2D_SPARSE
diff --git a/library/datastructure/union_find/union_find_lazy.hpp b/library/datastructure/union_find/union_find_lazy.hpp
index fa738d5..8455934 100644
--- a/library/datastructure/union_find/union_find_lazy.hpp
+++ b/library/datastructure/union_find/union_find_lazy.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_UNION_FIND_COMPONENT_SUM
-#define SUISEN_UNION_FIND_COMPONENT_SUM
+#ifndef SUISEN_UNION_FIND_LAZY
+#define SUISEN_UNION_FIND_LAZY
 
 #include "library/datastructure/union_find/linked_union_find.hpp"
 
@@ -91,4 +91,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_UNION_FIND_COMPONENT_SUM
+#endif // SUISEN_UNION_FIND_LAZY
diff --git a/library/graph/assignment_problem.hpp b/library/graph/assignment_problem.hpp
index 3178006..31c2e37 100644
--- a/library/graph/assignment_problem.hpp
+++ b/library/graph/assignment_problem.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_MIN_COST_FLOW
-#define SUISEN_MIN_COST_FLOW
+#ifndef SUISEN_ASSIGNMENT_PROBLEM
+#define SUISEN_ASSIGNMENT_PROBLEM
 
 #include <algorithm>
 #include <cassert>
@@ -149,4 +149,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_MIN_COST_FLOW
+#endif // SUISEN_ASSIGNMENT_PROBLEM
diff --git a/library/tree/link_cut_tree_path_foldable.hpp b/library/tree/link_cut_tree_path_foldable.hpp
index 28f4d36..5d6ebce 100644
--- a/library/tree/link_cut_tree_path_foldable.hpp
+++ b/library/tree/link_cut_tree_path_foldable.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_LINK_CUT_TREE
-#define SUISEN_LINK_CUT_TREE
+#ifndef SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
+#define SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
 
 #include "library/tree/link_cut_tree_base.hpp"
 
@@ -64,4 +64,4 @@ namespace suisen {
     using internal::link_cut_tree::LinkCutTreePathFoldable;
 } // namespace suisen
 
-#endif // SUISEN_LINK_CUT_TREE
+#endif // SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
diff --git a/library/tree/rerooting_invertible.hpp b/library/tree/rerooting_invertible.hpp
index eb4b42f..8e1fe5b 100644
--- a/library/tree/rerooting_invertible.hpp
+++ b/library/tree/rerooting_invertible.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_REROOTING
-#define SUISEN_REROOTING
+#ifndef SUISEN_REROOTING_INVERTIBLE
+#define SUISEN_REROOTING_INVERTIBLE
 
 #include <cassert>
 #include <tuple>
@@ -180,4 +180,4 @@ namespace suisen {
     using RerootingInvertibleWeighted = internal::rerooting::RerootingInvertible<VertexWeight, EdgeWeighted>;
 } // namsepace suisen
 
-#endif // SUISEN_REROOTING
+#endif // SUISEN_REROOTING_INVERTIBLE
-- 
2.43.0


From 90e8a275b70738fe3c5975bc7027bc0c0d6449d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:02 +0000
Subject: [PATCH 022/178] fix: erase_lower_bound/erase_upper_bound of the
 reversible treaps did not compile

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 55c323a..d99fb54 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -340,7 +340,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return not comp(x, v); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
@@ -348,7 +348,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return comp(v, x); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
-- 
2.43.0


From b60b88e041dd781850630bc844a1e0ebfd17997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:21 +0000
Subject: [PATCH 023/178] fix: pushing a reversal in the reversible treaps did
 not toggle the children's products

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index d99fb54..0aeb461 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -74,8 +74,8 @@ namespace suisen::internal::implicit_treap {
         }
         static void push(node_pointer t) { // t : not null
             if (std::exchange(reversed(t), false)) {
-                reverse_all(child0(t));
-                reverse_all(child1(t));
+                node_type::reverse_all(child0(t));
+                node_type::reverse_all(child1(t));
             }
         }
 
-- 
2.43.0


From 93bc618a639d0891365a4d18ab4994e3455d1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:21 +0000
Subject: [PATCH 024/178] fix: erase_binary_search of the reversible treaps
 could erase an element other than the first match

---
 .../bbst/reversible_implicit_treap_base.hpp   | 31 +++----------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 0aeb461..65a864f 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -309,31 +309,10 @@ namespace suisen::internal::implicit_treap {
         // returns { node, optional(position, value) }
         template <typename Predicate, typename RemovePredicate>
         static std::pair<node_pointer, std::optional<std::pair<size_type, value_type>>> erase_binary_search(node_pointer t, const Predicate& f, const RemovePredicate& g) {
-            if (not t) return { empty_node(), std::nullopt };
-            node_type::push(t);
-            if (f(value(t))) {
-                auto [c0, erased] = erase_binary_search(child0(t), f, g);
-                if (erased) {
-                    set_child0(t, c0);
-                    return { node_type::update(t), std::move(erased) };
-                } else if (g(value(t))) {
-                    node_pointer::dealloc(t);
-                    std::pair<size_type, value_type> erased_entry{ safe_size(child0(t)), std::move(value(t)) };
-                    return { merge(child0(t), child1(t)), std::move(erased_entry) };
-                } else {
-                    return { t, std::nullopt };
-                }
-            } else {
-                auto [c1, erased] = erase_binary_search(child1(t), f, g);
-                if (erased) {
-                    set_child1(t, c1);
-                    size_type& pos = erased->first;
-                    pos += safe_size(child0(t)) + 1;
-                    return { node_type::update(t), std::move(erased) };
-                } else {
-                    return { t, std::nullopt };
-                }
-            }
+            const auto [pos, val] = binary_search(t, [&](const value_type& v, int) { return f(v); });
+            if (not (val and g(*val))) return { t, std::nullopt };
+            auto [root, erased] = erase(t, pos);
+            return { root, std::pair<size_type, value_type>{ pos, std::move(erased) } };
         }
         template <typename Compare = std::less<>>
         static std::pair<node_pointer, std::optional<std::pair<size_type, value_type>>> erase_lower_bound(node_pointer t, const value_type& v, Compare comp) {
@@ -477,7 +456,7 @@ namespace suisen::internal::implicit_treap {
             using value_type = ReversibleNode::value_type;
             using pointer = std::conditional_t<constant, ReversibleNode::const_pointer, ReversibleNode::pointer>;
             using reference = std::conditional_t<constant, ReversibleNode::const_reference, ReversibleNode::reference>;
-            using iterator_cateogory = std::random_access_iterator_tag;
+            using iterator_category = std::random_access_iterator_tag;
 
             NodeIterator(): root(empty_node()), index(0) {}
 
-- 
2.43.0


From 60de08b8f85fe893e43a4e04e14c33b6c2fa6820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 025/178] fix: DynamicSequence::reverse_all did not compile

---
 library/datastructure/dynamic_sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/dynamic_sequence.hpp b/library/datastructure/dynamic_sequence.hpp
index 302fad6..8a71d3b 100644
--- a/library/datastructure/dynamic_sequence.hpp
+++ b/library/datastructure/dynamic_sequence.hpp
@@ -209,7 +209,7 @@ struct DynamicSequenceBase {
             root = SplayNode::reverse(root, l, r);
         }
         void reverse_all() {
-            SplayNode::reverese_all(root);
+            SplayNode::reverse_all(root);
         }
     protected:
         mutable node_ptr_t root;
-- 
2.43.0


From 04c3aad4c1c33b8a851b32f01f420962503c3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 026/178] fix: erase_index of the splay tree maps did not
 compile

---
 library/datastructure/lazy_eval_map.hpp      | 2 +-
 library/datastructure/range_foldable_map.hpp | 2 +-
 library/datastructure/splay_tree_map.hpp     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index 8ea8850..c908aec 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -89,7 +89,7 @@ class LazyEvalMap {
             return is_erased;
         }
         void erase_index(int k) {
-            index_bounds_check(k, size() + 1);
+            index_bounds_check(k, size());
             root = Node::erase_index(root, k);
         }
         Val& get_or_create(const Key &key, const Val &val) {
diff --git a/library/datastructure/range_foldable_map.hpp b/library/datastructure/range_foldable_map.hpp
index af42871..53e4a10 100644
--- a/library/datastructure/range_foldable_map.hpp
+++ b/library/datastructure/range_foldable_map.hpp
@@ -83,7 +83,7 @@ class RangeFoldableMap {
             return is_erased;
         }
         void erase_index(int k) {
-            index_bounds_check(k, size() + 1);
+            index_bounds_check(k, size());
             root = Node::erase_index(root, k);
         }
         Val& get_or_create(const Key &key, const Val &val) {
diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 821a5e5..4811151 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -206,7 +206,7 @@ struct MapNodeBase {
         return new_node;
     }
     static node_ptr_t erase_index(node_ptr_t node, int index) {
-        auto [l, r] = split(index ? node : splay(node, 0), index);
+        auto [l, r] = split_by_index(index ? node : splay_by_index(node, 0), index);
         assert(r->ch[0] == nullptr);
         node_ptr_t res = merge(l, r->ch[1]);
         r->ch[1] = nullptr;
@@ -277,7 +277,7 @@ class SplayTreeMap {
             return is_erased;
         }
         void erase_index(int k) {
-            index_bounds_check(k, size() + 1);
+            index_bounds_check(k, size());
             root = Node::erase_index(root, k);
         }
         Val& get_or_create(const Key &key, const Val &val) {
-- 
2.43.0


From f7854bf1d4cce57e9427ad3db05aabdee24da87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 027/178] fix: get_or_default of the splay tree maps did not
 compile

---
 library/datastructure/splay_tree_map.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 4811151..08480e3 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -222,10 +222,9 @@ struct MapNodeBase {
         delete r;
         return { res, true };
     }
-    static Val get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
+    static std::pair<node_ptr_t, Val> get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
         auto [new_root, found] = find_key(node, key);
-        node = new_root;
-        return found ? new_root->val : default_value;
+        return { new_root, found ? new_root->val : default_value };
     }
 };
 
-- 
2.43.0


From 3fa6ac85a516007741ec50a61265391a91b20477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 028/178] fix: operator() of RangeFoldableMap and LazyEvalMap
 did not compile

---
 library/datastructure/lazy_eval_map.hpp      | 2 +-
 library/datastructure/range_foldable_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index c908aec..3c4e603 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -102,7 +102,7 @@ class LazyEvalMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
diff --git a/library/datastructure/range_foldable_map.hpp b/library/datastructure/range_foldable_map.hpp
index 53e4a10..a2292e5 100644
--- a/library/datastructure/range_foldable_map.hpp
+++ b/library/datastructure/range_foldable_map.hpp
@@ -96,7 +96,7 @@ class RangeFoldableMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
-- 
2.43.0


From c776e11aecd2c78a277edd35f9cf630cf92cf73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 029/178] fix: merging two empty SplayTreeMaps or LazyEvalMaps
 aborted

---
 library/datastructure/lazy_eval_map.hpp  | 2 +-
 library/datastructure/splay_tree_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index 3c4e603..d258bf1 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -149,7 +149,7 @@ class LazyEvalMap {
             return LazyEvalMap(r);
         }
         void merge(LazyEvalMap &&r) {
-            assert(root != r.root);
+            assert(root == nullptr or root != r.root);
             root = Node::merge(root, r.root);
             r.root = nullptr;
         }
diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 08480e3..9f5fe83 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -308,7 +308,7 @@ class SplayTreeMap {
             return SplayTreeMap<Key, Val>(r);
         }
         void merge(SplayTreeMap &&r) {
-            assert(root != r.root);
+            assert(root == nullptr or root != r.root);
             root = Node::merge(root, r.root);
             r.root = nullptr;
         }
-- 
2.43.0


From 85d5d8d46683f4ae5330ae439cd964808767afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:43 +0000
Subject: [PATCH 030/178] fix: default-constructed union-finds had an
 indeterminate size

---
 library/datastructure/union_find/union_find.hpp          | 2 +-
 library/datastructure/union_find/weighted_union_find.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/union_find/union_find.hpp b/library/datastructure/union_find/union_find.hpp
index bae3177..5ccb9eb 100644
--- a/library/datastructure/union_find/union_find.hpp
+++ b/library/datastructure/union_find/union_find.hpp
@@ -43,7 +43,7 @@ namespace suisen {
             return res;
         }
     protected:
-        int _n;
+        int _n = 0;
         std::vector<int> _dat;
     };
 } // namespace suisen
diff --git a/library/datastructure/union_find/weighted_union_find.hpp b/library/datastructure/union_find/weighted_union_find.hpp
index eb4a7f8..6a98b8f 100644
--- a/library/datastructure/union_find/weighted_union_find.hpp
+++ b/library/datastructure/union_find/weighted_union_find.hpp
@@ -73,7 +73,7 @@ namespace suisen {
                 return res;
             }
         private:
-            int n;
+            int n = 0;
             std::vector<int> par, siz;
             std::vector<T> value;
 
-- 
2.43.0


From 098b000d13a797b36903c25e97a26488a871c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:43 +0000
Subject: [PATCH 031/178] fix: MergeHistoryForest::merge_simultaneously created
 redundant single-child nodes

---
 library/datastructure/union_find/merge_history_forest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/union_find/merge_history_forest.hpp b/library/datastructure/union_find/merge_history_forest.hpp
index 7f04e9e..867fdbf 100644
--- a/library/datastructure/union_find/merge_history_forest.hpp
+++ b/library/datastructure/union_find/merge_history_forest.hpp
@@ -54,7 +54,7 @@ namespace suisen {
                 _g[r].push_back(c);
                 vs.push_back(r);
             }
-            for (int s : vs) if (s == leader(s)) {
+            for (int s : vs) if (s == leader(s) and _g[s].size()) {
                 const int new_root = create_node();
                 merge_dfs(s, new_root);
                 _root[s] = new_root;
-- 
2.43.0


From 244cc3618c6bc87c56dd76dce42a8548bfb3a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:04 +0000
Subject: [PATCH 032/178] fix: priority queue aliases name the existing binary
 heaps

---
 library/datastructure/priority_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/priority_queue.hpp b/library/datastructure/priority_queue.hpp
index 2a5d2c5..758c1a5 100644
--- a/library/datastructure/priority_queue.hpp
+++ b/library/datastructure/priority_queue.hpp
@@ -5,9 +5,9 @@
 
 namespace suisen {
     template <typename T, typename Comp = std::less<T>>
-    using MinPriorityQueue = suisen::BinaryHeap<T, Comp>;
+    using MinPriorityQueue = suisen::MinBinaryHeap<T, Comp>;
     template <typename T>
-    using MaxPriorityQueue = suisen::BinaryHeap<T, std::greater<T>>;
+    using MaxPriorityQueue = suisen::MaxBinaryHeap<T>;
 } // namespace suisen
 
 
-- 
2.43.0


From 62161bcf7ec6d8595d8452ff8b606626788323e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:04 +0000
Subject: [PATCH 033/178] fix: BinaryHeap::pop accesses an element of the empty
 heap after popping the last one

---
 library/datastructure/heap/binary_heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/heap/binary_heap.hpp b/library/datastructure/heap/binary_heap.hpp
index 26d84b3..af561be 100644
--- a/library/datastructure/heap/binary_heap.hpp
+++ b/library/datastructure/heap/binary_heap.hpp
@@ -66,7 +66,7 @@ namespace suisen {
                 std::swap(_dat.front(), _dat.back());
                 value_type res = std::move(_dat.back());
                 _dat.pop_back();
-                heapify_down(0);
+                if (_dat.size()) heapify_down(0);
                 return res;
             }
 
-- 
2.43.0


From 6655cad75934646888400b9cb773fe1ad5c2109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:04 +0000
Subject: [PATCH 034/178] fix: QueueAggregation iterators do not compile when
 SumType differs from T

---
 library/datastructure/queue_aggregation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/queue_aggregation.hpp b/library/datastructure/queue_aggregation.hpp
index c3988fe..14c9bfe 100644
--- a/library/datastructure/queue_aggregation.hpp
+++ b/library/datastructure/queue_aggregation.hpp
@@ -24,8 +24,8 @@ namespace suisen {
             using iterator_category = std::random_access_iterator_tag;
 
         private:
-            using fi_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_reverse_iterator;
-            using se_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_iterator;
+            using fi_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_reverse_iterator;
+            using se_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_iterator;
         public:
 
             fi_iterator_type it_l;
-- 
2.43.0


From 53f4dc6ae4e338481a2550c61afb2704ef2f4c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:04 +0000
Subject: [PATCH 035/178] fix: SlopeTrick::lines does not compile

---
 library/datastructure/slope_trick.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/slope_trick.hpp b/library/datastructure/slope_trick.hpp
index 0d1a211..90d702e 100644
--- a/library/datastructure/slope_trick.hpp
+++ b/library/datastructure/slope_trick.hpp
@@ -83,7 +83,7 @@ class SlopeTrick {
 
         std::tuple<std::vector<T>, T, std::vector<T>> lines() {
             struct seq_getter_dsc : public pq_dsc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_dsc::c; } };
-            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_asc::c; } };
+            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_asc& pq) { return pq.*&seq_getter_asc::c; } };
             std::vector<T> neg = seq_getter_dsc::get(l);
             std::vector<T> pos = seq_getter_asc::get(r);
             std::sort(neg.begin(), neg.end());
-- 
2.43.0


From 3144ce0f2f479dd38cfd513b41a03e9725ea7411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:55 +0000
Subject: [PATCH 036/178] fix: copies of DoubleEndedPriorityQueue referred to
 the comparator of the original

---
 .../datastructure/double_ended_priority_queue.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/library/datastructure/double_ended_priority_queue.hpp b/library/datastructure/double_ended_priority_queue.hpp
index 797e321..1e1d2b3 100644
--- a/library/datastructure/double_ended_priority_queue.hpp
+++ b/library/datastructure/double_ended_priority_queue.hpp
@@ -39,7 +39,7 @@ namespace suisen {
                 std::push_heap(_max_heap.begin(), _max_heap.end(), _comp);
             } else {
                 _min_heap.push_back(v);
-                std::push_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::push_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             }
         }
         template <typename ...Args>
@@ -64,7 +64,7 @@ namespace suisen {
         }
         value_type pop_min() {
             ensure_min_heap_nonempty();
-            std::pop_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+            std::pop_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             value_type res = std::move(_min_heap.back());
             _min_heap.pop_back();
             return res;
@@ -82,10 +82,9 @@ namespace suisen {
 
     private:
         compare_type _comp;
-        struct {
-            compare_type* comp;
-            bool operator()(const value_type& x, const value_type& y) { return (*comp)(y, x); }
-        } _rev_comp{ &_comp };
+        auto rev_comp() {
+            return [this](const value_type& x, const value_type& y) { return _comp(y, x); };
+        }
 
         std::vector<value_type> _max_heap, _min_heap;
         value_type pivot;
@@ -105,7 +104,7 @@ namespace suisen {
                 std::move(_max_heap.begin(), _max_heap.begin() + mid, std::back_inserter(_min_heap));
                 _max_heap.erase(_max_heap.begin(), _max_heap.begin() + mid);
                 std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
-                std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::make_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             }
         }
         void ensure_max_heap_nonempty() {
@@ -122,7 +121,7 @@ namespace suisen {
                 std::move(_min_heap.begin() + mid, _min_heap.end(), std::back_inserter(_max_heap));
                 _min_heap.erase(_min_heap.begin() + mid, _min_heap.end());
                 std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
-                std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::make_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             }
         }
     };
-- 
2.43.0


From 4a8619881471c866312205b65a883ecaa8014bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:55 +0000
Subject: [PATCH 037/178] fix: a default-constructed CartesianTree claimed node
 0 as its root

---
 library/datastructure/cartesian_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/cartesian_tree.hpp b/library/datastructure/cartesian_tree.hpp
index b5c2161..16fd0dd 100644
--- a/library/datastructure/cartesian_tree.hpp
+++ b/library/datastructure/cartesian_tree.hpp
@@ -14,7 +14,7 @@ namespace suisen {
 
         const int root;
 
-        CartesianTree() : base_type(), root(0) {}
+        CartesianTree() : base_type(), root(absent) {}
         CartesianTree(int root, const base_type& g) : base_type(g), root(root) {}
         CartesianTree(int root, base_type&& g) : base_type(std::move(g)), root(root) {}
 
-- 
2.43.0


From e3c3464b0fbc999275581ac7bbc8611747acfc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:55 +0000
Subject: [PATCH 038/178] fix: SparseTable of an empty sequence took the
 logarithm of zero

---
 library/datastructure/sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/sparse_table.hpp b/library/datastructure/sparse_table.hpp
index a60c735..703cf35 100644
--- a/library/datastructure/sparse_table.hpp
+++ b/library/datastructure/sparse_table.hpp
@@ -41,7 +41,7 @@ namespace suisen {
             std::fill(flog.begin() + (1 << log), flog.end(), log);
         }
         static int floor_log2(int i) {
-            return 31 - __builtin_clz(i);
+            return i ? 31 - __builtin_clz(i) : 0;
         }
     };
 } // namespace suisen
-- 
2.43.0


From 1e1714b18beb9afc3d156776e495938adfc5bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:55 +0000
Subject: [PATCH 039/178] fix: RMQpm1 of an empty sequence read its first
 element

---
 library/algorithm/rmq_pm1.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/algorithm/rmq_pm1.hpp b/library/algorithm/rmq_pm1.hpp
index d6ad85a..25d5a5c 100644
--- a/library/algorithm/rmq_pm1.hpp
+++ b/library/algorithm/rmq_pm1.hpp
@@ -68,6 +68,7 @@ namespace suisen {
 
         std::vector<int> build() {
             std::vector<int> c(m, e());
+            if (n == 0) return c;
             for (int i = 0, p = a[0] - 1; i < n; p = a[i++]) {
                 int outer = i >> LOG;
                 c[outer] = op(c[outer], a[i]);
-- 
2.43.0


From 50df1f0834d17b242b33cfd9e2822feef8a6790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:08 +0000
Subject: [PATCH 040/178] fix: static_bitset could not be indexed when const,
 so printing it did not compile

---
 library/datastructure/util/static_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index bff3624..5ff165b 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -111,7 +111,7 @@ namespace suisen {
         bool operator>=(const static_bitset<N>& rhs) const {
             return not (*this < rhs);
         }
-        bool operator[](std::size_t i) {
+        bool operator[](std::size_t i) const {
             return (_data[outer_index(i)] >> inner_index(i)) & 1;
         }
         operator bool() const {
-- 
2.43.0


From 9d6d8981b363562f396062476856bfc074a651c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:08 +0000
Subject: [PATCH 041/178] fix: wavelet matrices with the default bit width
 shifted by the full width of the value type

---
 library/datastructure/compressed_wavelet_matrix.hpp | 2 +-
 library/datastructure/wavelet_matrix.hpp            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/compressed_wavelet_matrix.hpp b/library/datastructure/compressed_wavelet_matrix.hpp
index 9e4b810..8b79e43 100644
--- a/library/datastructure/compressed_wavelet_matrix.hpp
+++ b/library/datastructure/compressed_wavelet_matrix.hpp
@@ -10,7 +10,7 @@
 #include "library/util/coordinate_compressor.hpp"
 
 namespace suisen {
-    template <typename T, int log_max_len = std::numeric_limits<std::make_unsigned_t<T>>::digits>
+    template <typename T, int log_max_len = std::numeric_limits<int>::digits>
     struct CompressedWaveletMatrix : private WaveletMatrix<int, log_max_len> {
         // default constructor
         CompressedWaveletMatrix() noexcept : WaveletMatrix<int, log_max_len>(0) {}
diff --git a/library/datastructure/wavelet_matrix.hpp b/library/datastructure/wavelet_matrix.hpp
index bdf7070..3d8d278 100644
--- a/library/datastructure/wavelet_matrix.hpp
+++ b/library/datastructure/wavelet_matrix.hpp
@@ -9,7 +9,7 @@
 #include "library/datastructure/bit_vector.hpp"
 
 namespace suisen {
-    template <typename T, int bit_num = std::numeric_limits<std::make_unsigned_t<T>>::digits>
+    template <typename T, int bit_num = std::numeric_limits<T>::digits>
     struct WaveletMatrix {
         // default constructor
         WaveletMatrix() noexcept : n(0) {}
@@ -168,7 +168,7 @@ namespace suisen {
         }
 
         static void check_value_bounds(T val) {
-            assert((val >> bit_num) == 0);
+            assert(T(0) <= val and val <= MAX);
         }
     };
 } // namespace suisen
-- 
2.43.0


From 6717c4605b60ffb71de261896c9eceea762e0de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:42 +0000
Subject: [PATCH 042/178] fix: DynamicBitSet bit reference &= cleared the other
 bits of its block

---
 library/datastructure/util/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/dynamic_bitset.hpp b/library/datastructure/util/dynamic_bitset.hpp
index d64b0fd..9b40433 100644
--- a/library/datastructure/util/dynamic_bitset.hpp
+++ b/library/datastructure/util/dynamic_bitset.hpp
@@ -21,7 +21,7 @@ namespace suisen {
             void set() { b |= block(1) << i; }
             void reset() { b &= ~(block(1) << i); }
             void flip() { b ^= block(1) << i; }
-            bitref& operator&=(bool val) { b &= block(val) << i; return *this; }
+            bitref& operator&=(bool val) { if (not val) reset(); return *this; }
             bitref& operator|=(bool val) { b |= block(val) << i; return *this; }
             bitref& operator^=(bool val) { b ^= block(val) << i; return *this; }
             bitref& operator =(bool val) { val ? set() : reset(); return *this; }
-- 
2.43.0


From b60f97df1016c93b5e325a17611576ddbae30506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:42 +0000
Subject: [PATCH 043/178] fix: static_bitset complement and left shift left
 bits beyond N that comparisons, bool and >> observed

---
 library/datastructure/util/static_bitset.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index 5ff165b..003aa33 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -38,6 +38,7 @@ namespace suisen {
         static_bitset<N> operator~() const {
             static_bitset<N> res;
             for (std::size_t i = 0; i < L; ++i) res._data[i] = ~_data[i];
+            res.trim();
             return res;
         }
         static_bitset<N>& operator<<=(const std::size_t shamt) {
@@ -59,6 +60,7 @@ namespace suisen {
                 }
             }
             for (std::size_t i = large_shamt; i-- > 0;) _data[i] = 0;
+            trim();
             return *this;
         }
         static_bitset<N>& operator>>=(const std::size_t shamt) {
@@ -165,6 +167,10 @@ namespace suisen {
     private:
         std::array<uint64_t, L> _data{};
 
+        // clears the bits at positions N, N+1, ... of the last block
+        void trim() {
+            if constexpr (N & 63) _data[L - 1] &= (uint64_t(1) << (N & 63)) - 1;
+        }
         static constexpr std::size_t outer_index(std::size_t k) {
             return k >> 6;
         }
-- 
2.43.0


From 6ce0765a64e18fcbe3bbdf76d1ad8c880933be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:42 +0000
Subject: [PATCH 044/178] fix: CompressedWaveletMatrix::range_max_leq returned
 the default value for every non-empty range

---
 library/datastructure/compressed_wavelet_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/compressed_wavelet_matrix.hpp b/library/datastructure/compressed_wavelet_matrix.hpp
index 8b79e43..f489ab7 100644
--- a/library/datastructure/compressed_wavelet_matrix.hpp
+++ b/library/datastructure/compressed_wavelet_matrix.hpp
@@ -80,7 +80,7 @@ namespace suisen {
         }
         // returns the maximum value v in WaveletMatrix[l, r) s.t. v <= upper
         inline T range_max_leq(int l, int r, T upper, T default_value = T(-1)) const {
-            if (r >= l) return default_value;
+            if (l >= r) return default_value;
             return upper == std::numeric_limits<T>::max() ? range_max(l, r) : range_max_lt(l, r, upper + 1, default_value);
         }
     private:
-- 
2.43.0


From b3773c71a01aec86f859431eb8add9c9f536b8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:21 +0000
Subject: [PATCH 045/178] fix: queries on a default-constructed WaveletMatrix
 read indeterminate offsets

---
 library/datastructure/wavelet_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/wavelet_matrix.hpp b/library/datastructure/wavelet_matrix.hpp
index 3d8d278..8ce1703 100644
--- a/library/datastructure/wavelet_matrix.hpp
+++ b/library/datastructure/wavelet_matrix.hpp
@@ -160,7 +160,7 @@ namespace suisen {
 
         int n;
         std::array<BitVector, bit_num> bv;
-        std::array<int, bit_num> mid;
+        std::array<int, bit_num> mid{};
 
         void succ(int& l, int& r, const bool b, const int log) const {
             l = b * mid[log] + bv[log].rank(b, l);
-- 
2.43.0


From 79272c44d112002fe2a5654b4e081a13da72a0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:55 +0000
Subject: [PATCH 046/178] fix: MonotonicCHT rejected negative slopes and
 abscissae for floating-point types

---
 library/datastructure/monotonic_convex_hull_trick.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/monotonic_convex_hull_trick.hpp b/library/datastructure/monotonic_convex_hull_trick.hpp
index 3f067d4..ffd9ad6 100644
--- a/library/datastructure/monotonic_convex_hull_trick.hpp
+++ b/library/datastructure/monotonic_convex_hull_trick.hpp
@@ -25,7 +25,7 @@ namespace suisen {
         struct query_impl {};
         template <typename Dummy>
         struct query_impl<inc_query_tag, Dummy> {
-            value_type prev_x = std::numeric_limits<value_type>::min();
+            value_type prev_x = std::numeric_limits<value_type>::lowest();
             value_type operator()(MonotonicCHT* ptr, value_type x) {
                 assert(x >= prev_x);
                 prev_x = x;
@@ -92,7 +92,7 @@ namespace suisen {
         }
     private:
         std::deque<std::pair<value_type, value_type>> lines;
-        value_type max_slope = std::numeric_limits<value_type>::min();
+        value_type max_slope = std::numeric_limits<value_type>::lowest();
         value_type min_slope = std::numeric_limits<value_type>::max();
         query_impl<query_tag> _query{};
 
-- 
2.43.0


From 1b6444183a771febfe59e05cd0649b4db2f6bb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:55 +0000
Subject: [PATCH 047/178] fix: LiChaoSegmentTree::add_line skipped non-positive
 coordinates for floating-point types

---
 library/datastructure/segment_tree/li_chao_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/li_chao_segment_tree.hpp b/library/datastructure/segment_tree/li_chao_segment_tree.hpp
index a253288..2808621 100644
--- a/library/datastructure/segment_tree/li_chao_segment_tree.hpp
+++ b/library/datastructure/segment_tree/li_chao_segment_tree.hpp
@@ -51,7 +51,7 @@ namespace suisen {
 
         // Add ax+b for x in (-infty, infty)
         void add_line(T a, T b) {
-            add_segment(std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), a, b);
+            add_segment(std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), a, b);
         }
 
         /**
-- 
2.43.0


From 4b06912cb176546254ac59eb378b0c1ebe839e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 048/178] fix: BinaryTrie::xor_count_leq must count v with x ^
 v == val, not v == val

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index b1e2f30..f3e3caf 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -108,7 +108,7 @@ class BinaryTrie {
             }
             return res;
         }
-        inline int xor_count_leq(const U x, const U val) const noexcept { return xor_count_lt(x, val) + count(val); }
+        inline int xor_count_leq(const U x, const U val) const noexcept { return xor_count_lt(x, val) + count(x ^ val); }
         inline int xor_count_gt (const U x, const U val) const noexcept { return size() - xor_count_leq(x, val);    }
         inline int xor_count_geq(const U x, const U val) const noexcept { return size() - xor_count_lt(x, val);     }
         inline U xor_lower(const U x, const U val, const U default_value = ~U(0)) const noexcept {
-- 
2.43.0


From 5833bc9379bcf120a491cbbab37957ed1c56ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 049/178] fix: BinaryTrie::max returned the complement of the
 maximum

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index f3e3caf..4dce48e 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -130,7 +130,7 @@ class BinaryTrie {
 
         inline U kth_min(const int k) const { return xor_kth_min(0, k); }
         inline U min() const { return xor_kth_min(0, 0); }
-        inline U max() const { return xor_kth_min(~U(0), 0); }
+        inline U max() const { return xor_kth_max(0, 0); }
         inline int count_lt (const U val) const noexcept { return xor_count_lt(0, val);  }
         inline int count_leq(const U val) const noexcept { return xor_count_leq(0, val); }
         inline int count_gt (const U val) const noexcept { return xor_count_gt(0, val);  }
-- 
2.43.0


From cc99ac108aa4303bd4594bdc8732d71309f7c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 050/178] fix: BinaryTrie::to_string shifted an int, wrong
 labels for wide values

---
 library/datastructure/binary_trie.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index 4dce48e..88f8a28 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -41,11 +41,11 @@ class BinaryTrie {
             auto pref1 = pref0 + std::string(zo[0].size(), ' ');
             if (is_absent(0) or is_absent(1)) {
                 bool b = is_absent(0);
-                return res + zo[b] + ch[b]->to_string(k - 1, val | (b << k), pref1);
+                return res + zo[b] + ch[b]->to_string(k - 1, val | (U(b) << k), pref1);
             }
             res += zo[0] + ch[0]->to_string(k - 1, val, prefb);
             res += pref0 + "|\n";
-            res += pref0 + zo[1] + ch[1]->to_string(k - 1, val | (1 << k), pref1);
+            res += pref0 + zo[1] + ch[1]->to_string(k - 1, val | (U(1) << k), pref1);
             return res;
         }
     };
-- 
2.43.0


From bdc831081ec55fda3a23e07c297c1415300af157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 051/178] fix: BinaryTriePatricia::xor_max returned the
 complement of the maximum

---
 library/datastructure/binary_trie_patricia.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 9852540..0e6de45 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -104,7 +104,7 @@ namespace suisen {
         }
         // max{ x ^ v | v in S }
         value_type xor_max(const unsigned_value_type& x) const {
-            return xor_min(~x);
+            return xor_kth_max(x, 0);
         }
 
         // k-th smallest of { x ^ v | v in S } (0-indexed)
-- 
2.43.0


From 1bd591af798d25b0f6a4eaee43293c2065650204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 052/178] fix: BinaryTriePatricia with bit_num equal to the
 width of T shifted by the full width

---
 .../datastructure/binary_trie_patricia.hpp    | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 0e6de45..054a3f5 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -90,7 +90,7 @@ namespace suisen {
                 const uint32_t ch_idx = val & (ary - 1);
                 node_pointer_type nxt = cur->ch[ch_idx];
                 if (not nxt or cut_lower(val ^ nxt->val, nxt->len)) return 0;
-                val >>= nxt->len;
+                val = cut_upper(val, nxt->len);
                 l += nxt->len;
                 cur = nxt;
             }
@@ -123,7 +123,7 @@ namespace suisen {
                     }
                 }
                 res |= nxt->val << l;
-                x >>= nxt->len;
+                x = cut_upper(x, nxt->len);
                 l += nxt->len;
                 cur = nxt;
             }
@@ -138,7 +138,7 @@ namespace suisen {
         // #{ v in S | x ^ v < upper }
         __attribute__((target("bmi")))
         size_type xor_count_lt (unsigned_value_type x, unsigned_value_type upper) const {
-            if (upper >> bit_num) return _root->siz;
+            if (cut_upper(upper, bit_num)) return _root->siz;
             bit_reverse(x);
             bit_reverse(upper);
             internal_size_type res = 0;
@@ -159,8 +159,8 @@ namespace suisen {
                     uint32_t tz = len <= 32 ? _tzcnt_u32(vlo ^ ulo) : _tzcnt_u64(vlo ^ ulo);
                     return (ulo >> tz) & 1 ? res + nxt->siz : res;
                 }
-                x >>= len;
-                upper >>= len;
+                x = cut_upper(x, len);
+                upper = cut_upper(upper, len);
                 l += len;
                 cur = nxt;
             }
@@ -253,8 +253,13 @@ namespace suisen {
         node_pointer_type _root = node_type::new_node(0, 0, 0);
 
         static constexpr unsigned_value_type cut_lower(const unsigned_value_type& val, uint32_t r) {
+            if (r >= uint32_t(std::numeric_limits<unsigned_value_type>::digits)) return val;
             return val & ((unsigned_value_type(1) << r) - 1);
         }
+        static constexpr unsigned_value_type cut_upper(const unsigned_value_type& val, uint32_t l) {
+            if (l >= uint32_t(std::numeric_limits<unsigned_value_type>::digits)) return 0;
+            return val >> l;
+        }
         static constexpr uint32_t bit_reverse_u32(uint32_t x) {
             x = (((x & 0xaaaaaaaa) >> 1) | ((x & 0x55555555) << 1));
             x = (((x & 0xcccccccc) >> 2) | ((x & 0x33333333) << 2));
@@ -292,7 +297,7 @@ namespace suisen {
             uint32_t len = nxt->len, tz = len <= 32 ? _tzcnt_u32(x) : _tzcnt_u64(x);
             tz -= tz & (log_ary - 1);
             if (tz >= len) {
-                bool inserted = _insert_if_absent(nxt, l + len, val >> len);
+                bool inserted = _insert_if_absent(nxt, l + len, cut_upper(val, len));
                 cur->siz += inserted;
                 return inserted;
             }
@@ -320,7 +325,7 @@ namespace suisen {
             unsigned_value_type x = val ^ nxt->val;
             uint32_t len = nxt->len, tz = len <= 32 ? _tzcnt_u32(x) : _tzcnt_u64(x);
             tz -= tz & (log_ary - 1);
-            if (tz >= len) return _insert(nxt, l + len, val >> len, num);
+            if (tz >= len) return _insert(nxt, l + len, cut_upper(val, len), num);
             node_pointer_type br = node_type::new_node(cut_lower(nxt->val, tz), tz, nxt->siz + num);
             cur->ch[idx] = br;
             nxt->val >>= tz;
@@ -339,7 +344,7 @@ namespace suisen {
             const uint32_t idx = val & (ary - 1);
             node_pointer_type nxt = cur->ch[idx];
             if (not nxt or cut_lower(val ^ nxt->val, nxt->len)) return num = 0, false;
-            bool deleted = _erase(nxt, num, l + nxt->len, val >> nxt->len);
+            bool deleted = _erase(nxt, num, l + nxt->len, cut_upper(val, nxt->len));
             cur->siz -= num;
             if (not deleted) return false;
             cur->ch[idx] = nullptr;
-- 
2.43.0


From 34651ef561cc3e54b225dd0f2dd4174fb5345436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 053/178] fix: RangeSet::in_the_same_range called a
 non-existing function

---
 library/datastructure/util/range_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/range_set.hpp b/library/datastructure/util/range_set.hpp
index 11c2c83..2eb3e7c 100644
--- a/library/datastructure/util/range_set.hpp
+++ b/library/datastructure/util/range_set.hpp
@@ -35,7 +35,7 @@ struct RangeSet : public std::map<T, T> {
 
         // returns whether `x` and `y` is in this set and in the same range. O(log N)
         bool in_the_same_range(T x, T y) const {
-            auto it = get_containing_range(x);
+            auto it = find_range(x);
             return it != this->end() and it->first <= y and y <= it->second;
         }
 
-- 
2.43.0


From f76ac64bcf714f214603c78aceb975edce933370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 054/178] fix: RangeSet overflowed when a range ends at the
 maximum of T

---
 library/datastructure/util/range_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/range_set.hpp b/library/datastructure/util/range_set.hpp
index 2eb3e7c..a6d72f9 100644
--- a/library/datastructure/util/range_set.hpp
+++ b/library/datastructure/util/range_set.hpp
@@ -114,7 +114,7 @@ struct RangeSet : public std::map<T, T> {
         T _size;
 
         bool is_mergeable(T cur_r, T next_l) {
-            return next_l <= cur_r + merge_adjacent_segment;
+            return next_l <= cur_r or (merge_adjacent_segment and next_l - 1 == cur_r);
         }
 };
 
-- 
2.43.0


From 7b7e1a2fe234d6942c14312be2a47998f39e348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 055/178] fix: ZDD::max_len_item dropped the top item when the
 0-branch is empty

---
 library/datastructure/ZDD.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/datastructure/ZDD.hpp b/library/datastructure/ZDD.hpp
index dc6f27d..4d59e44 100644
--- a/library/datastructure/ZDD.hpp
+++ b/library/datastructure/ZDD.hpp
@@ -268,6 +268,7 @@ namespace suisen {
             } else if (res0.has_value()) {
                 return register_result(cache, res0, f.id);
             } else if (res1.has_value()) {
+                res1->push_back(f.top());
                 return register_result(cache, res1, f.id);
             } else {
                 return register_result(cache, std::nullopt, f.id);
-- 
2.43.0


From 55baeb526482a5517a6709456d4a5eaf98a66a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:35 +0000
Subject: [PATCH 056/178] fix: PrioritySum::erase looked for the element in the
 wrong half

---
 library/datastructure/util/priority_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/priority_sum.hpp b/library/datastructure/util/priority_sum.hpp
index e21d5be..465dfb4 100644
--- a/library/datastructure/util/priority_sum.hpp
+++ b/library/datastructure/util/priority_sum.hpp
@@ -29,7 +29,7 @@ namespace suisen {
                 if (_head_k.size() and v == _head_k.top()) {
                     _sum -= v;
                     _head_k.pop();
-                } else if (_head_k.size() and _rev_cmp(v, _head_k.top())) {
+                } else if (_head_k.size() and _cmp(v, _head_k.top())) {
                     _sum -= v;
                     _del_head_k.push(v);
                 } else {
-- 
2.43.0


From 43d242075db9057d261b06914206aa5445082ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 057/178] fix: Graph::dfs_tree and shrink_to_fit used a
 dangling pointer after the graph was copied or moved

---
 library/graph/csr_graph.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/graph/csr_graph.hpp b/library/graph/csr_graph.hpp
index 2ab74e7..0eab89a 100644
--- a/library/graph/csr_graph.hpp
+++ b/library/graph/csr_graph.hpp
@@ -210,7 +210,7 @@ namespace suisen {
             auto it = new_edges.begin();
             for (int i = 0; i < _n; ++i) {
                 int nl = it - new_edges.begin();
-                it = std::move(_adj[i].begin(), _adj[i].end(), it);
+                it = std::move((*this)[i].begin(), (*this)[i].end(), it);
                 _adj[i]._offset = nl;
                 _adj[i]._cap = _adj[i]._siz;
             }
@@ -254,11 +254,11 @@ namespace suisen {
                 while (cur >= 0) {
                     ++eid[cur];
                     if (eid[cur] == 0) *pre_it++ = cur;
-                    if (eid[cur] == _adj[cur].size()) {
+                    if (eid[cur] == (*this)[cur].size()) {
                         *pst_it++ = cur;
                         cur = par[cur];
                     } else {
-                        const auto &e = _adj[cur][eid[cur]];
+                        const auto &e = (*this)[cur][eid[cur]];
                         weight_type_or_1 w = get_weight(e);
                         int nxt = e;
                         if (par[nxt] == -2) {
@@ -266,7 +266,7 @@ namespace suisen {
                             par[nxt] = cur;
                             par_w[nxt] = std::move(w);
                             cur = nxt;
-                        } else if (eid[nxt] != _adj[nxt].size()) {
+                        } else if (eid[nxt] != (*this)[nxt].size()) {
                             if (par[cur] != nxt or par_w[cur] != w or not std::exchange(par_w[cur], std::nullopt).has_value()) {
                                 back_edge.emplace_back(make_edge(cur, e));
                             }
-- 
2.43.0


From f4679ef494d279f3beac05e3af30b1f1b58b2cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:55 +0000
Subject: [PATCH 058/178] fix: LowLink and its derived decompositions kept
 stale state when built again after adding edges

---
 library/graph/biconnected_components.hpp        | 1 +
 library/graph/low_link.hpp                      | 5 +++++
 library/graph/two_edge_connected_components.hpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/library/graph/biconnected_components.hpp b/library/graph/biconnected_components.hpp
index ee3d5e9..80f1209 100644
--- a/library/graph/biconnected_components.hpp
+++ b/library/graph/biconnected_components.hpp
@@ -110,6 +110,7 @@ namespace suisen {
             _edge_comp_num = 0;
             _edge_comp_id.assign(_m, -1);
             _used.assign(_n, false);
+            _isolated_vertices.clear();
             for (int i = 0; i < _n; ++i) if (not _used[i]) {
                 dfs(i, -1);
                 if (_g[i].empty()) _isolated_vertices.push_back(i);
diff --git a/library/graph/low_link.hpp b/library/graph/low_link.hpp
index cc2b4e6..1f13d2d 100644
--- a/library/graph/low_link.hpp
+++ b/library/graph/low_link.hpp
@@ -151,6 +151,11 @@ namespace suisen {
         }
 
         void dfs_for_all_connected_components() {
+            _pre_order.assign(_n, -1);
+            _par.assign(_n, -1);
+            _bridges.clear();
+            _articulation_points.clear();
+            _conn_comp_num = 0;
             for (int i = 0, ord = 0; i < _n; ++i) if (_pre_order[i] < 0) {
                 dfs(i, -1, ord);
                 ++_conn_comp_num;
diff --git a/library/graph/two_edge_connected_components.hpp b/library/graph/two_edge_connected_components.hpp
index 01bde25..31066a5 100644
--- a/library/graph/two_edge_connected_components.hpp
+++ b/library/graph/two_edge_connected_components.hpp
@@ -66,6 +66,7 @@ namespace suisen {
         }
         void dfs_for_all_connected_components() {
             _comp_num = 0;
+            _comp_id.assign(_n, -1);
             for (int i = 0; i < _n; ++i) {
                 if (_comp_id[i] < 0) dfs(i, -1);
             }
-- 
2.43.0


From 03e1f6f891a2f6ee09748d5f057811e7a13b1e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:31 +0000
Subject: [PATCH 059/178] fix: BipartiteMatching::solve forgot the existing
 matching when called again after add_edge

---
 library/graph/bipartite_matching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/bipartite_matching.hpp b/library/graph/bipartite_matching.hpp
index ba7cd72..a6bd1c3 100644
--- a/library/graph/bipartite_matching.hpp
+++ b/library/graph/bipartite_matching.hpp
@@ -90,7 +90,7 @@ namespace suisen {
                 }
                 return level[_n + r] = _n + _m, false;
             };
-            for (_f = 0; bfs();) {
+            for (_f = _n - std::count(_to_r.begin(), _to_r.end(), ABSENT); bfs();) {
                 std::fill(iter.begin(), iter.end(), 0);
                 for (int j = 0; j < _m; ++j) if (_to_l[j] == ABSENT) _f += dfs(dfs, j);
             }
-- 
2.43.0


From 4dbf1fadedac053278b30f4d6cedcb45be25c850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:31 +0000
Subject: [PATCH 060/178] fix: BipartiteMatching::min_edge_cover sized the
 right side by the left side

---
 library/graph/bipartite_matching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/bipartite_matching.hpp b/library/graph/bipartite_matching.hpp
index a6bd1c3..55424f6 100644
--- a/library/graph/bipartite_matching.hpp
+++ b/library/graph/bipartite_matching.hpp
@@ -107,7 +107,7 @@ namespace suisen {
 
         std::vector<std::pair<int, int>> min_edge_cover() {
             auto res = max_matching();
-            std::vector<bool> vl(_n, false), vr(_n, false);
+            std::vector<bool> vl(_n, false), vr(_m, false);
             for (const auto& [u, v] : res) vl[u] = vr[v] = true;
             for (int u = 0; u < _n; ++u) for (int v : _g[u]) if (not (vl[u] and vr[v])) {
                 vl[u] = vr[v] = true;
-- 
2.43.0


From e63850df6dbbf4cd34f2faa7df3edd69b5dea6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:31 +0000
Subject: [PATCH 061/178] fix: MinCostFlow kept the flow limit in the cost type
 and sent no flow when it is narrower

---
 library/graph/min_cost_flow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/min_cost_flow.hpp b/library/graph/min_cost_flow.hpp
index d5624c6..4b8313f 100644
--- a/library/graph/min_cost_flow.hpp
+++ b/library/graph/min_cost_flow.hpp
@@ -78,7 +78,7 @@ class MinCostFlow {
 
     private:
         static constexpr Cost INF_COST = std::numeric_limits<Cost>::max() / 2;
-        static constexpr Cost INF_FLOW = std::numeric_limits<Cap>::max() / 2;
+        static constexpr Cap INF_FLOW = std::numeric_limits<Cap>::max() / 2;
     
         int n;
         std::vector<std::vector<InternalEdge>> g;
-- 
2.43.0


From 167fa082434eeacda40cec96bc13b23dbde72c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:31 +0000
Subject: [PATCH 062/178] fix: MinCostFlow gave unreachable vertices an
 infinite potential that broke later calls

---
 library/graph/min_cost_flow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/min_cost_flow.hpp b/library/graph/min_cost_flow.hpp
index 4b8313f..127897d 100644
--- a/library/graph/min_cost_flow.hpp
+++ b/library/graph/min_cost_flow.hpp
@@ -134,7 +134,7 @@ class MinCostFlow {
 
         void update_potential() {
             for (int u = 0; u < n; ++u) {
-                if (potential[u] != INF_COST) potential[u] += dist[u];
+                if (dist[u] != INF_COST) potential[u] += dist[u];
             }
         }
 
-- 
2.43.0


From dfaf79f57d3e5c4e301d69bc0b73fd5c7b8605e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 063/178] fix: maximum_clique put self-loops into the
 complement graph and lost vertices

---
 library/graph/maximum_clique.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/maximum_clique.hpp b/library/graph/maximum_clique.hpp
index 2f6dbc1..7f68220 100644
--- a/library/graph/maximum_clique.hpp
+++ b/library/graph/maximum_clique.hpp
@@ -10,7 +10,7 @@ namespace suisen {
         for (int i = 0; i < n; ++i) {
             std::vector<int8_t> adj(n, false);
             for (int j : g[i]) adj[j] = true;
-            for (int j = 0; j < n; ++j) if (not adj[j]) h[i].push_back(j);
+            for (int j = 0; j < n; ++j) if (i != j and not adj[j]) h[i].push_back(j);
         }
         return maximum_independent_set(h);
     }
-- 
2.43.0


From 8d91b811bea1ebf286363fc1382a0d07addaf234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:04 +0000
Subject: [PATCH 064/178] fix: TreeDecompositionTW2 put a vertex twice in a bag
 or rejected the graph when it had parallel edges

---
 library/graph/tree_decomposition_tw2.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/graph/tree_decomposition_tw2.hpp b/library/graph/tree_decomposition_tw2.hpp
index fdf51ed..c15b50e 100644
--- a/library/graph/tree_decomposition_tw2.hpp
+++ b/library/graph/tree_decomposition_tw2.hpp
@@ -32,8 +32,11 @@ namespace suisen {
 
         std::optional<std::vector<DecompNode>> decomp() const {
             std::vector<std::vector<std::pair<int, int>>> g(_n);
-            for (auto [u, v] : _edges) if (u != v) {
-                if (u > v) std::swap(u, v);
+            std::vector<std::pair<int, int>> simple_edges;
+            for (auto [u, v] : _edges) if (u != v) simple_edges.emplace_back(std::min(u, v), std::max(u, v));
+            std::sort(simple_edges.begin(), simple_edges.end());
+            simple_edges.erase(std::unique(simple_edges.begin(), simple_edges.end()), simple_edges.end());
+            for (auto [u, v] : simple_edges) {
                 const int du = g[u].size(), dv = g[v].size();
                 g[u].emplace_back(v, dv);
                 g[v].emplace_back(u, du);
-- 
2.43.0


From 4623028280e7bdbad727fd35b935a641abee96a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:04 +0000
Subject: [PATCH 065/178] fix: TreeDecompositionTW2 threw on the empty graph

---
 library/graph/tree_decomposition_tw2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/graph/tree_decomposition_tw2.hpp b/library/graph/tree_decomposition_tw2.hpp
index c15b50e..bef8854 100644
--- a/library/graph/tree_decomposition_tw2.hpp
+++ b/library/graph/tree_decomposition_tw2.hpp
@@ -53,7 +53,7 @@ namespace suisen {
 
             std::vector<int> roots;
             std::vector<std::pair<int, int>> edges;
-            edges.reserve(_n - 1);
+            edges.reserve(_n);
             std::vector<std::vector<int>> bag(_n);
             std::vector<std::vector<int>> link(_n);
 
@@ -111,6 +111,7 @@ namespace suisen {
             auto opt_decomp = decomp();
             if (not opt_decomp.has_value()) return std::nullopt;
             std::vector<DecompNodeRooted> res(_n);
+            if (_n == 0) return res;
             for (int i = 0; i < _n; ++i) {
                 res[i].bag = std::move((*opt_decomp)[i].bag);
             }
-- 
2.43.0


From 15d79593a90970ff40fd54bb5316dca2c0243a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:00 +0000
Subject: [PATCH 066/178] fix: manhattan_minimum_distances missed the other
 copy of a duplicated point

---
 library/graph/manhattan_minimum_distances.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/library/graph/manhattan_minimum_distances.hpp b/library/graph/manhattan_minimum_distances.hpp
index 4cf451d..b30547f 100644
--- a/library/graph/manhattan_minimum_distances.hpp
+++ b/library/graph/manhattan_minimum_distances.hpp
@@ -69,6 +69,12 @@ namespace suisen {
             for (auto& [_, y] : points) y = -y;
         }
 
+        // points at the same position
+        std::sort(p.begin(), p.end(), [&points](int i, int j) { return points[i] < points[j]; });
+        for (int i = 1; i < n; ++i) if (points[p[i - 1]] == points[p[i]]) {
+            res[p[i - 1]] = res[p[i]] = 0;
+        }
+
         return res;
     }
 } // namespace suisen
-- 
2.43.0


From 91989049367f9b45cfe356d1df9f00abf5767d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:00 +0000
Subject: [PATCH 067/178] fix: manhattan_mst and manhattan_minimum_distances
 used a positive identity for floating-point maxima

---
 library/graph/manhattan_minimum_distances.hpp | 2 +-
 library/graph/manhattan_mst.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/graph/manhattan_minimum_distances.hpp b/library/graph/manhattan_minimum_distances.hpp
index b30547f..cd1473e 100644
--- a/library/graph/manhattan_minimum_distances.hpp
+++ b/library/graph/manhattan_minimum_distances.hpp
@@ -13,7 +13,7 @@ namespace suisen {
         template <typename T>
         T op(T x, T y) { return std::max(x, y); };
         template <typename T>
-        T e() { return std::numeric_limits<T>::min(); };
+        T e() { return std::numeric_limits<T>::lowest(); };
         template <typename T>
         using PrefixMaxQuery = FenwickTreePrefix<T, op<T>, e<T>>;
     } // namespace internal::manhattan_minimum_distances
diff --git a/library/graph/manhattan_mst.hpp b/library/graph/manhattan_mst.hpp
index 6e48a2c..8897b07 100644
--- a/library/graph/manhattan_mst.hpp
+++ b/library/graph/manhattan_mst.hpp
@@ -14,7 +14,7 @@ namespace suisen {
         template <typename T>
         std::pair<T, int> op(std::pair<T, int> x, std::pair<T, int> y) { return std::max(x, y); };
         template <typename T>
-        std::pair<T, int> e() { return { std::numeric_limits<T>::min(), -1 }; };
+        std::pair<T, int> e() { return { std::numeric_limits<T>::lowest(), -1 }; };
         template <typename T>
         using PrefixMaxQuery = FenwickTreePrefix<std::pair<T, int>, op<T>, e<T>>;
     } // namespace internal::manhattan_mst
-- 
2.43.0


From 8b6b8a4a0294506601ef8fc9c3eda1cf68239b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:00 +0000
Subject: [PATCH 068/178] fix: manhattan_mst did not build the tree when
 assertions are disabled

---
 library/graph/manhattan_mst.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/graph/manhattan_mst.hpp b/library/graph/manhattan_mst.hpp
index 8897b07..5249e4c 100644
--- a/library/graph/manhattan_mst.hpp
+++ b/library/graph/manhattan_mst.hpp
@@ -69,7 +69,8 @@ namespace suisen {
             }
             for (auto& [_, y] : points) y = -y;
         }
-        assert(mst.build());
+        const bool connected = mst.build();
+        assert(connected);
         return mst;
     }
 } // namespace suisen
-- 
2.43.0


From 81d2b3027517024ddb1b49e9e0a8b9143443ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:00 +0000
Subject: [PATCH 069/178] fix: eulerian_trail left its auxiliary edge in the
 graph when no trail exists

---
 library/graph/directed_eulerian_graph.hpp   | 6 +++---
 library/graph/undirected_eulerian_graph.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/graph/directed_eulerian_graph.hpp b/library/graph/directed_eulerian_graph.hpp
index 74714e0..da06f0d 100644
--- a/library/graph/directed_eulerian_graph.hpp
+++ b/library/graph/directed_eulerian_graph.hpp
@@ -63,12 +63,12 @@ namespace suisen {
             if (s < 0 or t < 0 or invalid >= 0) return std::nullopt;
             add_edge(t, s);
             auto opt_res = eulerian_circuit(s);
-            if (not opt_res) return std::nullopt;
-            auto &res = *opt_res;
-            res.pop_back();
             // remove edge (t, s)
             g[t].pop_back();
             --in_deg[s];
+            if (not opt_res) return std::nullopt;
+            auto &res = *opt_res;
+            res.pop_back();
             if (res.back() == t) return res;
             auto is_ts_edge = [&](int u, int v) {
                 return u == t and v == s;
diff --git a/library/graph/undirected_eulerian_graph.hpp b/library/graph/undirected_eulerian_graph.hpp
index d4e691b..f16b5b8 100644
--- a/library/graph/undirected_eulerian_graph.hpp
+++ b/library/graph/undirected_eulerian_graph.hpp
@@ -60,12 +60,12 @@ namespace suisen {
             if (s < 0 or t < 0 or invalid >= 0) return std::nullopt;
             add_edge(s, t);
             auto opt_res = eulerian_circuit(s);
-            if (not opt_res) return std::nullopt;
-            auto &res = *opt_res;
-            res.pop_back();
             // remove edge (s, t)
             g[s].pop_back(), inv[s].pop_back();
             g[t].pop_back(), inv[t].pop_back();
+            if (not opt_res) return std::nullopt;
+            auto &res = *opt_res;
+            res.pop_back();
             if (res.back() == t) return res;
             auto is_st_edge = [&](int u, int v) {
                 return (u == s and v == t) or (u == t and v == s);
-- 
2.43.0


From 8af26a24e1266291efb83b8d820e63c8ebe99761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:00 +0000
Subject: [PATCH 070/178] fix: FunctionalGraph::doubling never finished for
 max_step >= 2^62

---
 library/graph/functional_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/functional_graph.hpp b/library/graph/functional_graph.hpp
index fbcf73d..5194668 100644
--- a/library/graph/functional_graph.hpp
+++ b/library/graph/functional_graph.hpp
@@ -225,7 +225,7 @@ namespace suisen {
 
         static int floor_log2(long long v) {
             int l = 0;
-            while (1LL << (l + 1) <= v) ++l;
+            while (v >>= 1) ++l;
             return l;
         }
     };
-- 
2.43.0


From e49e54847c43637f0c93bfb1b2939c07a9638bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:42 +0000
Subject: [PATCH 071/178] fix: FunctionalGraph::kth_iterate overflowed for k
 close to the limit of long long

---
 library/graph/functional_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/functional_graph.hpp b/library/graph/functional_graph.hpp
index 5194668..6445f4d 100644
--- a/library/graph/functional_graph.hpp
+++ b/library/graph/functional_graph.hpp
@@ -212,7 +212,7 @@ namespace suisen {
                     const int s = cycle[i];
                     seen[s] = true;
                     for (const auto& [rem, res_index] : qs[s]) {
-                        res[res_index] = cycle[(i + rem) % len];
+                        res[res_index] = cycle[(i + rem % len) % len];
                     }
                 }
             }
-- 
2.43.0


From 436ae9aa7b7b32c2b590f1a213fafbc09d8fdb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:24 +0000
Subject: [PATCH 072/178] fix: AuxiliaryTree::build read past the end of an
 empty vertex set

---
 library/tree/auxiliary_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/tree/auxiliary_tree.hpp b/library/tree/auxiliary_tree.hpp
index 708ce2d..34f5e23 100644
--- a/library/tree/auxiliary_tree.hpp
+++ b/library/tree/auxiliary_tree.hpp
@@ -17,6 +17,7 @@ namespace suisen {
             const int k = vs.size();
             for (int v : _upd) _aux[v].clear();
             _upd.clear();
+            if (k == 0) return;
 
             std::sort(vs.begin(), vs.end(), [this](int i, int j) { return _hld.get_visit_time(i) < _hld.get_visit_time(j); });
 
-- 
2.43.0


From dbce2028b90692b04432e90c530aae2f4dd2d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:48 +0000
Subject: [PATCH 073/178] fix: RootedTreeClassifier::is_isomorphic compared the
 wrong ids and read past the centroid list

---
 library/tree/tree_isomorphism_classification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/tree/tree_isomorphism_classification.hpp b/library/tree/tree_isomorphism_classification.hpp
index 3fde37e..118918a 100644
--- a/library/tree/tree_isomorphism_classification.hpp
+++ b/library/tree/tree_isomorphism_classification.hpp
@@ -211,7 +211,7 @@ namespace suisen {
                 id21 = id_new_par;
             }
             if (id11 == ids20[cs2[0]]) return std::pair{ cs1[1], cs2[0] };
-            if (ids20[cs2[1]] == id21) return std::pair{ cs1[0], cs2[1] };
+            if (ids10[cs1[0]] == id21) return std::pair{ cs1[0], cs2[1] };
             if (id11 == id21) return std::pair{ cs1[1], cs2[1] };
             return std::nullopt;
         }
-- 
2.43.0


From 012f8b6468d7f2b02d19f0705199f05558c099eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 074/178] fix: AhoCorasick::build counted earlier patterns
 again when called after further additions

---
 library/string/aho_corasick.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/aho_corasick.hpp b/library/string/aho_corasick.hpp
index bdf23cf..24ef940 100644
--- a/library/string/aho_corasick.hpp
+++ b/library/string/aho_corasick.hpp
@@ -29,7 +29,7 @@ namespace suisen {
             _built = true;
             const int n = _next.size();
             _failure.resize(n, 0);
-            _count.resize(n, 0);
+            _count.assign(n, 0);
             for (int mark : _marks) ++_count[mark];
             std::deque<int> dq{ 0 };
             while (dq.size()) {
-- 
2.43.0


From 312c5cc185fa262f0347d30c0e11907f2b94bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 075/178] fix: AhoCorasick without patterns is marked built but
 had no count table

---
 library/string/aho_corasick.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/aho_corasick.hpp b/library/string/aho_corasick.hpp
index 24ef940..6385d1a 100644
--- a/library/string/aho_corasick.hpp
+++ b/library/string/aho_corasick.hpp
@@ -11,7 +11,7 @@ namespace suisen {
     struct AhoCorasick {
         using value_type = T;
 
-        AhoCorasick() : _next(1) {}
+        AhoCorasick() : _failure(1), _next(1), _count(1) {}
 
         template <typename Container, std::enable_if_t<std::is_constructible_v<value_type, typename Container::value_type>, std::nullptr_t> = nullptr>
         void add(const Container& s) {
-- 
2.43.0


From 7b18b7a6530cafe583eefea7a4d55f5717545c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 076/178] fix: AhoCorasick missed the empty pattern in states
 of depth 1

---
 library/string/aho_corasick.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/aho_corasick.hpp b/library/string/aho_corasick.hpp
index 6385d1a..332fd40 100644
--- a/library/string/aho_corasick.hpp
+++ b/library/string/aho_corasick.hpp
@@ -38,8 +38,8 @@ namespace suisen {
                 for (const auto& [c, nxt] : _next[cur]) {
                     if (cur) {
                         _failure[nxt] = next_state(_failure[cur], c);
-                        _count[nxt] += _count[_failure[nxt]];
                     }
+                    _count[nxt] += _count[_failure[nxt]];
                     dq.push_back(nxt);
                 }
             }
-- 
2.43.0


From 95803dfd31df8316e4cdb1557f2375d7fb12dd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 077/178] fix: morris_pratt.hpp used vector unqualified

---
 library/string/morris_pratt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/string/morris_pratt.hpp b/library/string/morris_pratt.hpp
index 32b65cb..ced8f73 100644
--- a/library/string/morris_pratt.hpp
+++ b/library/string/morris_pratt.hpp
@@ -48,7 +48,7 @@ namespace suisen {
         struct MatcherMP {
             MatcherMP() = default;
             MatcherMP(const RandomAccessibleContainer &s) : s(s), mp(morris_pratt(s)) {}
-            vector<int> operator()(const RandomAccessibleContainer &t) const {
+            std::vector<int> operator()(const RandomAccessibleContainer &t) const {
                 const int n = s.size(), m = t.size();
                 std::vector<int> res;
                 for (int i = 0, j = 0; i < m; ++i) {
@@ -57,7 +57,7 @@ namespace suisen {
                 }
                 return res;
             }
-            vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
+            std::vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
                 return (*this)(t);
             }
         private:
-- 
2.43.0


From 7500e05e69b322976d39627b9d27ea3af5863650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 078/178] fix: MatcherMP read one past the pattern after a
 match

---
 library/string/morris_pratt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/morris_pratt.hpp b/library/string/morris_pratt.hpp
index ced8f73..e23c7b5 100644
--- a/library/string/morris_pratt.hpp
+++ b/library/string/morris_pratt.hpp
@@ -53,7 +53,7 @@ namespace suisen {
                 std::vector<int> res;
                 for (int i = 0, j = 0; i < m; ++i) {
                     while (j >= 0 and s[j] != t[i]) j = mp[j];
-                    if (++j == n) res.push_back(i - n + 1);
+                    if (++j == n) res.push_back(i - n + 1), j = mp[j];
                 }
                 return res;
             }
-- 
2.43.0


From 8fa3696951e7dc7eec6bbd6401ddc7a0791a603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 079/178] fix: CompareSubstring could not be instantiated with
 SegmentTreeRmQ

---
 library/string/compare_substring.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/string/compare_substring.hpp b/library/string/compare_substring.hpp
index 7f84ffa..274e5de 100644
--- a/library/string/compare_substring.hpp
+++ b/library/string/compare_substring.hpp
@@ -12,7 +12,11 @@ namespace suisen {
         constexpr int e() { return std::numeric_limits<int>::max(); }
     }
     namespace compare_substring_rmq {
-        using SegmentTreeRmQ = atcoder::segtree<int, internal::compare_substring::op, internal::compare_substring::e>;
+        struct SegmentTreeRmQ : atcoder::segtree<int, internal::compare_substring::op, internal::compare_substring::e> {
+            using base_type = atcoder::segtree<int, internal::compare_substring::op, internal::compare_substring::e>;
+            using base_type::base_type;
+            int operator()(int l, int r) const { return this->prod(l, r); }
+        };
         using SparseTableRmQ = SparseTable<int, internal::compare_substring::op, internal::compare_substring::e>;
     }
     template <typename RmQ = compare_substring_rmq::SparseTableRmQ>
-- 
2.43.0


From f468bebf031ea68f4c038fc76150faf363c114a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 080/178] fix: PalindromicTree::clear left dangling child links
 in the two roots

---
 library/string/palindromic_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/string/palindromic_tree.hpp b/library/string/palindromic_tree.hpp
index ff459b1..396e5b2 100644
--- a/library/string/palindromic_tree.hpp
+++ b/library/string/palindromic_tree.hpp
@@ -171,6 +171,10 @@ namespace suisen {
                     _nodes.clear();
                 } else {
                     _nodes.erase(_nodes.begin() + 2, _nodes.end());
+                    for (auto& root : _nodes) {
+                        if constexpr (is_map or is_vector) root._children.clear();
+                        else root._children.fill(NODE_NULL);
+                    }
                 }
             }
 
-- 
2.43.0


From 92f615d095475010ca5fae1bd46f66da02ae8cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 081/178] fix: PalindromicTreeVec / PalindromicTreeArr stored
 node indices in the symbol type

---
 library/string/palindromic_tree.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/string/palindromic_tree.hpp b/library/string/palindromic_tree.hpp
index 396e5b2..e86f64b 100644
--- a/library/string/palindromic_tree.hpp
+++ b/library/string/palindromic_tree.hpp
@@ -185,8 +185,8 @@ namespace suisen {
 
         private:
             static constexpr bool is_map = std::is_same_v<std::map<value_type, int>, children_container_type>;
-            static constexpr bool is_vector = std::is_same_v<std::vector<value_type>, children_container_type>;
-            static constexpr bool is_array = std::is_same_v<std::array<value_type, std::tuple_size_v<children_container_type>>, children_container_type>;
+            static constexpr bool is_vector = std::is_same_v<std::vector<int>, children_container_type>;
+            static constexpr bool is_array = std::is_same_v<std::array<int, std::tuple_size_v<children_container_type>>, children_container_type>;
 
             int _active_index;
             container_type _seq;
@@ -221,14 +221,14 @@ namespace suisen {
     };
 
     template <typename T, typename Sequence = std::vector<T>>
-    struct PalindromicTreeVec : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<T>> {
-        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<T>>;
+    struct PalindromicTreeVec : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<int>> {
+        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<int>>;
         using base_type::base_type;
     };
 
     template <typename T, std::size_t N, typename Sequence = std::vector<T>>
-    struct PalindromicTreeArr : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<T, N>> {
-        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<T, N>>;
+    struct PalindromicTreeArr : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<int, N>> {
+        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<int, N>>;
         using base_type::base_type;
     };
 } // namespace suisen
-- 
2.43.0


From 069d5b1cf14f4a02a68f87318183047707639d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 082/178] fix: RollingHashField::set_bases kept the powers of
 the previous bases

---
 library/string/rolling_hash_field.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/string/rolling_hash_field.hpp b/library/string/rolling_hash_field.hpp
index ffa6b04..07b2698 100644
--- a/library/string/rolling_hash_field.hpp
+++ b/library/string/rolling_hash_field.hpp
@@ -50,6 +50,7 @@ namespace suisen {
 
         static void set_bases(const std::array<T, base_num>& new_bases) {
             bases = new_bases;
+            for (auto& p : pows) p.clear();
             already_set_bases = true;
         }
 
-- 
2.43.0


From 76607c88c8de0705b7e9ffbc96151ed1556b0bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 083/178] fix: SubstringSet::build kept counts of the previous
 string

---
 library/string/substring_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index 2bdf394..8b3456a 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -26,7 +26,7 @@ class SubstringSet {
         // build set of all substrings in `s`
         void build(const value_type &s) {
             sa = SuffixAutomaton(s);
-            dp.resize(sa.nodes.size(), size_type(1));
+            dp.assign(sa.nodes.size(), size_type(1));
             for (const int u : sa.topological_order(/* reversed = */true)) {
                 for (const auto &p : sa.nodes[u].nxt) dp[u] += dp[p.second];
             }
-- 
2.43.0


From 070d7a6d30382cb01c41d09eb4e16c98e13a914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 084/178] fix: SubstringSet iterator dereference and find did
 not compile

---
 library/string/substring_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index 8b3456a..3fb29d5 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -119,7 +119,7 @@ class SubstringSet {
             public:
                 SubstringSetIterator(const SubstringSet *st, size_type k) : st(st), k(k) {}
 
-                value_type operator*() const { return st->kth_substring(k); }
+                value_type operator*() const { return st->kth_element(k); }
 
                 auto& operator=(const SubstringSetIterator& other) {
                     st = other.st;
-- 
2.43.0


From 81e817b264a1d0f9b546ab6706de773085623684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 085/178] fix: arithmetic on a SubstringSet reverse iterator
 returned a forward iterator

---
 library/string/substring_set.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index 3fb29d5..2f003d9 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -153,6 +153,15 @@ class SubstringSet {
         struct ReversedSubstringSetIterator : public SubstringSetIterator {
             using SubstringSetIterator::SubstringSetIterator;
             value_type operator*() const { return this->st->kth_element(this->st->size() - this->k - 1); }
+
+            auto& operator++() { ++this->k; return *this; }
+            auto& operator--() { --this->k; return *this; }
+            auto& operator+=(difference_type d) { this->k += d; return *this; }
+            auto& operator-=(difference_type d) { this->k -= d; return *this; }
+
+            using SubstringSetIterator::operator-;
+            auto operator+(difference_type d) { return ReversedSubstringSetIterator { this->st, this->k + d }; }
+            auto operator-(difference_type d) { return ReversedSubstringSetIterator { this->st, this->k - d }; }
         };
 
         using iterator = SubstringSetIterator;
-- 
2.43.0


From 5a0a85337d14d4801ca21e9f2cd0fac22d95936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 086/178] fix: MapTrie::add followed an empty link left by a
 lookup of a missing key

---
 library/string/trie_map.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/library/string/trie_map.hpp b/library/string/trie_map.hpp
index e007187..55bda32 100644
--- a/library/string/trie_map.hpp
+++ b/library/string/trie_map.hpp
@@ -44,9 +44,11 @@ namespace suisen {
         node_type& add(const Container& s, int start = 0) {
             int cur = start;
             for (key_type c : s) {
-                auto [it, inserted] = nodes[cur].try_emplace(c, nodes.size());
-                if (inserted) nodes.emplace_back();
-                cur = it->second;
+                if (nodes[cur][c] == none) {
+                    nodes[cur][c] = nodes.size();
+                    nodes.emplace_back();
+                }
+                cur = nodes[cur][c];
             }
             return nodes[cur];
         }
-- 
2.43.0


From 97a6dd4c3ad8e889e261a3ddf8d3f6e148802c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 087/178] fix: DynamicRollingHash::set did not compile

---
 library/string/dynamic_rolling_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/dynamic_rolling_hash.hpp b/library/string/dynamic_rolling_hash.hpp
index 3fed14b..b98c6ef 100644
--- a/library/string/dynamic_rolling_hash.hpp
+++ b/library/string/dynamic_rolling_hash.hpp
@@ -126,7 +126,7 @@ namespace suisen {
 
         template <typename T>
         void set(size_t k, const T& val) {
-            _seq = node::update_value(_seq, k, val);
+            _seq = node::set(_seq, k, val);
         }
         template <typename T>
         void insert(size_t k, const T& val) {
-- 
2.43.0


From 37993d601098a57d156573a10832ed49a615ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:57 +0000
Subject: [PATCH 088/178] fix: factorial_number used a member fenwick_tree_set
 does not have

---
 library/number/factorial_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/factorial_number.hpp b/library/number/factorial_number.hpp
index 0d4ff69..501c7a0 100644
--- a/library/number/factorial_number.hpp
+++ b/library/number/factorial_number.hpp
@@ -23,7 +23,7 @@ namespace suisen {
             fenwick_tree_set st(_n, true);
             for (int i = 0; i < _n - 1; ++i) {
                 int v = perm[i];
-                _d[_n - 2 - i] = st.index_of(v);
+                _d[_n - 2 - i] = st.count_lt(v);
                 st.erase(v);
             }
         }
-- 
2.43.0


From ef5e15a5231f22edd219873ae09b96414b69b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:57 +0000
Subject: [PATCH 089/178] fix: FactorizedForm did not compile

---
 library/number/factorized_form.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/factorized_form.hpp b/library/number/factorized_form.hpp
index 6ccf836..f339ab2 100644
--- a/library/number/factorized_form.hpp
+++ b/library/number/factorized_form.hpp
@@ -24,7 +24,7 @@ namespace suisen {
         }
     };
     template <typename T, std::enable_if_t<std::is_integral_v<T>, std::nullptr_t> = nullptr>
-    using FactorizedForm = std::vector<PrimePower>;
+    using FactorizedForm = std::vector<PrimePower<T>>;
 } // namespace suisen
 
 namespace std {
-- 
2.43.0


From 363d2254f37e021d60c2988f0778c7b361a131b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:46 +0000
Subject: [PATCH 090/178] fix: Montgomery::reduce and add overflowed for moduli
 above R / 2

---
 library/number/montogomery.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/number/montogomery.hpp b/library/number/montogomery.hpp
index 7aa7923..1aa5e16 100644
--- a/library/number/montogomery.hpp
+++ b/library/number/montogomery.hpp
@@ -48,7 +48,8 @@ namespace suisen {
                 //  => (T + m * N) / R is an integer.
                 //  => t * R = T + m * N = T (mod N)
                 //  => t = T R^(-1) (mod N)
-                DInt t = divR(T + m * N);
+                // (T + m * N does not fit in DInt if N >= R / 2, so add the halves separately; the lower ones carry unless T = 0 (mod R))
+                DInt t = static_cast<DInt>(divR(T)) + divR(m * N) + (modR(T) != 0);
 
                 // Note:
                 //  1. 0 <= T < RN
@@ -59,7 +60,7 @@ namespace suisen {
             }
 
             constexpr Int add(Int A, Int B) const {
-                return (A += B) >= N ? A - N : A;
+                return A >= N - B ? A - (N - B) : A + B;
             }
             constexpr Int sub(Int A, Int B) const {
                 return (A -= B) < 0 ? A + N : A;
-- 
2.43.0


From 23a254ef3c953af159f8f586e7fb6ff1f0f50ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:46 +0000
Subject: [PATCH 091/178] fix: Montgomery::sub never added the modulus back

---
 library/number/montogomery.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/montogomery.hpp b/library/number/montogomery.hpp
index 1aa5e16..3b38942 100644
--- a/library/number/montogomery.hpp
+++ b/library/number/montogomery.hpp
@@ -63,7 +63,7 @@ namespace suisen {
                 return A >= N - B ? A - (N - B) : A + B;
             }
             constexpr Int sub(Int A, Int B) const {
-                return (A -= B) < 0 ? A + N : A;
+                return A < B ? A - B + N : A - B;
             }
             constexpr Int mul(Int A, Int B) const {
                 return reduce(static_cast<DInt>(A) * B);
-- 
2.43.0


From c81909d6f44e5990f254930c728dda58531298c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:46 +0000
Subject: [PATCH 092/178] fix: number/util factorize overflowed in b * b and
 did not finish for n close to the limit of its type

---
 library/number/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/util.hpp b/library/number/util.hpp
index a51258d..7751f72 100644
--- a/library/number/util.hpp
+++ b/library/number/util.hpp
@@ -58,7 +58,7 @@ namespace suisen {
             res.emplace_back(p, cnt);
             };
         for (int p : primes) f(p);
-        for (T b = next_prime; b * b <= n; b += period) {
+        for (T b = next_prime; b <= n / b; b += period) {
             for (int offset : s) f(b + offset);
         }
         if (n != 1) res.emplace_back(n, 1);
-- 
2.43.0


From f8015fdf1cb0c67938665963fe598d3b50c9b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:46 +0000
Subject: [PATCH 093/178] fix: factorial_number took the absolute value of
 LLONG_MIN

---
 library/number/factorial_number.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/number/factorial_number.hpp b/library/number/factorial_number.hpp
index 501c7a0..8bb5155 100644
--- a/library/number/factorial_number.hpp
+++ b/library/number/factorial_number.hpp
@@ -12,10 +12,10 @@ namespace suisen {
         factorial_number(): factorial_number(1) {}
         explicit factorial_number(int n, long long val = 0): _n(n), _d(_n - 1) {
             bool neg = val < 0;
-            val = std::abs(val);
-            for (int i = 0; val and i < _n - 1; ++i) {
-                _d[i] = val % (i + 2);
-                val /= i + 2;
+            unsigned long long abs_val = neg ? -(unsigned long long) val : val;
+            for (int i = 0; abs_val and i < _n - 1; ++i) {
+                _d[i] = abs_val % (i + 2);
+                abs_val /= i + 2;
             }
             if (neg) *this = -*this;
         }
@@ -121,10 +121,10 @@ namespace suisen {
 
         factorial_number& operator*=(long long val) {
             bool neg = val < 0;
-            val = std::abs(val);
+            unsigned long long abs_val = neg ? -(unsigned long long) val : val;
             __int128_t carry = 0;
             for (int i = 0; i < _n - 1; ++i) {
-                __int128_t x = __int128_t(_d[i]) * val + carry;
+                __int128_t x = __int128_t(_d[i]) * abs_val + carry;
                 _d[i] = x % (i + 2);
                 carry = x / (i + 2);
             }
-- 
2.43.0


From 74ad4293e9f1d8f07db918a80dbb9830a9cc9949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:46 +0000
Subject: [PATCH 094/178] fix: OrderMod::is_prime was true for prime powers, so
 primitive_root could return a multiple of the prime

---
 library/number/order_Z_mZ.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index 35a5348..639c519 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -50,7 +50,7 @@ namespace suisen {
         OrderMod() = default;
         OrderMod(T m) : _mod(m) {
             auto factorized = fast_factorize::factorize<T>(_mod);
-            _is_prime = factorized.size() == 1;
+            _is_prime = factorized.size() == 1 and factorized[0].second == 1;
             _lambda = _carmichael(factorized);
             _phi = _totient(factorized);
             for (auto [p, q] : fast_factorize::factorize<T>(_lambda)) {
-- 
2.43.0


From 48a6a69b4d0c3bceae83f9899b49ed4a8ffcd1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:46 +0000
Subject: [PATCH 095/178] fix: OrderMod::is_primitive_root accepted arguments
 not coprime to the modulus

---
 library/number/order_Z_mZ.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index 639c519..2c51214 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -152,7 +152,7 @@ namespace suisen {
 
         template <typename mint>
         bool _is_primitive_root_impl(U a) const {
-            if (_lambda != _phi) return false;
+            if (_lambda != _phi or std::gcd(a, _mod) != 1) return false;
             if (_mod == 2) return a % 2 == 1;
 
             const int k = _fac_lambda.size();
-- 
2.43.0


From b8587e6ae42eec2518afdfc3a6fcdecf89f73a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:46 +0000
Subject: [PATCH 096/178] fix: OrderMod::is_primitive_root used a 31-bit modint
 for moduli up to 2^32

---
 library/number/order_Z_mZ.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index 2c51214..6de4893 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -61,7 +61,7 @@ namespace suisen {
         }
 
         bool is_primitive_root(U a) const {
-            if (_mod < 1ULL << 32) {
+            if (_mod < 1ULL << 31) {
                 using mint = atcoder::dynamic_modint<1000000000>;
                 U old_mod = mint::mod();
                 mint::set_mod(_mod);
-- 
2.43.0


From b4953027b76c51ceca733fd2df190d80893d7d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:46 +0000
Subject: [PATCH 097/178] fix: discrete logarithms did not finish for moduli >=
 2^30

---
 library/number/discrete_logarithm.hpp      | 2 +-
 library/number/fast_discrete_logarithm.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/discrete_logarithm.hpp b/library/number/discrete_logarithm.hpp
index 3fed267..4b7e2f1 100644
--- a/library/number/discrete_logarithm.hpp
+++ b/library/number/discrete_logarithm.hpp
@@ -9,7 +9,7 @@ namespace suisen {
     namespace internal::discrete_logarithm {
         int floor_log2(int m) {
             int res = 0;
-            while (1 << (res + 1) <= m) ++res;
+            while (m >> (res + 1)) ++res;
             return res;
         }
     }
diff --git a/library/number/fast_discrete_logarithm.hpp b/library/number/fast_discrete_logarithm.hpp
index 362edaa..a3323a8 100644
--- a/library/number/fast_discrete_logarithm.hpp
+++ b/library/number/fast_discrete_logarithm.hpp
@@ -355,7 +355,7 @@ namespace suisen::fast_discrete_logarithm {
 
             const int floor_log2_m = [m] {
                 int res = 0;
-                while (1 << (res + 1) <= m) ++res;
+                while (m >> (res + 1)) ++res;
                 return res;
             }();
 
-- 
2.43.0


From 1caaf85814870000102aa3eabfa0b3441ca941d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:46 +0000
Subject: [PATCH 098/178] fix: prime_mod_sqrt mishandled primes p with 2^32 | p
 - 1

---
 library/number/mod_sqrt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/mod_sqrt.hpp b/library/number/mod_sqrt.hpp
index 743bc5f..4033c0b 100644
--- a/library/number/mod_sqrt.hpp
+++ b/library/number/mod_sqrt.hpp
@@ -42,7 +42,7 @@ namespace suisen {
             ++b;
         }
 
-        int tlz = __builtin_ctz(p - 1);
+        int tlz = __builtin_ctzll(p - 1);
         long long q = (p - 1) >> tlz;
 
         long long ia = inv_mod64(a, p);
@@ -55,7 +55,7 @@ namespace suisen {
                 return x;
             }
             long long e = mul_mod64(ia, x2, p);
-            if (pow_mod64(e, 1 << (tlz - shift), p) != 1) {
+            if (pow_mod64(e, 1LL << (tlz - shift), p) != 1) {
                 x = mul_mod64(x, b, p);
             }
             b = mul_mod64(b, b, p);
-- 
2.43.0


From ac0c57f9a22bd52779c4cfccb065c578119212f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:46 +0000
Subject: [PATCH 099/178] fix: composite_mod_sqrt mishandled negative arguments
 for even moduli

---
 library/number/mod_sqrt.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/number/mod_sqrt.hpp b/library/number/mod_sqrt.hpp
index 4033c0b..8ff380f 100644
--- a/library/number/mod_sqrt.hpp
+++ b/library/number/mod_sqrt.hpp
@@ -70,6 +70,7 @@ namespace suisen {
                 pq[i] = pq[i - 1] * p;
             }
             if ((a %= pq[q]) == 0) return 0;
+            if (a < 0) a += pq[q];
 
             int b = 0;
             for (; a % p == 0; a /= p) {
-- 
2.43.0


From 15fcfac0ea7ef3f4bc2767adfedd055f726612a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:46 +0000
Subject: [PATCH 100/178] fix: barrett returned wrong quotients for moduli
 above 2^31

---
 library/number/barrett_reduction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/barrett_reduction.hpp b/library/number/barrett_reduction.hpp
index be8326d..d8f7de0 100644
--- a/library/number/barrett_reduction.hpp
+++ b/library/number/barrett_reduction.hpp
@@ -20,7 +20,7 @@ namespace suisen {
         template <bool care_M1 = true> constexpr std::pair<uint64_t, uint32_t> quorem(uint64_t x) const {
             if constexpr (care_M1) if (M == 1) return { x, 0 };
             uint64_t q = (__uint128_t(x) * L) >> 64;
-            int32_t r = x - q * M;
+            int64_t r = x - q * M;
             if (r < 0) --q, r += M;
             return { q, uint32_t(r) };
         }
-- 
2.43.0


From 196c6fefbb64aece51df5551707ac5f7b04f1d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:24 +0000
Subject: [PATCH 101/178] fix: sbt_node::move_down_left / move_down_right did
 not compile

---
 library/number/stern_brocot_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/stern_brocot_tree.hpp b/library/number/stern_brocot_tree.hpp
index c59bf2d..92a4d80 100644
--- a/library/number/stern_brocot_tree.hpp
+++ b/library/number/stern_brocot_tree.hpp
@@ -104,9 +104,9 @@ namespace suisen {
         }
 
         // move down k steps to the left
-        void move_down_left(Int k) { move(Left, k); }
+        void move_down_left(Int k) { move_down(Left, k); }
         // move down k steps to the right
-        void move_down_right(Int k) { move(Right, k); }
+        void move_down_right(Int k) { move_down(Right, k); }
         // move down k steps in the direction `dir`
         void move_down(sbt_arc dir, Int k) {
             assert(k >= 0);
-- 
2.43.0


From ad597fc2fef1293f1aa3edc601471460524db9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 102/178] fix: Rational::compare did not alternate the
 direction along the continued fraction

---
 library/number/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 8bedaea..6d68a08 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -41,14 +41,14 @@ struct Rational {
         if ((sgn_l ^ sgn_r) < 0) return sgn_l;
         T nl = std::abs(l.num), dl = l.den, nr = std::abs(r.num), dr = r.den;
         bool rev = sgn_l < 0;
-        for (; dl and dr; rev = -rev) {
+        for (; dl and dr; rev = not rev) {
             T ql = nl / dl, qr = nr / dr;
             if (ql != qr) return pow_m1((ql < qr) xor rev);
             T rl = nl % dl, rr = nr % dr;
             nl = dl, dl = rl;
             nr = dr, dr = rr;
         }
-        return dl or dr ? pow_m1((dr > 0) xor rev) : 0;
+        return dl or dr ? pow_m1((dl > 0) xor rev) : 0;
     }
     
     friend bool operator<(const Rational &l, const Rational &r) {
-- 
2.43.0


From 7ce7f4db1421e9ee00b95472f4f2bf02c75a8db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 103/178] fix: Rational::floor and ceil truncated toward zero

---
 library/number/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 6d68a08..6625501 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -129,10 +129,10 @@ struct Rational {
     }
 
     T floor() const {
-        return num >= 0 ? num / den : -(-num / den);
+        return num / den - (num % den < 0);
     }
     T ceil() const {
-        return num >= 0 ? -(-num / den) : num / den;
+        return num / den + (num % den > 0);
     }
 
     static std::pair<Rational, Rational> approximate(long double target, T max_numerator, T max_denominator) {
-- 
2.43.0


From beec0bef36e55e1ef6c27d9e594b461c3af8c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 104/178] fix: rational.hpp uses assert without including
 cassert

---
 library/number/rational.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 6625501..16bfe97 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RATIONAL
 #define SUISEN_RATIONAL
 
+#include <cassert>
 #include <cmath>
 #include <ostream>
 #include <numeric>
-- 
2.43.0


From e0c847ca64e12c78d5107f9437e4346136ff6301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 105/178] fix: BezoutEquation::solve divided by zero for b = 0

---
 library/number/bezout_equation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/bezout_equation.hpp b/library/number/bezout_equation.hpp
index 7e57bf2..24c021d 100644
--- a/library/number/bezout_equation.hpp
+++ b/library/number/bezout_equation.hpp
@@ -237,7 +237,7 @@ namespace suisen {
                     const long long cx = b / g, cy = -a / g;
                     z /= g;
                     __int128_t x0 = __int128_t(x) * z, y0 = __int128_t(y) * z;
-                    __int128_t k0 = -x0 / cx;
+                    __int128_t k0 = cx ? -x0 / cx : 0;
                     return BezoutEquationSolution::make_linear(x0 + k0 * cx, cx, y0 + k0 * cy, cy);
                 }
             }
-- 
2.43.0


From 3bcc98aa1c03ee2b6f5aa7d2a5f497287a34aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 106/178] fix: BezoutEquationSolution::count overflowed instead
 of reporting infinitely many solutions of 0x + 0y = 0

---
 library/number/bezout_equation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/number/bezout_equation.hpp b/library/number/bezout_equation.hpp
index 24c021d..912494b 100644
--- a/library/number/bezout_equation.hpp
+++ b/library/number/bezout_equation.hpp
@@ -78,6 +78,7 @@ namespace suisen {
             if (t == SolutionType::None) {
                 return 0;
             } else if (t == SolutionType::Arbitrary) {
+                if (kxmin == neginf or kxmax == posinf or kymin == neginf or kymax == posinf) return std::nullopt;
                 return T(kxmax - kxmin + 1) * T(kymax - kymin + 1);
             } else {
                 auto k_range = get_k_range();
-- 
2.43.0


From 70fdc28588610738ae2d9900ef25a352d5f1478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 107/178] fix: multiple_quotients_ranges did not finish for the
 maximum value of its type

---
 library/number/enumerate_quotient.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/number/enumerate_quotient.hpp b/library/number/enumerate_quotient.hpp
index e7accba..bfd84fd 100644
--- a/library/number/enumerate_quotient.hpp
+++ b/library/number/enumerate_quotient.hpp
@@ -89,6 +89,7 @@ namespace suisen {
                 r = std::min(r, qs[i] == 0 ? std::numeric_limits<T>::max() : vs[i] / qs[i]);
             }
             res.emplace_back(l, r, std::move(qs));
+            if (r >= max_val) break;
         }
         return res;
     }
-- 
2.43.0


From 00dc0a3f5ce0991876c802891bffe92cad6e8f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 108/178] fix: min_of_mod_of_linear overflowed for moduli above
 2^30

---
 library/number/min_of_mod_of_linear.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/min_of_mod_of_linear.hpp b/library/number/min_of_mod_of_linear.hpp
index 8e83a49..9d65a38 100644
--- a/library/number/min_of_mod_of_linear.hpp
+++ b/library/number/min_of_mod_of_linear.hpp
@@ -25,8 +25,8 @@ namespace suisen {
 
         int l = -1, r = m - 1;
         while (r - l > 1) {
-            int k = (l + r) >> 1;
-            if (atcoder::floor_sum(n, m, a, b + (m - 1 - k)) < v) {
+            int k = l + (r - l) / 2;
+            if (atcoder::floor_sum(n, m, a, (long long) b + (m - 1 - k)) < v) {
                 r = k;
             } else {
                 l = k;
-- 
2.43.0


From ec3de9469d7d8ec9aee6d8a75970c8b878999797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:51 +0000
Subject: [PATCH 109/178] fix: unsigned_bigint: strip leading zeros when
 constructing from a string

---
 library/math/unsigned_bigint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 911de2c..daab1eb 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -39,6 +39,7 @@ namespace suisen {
                     v = v * 10 + d;
                 }
             }
+            _cut_leading_zeros();
         }
         unsigned_bigint(const char* s) : unsigned_bigint(std::string(s)) {}
 
-- 
2.43.0


From 51cdf426932d5ba6b30c84eef5506694874c4b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:51 +0000
Subject: [PATCH 110/178] fix: unsigned_bigint: do not inherit the vector
 constructors, which hijack construction from size_t and braces

---
 library/math/unsigned_bigint.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index daab1eb..0598991 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -195,7 +195,8 @@ namespace suisen {
             return out << v._to_string();
         }
     private:
-        using std::vector<int>::vector;
+        template <typename InputIterator, std::enable_if_t<not std::is_integral_v<InputIterator>, std::nullptr_t> = nullptr>
+        unsigned_bigint(InputIterator first, InputIterator last) : vector(first, last) {}
 
         void _check_leading_zeros() const {
             assert(this->empty() or this->back());
-- 
2.43.0


From ad3a9d159a8fe85237ee7ab2ca115176b021144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:51 +0000
Subject: [PATCH 111/178] fix: bigint: construct correctly from the minimum
 value of a signed type

---
 library/math/bigint.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/math/bigint.hpp b/library/math/bigint.hpp
index b51778f..e712f9e 100644
--- a/library/math/bigint.hpp
+++ b/library/math/bigint.hpp
@@ -14,12 +14,12 @@ namespace suisen {
         bigint(T v) {
             _neg = false;
             if constexpr (std::is_signed_v<T>) {
-                if (v < 0) {
-                    _neg = true;
-                    v = -v;
-                }
+                using U = std::make_unsigned_t<T>;
+                _neg = v < 0;
+                _dat = unsigned_bigint(static_cast<U>(_neg ? U(0) - static_cast<U>(v) : static_cast<U>(v)));
+            } else {
+                _dat = unsigned_bigint(v);
             }
-            _dat = unsigned_bigint(v);
         }
         bigint(const std::string& s) {
             if (s.front() == '-') {
-- 
2.43.0


From 68e26d2658a707ca055716bb5dd3c65715359145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:17 +0000
Subject: [PATCH 112/178] fix: convolution_naive: return an empty result for
 empty operands (0 * 0 of big integers threw length_error)

---
 library/convolution/convolution_naive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/convolution/convolution_naive.hpp b/library/convolution/convolution_naive.hpp
index 7c3f049..8593bf0 100644
--- a/library/convolution/convolution_naive.hpp
+++ b/library/convolution/convolution_naive.hpp
@@ -7,6 +7,7 @@ namespace suisen::internal {
     template <typename T, typename R = T>
     std::vector<R> convolution_naive(const std::vector<T>& a, const std::vector<T>& b) {
         const int n = a.size(), m = b.size();
+        if (n == 0 or m == 0) return {};
         std::vector<R> c(n + m - 1);
         if (n < m) {
             for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) c[i + j] += R(a[i]) * b[j];
-- 
2.43.0


From a96c3e0531fb1091c9dc2145aa74b28da9dcd186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:17 +0000
Subject: [PATCH 113/178] fix: unsigned_bigint: Newton division by a divisor of
 a power of the base doubled the inverse

---
 library/math/unsigned_bigint.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 0598991..065c764 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -436,7 +436,8 @@ namespace suisen {
                         carry = 0;
                     }
                 }
-                ++bc[k];
+                // bc = 2 D^k - bc (if bc = D^k, it is kept as is)
+                if (carry == 0) ++bc[k];
                 c *= bc;
                 c.erase(c.begin(), c.begin() + dB);
                 bc = b * c;
-- 
2.43.0


From 322244cff83594d4aeaec77b6674d8592a16e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:45 +0000
Subject: [PATCH 114/178] fix: unsigned_bigint: keep the partial remainder
 normalized in schoolbook division

---
 library/math/unsigned_bigint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 065c764..cd8687c 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -399,6 +399,7 @@ namespace suisen {
                 }
                 if (i) {
                     r.insert(r.begin(), a[i - 1]);
+                    r._cut_leading_zeros();
                 }
             }
             std::reverse(q.begin(), q.end());
-- 
2.43.0


From b68a49059e7c34f631001c92e07e92a3d8d11bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:43 +0000
Subject: [PATCH 115/178] fix: chirp_z_transform: do not scale by powers of a
 twice for short inputs

---
 library/transform/chirp_z_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/transform/chirp_z_transform.hpp b/library/transform/chirp_z_transform.hpp
index a95a3ec..0856892 100644
--- a/library/transform/chirp_z_transform.hpp
+++ b/library/transform/chirp_z_transform.hpp
@@ -45,7 +45,7 @@ namespace suisen {
             for (int k = 1; k < m; ++k) g[k] += f[0];
             return g;
         }
-        if (n < 60) return internal::chirp_z_transform_naive(f, a, r, m);
+        if (n < 60) return internal::chirp_z_transform_naive(f, T(1), r, m);
         const T r_inv = r.inv();
 
         const int l = n + m - 1;
-- 
2.43.0


From 4931a64ab01fb24dda1876180a0b607cae15067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:43 +0000
Subject: [PATCH 116/178] fix: chirp_z_transform: make the default convolution
 argument usable

---
 library/transform/chirp_z_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/transform/chirp_z_transform.hpp b/library/transform/chirp_z_transform.hpp
index 0856892..fe98d11 100644
--- a/library/transform/chirp_z_transform.hpp
+++ b/library/transform/chirp_z_transform.hpp
@@ -33,7 +33,7 @@ namespace suisen {
     /**
      * @brief Calculates f(ar^k) for k=0,...,m-1 in O(M(n+m-1)+n+m) time
      */
-    template <typename T, typename Convolution>
+    template <typename T, typename Convolution = decltype((internal::default_convolution))>
     std::vector<T> chirp_z_transform(std::vector<T> f, T a, T r, int m, Convolution&& convolution = internal::default_convolution) {
         const int n = f.size();
         std::vector<T> g(m);
-- 
2.43.0


From 90c9ab8ef959ebeae8e5edfb6a81aa6fdd5dced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:43 +0000
Subject: [PATCH 117/178] fix: RelaxedConvolution: initialize the length in the
 default constructor

---
 library/convolution/relaxed_convolution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/convolution/relaxed_convolution.hpp b/library/convolution/relaxed_convolution.hpp
index 6aa4581..cdf7eae 100644
--- a/library/convolution/relaxed_convolution.hpp
+++ b/library/convolution/relaxed_convolution.hpp
@@ -40,7 +40,7 @@ namespace suisen {
 
     private:
         convolution_type _convolve = [](const polynomial_type&, const polynomial_type&) -> polynomial_type { assert(false); };
-        int _n;
+        int _n = 0;
         polynomial_type _f, _g, _h;
 
         polynomial_type range_convolve(int l1, int r1, int l2, int r2) {
-- 
2.43.0


From 3ce67aa8f98f8d7c281b4db0a919148f8dec04ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:43 +0000
Subject: [PATCH 118/178] fix: SemiRelaxedConvolution(NTT): initialize the
 length in the default constructor

---
 library/convolution/semi_relaxed_convolution.hpp     | 2 +-
 library/convolution/semi_relaxed_convolution_ntt.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/convolution/semi_relaxed_convolution.hpp b/library/convolution/semi_relaxed_convolution.hpp
index 815dfe2..1b800d4 100644
--- a/library/convolution/semi_relaxed_convolution.hpp
+++ b/library/convolution/semi_relaxed_convolution.hpp
@@ -39,7 +39,7 @@ namespace suisen {
 
     private:
         convolution_type _convolve = [](const polynomial_type&, const polynomial_type&) -> polynomial_type { assert(false); };
-        int _n;
+        int _n = 0;
         polynomial_type _f, _g, _h;
 
         polynomial_type range_convolve(int l1, int r1, int l2, int r2) {
diff --git a/library/convolution/semi_relaxed_convolution_ntt.hpp b/library/convolution/semi_relaxed_convolution_ntt.hpp
index 15f832a..5da0e29 100644
--- a/library/convolution/semi_relaxed_convolution_ntt.hpp
+++ b/library/convolution/semi_relaxed_convolution_ntt.hpp
@@ -56,7 +56,7 @@ namespace suisen {
         }
 
     private:
-        int _n;
+        int _n = 0;
         std::vector<mint> _f, _g, _h;
 
         std::vector<std::vector<mint>> _f_fft;
-- 
2.43.0


From 73a929b7604e066e31dbbcc927ce2177e85cab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:43 +0000
Subject: [PATCH 119/178] fix: multi_variate_convolution_circular: use the
 modulus directly only if it is prime

---
 library/convolution/multi_variate_convolution_circular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/convolution/multi_variate_convolution_circular.hpp b/library/convolution/multi_variate_convolution_circular.hpp
index bbbba27..ac0020b 100644
--- a/library/convolution/multi_variate_convolution_circular.hpp
+++ b/library/convolution/multi_variate_convolution_circular.hpp
@@ -87,7 +87,7 @@ namespace suisen {
 
             const int t = std::reduce(n.begin(), n.end(), 1, [](int x, int y) { return std::lcm(x, y); });
 
-            if ((mint::mod() - 1) % t == 0) {
+            if ((mint::mod() - 1) % t == 0 and miller_rabin::is_prime(mint::mod())) {
                 _mods = { mint::mod() };
             } else {
                 __int128_t prod = 1;
-- 
2.43.0


From af789a25d01a0f1d0018bdc810b894be6f854a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:43 +0000
Subject: [PATCH 120/178] fix: SemiRelaxedConvolution: accept an empty fixed
 operand

---
 library/convolution/semi_relaxed_convolution.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/convolution/semi_relaxed_convolution.hpp b/library/convolution/semi_relaxed_convolution.hpp
index 1b800d4..29e79f5 100644
--- a/library/convolution/semi_relaxed_convolution.hpp
+++ b/library/convolution/semi_relaxed_convolution.hpp
@@ -22,6 +22,7 @@ namespace suisen {
         value_type append(const value_type &gi) {
             ++_n;
             _g.push_back(gi);
+            if (int(_h.size()) < _n) _h.resize(_n);
             for (int p = 1;; p <<= 1) {
                 int l1 = p - 1, r1 = l1 + p, l2 = _n - p, r2 = _n;
                 add(l1 + l2, range_convolve(l1, r1, l2, r2));
-- 
2.43.0


From 7086eee830a83528c0773312c7652f5857f373d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:43 +0000
Subject: [PATCH 121/178] fix: polynomial_eval_multipoint_eval: include the FPS
 header it uses

---
 library/convolution/polynomial_eval_multipoint_eval.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/convolution/polynomial_eval_multipoint_eval.hpp b/library/convolution/polynomial_eval_multipoint_eval.hpp
index 45d9e8b..903b180 100644
--- a/library/convolution/polynomial_eval_multipoint_eval.hpp
+++ b/library/convolution/polynomial_eval_multipoint_eval.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_APPLY_POLYNOMIAL_MULTIPOINT_EVAL
 #define SUISEN_APPLY_POLYNOMIAL_MULTIPOINT_EVAL
 
+#include "library/polynomial/fps.hpp"
 #include "library/polynomial/multi_point_eval.hpp"
 #include "library/type_traits/type_traits.hpp"
 
-- 
2.43.0


From 929a6b76b8d4b11c84f048d710ee975353d1b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 122/178] fix: FPSNaive: inv, exp, log and pow modulo x^0 wrote
 out of bounds

---
 library/polynomial/fps_naive.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/polynomial/fps_naive.hpp b/library/polynomial/fps_naive.hpp
index bf85b6b..dace7be 100644
--- a/library/polynomial/fps_naive.hpp
+++ b/library/polynomial/fps_naive.hpp
@@ -171,6 +171,7 @@ namespace suisen {
         }
         FPSNaive inv(int n = -1) const {
             if (n < 0) n = size();
+            if (n == 0) return {};
             FPSNaive g(n);
             const value_type inv_f0 = ::inv(unsafe_get(0));
             g.unsafe_get(0) = inv_f0;
@@ -182,6 +183,7 @@ namespace suisen {
         }
         FPSNaive exp(int n = -1) const {
             if (n < 0) n = size();
+            if (n == 0) return {};
             assert(unsafe_get(0) == value_type{ 0 });
             FPSNaive g(n);
             g.unsafe_get(0) = value_type{ 1 };
@@ -193,6 +195,7 @@ namespace suisen {
         }
         FPSNaive log(int n = -1) const {
             if (n < 0) n = size();
+            if (n == 0) return {};
             assert(unsafe_get(0) == value_type{ 1 });
             FPSNaive g(n);
             g.unsafe_get(0) = value_type{ 0 };
@@ -205,6 +208,7 @@ namespace suisen {
         }
         FPSNaive pow(const long long k, int n = -1) const {
             if (n < 0) n = size();
+            if (n == 0) return {};
             if (k == 0) {
                 FPSNaive res(n);
                 res[0] = 1;
-- 
2.43.0


From 50d929d4f546a8027872fe601e93da85816a8aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 123/178] fix: FPSNaive::safe_sqrt crashed if the root vanishes
 modulo x^n

---
 library/polynomial/fps_naive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/fps_naive.hpp b/library/polynomial/fps_naive.hpp
index dace7be..fb6a0f3 100644
--- a/library/polynomial/fps_naive.hpp
+++ b/library/polynomial/fps_naive.hpp
@@ -236,6 +236,7 @@ namespace suisen {
             while (dl < size() and unsafe_get(dl) == value_type{ 0 }) ++dl;
             if (dl == size()) return FPSNaive(n, 0);
             if (dl & 1) return std::nullopt;
+            if (dl / 2 >= n) return FPSNaive(n, 0);
 
             const int m = n - dl / 2;
 
-- 
2.43.0


From f7c571901d2fef876804ebf7bc3c3b1b76c173fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 124/178] fix: FPS/FormalPowerSeries::safe_sqrt crashed if the
 root vanishes modulo x^n

---
 library/polynomial/formal_power_series.hpp | 1 +
 library/polynomial/fps.hpp                 | 1 +
 2 files changed, 2 insertions(+)

diff --git a/library/polynomial/formal_power_series.hpp b/library/polynomial/formal_power_series.hpp
index b829524..f41f17b 100644
--- a/library/polynomial/formal_power_series.hpp
+++ b/library/polynomial/formal_power_series.hpp
@@ -325,6 +325,7 @@ namespace suisen {
             while (tlz < size() and (*this)[tlz] == 0) ++tlz;
             if (tlz == size()) return FormalPowerSeries(n, 0);
             if (tlz & 1) return std::nullopt;
+            if (tlz / 2 >= n) return FormalPowerSeries(n, 0);
             const int m = n - tlz / 2;
 
             FormalPowerSeries h(this->begin() + tlz, this->end());
diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 9568dfe..67779e0 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -264,6 +264,7 @@ namespace suisen {
             while (tlz < size() and (*this)[tlz] == 0) ++tlz;
             if (tlz == size()) return FPS(n, 0);
             if (tlz & 1) return std::nullopt;
+            if (tlz / 2 >= n) return FPS(n, 0);
             const int m = n - tlz / 2;
 
             FPS h(this->begin() + tlz, this->end());
-- 
2.43.0


From 75885b616b61f5cbac99093a399d0d83d00ac9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 125/178] fix: FPS::diff_inplace wrote out of bounds for the
 empty series

---
 library/polynomial/fps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 67779e0..4462473 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -179,6 +179,7 @@ namespace suisen {
         /* Other Operations */
 
         FPS& diff_inplace() {
+            if (this->empty()) return *this;
             const int n = size();
             for (int i = 1; i < n; ++i) (*this)[i - 1] = (*this)[i] * i;
             return (*this)[n - 1] = 0, *this;
-- 
2.43.0


From 1df1d161ede835ad65a3ddb0c576d196c90cf0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 126/178] fix: FPS::prod of an empty list

---
 library/polynomial/fps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 4462473..15ba3e7 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -294,6 +294,7 @@ namespace suisen {
         }
 
         static FPS prod(const std::vector<FPS>& fs) {
+            if (fs.empty()) return { 1 };
             auto comp = [](const FPS& f, const FPS& g) { return f.size() > g.size(); };
             std::priority_queue<FPS, std::vector<FPS>, decltype(comp)> pq{ comp };
             for (const auto& f : fs) pq.push(f);
-- 
2.43.0


From f3b9f2bf8333d6a93c36761b6fcea628d78e32d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 127/178] fix: ArrayFPSNaive::sqrt read beyond the array for
 even leading zeros

---
 library/polynomial/array_fps_naive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/array_fps_naive.hpp b/library/polynomial/array_fps_naive.hpp
index cfd34e4..92b9c3e 100644
--- a/library/polynomial/array_fps_naive.hpp
+++ b/library/polynomial/array_fps_naive.hpp
@@ -183,7 +183,7 @@ namespace suisen {
             g[bg] = ::sqrt((*this)[bf]);
             value_type inv_2g0 = ::inv(2 * g[bg]);
             for (int i = 1; i <= d; ++i) {
-                g[bg + i] = (*this)[bf + i];
+                if (bf + i <= DEG) g[bg + i] = (*this)[bf + i];
                 for (int j = 1; j < i; ++j) g[bg + i] -= g[bg + j] * g[bg + i - j];
                 g[bg + i] *= inv_2g0;
             }
-- 
2.43.0


From 49e8a2f02e4fc87cdd313454817c781faf8237dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 128/178] fix: polynomial_inv: return the inverse (the declared
 type did not compile)

---
 library/polynomial/polynomial_gcd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/polynomial_gcd.hpp b/library/polynomial/polynomial_gcd.hpp
index 857b1d3..fd7cdab 100644
--- a/library/polynomial/polynomial_gcd.hpp
+++ b/library/polynomial/polynomial_gcd.hpp
@@ -87,7 +87,7 @@ namespace suisen {
     }
     // @return x s.t. ax=1 (mod m)
     template <typename Polynomial>
-    std::pair<Polynomial, Polynomial> polynomial_inv(const Polynomial &a, const Polynomial &m) {
+    Polynomial polynomial_inv(const Polynomial &a, const Polynomial &m) {
         auto [x, _, g] = polynomial_ext_gcd(a, m);
         assert(g == Polynomial{1});
         return x;
-- 
2.43.0


From ac61e0d0d4145b85ab7adfc2b2cf4aa4b1cb2501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 129/178] fix: polynomial_gcd: return the gcd (did not compile)

---
 library/polynomial/polynomial_gcd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/polynomial/polynomial_gcd.hpp b/library/polynomial/polynomial_gcd.hpp
index fd7cdab..bb0d3f1 100644
--- a/library/polynomial/polynomial_gcd.hpp
+++ b/library/polynomial/polynomial_gcd.hpp
@@ -94,8 +94,8 @@ namespace suisen {
     }
     // @return gcd(a,b) (monic)
     template <typename Polynomial>
-    std::tuple<Polynomial, Polynomial, Polynomial> polynomial_gcd(const Polynomial &a, const Polynomial &b) {
-        return std::get<2>(ext_gcd(a, b));
+    Polynomial polynomial_gcd(const Polynomial &a, const Polynomial &b) {
+        return std::get<2>(polynomial_ext_gcd(a, b));
     }
 } // namespace suisen
 
-- 
2.43.0


From b7362d82c150c10f24af85198abab79c258ab856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 130/178] fix: VecSparseFPS: unary minus did not compile

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index d0e622a..62ffded 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -35,7 +35,7 @@ namespace suisen {
         VecSparseFPS operator-() const {
             VecSparseFPS res;
             for (const auto &[i, f] : _f) {
-                auto &back = res._f.emplace_back(i, {});
+                auto &back = res._f.emplace_back(i, std::vector<value_type>{});
                 for (const auto &v : f) back.second.push_back(-v);
             }
             return res;
-- 
2.43.0


From 05114937574e103e08783f505cb571c3d537249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 131/178] fix: VecSparseFPS: operator+ dropped the tail of the
 longer operand

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index 62ffded..d748757 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -43,7 +43,7 @@ namespace suisen {
         friend VecSparseFPS operator+(const VecSparseFPS &f, const VecSparseFPS &g) {
             const int n = f._f.size(), m = g._f.size();
             VecSparseFPS h;
-            for (int i = 0, j = 0; i < n and j < m;) {
+            for (int i = 0, j = 0; i < n or j < m;) {
                 if (j == m or (i < n and f._f[i].first < g._f[j].first)) {
                     h.add_to_last(f._f[i++]);
                 } else {
-- 
2.43.0


From 6f3fa351e43f0cac81b2dd920300360339276af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 132/178] fix: VecSparseFPS: operator* did not compile

---
 library/polynomial/vec_sparse_fps.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index d748757..b5e3c65 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -62,8 +62,8 @@ namespace suisen {
             }
             std::sort(data.begin(), data.end(), [](auto &p1, auto &p2) { return p1.first < p2.first; });
             VecSparseFPS h;
-            for (auto &[i, a] : data) {
-                h.add_to_last(i, std::move(a));
+            for (const auto &ia : data) {
+                h.add_to_last(ia);
             }
             return h;
         }
-- 
2.43.0


From 08604db424d909177d351c4f6fde7b0b48975a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 133/178] fix: VecSparseFPS::bostan_mori did not compile and
 ignored the constant term of Q

---
 library/polynomial/vec_sparse_fps.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index b5e3c65..1effcaa 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -116,7 +116,7 @@ namespace suisen {
 
         static value_type bostan_mori(VecSparseFPS P, std::vector<value_type> Q, long long m) {
             for (; m; m >>= 1) {
-                std::vector<mint> mQ = Q;
+                std::vector<value_type> mQ = Q;
                 for (int i = 1; i < int(Q.size()); i += 2) mQ[i] = -mQ[i];
                 auto nP = P * mQ;
                 P.clear();
@@ -128,7 +128,7 @@ namespace suisen {
                 Q.clear();
                 for (int i = 0; i < int(nQ.size()); i += 2) Q.push_back(nQ[i]);
             }
-            return P[0];
+            return P[0] / Q[0];
         }
 
     private:
-- 
2.43.0


From 871dd6fe7c10e6f3010185809088fae27f45134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:48 +0000
Subject: [PATCH 134/178] fix: FPS::exp modified (lengthened) an empty series

---
 library/polynomial/fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 15ba3e7..783bf49 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -229,7 +229,7 @@ namespace suisen {
             return res.intg();
         }
         FPS& exp_inplace(int n = -1) { return *this = exp(n); }
-        FPS exp(int n = -1) {
+        FPS exp(int n = -1) const {
             assert(safe_get(0) == 0);
             if (n < 0) n = size();
             if (n < 60) return FPSNaive<mint>(cut_copy(n)).exp(n);
-- 
2.43.0


From 716b47ceeb09a4dc225f458e643cbb15ef04a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:21 +0000
Subject: [PATCH 135/178] fix: polynomial_interpolation crashed without any
 points

---
 library/polynomial/polynomial_interpolation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/polynomial_interpolation.hpp b/library/polynomial/polynomial_interpolation.hpp
index 492d97f..890b7ce 100644
--- a/library/polynomial/polynomial_interpolation.hpp
+++ b/library/polynomial/polynomial_interpolation.hpp
@@ -9,6 +9,7 @@ namespace suisen {
     FPSType polynomial_interpolation(const std::vector<T>& xs, const std::vector<T>& ys) {
         assert(xs.size() == ys.size());
         int n = xs.size();
+        if (n == 0) return {};
         std::vector<FPSType> seg(2 * n), g(2 * n);
         for (int i = 0; i < n; ++i) seg[n + i] = FPSType{ -xs[i], 1 };
         for (int i = n - 1; i > 0; --i) {
-- 
2.43.0


From 6d2bc4d175dbd2f402103ed896c6608e0c20f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:21 +0000
Subject: [PATCH 136/178] fix: RationalFPS::sum of an empty list

---
 library/polynomial/rational_fps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/rational_fps.hpp b/library/polynomial/rational_fps.hpp
index 20be22f..dae09a2 100644
--- a/library/polynomial/rational_fps.hpp
+++ b/library/polynomial/rational_fps.hpp
@@ -73,6 +73,7 @@ namespace suisen {
         }
 
         static RationalFPS<FPSType> sum(const std::vector<RationalFPS<FPSType>>& fs) {
+            if (fs.empty()) return {};
             auto comp = [](const RationalFPS<FPSType>& f, const RationalFPS<FPSType>& g) {
                 return f.den.size() > g.den.size();
             };
-- 
2.43.0


From 336da114d5397726c5f315d5324b5d12922ea3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:21 +0000
Subject: [PATCH 137/178] fix: compose: ignore the terms of g beyond x^n (they
 wrapped around)

---
 library/polynomial/compose.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/compose.hpp b/library/polynomial/compose.hpp
index 9328da2..9d8d2e7 100644
--- a/library/polynomial/compose.hpp
+++ b/library/polynomial/compose.hpp
@@ -50,6 +50,7 @@ namespace suisen {
         const mint iz = mint(z).inv();
 
         g.erase(g.begin());
+        g.resize(n);
         g.resize(z);
         atcoder::internal::butterfly(g);
 
-- 
2.43.0


From ad6b7d8f6e0f0c892e478c8cc15069b884e57493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:39 +0000
Subject: [PATCH 138/178] fix: bell_number lost the last term (read out of
 bounds)

---
 library/sequence/bell_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/sequence/bell_number.hpp b/library/sequence/bell_number.hpp
index 54f70ee..4b36e78 100644
--- a/library/sequence/bell_number.hpp
+++ b/library/sequence/bell_number.hpp
@@ -18,7 +18,7 @@ namespace suisen {
         factorial<mint> fac(n);
         FPSType f(n + 1);
         for (int i = 1; i <= n; ++i) f[i] = fac.fac_inv(i);
-        f.exp_inplace(n);
+        f.exp_inplace(n + 1);
         for (int i = 0; i <= n; ++i) f[i] *= fac.fac(i);
         return f;
     }
-- 
2.43.0


From 73e151f9f0c4c57bd9068eac60dddafaf3c17391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:39 +0000
Subject: [PATCH 139/178] fix: binomial_coefficient_small_r_offline wrote out
 of bounds if all r are zero

---
 library/sequence/binomial_coefficient_small_r_offline.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/sequence/binomial_coefficient_small_r_offline.hpp b/library/sequence/binomial_coefficient_small_r_offline.hpp
index e8e6f25..ba60c6b 100644
--- a/library/sequence/binomial_coefficient_small_r_offline.hpp
+++ b/library/sequence/binomial_coefficient_small_r_offline.hpp
@@ -112,6 +112,7 @@ namespace suisen {
 
             // S1[i][j] = S1[2^i,j] for 0<=i<t, 0<=j<=2^i
             std::vector<Polynomial<mint>> S1(t);
+            if (t == 0) return S1;
             S1[0] = { 1, 0 };
 
             for (int l = 0; l < t - 1; ++l) {
-- 
2.43.0


From b3cfae2231d43aa2b55fad79b9387ee46250bb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:39 +0000
Subject: [PATCH 140/178] fix: sum_i_i_pow_d_r_pow_i::sum(t, m) did not compile
 (r.pow(r))

---
 library/math/sum_i^d_r^i.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/sum_i^d_r^i.hpp b/library/math/sum_i^d_r^i.hpp
index 7d1c14a..4909793 100644
--- a/library/math/sum_i^d_r^i.hpp
+++ b/library/math/sum_i^d_r^i.hpp
@@ -29,7 +29,7 @@ namespace suisen {
             }
             prepare();
             auto res = shift_of_sampling_points<mint>(ys, t, m);
-            mint pr = r.pow(r);
+            mint pr = r.pow(t);
             for (auto &e : res) e *= pr, e += c, pr *= r;
             return res;
         }
-- 
2.43.0


From 7b945dd9b2d8c9c8943a097fe00fb1d6d1240395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:40 +0000
Subject: [PATCH 141/178] fix: product_of_differences of an empty list

---
 library/math/product_of_differences.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/product_of_differences.hpp b/library/math/product_of_differences.hpp
index c247a3a..0b44604 100644
--- a/library/math/product_of_differences.hpp
+++ b/library/math/product_of_differences.hpp
@@ -15,6 +15,7 @@ namespace suisen {
         // => f'(x)=Σ_i Π[j!=i](x-x[j])
         // => f'(x[i])=Π[j!=i](x[i]-x[j])
         const int n = xs.size();
+        if (n == 0) return {};
         std::deque<FPSType> dq;
         for (int i = 0; i < n; ++i) dq.push_back(FPSType{ -xs[i], 1 });
         while (dq.size() >= 2) {
-- 
2.43.0


From 45a797457501b1441d6f7122fdd99d1efe5354cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:40 +0000
Subject: [PATCH 142/178] fix: factorial: table doubling could run past a small
 prime modulus and divide by zero

---
 library/math/factorial.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/math/factorial.hpp b/library/math/factorial.hpp
index 92dae7f..9da573d 100644
--- a/library/math/factorial.hpp
+++ b/library/math/factorial.hpp
@@ -14,8 +14,11 @@ namespace suisen {
             int sz = _fac.size();
             if (n + 1 <= sz) return;
             int new_size = std::max(n + 1, sz * 2);
-            _fac.resize(new_size), _fac_inv.resize(new_size);
+            _fac.resize(new_size);
             for (int i = sz; i < new_size; ++i) _fac[i] = _fac[i - 1] * i;
+            // do not double past the characteristic, where factorials have no inverse
+            while (new_size > n + 1 and _fac[new_size - 1] == T(0)) --new_size;
+            _fac.resize(new_size), _fac_inv.resize(new_size);
             _fac_inv[new_size - 1] = U(1) / _fac[new_size - 1];
             for (int i = new_size - 1; i > sz; --i) _fac_inv[i - 1] = _fac_inv[i] * i;
         }
-- 
2.43.0


From c46f7499ff8a4eff5693cc8c2bb29e9cc7823b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:40 +0000
Subject: [PATCH 143/178] fix: safe_sqrt kept using the first modulus of a
 dynamic modint

---
 library/math/modint_extension.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/math/modint_extension.hpp b/library/math/modint_extension.hpp
index 3efc099..c9a550e 100644
--- a/library/math/modint_extension.hpp
+++ b/library/math/modint_extension.hpp
@@ -10,13 +10,13 @@
  */
 template <typename mint>
 std::optional<mint> safe_sqrt(mint a) {
-    static int p = mint::mod();
+    const int p = mint::mod();
     if (a == 0) return std::make_optional(0);
     if (p == 2) return std::make_optional(a);
     if (a.pow((p - 1) / 2) != 1) return std::nullopt;
     mint b = 1;
     while (b.pow((p - 1) / 2) == 1) ++b;
-    static int tlz = __builtin_ctz(p - 1), q = (p - 1) >> tlz;
+    const int tlz = __builtin_ctz(p - 1), q = (p - 1) >> tlz;
     mint x = a.pow((q + 1) / 2);
     b = b.pow(q);
     for (int shift = 2; x * x != a; ++shift) {
-- 
2.43.0


From b02c279e07184d03891814a8c642a2590ec33d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:20 +0000
Subject: [PATCH 144/178] fix: ArrayMatrix: operator/=(A, B) and scalar / A did
 not compile

---
 library/linear_algebra/array_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/linear_algebra/array_matrix.hpp b/library/linear_algebra/array_matrix.hpp
index 9e3092c..f07e37a 100644
--- a/library/linear_algebra/array_matrix.hpp
+++ b/library/linear_algebra/array_matrix.hpp
@@ -71,7 +71,7 @@ namespace suisen {
             for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) A[i][j] = _mul(A[i][j], val);
             return A;
         }
-        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= *B.inv(); }
+        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= B.inv(); }
         friend ArrayMatrix& operator/=(ArrayMatrix& A, const T& val) { return A *= _inv(val); }
 
         friend ArrayMatrix operator+(ArrayMatrix A, const ArrayMatrix& B) { A += B; return A; }
@@ -98,7 +98,7 @@ namespace suisen {
         }
         friend ArrayMatrix operator/(ArrayMatrix A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A * B.inv(); }
         friend ArrayMatrix operator/(ArrayMatrix A, const T& val) { A /= val; return A; }
-        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return A.inv() *= val; }
+        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return val * A.inv(); }
 
         ArrayMatrix pow(long long b) const {
             static_assert(is_square_v<>);
-- 
2.43.0


From 4a07ab626fe217323227734f2cd5e527b7bb91ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:20 +0000
Subject: [PATCH 145/178] fix: MatrixF2::rank read past the last row

---
 library/linear_algebra/matrix_f2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/linear_algebra/matrix_f2.hpp b/library/linear_algebra/matrix_f2.hpp
index 1c568de..1069f1d 100644
--- a/library/linear_algebra/matrix_f2.hpp
+++ b/library/linear_algebra/matrix_f2.hpp
@@ -119,7 +119,7 @@ namespace suisen {
         std::size_t rank() const {
             MatrixF2 A = *this;
             std::size_t r = 0;
-            for (std::size_t j = 0; j < m; ++j) {
+            for (std::size_t j = 0; r < n and j < m; ++j) {
                 for (std::size_t i = r + 1; i < n; ++i) if (A[i][j]) {
                     std::swap(A[r], A[i]);
                     if (A[i][j]) A[i] ^= A[r];
-- 
2.43.0


From 3302e920386d256be311c4df8b4922fe034d3508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:20 +0000
Subject: [PATCH 146/178] fix: gaussian_elimination_f2: free variables after
 the last pivot were lost

---
 library/linear_algebra/gaussian_elimination_f2.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/linear_algebra/gaussian_elimination_f2.hpp b/library/linear_algebra/gaussian_elimination_f2.hpp
index 5ca8287..736b6a6 100644
--- a/library/linear_algebra/gaussian_elimination_f2.hpp
+++ b/library/linear_algebra/gaussian_elimination_f2.hpp
@@ -65,7 +65,11 @@ namespace suisen {
 
         std::vector<std::size_t> ones, zeros;
         std::size_t rank = 0;
-        for (std::size_t j = 0; rank < n and j < m; ++j) {
+        for (std::size_t j = 0; j < m; ++j) {
+            if (rank == n) {
+                zeros.push_back(j);
+                continue;
+            }
             for (std::size_t i = rank + 1; i < n; ++i) if (A[i][j]) {
                 std::swap(A[rank], A[i]);
                 if (A[i][j]) A[i] ^= A[rank];
-- 
2.43.0


From 19ee20a820dd14e77f1b8c77c83f5ffafcb2208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:20 +0000
Subject: [PATCH 147/178] fix: SolutionSpace: normalized() and operator& always
 failed their own assertion

---
 library/linear_algebra/gaussian_elimination_f2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/linear_algebra/gaussian_elimination_f2.hpp b/library/linear_algebra/gaussian_elimination_f2.hpp
index 736b6a6..e1353e9 100644
--- a/library/linear_algebra/gaussian_elimination_f2.hpp
+++ b/library/linear_algebra/gaussian_elimination_f2.hpp
@@ -15,8 +15,8 @@ namespace suisen {
 
         SolutionSpace normalized() {
             SolutionSpace res{ _solution };
-            res += *this;
             res._normalized = true;
+            res += *this;
             return res;
         }
         void normalize() {
@@ -44,6 +44,7 @@ namespace suisen {
             std::vector<std::pair<DynamicBitSet, DynamicBitSet>> basis;
             for (const DynamicBitSet& e : s._basis) basis.emplace_back(e, e);
             SolutionSpace res;
+            res._normalized = true;
             for (DynamicBitSet e : t._basis) {
                 DynamicBitSet s(e.size());
                 for (const auto& [v, t] : basis) if (DynamicBitSet w = e ^ v; w < e) e = std::move(w), s ^= t;
-- 
2.43.0


From eced0d071b9c05b3ad8b937eee934c7d89d602d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:20 +0000
Subject: [PATCH 148/178] fix: XorBase::intersection for bit sets started from
 an empty bit set

---
 library/linear_algebra/xor_base.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/linear_algebra/xor_base.hpp b/library/linear_algebra/xor_base.hpp
index 88085b8..c74aa35 100644
--- a/library/linear_algebra/xor_base.hpp
+++ b/library/linear_algebra/xor_base.hpp
@@ -37,8 +37,7 @@ namespace suisen {
             for (const T &e : _basis) basis.emplace_back(e, e);
             XorBase<T> res;
             for (T e : rhs._basis) {
-                T s;
-                if constexpr (std::is_integral_v<T>) s = 0;
+                T s = e ^ e;
                 for (const auto &[v, t] : basis) if (T w = e ^ v; w < e) e = std::move(w), s ^= t;
                 if (e) basis.emplace_back(e, s);
                 else res.add(s);
-- 
2.43.0


From c9f03a2445230bf5443cdf8959d7501fc9058cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:20 +0000
Subject: [PATCH 149/178] fix: CirculantMatrix::e1(0) wrote out of bounds

---
 library/linear_algebra/circulant_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/linear_algebra/circulant_matrix.hpp b/library/linear_algebra/circulant_matrix.hpp
index cafa35b..6f8d922 100644
--- a/library/linear_algebra/circulant_matrix.hpp
+++ b/library/linear_algebra/circulant_matrix.hpp
@@ -34,7 +34,7 @@ namespace suisen {
         }
         static CirculantMatrix<value_type> e1(int n, const value_type& zero = value_type{ 0 }, const value_type& one = value_type{ 1 }) {
             auto dat = std::vector<value_type>(n, zero);
-            dat[0] = one;
+            if (n > 0) dat[0] = one;
             return CirculantMatrix<value_type>{ dat };
         }
 
-- 
2.43.0


From ffffea1eb494218ae1701e81450f807a190539a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 150/178] fix: hafnian of the empty matrix

---
 library/linear_algebra/hafnian.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/linear_algebra/hafnian.hpp b/library/linear_algebra/hafnian.hpp
index bed08dc..6ba1509 100644
--- a/library/linear_algebra/hafnian.hpp
+++ b/library/linear_algebra/hafnian.hpp
@@ -8,6 +8,7 @@ namespace suisen {
     T hafnian(const std::vector<std::vector<U>>& mat) {
         const int n = mat.size();
         assert(n % 2 == 0);
+        if (n == 0) return T{ 1 };
 
         using ZetaSPS = typename SetPowerSeries<T>::ZetaSPS;
 
-- 
2.43.0


From 8e64ad93d8381730fae931d9599a7bf2d94b8e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:27 +0000
Subject: [PATCH 151/178] fix: compare_by_atan2 was not a strict order (two
 origins compared less both ways)

---
 library/integral_geom/sort_points_by_argument.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/sort_points_by_argument.hpp b/library/integral_geom/sort_points_by_argument.hpp
index c6eb062..b5c4e2c 100644
--- a/library/integral_geom/sort_points_by_argument.hpp
+++ b/library/integral_geom/sort_points_by_argument.hpp
@@ -18,8 +18,8 @@ namespace suisen::integral_geometry {
         const auto &[x2, y2] = q;
         if ((y1 < 0) xor (y2 < 0)) return y1 < y2;
         if ((x1 < 0) xor (x2 < 0)) return (y1 >= 0) xor (x1 < x2);
-        if (x1 == 0 and y1 == 0) return true;
         if (x2 == 0 and y2 == 0) return false;
+        if (x1 == 0 and y1 == 0) return true;
         return (MultipliedType(y1) * x2 < MultipliedType(y2) * x1);
     }
     template <typename PointType, typename MultipliedType = long long>
-- 
2.43.0


From 3a32f631192f728f92d807bc58478f61551aa779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:27 +0000
Subject: [PATCH 152/178] fix: convex_hull of no points

---
 library/geom/convex_hull.hpp          | 1 +
 library/integral_geom/convex_hull.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/library/geom/convex_hull.hpp b/library/geom/convex_hull.hpp
index 6cd809d..b42e52d 100644
--- a/library/geom/convex_hull.hpp
+++ b/library/geom/convex_hull.hpp
@@ -9,6 +9,7 @@ namespace suisen {
 namespace geometry {
     std::vector<int> convex_hull(const std::vector<Point> &points) {
         const int n = points.size();
+        if (n == 0) return {};
         std::vector<int> sorted(n);
         std::iota(sorted.begin(), sorted.end(), 0);
         std::sort(sorted.begin(), sorted.end(), [&points](int i, int j) {
diff --git a/library/integral_geom/convex_hull.hpp b/library/integral_geom/convex_hull.hpp
index d15556f..1551a03 100644
--- a/library/integral_geom/convex_hull.hpp
+++ b/library/integral_geom/convex_hull.hpp
@@ -9,6 +9,7 @@ namespace suisen::integral_geometry {
     template <typename PointType, typename MultipliedType = long long>
     std::vector<int> convex_hull(const std::vector<PointType> &points) {
         const int n = points.size();
+        if (n == 0) return {};
         std::vector<int> sorted(n);
         std::iota(sorted.begin(), sorted.end(), 0);
         std::sort(sorted.begin(), sorted.end(), [&points](int i, int j) {
-- 
2.43.0


From 7aa859a3a10d17fcc53f2c4260aa72c8465255b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:27 +0000
Subject: [PATCH 153/178] fix: count_lattice_points of a clockwise polygon

---
 library/integral_geom/count_lattice_point.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/integral_geom/count_lattice_point.hpp b/library/integral_geom/count_lattice_point.hpp
index 8fa4874..74c5ff6 100644
--- a/library/integral_geom/count_lattice_point.hpp
+++ b/library/integral_geom/count_lattice_point.hpp
@@ -17,6 +17,7 @@ namespace suisen::integral_geometry {
             s += MultipliedType(x1) * y2 - MultipliedType(y1) * x2;
             b += std::abs(std::gcd(x2 - x1, y2 - y1));
         }
+        if (s < 0) s = -s;
         return (s + 2 + b) / 2;
     }
 } // namespace suisen::integral_geometry
-- 
2.43.0


From 456530b55addd2ec17f11fc6474ef2a3ba7b573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:27 +0000
Subject: [PATCH 154/178] fix: rays from the same point in opposite directions
 compared equal

---
 library/geom/geometry.hpp          | 2 +-
 library/integral_geom/geometry.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 24fab8e..6dcb138 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -332,7 +332,7 @@ namespace geometry {
         return on_the_same_line(l, m);
     }
     bool equals(const Ray &l, const Ray &m) {
-        return on_the_same_line(l, m) and equals(l.a, m.a);
+        return on_the_same_line(l, m) and equals(l.a, m.a) and sgn(dot(l.b - l.a, m.b - m.a)) > 0;
     }
     bool equals(const Segment &l, const Segment &m) {
         return (equals(l.a, m.a) and equals(l.b, m.b)) or (equals(l.a, m.b) and equals(l.b, m.a));
diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index a3d7a92..6c14287 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -123,7 +123,7 @@ namespace suisen::integral_geometry {
         return on_the_same_line(l, m);
     }
     bool operator==(const Ray& l, const Ray& m) {
-        return on_the_same_line(l, m) and l.a == m.a;
+        return on_the_same_line(l, m) and l.a == m.a and dot(l.b - l.a, m.b - m.a) > 0;
     }
     bool operator==(const Segment& l, const Segment& m) {
         return (l.a == m.a and l.b == m.b) or (l.a == m.b and l.b == m.a);
-- 
2.43.0


From 3f1c60b57db6db7c63f060a141f763e42d346a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:27 +0000
Subject: [PATCH 155/178] fix: convex_diameter did not terminate if all points
 are on one line

---
 library/geom/geometry.hpp          | 2 +-
 library/integral_geom/geometry.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 6dcb138..92be492 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -442,7 +442,7 @@ namespace geometry {
         for (int i = si, j = sj; i != sj or j != si;) {
             if (coordinate_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
             int ni = (i + 1) % sz, nj = (j + 1) % sz;
-            if (det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0) i = ni;
+            if (j == si or (i != sj and det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0)) i = ni;
             else j = nj;
         }
         return { argmax.first, argmax.second, ::sqrtl(max_dist) };
diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index 6c14287..94c182a 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -201,7 +201,7 @@ namespace suisen::integral_geometry {
         for (int i = si, j = sj; i != sj or j != si;) {
             if (multiplied_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
             int ni = (i + 1) % sz, nj = (j + 1) % sz;
-            if (det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0) i = ni;
+            if (j == si or (i != sj and det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0)) i = ni;
             else j = nj;
         }
         return argmax;
-- 
2.43.0


From 8b1b0a902b7d788501d37e4f9215c6bb272050db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:16 +0000
Subject: [PATCH 156/178] fix: pIabc returned the incircles of other triangles
 instead of the excircles

---
 library/geom/geometry.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 92be492..d4c3fca 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -236,7 +236,13 @@ namespace geometry {
         return a + b + c - 2 * pO(a, b, c).center;
     }
     auto pIabc(const Point &a, const Point &b, const Point &c) {
-        return std::make_tuple(pI(-a, b, c), pI(a, -b, c), pI(a, b, -c));
+        coordinate_t la = abs(b - c), lb = abs(c - a), lc = abs(a - b);
+        coordinate_t s = 2 * area(a, b, c);
+        auto excircle = [&](coordinate_t wa, coordinate_t wb, coordinate_t wc) {
+            coordinate_t l = wa + wb + wc;
+            return Circle((wa * a + wb * b + wc * c) / l, s / l);
+        };
+        return std::make_tuple(excircle(-la, lb, lc), excircle(la, -lb, lc), excircle(la, lb, -lc));
     }
 
     // Line
-- 
2.43.0


From 1a47b02c8db1362b32981160263c822b83cfb40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:36 +0000
Subject: [PATCH 157/178] fix: geometry3d: the distance of a segment and a
 constant line treated the segment as a line

---
 library/geom/geometry3d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry3d.hpp b/library/geom/geometry3d.hpp
index 8197ae3..eb6f397 100644
--- a/library/geom/geometry3d.hpp
+++ b/library/geom/geometry3d.hpp
@@ -150,7 +150,7 @@ namespace suisen::geometry3d {
         auto [p, q] = internal::closest_pair(l, m);
         return on(m, q) ? dist(p, q) : std::min(dist(l, m.first), dist(l, m.second));
     }
-    coordinate_t dist(const Segment &l, Line &m) {
+    coordinate_t dist(const Segment &l, const Line &m) {
         return dist(m, l);
     }
     coordinate_t dist(const Ray &l, const Ray &m) {
-- 
2.43.0


From 240dfb3288320b8357d87406fd0e91a5dd4d345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:36 +0000
Subject: [PATCH 158/178] fix: geometry3d: Plane could not be built from
 constant coefficients

---
 library/geom/geometry3d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry3d.hpp b/library/geom/geometry3d.hpp
index eb6f397..6ecad5a 100644
--- a/library/geom/geometry3d.hpp
+++ b/library/geom/geometry3d.hpp
@@ -188,7 +188,7 @@ namespace suisen::geometry3d {
         coordinate_t d;
         Plane() = default;
         Plane(const Point &p, const Point &q, const Point &r) : normal_vec(normalized((q - p) * (r - p))), d(-inner_product(normal_vec, p)) {}
-        Plane(const coordinate_t &a, coordinate_t &b, coordinate_t &c, coordinate_t &d) : normal_vec(normalized({a, b, c})), d(d / abs({a, b, c})) {}
+        Plane(const coordinate_t &a, const coordinate_t &b, const coordinate_t &c, const coordinate_t &d) : normal_vec(normalized({a, b, c})), d(d / abs({a, b, c})) {}
     };
 
     coordinate_t dist(const Plane &plane, const Point &p) {
-- 
2.43.0


From f5060001917f1a748f234f8a11d6d306bb2fddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:01 +0000
Subject: [PATCH 159/178] fix: StaticRangeModeQuery divided by zero on an empty
 array

---
 library/range_query/static_range_mode_query.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/range_query/static_range_mode_query.hpp b/library/range_query/static_range_mode_query.hpp
index c7a0aa7..89342ca 100644
--- a/library/range_query/static_range_mode_query.hpp
+++ b/library/range_query/static_range_mode_query.hpp
@@ -10,7 +10,7 @@ namespace suisen {
     template <typename T>
     struct StaticRangeModeQuery {
         StaticRangeModeQuery() = default;
-        explicit StaticRangeModeQuery(const std::vector<T> &a): _len(a.size()), _block_size(::sqrt(_len)), _block_num(_cld(_len, _block_size)) {
+        explicit StaticRangeModeQuery(const std::vector<T> &a): _len(a.size()), _block_size(std::max(1, int(::sqrt(_len)))), _block_num(_cld(_len, _block_size)) {
             // Computing the mapping from compressed values to original values
             _sorted = a;
             std::sort(_sorted.begin(), _sorted.end());
-- 
2.43.0


From 0aba58116a98c664c5bb5eb00299e20f02c3125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:01 +0000
Subject: [PATCH 160/178] fix: StaticRangeInversionNumberQuery read out of
 bounds on an empty range

---
 library/range_query/static_range_inversion_number_query.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/range_query/static_range_inversion_number_query.hpp b/library/range_query/static_range_inversion_number_query.hpp
index 6b11528..87f231a 100644
--- a/library/range_query/static_range_inversion_number_query.hpp
+++ b/library/range_query/static_range_inversion_number_query.hpp
@@ -37,6 +37,7 @@ namespace suisen {
          * @return Inversion number of (a_l, ..., a_{r-1})
          */
         long long operator()(int l, int r) const {
+            if (l >= r) return 0;
             const int bl = l / _block_siz, br = ceil_div(r, _block_siz);
             // [bl][bl+1,...,br-2][br-1]
             if (br - bl == 1) {
-- 
2.43.0


From 8b4ea89d05daee86e381a57235a80fcc91e8598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:01 +0000
Subject: [PATCH 161/178] fix: RangeXoredMexQuery shifted by the full width of
 the type and ignored x for the default bit_num

---
 library/range_query/static_range_xored_mex_query.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/range_query/static_range_xored_mex_query.hpp b/library/range_query/static_range_xored_mex_query.hpp
index a6ecdb4..9e5eaf9 100644
--- a/library/range_query/static_range_xored_mex_query.hpp
+++ b/library/range_query/static_range_xored_mex_query.hpp
@@ -56,8 +56,11 @@ namespace suisen {
 
         // returns mex { A_i ^ x | l <= i < r }
         T minimum_excluded(int l, int r, T x) const {
-            if (x >> bit_num) return 0;
-            if (min_r[bit_num][l] <= r) return T(1) << bit_num;
+            // if bit_num is the width of T, no value has a bit at or above bit_num.
+            if constexpr (bit_num < std::numeric_limits<std::make_unsigned_t<T>>::digits) {
+                if (x >> bit_num) return 0;
+                if (min_r[bit_num][l] <= r) return T(1) << bit_num;
+            }
             T res = 0;
             for (int log = bit_num - 1; log >= 0; --log) {
                 bool z = (x >> log) & 1;
-- 
2.43.0


From 5583f640cab10b8eb0f05613d859b31027094c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:01 +0000
Subject: [PATCH 162/178] fix: a default-constructed RangeXoredMexQuery could
 not be queried on the empty range

---
 library/range_query/static_range_xored_mex_query.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/range_query/static_range_xored_mex_query.hpp b/library/range_query/static_range_xored_mex_query.hpp
index 9e5eaf9..12e6d13 100644
--- a/library/range_query/static_range_xored_mex_query.hpp
+++ b/library/range_query/static_range_xored_mex_query.hpp
@@ -12,7 +12,7 @@ namespace suisen {
     template <typename T, int bit_num = std::numeric_limits<std::make_unsigned_t<T>>::digits>
     struct RangeXoredMexQuery {
         // default constructor
-        RangeXoredMexQuery() noexcept : n(0) {}
+        RangeXoredMexQuery() : RangeXoredMexQuery(std::vector<T>{}) {}
         // builds WaveletMatrix from vector
         template <typename U, std::enable_if_t<std::is_constructible_v<T, U>, std::nullptr_t> = nullptr>
         RangeXoredMexQuery(const std::vector<U>& a) { build(a); }
-- 
2.43.0


From 741d112472c23f9faf50c06ec7081979b15f34d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:51 +0000
Subject: [PATCH 163/178] fix: HornSAT let a variable fixed to false fire the
 clauses it is a premise of

---
 library/algorithm/horn_sat.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/algorithm/horn_sat.hpp b/library/algorithm/horn_sat.hpp
index 7744be5..1acc7e0 100644
--- a/library/algorithm/horn_sat.hpp
+++ b/library/algorithm/horn_sat.hpp
@@ -40,7 +40,8 @@ class HornSAT {
                 if (not seen[i]) {
                     ans[i] = val;
                     seen[i] = true;
-                    for (const int j : ls[i]) {
+                    // a variable fixed to false never satisfies a left hand side
+                    if (val) for (const int j : ls[i]) {
                         if (--c[j] == 0) dq.push_back(r[j]);
                     }
                 } else if (val != ans[i]) return has_answer = false;
-- 
2.43.0


From 2731b72de391534959857e94ddba827977cbf5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:37 +0000
Subject: [PATCH 164/178] fix: RunLengthEncoder::pop_back did not compile, and
 pop_back, swap and clear lost track of the length

---
 library/util/run_length_encoder.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/library/util/run_length_encoder.hpp b/library/util/run_length_encoder.hpp
index 8c36b17..131338b 100644
--- a/library/util/run_length_encoder.hpp
+++ b/library/util/run_length_encoder.hpp
@@ -20,9 +20,9 @@ class RunLengthEncoder {
         long long length() const noexcept {
             return _length;
         }
-        void swap(RunLengthEncoder<Container>  &other) { comp.swap(other.comp); }
-        void swap(RunLengthEncoder<Container> &&other) { comp.swap(other.comp); }
-        void clear() { comp.clear(); }
+        void swap(RunLengthEncoder<Container>  &other) { std::swap(_length, other._length), comp.swap(other.comp); }
+        void swap(RunLengthEncoder<Container> &&other) { std::swap(_length, other._length), comp.swap(other.comp); }
+        void clear() { _length = 0, comp.clear(); }
         auto begin()   const noexcept { return comp.begin();   }
         auto end()     const noexcept { return comp.end();     }
         auto rbegin()  const noexcept { return comp.rbegin();  }
@@ -49,8 +49,9 @@ class RunLengthEncoder {
             while (comp.size()) {
                 long long cnt = comp.back().second;
                 if (cnt > num) {
-                    comp.back.second -= num;
-                    return rem + num;
+                    comp.back().second -= num;
+                    rem += num;
+                    break;
                 }
                 num -= cnt, rem += cnt;
                 comp.pop_back();
-- 
2.43.0


From 542af49e0d89aaf839754d99be81dabb0b9f61fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:37 +0000
Subject: [PATCH 165/178] fix: the integral ternary_search_value truncated the
 value to the type of the argument

---
 library/util/search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/search.hpp b/library/util/search.hpp
index f5fc372..eacd2c8 100644
--- a/library/util/search.hpp
+++ b/library/util/search.hpp
@@ -79,7 +79,7 @@ namespace suisen {
      */
     template <ternary_search_tag tag, typename Arg, typename Fun,
         std::enable_if_t<std::conjunction_v<std::is_invocable<Fun, Arg>, std::is_integral<Arg>>, std::nullptr_t> = nullptr>
-    Arg ternary_search_value(Arg l, Arg r, const Fun &f) {
+    std::invoke_result_t<Fun, Arg> ternary_search_value(Arg l, Arg r, const Fun &f) {
         return f(ternary_search_key<tag>(l, r, f));
     }
 
-- 
2.43.0


From 3d4e7dc12c800caf54a0105a14771bd354159cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:37 +0000
Subject: [PATCH 166/178] fix: sum_count_lt, _geq and _gt counted in the
 argument type instead of the result type

---
 library/util/sum_count.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/library/util/sum_count.hpp b/library/util/sum_count.hpp
index 26fcd61..00c86e7 100644
--- a/library/util/sum_count.hpp
+++ b/library/util/sum_count.hpp
@@ -1,19 +1,21 @@
 #ifndef SUISEN_SUM_COUNT
 #define SUISEN_SUM_COUNT
 
+#include <algorithm>
+
 namespace suisen {
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b=sum)
     template <typename T, typename R = T>
     constexpr R sum_count(T min_a, T max_a, T min_b, T max_b, T sum) {
         // max(min_a, sum - max_b) <= a <= min(max_a, x - min_b)
-        return std::max<R>(0, std::min<R>(max_a, sum - min_b) - std::max<R>(min_a, sum - max_b) + 1);
+        return std::max<R>(0, std::min<R>(max_a, R(sum) - R(min_b)) - std::max<R>(min_a, R(sum) - R(max_b)) + 1);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b<=max_sum)
     template <typename T, typename R = T>
     constexpr R sum_count_leq(T min_a, T max_a, T min_b, T max_b, T max_sum) {
         // count # of (a,b) s.t. 0<=a<=ra and 0<=b<=rb and a+b<=rs
-        const R ra = R(max_a) - R(min_a), rb = R(max_b) - R(min_b), rs = R(max_sum) - R(min_a + min_b);
+        const R ra = R(max_a) - R(min_a), rb = R(max_b) - R(min_b), rs = R(max_sum) - R(min_a) - R(min_b);
         if (ra < 0 or rb < 0 or rs < 0) {
             return 0;
         }
@@ -28,19 +30,19 @@ namespace suisen {
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b<x)
     template <typename T, typename R = T>
     constexpr R sum_count_lt(T min_a, T max_a, T min_b, T max_b, T x) {
-        return sum_count_leq(min_a, max_a, min_b, max_b, x - 1);
+        return sum_count_leq<T, R>(min_a, max_a, min_b, max_b, x - 1);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b>=min_sum)
     template <typename T, typename R = T>
     constexpr R sum_count_geq(T min_a, T max_a, T min_b, T max_b, T min_sum) {
-        return std::max<R>(0, max_a - min_a + 1) * std::max<R>(0, max_b - min_b + 1) - sum_count_lt(min_a, max_a, min_b, max_b, min_sum);
+        return std::max<R>(0, R(max_a) - R(min_a) + 1) * std::max<R>(0, R(max_b) - R(min_b) + 1) - sum_count_lt<T, R>(min_a, max_a, min_b, max_b, min_sum);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b>x)
     template <typename T, typename R = T>
     constexpr R sum_count_gt(T min_a, T max_a, T min_b, T max_b, T x) {
-        return std::max<R>(0, max_a - min_a + 1) * std::max<R>(0, max_b - min_b + 1) - sum_count_leq(min_a, max_a, min_b, max_b, x);
+        return std::max<R>(0, R(max_a) - R(min_a) + 1) * std::max<R>(0, R(max_b) - R(min_b) + 1) - sum_count_leq<T, R>(min_a, max_a, min_b, max_b, x);
     }
 } // namespace suisen
 
-- 
2.43.0


From 3d638d55568a1a3aa8cc423a801b63697d715bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:37 +0000
Subject: [PATCH 167/178] fix: popcount, count_lz and floor_log2 were wrong for
 8 and 16 bit integers

---
 library/util/bit_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/util/bit_utils.hpp b/library/util/bit_utils.hpp
index 17232c1..8f06f33 100644
--- a/library/util/bit_utils.hpp
+++ b/library/util/bit_utils.hpp
@@ -9,11 +9,11 @@
 #include "library/type_traits/type_traits.hpp"
 namespace suisen {
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-    __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u32(x); }
+    __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u32(std::make_unsigned_t<T>(x)); }
     template <typename T, std::enable_if_t<suisen::is_nbit_v<T, 64>, std::nullptr_t> = nullptr>
     __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u64(x); }
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-    constexpr int count_lz(const T x) { return x ? __builtin_clz(x) : suisen::bitnum_v<T>; }
+    constexpr int count_lz(const T x) { return x ? __builtin_clz(std::make_unsigned_t<T>(x)) - (32 - suisen::bitnum_v<T>) : suisen::bitnum_v<T>; }
     template <typename T, std::enable_if_t<suisen::is_nbit_v<T, 64>, std::nullptr_t> = nullptr>
     constexpr int count_lz(const T x) { return x ? __builtin_clzll(x) : suisen::bitnum_v<T>; }
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-- 
2.43.0


From c4be2bb6c23caf04373a8de998c3ae99fb3ce6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:37 +0000
Subject: [PATCH 168/178] fix: all_subset visited nothing when every bit of the
 type is set

---
 library/util/subset_iterator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/util/subset_iterator.hpp b/library/util/subset_iterator.hpp
index 81fbe04..cd8de59 100644
--- a/library/util/subset_iterator.hpp
+++ b/library/util/subset_iterator.hpp
@@ -16,11 +16,11 @@ namespace suisen {
     template <typename T, std::enable_if_t<std::is_integral_v<T>, std::nullptr_t> = nullptr>
     struct all_subset {
         struct all_subset_iter {
-            const T s; T t;
-            constexpr all_subset_iter(T s) : s(s), t(s + 1) {}
+            const T s; T t; bool done;
+            constexpr all_subset_iter(T s) : s(s), t(s), done(false) {}
             constexpr auto operator*() const { return t; }
-            constexpr auto operator++() {}
-            constexpr auto operator!=(std::nullptr_t) { return t ? (--t &= s, true) : false; }
+            constexpr void operator++() { if (t) --t &= s; else done = true; }
+            constexpr auto operator!=(std::nullptr_t) const { return not done; }
         };
         T s;
         constexpr all_subset(T s) : s(s) {}
-- 
2.43.0


From 740fee503a3dd2de8fd429670c4385e256321b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:37 +0000
Subject: [PATCH 169/178] fix: StepSum::sum read out of bounds for a residue
 class beyond the end of the sequence

---
 library/util/step_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/step_sum.hpp b/library/util/step_sum.hpp
index f9a82aa..da987b1 100644
--- a/library/util/step_sum.hpp
+++ b/library/util/step_sum.hpp
@@ -19,7 +19,7 @@ namespace suisen {
         }
         // sum A_i for i = k (mod step) and i in [l, r)
         value_type sum(int k, int l, int r) const {
-            if (r <= k or r <= l or l >= _n) return 0;
+            if (std::min(_n, r) <= k or r <= l or l >= _n) return 0;
             const int t = _br.quo(std::min(_n, r) - 1 - k);
             T ans = _sum[t * _step + k];
             if (l > k) {
-- 
2.43.0


From 1323e78e5597ebea706de0a9245ae545fd5107af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:37 +0000
Subject: [PATCH 170/178] fix: Permutation::pow overflowed for huge exponents

---
 library/util/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/permutation.hpp b/library/util/permutation.hpp
index f96232e..ee1783a 100644
--- a/library/util/permutation.hpp
+++ b/library/util/permutation.hpp
@@ -62,7 +62,7 @@ namespace suisen {
                 for (int j = 0; j < l; ++j) {
                     int v = cycle[j];
                     seen[v] = true;
-                    res[v] = cycle[(j + k) % l];
+                    res[v] = cycle[(j + k % l) % l];
                 }
             }
             return res;
-- 
2.43.0


From 7ce0e88315615011987f6eaf973995935174a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:37 +0000
Subject: [PATCH 171/178] fix: default-constructed cumulative sums had an
 uninitialised size

---
 library/util/cumulative_sum.hpp    | 2 +-
 library/util/cumulative_sum_2d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/util/cumulative_sum.hpp b/library/util/cumulative_sum.hpp
index db9cff4..c2e1674 100644
--- a/library/util/cumulative_sum.hpp
+++ b/library/util/cumulative_sum.hpp
@@ -8,7 +8,7 @@
 namespace suisen {
     template <typename T, auto zero = default_operator::zero<T>, auto add = default_operator::add<T>, auto sub = default_operator::sub<T>>
     struct CumulativeSum {
-        CumulativeSum() = default;
+        CumulativeSum() : CumulativeSum(std::vector<T>{}) {}
         CumulativeSum(const std::vector<T> &a) : n(a.size()), s(n + 1, zero()) {
             for (size_t i = 0; i < n; ++i) s[i + 1] = add(a[i], s[i]);
         }
diff --git a/library/util/cumulative_sum_2d.hpp b/library/util/cumulative_sum_2d.hpp
index c58c8ed..3263765 100644
--- a/library/util/cumulative_sum_2d.hpp
+++ b/library/util/cumulative_sum_2d.hpp
@@ -8,7 +8,7 @@
 namespace suisen {
     template <typename T, auto zero = default_operator::zero<T>, auto add = default_operator::add<T>, auto sub = default_operator::sub<T>>
     struct CumulativeSum2D {
-        CumulativeSum2D() = default;
+        CumulativeSum2D() : CumulativeSum2D(std::vector<std::vector<T>>{}) {}
         CumulativeSum2D(const std::vector<std::vector<T>> &a) : n(a.size()), m(n == 0 ? 0 : a[0].size()), s(n + 1, std::vector<T>(m + 1, zero())) {
             for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
                 s[i + 1][j + 1] = sub(add(add(a[i][j], s[i + 1][j]), s[i][j + 1]), s[i][j]);
-- 
2.43.0


From 9444919c58ab9630d759c7ec76f7195a21b4eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:37 +0000
Subject: [PATCH 172/178] fix: repeating a vector and appending a vector to
 itself wrote out of bounds

---
 library/util/vector_ops.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/library/util/vector_ops.hpp b/library/util/vector_ops.hpp
index 18bb463..7680935 100644
--- a/library/util/vector_ops.hpp
+++ b/library/util/vector_ops.hpp
@@ -1,14 +1,15 @@
 #ifndef SUISEN_VECTOR_OPS
 #define SUISEN_VECTOR_OPS
 
+#include <algorithm>
 #include <vector>
 
 namespace suisen {
 template <typename T>
 std::vector<T>& operator+=(std::vector<T> &a, const std::vector<T> &b) {
-    int n = a.size();
-    a.resize(n + b.size());
-    std::copy(b.begin(), b.end(), a.begin() + n);
+    const int n = a.size(), m = b.size();
+    a.resize(n + m);
+    std::copy(b.begin(), b.begin() + m, a.begin() + n);
     return a;
 }
 template <typename T>
@@ -35,7 +36,7 @@ template <typename T>
 std::vector<T>& operator*=(std::vector<T> &a, const int repeat) {
     int n = a.size();
     a.resize(n * repeat);
-    for (int i = 1; i < repeat; ++i) std::copy(a.begin(), a.end(), a.begin() + i * n);
+    for (int i = 1; i < repeat; ++i) std::copy(a.begin(), a.begin() + n, a.begin() + i * n);
     return a;
 }
 template <typename T>
-- 
2.43.0


From 0edd3d49001b5474a9982112e85a5143ad13e74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:37 +0000
Subject: [PATCH 173/178] fix: default_vector filled with an uninitialised
 default value

---
 library/util/default_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/default_vector.hpp b/library/util/default_vector.hpp
index fefa450..7f1f59a 100644
--- a/library/util/default_vector.hpp
+++ b/library/util/default_vector.hpp
@@ -37,7 +37,7 @@ class default_vector : public std::vector<T> {
             std::vector<T>::resize(n, default_value);
         }
     private:
-        T default_value;
+        T default_value{};
         bool index_out_of_bounds(unsigned int i) const {
             return i >= std::vector<T>::size();
         }
-- 
2.43.0


From 685758e20c47627bfdded46001bff54c8534513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:31 +0000
Subject: [PATCH 174/178] fix: VecZobristHash gave keys beyond the initial
 maximum the hashes of the first keys

---
 library/util/zobrist_hash.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/util/zobrist_hash.hpp b/library/util/zobrist_hash.hpp
index 024e52c..1f6fe66 100644
--- a/library/util/zobrist_hash.hpp
+++ b/library/util/zobrist_hash.hpp
@@ -3,6 +3,8 @@
 
 #include <algorithm>
 #include <array>
+#include <cstdint>
+#include <functional>
 #include <map>
 #include <vector>
 #include <random>
@@ -53,7 +55,7 @@ namespace suisen {
 
         VecZobristHash() = default;
         VecZobristHash(typename Base::value_type max_val) : Base(max_val + 1) {
-            std::generate(this->h.begin(), this->h.end(), this->rng);
+            std::generate(this->h.begin(), this->h.end(), std::ref(this->rng));
         }
 
     protected:
@@ -70,7 +72,7 @@ namespace suisen {
         using Base = ZobristHashBase<std::array<std::make_unsigned_t<HashType>, N + 1>, std::size_t, HashType, ArrZobristHash<N, HashType>>;
 
         ArrZobristHash() {
-            std::generate(this->h.begin(), this->h.end(), this->rng);
+            std::generate(this->h.begin(), this->h.end(), std::ref(this->rng));
         }
     protected:
         static void ensure_key_existence(typename Base::container_type&, typename Base::value_type, typename Base::rng_type&) {}
-- 
2.43.0


From bbd23b7c78a91d689dace61dd6421bb1c49df3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:30 +0000
Subject: [PATCH 175/178] fix: Affine / AffineClamp stream operators had << and
 >> swapped

---
 library/algebra/monoid/affine.hpp       | 5 +++--
 library/algebra/monoid/affine_clamp.hpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/library/algebra/monoid/affine.hpp b/library/algebra/monoid/affine.hpp
index 7970dce..c5ca21c 100644
--- a/library/algebra/monoid/affine.hpp
+++ b/library/algebra/monoid/affine.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_AFFINE
 
 #include <iostream>
+#include <tuple>
 #include <utility>
 
 namespace suisen {
@@ -49,8 +50,8 @@ namespace suisen {
         template <typename U = T, typename V = T>
         operator std::tuple<U, V>() { return std::tuple<U, V>{ a, b }; }
 
-        friend std::istream& operator<<(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
-        friend std::ostream& operator>>(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
+        friend std::istream& operator>>(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
+        friend std::ostream& operator<<(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
     };
 } // namespace suisen
 
diff --git a/library/algebra/monoid/affine_clamp.hpp b/library/algebra/monoid/affine_clamp.hpp
index bb6d5b5..183acf8 100644
--- a/library/algebra/monoid/affine_clamp.hpp
+++ b/library/algebra/monoid/affine_clamp.hpp
@@ -32,8 +32,8 @@ namespace suisen {
         template <typename U = T, typename V = T, typename W = T, typename X = T>
         operator std::tuple<U, V, W, X>() { return { this->a, this->b, l, r }; }
 
-        friend std::istream& operator<<(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
-        friend std::ostream& operator>>(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
+        friend std::istream& operator>>(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
+        friend std::ostream& operator<<(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
     };
 } // namespace suisen
 
-- 
2.43.0


From 43ed768334cb97d06f26ad1e32a0159425f4e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:01 +0000
Subject: [PATCH 176/178] fix: persistent (lazy) segment trees of length 0
 recursed forever on construction

---
 .../datastructure/segment_tree/persistent_lazy_segment_tree.hpp  | 1 +
 library/datastructure/segment_tree/persistent_segment_tree.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 8d2cd75..b13cb35 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -51,6 +51,7 @@ namespace suisen {
             }
 
             static node_pointer_type build(const std::vector<value_type>& dat) {
+                if (dat.empty()) return nullptr;
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
                     node_pointer_type res = _pool.alloc();
                     if (r - l == 1) {
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index 73a89cd..220bdf0 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -36,6 +36,7 @@ namespace suisen {
             }
 
             static node_pointer_type build(const std::vector<value_type>& dat) {
+                if (dat.empty()) return nullptr;
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
                     node_pointer_type res = _pool.alloc();
                     if (r - l == 1) {
-- 
2.43.0


From e4d27d6f271c5e0929d0f29c019aec90314db2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:25 +0000
Subject: [PATCH 177/178] fix: let
 RangeChMinMaxAddRangeSum::max_right<pred>/min_left<pred> compile (missing
 template keyword)

---
 library/range_query/range_chmin_chmax_add_range_sum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/range_query/range_chmin_chmax_add_range_sum.hpp b/library/range_query/range_chmin_chmax_add_range_sum.hpp
index 2a2ebb2..61bca4e 100644
--- a/library/range_query/range_chmin_chmax_add_range_sum.hpp
+++ b/library/range_query/range_chmin_chmax_add_range_sum.hpp
@@ -66,7 +66,7 @@ namespace suisen {
         }
         template <bool(*pred)(DataType)>
         int max_right(int l) {
-            return seg.max_right<pred>(l);
+            return seg.template max_right<pred>(l);
         }
         template <typename Pred>
         int max_right(int l, Pred &&pred) {
@@ -74,7 +74,7 @@ namespace suisen {
         }
         template <bool(*pred)(DataType)>
         int min_left(int r) {
-            return seg.min_left<pred>(r);
+            return seg.template min_left<pred>(r);
         }
         template <typename Pred>
         int min_left(int r, Pred &&pred) {
-- 
2.43.0


From e9696ce480c7c298aba1d56de36f896a516c6a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:29 +0000
Subject: [PATCH 178/178] fix: integral geometry keeps products of coordinates
 in multiplied_t

With COORDINATE_TYPE int and MULTIPLIED_TYPE long long, isp, line
containment, areas, circle relations, convex_diameter and closest_pair
truncated products to coordinate_t.
---
 library/integral_geom/closest_pair.hpp | 10 +++++-----
 library/integral_geom/geometry.hpp     | 26 +++++++++++++-------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/library/integral_geom/closest_pair.hpp b/library/integral_geom/closest_pair.hpp
index 3ac591a..9b4d56e 100644
--- a/library/integral_geom/closest_pair.hpp
+++ b/library/integral_geom/closest_pair.hpp
@@ -11,12 +11,12 @@ namespace suisen::integral_geometry {
         assert(n > 0);
         if (n == 1) return { points[0], points[0] };
         std::sort(points.begin(), points.end(), XY_COMPARATOR);
-        coordinate_t min_dist = std::numeric_limits<coordinate_t>::max();
+        multiplied_t min_dist = std::numeric_limits<multiplied_t>::max();
         std::pair<Point, Point> ans;
-        std::vector<coordinate_t> dmin(n, min_dist);
+        std::vector<multiplied_t> dmin(n, min_dist);
 
         auto update_min = [&](int l, const Point& p, const Point& q) {
-            coordinate_t d = square_abs(p - q);
+            multiplied_t d = square_abs(p - q);
             if (d >= dmin[l]) return;
             dmin[l] = d;
             if (d >= min_dist) return;
@@ -42,10 +42,10 @@ namespace suisen::integral_geometry {
                 dmin[l] = std::min(dmin[l], dmin[m]);
                 std::vector<int> ids;
                 for (int i = l; i < r; ++i) {
-                    if (coordinate_t dx = y[i].x - points[m].x; dx * dx > dmin[l]) continue;
+                    if (multiplied_t dx = y[i].x - points[m].x; dx * dx > dmin[l]) continue;
                     for (auto it = ids.rbegin(); it != ids.rend(); ++it) {
                         const Point& p = y[*it];
-                        if (coordinate_t dy = y[i].y - p.y; dy * dy > dmin[l]) break;
+                        if (multiplied_t dy = y[i].y - p.y; dy * dy > dmin[l]) break;
                         update_min(l, y[i], p);
                     }
                     ids.push_back(i);
diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index 94c182a..5ec03e7 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -35,7 +35,7 @@ namespace suisen::integral_geometry {
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_1_C
     int isp(const Point& a, const Point& b, const Point& c) {
         Point ab = b - a, ac = c - a;
-        coordinate_t det_ab_ac = det(ab, ac);
+        multiplied_t det_ab_ac = det(ab, ac);
         if (det_ab_ac > 0) return ISP::L_CURVE;
         if (det_ab_ac < 0) return ISP::R_CURVE;
         if (dot(ab, ac) < 0) return ISP::BACK;
@@ -67,10 +67,10 @@ namespace suisen::integral_geometry {
 
     // Triangle
 
-    coordinate_t signed_area_doubled(const Point& a, const Point& b, const Point& c) {
+    multiplied_t signed_area_doubled(const Point& a, const Point& b, const Point& c) {
         return det(b - a, c - a);
     }
-    coordinate_t area_doubled(const Point& a, const Point& b, const Point& c) {
+    multiplied_t area_doubled(const Point& a, const Point& b, const Point& c) {
         return std::abs(signed_area_doubled(a, b, c));
     }
 
@@ -93,7 +93,7 @@ namespace suisen::integral_geometry {
 
     Inclusion contains(const Line& l, const Point& p) {
         if (l.a.x == l.b.x) return p.x == l.a.x ? Inclusion::ON : Inclusion::OUT;
-        coordinate_t a = p.x - l.a.x, b = p.y - l.a.y, c = l.b.x - p.x, d = l.b.y - p.y;
+        multiplied_t a = p.x - l.a.x, b = p.y - l.a.y, c = l.b.x - p.x, d = l.b.y - p.y;
         return b * c == a * d ? Inclusion::ON : Inclusion::OUT;
     }
     Inclusion contains(const Ray& l, const Point& p) {
@@ -143,8 +143,8 @@ namespace suisen::integral_geometry {
     using Polygon = std::vector<Point>;
 
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_3_A
-    coordinate_t signed_area_doubled(const Polygon& poly) {
-        coordinate_t res = 0;
+    multiplied_t signed_area_doubled(const Polygon& poly) {
+        multiplied_t res = 0;
         int sz = poly.size();
         for (int i = 0; i < sz; ++i) {
             int j = i + 1;
@@ -154,7 +154,7 @@ namespace suisen::integral_geometry {
         return res;
     }
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_3_A
-    coordinate_t area_doubled(const Polygon& poly) {
+    multiplied_t area_doubled(const Polygon& poly) {
         return std::abs(signed_area_doubled(poly));
     }
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_3_B
@@ -196,7 +196,7 @@ namespace suisen::integral_geometry {
             auto [it_min, it_max] = std::minmax_element(convex.begin(), convex.end(), XY_COMPARATOR);
             return std::pair<int, int> { it_min - convex.begin(), it_max - convex.begin() };
         }();
-        coordinate_t max_dist = -1;
+        multiplied_t max_dist = -1;
         std::pair<int, int> argmax{ -1, -1 };
         for (int i = si, j = sj; i != sj or j != si;) {
             if (multiplied_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
@@ -211,13 +211,13 @@ namespace suisen::integral_geometry {
 
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_7_A
     int tangent_num(const Circle& c1, const Circle& c2) {
-        coordinate_t r1 = c1.radius, r2 = c2.radius;
+        multiplied_t r1 = c1.radius, r2 = c2.radius;
         if (r1 > r2) return tangent_num(c2, c1);
-        coordinate_t d2 = square_abs(c1.center - c2.center);
-        coordinate_t dp = d2 - (r1 + r2) * (r1 + r2);
+        multiplied_t d2 = square_abs(c1.center - c2.center);
+        multiplied_t dp = d2 - (r1 + r2) * (r1 + r2);
         if (dp > 0) return 4;
         if (dp == 0) return 3;
-        coordinate_t dn = d2 - (r2 - r1) * (r2 - r1);
+        multiplied_t dn = d2 - (r2 - r1) * (r2 - r1);
         if (dn > 0) return 2;
         if (dn == 0) return 1;
         return 0;
@@ -231,7 +231,7 @@ namespace suisen::integral_geometry {
     }
 
     Inclusion contains(const Circle& c, const Point& p) {
-        coordinate_t df = square_abs(c.center - p) - c.radius * c.radius;
+        multiplied_t df = square_abs(c.center - p) - multiplied_t(c.radius) * c.radius;
         if (df > 0) return Inclusion::OUT;
         if (df < 0) return Inclusion::IN;
         return Inclusion::ON;
-- 
2.43.0

