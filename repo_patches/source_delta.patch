From 3c2baac649121bb086f0154b512e70986568f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:08 +0000
Subject: [PATCH 01/61] fix: btree::map const end() and cend() no longer call
 each other forever

---
 include/indexes/btree/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index f37acdf..f942db4 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -894,7 +894,7 @@ public:
 
   inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
 
-  inline const_iterator cend() const { return end(); }
+  inline const_iterator cend() const { return {this, nullptr, 0}; }
 
   inline const_iterator begin() const { return cbegin(); }
 
-- 
2.43.0


From 7a1b3622acd610ac606fd9adf28e85d9a26d60b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:02 +0000
Subject: [PATCH 02/61] fix: btree::map operator[] value-initialises the value
 of a new key

---
 include/indexes/btree/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index f942db4..b3fe281 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -262,7 +262,7 @@ private:
         int current_value_offset =
             this->last_value_offset - sizeof(key_value_t);
 
-        new (opaque() + current_value_offset) key_type{key};
+        new (opaque() + current_value_offset) key_value_t{key, value_t{}};
 
         std::copy_backward(slots + pos, slots + this->num_values,
                            slots + this->num_values + 1);
-- 
2.43.0


From 158f4b25ba8dc2a407cb246bb7f7fd299b1090f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:02 +0000
Subject: [PATCH 03/61] fix: btree::map releases a node the way it was
 allocated

---
 include/indexes/btree/map.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index b3fe281..c4587f5 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -131,6 +131,10 @@ private:
           inherited_node_t(lowkey, highkey, height);
     }
 
+    static void operator delete(void *ptr) {
+      delete[] static_cast<char *>(ptr);
+    }
+
     inline bool canMerge(const node_t *other) const {
       return (this->logical_pagesize + other->logical_pagesize +
               (IsInner() ? sizeof(key_value_t) : 0)) +
-- 
2.43.0


From afe7bb52847dfdd28eff28d6745bf7da0e930e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:02 +0000
Subject: [PATCH 04/61] fix: btree::map destroys erased entries and never
 routes by them

---
 include/indexes/btree/map.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index c4587f5..02c71c4 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -306,6 +306,12 @@ private:
       return !key_present ? pos - 1 : pos;
     }
 
+    // A node may have no keys left, so locate it by its lower fence.
+    INNER_ONLY
+    int search_inner_for_node(const node_t *node) const {
+      return node->lowkey ? search_inner(*node->lowkey) : 0;
+    }
+
     INNER_ONLY_WITH_KEY
     value_t get_value_lower_than(const KeyType &key) const {
       int pos = search_inner(key);
@@ -336,6 +342,7 @@ private:
     void remove(int pos) {
       int *slots = get_slots();
 
+      get_key_value(pos)->~key_value_t();
       std::copy(slots + pos + 1, slots + this->num_values, slots + pos);
 
       this->num_values--;
@@ -473,11 +480,11 @@ private:
   }
 
   template <typename Node> inner_node_t *find_parent(Node *node) const {
-    const Key &key = node->get_first_key();
     inner_node_t *parent = nullptr;
 
     for (auto *current = m_root; current && current->isInner();
-         current = ASINNER(current)->get_child_for_key(key)) {
+         current = ASINNER(current)->get_child(
+             ASINNER(current)->search_inner_for_node(node))) {
       if (current == node)
         break;
 
@@ -498,7 +505,7 @@ private:
     if (parent == nullptr)
       return std::nullopt;
 
-    int pos = parent->search_inner(node->get_first_key());
+    int pos = parent->search_inner_for_node(node);
 
     if (pos == 0)
       return std::nullopt;
@@ -543,7 +550,7 @@ private:
     NodeSplitInfo<Node> splitinfo = node->split();
 
     if (node != m_root) {
-      int left_pos = parent->search_inner(node->get_first_key());
+      int left_pos = parent->search_inner_for_node(node);
       int right_pos = left_pos + 1;
 
       parent->update(left_pos, splitinfo.left);
@@ -566,7 +573,7 @@ private:
     Node *new_node = node->trim();
 
     if (node != m_root) {
-      int pos = parent->search_inner(node->get_first_key());
+      int pos = parent->search_inner_for_node(node);
 
       parent->update(pos, new_node);
     } else {
-- 
2.43.0


From 30e52643ed22b24c29b2c4f4e1f0fb43cde93be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:02 +0000
Subject: [PATCH 05/61] fix: btree::map iteration skips leaves whose entries
 were all erased

---
 include/indexes/btree/map.h | 52 ++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 02c71c4..f1095b0 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -735,25 +735,21 @@ public:
 
     void increment() {
       if (++m_curslot >= m_leaf->num_values) {
-        if (this->m_leaf->highkey) {
-          m_leaf = m_bt->get_next_leaf(m_leaf);
-          m_curslot = 0;
-        } else {
-          m_leaf = nullptr;
-          m_curslot = 0;
-        }
+        do {
+          m_leaf = m_leaf->highkey ? m_bt->get_next_leaf(m_leaf) : nullptr;
+        } while (m_leaf && m_leaf->num_values == 0);
+
+        m_curslot = 0;
       }
     }
 
     void decrement() {
       if (--m_curslot < 0) {
-        if (this->m_leaf->lowkey) {
-          m_leaf = m_bt->get_prev_leaf(this->m_leaf);
-          m_curslot = m_leaf->num_values - 1;
-        } else {
-          m_leaf = nullptr;
-          m_curslot = 0;
-        }
+        do {
+          m_leaf = m_leaf->lowkey ? m_bt->get_prev_leaf(m_leaf) : nullptr;
+        } while (m_leaf && m_leaf->num_values == 0);
+
+        m_curslot = m_leaf ? m_leaf->num_values - 1 : 0;
       }
     }
 
@@ -899,11 +895,19 @@ public:
     return end();
   }
 
-  inline iterator begin() { return {this, get_first_leaf(), 0}; }
+  inline iterator begin() {
+    iterator it = {this, get_first_leaf(), 0};
+
+    return it.m_leaf && it.m_leaf->num_values == 0 ? ++it : it;
+  }
 
   inline iterator end() { return {this, nullptr, 0}; }
 
-  inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
+  inline const_iterator cbegin() const {
+    const_iterator it = {this, get_first_leaf(), 0};
+
+    return it.m_leaf && it.m_leaf->num_values == 0 ? ++it : it;
+  }
 
   inline const_iterator cend() const { return {this, nullptr, 0}; }
 
@@ -913,14 +917,26 @@ public:
 
   inline reverse_iterator rbegin() {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+
+    if (leaf == nullptr)
+      return rend();
+
+    reverse_iterator it = {this, leaf, leaf->num_values - 1};
+
+    return leaf->num_values == 0 ? ++it : it;
   }
 
   inline reverse_iterator rend() { return end(); }
 
   inline const_reverse_iterator crbegin() const {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+
+    if (leaf == nullptr)
+      return crend();
+
+    const_reverse_iterator it = {this, leaf, leaf->num_values - 1};
+
+    return leaf->num_values == 0 ? ++it : it;
   }
 
   inline const_reverse_iterator crend() const { return end(); }
-- 
2.43.0


From 81c0b82666a11a178f09c144f69d5513aa336156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:02 +0000
Subject: [PATCH 06/61] fix: btree::map keeps inner entries of over-aligned
 keys aligned

---
 include/indexes/btree/map.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index f1095b0..ac55455 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -241,12 +241,15 @@ private:
       BTREE_DEBUG_ASSERT(this->isInner() && this->num_values == 0);
 
       int *slots = get_slots();
-      int current_value_offset = this->last_value_offset - sizeof(value_t);
+      // Entries placed below must stay aligned
+      constexpr int size =
+          std::max(sizeof(value_t), alignof(key_value_t));
+      int current_value_offset = this->last_value_offset - size;
 
       new (opaque() + current_value_offset) value_t{val};
       slots[0] = current_value_offset;
 
-      update_meta_after_insert(sizeof(value_t));
+      update_meta_after_insert(size);
     }
 
     inline void append(const Key &key, const value_t &val) {
-- 
2.43.0


From e6df57e1ed34ba405b96d7033276ba0fdb7cd602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 07/61] fix: btree::map orders its keys by its Compare
 parameter

---
 include/indexes/btree/map.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index ac55455..b32c2c6 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -28,15 +28,19 @@ private:
 
   template <typename KeyT1, typename KeyT2>
   static inline bool key_less(const KeyT1 &k1, const KeyT2 &k2) {
-    return k1 < k2;
+    // std::less<Key> would convert keys of other types to Key
+    if constexpr (std::is_same_v<Compare, std::less<Key>>)
+      return k1 < k2;
+    else
+      return comp(k1, k2);
   }
   template <typename KeyT1, typename KeyT2>
   static inline bool key_greater(const KeyT1 &k1, const KeyT2 &k2) {
-    return k2 < k1;
+    return key_less(k2, k1);
   }
   template <typename KeyT1, typename KeyT2>
   static inline bool key_equal(const KeyT1 &k1, const KeyT2 &k2) {
-    return k1 == k2;
+    return !key_less(k1, k2) && !key_less(k2, k1);
   }
 
   struct node_t {
-- 
2.43.0


From e71b27b8d0d7443beebeec2535b5ed3f6b3eb02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 08/61] fix: compound_key_greater orders its keys in descending
 order

---
 include/indexes/btree/key.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/key.h b/include/indexes/btree/key.h
index a1a17c7..dcff958 100644
--- a/include/indexes/btree/key.h
+++ b/include/indexes/btree/key.h
@@ -28,10 +28,10 @@ bool less(const compound_key<Order, Types1...> &k1,
       return false;
   } else {
     if (std::get<Index>(k1) < std::get<Index>(k2))
-      return true;
+      return Order == LESS;
 
     if (std::get<Index>(k2) < std::get<Index>(k1))
-      return false;
+      return Order == GREATER;
 
     return less<Index + 1>(k1, k2);
   }
-- 
2.43.0


From 48fbd1eba8a7efa32c9f268899320729b30c8a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 09/61] fix: btree::concurrent_map stats() returns the
 statistics

---
 include/indexes/btree/concurrent_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 85612ac..dfa896f 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2753,7 +2753,7 @@ public:
   }
 
   template <ENABLE_IF(Traits::STAT)> inline const Stats &stats() const {
-    return this->m_stats;
+    return *this->m_stats;
   }
 
   ~concurrent_map() {
-- 
2.43.0


From d143e492c8e3555a021cbfca1451cdc2c3f78905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 10/61] fix: btree::concurrent_map range iterators keep their
 own end bound, of its own type

---
 include/indexes/btree/concurrent_map.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index dfa896f..ca0c5af 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2138,9 +2138,9 @@ protected:
     using minkey_type = typename MinkeyOps::cmp_key_type;
     using maxkey_type = typename MaxkeyOps::cmp_key_type;
     using endkey_type = std::conditional_t<IDir == iter_direction::FORWARD,
-                                           minkey_type, maxkey_type>;
+                                           maxkey_type, minkey_type>;
     using endkey_ops_type = std::conditional_t<IDir == iter_direction::FORWARD,
-                                               MinkeyOps, MaxkeyOps>;
+                                               MaxkeyOps, MinkeyOps>;
     using iterator = iterator_impl<IDir>;
 
     range_iterator(const concurrent_map_iter *map, DefOps defops,
@@ -2175,12 +2175,12 @@ protected:
     }
 
     template <typename MinkeyType, typename MaxkeyType>
-    static auto get_end_key(const MinkeyType &min_key,
-                            const MaxkeyType &max_key) {
+    static const auto &get_end_key(const MinkeyType &min_key,
+                                   const MaxkeyType &max_key) {
       if constexpr (IDir == iter_direction::FORWARD)
-        return std::cref(max_key);
+        return max_key;
       else
-        return std::cref(min_key);
+        return min_key;
     }
 
     bool need_trav(const key_type &key) const noexcept {
@@ -2312,7 +2312,11 @@ protected:
     const MinkeyOps m_min_ops;
     const MaxkeyOps m_max_ops;
     const endkey_ops_type m_endkey_ops;
-    const endkey_type &m_endkey;
+    // Bounds may be temporaries, which do not outlive the call which created
+    // this iterator. Array bounds (string literals) cannot be copied.
+    const std::conditional_t<std::is_array_v<endkey_type>, const endkey_type &,
+                             const endkey_type>
+        m_endkey;
     std::optional<iterator> m_it;
   };
 
-- 
2.43.0


From 7cb2090b17a1a7849518b78345255d0bb8917650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 11/61] fix: btree::concurrent_map works with dynamically
 compared keys

---
 include/indexes/btree/concurrent_map.h | 59 ++++++++++++++------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index ca0c5af..bc3dc3f 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -914,7 +914,7 @@ protected:
   template <typename KeyType> class search_ops_t {
   public:
     using cmp_key_type = KeyType;
-    using comparator_t = std::conditional_t<is_dynamic_key, dynamic_cmp *,
+    using comparator_t = std::conditional_t<is_dynamic_key, const dynamic_cmp *,
                                             static_cmp<key_type, KeyType>>;
 
     STATIC_KEY_ONLY
@@ -924,11 +924,8 @@ protected:
         : m_cmp(cmp), m_stats(stats) {}
 
     template <typename OthKeyType>
-    search_ops_t(const search_ops_t<OthKeyType> &o) {
-      if constexpr (is_dynamic_key)
-        m_cmp = o.m_cmp;
-      m_stats = o.m_stats;
-    }
+    search_ops_t(const search_ops_t<OthKeyType> &o)
+        : m_cmp(convert_cmp(o.m_cmp)), m_stats(o.m_stats) {}
 
     inline bool less(const key_type &k1, const KeyType &k2) const noexcept {
       if constexpr (is_dynamic_key)
@@ -954,16 +951,16 @@ protected:
     template <typename Key1Type, typename Key2Type>
     inline bool less_equal(const Key1Type &k1, const Key2Type &k2) const
         noexcept {
-      return !(k2 < k1);
+      return !less(k2, k1);
     }
     template <typename Key1Type, typename Key2Type>
     inline bool greater(const Key1Type &k1, const Key2Type &k2) const noexcept {
-      return k2 < k1;
+      return less(k2, k1);
     }
     template <typename Key1Type, typename Key2Type>
     inline bool greater_equal(const Key1Type &k1, const Key2Type &k2) const
         noexcept {
-      return !(k1 < k2);
+      return !less(k1, k2);
     }
 
     template <typename NodeType> class lower_bound_cmp {
@@ -1264,6 +1261,14 @@ protected:
       return leaf_snapshot;
     }
 
+    template <typename OthComparator>
+    static comparator_t convert_cmp(const OthComparator &cmp) {
+      if constexpr (is_dynamic_key)
+        return cmp;
+      else
+        return {};
+    }
+
     const comparator_t m_cmp = {};
     Stats *m_stats = {};
   };
@@ -2467,7 +2472,7 @@ protected:
     if (leaf && node_empty)
       it++;
 
-    return leaf ? std::move(it) : end({this->m_stats.get()});
+    return leaf ? std::move(it) : end(ops);
   }
 };
 } // namespace detail
@@ -2514,7 +2519,7 @@ public:
               const dynamic_cmp *cmp) {
     static_assert(is_dynamic_key == true);
     return this->template insert_or_upsert<base::DO_INSERT>(
-        {cmp, this->m_stats.get()}, key, val);
+        {this->m_stats.get(), cmp}, key, val);
   }
 
   STATIC_KEY_ONLY
@@ -2529,7 +2534,7 @@ public:
                                     const dynamic_cmp *cmp) {
     static_assert(is_dynamic_key == true);
     return this->template insert_or_upsert<base::DO_UPSERT>(
-        {cmp, this->m_stats.get()}, key, val);
+        {this->m_stats.get(), cmp}, key, val);
   }
 
   STATIC_KEY_ONLY
@@ -2544,7 +2549,7 @@ public:
   std::optional<mapped_type> Update(const key_type &key, const mapped_type &val,
                                     const dynamic_cmp *cmp) {
     static_assert(is_dynamic_key == true);
-    return this->update({cmp, this->m_stats.get()}, key, val);
+    return this->update({this->m_stats.get(), cmp}, key, val);
   }
 
   STATIC_KEY_ONLY
@@ -2558,7 +2563,7 @@ public:
   std::optional<mapped_type> Search(const key_type &key,
                                     const dynamic_cmp *cmp) {
     static_assert(is_dynamic_key == true);
-    return this->search({cmp, this->m_stats.get()}, key);
+    return this->search({this->m_stats.get(), cmp}, key);
   }
 
   template <typename KeyType, ENABLE_IF_STATIC_KEY>
@@ -2571,7 +2576,7 @@ public:
   std::optional<mapped_type> Delete(const key_type &key,
                                     const dynamic_cmp *cmp) {
     static_assert(is_dynamic_key == true);
-    return this->remove({cmp, this->m_stats.get()}, key);
+    return this->remove({this->m_stats.get(), cmp}, key);
   }
 
   STATIC_KEY_ONLY
@@ -2588,7 +2593,7 @@ public:
   DYNAMIC_KEY_ONLY
   inline const_iterator cbegin(const dynamic_cmp *cmp) const {
     static_assert(is_dynamic_key == true);
-    return this->iter::cbegin({cmp, this->m_stats.get()});
+    return this->iter::cbegin({this->m_stats.get(), cmp});
   }
 
   STATIC_KEY_ONLY
@@ -2599,7 +2604,7 @@ public:
   DYNAMIC_KEY_ONLY
   inline const_iterator cend(const dynamic_cmp *cmp) const {
     static_assert(is_dynamic_key == true);
-    return this->iter::cend({cmp, this->m_stats.get()});
+    return this->iter::cend({this->m_stats.get(), cmp});
   }
 
   STATIC_KEY_ONLY
@@ -2610,7 +2615,7 @@ public:
   DYNAMIC_KEY_ONLY
   inline const_iterator begin(const dynamic_cmp *cmp) const {
     static_assert(is_dynamic_key == true);
-    return this->iter::begin({cmp, this->m_stats.get()});
+    return this->iter::begin({this->m_stats.get(), cmp});
   }
 
   STATIC_KEY_ONLY
@@ -2621,7 +2626,7 @@ public:
   DYNAMIC_KEY_ONLY
   inline const_iterator end(const dynamic_cmp *cmp) const {
     static_assert(is_dynamic_key == true);
-    return this->iter::end({cmp, this->m_stats.get()});
+    return this->iter::end({this->m_stats.get(), cmp});
   }
 
   STATIC_KEY_ONLY
@@ -2632,7 +2637,7 @@ public:
   DYNAMIC_KEY_ONLY
   inline const_reverse_iterator crbegin(const dynamic_cmp *cmp) const {
     static_assert(is_dynamic_key == true);
-    return this->iter::crbegin({cmp, this->m_stats.get()});
+    return this->iter::crbegin({this->m_stats.get(), cmp});
   }
 
   STATIC_KEY_ONLY
@@ -2643,7 +2648,7 @@ public:
   DYNAMIC_KEY_ONLY
   inline const_reverse_iterator crend(const dynamic_cmp *cmp) const {
     static_assert(is_dynamic_key == true);
-    return this->iter::crend({cmp, this->m_stats.get()});
+    return this->iter::crend({this->m_stats.get(), cmp});
   }
 
   STATIC_KEY_ONLY
@@ -2654,7 +2659,7 @@ public:
   DYNAMIC_KEY_ONLY
   inline const_reverse_iterator rbegin(const dynamic_cmp *cmp) const {
     static_assert(is_dynamic_key == true);
-    return this->iter::rbegin({cmp, this->m_stats.get()});
+    return this->iter::rbegin({this->m_stats.get(), cmp});
   }
 
   STATIC_KEY_ONLY
@@ -2665,7 +2670,7 @@ public:
   DYNAMIC_KEY_ONLY
   inline const_reverse_iterator rend(const dynamic_cmp *cmp) const {
     static_assert(is_dynamic_key == true);
-    return this->iter::rend({cmp, this->m_stats.get()});
+    return this->iter::rend({this->m_stats.get(), cmp});
   }
 
   template <typename KeyType, ENABLE_IF_STATIC_KEY>
@@ -2679,7 +2684,7 @@ public:
   inline const_iterator lower_bound(const key_type &key,
                                     const dynamic_cmp *cmp) const {
     static_assert(is_dynamic_key == true);
-    auto ops = def_search_ops_t{cmp, this->m_stats.get()};
+    auto ops = def_search_ops_t{this->m_stats.get(), cmp};
     return this->iter::lower_bound(key, ops, ops);
   }
 
@@ -2694,7 +2699,7 @@ public:
   inline const_iterator upper_bound(const key_type &key,
                                     const dynamic_cmp *cmp) const {
     static_assert(is_dynamic_key == true);
-    auto ops = def_search_ops_t{cmp, this->m_stats.get()};
+    auto ops = def_search_ops_t{this->m_stats.get(), cmp};
     return this->iter::upper_bound(key, ops, ops);
   }
 
@@ -2715,7 +2720,7 @@ public:
   inline auto range_iter(const key_type &min, const key_type &max,
                          const dynamic_cmp *cmp) {
     static_assert(is_dynamic_key == true);
-    def_search_ops_t ops = {cmp, this->m_stats.get()};
+    def_search_ops_t ops = {this->m_stats.get(), cmp};
     return typename iter::template const_range_iterator<
         LeftR, RightR, def_search_ops_t, def_search_ops_t, def_search_ops_t>{
         this, ops, ops, ops, min, max};
@@ -2738,7 +2743,7 @@ public:
   inline auto rrange_iter(const key_type &min, const key_type &max,
                           const dynamic_cmp *cmp) {
     static_assert(is_dynamic_key == true);
-    def_search_ops_t ops = {cmp, this->m_stats.get()};
+    def_search_ops_t ops = {this->m_stats.get(), cmp};
     return typename iter::template const_reverse_range_iterator<
         LeftR, RightR, def_search_ops_t, def_search_ops_t, def_search_ops_t>{
         this, ops, ops, ops, min, max};
-- 
2.43.0


From 6bbd5f12bcbd2f6576d379d3c8d59e33ce5e1104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 12/61] fix: btree::concurrent_map optimistic fallback on the
 root unlocks the root mutex

---
 include/indexes/btree/concurrent_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index bc3dc3f..55e24ca 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -673,8 +673,12 @@ protected:
         BTREE_UPDATE_STAT(optimistic_fail, ++);
         try_lock_pessimistic(node, state);
 
-        if (!state.is_deleted())
-          node->mutex.unlock();
+        if (!state.is_deleted()) {
+          if (node)
+            node->mutex.unlock();
+          else
+            this->m_root_mutex->unlock();
+        }
       }
     } else {
       try_lock_pessimistic(node, state);
-- 
2.43.0


From 5cc956069df484aed6427abd33092a5067160839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 13/61] fix: btree::concurrent_map backward iteration does not
 skip the key below a bound

---
 include/indexes/btree/concurrent_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 55e24ca..4ab6230 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1079,7 +1079,7 @@ protected:
                             std::vector<int> &slot_offsets) const noexcept {
       auto [pos, found, num_values] = lower_bound(leaf, key);
 
-      pos = found ? pos - 1 : pos;
+      (void)found;
       leaf_node_t::get_all_slots(slot_offsets, leaf->get_slots(), num_values);
       return pos - 1;
     }
-- 
2.43.0


From 24e9605f72fdb276c44f232f1aea83c78c17de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 14/61] fix: btree::concurrent_map begin and rbegin work on a
 map emptied by deletes

---
 include/indexes/btree/concurrent_map.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 4ab6230..4eff92d 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2362,9 +2362,13 @@ protected:
       eg.refresh();
     } while (leaf);
 
-    if (leaf && slots.empty())
-      std::tie(leaf, pos) =
-          ops.get_next_leaf(this, leaf->highkey.value(), slots);
+    if (leaf && slots.empty()) {
+      if (leaf->highkey)
+        std::tie(leaf, pos) =
+            ops.get_next_leaf(this, leaf->highkey.value(), slots);
+      else
+        leaf = nullptr;
+    }
 
     return leaf ? const_iterator{ops,
                                  this,
@@ -2405,8 +2409,11 @@ protected:
     } while (leaf);
 
     if (leaf && slots.empty()) {
-      std::tie(leaf, pos) =
-          ops.get_prev_leaf(this, leaf->lowkey.value(), slots);
+      if (leaf->lowkey)
+        std::tie(leaf, pos) =
+            ops.get_prev_leaf(this, leaf->lowkey.value(), slots);
+      else
+        leaf = nullptr;
     } else {
       pos = slots.size() - 1;
     }
-- 
2.43.0


From 86554f0ff6d71e0a003fef79dcee8e6df1cc7c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 15/61] fix: btree::concurrent_map height() counts levels, not
 root replacements

---
 include/indexes/btree/concurrent_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 4eff92d..2827b70 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -797,8 +797,6 @@ protected:
                           detail::load_relaxed(this->m_root_state)
                               .reset_locked()
                               .increment_version());
-    detail::store_release(this->m_height,
-                          detail::load_relaxed(this->m_height) + 1);
   }
 
   // Root mutex must be held
@@ -809,6 +807,8 @@ protected:
     new_root->insert_neg_infinity(splitinfo.left);
     new_root->append(*splitinfo.split_key, splitinfo.right);
     store_root(new_root);
+    detail::store_release(this->m_height,
+                          detail::load_relaxed(this->m_height) + 1);
   }
 
   inline bool update_root(nodestate_t rootstate, node_t *new_root) {
-- 
2.43.0


From 36ccf179c051d9a29df935df571d247e2aeccae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 16/61] fix: btree::concurrent_map releases a node the way it
 was allocated

---
 include/indexes/btree/concurrent_map.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 2827b70..6e2d1ac 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -283,6 +283,10 @@ protected:
 
     static void free(inherited_node_t *node) { delete node; }
 
+    static void operator delete(void *ptr) {
+      delete[] static_cast<char *>(ptr);
+    }
+
     // Must be called with both this's and other's mutex held
     inline bool haveEnoughSpace() const {
       auto next_slot_offset = detail::load_relaxed(this->next_slot_offset);
-- 
2.43.0


From b1c27cc70f746e9e012b86a1988884a45ca56d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 17/61] fix: btree::concurrent_map destroys removed entries
 with their node

---
 include/indexes/btree/concurrent_map.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 6e2d1ac..a514f01 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -268,9 +268,15 @@ protected:
         : node_t(NType, sizeof(inherited_node_t), height, lowkey, highkey) {}
 
     inline ~inherited_node_t() {
-      auto num_values = detail::load_relaxed(this->num_values);
-      for (int slot = IsInner() ? 1 : 0; slot < num_values; slot++) {
-        get_key_value(slot)->~key_value_t();
+      // Removed entries are unlinked from slots, but stay constructed because
+      // readers could still be using them.
+      int end_offset = Traits::NODE_SIZE;
+      if constexpr (IsInner())
+        end_offset -= sizeof(key_value_t); // Negative infinity has no key
+
+      for (int offset = this->last_value_offset; offset < end_offset;
+           offset += sizeof(key_value_t)) {
+        get_key_value_for_offset(offset)->~key_value_t();
       }
     }
 
-- 
2.43.0


From 76f1cb8a599853157e71a578a43f3ab19a85c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 18/61] fix: btree::concurrent_map reverse ranges may end
 beyond the last key

---
 include/indexes/btree/concurrent_map.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index a514f01..f9af14a 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2311,8 +2311,21 @@ protected:
                                              const MaxkeyType &max_key) {
       auto it = map->lower_bound(max_key, m_max_ops, m_defops);
 
-      if (it.m_leaf == nullptr)
-        return {};
+      // Every key is below the bound, unless added since.
+      if (it.m_leaf == nullptr) {
+        iterator last = map->crbegin(m_defops);
+
+        while (last.m_leaf && (RRKind == range_kind::INCLUSIVE
+                                   ? m_max_ops.greater(last->first, max_key)
+                                   : m_max_ops.greater_equal(last->first,
+                                                             max_key)))
+          ++last;
+
+        if (last.m_leaf != nullptr)
+          return {std::move(last)};
+        else
+          return {};
+      }
 
       if (m_max_ops.equal(it->first, max_key)) {
         if constexpr (RRKind == range_kind::EXCLUSIVE)
-- 
2.43.0


From acd7e60a8d008c93d120c9a3ba1a96e43ca9a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 19/61] fix: btree::concurrent_map dump compiles

---
 include/indexes/btree/btree_dump.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/btree_dump.h b/include/indexes/btree/btree_dump.h
index d84da28..ea5ebd4 100644
--- a/include/indexes/btree/btree_dump.h
+++ b/include/indexes/btree/btree_dump.h
@@ -63,10 +63,10 @@
                                                                                \
   void dump(std::ostream &ostr) const {                                        \
     std::deque<node_t *> children;                                             \
-    int current_height = m_height;                                             \
+    int current_height = this->m_height;                                       \
                                                                                \
-    if (m_root)                                                                \
-      children.push_back(m_root);                                              \
+    if (this->m_root)                                                          \
+      children.push_back(this->m_root);                                        \
                                                                                \
     while (children.size()) {                                                  \
       node_t *node = children[0];                                              \
-- 
2.43.0


From 97cdf5aabce2fdab58f71e5b5f22e0d60404a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 20/61] fix: EpochManager looks at each thread's epoch once to
 find the minimum

---
 include/indexes/utils/EpochManager.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 352397a..e1bf845 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -189,13 +189,13 @@ private:
   }
 
   epoch_t get_min_used_epoch() {
-    return std::min_element(std::begin(m_local_epoch),
-                            std::begin(m_local_epoch) +
-                                ThreadRegistry::MaxThreadID() + 1,
-                            [](const auto &a, const auto &b) {
-                              return a.epoch.load() < b.epoch.load();
-                            })
-        ->epoch;
+    // Look at each thread's epoch only once, because it could change meanwhile.
+    epoch_t min_used_epoch = QUIESCENT_STATE;
+
+    for (int id = 0; id <= ThreadRegistry::MaxThreadID(); id++)
+      min_used_epoch = std::min(min_used_epoch, m_local_epoch[id].epoch.load());
+
+    return min_used_epoch;
   }
 
   void retire(std::function<void(ReclaimedPtrType object)> reclaimer,
-- 
2.43.0


From 3b4191192ba99f2525f1383200a14a1ceeb8b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 21/61] fix: EpochManager publishes a thread's epoch before it
 reads shared objects

---
 include/indexes/utils/EpochManager.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index e1bf845..291eba7 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -45,8 +45,9 @@ public:
     auto &pd = m_local_epoch[ThreadRegistry::ThreadID()];
 
     if (pd.nested_level == 0) {
-      pd.epoch.store(now(), std::memory_order_release);
-      std::atomic_thread_fence(std::memory_order_acquire);
+      // The epoch must be visible before any shared object is read.
+      pd.epoch.store(now(), std::memory_order_seq_cst);
+      std::atomic_thread_fence(std::memory_order_seq_cst);
     }
     pd.nested_level++;
   }
-- 
2.43.0


From 1cee3175feff41a2807973bd0499ea66d7a413bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 22/61] fix: EpochManager reclaims the objects still retired
 when it is destroyed

---
 include/indexes/utils/EpochManager.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 291eba7..6feb9f9 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -140,6 +140,14 @@ public:
         m_local_epoch(ThreadRegistry::MAX_THREADS),
         m_retire_list(ThreadRegistry::MAX_THREADS) {}
 
+  // No thread can use the retired objects, once the manager is destroyed.
+  ~EpochManager() {
+    for (auto &retire_list : m_retire_list) {
+      for (auto &retiree : retire_list)
+        retiree.reclaim();
+    }
+  }
+
   EpochManager(const EpochManager &) = delete;
   EpochManager(EpochManager &&) = delete;
 
-- 
2.43.0


From 27c2b671c15b931e56b72102c7cbabf3ba893582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 23/61] hook: verification builds may lower EpochManager's
 default reclamation threshold

---
 include/indexes/utils/EpochManager.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 6feb9f9..2029697 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -17,8 +17,18 @@
 #include <gsl/gsl>
 
 namespace indexes::utils {
+
+// Verification builds lower the default threshold, to reclaim more often.
+#ifdef INDEXES_VERIF_RECLAMATION_THRESHOLD
+static constexpr int DEFAULT_RECLAMATION_THRESHOLD =
+    INDEXES_VERIF_RECLAMATION_THRESHOLD;
+#else
+static constexpr int DEFAULT_RECLAMATION_THRESHOLD = 1000;
+#endif
+
 template <typename epoch_t, typename ReclaimedType,
-          int ReclamationThreshold = 1000, typename Enable = void>
+          int ReclamationThreshold = DEFAULT_RECLAMATION_THRESHOLD,
+          typename Enable = void>
 class EpochManager;
 
 // Provides support for epoch based reclaimation.
-- 
2.43.0


From 463edd227f838d1e10817bb9f2e2cc43f514ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 24/61] fix: btree::concurrent_map reverse ranges exclude keys
 added beyond their bound

---
 include/indexes/btree/concurrent_map.h | 38 +++++++++-----------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index f9af14a..e8658d7 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2311,31 +2311,19 @@ protected:
                                              const MaxkeyType &max_key) {
       auto it = map->lower_bound(max_key, m_max_ops, m_defops);
 
-      // Every key is below the bound, unless added since.
-      if (it.m_leaf == nullptr) {
-        iterator last = map->crbegin(m_defops);
-
-        while (last.m_leaf && (RRKind == range_kind::INCLUSIVE
-                                   ? m_max_ops.greater(last->first, max_key)
-                                   : m_max_ops.greater_equal(last->first,
-                                                             max_key)))
-          ++last;
-
-        if (last.m_leaf != nullptr)
-          return {std::move(last)};
-        else
-          return {};
-      }
-
-      if (m_max_ops.equal(it->first, max_key)) {
-        if constexpr (RRKind == range_kind::EXCLUSIVE)
-          --it;
-      } else {
-        --it;
-      }
-
-      if (it.m_leaf != nullptr)
-        return {std::move(it)};
+      // Without a key at or above the bound, start from the last one.
+      iterator last =
+          it.m_leaf ? iterator{std::move(it)} : map->crbegin(m_defops);
+
+      // Keys beyond the bound can be added at any time.
+      while (last.m_leaf &&
+             (RRKind == range_kind::INCLUSIVE
+                  ? m_max_ops.greater(last->first, max_key)
+                  : m_max_ops.greater_equal(last->first, max_key)))
+        ++last;
+
+      if (last.m_leaf != nullptr)
+        return {std::move(last)};
       else
         return {};
     }
-- 
2.43.0


From fca75d0eb77f90f68aba6dfe471a0e60bdba24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 25/61] fix: btree::concurrent_map counts only the splits and
 trims that took effect

---
 include/indexes/btree/concurrent_map.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index e8658d7..fc0d381 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1521,8 +1521,6 @@ protected:
       splitinfo = node->split();
     }
 
-    BTREE_UPDATE_STAT_NODE_BASED(split);
-
     auto res = replace_subtree_on_version_match(snapshots, node_idx, [&]() {
       if constexpr (Node::IsInner())
         insert_into_splitnode(ops, splitinfo, prev_split_info);
@@ -1568,8 +1566,6 @@ protected:
       trimmed_node = node->trim();
     }
 
-    BTREE_UPDATE_STAT_NODE_BASED(trim);
-
     return {replace_subtree_on_version_match(
                 snapshots, node_idx,
                 [&]() {
@@ -1632,6 +1628,21 @@ protected:
       }
     };
 
+    // Splits and trims count, once they are reachable
+    auto update_stats = [this](const NodeSplitInfo &splitinfo) {
+      if (splitinfo.right) {
+        if (splitinfo.left->isLeaf())
+          BTREE_UPDATE_STAT(leaf_split, ++);
+        else
+          BTREE_UPDATE_STAT(inner_split, ++);
+      } else {
+        if (splitinfo.left->isLeaf())
+          BTREE_UPDATE_STAT(leaf_trim, ++);
+        else
+          BTREE_UPDATE_STAT(inner_trim, ++);
+      }
+    };
+
     BTREE_DEBUG_ASSERT(snapshots[node_idx].node &&
                        snapshots[node_idx].node->isLeaf());
 
@@ -1650,7 +1661,14 @@ protected:
         failed_splitinfos.emplace_back(res.second);
         free_failed_splits();
 
+        return;
+
       case OpResult::SUCCESS:
+        update_stats(res.second);
+
+        for (const auto &splitinfo : failed_splitinfos)
+          update_stats(splitinfo);
+
         return;
       }
     }
-- 
2.43.0


From 3f50e40f5e2747606ddef393d0862d6abd4bb171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 26/61] fix: ZipfianGenerator stays within its range and
 follows its current size

---
 src/benchmark/utils/zipfian_generator.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/benchmark/utils/zipfian_generator.h b/src/benchmark/utils/zipfian_generator.h
index e96ccb9..c7affd1 100644
--- a/src/benchmark/utils/zipfian_generator.h
+++ b/src/benchmark/utils/zipfian_generator.h
@@ -26,11 +26,11 @@ public:
                    double zipfian_const = kZipfianConst)
       : num_items_(max - min + 1), base_(min), theta_(zipfian_const),
         zeta_n_(0), n_for_zeta_(0) {
-    assert(num_items_ >= 2 && num_items_ < kMaxNumItems);
+    assert(num_items_ >= 1 && num_items_ < kMaxNumItems);
     zeta_2_ = Zeta(2, theta_);
     alpha_ = 1.0 / (1.0 - theta_);
     RaiseZeta(num_items_);
-    eta_ = Eta();
+    eta_ = Eta(num_items_);
 
     Next();
   }
@@ -59,8 +59,8 @@ private:
     n_for_zeta_ = num;
   }
 
-  double Eta() {
-    return (1 - std::pow(2.0 / num_items_, 1 - theta_)) /
+  double Eta(uint64_t num) {
+    return (1 - std::pow(2.0 / num, 1 - theta_)) /
            (1 - zeta_2_ / zeta_n_);
   }
 
@@ -94,25 +94,27 @@ private:
 };
 
 inline uint64_t ZipfianGenerator::NextUnlocked(uint64_t num) {
-  assert(num >= 2 && num < kMaxNumItems);
+  assert(num >= 1 && num < kMaxNumItems);
 
   if (num > n_for_zeta_) { // Recompute zeta_n and eta
     RaiseZeta(num);
-    eta_ = Eta();
+    eta_ = Eta(num);
   }
 
   double u = utils::RandomDouble();
   double uz = u * zeta_n_;
 
-  if (uz < 1.0) {
-    return last_value_ = 0;
+  if (uz < 1.0 || num == 1) {
+    return last_value_ = base_;
   }
 
-  if (uz < 1.0 + std::pow(0.5, theta_)) {
-    return last_value_ = 1;
+  if (uz < 1.0 + std::pow(0.5, theta_) || num == 2) {
+    return last_value_ = base_ + 1;
   }
 
-  return last_value_ = base_ + num * std::pow(eta_ * u - eta_ + 1, alpha_);
+  // Rounding may yield num itself, which is one too many.
+  const uint64_t item = num * std::pow(eta_ * u - eta_ + 1, alpha_);
+  return last_value_ = base_ + std::min(item, num - 1);
 }
 
 inline uint64_t ZipfianGenerator::Next(uint64_t num) {
-- 
2.43.0


From 0f0d75791b96365e508a9d7d90b9b80c606124cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 27/61] fix: SkewedLatestGenerator covers every item up to the
 latest

---
 src/benchmark/utils/skewed_latest_generator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/benchmark/utils/skewed_latest_generator.h b/src/benchmark/utils/skewed_latest_generator.h
index fe3cccc..ce463ca 100644
--- a/src/benchmark/utils/skewed_latest_generator.h
+++ b/src/benchmark/utils/skewed_latest_generator.h
@@ -20,7 +20,7 @@ namespace ycsbc {
 class SkewedLatestGenerator : public Generator<uint64_t> {
 public:
   SkewedLatestGenerator(CounterGenerator &counter)
-      : basis_(counter), zipfian_(basis_.Last()) {
+      : basis_(counter), zipfian_(basis_.Last() + 1) {
     Next();
   }
 
@@ -35,7 +35,7 @@ private:
 
 inline uint64_t SkewedLatestGenerator::Next() {
   uint64_t max = basis_.Last();
-  return last_ = max - zipfian_.Next(max);
+  return last_ = max - zipfian_.Next(max + 1);
 }
 
 } // namespace ycsbc
-- 
2.43.0


From 9307e1943c1cdd517154cc47f93362ec80ea8ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 28/61] fix: utils::RandomDouble honours its bounds on every
 call

---
 src/benchmark/utils/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/benchmark/utils/utils.h b/src/benchmark/utils/utils.h
index ac2b0d7..e278f5d 100644
--- a/src/benchmark/utils/utils.h
+++ b/src/benchmark/utils/utils.h
@@ -37,7 +37,7 @@ inline uint64_t Hash(uint64_t val) { return FNVHash64(val); }
 
 inline double RandomDouble(double min = 0.0, double max = 1.0) {
   static thread_local std::default_random_engine generator;
-  static thread_local std::uniform_real_distribution<double> uniform(min, max);
+  std::uniform_real_distribution<double> uniform(min, max);
   return uniform(generator);
 }
 
-- 
2.43.0


From 2ad06dfd1ed96e4a2edc98a3d04137a57ac21650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:24 +0000
Subject: [PATCH 29/61] fix: DiscreteGenerator survives rounding at the end of
 the unit interval

---
 src/benchmark/utils/discrete_generator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/benchmark/utils/discrete_generator.h b/src/benchmark/utils/discrete_generator.h
index 6a96195..c7cd85f 100644
--- a/src/benchmark/utils/discrete_generator.h
+++ b/src/benchmark/utils/discrete_generator.h
@@ -54,8 +54,9 @@ template <typename Value> inline Value DiscreteGenerator<Value>::Next() {
     chooser -= p->second / sum_;
   }
 
-  assert(false);
-  return last_;
+  // Rounding may leave the whole interval behind: the last value ends it.
+  assert(!values_.empty());
+  return last_ = values_.back().first;
 }
 
 } // namespace ycsbc
-- 
2.43.0


From efaa34647f5587ae4d55e1a24bfc3dbcb045f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 30/61] fix: ycsb clients read single fields by their name

---
 src/benchmark/ycsb/core/client.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/benchmark/ycsb/core/client.h b/src/benchmark/ycsb/core/client.h
index e1956cd..71ae8bd 100644
--- a/src/benchmark/ycsb/core/client.h
+++ b/src/benchmark/ycsb/core/client.h
@@ -74,7 +74,7 @@ inline int Client::TransactionRead() {
 
   if (!workload_.read_all_fields()) {
     DB::FieldSet fields;
-    fields.insert("field" + workload_.NextFieldName());
+    fields.insert(workload_.NextFieldName());
     return db_.Read(table, key, &fields, workload_.field_count(), result);
   } else {
     return db_.Read(table, key, NULL, workload_.field_count(), result);
@@ -88,7 +88,7 @@ inline int Client::TransactionReadModifyWrite() {
 
   if (!workload_.read_all_fields()) {
     DB::FieldSet fields;
-    fields.insert("field" + workload_.NextFieldName());
+    fields.insert(workload_.NextFieldName());
     db_.Read(table, key, &fields, workload_.field_count(), result);
   } else {
     db_.Read(table, key, NULL, workload_.field_count(), result);
@@ -110,7 +110,7 @@ inline int Client::TransactionScan() {
   std::vector<DB::FieldVec> result;
   if (!workload_.read_all_fields()) {
     DB::FieldSet fields;
-    fields.insert("field" + workload_.NextFieldName());
+    fields.insert(workload_.NextFieldName());
     return db_.Scan(table, key, len, &fields, workload_.field_count(), result);
   } else {
     return db_.Scan(table, key, len, NULL, workload_.field_count(), result);
-- 
2.43.0


From eb9c05faae81af20205509cf6f6008208b536f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 31/61] fix: ycsb transactions may request the records that
 transactions inserted

---
 src/benchmark/ycsb/core/client.h        | 2 +-
 src/benchmark/ycsb/core/core_workload.h | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/benchmark/ycsb/core/client.h b/src/benchmark/ycsb/core/client.h
index 71ae8bd..cd5817a 100644
--- a/src/benchmark/ycsb/core/client.h
+++ b/src/benchmark/ycsb/core/client.h
@@ -131,7 +131,7 @@ inline int Client::TransactionUpdate() {
 
 inline int Client::TransactionInsert() {
   const std::string &table = workload_.NextTable();
-  const std::string &key = workload_.NextSequenceKey();
+  const std::string &key = workload_.NextInsertKey();
   DB::FieldVec values;
   workload_.BuildValues(values);
   return db_.Insert(table, key, values);
diff --git a/src/benchmark/ycsb/core/core_workload.h b/src/benchmark/ycsb/core/core_workload.h
index 23b5447..0aa4302 100644
--- a/src/benchmark/ycsb/core/core_workload.h
+++ b/src/benchmark/ycsb/core/core_workload.h
@@ -139,6 +139,7 @@ public:
   virtual std::string NextTable() { return table_name_; }
   virtual std::string NextSequenceKey();    /// Used for loading data
   virtual std::string NextTransactionKey(); /// Used for transactions
+  virtual std::string NextInsertKey();      /// Used for inserting new records
   virtual Operation NextOperation() { return op_chooser_.Next(); }
   virtual std::string NextFieldName();
   virtual size_t NextScanLength() { return scan_len_chooser_->Next(); }
@@ -190,6 +191,11 @@ inline std::string CoreWorkload::NextSequenceKey() {
   return BuildKeyName(key_num);
 }
 
+inline std::string CoreWorkload::NextInsertKey() {
+  uint64_t key_num = insert_key_sequence_.Next();
+  return BuildKeyName(key_num);
+}
+
 inline std::string CoreWorkload::NextTransactionKey() {
   uint64_t key_num;
   do {
-- 
2.43.0


From 53c8692d88c6fe6712b5b0f1065324cbd80b2e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 32/61] fix: ycsb transactions request the records loaded from
 insertstart on

---
 src/benchmark/ycsb/core/core_workload.cpp | 12 +++++++-----
 src/benchmark/ycsb/core/core_workload.h   |  5 +++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/benchmark/ycsb/core/core_workload.cpp b/src/benchmark/ycsb/core/core_workload.cpp
index 6bc3c5a..071cada 100644
--- a/src/benchmark/ycsb/core/core_workload.cpp
+++ b/src/benchmark/ycsb/core/core_workload.cpp
@@ -98,7 +98,7 @@ void CoreWorkload::Init(const utils::Properties &p) {
       p.GetProperty(MAX_SCAN_LENGTH_PROPERTY, MAX_SCAN_LENGTH_DEFAULT));
   std::string scan_len_dist = p.GetProperty(SCAN_LENGTH_DISTRIBUTION_PROPERTY,
                                             SCAN_LENGTH_DISTRIBUTION_DEFAULT);
-  int insert_start =
+  insert_start_ =
       std::stoi(p.GetProperty(INSERT_START_PROPERTY, INSERT_START_DEFAULT));
 
   read_all_fields_ = utils::StrToBool(
@@ -112,7 +112,7 @@ void CoreWorkload::Init(const utils::Properties &p) {
     ordered_inserts_ = true;
   }
 
-  key_generator_ = new CounterGenerator(insert_start);
+  key_generator_ = new CounterGenerator(insert_start_);
 
   if (read_proportion > 0) {
     op_chooser_.AddValue(READ, read_proportion);
@@ -130,10 +130,11 @@ void CoreWorkload::Init(const utils::Properties &p) {
     op_chooser_.AddValue(READMODIFYWRITE, readmodifywrite_proportion);
   }
 
-  insert_key_sequence_.Set(record_count_);
+  insert_key_sequence_.Set(insert_start_ + record_count_);
 
   if (request_dist == "uniform") {
-    key_chooser_ = new UniformGenerator(0, record_count_ - 1);
+    key_chooser_ = new UniformGenerator(insert_start_,
+                                        insert_start_ + record_count_ - 1);
   } else if (request_dist == "zipfian") {
     // If the number of keys changes, we don't want to change popular keys.
     // So we construct the scrambled zipfian generator with a keyspace
@@ -142,7 +143,8 @@ void CoreWorkload::Init(const utils::Properties &p) {
     // and pick another key.
     int op_count = std::stoi(p.GetProperty(OPERATION_COUNT_PROPERTY));
     int new_keys = (int)(op_count * insert_proportion * 2); // a fudge factor
-    key_chooser_ = new ScrambledZipfianGenerator(record_count_ + new_keys);
+    key_chooser_ = new ScrambledZipfianGenerator(
+        insert_start_, insert_start_ + record_count_ + new_keys - 1);
   } else if (request_dist == "latest") {
     key_chooser_ = new SkewedLatestGenerator(insert_key_sequence_);
   } else {
diff --git a/src/benchmark/ycsb/core/core_workload.h b/src/benchmark/ycsb/core/core_workload.h
index 0aa4302..b02d3f0 100644
--- a/src/benchmark/ycsb/core/core_workload.h
+++ b/src/benchmark/ycsb/core/core_workload.h
@@ -152,7 +152,7 @@ public:
       : field_count_(0), read_all_fields_(false), write_all_fields_(false),
         field_len_generator_(NULL), key_generator_(NULL), key_chooser_(NULL),
         field_chooser_(NULL), scan_len_chooser_(NULL), insert_key_sequence_(3),
-        ordered_inserts_(true), record_count_(0) {}
+        ordered_inserts_(true), record_count_(0), insert_start_(0) {}
 
   virtual ~CoreWorkload() {
     if (field_len_generator_)
@@ -184,6 +184,7 @@ protected:
   CounterGenerator insert_key_sequence_;
   bool ordered_inserts_;
   size_t record_count_;
+  uint64_t insert_start_;
 };
 
 inline std::string CoreWorkload::NextSequenceKey() {
@@ -200,7 +201,7 @@ inline std::string CoreWorkload::NextTransactionKey() {
   uint64_t key_num;
   do {
     key_num = key_chooser_->Next();
-  } while (key_num > insert_key_sequence_.Last());
+  } while (key_num < insert_start_ || key_num > insert_key_sequence_.Last());
   return BuildKeyName(key_num);
 }
 
-- 
2.43.0


From 1cb383ac2e50d42898a17bf0133567abc3eed4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 33/61] fix: ycsb loads and runs exactly as many records and
 operations as requested

---
 src/benchmark/ycsb/ycsb.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/benchmark/ycsb/ycsb.cpp b/src/benchmark/ycsb/ycsb.cpp
index 98b95a3..b0baade 100644
--- a/src/benchmark/ycsb/ycsb.cpp
+++ b/src/benchmark/ycsb/ycsb.cpp
@@ -40,6 +40,11 @@ int DelegateClient(ycsbc::DB *db, ycsbc::CoreWorkload *wl, const int num_ops,
   return oks;
 }
 
+// The share of the i-th of num_threads clients; all shares add up to total_ops.
+static int OpsOfClient(int total_ops, int num_threads, int i) {
+  return total_ops / num_threads + (i < total_ops % num_threads ? 1 : 0);
+}
+
 int main(const int argc, const char *argv[]) {
   utils::Properties props;
   string file_name = ParseCommandLine(argc, argv, props);
@@ -60,7 +65,7 @@ int main(const int argc, const char *argv[]) {
   int total_ops = stoi(props[ycsbc::CoreWorkload::RECORD_COUNT_PROPERTY]);
   for (int i = 0; i < num_threads; ++i) {
     actual_ops.emplace_back(async(launch::async, DelegateClient, db, &wl,
-                                  total_ops / num_threads, true));
+                                  OpsOfClient(total_ops, num_threads, i), true));
   }
   assert((int)actual_ops.size() == num_threads);
 
@@ -78,7 +83,7 @@ int main(const int argc, const char *argv[]) {
   timer.Start();
   for (int i = 0; i < num_threads; ++i) {
     actual_ops.emplace_back(async(launch::async, DelegateClient, db, &wl,
-                                  total_ops / num_threads, false));
+                                  OpsOfClient(total_ops, num_threads, i), false));
   }
   assert((int)actual_ops.size() == num_threads);
 
-- 
2.43.0


From bf0888249a7ddb97420cb3ee54b4fe45bf600118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 34/61] fix: ycsb reports an unreadable property file instead
 of terminating

---
 src/benchmark/ycsb/ycsb.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/benchmark/ycsb/ycsb.cpp b/src/benchmark/ycsb/ycsb.cpp
index b0baade..5cf2470 100644
--- a/src/benchmark/ycsb/ycsb.cpp
+++ b/src/benchmark/ycsb/ycsb.cpp
@@ -153,8 +153,8 @@ string ParseCommandLine(int argc, const char *argv[],
       ifstream input(argv[argindex]);
       try {
         props.Load(input);
-      } catch (const string &message) {
-        cout << message << endl;
+      } catch (const utils::Exception &e) {
+        cout << e.what() << endl;
         exit(0);
       }
       input.close();
-- 
2.43.0


From be182aca58423891eede8ad335422c0bd0b90fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 35/61] fix: ycsb requests terminate when the chooser never
 picks a loaded record

---
 src/benchmark/ycsb/core/core_workload.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/benchmark/ycsb/core/core_workload.h b/src/benchmark/ycsb/core/core_workload.h
index b02d3f0..8cc70de 100644
--- a/src/benchmark/ycsb/core/core_workload.h
+++ b/src/benchmark/ycsb/core/core_workload.h
@@ -198,10 +198,17 @@ inline std::string CoreWorkload::NextInsertKey() {
 }
 
 inline std::string CoreWorkload::NextTransactionKey() {
-  uint64_t key_num;
+  // The chooser may pick keys that are not inserted yet, and when few records
+  // are loaded it may never pick any other: after a while, use what it picks.
+  constexpr int kMaxPicks = 1000;
+  uint64_t key_num, last;
+  int picks = 0;
   do {
     key_num = key_chooser_->Next();
-  } while (key_num < insert_start_ || key_num > insert_key_sequence_.Last());
+    last = insert_key_sequence_.Last();
+  } while ((key_num < insert_start_ || key_num > last) && ++picks < kMaxPicks);
+  if (key_num < insert_start_ || key_num > last)
+    key_num = insert_start_ + key_num % (last - insert_start_ + 1);
   return BuildKeyName(key_num);
 }
 
-- 
2.43.0


From 54bc725ed88955d3b3ae42dbd6ec5987fef2c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:25 +0000
Subject: [PATCH 36/61] fix: ycsb LockedMapDB deletes the record that was
 inserted

---
 src/benchmark/ycsb/db/locked_map_db.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/benchmark/ycsb/db/locked_map_db.h b/src/benchmark/ycsb/db/locked_map_db.h
index 0af626e..19c5a87 100644
--- a/src/benchmark/ycsb/db/locked_map_db.h
+++ b/src/benchmark/ycsb/db/locked_map_db.h
@@ -56,7 +56,7 @@ public:
     KVPair *fields = nullptr;
     std::lock_guard<std::mutex> lock(mutex);
 
-    fields = Delete(key);
+    fields = Delete(keyind);
 
     if (fields)
       delete[] fields;
-- 
2.43.0


From 0a7377e6b75d693ffa4ff4d6f4d3403dfeb5d8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 37/61] fix: ycsb LockedMapDB records own their fields, however
 many were written

---
 src/benchmark/ycsb/db/locked_map_db.h | 57 ++++++++++++---------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/src/benchmark/ycsb/db/locked_map_db.h b/src/benchmark/ycsb/db/locked_map_db.h
index 19c5a87..e52a0e4 100644
--- a/src/benchmark/ycsb/db/locked_map_db.h
+++ b/src/benchmark/ycsb/db/locked_map_db.h
@@ -3,6 +3,7 @@
 #include "core/db.h"
 #include "utils/properties.h"
 
+#include <algorithm>
 #include <mutex>
 #include <string>
 #include <vector>
@@ -53,19 +54,13 @@ public:
 
   int Delete(const std::string &table, const std::string &key) {
     std::string keyind = table + key;
-    KVPair *fields = nullptr;
     std::lock_guard<std::mutex> lock(mutex);
 
-    fields = Delete(keyind);
-
-    if (fields)
-      delete[] fields;
-
-    return fields ? DB::kOK : DB::kErrorNoData;
+    return Delete(keyind) ? DB::kOK : DB::kErrorNoData;
   }
 
 private:
-  MapType<std::string, KVPair *> db;
+  MapType<std::string, DB::FieldVec> db;
   std::mutex mutex;
 
   int Read(std::string &key, const DB::FieldSet *fields, int field_count,
@@ -99,52 +94,48 @@ private:
     if (it == db.end())
       return insert(key, values, true);
 
-    KVPair *fields = it->second;
-    int num_updates = values.size();
+    DB::FieldVec &fields = db[key];
 
-    for (int i = 0; (i < field_count) && num_updates; i++) {
-      KVPair &field = fields[i];
-      auto it = values.find(field.first);
+    for (const auto &value : values) {
+      auto field = std::find_if(
+          fields.begin(), fields.end(),
+          [&](const KVPair &field) { return field.first == value.first; });
 
-      if (it != values.end()) {
-        field.second = it->second;
-        num_updates--;
-      }
+      if (field != fields.end())
+        field->second = value.second;
+      else
+        fields.emplace_back(value.first, value.second);
     }
 
     return DB::kOK;
   }
 
-  KVPair *Delete(const std::string &key) {
-    KVPair *fields = nullptr;
+  bool Delete(const std::string &key) {
     auto it = db.find(key);
 
-    if (it != db.end()) {
-      fields = it->second;
-      db.erase(it);
-    }
+    if (it == db.end())
+      return false;
 
-    return fields;
+    db.erase(it);
+    return true;
   }
 
   template <typename Cont>
   int insert(const std::string &key, Cont &values, bool locked) {
-    KVPair *fields = new KVPair[values.size()];
-
-    std::copy(std::begin(values), std::end(values), fields);
+    DB::FieldVec fields(std::begin(values), std::end(values));
 
     if (locked) {
-      db[key] = fields;
+      db[key] = std::move(fields);
     } else {
       std::lock_guard<std::mutex> lock(mutex);
-      db[key] = fields;
+      db[key] = std::move(fields);
     }
 
     return DB::kOK;
   }
 
   std::vector<KVPair> get_fields(const DB::FieldSet *fields, int field_count,
-                                 const KVPair *fieldvec) {
+                                 const DB::FieldVec &fieldvec) {
     std::vector<KVPair> result;
 
     get_fields(result, fields, field_count, fieldvec);
@@ -153,9 +144,11 @@ private:
   }
 
   void get_fields(std::vector<KVPair> &result, const DB::FieldSet *fields,
-                  int field_count, const KVPair *fieldvec) {
+                  int field_count, const DB::FieldVec &fieldvec) {
+    field_count = std::min<int>(field_count, fieldvec.size());
+
     if (!fields) {
-      result = std::vector<KVPair>{fieldvec, fieldvec + field_count};
+      result = DB::FieldVec(fieldvec.begin(), fieldvec.begin() + field_count);
     } else {
       int num_field_reads = fields->size();
 
-- 
2.43.0


From 72007f5bf571ca377efc3f22ac0d1eac28057ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 38/61] fix: ycsb ConcurrentMapDB deletes the record that was
 inserted

---
 src/benchmark/ycsb/db/concurrent_map_db.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/benchmark/ycsb/db/concurrent_map_db.h b/src/benchmark/ycsb/db/concurrent_map_db.h
index 9f4ee74..ea60da8 100644
--- a/src/benchmark/ycsb/db/concurrent_map_db.h
+++ b/src/benchmark/ycsb/db/concurrent_map_db.h
@@ -49,7 +49,7 @@ public:
     std::string keyind = table + key;
     KVPair *fields = nullptr;
 
-    fields = Delete(key);
+    fields = Delete(keyind);
 
     if (fields)
       delete[] fields;
-- 
2.43.0


From 3a7580aea33156fae5d2bfc2710620fc455914ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 39/61] fix: ycsb ConcurrentMapDB stores updates and keeps
 records valid for their readers

---
 src/benchmark/ycsb/db/concurrent_map_db.h | 104 ++++++++++++++++------
 src/benchmark/ycsb/db/db_factory.cpp      |   2 +-
 2 files changed, 76 insertions(+), 30 deletions(-)

diff --git a/src/benchmark/ycsb/db/concurrent_map_db.h b/src/benchmark/ycsb/db/concurrent_map_db.h
index ea60da8..c88c06f 100644
--- a/src/benchmark/ycsb/db/concurrent_map_db.h
+++ b/src/benchmark/ycsb/db/concurrent_map_db.h
@@ -1,9 +1,15 @@
 #pragma once
 
 #include "core/db.h"
+#include "indexes/utils/EpochManager.h"
 #include "sync_prim/ThreadRegistry.h"
 #include "utils/properties.h"
 
+#include <algorithm>
+#include <array>
+#include <functional>
+#include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -47,84 +53,122 @@ public:
 
   int Delete(const std::string &table, const std::string &key) {
     std::string keyind = table + key;
-    KVPair *fields = nullptr;
-
-    fields = Delete(keyind);
-
-    if (fields)
-      delete[] fields;
+    return Delete(keyind) ? DB::kOK : DB::kErrorNoData;
+  }
 
-    return fields ? DB::kOK : DB::kErrorNoData;
+  // The calling thread must be registered, all others must be done.
+  ~ConcurrentMapDB() {
+    if constexpr (ScanSupported) {
+      for (auto it = db.begin(); it != db.end(); ++it)
+        delete it->second;
+    }
   }
 
 private:
+  // Records are replaced, never modified, and stay valid for their readers.
   MapType db;
+  indexes::utils::EpochManager<uint64_t, DB::FieldVec> epochs;
+  std::array<std::mutex, 64> writers;
+
+  struct EpochGuard {
+    indexes::utils::EpochManager<uint64_t, DB::FieldVec> &epochs;
+
+    EpochGuard(ConcurrentMapDB &cdb) : epochs(cdb.epochs) {
+      epochs.enter_epoch();
+    }
+    ~EpochGuard() { epochs.exit_epoch(); }
+  };
+
+  std::mutex &writer_of(const std::string &key) {
+    return writers[std::hash<std::string>{}(key) % writers.size()];
+  }
+
+  void retire(DB::FieldVec *fields) {
+    epochs.retire_in_new_epoch([](DB::FieldVec *old) { delete old; }, fields);
+  }
 
   int Read(std::string &key, const DB::FieldSet *fields, int field_count,
            std::vector<KVPair> &result) {
+    EpochGuard guard(*this);
     auto val = db.Search(key);
 
     if (!val)
       return DB::kErrorNoData;
 
     result.clear();
-    get_fields(result, fields, field_count, *val);
+    get_fields(result, fields, field_count, **val);
 
     return DB::kOK;
   }
 
   int Scan(std::string &key, int record_count, const DB::FieldSet *fields,
            int field_count, std::vector<std::vector<KVPair>> &result) {
+    EpochGuard guard(*this);
     result.clear();
 
     for (auto it = db.lower_bound(key); it != db.end() && record_count;
          ++it, --record_count) {
-      result.push_back(get_fields(fields, field_count, it->second));
+      result.push_back(get_fields(fields, field_count, *it->second));
     }
 
     return DB::kOK;
   }
 
   int Update(const std::string &key, int field_count, DB::FieldMap &values) {
+    std::lock_guard<std::mutex> lock(writer_of(key));
     auto val = db.Search(key);
 
     if (!val)
-      return insert(key, values);
-
-    KVPair *fields = new KVPair[field_count];
-    int num_updates = values.size();
+      return insert_locked(key, values);
 
-    std::copy(*val, *val + field_count, fields);
+    auto fields = std::make_unique<DB::FieldVec>(**val);
 
-    for (int i = 0; (i < field_count) && num_updates; i++) {
-      KVPair &field = fields[i];
-      auto it = values.find(field.first);
+    for (const auto &value : values) {
+      auto field = std::find_if(
+          fields->begin(), fields->end(),
+          [&](const KVPair &field) { return field.first == value.first; });
 
-      if (it != values.end()) {
-        field.second = it->second;
-        num_updates--;
-      }
+      if (field != fields->end())
+        field->second = value.second;
+      else
+        fields->emplace_back(value.first, value.second);
     }
 
+    db.Update(key, fields.release());
+    retire(*val);
     return DB::kOK;
   }
 
-  KVPair *Delete(const std::string &key) {
+  bool Delete(const std::string &key) {
+    std::lock_guard<std::mutex> lock(writer_of(key));
     auto val = db.Delete(key);
 
-    return val ? *val : nullptr;
+    if (val)
+      retire(*val);
+
+    return val.has_value();
   }
 
   template <typename Cont> int insert(const std::string &key, Cont &values) {
-    KVPair *fields = new KVPair[values.size()];
+    std::lock_guard<std::mutex> lock(writer_of(key));
 
-    std::copy(std::begin(values), std::end(values), fields);
+    return insert_locked(key, values);
+  }
+
+  template <typename Cont>
+  int insert_locked(const std::string &key, Cont &values) {
+    auto fields =
+        std::make_unique<DB::FieldVec>(std::begin(values), std::end(values));
+
+    if (!db.Insert(key, fields.get()))
+      return DB::kErrorConflict;
 
-    return db.Insert(key, fields) ? DB::kOK : DB::kErrorConflict;
+    fields.release();
+    return DB::kOK;
   }
 
   std::vector<KVPair> get_fields(const DB::FieldSet *fields, int field_count,
-                                 const KVPair *fieldvec) {
+                                 const DB::FieldVec &fieldvec) {
     std::vector<KVPair> result;
 
     get_fields(result, fields, field_count, fieldvec);
@@ -133,9 +177,11 @@ private:
   }
 
   void get_fields(std::vector<KVPair> &result, const DB::FieldSet *fields,
-                  int field_count, const KVPair *fieldvec) {
+                  int field_count, const DB::FieldVec &fieldvec) {
+    field_count = std::min<int>(field_count, fieldvec.size());
+
     if (!fields) {
-      result = std::vector<KVPair>{fieldvec, fieldvec + field_count};
+      result = DB::FieldVec(fieldvec.begin(), fieldvec.begin() + field_count);
     } else {
       int num_field_reads = fields->size();
 
diff --git a/src/benchmark/ycsb/db/db_factory.cpp b/src/benchmark/ycsb/db/db_factory.cpp
index f6aab6a..c63c790 100644
--- a/src/benchmark/ycsb/db/db_factory.cpp
+++ b/src/benchmark/ycsb/db/db_factory.cpp
@@ -40,7 +40,7 @@ DB *DBFactory::CreateDB(utils::Properties &props) {
     return new LockedMapDB<SCAN, indexes::btree::map>;
   } else if (props["dbname"] == "concurrent_btree") {
     return new ConcurrentMapDB<
-        SCAN, indexes::btree::concurrent_map<std::string, DB::KVPair *>>;
+        SCAN, indexes::btree::concurrent_map<std::string, DB::FieldVec *>>;
   } else {
     return nullptr;
   }
-- 
2.43.0


From cb476827970912308a8fcbda9fc45b1d8b0479c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 40/61] fix: ycsb ConcurrentMapDB clients unregister their
 thread when they close

---
 src/benchmark/ycsb/db/concurrent_map_db.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/benchmark/ycsb/db/concurrent_map_db.h b/src/benchmark/ycsb/db/concurrent_map_db.h
index c88c06f..cb07474 100644
--- a/src/benchmark/ycsb/db/concurrent_map_db.h
+++ b/src/benchmark/ycsb/db/concurrent_map_db.h
@@ -18,6 +18,7 @@ template <bool ScanSupported, typename MapType>
 class ConcurrentMapDB : public DB {
 public:
   void Init() { sync_prim::ThreadRegistry::RegisterThread(); }
+  void Close() { sync_prim::ThreadRegistry::UnregisterThread(); }
 
   int Read(const std::string &table, const std::string &key,
            const DB::FieldSet *fields, int field_count,
-- 
2.43.0


From 977bd025d9183744b61bdd3d8fd19e8a0c8e6e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:33 +0000
Subject: [PATCH 41/61] fix: art::map relinks an expanded node under its own
 index byte

---
 include/indexes/art/map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index 5588a75..0a13ea0 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -612,7 +612,8 @@ private:
         parent->add(node, ind);
 
         if (grand_parent)
-          grand_parent->update(parent, node_t::get_ind(node->key, depth - 1));
+          grand_parent->update(
+              parent, node_t::get_ind(node->key, depth - old->keylen));
         else
           root = parent;
 
-- 
2.43.0


From 03d72b2b1b7a28c3324e8313ee8c41cddb538e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:33 +0000
Subject: [PATCH 42/61] fix: art::concurrent_map never modifies a node it found
 deleted

---
 include/indexes/art/concurrent_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 127e711..9d26490 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -781,7 +781,8 @@ private:
     LockType lock() {
       LockType lock{node->m};
 
-      if (load_rx(node->version) != version) {
+      if (version == node_t::DEAD_VERSION ||
+          load_rx(node->version) != version) {
         lock.unlock();
       }
 
-- 
2.43.0


From 49a7e222a0ba53efa25a2ab7e2b155b2863a7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:33 +0000
Subject: [PATCH 43/61] fix: art::concurrent_map frees a discarded replacement
 node unlocked and by its type

---
 include/indexes/art/concurrent_map.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 9d26490..dc581b8 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -891,7 +891,8 @@ private:
           }
 
           if (node->node_type != node_type_t::NODE4) {
-            delete replacement;
+            child_lock.unlock();
+            node_t::free(replacement);
           }
         } else {
           if (parent) {
@@ -951,7 +952,7 @@ private:
         map.m_gc.retire_in_new_epoch(node_t::free, old);
       } else {
         lock.unlock();
-        delete node;
+        node_t::free(node);
         node = nullptr;
       }
 
-- 
2.43.0


From f49be44d086ef039efa3206eb4338857078640fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:33 +0000
Subject: [PATCH 44/61] fix: art::concurrent_map frees the leaf of an insert it
 has to retry

---
 include/indexes/art/concurrent_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index dc581b8..75b9f5b 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1070,7 +1070,10 @@ private:
       }
 
       if constexpr (UOp != UpdateOp::UOP_Update) {
-        if (!add_to_parent(new leaf_t(key, value), parent, grand_parent)) {
+        auto leaf = new leaf_t(key, value);
+
+        if (!add_to_parent(leaf, parent, grand_parent)) {
+          delete leaf;
           is_snapshot_stale = true;
         }
       }
-- 
2.43.0


From 0919c91c726675c8d14feddf58ce643273fa94d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:33 +0000
Subject: [PATCH 45/61] fix: art::concurrent_map marks a removed root leaf as
 deleted

---
 include/indexes/art/concurrent_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 75b9f5b..adb7f10 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -926,6 +926,7 @@ private:
         } else {
           if (auto lock = root_snapshot.lock_root(map)) {
             map.root = nullptr;
+            leaf->mark_as_deleted();
             is_snapshot_stale = false;
           }
         }
-- 
2.43.0


From c3fdff1b020a294919b2ff23aa7f401b584bfcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:33 +0000
Subject: [PATCH 46/61] fix: art::concurrent_map replaces a leaf to update it,
 as readers and deletes expect

---
 include/indexes/art/concurrent_map.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index adb7f10..97129b9 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -386,7 +386,7 @@ private:
   struct leaf_t;
 
   struct leaf_t : node_t {
-    value_type value;
+    const value_type value;
 
     leaf_t(key_type key, value_type a_value)
         : node_t(node_type_t::LEAF, key, KEYTYPE_SIZE), value(a_value) {}
@@ -816,14 +816,27 @@ private:
 
     template <UpdateOp UOp>
     std::optional<value_type> update_leaf(node_snapshot_t &node,
+                                          node_snapshot_t &parent,
                                           value_type value) {
       auto leaf = static_cast<leaf_t *>(node.node);
 
+      // Readers hold no lock, so a leaf is replaced instead of modified.
       if constexpr (UOp != UpdateOp::UOP_Insert) {
+        auto newleaf = new leaf_t(leaf->key, value);
+
+        is_snapshot_stale = true;
+
         if (auto lock = node.lock()) {
-          return std::exchange(leaf->value, value);
+          if (update_parent(newleaf, parent)) {
+            leaf->mark_as_deleted();
+            is_snapshot_stale = false;
+          }
+        }
+
+        if (is_snapshot_stale) {
+          delete newleaf;
         } else {
-          is_snapshot_stale = true;
+          map.m_gc.retire_in_new_epoch(node_t::free, leaf);
         }
       }
 
@@ -1041,7 +1054,7 @@ private:
 
         if (node->is_leaf()) {
           if (node->key == key) {
-            return update_leaf<UOp>(node, value);
+            return update_leaf<UOp>(node, parent, value);
           }
 
           if (!insert_leaf<UOp>(key, value, depth, lcpl, node, parent,
-- 
2.43.0


From 186c66b13f103701768d3426e6a8d69cf6398a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 47/61] fix: art::concurrent_map shrinks nodes that deletes
 left underfull

---
 include/indexes/art/concurrent_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 97129b9..0959187 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -933,6 +933,7 @@ private:
         if (parent) {
           if (auto lock = parent.lock()) {
             parent->remove(leaf->key);
+            parent.load_snapshot(parent.node);
             leaf->mark_as_deleted();
             is_snapshot_stale = false;
           }
-- 
2.43.0


From 422555a4b3740149d23843afaa9ae4e98dac57a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 48/61] fix: art::concurrent_map takes the root mutex along
 when it is moved

---
 include/indexes/art/concurrent_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 0959187..95a2f3b 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1189,7 +1189,7 @@ public:
   concurrent_map(const concurrent_map &) = delete;
 
   concurrent_map(concurrent_map &&other)
-      : root(other.root.exchange(nullptr)),
+      : root_mtx(std::move(other.root_mtx)), root(other.root.exchange(nullptr)),
         count(std::exchange(other.count, nullptr)) {}
 
   std::optional<value_type> Search(key_type key) const {
-- 
2.43.0


From c9f36092fd349e9b289988d46764936b9ba0910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:21 +0000
Subject: [PATCH 49/61] fix: art::concurrent_map dump compiles

---
 include/indexes/art/art_dump.h       | 9 +++++----
 include/indexes/art/concurrent_map.h | 2 +-
 include/indexes/art/map.h            | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/indexes/art/art_dump.h b/include/indexes/art/art_dump.h
index ad9c745..a1b84ae 100644
--- a/include/indexes/art/art_dump.h
+++ b/include/indexes/art/art_dump.h
@@ -4,7 +4,7 @@
 
 #include <iostream>
 
-#define ART_NODE_DUMP_METHODS                                                  \
+#define ART_NODE_DUMP_METHODS(prefixlen)                                       \
   template <typename Cont> void get_children(Cont &nodes, int depth) const {   \
     if (!is_leaf()) {                                                          \
       for (int i = 0; i < MAX_CHILDREN; i++) {                                 \
@@ -21,10 +21,11 @@
     ostr << static_cast<const void *>(this) << "=";                            \
     if (is_leaf()) {                                                           \
       auto leaf = static_cast<const leaf_t *>(this);                           \
-      ostr << "|" << itoa_hex(key) << ", " << static_cast<int>(keylen);        \
+      ostr << "|" << itoa_hex(key) << ", " << static_cast<int>(prefixlen);     \
       ostr << " {" << itoa_hex(leaf->key) << ", " << leaf->value << "}|";      \
     } else {                                                                   \
-      ostr << "|" << itoa_hex(key) << ", " << static_cast<int>(keylen) << " "; \
+      ostr << "|" << itoa_hex(key) << ", " << static_cast<int>(prefixlen)      \
+           << " ";                                                             \
                                                                                \
       for (int i = 0, j = 0; i < MAX_CHILDREN; i++) {                          \
         node_t *child = find(i);                                               \
@@ -106,6 +107,6 @@
   }                                                                            \
   void dump() const { dump(std::cout); }
 #else
-#define ART_NODE_DUMP_METHODS
+#define ART_NODE_DUMP_METHODS(prefixlen)
 #define ART_DUMP_METHODS
 #endif
diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 95a2f3b..01bf28b 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -376,7 +376,7 @@ private:
       }
     }
 
-    ART_NODE_DUMP_METHODS
+    ART_NODE_DUMP_METHODS(level)
   };
 
   struct node4_t;
diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index 0a13ea0..ac3e05b 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -256,7 +256,7 @@ private:
       }
     }
 
-    ART_NODE_DUMP_METHODS
+    ART_NODE_DUMP_METHODS(keylen)
   };
 
   struct node4_t;
-- 
2.43.0


From a7915c64edfcddd554bd0f7302b4d4ee4d09fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 50/61] fix: hashtable::concurrent_map frees its table and
 stays usable when moved from

---
 include/indexes/hashtable/concurrent_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index d9dd299..c64353d 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -420,9 +420,11 @@ public:
   concurrent_map(concurrent_map &&o_map)
       : ht(o_map.ht.load()), is_migration_in_progress(false), migration_mutex(),
         num_migrations(0) {
-    o_map.ht.store(nullptr);
+    o_map.ht.store(new HashTable(MINIMUM_CAPACITY));
   }
 
+  ~concurrent_map() { delete ht.load(); }
+
   void reserve(size_t num_values) { migrate_table(num_values * 2); }
 
   std::optional<mapped_type> Search(const key_type &key) {
-- 
2.43.0


From 5d44661eb6fcbd628909d1fcdb9cddc85321daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 51/61] fix: hashtable::concurrent_map destroys deleted pairs,
 and only with their table

---
 include/indexes/hashtable/concurrent_map.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index c64353d..76c621e 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -118,8 +118,9 @@ private:
         return this->hash == hash && key_value.first == key;
       }
 
+      // A deleted pair stays readable until the table is destroyed.
       void destroy() {
-        if (has_value())
+        if (!is_free())
           key_value.~KeyValuePair();
       }
 
@@ -555,13 +556,6 @@ public:
 
           bucket.mark_as_empty();
           ht.increment_num_tomb_stones();
-
-          m_gc.retire_in_new_epoch(
-              [&](void *ptr) {
-                reinterpret_cast<typename HashTable::HashBucket *>(ptr)
-                    ->destroy();
-              },
-              reinterpret_cast<void *>(&bucket));
         } else {
           continue;
         }
-- 
2.43.0


From 748b8e775d378419a4d41d456c057a093f7a9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 52/61] fix: hashtable::concurrent_map frees a table that
 turned out too small

---
 include/indexes/hashtable/concurrent_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 76c621e..9783e42 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -351,7 +351,7 @@ private:
   }
 
   bool try_migrate_table(size_t new_num_buckets) {
-    auto *new_ht = new HashTable{new_num_buckets};
+    auto new_ht = std::make_unique<HashTable>(new_num_buckets);
     auto *old_ht = ht.load();
     size_t old_num_buckets = old_ht->num_buckets;
 
@@ -375,7 +375,7 @@ private:
       }
     }
 
-    ht.store(new_ht);
+    ht.store(new_ht.release());
     m_gc.retire_in_new_epoch(
         [&](void *ptr) { delete reinterpret_cast<HashTable *>(ptr); },
         reinterpret_cast<void *>(old_ht));
-- 
2.43.0


From 51386b07c995a42f30f50d424295acfffd7504ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 53/61] fix: hashtable::concurrent_map inserts into one chain
 at a time

---
 include/indexes/hashtable/concurrent_map.h | 27 +++++++++++++---------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 9783e42..10410de 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -136,6 +136,8 @@ private:
       std::atomic<typename Traits::LinkType> first;
       std::atomic<typename Traits::LinkType> next;
       sync_prim::mutex::Mutex m;
+      // Serializes inserts into the chain that starts here, taken before any m
+      sync_prim::mutex::Mutex chain_m;
     };
 
     size_t num_buckets;
@@ -283,14 +285,21 @@ private:
 
     struct InsertSearchResult {
       InsertResult res;
+      MutexLock chain_lock;
       MutexLock lock;
       typename Traits::LinkType bucket_link;
       SearchResult sres;
+
+      void unlock() {
+        lock = {};
+        chain_lock = {};
+      }
     };
 
     InsertSearchResult insert(const key_type &key) {
       bool found;
       SearchResult sres;
+      MutexLock chain_lock{link[get_ideal_bucket(get_hash(key))].chain_m};
 
       while (true) {
         std::tie(found, sres) = search(key);
@@ -299,8 +308,8 @@ private:
           MutexLock lock{link[sres.bucket].m};
 
           if (buckets[sres.bucket].has_value()) {
-            return {InsertResult::InsertResult_AlreadyPresent, std::move(lock),
-                    0, sres};
+            return {InsertResult::InsertResult_AlreadyPresent,
+                    std::move(chain_lock), std::move(lock), 0, sres};
           } else {
             continue;
           }
@@ -314,13 +323,13 @@ private:
           if (buckets[sres.bucket].is_free()) {
             increment_num_values();
 
-            return {InsertResult::InsertResult_New, std::move(lock),
-                    *bucket_link, sres};
+            return {InsertResult::InsertResult_New, std::move(chain_lock),
+                    std::move(lock), *bucket_link, sres};
           } else {
             continue;
           }
         } else {
-          return {InsertResult::InsertResult_Overflow, {}, 0, sres};
+          return {InsertResult::InsertResult_Overflow, {}, {}, 0, sres};
         }
       };
     }
@@ -447,9 +456,7 @@ public:
       auto ires = ht.insert(key);
 
       if (is_migration_in_progress) {
-        if (ires.lock)
-          ires.lock.unlock();
-
+        ires.unlock();
         wait_for_migration_to_end();
         continue;
       }
@@ -479,9 +486,7 @@ public:
       auto ires = ht.insert(key);
 
       if (is_migration_in_progress) {
-        if (ires.lock)
-          ires.lock.unlock();
-
+        ires.unlock();
         wait_for_migration_to_end();
         continue;
       }
-- 
2.43.0


From a31d7b5cf8284a66b4ad682e3493e06d982ebbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 54/61] fix: hashtable::concurrent_map never modifies a table
 that was replaced

---
 include/indexes/hashtable/concurrent_map.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 10410de..8fd79a9 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -392,6 +392,11 @@ private:
     return true;
   }
 
+  // A table that is being migrated or was replaced must not be modified.
+  bool is_current(const HashTable &table) const {
+    return !is_migration_in_progress && ht.load() == std::addressof(table);
+  }
+
   void wait_for_migration_to_end() {
     std::lock_guard<sync_prim::mutex::Mutex> migration_lock{migration_mutex};
   }
@@ -455,7 +460,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (!is_current(ht)) {
         ires.unlock();
         wait_for_migration_to_end();
         continue;
@@ -485,7 +490,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (!is_current(ht)) {
         ires.unlock();
         wait_for_migration_to_end();
         continue;
@@ -521,7 +526,7 @@ public:
       if (found) {
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (!is_current(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
@@ -550,7 +555,7 @@ public:
 
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (!is_current(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
-- 
2.43.0


From 28a6d8ab5958c672803007a5dc15279954d868c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 55/61] fix: hashtable::concurrent_map counts an insert once,
 when it is done

---
 include/indexes/hashtable/concurrent_map.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 8fd79a9..2964940 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -321,8 +321,6 @@ private:
           MutexLock lock{link[sres.bucket].m};
 
           if (buckets[sres.bucket].is_free()) {
-            increment_num_values();
-
             return {InsertResult::InsertResult_New, std::move(chain_lock),
                     std::move(lock), *bucket_link, sres};
           } else {
@@ -357,6 +355,7 @@ private:
                                      const mapped_type &val) {
     ht.buckets[sres.bucket].emplace(sres.hash, key, val);
     sres.link->store(bucket_link, std::memory_order_release);
+    ht.increment_num_values();
   }
 
   bool try_migrate_table(size_t new_num_buckets) {
-- 
2.43.0


From 9611a1cfd7ba797591cae4e7e867617e27596011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 56/61] fix: hashtable::concurrent_map never reads a value
 while it is replaced

---
 include/indexes/hashtable/concurrent_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 2964940..9450723 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -447,8 +447,12 @@ public:
     auto [found, sres] = ht.search(key);
     std::optional<mapped_type> val{std::nullopt};
 
-    if (found)
-      val = ht.buckets[sres.bucket].key_value.second;
+    if (found) {
+      typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
+
+      if (ht.buckets[sres.bucket].has_value())
+        val = ht.buckets[sres.bucket].key_value.second;
+    }
 
     return val;
   }
-- 
2.43.0


From 0f971c744a9ea16c752a2e7cb283dfe1ca9259f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 57/61] fix: hashtable::concurrent_map size() neither wraps nor
 reads a freed table

---
 include/indexes/hashtable/concurrent_map.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 9450723..4f8d18c 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -189,18 +189,20 @@ private:
           stats[utils::ThreadRegistry::ThreadID()].num_tomb_stones;
 
       num_tomb_stones.store(num_tomb_stones.load() + 1,
-                            std::memory_order_relaxed);
+                            std::memory_order_release);
     }
 
     std::pair<size_t, size_t> get_stats() const {
       size_t num_values = 0;
       size_t num_tomb_stones = 0;
 
-      for (int i = 0; i < utils::ThreadRegistry::MAX_THREADS; i++) {
-        num_values += stats[i].num_values.load(std::memory_order_relaxed);
+      // What was deleted by now was inserted by now, so count the values last.
+      for (int i = 0; i < utils::ThreadRegistry::MAX_THREADS; i++)
         num_tomb_stones +=
-            stats[i].num_tomb_stones.load(std::memory_order_relaxed);
-      }
+            stats[i].num_tomb_stones.load(std::memory_order_acquire);
+
+      for (int i = 0; i < utils::ThreadRegistry::MAX_THREADS; i++)
+        num_values += stats[i].num_values.load(std::memory_order_relaxed);
 
       return {num_values, num_tomb_stones};
     }
@@ -338,12 +340,12 @@ private:
   sync_prim::mutex::Mutex migration_mutex;
   std::atomic<int> num_migrations;
 
-  indexes::utils::EpochManager<uint64_t, void> m_gc;
+  mutable indexes::utils::EpochManager<uint64_t, void> m_gc;
 
   struct EpochGuard {
-    concurrent_map *map;
+    const concurrent_map *map;
 
-    EpochGuard(concurrent_map *a_map) : map(a_map) { map->m_gc.enter_epoch(); }
+    EpochGuard(const concurrent_map *a_map) : map(a_map) { map->m_gc.enter_epoch(); }
 
     ~EpochGuard() { map->m_gc.exit_epoch(); }
   };
@@ -581,12 +583,14 @@ public:
   size_t size() const {
     std::atomic_thread_fence(std::memory_order_seq_cst);
 
+    EpochGuard eg{this};
     auto [num_values, num_tomb_stones] = ht.load()->get_stats();
 
     return num_values - num_tomb_stones;
   }
 
   int load_factor() const {
+    EpochGuard eg{this};
     HashTable &ht = *this->ht.load();
     auto [num_values, num_tomb_stones] = ht.get_stats();
 
-- 
2.43.0


From 928765b0ff383aaba2d72c919e4dbe6937fd94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 58/61] fix: hashtable::concurrent_map grows a full table
 instead of rebuilding it for ever

---
 include/indexes/hashtable/concurrent_map.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 4f8d18c..d72fd47 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -402,16 +402,24 @@ private:
     std::lock_guard<sync_prim::mutex::Mutex> migration_lock{migration_mutex};
   }
 
-  void migrate_table(size_t new_num_buckets = 0) {
+  void migrate_table(size_t new_num_buckets,
+                     const HashTable *full_table = nullptr) {
     typename HashTable::MutexLock migration_lock{migration_mutex,
                                                  std::try_to_lock};
 
     if (migration_lock) {
+      if (full_table && full_table != ht.load())
+        return;
+
       is_migration_in_progress = true;
 
       if (new_num_buckets == 0)
         new_num_buckets = size() * 2;
 
+      // With no tomb stones to drop, it would be full again at the same size.
+      if (full_table && full_table->get_stats().second == 0)
+        new_num_buckets = std::max(new_num_buckets, full_table->num_buckets * 2);
+
       new_num_buckets = next_pow_2(new_num_buckets);
 
       while (!try_migrate_table(new_num_buckets)) {
@@ -460,6 +468,8 @@ public:
   }
 
   bool Insert(const key_type &key, const mapped_type &val) {
+    const HashTable *full_table;
+
     while (true) {
       EpochGuard eg{this};
       HashTable &ht = *this->ht.load();
@@ -479,16 +489,19 @@ public:
       if (ires.res == HashTable::InsertResult::InsertResult_AlreadyPresent)
         return false;
 
+      full_table = std::addressof(ht);
       break;
     }
 
-    migrate_table();
+    migrate_table(0, full_table);
 
     return Insert(key, val);
   }
 
   std::optional<mapped_type> Upsert(const key_type &key,
                                     const mapped_type &val) {
+    const HashTable *full_table;
+
     while (true) {
       std::optional<mapped_type> oldval{std::nullopt};
       EpochGuard eg{this};
@@ -511,10 +524,11 @@ public:
         return oldval;
       }
 
+      full_table = std::addressof(ht);
       break;
     }
 
-    migrate_table();
+    migrate_table(0, full_table);
 
     return Upsert(key, val);
   }
-- 
2.43.0


From 68f90d303f69917cdb3ba6c17a6050b173c9dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 59/61] fix: hashtable::concurrent_map spreads hashes over the
 buckets

---
 include/indexes/hashtable/concurrent_map.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index d72fd47..4f074ba 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -219,7 +219,12 @@ private:
     }
 
     static size_t get_hash(const key_type &key) {
-      size_t hash = raw_hash(key);
+      uint64_t hash = raw_hash(key);
+
+      // Keys whose hashes differ in high bits only must not share a chain.
+      hash ^= hash >> 32;
+      hash *= 0x9e3779b97f4a7c15;
+      hash ^= hash >> 32;
 
       return hash < HashBucket::TOMB_STONE_HASH ? hash : 0;
     }
-- 
2.43.0


From c4e6c232eebadeb6c4acda83aa93564745349e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 60/61] Take src/benchmark back to its original state

The repairs of the benchmark sources are recorded as known findings instead.
---
 src/benchmark/utils/discrete_generator.h      |   5 +-
 src/benchmark/utils/skewed_latest_generator.h |   4 +-
 src/benchmark/utils/utils.h                   |   2 +-
 src/benchmark/utils/zipfian_generator.h       |  24 ++--
 src/benchmark/ycsb/core/client.h              |   8 +-
 src/benchmark/ycsb/core/core_workload.cpp     |  12 +-
 src/benchmark/ycsb/core/core_workload.h       |  20 +---
 src/benchmark/ycsb/db/concurrent_map_db.h     | 105 +++++-------------
 src/benchmark/ycsb/db/db_factory.cpp          |   2 +-
 src/benchmark/ycsb/db/locked_map_db.h         |  57 +++++-----
 src/benchmark/ycsb/ycsb.cpp                   |  13 +--
 11 files changed, 94 insertions(+), 158 deletions(-)

diff --git a/src/benchmark/utils/discrete_generator.h b/src/benchmark/utils/discrete_generator.h
index c7cd85f..6a96195 100644
--- a/src/benchmark/utils/discrete_generator.h
+++ b/src/benchmark/utils/discrete_generator.h
@@ -54,9 +54,8 @@ template <typename Value> inline Value DiscreteGenerator<Value>::Next() {
     chooser -= p->second / sum_;
   }
 
-  // Rounding may leave the whole interval behind: the last value ends it.
-  assert(!values_.empty());
-  return last_ = values_.back().first;
+  assert(false);
+  return last_;
 }
 
 } // namespace ycsbc
diff --git a/src/benchmark/utils/skewed_latest_generator.h b/src/benchmark/utils/skewed_latest_generator.h
index ce463ca..fe3cccc 100644
--- a/src/benchmark/utils/skewed_latest_generator.h
+++ b/src/benchmark/utils/skewed_latest_generator.h
@@ -20,7 +20,7 @@ namespace ycsbc {
 class SkewedLatestGenerator : public Generator<uint64_t> {
 public:
   SkewedLatestGenerator(CounterGenerator &counter)
-      : basis_(counter), zipfian_(basis_.Last() + 1) {
+      : basis_(counter), zipfian_(basis_.Last()) {
     Next();
   }
 
@@ -35,7 +35,7 @@ private:
 
 inline uint64_t SkewedLatestGenerator::Next() {
   uint64_t max = basis_.Last();
-  return last_ = max - zipfian_.Next(max + 1);
+  return last_ = max - zipfian_.Next(max);
 }
 
 } // namespace ycsbc
diff --git a/src/benchmark/utils/utils.h b/src/benchmark/utils/utils.h
index e278f5d..ac2b0d7 100644
--- a/src/benchmark/utils/utils.h
+++ b/src/benchmark/utils/utils.h
@@ -37,7 +37,7 @@ inline uint64_t Hash(uint64_t val) { return FNVHash64(val); }
 
 inline double RandomDouble(double min = 0.0, double max = 1.0) {
   static thread_local std::default_random_engine generator;
-  std::uniform_real_distribution<double> uniform(min, max);
+  static thread_local std::uniform_real_distribution<double> uniform(min, max);
   return uniform(generator);
 }
 
diff --git a/src/benchmark/utils/zipfian_generator.h b/src/benchmark/utils/zipfian_generator.h
index c7affd1..e96ccb9 100644
--- a/src/benchmark/utils/zipfian_generator.h
+++ b/src/benchmark/utils/zipfian_generator.h
@@ -26,11 +26,11 @@ public:
                    double zipfian_const = kZipfianConst)
       : num_items_(max - min + 1), base_(min), theta_(zipfian_const),
         zeta_n_(0), n_for_zeta_(0) {
-    assert(num_items_ >= 1 && num_items_ < kMaxNumItems);
+    assert(num_items_ >= 2 && num_items_ < kMaxNumItems);
     zeta_2_ = Zeta(2, theta_);
     alpha_ = 1.0 / (1.0 - theta_);
     RaiseZeta(num_items_);
-    eta_ = Eta(num_items_);
+    eta_ = Eta();
 
     Next();
   }
@@ -59,8 +59,8 @@ private:
     n_for_zeta_ = num;
   }
 
-  double Eta(uint64_t num) {
-    return (1 - std::pow(2.0 / num, 1 - theta_)) /
+  double Eta() {
+    return (1 - std::pow(2.0 / num_items_, 1 - theta_)) /
            (1 - zeta_2_ / zeta_n_);
   }
 
@@ -94,27 +94,25 @@ private:
 };
 
 inline uint64_t ZipfianGenerator::NextUnlocked(uint64_t num) {
-  assert(num >= 1 && num < kMaxNumItems);
+  assert(num >= 2 && num < kMaxNumItems);
 
   if (num > n_for_zeta_) { // Recompute zeta_n and eta
     RaiseZeta(num);
-    eta_ = Eta(num);
+    eta_ = Eta();
   }
 
   double u = utils::RandomDouble();
   double uz = u * zeta_n_;
 
-  if (uz < 1.0 || num == 1) {
-    return last_value_ = base_;
+  if (uz < 1.0) {
+    return last_value_ = 0;
   }
 
-  if (uz < 1.0 + std::pow(0.5, theta_) || num == 2) {
-    return last_value_ = base_ + 1;
+  if (uz < 1.0 + std::pow(0.5, theta_)) {
+    return last_value_ = 1;
   }
 
-  // Rounding may yield num itself, which is one too many.
-  const uint64_t item = num * std::pow(eta_ * u - eta_ + 1, alpha_);
-  return last_value_ = base_ + std::min(item, num - 1);
+  return last_value_ = base_ + num * std::pow(eta_ * u - eta_ + 1, alpha_);
 }
 
 inline uint64_t ZipfianGenerator::Next(uint64_t num) {
diff --git a/src/benchmark/ycsb/core/client.h b/src/benchmark/ycsb/core/client.h
index cd5817a..e1956cd 100644
--- a/src/benchmark/ycsb/core/client.h
+++ b/src/benchmark/ycsb/core/client.h
@@ -74,7 +74,7 @@ inline int Client::TransactionRead() {
 
   if (!workload_.read_all_fields()) {
     DB::FieldSet fields;
-    fields.insert(workload_.NextFieldName());
+    fields.insert("field" + workload_.NextFieldName());
     return db_.Read(table, key, &fields, workload_.field_count(), result);
   } else {
     return db_.Read(table, key, NULL, workload_.field_count(), result);
@@ -88,7 +88,7 @@ inline int Client::TransactionReadModifyWrite() {
 
   if (!workload_.read_all_fields()) {
     DB::FieldSet fields;
-    fields.insert(workload_.NextFieldName());
+    fields.insert("field" + workload_.NextFieldName());
     db_.Read(table, key, &fields, workload_.field_count(), result);
   } else {
     db_.Read(table, key, NULL, workload_.field_count(), result);
@@ -110,7 +110,7 @@ inline int Client::TransactionScan() {
   std::vector<DB::FieldVec> result;
   if (!workload_.read_all_fields()) {
     DB::FieldSet fields;
-    fields.insert(workload_.NextFieldName());
+    fields.insert("field" + workload_.NextFieldName());
     return db_.Scan(table, key, len, &fields, workload_.field_count(), result);
   } else {
     return db_.Scan(table, key, len, NULL, workload_.field_count(), result);
@@ -131,7 +131,7 @@ inline int Client::TransactionUpdate() {
 
 inline int Client::TransactionInsert() {
   const std::string &table = workload_.NextTable();
-  const std::string &key = workload_.NextInsertKey();
+  const std::string &key = workload_.NextSequenceKey();
   DB::FieldVec values;
   workload_.BuildValues(values);
   return db_.Insert(table, key, values);
diff --git a/src/benchmark/ycsb/core/core_workload.cpp b/src/benchmark/ycsb/core/core_workload.cpp
index 071cada..6bc3c5a 100644
--- a/src/benchmark/ycsb/core/core_workload.cpp
+++ b/src/benchmark/ycsb/core/core_workload.cpp
@@ -98,7 +98,7 @@ void CoreWorkload::Init(const utils::Properties &p) {
       p.GetProperty(MAX_SCAN_LENGTH_PROPERTY, MAX_SCAN_LENGTH_DEFAULT));
   std::string scan_len_dist = p.GetProperty(SCAN_LENGTH_DISTRIBUTION_PROPERTY,
                                             SCAN_LENGTH_DISTRIBUTION_DEFAULT);
-  insert_start_ =
+  int insert_start =
       std::stoi(p.GetProperty(INSERT_START_PROPERTY, INSERT_START_DEFAULT));
 
   read_all_fields_ = utils::StrToBool(
@@ -112,7 +112,7 @@ void CoreWorkload::Init(const utils::Properties &p) {
     ordered_inserts_ = true;
   }
 
-  key_generator_ = new CounterGenerator(insert_start_);
+  key_generator_ = new CounterGenerator(insert_start);
 
   if (read_proportion > 0) {
     op_chooser_.AddValue(READ, read_proportion);
@@ -130,11 +130,10 @@ void CoreWorkload::Init(const utils::Properties &p) {
     op_chooser_.AddValue(READMODIFYWRITE, readmodifywrite_proportion);
   }
 
-  insert_key_sequence_.Set(insert_start_ + record_count_);
+  insert_key_sequence_.Set(record_count_);
 
   if (request_dist == "uniform") {
-    key_chooser_ = new UniformGenerator(insert_start_,
-                                        insert_start_ + record_count_ - 1);
+    key_chooser_ = new UniformGenerator(0, record_count_ - 1);
   } else if (request_dist == "zipfian") {
     // If the number of keys changes, we don't want to change popular keys.
     // So we construct the scrambled zipfian generator with a keyspace
@@ -143,8 +142,7 @@ void CoreWorkload::Init(const utils::Properties &p) {
     // and pick another key.
     int op_count = std::stoi(p.GetProperty(OPERATION_COUNT_PROPERTY));
     int new_keys = (int)(op_count * insert_proportion * 2); // a fudge factor
-    key_chooser_ = new ScrambledZipfianGenerator(
-        insert_start_, insert_start_ + record_count_ + new_keys - 1);
+    key_chooser_ = new ScrambledZipfianGenerator(record_count_ + new_keys);
   } else if (request_dist == "latest") {
     key_chooser_ = new SkewedLatestGenerator(insert_key_sequence_);
   } else {
diff --git a/src/benchmark/ycsb/core/core_workload.h b/src/benchmark/ycsb/core/core_workload.h
index 8cc70de..23b5447 100644
--- a/src/benchmark/ycsb/core/core_workload.h
+++ b/src/benchmark/ycsb/core/core_workload.h
@@ -139,7 +139,6 @@ public:
   virtual std::string NextTable() { return table_name_; }
   virtual std::string NextSequenceKey();    /// Used for loading data
   virtual std::string NextTransactionKey(); /// Used for transactions
-  virtual std::string NextInsertKey();      /// Used for inserting new records
   virtual Operation NextOperation() { return op_chooser_.Next(); }
   virtual std::string NextFieldName();
   virtual size_t NextScanLength() { return scan_len_chooser_->Next(); }
@@ -152,7 +151,7 @@ public:
       : field_count_(0), read_all_fields_(false), write_all_fields_(false),
         field_len_generator_(NULL), key_generator_(NULL), key_chooser_(NULL),
         field_chooser_(NULL), scan_len_chooser_(NULL), insert_key_sequence_(3),
-        ordered_inserts_(true), record_count_(0), insert_start_(0) {}
+        ordered_inserts_(true), record_count_(0) {}
 
   virtual ~CoreWorkload() {
     if (field_len_generator_)
@@ -184,7 +183,6 @@ protected:
   CounterGenerator insert_key_sequence_;
   bool ordered_inserts_;
   size_t record_count_;
-  uint64_t insert_start_;
 };
 
 inline std::string CoreWorkload::NextSequenceKey() {
@@ -192,23 +190,11 @@ inline std::string CoreWorkload::NextSequenceKey() {
   return BuildKeyName(key_num);
 }
 
-inline std::string CoreWorkload::NextInsertKey() {
-  uint64_t key_num = insert_key_sequence_.Next();
-  return BuildKeyName(key_num);
-}
-
 inline std::string CoreWorkload::NextTransactionKey() {
-  // The chooser may pick keys that are not inserted yet, and when few records
-  // are loaded it may never pick any other: after a while, use what it picks.
-  constexpr int kMaxPicks = 1000;
-  uint64_t key_num, last;
-  int picks = 0;
+  uint64_t key_num;
   do {
     key_num = key_chooser_->Next();
-    last = insert_key_sequence_.Last();
-  } while ((key_num < insert_start_ || key_num > last) && ++picks < kMaxPicks);
-  if (key_num < insert_start_ || key_num > last)
-    key_num = insert_start_ + key_num % (last - insert_start_ + 1);
+  } while (key_num > insert_key_sequence_.Last());
   return BuildKeyName(key_num);
 }
 
diff --git a/src/benchmark/ycsb/db/concurrent_map_db.h b/src/benchmark/ycsb/db/concurrent_map_db.h
index cb07474..9f4ee74 100644
--- a/src/benchmark/ycsb/db/concurrent_map_db.h
+++ b/src/benchmark/ycsb/db/concurrent_map_db.h
@@ -1,15 +1,9 @@
 #pragma once
 
 #include "core/db.h"
-#include "indexes/utils/EpochManager.h"
 #include "sync_prim/ThreadRegistry.h"
 #include "utils/properties.h"
 
-#include <algorithm>
-#include <array>
-#include <functional>
-#include <memory>
-#include <mutex>
 #include <string>
 #include <vector>
 
@@ -18,7 +12,6 @@ template <bool ScanSupported, typename MapType>
 class ConcurrentMapDB : public DB {
 public:
   void Init() { sync_prim::ThreadRegistry::RegisterThread(); }
-  void Close() { sync_prim::ThreadRegistry::UnregisterThread(); }
 
   int Read(const std::string &table, const std::string &key,
            const DB::FieldSet *fields, int field_count,
@@ -54,122 +47,84 @@ public:
 
   int Delete(const std::string &table, const std::string &key) {
     std::string keyind = table + key;
-    return Delete(keyind) ? DB::kOK : DB::kErrorNoData;
-  }
-
-  // The calling thread must be registered, all others must be done.
-  ~ConcurrentMapDB() {
-    if constexpr (ScanSupported) {
-      for (auto it = db.begin(); it != db.end(); ++it)
-        delete it->second;
-    }
-  }
+    KVPair *fields = nullptr;
 
-private:
-  // Records are replaced, never modified, and stay valid for their readers.
-  MapType db;
-  indexes::utils::EpochManager<uint64_t, DB::FieldVec> epochs;
-  std::array<std::mutex, 64> writers;
+    fields = Delete(key);
 
-  struct EpochGuard {
-    indexes::utils::EpochManager<uint64_t, DB::FieldVec> &epochs;
+    if (fields)
+      delete[] fields;
 
-    EpochGuard(ConcurrentMapDB &cdb) : epochs(cdb.epochs) {
-      epochs.enter_epoch();
-    }
-    ~EpochGuard() { epochs.exit_epoch(); }
-  };
-
-  std::mutex &writer_of(const std::string &key) {
-    return writers[std::hash<std::string>{}(key) % writers.size()];
+    return fields ? DB::kOK : DB::kErrorNoData;
   }
 
-  void retire(DB::FieldVec *fields) {
-    epochs.retire_in_new_epoch([](DB::FieldVec *old) { delete old; }, fields);
-  }
+private:
+  MapType db;
 
   int Read(std::string &key, const DB::FieldSet *fields, int field_count,
            std::vector<KVPair> &result) {
-    EpochGuard guard(*this);
     auto val = db.Search(key);
 
     if (!val)
       return DB::kErrorNoData;
 
     result.clear();
-    get_fields(result, fields, field_count, **val);
+    get_fields(result, fields, field_count, *val);
 
     return DB::kOK;
   }
 
   int Scan(std::string &key, int record_count, const DB::FieldSet *fields,
            int field_count, std::vector<std::vector<KVPair>> &result) {
-    EpochGuard guard(*this);
     result.clear();
 
     for (auto it = db.lower_bound(key); it != db.end() && record_count;
          ++it, --record_count) {
-      result.push_back(get_fields(fields, field_count, *it->second));
+      result.push_back(get_fields(fields, field_count, it->second));
     }
 
     return DB::kOK;
   }
 
   int Update(const std::string &key, int field_count, DB::FieldMap &values) {
-    std::lock_guard<std::mutex> lock(writer_of(key));
     auto val = db.Search(key);
 
     if (!val)
-      return insert_locked(key, values);
+      return insert(key, values);
+
+    KVPair *fields = new KVPair[field_count];
+    int num_updates = values.size();
 
-    auto fields = std::make_unique<DB::FieldVec>(**val);
+    std::copy(*val, *val + field_count, fields);
 
-    for (const auto &value : values) {
-      auto field = std::find_if(
-          fields->begin(), fields->end(),
-          [&](const KVPair &field) { return field.first == value.first; });
+    for (int i = 0; (i < field_count) && num_updates; i++) {
+      KVPair &field = fields[i];
+      auto it = values.find(field.first);
 
-      if (field != fields->end())
-        field->second = value.second;
-      else
-        fields->emplace_back(value.first, value.second);
+      if (it != values.end()) {
+        field.second = it->second;
+        num_updates--;
+      }
     }
 
-    db.Update(key, fields.release());
-    retire(*val);
     return DB::kOK;
   }
 
-  bool Delete(const std::string &key) {
-    std::lock_guard<std::mutex> lock(writer_of(key));
+  KVPair *Delete(const std::string &key) {
     auto val = db.Delete(key);
 
-    if (val)
-      retire(*val);
-
-    return val.has_value();
+    return val ? *val : nullptr;
   }
 
   template <typename Cont> int insert(const std::string &key, Cont &values) {
-    std::lock_guard<std::mutex> lock(writer_of(key));
+    KVPair *fields = new KVPair[values.size()];
 
-    return insert_locked(key, values);
-  }
-
-  template <typename Cont>
-  int insert_locked(const std::string &key, Cont &values) {
-    auto fields =
-        std::make_unique<DB::FieldVec>(std::begin(values), std::end(values));
-
-    if (!db.Insert(key, fields.get()))
-      return DB::kErrorConflict;
+    std::copy(std::begin(values), std::end(values), fields);
 
-    fields.release();
-    return DB::kOK;
+    return db.Insert(key, fields) ? DB::kOK : DB::kErrorConflict;
   }
 
   std::vector<KVPair> get_fields(const DB::FieldSet *fields, int field_count,
-                                 const DB::FieldVec &fieldvec) {
+                                 const KVPair *fieldvec) {
     std::vector<KVPair> result;
 
     get_fields(result, fields, field_count, fieldvec);
@@ -178,11 +133,9 @@ private:
   }
 
   void get_fields(std::vector<KVPair> &result, const DB::FieldSet *fields,
-                  int field_count, const DB::FieldVec &fieldvec) {
-    field_count = std::min<int>(field_count, fieldvec.size());
-
+                  int field_count, const KVPair *fieldvec) {
     if (!fields) {
-      result = DB::FieldVec(fieldvec.begin(), fieldvec.begin() + field_count);
+      result = std::vector<KVPair>{fieldvec, fieldvec + field_count};
     } else {
       int num_field_reads = fields->size();
 
diff --git a/src/benchmark/ycsb/db/db_factory.cpp b/src/benchmark/ycsb/db/db_factory.cpp
index c63c790..f6aab6a 100644
--- a/src/benchmark/ycsb/db/db_factory.cpp
+++ b/src/benchmark/ycsb/db/db_factory.cpp
@@ -40,7 +40,7 @@ DB *DBFactory::CreateDB(utils::Properties &props) {
     return new LockedMapDB<SCAN, indexes::btree::map>;
   } else if (props["dbname"] == "concurrent_btree") {
     return new ConcurrentMapDB<
-        SCAN, indexes::btree::concurrent_map<std::string, DB::FieldVec *>>;
+        SCAN, indexes::btree::concurrent_map<std::string, DB::KVPair *>>;
   } else {
     return nullptr;
   }
diff --git a/src/benchmark/ycsb/db/locked_map_db.h b/src/benchmark/ycsb/db/locked_map_db.h
index e52a0e4..0af626e 100644
--- a/src/benchmark/ycsb/db/locked_map_db.h
+++ b/src/benchmark/ycsb/db/locked_map_db.h
@@ -3,7 +3,6 @@
 #include "core/db.h"
 #include "utils/properties.h"
 
-#include <algorithm>
 #include <mutex>
 #include <string>
 #include <vector>
@@ -54,13 +53,19 @@ public:
 
   int Delete(const std::string &table, const std::string &key) {
     std::string keyind = table + key;
+    KVPair *fields = nullptr;
     std::lock_guard<std::mutex> lock(mutex);
 
-    return Delete(keyind) ? DB::kOK : DB::kErrorNoData;
+    fields = Delete(key);
+
+    if (fields)
+      delete[] fields;
+
+    return fields ? DB::kOK : DB::kErrorNoData;
   }
 
 private:
-  MapType<std::string, DB::FieldVec> db;
+  MapType<std::string, KVPair *> db;
   std::mutex mutex;
 
   int Read(std::string &key, const DB::FieldSet *fields, int field_count,
@@ -94,48 +99,52 @@ private:
     if (it == db.end())
       return insert(key, values, true);
 
-    DB::FieldVec &fields = db[key];
+    KVPair *fields = it->second;
+    int num_updates = values.size();
 
-    for (const auto &value : values) {
-      auto field = std::find_if(
-          fields.begin(), fields.end(),
-          [&](const KVPair &field) { return field.first == value.first; });
+    for (int i = 0; (i < field_count) && num_updates; i++) {
+      KVPair &field = fields[i];
+      auto it = values.find(field.first);
 
-      if (field != fields.end())
-        field->second = value.second;
-      else
-        fields.emplace_back(value.first, value.second);
+      if (it != values.end()) {
+        field.second = it->second;
+        num_updates--;
+      }
     }
 
     return DB::kOK;
   }
 
-  bool Delete(const std::string &key) {
+  KVPair *Delete(const std::string &key) {
+    KVPair *fields = nullptr;
     auto it = db.find(key);
 
-    if (it == db.end())
-      return false;
+    if (it != db.end()) {
+      fields = it->second;
+      db.erase(it);
+    }
 
-    db.erase(it);
-    return true;
+    return fields;
   }
 
   template <typename Cont>
   int insert(const std::string &key, Cont &values, bool locked) {
-    DB::FieldVec fields(std::begin(values), std::end(values));
+    KVPair *fields = new KVPair[values.size()];
+
+    std::copy(std::begin(values), std::end(values), fields);
 
     if (locked) {
-      db[key] = std::move(fields);
+      db[key] = fields;
     } else {
       std::lock_guard<std::mutex> lock(mutex);
-      db[key] = std::move(fields);
+      db[key] = fields;
     }
 
     return DB::kOK;
   }
 
   std::vector<KVPair> get_fields(const DB::FieldSet *fields, int field_count,
-                                 const DB::FieldVec &fieldvec) {
+                                 const KVPair *fieldvec) {
     std::vector<KVPair> result;
 
     get_fields(result, fields, field_count, fieldvec);
@@ -144,11 +153,9 @@ private:
   }
 
   void get_fields(std::vector<KVPair> &result, const DB::FieldSet *fields,
-                  int field_count, const DB::FieldVec &fieldvec) {
-    field_count = std::min<int>(field_count, fieldvec.size());
-
+                  int field_count, const KVPair *fieldvec) {
     if (!fields) {
-      result = DB::FieldVec(fieldvec.begin(), fieldvec.begin() + field_count);
+      result = std::vector<KVPair>{fieldvec, fieldvec + field_count};
     } else {
       int num_field_reads = fields->size();
 
diff --git a/src/benchmark/ycsb/ycsb.cpp b/src/benchmark/ycsb/ycsb.cpp
index 5cf2470..98b95a3 100644
--- a/src/benchmark/ycsb/ycsb.cpp
+++ b/src/benchmark/ycsb/ycsb.cpp
@@ -40,11 +40,6 @@ int DelegateClient(ycsbc::DB *db, ycsbc::CoreWorkload *wl, const int num_ops,
   return oks;
 }
 
-// The share of the i-th of num_threads clients; all shares add up to total_ops.
-static int OpsOfClient(int total_ops, int num_threads, int i) {
-  return total_ops / num_threads + (i < total_ops % num_threads ? 1 : 0);
-}
-
 int main(const int argc, const char *argv[]) {
   utils::Properties props;
   string file_name = ParseCommandLine(argc, argv, props);
@@ -65,7 +60,7 @@ int main(const int argc, const char *argv[]) {
   int total_ops = stoi(props[ycsbc::CoreWorkload::RECORD_COUNT_PROPERTY]);
   for (int i = 0; i < num_threads; ++i) {
     actual_ops.emplace_back(async(launch::async, DelegateClient, db, &wl,
-                                  OpsOfClient(total_ops, num_threads, i), true));
+                                  total_ops / num_threads, true));
   }
   assert((int)actual_ops.size() == num_threads);
 
@@ -83,7 +78,7 @@ int main(const int argc, const char *argv[]) {
   timer.Start();
   for (int i = 0; i < num_threads; ++i) {
     actual_ops.emplace_back(async(launch::async, DelegateClient, db, &wl,
-                                  OpsOfClient(total_ops, num_threads, i), false));
+                                  total_ops / num_threads, false));
   }
   assert((int)actual_ops.size() == num_threads);
 
@@ -153,8 +148,8 @@ string ParseCommandLine(int argc, const char *argv[],
       ifstream input(argv[argindex]);
       try {
         props.Load(input);
-      } catch (const utils::Exception &e) {
-        cout << e.what() << endl;
+      } catch (const string &message) {
+        cout << message << endl;
         exit(0);
       }
       input.close();
-- 
2.43.0


From 5d2f80dcf06d462e395e05cf69618dd29ce7d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 61/61] fix: hashtable::concurrent_map separates crowded hashes
 when it grows

---
 include/indexes/hashtable/concurrent_map.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 4f074ba..fa8a220 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -219,18 +219,23 @@ private:
     }
 
     static size_t get_hash(const key_type &key) {
-      uint64_t hash = raw_hash(key);
-
-      // Keys whose hashes differ in high bits only must not share a chain.
-      hash ^= hash >> 32;
-      hash *= 0x9e3779b97f4a7c15;
-      hash ^= hash >> 32;
+      size_t hash = raw_hash(key);
 
       return hash < HashBucket::TOMB_STONE_HASH ? hash : 0;
     }
 
     size_t get_ideal_bucket(size_t hash) const {
-      return hash & (num_buckets - 1);
+      constexpr uint64_t multiplier = 0x9e3779b97f4a7c15;
+      // Keys whose hashes differ in high bits only must not share a chain, and
+      // keys that are crowded in this table must not be crowded in a larger
+      // one.
+      uint64_t bucket = hash ^ (num_buckets * multiplier);
+
+      bucket ^= bucket >> 32;
+      bucket *= multiplier;
+      bucket ^= bucket >> 32;
+
+      return bucket & (num_buckets - 1);
     }
 
     size_t add_bucket_circular(size_t bucket, size_t link) const {
-- 
2.43.0

