From 4575acba6c18e579034a7c671520550ae452f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 01/16] fix: decide key equivalence with the comparator, not
 operator==

---
 include/fast_containers/btree.ipp     | 12 ++++++------
 include/fast_containers/dense_map.ipp | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 74975f6..f792662 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -366,7 +366,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     auto it = node->internal_children.lower_bound(key);
 
     if (it != node->internal_children.begin() &&
-        (it == node->internal_children.end() || it->first != key)) {
+        (it == node->internal_children.end() || comp_(key, it->first))) {
       --it;
     }
 
@@ -377,7 +377,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto it = node->leaf_children.lower_bound(key);
 
   if (it != node->leaf_children.begin() &&
-      (it == node->leaf_children.end() || it->first != key)) {
+      (it == node->leaf_children.end() || comp_(key, it->first))) {
     --it;
   }
 
@@ -689,7 +689,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Erase elements one by one until we reach 'last'
   while (first != end()) {
     // Check if we've reached the 'last' position by comparing keys
-    if (last_key.has_value() && (*first).first == *last_key) {
+    if (last_key.has_value() && !comp_((*first).first, *last_key)) {
       break;
     }
     first = erase(first);
@@ -927,7 +927,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto pos = leaf->data.lower_bound(key);
 
   // Check if key already exists - delegate to on_exists callback
-  if (pos != leaf->data.end() && pos->first == key) {
+  if (pos != leaf->data.end() && !comp_(key, pos->first)) {
     return std::forward<OnExists>(on_exists)(leaf, pos);
   }
 
@@ -1112,7 +1112,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   if (it != children.end() && it->second == child) {
     // Found it at lower_bound position
     is_leftmost = (it == children.begin());
-    if (it->first != new_min) {
+    if (comp_(it->first, new_min) || comp_(new_min, it->first)) {
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
       children.unsafe_update_key(it, new_min);
@@ -1120,7 +1120,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   } else if (it != children.begin()) {
     // Check the previous entry
     --it;
-    if (it->second == child && it->first != new_min) {
+    if (it->second == child && comp_(it->first, new_min)) {
       is_leftmost = (it == children.begin());
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 1d96e72..f1d4f5f 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -367,7 +367,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(const Key& key) {
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return iterator(this, idx);
   }
   return end();
@@ -388,7 +388,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return const_iterator(this, idx);
   }
   return end();
@@ -442,7 +442,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -462,7 +462,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::const_iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) const {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -697,7 +697,7 @@ std::pair<
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     size_type idx, const Key& key, OnExists&& on_exists, OnInsert&& on_insert) {
   // Check if key exists at this position
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
         idx);  // Let caller decide what to do (return or assign)
   }
-- 
2.43.0


From 0fb40b4c851687334185fd2d8fac76356a4963bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 02/16] fix: build the element before shifting in dense_map
 insertions

---
 include/fast_containers/dense_map.hpp |  4 +-
 include/fast_containers/dense_map.ipp | 54 +++++++++++++++------------
 2 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index af04266..74adae8 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -442,10 +442,10 @@ class dense_map {
    * Common implementation for all insert operations.
    * Handles key existence check, shifting, and insertion logic.
    */
-  template <typename OnExists, typename OnInsert>
+  template <typename OnExists, typename MakeValue>
   std::pair<iterator, bool> insert_impl(size_type idx, const Key& key,
                                         OnExists&& on_exists,
-                                        OnInsert&& on_insert);
+                                        MakeValue&& make_value);
 
 #ifdef __AVX2__
   /**
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index f1d4f5f..e94cafc 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -145,9 +145,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
+      [&value]() -> Value {
+        // Copy the value to insert
+        return value;
       });
 }
 
@@ -190,9 +190,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_hint(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
+      [&value]() -> Value {
+        // Copy the value to insert
+        return value;
       });
 }
 
@@ -223,10 +223,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::try_emplace(
         // Key exists - CRITICAL: don't construct value, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &args...](size_type idx) {
-        // Construct value IN-PLACE using provided arguments
-        // This is the key difference from insert() - no temporary value!
-        std::construct_at(&values_[idx], std::forward<Args>(args)...);
+      [&args...]() -> Value {
+        // Construct value from the provided arguments, only when inserting
+        return Value(std::forward<Args>(args)...);
       });
 }
 
@@ -254,9 +253,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_or_assign(
         values_[idx] = std::forward<M>(value);
         return std::pair{iterator(this, idx), false};  // false = assignment
       },
-      [this, &value](size_type idx) {
+      [&value]() -> Value {
         // Insert new value
-        values_[idx] = std::forward<M>(value);
+        return Value(std::forward<M>(value));
       });
 }
 
@@ -335,6 +334,11 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
   const auto pos = lower_bound_key(key);
   size_type idx = pos - keys_.begin();
 
+  // Build the new element before making space for it: the key may refer to an
+  // element of this array, and building it may throw
+  Key new_key(key);
+  Value new_value{};
+
   // Shift elements to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
@@ -342,8 +346,8 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
                      values_.data() + size_ + 1);
 
   // Insert with default-constructed value
-  keys_[idx] = key;
-  values_[idx] = Value{};
+  keys_[idx] = std::move(new_key);
+  values_[idx] = std::move(new_value);
   ++size_;
 
   return values_[idx];
@@ -683,19 +687,20 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_suffix_from(
  * @param key Key to insert
  * @param on_exists Callback for when key exists: (size_type) -> pair<iterator,
  * bool> Can modify the existing value (insert_or_assign) or just return
- * @param on_insert Callback to insert value: (size_type) -> void
- *                  Uses assignment (insert) or construct_at (try_emplace)
+ * @param make_value Callback to build the value to insert: () -> Value
+ *                   Only called when the key is going to be inserted
  * @return Pair of iterator to element and bool indicating insertion success
  */
 template <typename Key, typename Value, std::size_t Length, typename Compare,
           SearchMode SearchModeT>
   requires ComparatorCompatible<Key, Compare>
-template <typename OnExists, typename OnInsert>
+template <typename OnExists, typename MakeValue>
 std::pair<
     typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator,
     bool>
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
-    size_type idx, const Key& key, OnExists&& on_exists, OnInsert&& on_insert) {
+    size_type idx, const Key& key, OnExists&& on_exists,
+    MakeValue&& make_value) {
   // Check if key exists at this position
   if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
@@ -707,17 +712,20 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     throw std::runtime_error("Cannot insert: array is full");
   }
 
+  // Build the new element before making space for it: the arguments may refer
+  // to elements of this array, and building it may throw
+  Key new_key(key);
+  Value new_value = std::forward<MakeValue>(make_value)();
+
   // Shift elements to the right to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
   std::move_backward(values_.data() + idx, values_.data() + size_,
                      values_.data() + size_ + 1);
 
-  // Insert the key
-  keys_[idx] = key;
-
-  // Let caller insert the value (assignment vs construct_at)
-  std::forward<OnInsert>(on_insert)(idx);
+  // Insert the new element
+  keys_[idx] = std::move(new_key);
+  values_[idx] = std::move(new_value);
 
   ++size_;
 
-- 
2.43.0


From a45958bfd8ad10a41d3cdb53d41fbbbcb7a4812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 03/16] fix: take the new element before splitting a full btree
 leaf

---
 include/fast_containers/btree.ipp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index f792662..be2b9d5 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -846,6 +846,12 @@ std::pair<typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::split_leaf_and_insert(leaf_node* leaf, const Key& key,
                                         GetValue&& get_value) {
+  // Get the new element before modifying the tree: the arguments may refer to
+  // elements that the split moves, and building the value may throw.
+  // This preserves try_emplace's optimization (only called when inserting)
+  const Key new_key(key);
+  auto value = std::forward<GetValue>(get_value)();
+
   // Create new leaf for right half
   leaf_node* new_leaf = allocate_leaf_node();
 
@@ -874,14 +880,11 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   const Key& promoted_key = new_leaf->data.begin()->first;
 
   // Determine target leaf
-  leaf_node* target_leaf = comp_(key, promoted_key) ? leaf : new_leaf;
-
-  // Get value on-demand after determining target leaf
-  // This preserves try_emplace's optimization
-  auto value = std::forward<GetValue>(get_value)();
+  leaf_node* target_leaf = comp_(new_key, promoted_key) ? leaf : new_leaf;
 
   // Insert the new key-value pair into appropriate leaf
-  auto [leaf_it, inserted] = target_leaf->data.insert(key, std::move(value));
+  auto [leaf_it, inserted] =
+      target_leaf->data.try_emplace(new_key, std::move(value));
 
   // Key is guaranteed not to exist (checked by insert_impl before calling)
   assert(inserted && "split_leaf_and_insert: key should not exist in tree");
@@ -947,7 +950,8 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // If we inserted at the beginning and leaf has a parent, update parent key
   if (leaf_it == leaf->data.begin() && leaf->parent != nullptr) {
-    update_parent_key_recursive(leaf, key);
+    // Use the stored key: the argument may refer to an element that moved
+    update_parent_key_recursive(leaf, leaf_it->first);
   }
 
   return {iterator(leaf, leaf_it), true};
-- 
2.43.0


From 306381cc7ebe9e5e49f372aee39cedae1201e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 04/16] fix: allocate all nodes of a btree split before
 changing the tree

---
 include/fast_containers/btree.hpp | 19 +++++--
 include/fast_containers/btree.ipp | 82 ++++++++++++++++++++++++++-----
 2 files changed, 87 insertions(+), 14 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index 1618cd6..ef55b4c 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -1034,6 +1034,18 @@ class btree {
                                                   const Key& key,
                                                   GetValue&& get_value);
 
+  /**
+   * Allocate the internal nodes that splitting a full leaf needs: one for each
+   * full ancestor, and one for a new root if the root is split.
+   * Returns them in the order of use, linked through their parent pointers.
+   */
+  internal_node* allocate_split_nodes(const leaf_node* leaf);
+
+  /**
+   * Take the first of the nodes that allocate_split_nodes() returned.
+   */
+  static internal_node* take_split_node(internal_node*& spare_nodes);
+
   /**
    * Insert a promoted key and child pointer into a parent node.
    * If parent is full, splits it recursively.
@@ -1043,15 +1055,16 @@ class btree {
    */
   template <typename NodeType>
   void insert_into_parent(NodeType* left_child, const Key& key,
-                          NodeType* right_child);
+                          NodeType* right_child, internal_node*& spare_nodes);
 
   /**
    * Split a full internal node.
-   * Creates a new internal node and moves half the children to it.
+   * Moves half the children to the given new node.
    * Returns a reference to the promoted key and pointer to the new node.
    * The key reference points to the first key in the new node's children.
    */
-  std::pair<const Key&, internal_node*> split_internal(internal_node* node);
+  std::pair<const Key&, internal_node*> split_internal(internal_node* node,
+                                                       internal_node* new_node);
 
   /**
    * Update parent's key for a child node to match its current minimum.
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index be2b9d5..807d7fa 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -852,8 +852,16 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   const Key new_key(key);
   auto value = std::forward<GetValue>(get_value)();
 
-  // Create new leaf for right half
+  // Allocate every node the split needs before modifying the tree, so that a
+  // failed allocation leaves it unchanged
   leaf_node* new_leaf = allocate_leaf_node();
+  internal_node* spare_nodes = nullptr;
+  try {
+    spare_nodes = allocate_split_nodes(leaf);
+  } catch (...) {
+    deallocate_leaf_node(new_leaf);
+    throw;
+  }
 
   // Calculate split point (ceil(LeafNodeSize / 2))
   const size_type split_point = (LeafNodeSize + 1) / 2;
@@ -892,7 +900,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   size_++;
 
   // Insert promoted key into parent
-  insert_into_parent(leaf, promoted_key, new_leaf);
+  insert_into_parent(leaf, promoted_key, new_leaf, spare_nodes);
 
   // If we inserted into the left half, update parent key if necessary
   if (target_leaf == leaf) {
@@ -957,6 +965,59 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   return {iterator(leaf, leaf_it), true};
 }
 
+// allocate_split_nodes
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+               Allocator>::internal_node*
+btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+      Allocator>::allocate_split_nodes(const leaf_node* leaf) {
+  internal_node* first = nullptr;
+  internal_node** last = &first;
+  bool leaf_children = true;
+  const internal_node* ancestor = leaf->parent;
+  try {
+    // Every full ancestor is split, up to the first one that has space
+    while (ancestor != nullptr &&
+           (leaf_children ? ancestor->leaf_children.size()
+                          : ancestor->internal_children.size()) >=
+               InternalNodeSize) {
+      *last = allocate_internal_node(leaf_children);
+      last = &(*last)->parent;
+      leaf_children = false;
+      ancestor = ancestor->parent;
+    }
+    // If the root is split too, a new root is needed
+    if (ancestor == nullptr) {
+      *last = allocate_internal_node(leaf_children);
+    }
+  } catch (...) {
+    while (first != nullptr) {
+      deallocate_internal_node(take_split_node(first));
+    }
+    throw;
+  }
+  return first;
+}
+
+// take_split_node
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+               Allocator>::internal_node*
+btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+      Allocator>::take_split_node(internal_node*& spare_nodes) {
+  internal_node* node = spare_nodes;
+  assert(node != nullptr && "allocate_split_nodes allocated too few nodes");
+  spare_nodes = node->parent;
+  node->parent = nullptr;
+  return node;
+}
+
 // insert_into_parent
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
@@ -965,7 +1026,8 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
 template <typename NodeType>
 void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
            Allocator>::insert_into_parent(NodeType* left_child, const Key& key,
-                                          NodeType* right_child) {
+                                          NodeType* right_child,
+                                          internal_node*& spare_nodes) {
   // Helper lambda to get appropriate children array reference
   auto get_children = [](internal_node* node) -> auto& {
     if constexpr (std::is_same_v<NodeType, leaf_node>) {
@@ -989,8 +1051,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // Case 1: left_child is root - create new root
   if (left_child->parent == nullptr) {
-    constexpr bool children_are_leaves = std::is_same_v<NodeType, leaf_node>;
-    internal_node* new_root = allocate_internal_node(children_are_leaves);
+    internal_node* new_root = take_split_node(spare_nodes);
 
     auto& children = get_children(new_root);
     auto [it, inserted] = children.insert(get_left_key(left_child), left_child);
@@ -1013,7 +1074,8 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Check if parent is full
   if (parent_children.size() >= InternalNodeSize) {
     // Need to split parent
-    auto [promoted_key, new_parent] = split_internal(parent);
+    auto [promoted_key, new_parent] =
+        split_internal(parent, take_split_node(spare_nodes));
 
     // Determine which parent to insert into
     internal_node* target_parent =
@@ -1025,7 +1087,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     assert(inserted && "Insert into non-full parent should succeed");
 
     // Recursively insert promoted key into grandparent
-    insert_into_parent(parent, promoted_key, new_parent);
+    insert_into_parent(parent, promoted_key, new_parent, spare_nodes);
   } else {
     // Parent has space - insert normally
     right_child->parent = parent;
@@ -1043,10 +1105,8 @@ std::pair<const Key&,
           typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
                          SearchModeT, Allocator>::internal_node*>
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-      Allocator>::split_internal(internal_node* node) {
-  // Create new internal node
-  internal_node* new_node = allocate_internal_node(node->children_are_leaves);
-
+      Allocator>::split_internal(internal_node* node,
+                                 internal_node* new_node) {
   // Calculate split point
   const size_type split_point = (InternalNodeSize + 1) / 2;
 
-- 
2.43.0


From 2bc7256105b51579187bb8a2e2145782cf105868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 05/16] fix: do not leak or lose btree nodes when clear or a
 copy throws

---
 include/fast_containers/btree.ipp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 807d7fa..93b4af7 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -58,8 +58,14 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Always allocate an empty root leaf, then copy all elements
 
   // Copy all elements using insert (use const iterators)
-  for (const_iterator it = other.begin(); it != other.end(); ++it) {
-    insert(it->first, it->second);
+  try {
+    for (const_iterator it = other.begin(); it != other.end(); ++it) {
+      insert(it->first, it->second);
+    }
+  } catch (...) {
+    // The destructor does not run if a constructor throws
+    deallocate_tree();
+    throw;
   }
 }
 
@@ -714,7 +720,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::allocate_leaf_node() {
   using leaf_alloc_traits = std::allocator_traits<decltype(leaf_alloc_)>;
   leaf_node* node = leaf_alloc_.allocate(1);
-  leaf_alloc_traits::construct(leaf_alloc_, node);
+  try {
+    leaf_alloc_traits::construct(leaf_alloc_, node);
+  } catch (...) {
+    leaf_alloc_.deallocate(node, 1);
+    throw;
+  }
   return node;
 }
 
@@ -730,7 +741,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   using internal_alloc_traits =
       std::allocator_traits<decltype(internal_alloc_)>;
   internal_node* node = internal_alloc_.allocate(1);
-  internal_alloc_traits::construct(internal_alloc_, node, leaf_children);
+  try {
+    internal_alloc_traits::construct(internal_alloc_, node, leaf_children);
+  } catch (...) {
+    internal_alloc_.deallocate(node, 1);
+    throw;
+  }
   return node;
 }
 
@@ -774,11 +790,12 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     // Just clear the root leaf's data
     leaf_root_->data.clear();
   } else {
+    // Allocate new empty leaf root first: nothing is lost if this fails
+    leaf_node* new_root = allocate_leaf_node();
+
     // Deallocate internal tree and reset to empty leaf root
     deallocate_internal_subtree(internal_root_);
-
-    // Allocate new empty leaf root
-    leaf_root_ = allocate_leaf_node();
+    leaf_root_ = new_root;
     root_is_leaf_ = true;
     leftmost_leaf_ = leaf_root_;
     rightmost_leaf_ = leaf_root_;
-- 
2.43.0


From 3bda0d6c7439480df1b5cb76530d738c67347dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 06/16] fix: keep btree nodes with their allocator on move and
 swap

---
 include/fast_containers/btree.ipp             | 21 +++++++++++++++++--
 .../policy_based_hugepage_allocator.hpp       |  2 +-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 93b4af7..ea91e17 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -101,8 +101,9 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       size_(other.size_),
       leftmost_leaf_(other.leftmost_leaf_),
       rightmost_leaf_(other.rightmost_leaf_),
-      leaf_alloc_(std::move(other.leaf_alloc_)),
-      internal_alloc_(std::move(other.internal_alloc_)) {
+      // Copied, not moved: other still needs its allocators
+      leaf_alloc_(other.leaf_alloc_),
+      internal_alloc_(other.internal_alloc_) {
   // Move the correct root pointer based on type
   if (root_is_leaf_) {
     leaf_root_ = other.leaf_root_;
@@ -131,6 +132,15 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     // Deallocate existing tree (including root)
     deallocate_tree();
 
+    // The nodes must be deallocated by the allocators they came from
+    // (copied, not moved: other still needs its allocators)
+    if constexpr (std::allocator_traits<
+                      Allocator>::propagate_on_container_move_assignment::
+                      value) {
+      leaf_alloc_ = other.leaf_alloc_;
+      internal_alloc_ = other.internal_alloc_;
+    }
+
     // Move other's resources to this
     root_is_leaf_ = other.root_is_leaf_;
     if (root_is_leaf_) {
@@ -205,6 +215,13 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     }
   }
 
+  // The nodes must be deallocated by the allocators they came from
+  if constexpr (std::is_swappable_v<decltype(leaf_alloc_)> &&
+                std::is_swappable_v<decltype(internal_alloc_)>) {
+    std::swap(leaf_alloc_, other.leaf_alloc_);
+    std::swap(internal_alloc_, other.internal_alloc_);
+  }
+
   // Swap other members
   std::swap(root_is_leaf_, other.root_is_leaf_);
   std::swap(size_, other.size_);
diff --git a/include/fast_containers/policy_based_hugepage_allocator.hpp b/include/fast_containers/policy_based_hugepage_allocator.hpp
index 055cdcf..3ebefd1 100644
--- a/include/fast_containers/policy_based_hugepage_allocator.hpp
+++ b/include/fast_containers/policy_based_hugepage_allocator.hpp
@@ -264,7 +264,7 @@ class PolicyBasedHugePageAllocator {
   [[nodiscard]] const PoolPolicy& get_policy() const { return policy_; }
 
  private:
-  const PoolPolicy policy_;  // NOLINT(readability-identifier-naming)
+  PoolPolicy policy_;
 
   // Allow rebind to access policy_
   template <typename, typename>
-- 
2.43.0


From 18fc9c9317b12da59047ba8992b47745d2c6e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 07/16] fix: release the keys and values of erased dense_map
 elements

---
 include/fast_containers/dense_map.hpp | 25 ++++++++++++++++++++++++-
 include/fast_containers/dense_map.ipp |  7 +++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index 74adae8..ac14112 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -369,7 +369,10 @@ class dense_map {
   [[nodiscard]] bool empty() const { return size_ == 0; }
   [[nodiscard]] bool full() const { return size_ == Length; }
 
-  void clear() { size_ = 0; }
+  void clear() {
+    release_slots(0, size_);
+    size_ = 0;
+  }
 
   /**
    * Split this array at the given position, moving elements to output array.
@@ -447,6 +450,26 @@ class dense_map {
                                         OnExists&& on_exists,
                                         MakeValue&& make_value);
 
+  /**
+   * Reset the slots [first, last), which no longer hold elements, so that keys
+   * and values release what they own (e.g. the target of a shared_ptr) when
+   * they are removed and not only when the slot is reused.
+   */
+  void release_slots(size_type first, size_type last) {
+    if constexpr (!std::is_trivially_destructible_v<Key> &&
+                  std::is_nothrow_default_constructible_v<Key>) {
+      for (size_type i = first; i < last; ++i) {
+        keys_[i] = Key{};
+      }
+    }
+    if constexpr (!std::is_trivially_destructible_v<Value> &&
+                  std::is_nothrow_default_constructible_v<Value>) {
+      for (size_type i = first; i < last; ++i) {
+        values_[i] = Value{};
+      }
+    }
+  }
+
 #ifdef __AVX2__
   /**
    * SIMD-accelerated linear search for 8-bit keys (int8_t, uint8_t)
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index e94cafc..b30a489 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -69,6 +69,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     const dense_map& other) {
   if (this != &other) {
+    if (size_ > other.size_) {
+      release_slots(other.size_, size_);
+    }
     size_ = other.size_;
     // Copy only the active elements
     if (size_ > 0) {
@@ -96,6 +99,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     dense_map&& other) noexcept {
   if (this != &other) {
+    if (size_ > other.size_) {
+      release_slots(other.size_, size_);
+    }
     size_ = other.size_;
     // Move the active elements
     if (size_ > 0) {
@@ -279,6 +285,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::erase(iterator pos) {
   std::move(values_.data() + idx + 1, values_.data() + size_,
             values_.data() + idx);
   --size_;
+  release_slots(size_, size_ + 1);
 
   // Return iterator to element following the erased element
   // (same index, since everything shifted left)
-- 
2.43.0


From 9be5d5b9605b81cc39f5b81c1b4b1fc4f0fd0b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 08/16] fix: grow HugePagePool enough for the requested block

---
 include/fast_containers/hugepage_pool.hpp | 29 +++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index ff35ce7..a94a31b 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -6,8 +6,11 @@
 
 #include <sys/mman.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
+#include <new>
 #include <stdexcept>
 #include <vector>
 
@@ -52,6 +55,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   static constexpr size_type hugepage_size = 2UL * 1024 * 1024;  // 2MB
+  static constexpr size_type page_size = 4096;  // Alignment of mmap regions
 
   struct memory_region {
     std::byte* base = nullptr;
@@ -192,8 +196,13 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     size_type padding = aligned - current;
 
     // Grow pool if needed
-    if (bytes_remaining_ < bytes + padding) {
-      grow();
+    if (bytes_remaining_ < padding || bytes_remaining_ - padding < bytes) {
+      // A new region is page-aligned: only larger alignments need padding
+      const size_type max_padding = alignment > page_size ? alignment : 0;
+      if (bytes > std::numeric_limits<size_type>::max() - max_padding) {
+        throw std::bad_alloc();
+      }
+      grow(bytes + max_padding);
       // After growth, recalculate alignment from new next_free_
       current = reinterpret_cast<uintptr_t>(next_free_);
       aligned =
@@ -302,20 +311,22 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   /**
-   * Grow the pool by allocating a new region of growth_size_.
+   * Grow the pool by allocating a new region of growth_size_, or of min_size
+   * if that is larger.
    * Called when current region is exhausted.
    */
-  void grow() {
+  void grow(size_type min_size) {
+    const size_type region_size = std::max(growth_size_, min_size);
     memory_region new_region;
 
     if (using_hugepages_) {
-      new_region = allocate_hugepages_region(growth_size_);
+      new_region = allocate_hugepages_region(region_size);
       if (new_region.base == nullptr) {
         // Hugepages no longer available, fall back to regular
-        new_region = allocate_regular_region(growth_size_);
+        new_region = allocate_regular_region(region_size);
       }
     } else {
-      new_region = allocate_regular_region(growth_size_);
+      new_region = allocate_regular_region(region_size);
     }
 
     regions_.push_back(new_region);
@@ -327,6 +338,10 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
   // NOLINTNEXTLINE(readability-convert-member-functions-to-static)
   memory_region allocate_hugepages_region(size_type size) {
+    if (size > std::numeric_limits<size_type>::max() - (hugepage_size - 1)) {
+      return {.base = nullptr, .size = 0};  // Too large to round up
+    }
+
     // Round up to hugepage boundary
     size_type aligned_size = (size + hugepage_size - 1) & ~(hugepage_size - 1);
 
-- 
2.43.0


From a6f720fe1e15d6090fbf030764bbd93b8ce6b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 09/16] fix: keep HugePagePool's freed blocks apart by size and
 alignment

---
 include/fast_containers/hugepage_pool.hpp | 52 +++++++++++++++++------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index a94a31b..aec767d 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -45,7 +45,8 @@ inline constexpr bool allocator_stats_enabled = false;
  *
  * Implementation notes:
  * - Not thread-safe (add locking if needed for concurrent use)
- * - Intrusive free list: freed blocks store next pointer in-place
+ * - Intrusive free list per block size: freed blocks store next pointer
+ *   in-place
  * - Requires allocated size >= sizeof(void*) for free list
  * - Memory is allocated on NUMA node via first-touch policy during pre-faulting
  */
@@ -62,6 +63,14 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     size_type size = 0;
   };
 
+  /**
+   * Intrusive list of the freed blocks of one size.
+   */
+  struct free_list {
+    size_type block_size = 0;
+    void* head = nullptr;
+  };
+
   /**
    * Statistics tracked by the pool.
    * Only populated when allocator_stats_enabled is true.
@@ -108,7 +117,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   const size_type initial_size_;  // NOLINT(readability-identifier-naming)
   const size_type growth_size_;   // NOLINT(readability-identifier-naming)
   bool using_hugepages_ = false;
-  void* free_list_head_ = nullptr;  // Head of intrusive free list
+  std::vector<free_list> free_lists_;  // One per block size in use (few)
   stats stats_;
 
  public:
@@ -176,14 +185,18 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
-    // Try to allocate from free list first
-    if (free_list_head_ != nullptr) {
-      void* ptr = free_list_head_;
-      free_list_head_ = *reinterpret_cast<void**>(ptr);
+    // Try to allocate from the free list of this block size first. Blocks of
+    // one size may have been allocated with different alignments.
+    for (void** link = &free_list_for(bytes).head; *link != nullptr;
+         link = static_cast<void**>(*link)) {
+      void* ptr = *link;
+      if (reinterpret_cast<uintptr_t>(ptr) % alignment == 0) {
+        *link = *static_cast<void**>(ptr);
 
-      stats_.record_allocation(bytes);
+        stats_.record_allocation(bytes);
 
-      return ptr;
+        return ptr;
+      }
     }
 
     // Allocate from pool
@@ -226,16 +239,17 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
    * Deallocate raw memory.
    *
    * @param ptr Pointer to memory to deallocate
-   * @param bytes Number of bytes (for statistics tracking)
+   * @param bytes Number of bytes, as passed to allocate()
    */
   void deallocate(void* ptr, size_type bytes) {
     if (ptr == nullptr || bytes == 0) {
       return;
     }
 
-    // Add to intrusive free list
-    *reinterpret_cast<void**>(ptr) = free_list_head_;
-    free_list_head_ = ptr;
+    // Add to the intrusive free list of this block size
+    free_list& list = free_list_for(bytes);
+    *static_cast<void**>(ptr) = list.head;
+    list.head = ptr;
 
     stats_.record_deallocation(bytes);
   }
@@ -310,6 +324,20 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   [[nodiscard]] size_type get_peak_usage() const { return stats_.peak_usage; }
 
  private:
+  /**
+   * Get the free list for blocks of the given size, creating it on first use.
+   * A shared pool serves several block sizes: a block freed by one type must
+   * not be handed out for a larger one.
+   */
+  free_list& free_list_for(size_type bytes) {
+    for (free_list& list : free_lists_) {
+      if (list.block_size == bytes) {
+        return list;
+      }
+    }
+    return free_lists_.emplace_back(bytes, nullptr);
+  }
+
   /**
    * Grow the pool by allocating a new region of growth_size_, or of min_size
    * if that is larger.
-- 
2.43.0


From 4423a94e815ef026b40f07ecd02d321944aac8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 10/16] fix: report only successful hugepage pools in
 MultiSizeHugePagePool

---
 .../multi_size_hugepage_pool.hpp              | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index c8cde2a..71616e8 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <bit>
 #include <cstddef>
 #include <memory>
@@ -125,15 +126,18 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
     const size_type size_class = get_size_class(bytes);
 
     // Get or create pool for this size class
-    auto& pool = pools_[size_class];
-    if (!pool) {
-      pool = std::make_unique<HugePagePool>(
-          initial_size_per_pool_, use_hugepages_, growth_size_per_pool_);
+    auto it = pools_.find(size_class);
+    if (it == pools_.end()) {
+      it = pools_
+               .emplace(size_class, std::make_unique<HugePagePool>(
+                                        initial_size_per_pool_, use_hugepages_,
+                                        growth_size_per_pool_))
+               .first;
     }
 
     // Allocate from size-specific pool
     // Each pool only handles uniform-sized blocks, so free list works!
-    return pool->allocate(size_class, alignment);
+    return it->second->allocate(size_class, alignment);
   }
 
   /**
@@ -162,7 +166,11 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
    *
    * @return true if hugepages were successfully enabled
    */
-  [[nodiscard]] bool using_hugepages() const { return use_hugepages_; }
+  [[nodiscard]] bool using_hugepages() const {
+    return std::any_of(pools_.begin(), pools_.end(), [](const auto& entry) {
+      return entry.second->using_hugepages();
+    });
+  }
 
   /**
    * Get number of active size classes (pools created).
-- 
2.43.0


From 7b7f080b3986c61f99db655e663f502749bc6ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 11/16] fix: reject MultiSizeHugePageAllocator requests that
 overflow

---
 include/fast_containers/multi_size_hugepage_allocator.hpp | 6 ++++++
 include/fast_containers/multi_size_hugepage_pool.hpp      | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index c6cfb0e..28b4395 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -5,7 +5,9 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 
 #include "multi_size_hugepage_pool.hpp"
 
@@ -96,6 +98,10 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    if (n > std::numeric_limits<size_type>::max() / sizeof(T)) {
+      throw std::bad_array_new_length();
+    }
+
     const size_type bytes = n * sizeof(T);
     void* ptr = pool_->allocate(bytes, alignof(T));
 
diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index 71616e8..0d7df37 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <bit>
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <unordered_map>
 
@@ -103,6 +104,9 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
       // Round up to nearest 256 bytes
       return (bytes + 255) & ~static_cast<size_type>(255);
     }
+    if (bytes > std::bit_floor(std::numeric_limits<size_type>::max())) {
+      return bytes;  // No larger power of 2 (and no pool this large)
+    }
     // Round up to next power of 2
     return std::bit_ceil(bytes);
   }
-- 
2.43.0


From 1841e26728cdb9213ba26ba8197ba9ca39399eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 12/16] fix: release dense_map slots whose elements were moved
 away

For a value type whose move copies, splitting, transferring and moving left a
second copy in the unused slots of the source, which kept what it owns alive.
---
 include/fast_containers/dense_map.hpp | 3 ++-
 include/fast_containers/dense_map.ipp | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index ac14112..31a0a09 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -453,7 +453,8 @@ class dense_map {
   /**
    * Reset the slots [first, last), which no longer hold elements, so that keys
    * and values release what they own (e.g. the target of a shared_ptr) when
-   * they are removed and not only when the slot is reused.
+   * they are removed and not only when the slot is reused. This includes slots
+   * moved from: for some types moving copies.
    */
   void release_slots(size_type first, size_type last) {
     if constexpr (!std::is_trivially_destructible_v<Key> &&
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index b30a489..0578180 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -52,7 +52,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::dense_map(
               values_.data());
   }
   // Leave other in valid empty state
-  other.size_ = 0;
+  other.clear();
 }
 
 /**
@@ -110,7 +110,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
                 values_.data());
     }
     // Leave other in valid empty state
-    other.size_ = 0;
+    other.clear();
   }
   return *this;
 }
@@ -532,6 +532,7 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::split_at(
     std::move(values_.data() + split_idx, values_.data() + size_,
               output.values_.data());
     output.size_ = num_to_move;
+    release_slots(split_idx, size_);
   }
 
   // Update this array's size
@@ -600,6 +601,7 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_prefix_from(
 
   // Update sizes
   size_ += count;
+  source.release_slots(source.size_ - count, source.size_);
   source.size_ -= count;
 }
 
@@ -671,6 +673,7 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_suffix_from(
 
   // Update sizes (no need to shift source - we took from the end)
   size_ += count;
+  source.release_slots(suffix_start, source.size_);
   source.size_ -= count;
 }
 
-- 
2.43.0


From 57be240b6dfc0b6fcfd904b0894af52dd9f2034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 13/16] fix: move elements when a tree cannot take over the
 source's nodes

---
 include/fast_containers/btree.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index ea91e17..276894c 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -129,6 +129,22 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::operator=(btree&& other) noexcept {
   if (this != &other) {
+    // An allocator that stays with its tree cannot deallocate the nodes of
+    // another one: move the elements instead
+    if constexpr (!std::allocator_traits<Allocator>::
+                      propagate_on_container_move_assignment::value &&
+                  !std::allocator_traits<Allocator>::is_always_equal::value) {
+      if (leaf_alloc_ != other.leaf_alloc_ ||
+          internal_alloc_ != other.internal_alloc_) {
+        clear();
+        for (iterator it = other.begin(); it != other.end(); ++it) {
+          try_emplace(it->first, std::move(it->second));
+        }
+        other.clear();
+        return *this;
+      }
+    }
+
     // Deallocate existing tree (including root)
     deallocate_tree();
 
-- 
2.43.0


From 83c39eee50e637e245bebd6c765dffb22c528a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 14/16] fix: keep the pool of a MultiSizeHugePageAllocator that
 is moved from

Its implicit move operations left the source without a pool, so a container
moved from crashed on the next insertion.
---
 include/fast_containers/multi_size_hugepage_allocator.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index 28b4395..a49e82b 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -74,6 +74,13 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       std::shared_ptr<MultiSizeHugePagePool> pool)
       : pool_(std::move(pool)) {}
 
+  // Copied even when moved from: an allocator keeps its pool and stays equal
+  // to the ones made from it
+  MultiSizeHugePageAllocator(const MultiSizeHugePageAllocator& other) = default;
+  MultiSizeHugePageAllocator& operator=(
+      const MultiSizeHugePageAllocator& other) = default;
+  ~MultiSizeHugePageAllocator() = default;
+
   /**
    * Copy constructor (different type).
    *
-- 
2.43.0


From 5ae6115c7726c4a161bf4556c2b7ee89b4c21f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 15/16] fix: do not lose a mapped region when it cannot be
 recorded

HugePagePool mapped a region before making room for it in its list, so a
failed allocation of the list leaked the mapping.
---
 include/fast_containers/hugepage_pool.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index aec767d..89f2f55 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -137,6 +137,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
                         bool use_hugepages = true,
                         size_type growth_size = 64UL * 1024 * 1024)
       : initial_size_(initial_size), growth_size_(growth_size) {
+    // Make room for the region first: once mapped it must not be lost
+    regions_.reserve(1);
+
     // Allocate initial region
     memory_region initial_region;
 
@@ -347,6 +350,11 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     const size_type region_size = std::max(growth_size_, min_size);
     memory_region new_region;
 
+    // Make room for the region first: once mapped it must not be lost
+    if (regions_.size() == regions_.capacity()) {
+      regions_.reserve(2 * regions_.size());
+    }
+
     if (using_hugepages_) {
       new_region = allocate_hugepages_region(region_size);
       if (new_region.base == nullptr) {
-- 
2.43.0


From f1b4f2e0a392dfd7a58c95161c0ef7f033ec0a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:35 +0000
Subject: [PATCH 16/16] fix: dense_map: make 'n + iterator' usable

The namespace-scope operator+ named the nested iterator type in a context
where none of its template parameters can be deduced, so no expression could
ever select it. A friend of the iterator is found by argument-dependent
lookup.
---
 include/fast_containers/dense_map.hpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index 31a0a09..5eb21f9 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -612,6 +612,13 @@ class dense_map {
       return dense_map_iterator(array_, index_ + n);
     }
 
+    // Found by argument-dependent lookup (a namespace-scope template taking the
+    // nested iterator type could never have its arguments deduced)
+    friend dense_map_iterator operator+(difference_type n,
+                                        const dense_map_iterator& it) {
+      return it + n;
+    }
+
     dense_map_iterator operator-(difference_type n) const {
       return dense_map_iterator(array_, index_ - n);
     }
@@ -666,18 +673,6 @@ class dense_map {
   };
 };
 
-// Non-member operator+ for iterator + difference
-template <typename Key, typename Value, std::size_t Length, typename Compare,
-          SearchMode SearchModeT, bool IsConst>
-typename dense_map<Key, Value, Length, Compare,
-                   SearchModeT>::template dense_map_iterator<IsConst>
-operator+(typename dense_map<Key, Value, Length, Compare, SearchModeT>::
-              template dense_map_iterator<IsConst>::difference_type n,
-          const typename dense_map<Key, Value, Length, Compare, SearchModeT>::
-              template dense_map_iterator<IsConst>& it) {
-  return it + n;
-}
-
 }  // namespace kressler::fast_containers
 
 // Include implementation
-- 
2.43.0

