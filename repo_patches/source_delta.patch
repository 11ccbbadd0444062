From 0df00788106367bd79b2e532a6184363b0639c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 001/151] fix: copy-constructing a Deque that shrank below its
 static capacity claimed the source's heap capacity for the inline buffer
 (overflow, invalid free)

---
 geomc/Deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 928156e..6411574 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -90,7 +90,7 @@ public:
     /// Construct a new circular buffer containing copies of all the items in `other`.
     Deque(const Deque<T,N>& other):
             _data((other._size > N) ? (new storage_t[other._capacity]) : _buf),
-            _capacity(std::max(other._capacity, N)),
+            _capacity((other._size > N) ? other._capacity : N),
             _head(0),
             _size(other._size)
     {
-- 
2.43.0


From 79841e38431129e06c3f5b550409c924af0d2eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 002/151] fix: growing a SmallStorage moved and destroyed
 elements past its size

---
 geomc/SmallStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 0adb2ce..e79e776 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -51,7 +51,7 @@ private:
             size_t new_capacity = std::max(n, _capacity * 2);
             storage_t* new_data = new storage_t[new_capacity];
             T* src = begin();
-            for (size_t i = 0; i < n; ++i) {
+            for (size_t i = 0; i < _size; ++i) {
                 new (new_data + i) T{std::move(src[i])};
                 src[i].~T(); // destroy the source
             }
-- 
2.43.0


From b8122c9b7a04064e02188ae90a0f478d996f94be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 003/151] fix: move-constructing a SmallStorage from inline
 storage left the source's size nonzero, destroying its elements twice

---
 geomc/SmallStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index e79e776..f31ae7a 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -154,8 +154,8 @@ public:
             // empty the other container
             other._capacity = N;
             other._data     = other._buffer;
-            other._size     = 0;
         }
+        other._size = 0;
     }
     
     /// Destroy this array and its contents.
-- 
2.43.0


From 6c059497a93c61c50a1914ad1104725a6a9a9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 004/151] fix: the successor of a tree node could be its own
 subtree (or its parent's), so flatten/erase removed and insertions used the
 wrong node range

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4928a47..5fc7e48 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -862,7 +862,7 @@ protected:
             NodeRef off_end_child = ancestor->child_last; 
             if (ancestor->n_children > 0) ++off_end_child;
             // look for a populated node to the right of us
-            for (NodeRef c = child; c != off_end_child; ++c) {
+            for (NodeRef c = std::next(child); c != off_end_child; ++c) {
                 if (c->n_children > 0) {
                     successor = c->child_first;
                     break;
-- 
2.43.0


From d91b2f4c5324cd9e06c05436f04051ddfeb86481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 005/151] fix: clear() and erase() of a subtree incremented an
 iterator to an erased item (use after free)

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 5fc7e48..63d9e6e 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1544,8 +1544,8 @@ public:
             // delete the items
             ItemRef next_item;
             index_t n_deleted = 0;
-            for (next_item = n->items_first; next_item != endpt; ++next_item) {
-                this->_storage->_items.erase(next_item);
+            for (next_item = n->items_first; next_item != endpt; ) {
+                next_item = this->_storage->_items.erase(next_item);
                 ++n_deleted;
             }
             ItemRef prev_item = next_item; --prev_item;
-- 
2.43.0


From e155acf05d683a320229cdc47d7c89f9056f2503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 006/151] fix: inserting an item below a non-edge leaf or next
 to empty siblings corrupted the item boundaries of its ancestors

---
 geomc/Tree.h | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 63d9e6e..d15c525 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -359,35 +359,28 @@ protected:
             ItemRef new_last,
             index_t delta_items) {
         
-        NodeRef prev_child = _nodes.end();
         NodeRef n = leaf;
         
-        ItemRef old_first = n->items_first;
-        ItemRef old_last  = n->items_last;
-        
         // update ancestors' item count and boundary items
         while (n != _nodes.end()) {
             n->n_items += delta_items;
             
             if (n->n_items == 0) {
                 n->items_first = n->items_last = _items.end();
+            } else if (n == leaf) {
+                n->items_first = new_first;
+                n->items_last  = new_last;
             } else {
-                // If we ascended from an edge node, that node certainly
-                // controls (or used to control) our edge item. 
-                // But it might have also controlled our edge item if the 
-                // edge sibling doesn't have any items. In this case,
-                // its previous edge item will also be ours.
-                if (n->child_first == prev_child or 
-                        n->items_first == old_first) {
-                    n->items_first = new_first;
-                }
-                if (n->child_last == prev_child or
-                        n->items_last == old_last) {
-                    n->items_last = new_last;
-                }
+                // our edge items belong to the first and last children 
+                // which have any items at all.
+                NodeRef c = n->child_first;
+                while (c->n_items == 0) ++c;
+                n->items_first = c->items_first;
+                c = n->child_last;
+                while (c->n_items == 0) --c;
+                n->items_last = c->items_last;
             }
             
-            prev_child = n;
             n = n->parent;
         }
     }
-- 
2.43.0


From 4c0f920ead9c924cd582cb193312a809e029cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 007/151] fix: bounded find_parent skipped siblings of rejected
 and descended-into nodes, and dereferenced end() on empty leaves

---
 geomc/Tree.h | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index d15c525..c222b5c 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -777,30 +777,29 @@ public:
      */
     template <bool BoundingFn(const NodeItem&, const LeafItem&)>
     self_t find_parent(const const_item_iterator& i) const {
-        NodeRef cur_root     = _root;
-        NodeRef subtree_last = node_successor(_root);
-        while (cur_root != subtree_last) {
-            if (BoundingFn(cur_root->data, *i)) {
-                // cur_root may contain `i`
-                if (cur_root->n_children > 0) {
+        NodeRef n = _root;
+        while (true) {
+            if (BoundingFn(n->data, *i)) {
+                // `n` may contain `i`
+                if (n->n_children > 0) {
                     // recurse
-                    cur_root = cur_root->child_first;
-                } else {
+                    n = n->child_first;
+                    continue;
+                } else if (n->n_items > 0) {
                     // look for item
-                    ItemRef end_item = cur_root->items_last; ++end_item;
-                    for (ItemRef j = cur_root->items_first; j != end_item; ++j) {
+                    ItemRef end_item = n->items_last; ++end_item;
+                    for (ItemRef j = n->items_first; j != end_item; ++j) {
                         // found it
-                        if (j == i) return self_t(cur_root, _storage);
+                        if (j == i) return self_t(n, _storage);
                     }
-                    // our current node is a leaf, so there is no subtree to jump over.
-                    ++cur_root;
                 }
-            } else {
-                // check next sibling
-                cur_root = node_successor(cur_root);
             }
+            // jump over this subtree to the next sibling, ascending as necessary
+            while (n != _root and n == n->parent->child_last) n = n->parent;
+            if (n == _root) break;
+            ++n;
         }
-        return this->end();;
+        return this->end();
     }
     
     
-- 
2.43.0


From 5427cfd7404ece1dc049f93d3a2da21eabeee9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 008/151] fix: find_parent searched the siblings of its
 subtree's root

---
 geomc/Tree.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index c222b5c..56c926a 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -749,8 +749,10 @@ public:
      * If `i` is not in the subtree under this node, then return `end()`.
      */
     self_t find_parent(const const_item_iterator& i) const {
-        NodeRef subtree_last = node_successor(_root);
-        for (NodeRef n = _root; n != subtree_last; ++n) {
+        // a node is not contiguous with its descendents; its siblings lie between.
+        const bool is_leaf   = _root->n_children == 0;
+        NodeRef subtree_last = is_leaf ? std::next(_root) : node_successor(_root);
+        for (NodeRef n = is_leaf ? _root : _root->child_first; n != subtree_last; ++n) {
             if (n->n_children == 0 and n->n_items > 0) {
                 ItemRef end_item = n->items_last; ++end_item;
                 for (ItemRef j = n->items_first; j != end_item; ++j) {
-- 
2.43.0


From 94497f7c5dc43aaa7d82043eea3a05f11ce708d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 009/151] fix: an item inserted into an empty leaf landed
 before items of preceding siblings deeper in the tree

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 56c926a..28a5d83 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -883,7 +883,7 @@ protected:
                 node = parent, parent = node->parent) {
             if (parent->n_children != 0) {
                 NodeRef end_c = parent->child_last; ++end_c;
-                for (NodeRef c = node; c != end_c; ++c) {
+                for (NodeRef c = std::next(node); c != end_c; ++c) {
                     if (c->n_items > 0) {
                         return c->items_first;
                     }
-- 
2.43.0


From fdf7975db019d6ad3a02288415bd4ee281cde471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 010/151] fix: copying a tree left parent and child references
 pointing into the source tree and skipped leaf siblings

---
 geomc/Tree.h | 86 +++++++++++++++++++++-------------------------------
 1 file changed, 35 insertions(+), 51 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 28a5d83..0c86db2 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -342,10 +342,9 @@ protected:
     
     inline void recalculate_tree() {
         NodeRef n = _nodes.begin();
+        n->parent      = _nodes.end();
         n->child_first = std::next(n);
-        n->child_last  = _nodes.end(); --(n->child_last);
         n->items_first = _items.begin();
-        n->items_last  = _items.end(); --(n->items_last);
         root().recalculate_references();
     }
     
@@ -1631,56 +1630,41 @@ protected:
     // This should be an effective no-op if the subtree is already owned
     // (though it may still take O(n) to execute).
     void recalculate_references() const {
-        NodeRef begin_child = this->_root->child_first;
-        // next unassigned leaf item:
-        ItemRef begin_items = this->_root->items_first;
-        // last / most recent assigned leaf item in the list: 
-        ItemRef last_item   = begin_items; --last_item;
-        NodeRef end_child   = this->node_successor(this->_root);
-        
-        // in essence we "build" the tree by simply taking ownership of 
-        // the nodes/items that already exist. we walk over the nodes in 
-        // tree order, which means that child nodes are taken in order too.
-        for (NodeRef node = this->_root; node != end_child; ) {
-            node->child_first = node->child_last = 
-                (node->n_children > 0) ? begin_child : this->_storage->_nodes.end();
-            node->items_first = node->items_last = 
-                (node->n_items    > 0) ? begin_items : this->_storage->_items.end();
-            
-            if (node->n_children > 0) {
-                node->child_first->parent = node;
-                
-                // acquire direct children
-                for (index_t c = 0; c < node->n_children - 1; ++c) {
-                    ++(node->child_last);
-                    node->child_last->parent = node;
-                }
-                
-                // move the node "free space"
-                begin_child = node->child_last; ++begin_child;
-                
-                // populate first child's subtree
-                node = node->child_first;
-            } else {
-                if (node->n_items > 0) {
-                    for (index_t i = 0; i < node->n_items - 1; ++i) {
-                        ++(node->items_last);
-                    }
-                    // move the item "free space"
-                    begin_items = last_item = node->items_last; ++begin_items;
-                }
-                    
-                // fixup the items_end along the right edge of this subtree.
-                NodeRef descendent = node;
-                for (NodeRef ancestor = node->parent;
-                        ancestor != this->_root;
-                        descendent = ancestor, ancestor = ancestor->parent) {
-                    if (ancestor->n_items > 0) ancestor->items_last = last_item;
-                }
-                
-                // done populating this tree. populate the next sibling tree.
-                node = this->node_successor(node);
+        // next unassigned node and item:
+        NodeRef next_node = this->_root->child_first;
+        ItemRef next_item = this->_root->items_first;
+        recalculate_references(this->_root, next_node, next_item);
+    }
+    
+    
+    // in essence we "build" the tree by simply taking ownership of 
+    // the nodes/items that already exist. nodes are taken in sibling-first order, 
+    // and items in depth-first order.
+    void recalculate_references(NodeRef node, NodeRef& next_node, ItemRef& next_item) const {
+        ItemRef first_item = next_item;
+        node->child_first  = node->child_last = this->_storage->_nodes.end();
+        node->items_first  = node->items_last = this->_storage->_items.end();
+        
+        if (node->n_children > 0) {
+            // acquire direct children
+            node->child_first = next_node;
+            for (index_t c = 0; c < node->n_children; ++c, ++next_node) {
+                next_node->parent = node;
+                node->child_last  = next_node;
             }
+            // populate their subtrees
+            NodeRef child = node->child_first;
+            for (index_t c = 0; c < node->n_children; ++c, ++child) {
+                recalculate_references(child, next_node, next_item);
+            }
+        } else {
+            // acquire items
+            std::advance(next_item, node->n_items);
+        }
+        
+        if (node->n_items > 0) {
+            node->items_first = first_item;
+            node->items_last  = std::prev(next_item);
         }
     }
     
-- 
2.43.0


From 1b48929101752b786836bd66c7e402727bb421ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 011/151] fix: a moved tree kept off-end references to its
 source, and the source was left without a root

---
 geomc/Tree.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 0c86db2..ec9892f 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -184,8 +184,16 @@ public:
     }
     
     
-    /// Default move constructor.
-    Tree(Tree<NodeItem, LeafItem>&& other) = default;
+    /// Move constructor. `other` is left with a single empty root node.
+    Tree(Tree<NodeItem, LeafItem>&& other):
+            _nodes(std::move(other._nodes)),
+            _items(std::move(other._items)) {
+        // off-end references do not follow the moved list contents
+        recalculate_tree();
+        other._nodes.clear();
+        other._items.clear();
+        other._nodes.push_back(Node(&other, other._nodes.end()));
+    }
     
     
     /**
-- 
2.43.0


From d2dbbb16357f53393f7d9423f64602cfba3a6e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 012/151] fix: a tree constructed from an item range counted
 its nodes instead of its items

---
 geomc/Tree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index ec9892f..5522dbf 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -210,9 +210,10 @@ public:
         NodeRef node = _nodes.begin();
         
         // assign items to root
+        node->n_items     = _items.size();
         node->items_first = _items.begin();
-        node->items_last  = _items.end(); --(node->items_last);
-        node->n_items     = _nodes.size();
+        node->items_last  = _items.end();
+        if (node->n_items > 0) --(node->items_last);
     }
     
     
-- 
2.43.0


From edf4c976afa8fd3ba8c7a56fa1eabb216ece1809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 013/151] fix: queries ended early at the first grandchild of
 the queried subtree (its off-end node), or ran past nested roots

---
 geomc/Tree.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 5522dbf..c31bf2c 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -510,6 +510,9 @@ public:
         Key        _key;
         BoundingFn _bound;
         TestFn     _test;
+        // the off-end subtree may coincide with a descendent
+        // of the root, so the end must be tracked separately.
+        bool       _done = false;
         
     public:
         
@@ -525,18 +528,20 @@ public:
         
         /// Return true if this iterator points to the subtree at `other`.
         bool operator==(const I& other) const {
-            return other == _item;
+            return other == _root.end() ? _done : (not _done and other == _item);
         }
         
         /// Return true if this iterator does not point to the subtree at `other`.
         bool operator!=(const I& other) const {
-            return other != _item;
+            return not (*this == other);
         }
         
         /// Find the next result at or beyond the Subtree `other`.
         QueryIterator& operator=(const I& other) {
             _item = other;
+            _done = other == _root.end();
             find_result();
+            return *this;
         }
     
     private:
@@ -545,20 +550,23 @@ public:
             if (_item.node_count() > 0 and _bound(_item, _key)) {
                 // descend into tree
                 _item = _item.begin();
-            } else if (_item == _root) {
-                _item = _root.end();
             } else {
                 // nothing further for us here. pop back out.
                 // while item is the last child of its parent, ascend:
-                while (_item._root == _item.parent()._root->child_last and _item.parent() != _root) {
+                while (_item != _root and _item._root == _item.parent()._root->child_last) {
                     _item = _item.parent();
                 }
-                ++_item;
+                if (_item == _root) {
+                    _item = _root.end();
+                    _done = true;
+                } else {
+                    ++_item;
+                }
             }
         }
         
         void find_result() {
-            while (_item != _root.end() and _item != _item.tree().end() and not _test(_item, _key)) {
+            while (not _done and not _test(_item, _key)) {
                 next_candidate();
             }
         }
@@ -571,7 +579,7 @@ public:
         }
         
         bool equal(const QueryIterator& other) const {
-            return _item == other._item;
+            return _done == other._done and _item == other._item;
         }
         
         const I& dereference() const {
-- 
2.43.0


From 44b0923082eb6f7e34a86ef1f274a53465489170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 014/151] fix: hashing a ray did not compile (wrong template
 arguments to hash_many)

---
 geomc/linalg/Ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 9f9eb6e..9d2e8ce 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -143,7 +143,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Ray<T,N>, H> {
     H operator()(const Ray<T,N> &r) const {
         H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
-        return geom::hash_many<Vec<T,N>,H>(nonce, r.origin, r.direction);
+        return geom::hash_many<H>(nonce, r.origin, r.direction);
     }
 };
 
-- 
2.43.0


From 894f5f5252f8b6d261ba6b7527fe59e06f85683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 015/151] fix: hashing a simplex did not compile (wrong
 template arguments to hash_array)

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index c9e6222..e9d912f 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -599,7 +599,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Simplex<T,N>, H> {
     H operator()(const Simplex<T,N>& s) const {
         H nonce = geom::truncated_constant<H>(0x8159bb983f797983, 0xe8904e94430f7555);
-        return geom::hash_array<H>(nonce, s.pts, s.n);
+        return geom::hash_array<Vec<T,N>,H>(nonce, s.pts, s.n);
     }
 };
 
-- 
2.43.0


From 8487632baad3918d59d02b4fb9720b5a17dbd8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 016/151] fix: Vec2::from_polar read (angle, radius) instead of
 the documented (radius, angle)

---
 geomc/linalg/vecdetail/Vec2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 68682b0..38c2608 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -162,8 +162,8 @@ namespace geom {
          */
         inline Vec<T,2> from_polar() const {
             Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
-            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
             return v;
         }
 
-- 
2.43.0


From 7ae65ebad8ff6469d82fe43923dfa37d8785e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 017/151] fix: Vec2::rotate about a centre called a function
 that does not exist

---
 geomc/linalg/vecdetail/Vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 38c2608..57fe58e 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -145,7 +145,7 @@ namespace geom {
          * @param radians Angle of rotation.
          */
         Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotate(radians));
+            return center + (((*this) - center).rotated(radians));
         }
 
         /**
-- 
2.43.0


From e83bc089e55d7a714c7fff3f2f268aa3534a177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 018/151] fix: is_finite_real did not compile (unqualified
 helper)

---
 geomc/linalg/vecdetail/Vec2.h | 2 +-
 geomc/linalg/vecdetail/Vec3.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 57fe58e..7513aea 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -103,7 +103,7 @@ namespace geom {
 
         /// @return `true` if no elements are an infinity or `NaN`.
         bool is_finite_real() const {
-            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
+            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
         }
         
         /*===========================*
diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index ee24996..f2620ba 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -352,9 +352,9 @@ namespace geom {
         
         /// @return `true` if no elements are an infinity or `NaN`.
         bool is_finite_real() const {
-            return is_real(this->x) and
-                   is_real(this->y) and
-                   is_real(this->z);
+            return detail::is_real(this->x) and
+                   detail::is_real(this->y) and
+                   detail::is_real(this->z);
         }
 
     private:
-- 
2.43.0


From 6f333da1b67827cbf43b651a5f5b781c940cb1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 019/151] fix: reflect_about and bounce_on called a function
 that does not exist

---
 geomc/linalg/vecdetail/VecBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/VecBase.h b/geomc/linalg/vecdetail/VecBase.h
index 8348580..9eb0a74 100644
--- a/geomc/linalg/vecdetail/VecBase.h
+++ b/geomc/linalg/vecdetail/VecBase.h
@@ -604,7 +604,7 @@ public:
      */
     self_t reflect_about(self_t normal) const {
         normal = normal.unit();
-        return this->neg() + normal * 2 * this->dot(normal);
+        return -(*this) + normal * 2 * this->dot(normal);
     }
 
     /**
-- 
2.43.0


From 9b0952902fa060b42360c8b1ec664a64cdf28e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 020/151] fix: Ray::dist2 divided by the squared distance to
 the origin instead of the squared direction, and sdf did not compile

---
 geomc/linalg/Ray.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 9d2e8ce..211e424 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -84,15 +84,13 @@ public:
     
     /// Signed distance from `p` to the nearest point on the ray.
     inline T sdf(point_t p) const {
-        return std::sqrt(dist2());
+        return std::sqrt(dist2(p));
     }
     
     /// Compute the square of the distance from `p` to the nearest point on the ray.
     inline T dist2(point_t p) const {
         point_t b = p - origin;
-        T b2 = b.mag2();
-        T d  = direction.dot(b);
-        return b2 == 0 ? 0 : b2 - (d * d / b2);
+        return (b - b.project_on(direction)).mag2();
     }
     
 }; // class Ray
-- 
2.43.0


From 00185700d2864dff64d1f5db017e093e2c72547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 021/151] fix: Vec3::rotate about an axis and centre did not
 rotate (sign errors, unnormalised axis)

---
 geomc/linalg/vecdetail/Vec3.h | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index f2620ba..e5bf582 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -309,30 +309,8 @@ namespace geom {
          * the axis `(u, v, w)`, and centerpoint `(a, b, c)`.
          */
         Vec<T,3> rotate(T u, T v, T w, T a, T b, T c, T radians){
-            const T& x = this->x;
-            const T& y = this->y;
-            const T& z = this->z;
-            
-            T cc = std::cos(radians);
-            T ss = std::sin(radians);
-            T oneMcos = 1 - cc;
-            
-            T u2 = u * u;
-            T v2 = v * v;
-            T w2 = w * w;
-            T uxvywz = diff_of_products(u, x, v, y) - (w * z);
-            
-            T p0 = sum_of_products(b, v, c, w);
-            T p1 = sum_of_products(a, u, c, w);
-            T p2 = sum_of_products(a, u, b, v);
-            T q0 = diff_of_products(a, v2 + w2, u, p0 - uxvywz);
-            T q1 = diff_of_products(b, u2 + w2, v, p1 - uxvywz);
-            T q2 = diff_of_products(c, u2 + v2, w, p2 - uxvywz);
-            
-            return Vec<T,3>(
-                    q0 * oneMcos + x * cc + (-c*v + b*w - w*y + v*z) * ss,
-                    q1 * oneMcos + y * cc + ( c*u - a*w + w*x - u*z) * ss,
-                    q2 * oneMcos + z * cc + (-b*u + a*v - v*x + u*y) * ss);
+            const Vec<T,3> center(a, b, c);
+            return ((*this) - center).rotate(u, v, w, radians) + center;
         }
         
         /**
-- 
2.43.0


From e07fb9d2e3570cf4fa1e6f205197c7b84d64ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 022/151] fix: unpacking a vector from a packed RGB colour did
 not compile (nonexistent member)

---
 geomc/linalg/vecdetail/Vec3.h |  6 +++---
 geomc/linalg/vecdetail/Vec4.h | 16 ++++++++--------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index e5bf582..c781764 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -52,9 +52,9 @@ namespace geom {
      */
     template <typename T> 
     Vec<T,3> from_rgb(int aRGB){
-        T r = ((aRGB & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((aRGB & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T b =  (aRGB & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
         return Vec<T,3>(r,g,b);
     }
 
diff --git a/geomc/linalg/vecdetail/Vec4.h b/geomc/linalg/vecdetail/Vec4.h
index 2116bac..ddedb0d 100644
--- a/geomc/linalg/vecdetail/Vec4.h
+++ b/geomc/linalg/vecdetail/Vec4.h
@@ -19,18 +19,18 @@ namespace geom {
      *===========================*/
 
     template <typename T> const Vec<T,4> from_argb(int aRGB) {
-        T a = ((aRGB & 0xff000000) >> 24) / detail::_RGBChannelConversion<T>::factor;
-        T r = ((aRGB & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((aRGB & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T b =  (aRGB & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
+        T a = ((aRGB & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
         return Vec<T,4>(r,g,b,a);
     }
 
     template <typename T> const Vec<T,4> from_rgba(int rgba) {
-        T r = ((rgba & 0xff000000) >> 24) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((rgba & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T b = ((rgba & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T a =  (rgba & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
+        T r = ((rgba & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((rgba & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T b = ((rgba & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T a =  (rgba & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
         return Vec<T,4>(r,g,b,a);
     }
 
-- 
2.43.0


From 54991d72e3f13ab1f895bf8f01af11e5e850db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 023/151] fix: Vec3::rotate about an axis used x where it
 needed z (wrong z component for any axis not on z)

---
 geomc/linalg/vecdetail/Vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index c781764..fa81cc9 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -277,7 +277,7 @@ namespace geom {
             // (expected to be within 5% of "naïve" performance)
             T p0 = sum_of_products(v, y, w, z);
             T p1 = sum_of_products(u, x, w, z);
-            T p2 = sum_of_products(u, z, v, y);
+            T p2 = sum_of_products(u, x, v, y);
             
             T q0 = diff_of_products(v, z, w, y);
             T q1 = diff_of_products(w, x, u, z);
-- 
2.43.0


From 9a386b6ec3c6496855cba01e9af66defd5311188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 024/151] fix: rotation_direction_align rotated by twice the
 angle between the directions

---
 geomc/linalg/Quaternion.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 39e444e..3ac2997 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -103,7 +103,14 @@ public:
     {
         Vec<T,3> axis = v ^ alignWith;
         T d = v.dot(alignWith);
-        return Quat<T>(axis, d);
+        if (d < 0 and axis.is_zero()) {
+            // opposite directions; rotate a half turn about any perpendicular axis
+            Vec<T,3> u;
+            u[v.argmin()] = 1;
+            return Quat<T>((v ^ u).unit(), 0);
+        }
+        // (axis, d) would rotate by twice the angle between the vectors
+        return Quat<T>(axis, 1 + d).unit();
     }
 
     /*******************************
-- 
2.43.0


From 01ffcda61a504f579e5403d850dfb5a05d7b647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 025/151] fix: axis-angle and angular velocity conversions did
 not compile for float quaternions

---
 geomc/linalg/Quaternion.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 3ac2997..807c7f1 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -200,8 +200,8 @@ public:
      * `(x, y, z, radians)`.
      */
     Vec<T,4> to_axis_angle_rotation() const {
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
-        double alpha = 2 * std::acos(w_clamp);
+        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, (T)-1), (T)1);
+        T alpha = 2 * std::acos(w_clamp);
         if (detail::VecBase<T,4>::x == 0 and 
             detail::VecBase<T,4>::y == 0 and
             detail::VecBase<T,4>::z == 0)
@@ -218,7 +218,7 @@ public:
      */
     Vec<T,3> to_angular_velocity() const {
         // assumes a unit quaternion.
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
+        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, (T)-1), (T)1);
         T alpha = 2 * std::acos(w_clamp);
         if (imag().is_zero()) {
             return Vec<T,3>::zeros;
-- 
2.43.0


From 19d706b09e33d765311d29d736893f595623b3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 026/151] fix: slerp and rotation_scale did not compile, and
 gave NaN between equal rotations

---
 geomc/linalg/Quaternion.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 807c7f1..2229a2b 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -234,7 +234,8 @@ public:
     // this may go the "long way" around. that what we want?
     Quat<T> rotation_scale(T t) const {
         // assumes a unit quaternion.
-        const T w = std::max(-1, std::min(Vec<T,4>::w, 1));
+        const T w = std::max((T)-1, std::min(detail::VecBase<T,4>::w, (T)1));
+        if (imag().is_zero()) return identity();
         T omega = std::acos(w);
         T theta = omega * t;
         return Quat<T>(std::sin(theta) * imag().unit(), std::cos(theta));
@@ -250,15 +251,18 @@ public:
     Quat<T> slerp(const Quat<T> &q1, T t) const {
         // assumed unit quaternion.
         const Quat<T> &q0 = *this;
+        Quat<T> qe = q1;
         T dot = q0.dot(q1);
         if (dot < 0) { //angle is greater than 90. Avoid "long path" rotations.
             dot = -dot;
-            q1 = -q1;
+            qe = -q1;
         }
-        dot = std::max(0, std::min<T>(1, dot)); //keep <dot> in the domain of acos.
+        dot = std::max<T>(0, std::min<T>(1, dot)); //keep <dot> in the domain of acos.
         T omega = std::acos(dot);
         T theta = omega * t;
-        Quat<T> q2 = (q1 - q0 * dot).unit();
+        Quat<T> q2 = qe - q0 * dot;
+        if (q2.is_zero()) return q0; // no rotation between the two
+        q2 = q2.unit();
         return std::cos(theta) * q0 + std::sin(theta) * q2;
     }
     
-- 
2.43.0


From da46c5c8809b95caeb4e5fc09d99e4adbc4fc3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 027/151] fix: logarithm and powers of a real quaternion were
 NaN

---
 geomc/linalg/Quaternion.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 2229a2b..a68745e 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -321,6 +321,8 @@ geom::Quat<T> log(const geom::Quat<T>& q) {
     T q_m = q.mag();
     T v_m = q.imag().mag();
     T k   = std::acos(q.w / q_m);
+    // a real quaternion has no axis; any will do
+    if (v_m == 0) return geom::Quat<T>(k, 0, 0, std::log(q_m));
     return geom::Quat<T>(k * q.imag() / v_m, std::log(q_m));
 }
 
@@ -332,7 +334,7 @@ geom::Quat<T> pow(const geom::Quat<T> &q, U a) {
     T mag = q.mag();
     if (mag == 0) return geom::Quat<T>(0,0,0,1);
     U theta = std::acos(q.real() / mag); // :(
-    geom::Vec<T,3> nhat = q.imag().unit();
+    geom::Vec<T,3> nhat = q.imag().is_zero() ? geom::Vec<T,3>::unit_x : q.imag().unit();
     return std::pow(mag, a) * geom::Quat<T>(
         nhat * std::sin(a * theta), 
         std::cos(a * theta));
-- 
2.43.0


From 7f25ba3235b6fbb4659b59c07a04209876698525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 028/151] fix: Quat::exp() and log() did not compile (std
 overloads declared after use)

---
 geomc/linalg/Quaternion.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index a68745e..b3fcebc 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -11,6 +11,15 @@
 #include <cmath>
 #include <geomc/linalg/Vec.h>
 
+namespace geom {
+template <typename T> class Quat;
+}
+
+namespace std {
+template <typename T> geom::Quat<T> exp(const geom::Quat<T>& q);
+template <typename T> geom::Quat<T> log(const geom::Quat<T>& q);
+}
+
 namespace geom {
 
 /** @ingroup linalg 
-- 
2.43.0


From 61cd036bb8e6b2c84b778bdd8290b59168492ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 029/151] fix: resizing an affine transform dropped the
 translation of its stored inverse

---
 geomc/linalg/AffineTransform.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index ed72436..759dc42 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -184,6 +184,7 @@ public:
             }
             // keep translation components in the homogenous column
             xf.mat(i,M) = static_cast<U>(mat(i,N));
+            xf.inv(i,M) = static_cast<U>(inv(i,N));
         }
         // this ought to be 1, but let's be pedantic
         xf.mat(M,M) = mat(N,N);
-- 
2.43.0


From 30335ba52e35ca442f523c8829f0715c776b7cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 030/151] fix: direction_align mirrored instead of reversing
 opposite directions not perpendicular to y, and was inexact near the poles

---
 geomc/linalg/AffineTransform.h | 46 ++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index 759dc42..399be73 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -438,6 +438,27 @@ inline void rotmat(
     rotmat(into, axis.x, axis.y, axis.z, ctr.x, ctr.y, ctr.z, theta);
 }
 
+namespace detail {
+
+// fill the upper left 3x3 of `into` with a half-turn about an axis perpendicular 
+// to `dir`, i.e. a rotation which reverses `dir`.
+template <typename T, typename Mx>
+void rotmat_reverse(Mx* into, const Vec<T,3>& dir) {
+    // start from the coordinate axis furthest from `dir`
+    Vec<T,3> a;
+    index_t k = std::abs(dir.x) < std::abs(dir.y) ? 0 : 1;
+    if (std::abs(dir.z) < std::abs(dir[k])) k = 2;
+    a[k] = 1;
+    a = (dir ^ a).unit();
+    for (index_t r = 0; r < 3; ++r) {
+        for (index_t c = 0; c < 3; ++c) {
+            into->set(r, c, 2 * a[r] * a[c] - (r == c ? 1 : 0));
+        }
+    }
+}
+
+} // namespace detail
+
 // rotation aligning `dir` with `alignWith`.
 // modified from http://www.iquilezles.org/www/articles/noacos/noacos.htm
 template <typename T>
@@ -449,14 +470,14 @@ inline void rotmat_direction_align(
     const Vec<T,3> v = dir ^ alignWith;
     const T c = dir.dot(alignWith);
     
-    // handle poles
-    if (std::abs(c) == 1) {
+    // handle opposite directions
+    if (c <= -1 + 4 * std::numeric_limits<T>::epsilon()) {
         into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
+        detail::rotmat_reverse(into, dir);
         return;
     }
     
-    const T k = (1 - c) / (1 - c * c);
+    const T k = 1 / (1 + c);
 
     T m[16] = { v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y, 0,
                 v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 0, 
@@ -474,15 +495,14 @@ SimpleMatrix<T,3,3> rotmat_direction_align(
     const Vec<T,3> v = dir ^ alignWith;
     const T c = dir.dot(alignWith);
     
-    // handle poles
-    if (std::abs(c) == 1) {
+    // handle opposite directions
+    if (c <= -1 + 4 * std::numeric_limits<T>::epsilon()) {
         SimpleMatrix<T,3,3> out;
-        // 180 degree case:
-        if (c < 0) { out.set(0, 0, -1); out.set(2, 2, -1); }
+        detail::rotmat_reverse(&out, dir);
         return out;
     }
     
-    const T k = (1 - c) / (1 - c * c);
+    const T k = 1 / (1 + c);
 
     return {
         v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y,
@@ -569,14 +589,14 @@ inline void rotmat_direction_align(
     const Vec<T,3> v = dir ^ alignWith;
     const T c = dir.dot(alignWith);
     
-    // handle poles
-    if (std::abs(c) == 1) {
+    // handle opposite directions
+    if (c <= -1 + 4 * std::numeric_limits<T>::epsilon()) {
         into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
+        detail::rotmat_reverse(into, dir);
         return;
     }
     
-    const T k = (1 - c) / (1 - c * c);
+    const T k = 1 / (1 + c);
 
     T m[9] = { v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y,
                v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 
-- 
2.43.0


From 53d99a2c99fb091f94d95b12b0cb89d351e96f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 031/151] fix: stepping a grid iterator backwards skipped the
 last cell of each row

---
 geomc/shape/GridIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 8452fa8..b4b4fd2 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -145,7 +145,7 @@ private:
         for (index_t i = dim_first;
                 i != dim_end and --(pt[i]) < region.lo[i];
                 i += dim_increment) {
-            if (i != dim_last) pt[i] = region.hi[i] - 1;
+            if (i != dim_last) pt[i] = region.hi[i];
         }
     }
     
-- 
2.43.0


From 05e27d4a7248a0247d0eccf72944e7cdea258e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 032/151] fix: jumping a grid iterator ignored its current
 point and the region's lower corner

---
 geomc/shape/GridIterator.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index b4b4fd2..6f3eb26 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -150,17 +150,18 @@ private:
     }
     
     inline void advance(index_t n) {
-        point_t dest = point_t(0);
-        point_t dim  = region.dimensions();
-        index_t vol  = region.volume();
+        point_t dim = region.dimensions();
         
-        for (index_t i = dim_last; i != dim_first - dim_increment; i -= dim_increment) {
-            vol     = vol / dim[i];
-            dest[i] = n / vol;
-            n       = n % vol;
+        for (index_t i = dim_first; i != dim_last; i += dim_increment) {
+            n += pt[i] - region.lo[i];
+            index_t d = dim[i];
+            index_t r = n % d;
+            if (r < 0) r += d;
+            pt[i] = region.lo[i] + r;
+            n = (n - r) / d;
         }
         
-        pt = dest;
+        pt[dim_last] += n;
     }
     
     inline index_t distance_to(const GridIterator<T,N,Order> &other) const {
-- 
2.43.0


From 6ef565c1ec911493164c86147097e28fc91166e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 033/151] fix: one-dimensional grid iterators: exclusive upper
 bound added two cells, begin() did not compile for one order, order was
 undefined

---
 geomc/shape/GridIterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 6f3eb26..d9d99e1 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -207,7 +207,7 @@ class GridIterator<T,1,Order> :
 
 public:
 
-    static const ArrayOrder order;
+    static constexpr ArrayOrder order = Order;
     typedef typename PointType<T,1>::point_t point_t;
     
     const Rect<T,1> region;
@@ -217,11 +217,11 @@ public:
             region(r),
             pt(region.lo) {}
     GridIterator(const point_t &lo, const point_t &hi):
-            region(lo, hi + 1),
+            region(lo, hi - 1),
             pt(lo) {}
     
     inline GridIterator<T,1,Order> begin() const {
-        GridIterator<T,1> other = *this;
+        GridIterator<T,1,Order> other = *this;
         other.pt = region.lo;
         return other;
     }
-- 
2.43.0


From 87c31f2e82da8b8fa8e3b2d9a9f2ed2c74cdf9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 034/151] fix: grid iterators over empty regions never reached
 their end, and grid iterators were not assignable

---
 geomc/shape/GridIterator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index d9d99e1..53c53e3 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -74,7 +74,7 @@ public:
     typedef typename PointType<T,N>::point_t point_t;
     
     /// Region over which to iterate
-    const Rect<T,N> region;
+    Rect<T,N> region;
     /// Current point
     point_t pt;
     
@@ -121,6 +121,8 @@ public:
         other.pt = region.lo;
         // one beyond the highest cell. i.e. first cell in
         // (N-1)D block just beyond the end of this region. 
+        // (an empty region has no cells to go beyond.)
+        if (region.is_empty()) return other;
         other.pt[dim_last] = region.hi[dim_last] + 1;
         return other;
     }
@@ -210,7 +212,7 @@ public:
     static constexpr ArrayOrder order = Order;
     typedef typename PointType<T,1>::point_t point_t;
     
-    const Rect<T,1> region;
+    Rect<T,1> region;
     point_t pt;
     
     GridIterator(const Rect<T,1> &r):
@@ -228,7 +230,7 @@ public:
     
     inline GridIterator<T,1,Order> end() const {
         GridIterator<T,1,Order> other = *this;
-        other.pt = region.hi + 1;
+        other.pt = region.is_empty() ? region.lo : region.hi + 1;
         return other;
     }
     
-- 
2.43.0


From 5dc57217818648f5e8519d10882990a7d8af7e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 035/151] fix: row iterators and element proxies of diagonal
 and permutation matrices did not compile

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index 38ae378..ff14355 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -208,7 +208,7 @@ private:
     
     friend class boost::iterator_core_access;
     
-    inline bool equal(const MtxColIterator<M,RefType>& other) const {
+    inline bool equal(const MtxRowIterator<M,RefType>& other) const {
         return (other.mtx == mtx) and (other.pt == pt);
     }
     
@@ -230,7 +230,7 @@ private:
     
     inline RefType dereference() const {
         // always make sure this is calling the function with the right const-ness!
-        return mtx->get(pt.row, pt.col);
+        return (*mtx)(pt.row, pt.col);
     }
     
 };
@@ -275,7 +275,7 @@ public:
     
     // TODO: this should be a reference?
     inline operator T() const {
-        return ((const M*)m)->get(row, col);
+        return (*((const M*)m))(row, col);
     }
     
 };
-- 
2.43.0


From c97927b2bc09f7c99c43f2c7e8b0b7140468bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 036/151] fix: set_identity wrote off-diagonal ones in
 non-square matrices (tall, or column-major)

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 0ab80ab..3dda3dc 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -500,9 +500,9 @@ public:
      */
     void set_identity() {
         set_zero();
-        T *last = data_end();
-        for (T *p = data_begin(); p < last; p += cols() + 1) {
-            *p = 1;
+        const index_t n = std::min(rows(), cols());
+        for (index_t i = 0; i < n; ++i) {
+            set(i, i, 1);
         }
     }
     
-- 
2.43.0


From cd4b794cbd576cce33eeb86d6f6e683ce440bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 037/151] fix: as_transpose did not compile

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 3dda3dc..b621b8d 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -489,10 +489,11 @@ public:
     SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> 
     as_transpose() const {
 #endif
-        return 
-        SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED>(
-            data.get(), cols(), rows()
-        );
+        typedef SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> txpose_t;
+        T* p = const_cast<T*>(data.get());
+        if constexpr (M * N != 0)   return txpose_t(p);
+        else if constexpr (M == N)  return txpose_t(p, cols(), rows());
+        else                        return txpose_t(p, M == 0 ? rows() : cols());
     }
     
     /**
-- 
2.43.0


From da114e6100f839c3ca814379252d1a2cb290c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 038/151] fix: storage aliasing was only detected when one
 matrix contained the other, and an aliased transpose was applied twice

---
 geomc/linalg/Matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 90a6336..d12c95f 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -321,11 +321,12 @@ inline bool mtx_aliases_storage(const Ma& a, const Mb& b) {
         for (index_t j = 0; j < b.storage_token_count(); j++) {
             auto& tka = buf_a[i];
             auto& tkb = buf_b[j];
-            if (tka.lo < tkb.lo or tka.hi > tkb.hi) return false;
+            // (a permutation's token is a single address.)
+            if (tka.lo == tkb.lo or (tka.lo < tkb.hi and tkb.lo < tka.hi)) return true;
         }
     }
     
-    return true;
+    return false;
 }
 
 template <typename T, index_t N>
@@ -670,6 +671,7 @@ transpose(Md *into, const Mx &m) {
         return_t buf = detail::_ImplMtxInstance<return_t>::instance(m.cols(), m.rows());
         txpose_t::transpose(&buf, m);
         detail::_mtxcopy(into, buf);
+        return;
     }
 #endif
     txpose_t::transpose(into, m);
-- 
2.43.0


From d66c17d66bc14a63a9d057ae7fb61c5d25341b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 039/151] fix: multiplying into a vector did not compile (no
 aliasing test between vectors and matrices)

---
 geomc/linalg/Matrix.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index d12c95f..1059e82 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -329,11 +329,22 @@ inline bool mtx_aliases_storage(const Ma& a, const Mb& b) {
     return false;
 }
 
-template <typename T, index_t N>
-inline bool mtx_aliases_storage(const Vec<T,N>& a, const Vec<T,N>& b) {
+template <typename T, index_t M, index_t N>
+inline bool mtx_aliases_storage(const Vec<T,M>& a, const Vec<T,N>& b) {
     return a.begin() == b.begin();
 }
 
+template <typename T, index_t N, typename Mx>
+inline bool mtx_aliases_storage(const Vec<T,N>& v, const Mx& m) {
+    return mtx_aliases_storage(
+        WrapperMatrix<T,N,1>(const_cast<T*>(v.begin())), m);
+}
+
+template <typename T, index_t N, typename Mx>
+inline bool mtx_aliases_storage(const Mx& m, const Vec<T,N>& v) {
+    return mtx_aliases_storage(v, m);
+}
+
 
 /************************************
  * Matrix mul                       *
-- 
2.43.0


From d934a9050990949787b0090916feb3eff283728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 040/151] fix: products with diagonal matrices: diag*mtx read
 the wrong operand, rectangular diagonals read out of bounds, diag*diag and
 diag*permutation did not compile

---
 geomc/linalg/mtxdetail/MatrixMult.h | 69 ++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 573c911..a97cfba 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -25,6 +25,23 @@ namespace detail {
 
 // This is necessary because c++ gets confused by all the different matrix mult 
 // implementations which involve permutation matrixes:
+// neither diagonal nor a permutation:
+#define REQUIRE_GENERAL_MATRIX_T(Mt) \
+    typename std::enable_if< \
+        std::is_base_of< \
+            geom::detail::MatrixBase<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM, typename Mt::recurring_t>, \
+            Mt \
+        >::value and not \
+        std::is_base_of< \
+            geom::PermutationMatrix<Mt::ROWDIM>, \
+            Mt \
+        >::value and not \
+        std::is_base_of< \
+            geom::DiagMatrix<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM>, \
+            Mt \
+        >::value \
+    >::type
+
 #define REQUIRE_NONPERMUTE_MATRIX_T(Mt) \
     typename std::enable_if< \
         std::is_base_of< \
@@ -84,7 +101,7 @@ public:
 
 // mtx * diag
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_GENERAL_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, Mat::ROWDIM, N> return_t;
@@ -93,9 +110,11 @@ public:
     template <typename Md>
     static void mul(Md* d, const Mat& a, const geom::DiagMatrix<T,M,N>& b) {
         const T* dp = b.diagonal_begin();
+        const index_t diag = std::min(b.rows(), b.cols());
         for (index_t c = 0; c < b.cols(); ++c, ++dp) {
             for (index_t r = 0; r < a.rows(); ++r) {
-                d->set(r,c, (*dp) * a(r,c));
+                if (c < diag) d->set(r,c, (*dp) * a(r,c));
+                else          d->set(r,c, 0);
             }
         }
     }
@@ -104,18 +123,20 @@ public:
 
 // diag * mtx
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_GENERAL_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, M, Mat::COLDIM> return_t;
     
-    // (M x N) * (N x a) -> (N x a)
+    // (M x N) * (N x a) -> (M x a)
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,M,N>& a, const Mat& b) {
         const T* dp = a.diagonal_begin();
-        for (index_t r = 0; r < b.rows(); ++r, ++dp) {
-            for (index_t c = 0; c < a.cols(); ++c) {
-                d->set(r,c, (*dp) * a(r,c));
+        const index_t diag = std::min(a.rows(), a.cols());
+        for (index_t r = 0; r < a.rows(); ++r, ++dp) {
+            for (index_t c = 0; c < b.cols(); ++c) {
+                if (r < diag) d->set(r,c, (*dp) * b(r,c));
+                else          d->set(r,c, 0);
             }
         }
     }
@@ -132,20 +153,24 @@ public:
     // diagonal destination matrix
     template <typename U, index_t I, index_t J>
     static void mul(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        U* pc = d->diagonal_begin();
+        const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb, ++pc) {
             *pc = (*pa) * (*pb);
         }
+        // (rectangular factors may have shorter diagonals than the product)
+        std::fill(pc, d->diagonal_end(), 0);
     }
     
     template <typename U, index_t I, index_t J>
     static void mul_acc(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        U* pc = d->diagonal_begin();
+        const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb, ++pc) {
             *pc += (*pa) * (*pb);
         }
     }
@@ -153,19 +178,21 @@ public:
     // arbitrary destination matrix
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
         d->set_zero();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+        const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb) {
             d->set(i, i, (*pa) * (*pb));
         }
     }
     
     template <typename Md>
     static void mul_acc(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb) {
             d->set(i, i, (*d)(i,i) + (*pa) * (*pb));
         }
     }
-- 
2.43.0


From 64de1375dd541b998c1b87f2e22d030579be9812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 041/151] fix: permutation sign: not returned when computed,
 wrong for every cycle, flipped by swapping a row with itself

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f066627..7f932c8 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -155,9 +155,8 @@ public:
             for (index_t i = 0; i < n; i++) {
                 row_dst[row_src[i]] = i;
             }
-        } else {
-            return _sign;
         }
+        return _sign;
     }
     
     
@@ -340,7 +339,7 @@ public:
         dst[src[b]] = a;
         // swap a/b
         std::swap(src[a], src[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
@@ -359,7 +358,7 @@ public:
         src[dst[b]] = a;
         // swap a/b
         std::swap(dst[a], dst[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
@@ -481,6 +480,8 @@ index_t permutation_sign(index_t* p, index_t n) {
     for (index_t i = 0; i < n; i++) {
         // no cycle to traverse (or already visited)
         if (p[i] == i) continue;
+        // a cycle of `k` elements is a product of `k - 1` transpositions
+        odd = not odd;
         // traverse the cycle
         index_t cur = i;
         do {
-- 
2.43.0


From 9875cfd10c41303e7610d14073905ce7c9af0ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 042/151] fix: product of permutations written to a dense
 matrix was transposed; product written over a permutation kept its old sign

---
 geomc/linalg/mtxdetail/MatrixMult.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index a97cfba..940c5f8 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -359,13 +359,13 @@ public:
     typedef geom::PermutationMatrix<((M < N) ? M : N)> return_t;
     
     template <typename Md>
-    static void mul(Md* d, const Ma& a, const Ma& b) {
+    static void mul(Md* d, const Ma& a, const Mb& b) {
         const index_t* d_a = a.getRowDestinations();
         const index_t* d_b = b.getRowDestinations();
         
         d->set_zero();
         for (index_t i = 0; i < a.rows(); i++) {
-            d->set(i, d_a[d_b[i]], 1);
+            d->set(d_a[d_b[i]], i, 1);
         }
     }
     
@@ -385,6 +385,7 @@ public:
             d_rd[i] = s_b[s_a[i]];
             d_cd[i] = d_a[d_b[i]];
         }
+        d->_sign = 0; // the sign of the former contents is stale
     }
 };
 
-- 
2.43.0


From a6d0c1088f1b8bac04d0e9d023fed08235e1a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 043/151] fix: multiplying dynamic matrices into a vector did
 not check the inner dimension

---
 geomc/linalg/Matrix.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 1059e82..c5ca186 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -488,6 +488,11 @@ mul(Md *into, const Ma &a, const Mb &b) {
     typedef typename mult_t::return_t buffer_t;
     
 #ifdef GEOMC_MTX_CHECK_DIMS
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
+    
     // trial orientation adaptors:
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
@@ -532,6 +537,11 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
     typedef typename mult_t::return_t buffer_t;
     
 #ifdef GEOMC_MTX_CHECK_DIMS
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
+    
     // trial orientation adaptors:
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
-- 
2.43.0


From 057d3a5e922e26e49b91c1ed77cfacbb9f6ffed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 044/151] fix: constructing a static matrix from a dynamic one
 of another size wrote out of bounds instead of throwing

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index b621b8d..54f594a 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -279,6 +279,11 @@ protected:
             data(m.rows() * m.cols()) {
         Dimension<M>::set(n_rows, m.rows());
         Dimension<N>::set(n_cols, m.cols());
+#ifdef GEOMC_MTX_CHECK_DIMS
+        if (rows() != m.rows() or cols() != m.cols()) {
+            throw DimensionMismatchException(rows(), cols(), m.rows(), m.cols());
+        }
+#endif
         detail::_mtxcopy(this, m);
     }
     
-- 
2.43.0


From fb8841795fda7061c7824fbf2827d8e0c7cd4316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 045/151] fix: sums involving permutation matrices had boolean
 elements

---
 geomc/linalg/mtxdetail/MatrixArithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixArithmetic.h b/geomc/linalg/mtxdetail/MatrixArithmetic.h
index da8a99f..09655a7 100644
--- a/geomc/linalg/mtxdetail/MatrixArithmetic.h
+++ b/geomc/linalg/mtxdetail/MatrixArithmetic.h
@@ -22,8 +22,8 @@ namespace detail {
 template <typename Ma, typename Mb>
 struct _ImplMatrixAdd {
     
-    //todo: should use decltype(Ma::elem_t + Mb::elem_t)
-    typedef SimpleMatrix<typename Ma::elem_t, 
+    // (elements of permutation matrices are `bool`)
+    typedef SimpleMatrix<decltype(std::declval<typename Ma::elem_t>() + std::declval<typename Mb::elem_t>()), 
                          Ma::ROWDIM * Mb::COLDIM == 0 ? 0 : Ma::ROWDIM, 
                          Ma::COLDIM * Mb::COLDIM == 0 ? 0 : Ma::COLDIM>
             return_t;
-- 
2.43.0


From 770d10010a44e8e8ccc9938b0ce2927a5df79a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 046/151] fix: transposing or scaling a wrapped array, or
 transposing a static diagonal matrix into a dynamic one, did not compile

---
 geomc/linalg/mtxdetail/MatrixArithmetic.h   | 17 +++++++++++++++++
 geomc/linalg/mtxdetail/MatrixFunctionImpl.h |  6 ++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixArithmetic.h b/geomc/linalg/mtxdetail/MatrixArithmetic.h
index 09655a7..7f0b242 100644
--- a/geomc/linalg/mtxdetail/MatrixArithmetic.h
+++ b/geomc/linalg/mtxdetail/MatrixArithmetic.h
@@ -161,6 +161,23 @@ struct _ImplMatrixScale {
     }
 };
 
+////////// wrapped array case //////////
+
+// (a scaled copy of a wrapped array needs storage of its own)
+template <typename T, index_t M, index_t N, MatrixLayout Lyt>
+struct _ImplMatrixScale < SimpleMatrix<T,M,N,Lyt,STORAGE_WRAPPED> > : 
+    public _ImplMatrixScale < SimpleMatrix<T,M,N,Lyt,STORAGE_UNIQUE> > {
+    
+    template <typename Md, typename U>
+    static void scale(Md *d, U k, const SimpleMatrix<T,M,N,Lyt,STORAGE_WRAPPED> &m) {
+        for (index_t r = 0; r < m.rows(); ++r) {
+            for (index_t c = 0; c < m.cols(); ++c) {
+                d->set(r, c, k * m(r,c));
+            }
+        }
+    }
+};
+
 ////////// diagonal case //////////
 
 template <typename T, index_t M, index_t N>
diff --git a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
index 5239760..5db726d 100644
--- a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
+++ b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
@@ -113,7 +113,8 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 struct _ImplMtxTxpose<geom::SimpleMatrix<T,M,N,Lyt,P> > {
     
     typedef geom::SimpleMatrix<T,M,N,Lyt,P> Mx;
-    typedef geom::SimpleMatrix<T,N,M,Lyt,P> return_t;
+    // (a transposed copy of a wrapped array needs storage of its own)
+    typedef geom::SimpleMatrix<T,N,M,Lyt, (P == STORAGE_WRAPPED) ? STORAGE_UNIQUE : P> return_t;
     
     
     // xxx: this is masked by alias checking, which will duplicate
@@ -153,7 +154,8 @@ struct _ImplMtxTxpose<geom::DiagMatrix<T,M,N> > {
         mtx_copy_txpose(d, m);
     }
     
-    inline static void transpose(return_t* d, const geom::DiagMatrix<T,M,N>& m) {
+    template <index_t J, index_t K>
+    inline static void transpose(geom::DiagMatrix<T,J,K>* d, const geom::DiagMatrix<T,M,N>& m) {
         // diagonal unaffected by transpose
         std::copy(m.diagonal_begin(), m.diagonal_end(), d->diagonal_begin());
     }
-- 
2.43.0


From f005cecf736150d3b6db052d76cf85d9de54c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 047/151] fix: region iterators treated the exclusive upper
 corner as inclusive

---
 geomc/linalg/mtxdetail/MatrixBase.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixBase.h b/geomc/linalg/mtxdetail/MatrixBase.h
index 96175fe..1ae8ba5 100644
--- a/geomc/linalg/mtxdetail/MatrixBase.h
+++ b/geomc/linalg/mtxdetail/MatrixBase.h
@@ -176,7 +176,7 @@ public:
      * pointing at the first element in the region (upper left corner).
      */
     inline const_region_iterator region_begin(const MatrixRegion &r) const {
-        return const_region_iterator(derived(), r);
+        return const_region_iterator(derived(), MatrixRegion(r.lo, r.hi - Vec<index_t,2>(1)));
     }
     
     /**
@@ -187,7 +187,7 @@ public:
      * pointing at the element just beyond the last element in the region.
      */
     inline const_region_iterator region_end(const MatrixRegion &r) const {
-        return const_region_iterator(derived(), r).end();
+        return const_region_iterator(derived(), MatrixRegion(r.lo, r.hi - Vec<index_t,2>(1))).end();
     }
 
     // this and its related functions assist in determining
@@ -317,7 +317,7 @@ public:
      * pointing at the first element in the region (upper left corner).
      */
     inline region_iterator region_begin(const MatrixRegion& r) {
-        return region_iterator(derived(), r);
+        return region_iterator(derived(), MatrixRegion(r.lo, r.hi - Vec<index_t,2>(1)));
     }
     
     /**
@@ -328,7 +328,7 @@ public:
      * pointing at the element just beyond the last element in the region.
      */
     inline region_iterator region_end(const MatrixRegion& r) {
-        return region_iterator(derived(), r).end();
+        return region_iterator(derived(), MatrixRegion(r.lo, r.hi - Vec<index_t,2>(1))).end();
     }
     
 }; // class WriteableMatrixBase
-- 
2.43.0


From 8cf0b7a54e0a8d4262018bf501cf730c9f247090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 048/151] fix: MatrixHandle did not compile

---
 geomc/linalg/mtxtypes/MatrixHandle.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/geomc/linalg/mtxtypes/MatrixHandle.h b/geomc/linalg/mtxtypes/MatrixHandle.h
index 3f4d1a1..454374d 100644
--- a/geomc/linalg/mtxtypes/MatrixHandle.h
+++ b/geomc/linalg/mtxtypes/MatrixHandle.h
@@ -24,11 +24,8 @@ namespace detail {
     // storage count is dynamic
     template <typename T>
     struct _ImplStorageObjCount<MatrixHandle<T> > {
-        const static index_t count;
+        const static index_t count = DYNAMIC_DIM;
     };
-    
-    template <typename T>
-    const index_t _ImplStorageObjCount<MatrixHandle<T> >::count = DYNAMIC_DIM;
 
     
 }; // end namespace detail
@@ -42,7 +39,7 @@ class MatrixHandle : public detail::WriteableMatrixBase<T,DYNAMIC_DIM, DYNAMIC_D
 public:
     typedef typename detail::_ImplMtxReftype<MatrixHandle<T>,T>::reference reference;
     
-    using detail::WriteableMatrixBase<T,DYNAMIC_DIM,DYNAMIC_DIM, MatrixHandle<T> >::get;
+    using detail::WriteableMatrixBase<T,DYNAMIC_DIM,DYNAMIC_DIM, MatrixHandle<T> >::operator();
     
     MatrixHandle() {}
     virtual ~MatrixHandle() {}
@@ -68,7 +65,7 @@ public:
     typedef typename M::elem_t elem_t;
     typedef typename MatrixHandle<elem_t>::reference reference;
     
-    using MatrixHandle<elem_t>::get;
+    using MatrixHandle<elem_t>::operator();
     
     M *m;
     MatrixWrapper(M *m):m(m) {}
-- 
2.43.0


From 76c937d54e5d53072f0ed2af14f38a2f65ad04e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 049/151] fix: sums, differences, scalings, copies and
 accumulating products were wrong when the destination shared storage with a
 source (e.g. m + m.as_transpose() into m)

---
 geomc/linalg/Matrix.h               | 57 +++++++++++++++++++++++++++++
 geomc/linalg/mtxdetail/MatrixCopy.h | 38 ++++++++++++++++++-
 2 files changed, 94 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index c5ca186..3f23d5c 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -345,6 +345,16 @@ inline bool mtx_aliases_storage(const Mx& m, const Vec<T,N>& v) {
     return mtx_aliases_storage(v, m);
 }
 
+namespace detail {
+
+// do two matrices share storage, other than by being the same object?
+template <typename Ma, typename Mb>
+inline bool mtx_entangled(const Ma& a, const Mb& b) {
+    return (const void*)&a != (const void*)&b and mtx_aliases_storage(a, b);
+}
+
+} // namespace detail
+
 
 /************************************
  * Matrix mul                       *
@@ -465,6 +475,15 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
         throw DimensionMismatchException(D::rows(*into), D::cols(*into), A::rows(a), B::cols(b));
     }
 #endif
+    
+#if GEOMC_MTX_CHECK_ALIASING
+    if (mtx_aliases_storage(*into, a) or mtx_aliases_storage(*into, b)) {
+        buffer_t tmp = detail::_ImplMtxInstance<buffer_t>::instance(A::rows(a), B::cols(b));
+        mult_t::mul(&tmp, a, b);
+        detail::_mtx_accumulate(into, tmp);
+        return *into;
+    }
+#endif
     mult_t::mul_acc(into, a, b);
     return *into;
 }
@@ -552,6 +571,15 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
         throw DimensionMismatchException(Dr::rows(*into), Dr::cols(*into), A::rows(a), B::cols(b));
     }
 #endif
+    
+#if GEOMC_MTX_CHECK_ALIASING
+    if (mtx_aliases_storage(*into, a) or mtx_aliases_storage(*into, b)) {
+        buffer_t tmp = detail::_ImplMtxInstance<buffer_t>::instance(A::rows(a), B::cols(b));
+        mult_t::mul(&tmp, a, b);
+        detail::_mtx_accumulate(into, tmp);
+        return *into;
+    }
+#endif
     mult_t::mul_acc(into, a, b);
     return *into;
 }
@@ -815,6 +843,16 @@ add(Md *d, const Ma &a, const Mb &b) {
 #ifdef GEOMC_MTX_CHECK_DIMS
     detail::MatrixDimensionMatch<Ma,Mb>::check(a,b);
     detail::MatrixDimensionMatch<Md,Ma>::check(*d,a);
+#endif
+#if GEOMC_MTX_CHECK_ALIASING
+    // sharing storage is harmless only if the elements coincide
+    if (detail::mtx_entangled(*d,a) or detail::mtx_entangled(*d,b)) {
+        typedef typename add_t::return_t buffer_t;
+        buffer_t tmp = detail::_ImplMtxInstance<buffer_t>::instance(a.rows(), a.cols());
+        add_t::add(&tmp,a,b);
+        detail::_mtxcopy(d,tmp);
+        return;
+    }
 #endif
     add_t::add(d,a,b);
 }
@@ -841,6 +879,16 @@ sub(Md *d, const Ma &a, const Mb &b) {
 #ifdef GEOMC_MTX_CHECK_DIMS
     detail::MatrixDimensionMatch<Ma,Mb>::check(a,b);
     detail::MatrixDimensionMatch<Md,Ma>::check(*d,a);
+#endif
+#if GEOMC_MTX_CHECK_ALIASING
+    // sharing storage is harmless only if the elements coincide
+    if (detail::mtx_entangled(*d,a) or detail::mtx_entangled(*d,b)) {
+        typedef typename add_t::return_t buffer_t;
+        buffer_t tmp = detail::_ImplMtxInstance<buffer_t>::instance(a.rows(), a.cols());
+        add_t::sub(&tmp,a,b);
+        detail::_mtxcopy(d,tmp);
+        return;
+    }
 #endif
     add_t::sub(d,a,b);
 }
@@ -926,6 +974,15 @@ scale(Md *d, U k, const Mx &m) {
     typedef detail::_ImplMatrixScale<Mx> scale_t;
 #ifdef GEOMC_MTX_CHECK_DIMS
     detail::MatrixDimensionMatch<Mx,Md>::check(m,*d);
+#endif
+#if GEOMC_MTX_CHECK_ALIASING
+    if (detail::mtx_entangled(*d,m)) {
+        typedef typename scale_t::return_t buffer_t;
+        buffer_t tmp = detail::_ImplMtxInstance<buffer_t>::instance(m.rows(), m.cols());
+        scale_t::scale(&tmp,k,m);
+        detail::_mtxcopy(d,tmp);
+        return;
+    }
 #endif
     scale_t::scale(d, k, m);
 }
diff --git a/geomc/linalg/mtxdetail/MatrixCopy.h b/geomc/linalg/mtxdetail/MatrixCopy.h
index cf99651..84a1435 100644
--- a/geomc/linalg/mtxdetail/MatrixCopy.h
+++ b/geomc/linalg/mtxdetail/MatrixCopy.h
@@ -15,6 +15,17 @@
 namespace geom {
 namespace detail {
 
+    // could this matrix be backed by the same array as another?
+    template <typename Mx>
+    struct IsFlatMatrix {
+        static constexpr bool val = false;
+    };
+    
+    template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
+    struct IsFlatMatrix<geom::SimpleMatrix<T,M,N,Lyt,P>> {
+        static constexpr bool val = true;
+    };
+
     template <typename Md, typename Mx>
     inline void _mtxcopy(Md* into, const Mx& src) {
         std::copy(src.begin(), src.end(), into->begin()); // also works for vectors. neat!
@@ -47,6 +58,21 @@ namespace detail {
     }
 
 
+    template <typename Md, typename Mx>
+    inline void _mtx_accumulate(Md* into, const Mx& src) {
+        auto s = src.begin();
+        for (auto d = into->begin(); d != into->end(); ++d, ++s) *d += *s;
+    }
+
+
+    template <typename Td, index_t Md, index_t Nd, 
+              typename Ts, index_t Ms, index_t Ns>
+    void _mtx_accumulate(geom::DiagMatrix<Td, Md, Nd>* into, const geom::DiagMatrix<Ts, Ms, Ns>& src) {
+        const Ts* s = src.diagonal_begin();
+        for (Td* d = into->diagonal_begin(); d != into->diagonal_end(); ++d, ++s) *d += *s;
+    }
+
+
 }; // namespace detail
 
 
@@ -94,7 +120,17 @@ void mtxcopy(Md* into, const Ms& src,
         throw DimensionMismatchException(D::rows(*into), D::cols(*into), S::rows(src), S::cols(src));
     }
 #endif
-    // todo: check mem aliasing?
+#if GEOMC_MTX_CHECK_ALIASING
+    if constexpr (detail::IsFlatMatrix<Md>::val and detail::IsFlatMatrix<Ms>::val) {
+        // (same object: nothing to do, but harmless)
+        if ((const void*)into != (const void*)&src and mtx_aliases_storage(*into, src)) {
+            // copy aside the source
+            SimpleMatrix<typename Ms::elem_t, Ms::ROWDIM, Ms::COLDIM> tmp(src);
+            detail::_mtxcopy(into, tmp);
+            return;
+        }
+    }
+#endif
     detail::_mtxcopy(into, src);
 }
 
-- 
2.43.0


From dfc28babc7da2a27ec7e00e516eb6763e4c1e3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 050/151] fix: copying a permutation between static and dynamic
 sizes did not compile

---
 geomc/linalg/mtxdetail/MatrixCopy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixCopy.h b/geomc/linalg/mtxdetail/MatrixCopy.h
index 84a1435..8b08da5 100644
--- a/geomc/linalg/mtxdetail/MatrixCopy.h
+++ b/geomc/linalg/mtxdetail/MatrixCopy.h
@@ -32,8 +32,8 @@ namespace detail {
     }
 
 
-    template <index_t N>
-    inline void _mtxcopy(geom::PermutationMatrix<N>* into, const geom::PermutationMatrix<N>& src) {
+    template <index_t M, index_t N>
+    inline void _mtxcopy(geom::PermutationMatrix<M>* into, const geom::PermutationMatrix<N>& src) {
         into->setRowSources(src.getRowSources());
     }
 
-- 
2.43.0


From 7986fbb073ebef0a9c67023dd5530edb5b12c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 051/151] fix: row/column iterators across the layout could not
 be assigned

---
 geomc/linalg/mtxdetail/MatrixLayout.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixLayout.h b/geomc/linalg/mtxdetail/MatrixLayout.h
index ddc2eb9..c95ef8a 100644
--- a/geomc/linalg/mtxdetail/MatrixLayout.h
+++ b/geomc/linalg/mtxdetail/MatrixLayout.h
@@ -18,9 +18,9 @@ struct TransposeIterator :
     typedef typename std::conditional<Const, const T*, T*>::type pointer_t;
     typedef typename std::conditional<Const, const T&, T&>::type ref_t;
     
-    const pointer_t base;
-    const index_t   major; // # elements along major (consecutive) axis
-    const index_t   minor; // # elements along minor axis
+          pointer_t base;
+          index_t   major; // # elements along major (consecutive) axis
+          index_t   minor; // # elements along minor axis
           index_t   i;     // ordinal of this iterator
           pointer_t p;     // pointed memory location
     
-- 
2.43.0


From c4c22f245ddea6595ac6af470a5c6ca094737f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 052/151] fix: subscripting rows of diagonal and permutation
 matrices did not compile

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index ff14355..47ad384 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -314,7 +314,7 @@ struct _ImplMtxReftype {
 
 template <typename M, typename T>
 struct _ImplMtxConstRowtype {
-    typedef MtxRowIterator<M, const T> const_row_iterator;
+    typedef MtxRowIterator<const M, const T> const_row_iterator;
 };
 
 template <typename M, typename T>
-- 
2.43.0


From e3c14d905657431bbed886ae944c2f402df62c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 053/151] fix: permutation_apply did not reset the permutation
 to the identity

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index 7f932c8..260d42a 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -463,6 +463,7 @@ void permutation_apply(index_t* p, index_t n, RandomAccessIterator v) {
             // (we only need to do this if we might encounter the cycle again)
             p[cur] = cur;
         } while (next != i);
+        p[i] = i;
     }
 }
 
-- 
2.43.0


From 2791f029175c0863f143f1b6b13abf3e27c3fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 054/151] fix: a zero last pivot was not counted as degenerate,
 and the last column of tall matrices was not eliminated

---
 geomc/linalg/LUDecomp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/LUDecomp.h b/geomc/linalg/LUDecomp.h
index 54689af..e25a486 100644
--- a/geomc/linalg/LUDecomp.h
+++ b/geomc/linalg/LUDecomp.h
@@ -116,7 +116,7 @@ index_t decomp_lup(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
@@ -202,7 +202,7 @@ index_t decomp_plu(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
-- 
2.43.0


From 77196e0c6255aee228ba87e04f9ab5a3dbaa2cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 055/151] fix: determinants beyond 3x3 multiplied the wrong
 entries or did not compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index fe052b9..e0b193c 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -86,7 +86,7 @@ inline T det3x3(
 /// Compute the 4x4 matrix determinant.
 template <typename T>
 T det4x4(const T m[16]) {
-    const detail::_m4x4<T>& v = *reinterpret_cast<detail::_m4x4<T>*>(m);
+    const detail::_m4x4<T>& v = *reinterpret_cast<const detail::_m4x4<T>*>(m);
     return 
         diff_of_products(
             v.a, det3x3(v.f, v.g, v.h,  v.j, v.k, v.l,  v.n, v.o, v.p),
@@ -121,7 +121,7 @@ T det_destructive(T* m, index_t n) {
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonals, if A is triangular
     for (index_t i = 0; i < n; ++i) {
-        d *= m[i * i];
+        d *= m[i * n + i];
     }
     return d;
 }
@@ -140,13 +140,13 @@ template <typename T>
 T detNxN(const T* m, index_t n) {
     bool odd;
     SmallStorage<T, 64> buf(m, n * n);
-    if (decomp_plu(buf.get(), n, n, nullptr, &odd) != 0) return 0;
+    if (decomp_plu(buf.begin(), n, n, nullptr, &odd) != 0) return 0;
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonal elems, if A is triangular
     // and det(AB) = det(A) * det(B). So if M = LU,
     // because `L` has unit diagonal, det(M) is just the diagonal elements of `U`.
     for (index_t i = 0; i < n; ++i) {
-        d *= buf[i * i];
+        d *= buf[i * n + i];
     }
     return d;
 }
@@ -166,7 +166,7 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 inline T det(const SimpleMatrix<T, M, N, Lyt, P>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     if (M * N == 0 and m.rows() != m.cols()) return 0;
-    return det(m.data_begin(), m.rows());
+    return detNxN(m.data_begin(), m.rows());
 }
 
 // 2x2 matrix det
@@ -202,7 +202,7 @@ T det(const DiagMatrix<T,N,M>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     T d = 1;
     if (m.rows() != m.cols()) return 0;
-    for (T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
+    for (const T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
         d *= *a;
     }
     return d;
@@ -224,7 +224,7 @@ template <index_t N>
 inline index_t det(const PermutationMatrix<N>& m) {
     index_t n = m.rows();
     SmallStorage<index_t,(N > 32 ? N : 32)> p(m.getRowSources(), n);
-    return permutation_sign(p.get(), n);
+    return permutation_sign(p.begin(), n);
 }
 
 /// @} // ingroup matrix
-- 
2.43.0


From 5b217e9839d4c5ffe297c3bc4e223d71928c2c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:24 +0000
Subject: [PATCH 056/151] fix: inverses of dynamically sized and of diagonal
 matrices did not compile

---
 geomc/linalg/mtxdetail/MatrixInv.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index 2aa16ee..d5e749c 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -270,7 +270,7 @@ struct _ImplMtxInvRaw<T,0> {
                 // make a buffer with the same layout as the output
                 static constexpr MatrixLayout Lyt = Md::Layout;
                 SmallStorage<T,64> buf(n * n); // try not to alloc
-                WrapperMatrix<T,0,0,Lyt> bmx(buf.get(), n, n);
+                WrapperMatrix<T,0,0,Lyt> bmx(buf.begin(), n, n);
                 detail::_mtxcopy(&bmx, m);
                 return geom::invNxN(into->data_begin(), bmx.data_begin(), n);
         }
@@ -378,7 +378,7 @@ public:
     template <typename Md>
     static bool inv(Md *into, const geom::DiagMatrix<T,M,N>& m) {
         into->set_zero(); // for newly allocated matrices, redundant. oh well.
-        T *p = m.diagonal_begin();
+        const T *p = m.diagonal_begin();
         for (index_t i = 0; p != m.diagonal_end(); ++i, ++p) {
             T elem = *p;
             if (elem == 0) return false;
@@ -386,6 +386,19 @@ public:
         }
         return true;
     }
+    
+    // the off-diagonals of a diagonal destination are not settable.
+    // `into` may alias `m`.
+    template <index_t J, index_t K>
+    static bool inv(geom::DiagMatrix<T,J,K>* into, const geom::DiagMatrix<T,M,N>& m) {
+        const T *p = m.diagonal_begin();
+        for (index_t i = 0; p != m.diagonal_end(); ++i, ++p) {
+            T elem = *p;
+            if (elem == 0) return false;
+            into->diagonal(i) = 1/elem;
+        }
+        return true;
+    }
 };
 
 // inverse of permutation matrix is its transpose.
-- 
2.43.0


From f4f674a3a98b127ca9fac01817d04f2542d30204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 057/151] fix: cholesky of a column-major matrix did not
 compile

---
 geomc/linalg/Cholesky.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Cholesky.h b/geomc/linalg/Cholesky.h
index cfa7b18..9ce6903 100644
--- a/geomc/linalg/Cholesky.h
+++ b/geomc/linalg/Cholesky.h
@@ -85,7 +85,7 @@ cholesky(SimpleMatrix<T,M,N,Lyt,P>* m) {
     if (M * N == 0 and m->rows() != m->cols()) {
         return false;
     }
-    return cholesky<T,true>(m->begin(), m->rows());
+    return cholesky<T,Lyt == ROW_MAJOR>(m->data_begin(), m->rows());
 }
 #endif
 
-- 
2.43.0


From 1e3092f6a3f2455c390625f256109c514f1039fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 058/151] fix: independent vectors with degenerate leading
 coordinates were treated as dependent

---
 geomc/linalg/Orthogonal.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/Orthogonal.h b/geomc/linalg/Orthogonal.h
index ec11bdf..6795129 100644
--- a/geomc/linalg/Orthogonal.h
+++ b/geomc/linalg/Orthogonal.h
@@ -76,7 +76,9 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
     std::copy(v0, v0 + N * (N-1), m);
     
     bool parity_swap = false;
-    if (decomp_plu(m, N-1, N, P, &parity_swap) > 0) {
+    // pivot by columns, so that independent vectors whose leading coordinates
+    // are degenerate are not mistaken for dependent ones.
+    if (decomp_lup(m, N-1, N, P, &parity_swap) > 0) {
         // matrix is singular; nullity is > 1. return 0 vector.
         return Vec<T,N>();
     }
@@ -90,7 +92,12 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
         o[r] /= mx(r,r);
     }
     
-    return o;
+    // undo the reordering of the coordinates
+    Vec<T,N> out;
+    for (index_t i = 0; i < N; i++) {
+        out[P[i]] = o[i];
+    }
+    return out;
 }
 
 
@@ -138,7 +145,7 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     }
     
     T       m[N * (N-2)]; // <--  N-2 is the max # bases
-    index_t P[N - 2];     //     (N-1 and N cases handled above)
+    index_t P[N];         //     (N-1 and N cases handled above)
             T* n0 = null_basis[0].begin();
     const T* b0 = bases[0].begin();
     
@@ -154,7 +161,7 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     
     // get V to row-echelon form
     bool parity_swap = false;
-    if (decomp_plu(m, n, N, P, &parity_swap) > 0) return false;
+    if (decomp_lup(m, n, N, P, &parity_swap) > 0) return false;
     
     // foreach null space basis
     for (index_t b = 0; b < N - n; b++) {
@@ -170,6 +177,14 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
         }
     }
     
+    // undo the reordering of the coordinates
+    for (index_t b = 0; b < N - n; b++) {
+        Vec<T,N> x = null_basis[b];
+        for (index_t i = 0; i < N; i++) {
+            null_basis[b][P[i]] = x[i];
+        }
+    }
+    
     return true;
 }
 
-- 
2.43.0


From f86a132fedbbfb06f7d14cb0149a3058b38a1700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 059/151] fix: ceil_div and floor_div of integers were wrong
 for negative operands

---
 geomc/function/Utils.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geomc/function/Utils.h b/geomc/function/Utils.h
index c160ad2..90b97f7 100644
--- a/geomc/function/Utils.h
+++ b/geomc/function/Utils.h
@@ -225,7 +225,9 @@ constexpr auto ceil_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::ceil(a / b);
     } else {
-        return (a + b - 1) / b;
+        // integer division truncates towards zero, which is already
+        // the ceiling if the exact quotient is negative.
+        return a / b + (a % b != 0 and (a < 0) == (b < 0));
     }
 }
 
@@ -250,7 +252,9 @@ constexpr auto floor_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::floor(a / b);
     } else {
-        return (a + b) / b - 1;
+        // integer division truncates towards zero, which is already
+        // the floor if the exact quotient is positive.
+        return a / b - (a % b != 0 and (a < 0) != (b < 0));
     }
 }
 
-- 
2.43.0


From 803db902382de3400d4690c75914f4847902ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:25 +0000
Subject: [PATCH 060/151] fix: sums and differences of complex products did not
 compile

---
 geomc/function/functiondetail/UtilDetail.h | 24 +++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index bc1437a..6b4ec8a 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -135,10 +135,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i -
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r - cd_r, ab_i - cd_i};
     }
     
@@ -150,10 +150,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i +
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r + cd_r, ab_i + cd_i};
     }
     
@@ -172,11 +172,11 @@ struct _ImplFMADot<std::complex<T>, void> {
         
         // (a + bi) * (c + di) + (k_r + k_i i)
         // real: (ac - bd + k_r)
-        auto bd_k = geom::multiply_add<T>(-a.imag, b.imag, c.real);
-        auto real = geom::multiply_add<T>( a.real, b.real, bd_k);
+        auto bd_k = geom::multiply_add<T>(-a.imag(), b.imag(), c.real());
+        auto real = geom::multiply_add<T>( a.real(), b.real(), bd_k);
         // imag: (ad + bc + k_i)
-        auto bc_k = geom::multiply_add<T>(a.imag, b.real, c.imag);
-        auto imag = geom::multiply_add<T>(a.real, b.imag, bc_k);
+        auto bc_k = geom::multiply_add<T>(a.imag(), b.real(), c.imag());
+        auto imag = geom::multiply_add<T>(a.real(), b.imag(), bc_k);
         return {real, imag};
     }
 };
-- 
2.43.0


From 728cafafb28a0f2b0ea8245c58fc17ffa23006a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:25 +0000
Subject: [PATCH 061/151] fix: diff_of_products of dual numbers did not compile

---
 geomc/function/functiondetail/UtilDetail.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index 6b4ec8a..cd8a520 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -99,7 +99,7 @@ struct _ImplFMADot<Dual<T,P>, void> {
         T dp = geom::sum_of_products<T>(a.x, b.dx, a.dx, b.x);
         T dq = geom::sum_of_products<T>(c.x, d.dx, c.dx, d.x);
         return Dual<T,P>(
-            geom::diff_of_products<T>(a, b, c, d),
+            geom::diff_of_products<T>(a.x, b.x, c.x, d.x),
             dp - dq);
     }
     
-- 
2.43.0


From 13583a0189431704177f30fcc8cea2eccbe0b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 062/151] fix: derivatives of exp, tan and pow of dual numbers
 were wrong

---
 geomc/function/functiondetail/DualFunctions.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 35e9cb6..3acd627 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -297,7 +297,7 @@ inline geom::Dual<T,P> cos(const geom::Dual<T,P> &d) {
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> tan(const geom::Dual<T,P> &d) {
     T c = std::cos(d.x);
-    return geom::Dual<T,P>(std::tan(d.x), -d.dx / (c*c));
+    return geom::Dual<T,P>(std::tan(d.x), d.dx / (c*c));
 }
 
 
@@ -360,7 +360,7 @@ inline geom::Dual<T,P> atan2(const geom::Dual<T,P> &y, const geom::Dual<T,P> &x)
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> exp(const geom::Dual<T,P> &d) {
     T e = std::exp(d.x);
-    return geom::Dual<T,P>(e, -d.dx * e);
+    return geom::Dual<T,P>(e, d.dx * e);
 }
 
 
@@ -395,7 +395,7 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
     T a_c = pow(base.x, xp.x);
     return geom::Dual<T,P>(
         a_c,
-        base.dx * xp.x * a_c / xp.x +
+        base.dx * xp.x * a_c / base.x +
         xp.dx * a_c * std::log(base.x)
     );
     
-- 
2.43.0


From a6014ba3ba8a94af268f6b109108db51cef8648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 063/151] fix: scalar minus dual kept the sign of the
 derivative

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 3acd627..1d37a1e 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -195,7 +195,7 @@ requires requires(T t, U u) {
 constexpr Dual<T,Dp> operator-(U s, const Dual<T,Dp>& d) { 
     return Dual<T,Dp>{
         s - d.x,
-        d.dx
+        -d.dx
     };
 }
 
-- 
2.43.0


From 6f624586303b6c15806bb98534ee7ff5ee5a364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 064/151] fix: max, pow and scaling of duals lost the
 discontinuity policy or did not compile

---
 geomc/function/functiondetail/DualFunctions.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 1d37a1e..e0e3c13 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -59,7 +59,7 @@ template <typename T, typename U, DiscontinuityPolicy Dp>
 requires requires(T t, U u) {
     {t * u} -> std::convertible_to<T>;
 }
-constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, T s) {
+constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, U s) {
     x.x  = x.x  * s;
     x.dx = x.dx * s;
     return x;
@@ -406,10 +406,10 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
  * @brief Returns `base` raised to exponent `xp`.
  * @related geom::Dual
  */
-template <typename T, typename U>
-inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
+template <typename T, typename U, geom::DiscontinuityPolicy P>
+inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, U xp) {
     T a_x = pow(base.x, xp);
-    return geom::Dual<T>(
+    return geom::Dual<T,P>(
         a_x,
         base.dx * xp * a_x / base.x
     );
@@ -423,7 +423,7 @@ inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
 template <typename T, typename U, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> pow(U base, const geom::Dual<T,P> &xp) {
     T a_x = pow(base, xp.x);
-    return geom::Dual<T>(
+    return geom::Dual<T,P>(
         a_x,
         xp.dx * a_x * std::log(base)
     );
@@ -545,7 +545,7 @@ inline geom::Dual<T,P> max(const geom::Dual<T,P> &d1, const geom::Dual<T,P> &d2)
     } else {
         dx = gt ? d1.dx : d2.dx;
     }
-    return geom::Dual<T>(x,dx);
+    return geom::Dual<T,P>(x,dx);
 }
 
 
-- 
2.43.0


From 01a5f166dea658e8109ef395139f2c04847a28dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 065/151] fix: derivative of a power at zero was not a number

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index e0e3c13..98849ea 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -411,7 +411,7 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, U xp) {
     T a_x = pow(base.x, xp);
     return geom::Dual<T,P>(
         a_x,
-        base.dx * xp * a_x / base.x
+        base.dx * xp * pow(base.x, xp - 1)
     );
 }
 
-- 
2.43.0


From 385001bed5e9d883f2716e1fdfb8da91cfa8bd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 066/151] fix: changing the discontinuity policy of a dual
 overwrote its value by the derivative

---
 geomc/function/functiondetail/DualImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 0f04048..a56e4c8 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -148,7 +148,7 @@ struct Dual {
     
     /// Construct a Dual from one with a different discontinuity policy.
     template <DiscontinuityPolicy DP1>
-    constexpr Dual(const Dual<T,DP1>& d):x(d.dx), dx(d.dx) {}
+    constexpr Dual(const Dual<T,DP1>& d):x(d.x), dx(d.dx) {}
     
     /// Copy-construct a Dual
     constexpr Dual(const Dual& d) = default;
-- 
2.43.0


From dacb56672f47df3149c9fdfe570ff0b734cd4bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 067/151] fix: constant duals could not be compared and default
 duals were uninitialised

---
 geomc/function/functiondetail/DualImpl.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index a56e4c8..0477384 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -138,7 +138,7 @@ struct Dual {
      *******************************/
    
     /// Construct a Dual default value and 0 derivative.
-    constexpr Dual():dx(0) {}
+    constexpr Dual():x(0),dx(0) {}
     
     /// Construct a Dual with value `x` and 0 derivative.
     constexpr Dual(T x):x(x),dx(0) {}
@@ -170,17 +170,17 @@ struct Dual {
     // comparison
     
     /// Equality of primal component
-    inline bool operator==(const Dual<T,Dp> &d) { return x == d.x; }
+    inline bool operator==(const Dual<T,Dp> &d) const { return x == d.x; }
     /// Inequality of primal component
-    inline bool operator!=(const Dual<T,Dp> &d) { return x != d.x; }
+    inline bool operator!=(const Dual<T,Dp> &d) const { return x != d.x; }
     /// Greater-or-equal-to comparison of primal component
-    inline bool operator>=(const Dual<T,Dp> &d) { return x >= d.x; }
+    inline bool operator>=(const Dual<T,Dp> &d) const { return x >= d.x; }
     /// Less-or-equal-to comparison of primal component
-    inline bool operator<=(const Dual<T,Dp> &d) { return x <= d.x; }
+    inline bool operator<=(const Dual<T,Dp> &d) const { return x <= d.x; }
     /// Greater-than comparison of primal component
-    inline bool operator> (const Dual<T,Dp> &d) { return x  > d.x; }
+    inline bool operator> (const Dual<T,Dp> &d) const { return x  > d.x; }
     /// Less-than comparison of primal component
-    inline bool operator< (const Dual<T,Dp> &d) { return x  < d.x; }
+    inline bool operator< (const Dual<T,Dp> &d) const { return x  < d.x; }
     
     /// Post-increment
     Dual<T,Dp> operator++(int) {
-- 
2.43.0


From d7b6c1e284c4b0e9d89d0e13124c11ed34e62f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 068/151] fix: single precision duals could not be added to or
 divided by double precision scalars

---
 geomc/function/functiondetail/DualFunctions.h | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 98849ea..2ef6d70 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -86,10 +86,10 @@ requires requires (T t, U u) {
     {t / u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp> operator/(const Dual<T,Dp>& d, U s) {
-    return Dual<T,Dp>{
+    return Dual<T,Dp>(
         d.x  / s,
         d.dx / s
-    };
+    );
 }
 
 /// Scalar / dual division.
@@ -98,10 +98,10 @@ requires requires (T t, U u) {
     {u / t} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp> operator/(U s, const Dual<T,Dp>& d) {
-    return Dual<T,Dp>{
+    return Dual<T,Dp>(
         s / d.x,
         -s * d.dx / (d.x * d.x)
-    };
+    );
 }
 
 /// Divide and assign to dual.
@@ -148,10 +148,10 @@ requires requires(T t, U u) {
   {t + u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp> operator+(const Dual<T,Dp>& d, U s) { 
-    return Dual<T,Dp>{
+    return Dual<T,Dp>(
         d.x + s,
         d.dx
-    };
+    );
 }
 
 /// Scalar + dual
@@ -160,10 +160,10 @@ requires requires(T t, U u) {
   {u + t} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp> operator+(U s, const Dual<T,Dp>& d) { 
-    return Dual<T,Dp>{
+    return Dual<T,Dp>(
         s + d.x,
         d.dx
-    };
+    );
 }
 
 /// Subtraction.
@@ -181,10 +181,10 @@ requires requires(T t, U u) {
   {t - u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp> operator-(const Dual<T,Dp>& d, U s) { 
-    return Dual<T,Dp>{
+    return Dual<T,Dp>(
         d.x - s,
         d.dx
-    };
+    );
 }
 
 /// Scalar - dual
@@ -193,10 +193,10 @@ requires requires(T t, U u) {
   {u - t} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp> operator-(U s, const Dual<T,Dp>& d) { 
-    return Dual<T,Dp>{
+    return Dual<T,Dp>(
         s - d.x,
         -d.dx
-    };
+    );
 }
 
 /// Add and assign.
-- 
2.43.0


From 7882a6a21b10569d71b4e411402ad6eba80dd652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 069/151] fix: multiplying or dividing a dual by itself in
 place gave a wrong derivative

---
 geomc/function/functiondetail/DualFunctions.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 2ef6d70..476f9cd 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -47,10 +47,9 @@ constexpr Dual<T,Dp> operator*(U s, const Dual<T,Dp>& d) {
 /// Multiply and assign to dual.
 template <typename T, DiscontinuityPolicy Dp>
 constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, const Dual<T,Dp>& y) {
-    T x_x = x.x;
-    x.x  = x.x * y.x;
     // product rule: x * dy + y * dx
-    x.dx = sum_of_products(x_x, y.dx, y.x, x.dx);
+    x.dx = sum_of_products(x.x, y.dx, y.x, x.dx);
+    x.x  = x.x * y.x;
     return x;
 }
 
@@ -110,9 +109,8 @@ requires requires (T t, U u) {
     {t / u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp>& operator/=(Dual<T,Dp>& x, const Dual<U,Dp>& y) {
-    auto x_x = x.x;
+    x.dx = diff_of_products(x.dx, y.x, x.x, y.dx) / (y.x * y.x);
     x.x  = x.x / y.x;
-    x.dx = diff_of_products(x.dx, y.x, x_x, y.dx) / (y.x * y.x);
     return x;
 }
 
-- 
2.43.0


From 4e8649dfc5d513c897117d2381189f2840ff283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 070/151] fix: derivative of a power keeps the precision of the
 base

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 476f9cd..6cd9e4e 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -409,7 +409,7 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, U xp) {
     T a_x = pow(base.x, xp);
     return geom::Dual<T,P>(
         a_x,
-        base.dx * xp * pow(base.x, xp - 1)
+        base.dx * xp * pow(base.x, xp - (T) 1)
     );
 }
 
-- 
2.43.0


From c12fdf250265372b92d87e9dfb79415f3226158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 071/151] fix: raster sample points were not at the coordinates
 of the domain's grid

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index d6fa9cd..1810dc9 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -431,7 +431,7 @@ public:
 protected:
     
     inline coord_t toGridSpace(const coord_t &pt) const {
-        return (coord_t)m_extent * m_domain.unmap(pt);
+        return ((coord_t)m_extent - (coord_t)1) * m_domain.unmap(pt);
     }
     
     template <EdgeBehavior Edge>
-- 
2.43.0


From cb285150b87d465af05f1b47b7875cc6e83480ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 072/151] fix: rasters sampled the wrong grid cell at negative
 coordinates

---
 geomc/function/Raster.h                      |  6 +++---
 geomc/function/functiondetail/RasterDetail.h | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 1810dc9..6fcc49c 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -289,12 +289,12 @@ public:
         
         switch (interp) {
         case INTERP_NEAREST:
-            gridPt = grid_t(pt + coord_t(0.5));
+            gridPt = detail::_grid_floor<I,M>(pt + coord_t(0.5));
             return sample_discrete(gridPt, edge);
         case INTERP_LINEAR:
         {
             sample_t buf_l[1<<M];
-            gridPt = (grid_t)pt;
+            gridPt = detail::_grid_floor<I,M>(pt);
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 2^M sample pts into a contiguous buffer
@@ -305,7 +305,7 @@ public:
         case INTERP_CUBIC:
         {
             sample_t buf_c[1<<(2*M)];
-            gridPt = (grid_t)pt;
+            gridPt = detail::_grid_floor<I,M>(pt);
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 4^M sample pts into a contiguous buffer
diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 041874b..6001df6 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -72,6 +72,15 @@ public:
  * Sampling behaviors    *
  *************************/
 
+// the grid cell containing `p`
+template <typename I, index_t N>
+inline typename PointType<index_t,N>::point_t _grid_floor(const typename PointType<I,N>::point_t& p) {
+    typename PointType<index_t,N>::point_t g;
+    for (index_t i = 0; i < N; ++i) {
+        PointType<index_t,N>::iterator(g)[i] = (index_t) std::floor(PointType<I,N>::iterator(p)[i]);
+    }
+    return g;
+}
 
 template <typename I, typename O, index_t N, index_t Channels, EdgeBehavior Edge, Interpolation Interp>
 class _ImplRasterSample {
@@ -86,7 +95,7 @@ public:
     typedef typename Raster<I,O,N,Channels>::sample_t sample_t;
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
-        grid_t gridPt = grid_t(pt + coord_t(0.5));
+        grid_t gridPt = _grid_floor<I,N>(pt + coord_t(0.5));
         return r->template sample_discrete<Edge>(gridPt);
     }
 };
@@ -100,7 +109,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<N];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = _grid_floor<I,N>(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
@@ -119,7 +128,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<(2*N)];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = _grid_floor<I,N>(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-- 
2.43.0


From fa83f5c68be4e6d38ae1993b6a9022ec961f46c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 073/151] fix: sampling a raster with run-time edge rules, or
 of one dimension, did not compile

---
 geomc/function/Raster.h                      | 12 ++++++------
 geomc/function/functiondetail/RasterDetail.h |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 6fcc49c..da8c3d2 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -283,7 +283,7 @@ public:
      * @param interp Sample interpolation strategy.
      * @return Sampled data.
      */
-    sample_t sample(const coord_t &pt, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
+    sample_t sample(coord_t pt, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
         grid_t gridPt;
         pt = toGridSpace(pt);
         
@@ -298,9 +298,9 @@ public:
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 2^M sample pts into a contiguous buffer
-            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(2)), edge);
+            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(1)), edge);
             
-            return interp_linear(s.begin(), buf_l, M);
+            return interp_linear(PointType<I,M>::iterator(s), buf_l, M);
         }
         case INTERP_CUBIC:
         {
@@ -309,9 +309,9 @@ public:
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 4^M sample pts into a contiguous buffer
-            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(3)), edge);
+            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(2)), edge);
             
-            return interp_cubic(s.begin(), buf_c, M);
+            return interp_cubic(PointType<I,M>::iterator(s), buf_c, M);
         }
         default:
             return m_abyss;
@@ -371,7 +371,7 @@ public:
             return m_abyss;
         }
         
-        return sample_t(m_data.get() + offs);
+        return PointType<O,N>::from_ptr(m_data.get() + offs);
     }
     
     /**
diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 6001df6..34cd185 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -113,7 +113,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt, gridPt + grid_t(1)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt, gridPt + grid_t(1)));
         
         return interp_linear(PointType<I,N>::iterator(s), buf, N);
     }
@@ -132,7 +132,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
         
         return interp_cubic(PointType<I,N>::iterator(s), buf, N);
     }
-- 
2.43.0


From 20ee20e71af3514e34e0c882380a52c78aad9b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 074/151] fix: mirroring a raster of extent one divided by zero

---
 geomc/function/functiondetail/RasterDetail.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 34cd185..5995338 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -44,8 +44,9 @@ public:
     static inline index_t coord(index_t c, index_t max) {
         c = std::abs(c);
         max -= 1;
-        int cyc = c/max;
-        int i   = c%max;
+        if (max == 0) return 0;
+        index_t cyc = c/max;
+        index_t i   = c%max;
         return ((cyc & 1) == 0)?(i):(max-i);
     }
 };
-- 
2.43.0


From 4f01253ee7127b8d52376cf1f26358f245e73d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 075/151] fix: raster sample count included channels and the
 default constant was uninitialised

---
 geomc/function/Raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index da8c3d2..410b408 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -128,7 +128,7 @@ protected:
     grid_t    m_extent;
     index_t   m_size;
     boost::shared_array<O> m_data;
-    sample_t  m_abyss;
+    sample_t  m_abyss = sample_t();
     Rect<I,M> m_domain;
     
 public:
@@ -425,7 +425,7 @@ public:
      * Number of grid sample points in this raster.
      */
     inline index_t samplecount() const {
-        return m_size;
+        return m_size / N;
     }
     
 protected:
-- 
2.43.0


From bc2efbe265d6bfa1237885e511ecbb2ed04300f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:41 +0000
Subject: [PATCH 076/151] fix: gradient of one-dimensional noise started from
 an uninitialised value

---
 geomc/function/PerlinNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index 684470c..4773389 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -164,7 +164,7 @@ public:
                 f[pair] = mix(t, a, b);
                 
                 // apply the multivariate chain rule:
-                point_t w;
+                point_t w = point_t();
                 // dt/dx is only nonzero along the current axis:
                 T* w_i  = pointtype::iterator(w) + axis;
                 //        dmix_dt(t, ...) * dt/dx
-- 
2.43.0


From 162bf41875ea0d7b343cf5ed3689ffd30aef7579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:41 +0000
Subject: [PATCH 077/151] fix: hashing noise lattice points overflowed a signed
 integer

---
 geomc/function/PerlinNoise.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index 4773389..c226056 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -183,14 +183,14 @@ public:
 protected:
     
     inline const point_t& get_grid_gradient(const grid_t& pt) const {
-        index_t idx = 0;
+        uint64_t idx = 0; // unsigned, because the scramble is expected to wrap around
         for (index_t i = 0; i < N; ++i) {
             // do an iterated linear congruential scramble, using Knuth's constants:
             // xxx: todo: make portable
             index_t k = gridtype::iterator(pt)[i];
-            idx = 6364136223846793005LL * (k + idx) + 1442695040888963407LL;
+            idx = 6364136223846793005ULL * (k + idx) + 1442695040888963407ULL;
         }
-        idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
+        idx = positive_mod((index_t) idx, (index_t) PERLIN_NUM_GRADIENTS);
         
         // xxx: todo: confirm the above is okay and delete this:
         // idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
-- 
2.43.0


From 4910ac274dccc70963a7ef05a5f9997bf59eb4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 078/151] fix: normalizing a spherical harmonics function did
 not make its integral one

---
 geomc/function/SphericalHarmonics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 8fc86c8..d2bec0e 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -285,9 +285,9 @@ class SphericalHarmonics {
      * If the integral is currently 0, no change will be made.
      */
     void normalize() {
-        T nh = coeffs[0];
+        T nh = coeffs[0] * std::sqrt(4 * boost::math::constants::pi<T>());
         if (nh == 0) return;
-        for (index_t i = 1; i < size(); i++) {
+        for (index_t i = 0; i < size(); i++) {
             coeffs[i] /= nh;
         }
     }
-- 
2.43.0


From a9345bfd8f5978f7c88b7c8edea64d0daaab2f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 079/151] fix: adding a constant to a spherical harmonics
 function added another constant

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index d2bec0e..ae12b82 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -526,7 +526,7 @@ class SphericalHarmonics {
      * @param k Bias.
      */
     SphericalHarmonics<T,Bands>& operator+=(T k) {
-        coeffs[0] += k;
+        coeffs[0] += k * std::sqrt(4 * boost::math::constants::pi<T>());
         return *this;
     }
     
-- 
2.43.0


From d89a0fa5891288ae33951e4dd55810075ebc8a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 080/151] fix: the sum of two spherical harmonics functions was
 not returned

---
 geomc/function/SphericalHarmonics.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index ae12b82..ea5f52c 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -545,11 +545,11 @@ class SphericalHarmonics {
      * Construct a SphericalHarmonics function which is the sum of this and another.
      */
     SphericalHarmonics<T,Bands> operator+(const SphericalHarmonics<T,Bands> &sh) {
-        index_t n = std::max(sh.size(), size());
-        SphericalHarmonics<T,Bands> out(n);
-        for (index_t i; i < n; i++) {
-            out.coeffs[i] = coeffs[i] + sh.coeffs[i];
+        SphericalHarmonics<T,Bands> out(std::max(sh.bands(), bands()));
+        for (index_t i = 0; i < out.size(); i++) {
+            out.coeffs[i] = (i < size() ? coeffs[i] : 0) + (i < sh.size() ? sh.coeffs[i] : 0);
         }
+        return out;
     }
     
     /**
-- 
2.43.0


From 7710333dcfcd12438abb0f46364ea8879190b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 081/151] fix: zonal harmonics of a spherical harmonics
 function were not a number, and inner products read beyond the shorter
 operand

---
 geomc/function/SphericalHarmonics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index ea5f52c..999a185 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -615,7 +615,7 @@ class ZonalHarmonics {
         const T pi = boost::math::constants::pi<T>();
         Dimension<Bands>::set(n_bands,sh.bands());
         for (index_t l = 0; l < bands(); l++) {
-            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l - 1) / (4 * pi));
+            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l + 1) / (4 * pi));
         }
     }
     
@@ -661,7 +661,7 @@ class ZonalHarmonics {
     T dot(const ZonalHarmonics<T,B> &zh) const {
         T sum = 0;
         const index_t n = std::min(bands(), zh.bands());
-        for (index_t i = 0; i < bands(); i++) {
+        for (index_t i = 0; i < n; i++) {
             sum += coeff(i) * zh.coeff(i);
         }
         return sum;
-- 
2.43.0


From 0169fbf604dfba7b15883d1eacbaf093b8366322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 082/151] fix: projecting a sample onto zonal harmonics gave
 wrong coefficients

---
 geomc/function/SphericalHarmonics.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 999a185..7b8c436 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -762,11 +762,11 @@ class ZonalHarmonics {
         if (bands() > 1) coeffs[1] = x * val;
         T p_0 = 1;
         T p_1 = x;
-        for (index_t i = 1; i < bands(); i++) {
-            T p_i = (2 * i + 1) * x * p_1 - i * p_0 / ((T)i + 1);
+        for (index_t i = 1; i < bands() - 1; i++) {
+            T p_i = ((2 * i + 1) * x * p_1 - i * p_0) / ((T)i + 1);
             p_0 = p_1;
             p_1 = p_i;
-            coeffs[i] = val * p_i;
+            coeffs[i + 1] = val * p_i;
         }
     }
     
-- 
2.43.0


From 4a531f3f127d62c36bde0c8135aa1ae9eef1d1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 083/151] fix: normalizing zonal harmonics did not make the
 integral one

---
 geomc/function/SphericalHarmonics.h | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 7b8c436..b648ef7 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -804,25 +804,11 @@ class ZonalHarmonics {
     /**
      * Ensure the integral over the entire sphere is 1. 
      * If the integral is currently 0, no change will be made.
-     */ /*
-    void normalize() {
-        T k  = std::sqrt(4 * boost::math::constants::pi<T>());
-        T nh = coeffs[0] * k;
-        if (nh == 0) return;
-        coeffs[0] = 1 / k;
-        for (index_t i = 1; i < bands(); i++) {
-            coeffs[i] /= nh;
-        }
-    }*/
-    
-    // xxx debug
+     */
     void normalize() {
-        T k  = std::sqrt(4 * boost::math::constants::pi<T>() / 3);
-        T nh = coeffs[1] * k;
+        T nh = coeffs[0] * 4 * boost::math::constants::pi<T>();
         if (nh == 0) return;
-        coeffs[1] = 1 / k;
         for (index_t i = 0; i < bands(); i++) {
-            if ( i == 1) continue;
             coeffs[i] /= nh;
         }
     }
-- 
2.43.0


From e30daa3b6ea390645fa051e78a7e071c650656ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 084/151] fix: lambertian zonal harmonics of order one had two
 bands

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index b648ef7..bda7439 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -686,7 +686,7 @@ class ZonalHarmonics {
         T fac = 1;
         coeffs[0] = 0.25;
         if (bands() > 1) {
-            coeffs[1] = 0.5;
+            if (ct > 1) coeffs[1] = 0.5;
             for (index_t n = 2; n < ct; n += 2) { // odd bands are 0.
                 fac *= n * (n - 1);
                 T fac_num = 1;
-- 
2.43.0


From 328e45c36a290fe6e2ad7e70c16b1bc067de2f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 085/151] fix: converting zonal harmonics to more bands read
 beyond their coefficients

---
 geomc/function/SphericalHarmonics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index bda7439..c966cce 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -190,7 +190,7 @@ class SphericalHarmonics {
         const index_t b = Bands > 0 ? std::min(zh.bands(), Bands) : zh.bands();
         Dimension<Bands>::set(n_bands, b);
         clear();
-        for (index_t l = 0; l < bands(); l++) {
+        for (index_t l = 0; l < b; l++) {
             T k = std::sqrt((4*pi) / (2 * l + 1));
             T p = zh.coeff(l);
             T v = p * k;
@@ -214,7 +214,7 @@ class SphericalHarmonics {
         project(new_axis, 1);
         for (index_t l = 0; l < bands(); l++) {
             for (index_t m = -l; m <= l; m++) {
-                coeff(l,m) *= zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1));
+                coeff(l,m) *= (l < b) ? zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1)) : 0;
             }
         }
     }
-- 
2.43.0


From 5f21f4d0fa60627d7606dd08b2808c3861bbaf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 086/151] fix: reoriented zonal harmonics had other values than
 the original about its axis

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index c966cce..b4a3812 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -214,7 +214,7 @@ class SphericalHarmonics {
         project(new_axis, 1);
         for (index_t l = 0; l < bands(); l++) {
             for (index_t m = -l; m <= l; m++) {
-                coeff(l,m) *= (l < b) ? zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1)) : 0;
+                coeff(l,m) *= (l < b) ? zh.coeff(l) * (4*pi) / (2 * l + 1) : 0;
             }
         }
     }
-- 
2.43.0


From e81c07859215554ec26f47a788e510acfa1fbc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 087/151] fix: reseeding a generator kept bits of the previous
 sequence

---
 geomc/random/LCRand.cpp | 1 +
 geomc/random/MTRand.cpp | 1 +
 geomc/random/Xorshiro.h | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/geomc/random/LCRand.cpp b/geomc/random/LCRand.cpp
index b48b96c..3cd2dda 100644
--- a/geomc/random/LCRand.cpp
+++ b/geomc/random/LCRand.cpp
@@ -24,6 +24,7 @@ uint32_t LCRand::rand32(){
 
 void LCRand::rseed(uint64_t seed){
     state = seed;
+    _bitsleft = 0;
 }
 
 } /* namespace geom */
diff --git a/geomc/random/MTRand.cpp b/geomc/random/MTRand.cpp
index a889d89..17064d1 100644
--- a/geomc/random/MTRand.cpp
+++ b/geomc/random/MTRand.cpp
@@ -71,4 +71,5 @@ void MTRand::rseed(uint64_t seed){
         mt_buffer[i] = seeder.rand32();
     }
     mt_index = 0;
+    _bitsleft = 0;
 }
diff --git a/geomc/random/Xorshiro.h b/geomc/random/Xorshiro.h
index aaaa804..23fdef1 100644
--- a/geomc/random/Xorshiro.h
+++ b/geomc/random/Xorshiro.h
@@ -39,6 +39,7 @@ public:
         s[1] = splitmix64(&x);
         s[2] = splitmix64(&x);
         s[3] = splitmix64(&x);
+        _bitsleft = 0;
     }
     
     template <typename F>
@@ -52,6 +53,7 @@ public:
         s[2] = splitmix64(&x);
         x = entropy();
         s[3] = splitmix64(&x);
+        _bitsleft = 0;
     }
     
     void seed(const uint64_t entropy[4]) {
@@ -59,6 +61,7 @@ public:
         s[1] = entropy[1];
         s[2] = entropy[2];
         s[3] = entropy[3];
+        _bitsleft = 0;
     }
     
     uint64_t rand64() {
-- 
2.43.0


From 4a9763d6c25dda22b8e9520000176e0e89c48ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 088/151] fix: bounded integers were biased towards small
 values when the bound exceeded three quarters of the range

---
 geomc/random/Random.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index b5a053e..8315632 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -11,9 +11,6 @@
 
 #include <geomc/random/Random.h>
 
-#define INT_SIGNBIT       (1 << std::numeric_limits<int>::digits)
-#define LONG_SIGNBIT      (1L << std::numeric_limits<long>::digits)
-#define LONG_LONG_SIGNBIT (1LL << std::numeric_limits<long long>::digits)
 
 using namespace std;
 using namespace geom;
@@ -194,8 +191,7 @@ template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
         val = bits % hi;
         lo = bits - val;
         //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & INT_SIGNBIT) & ~(lo+(hi-1)) );
+    } while (lo + (hi - 1) < lo);
     return val;
 }
 
@@ -217,8 +213,7 @@ template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
         val = bits % hi;
         lo = bits - val;
         //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_SIGNBIT) & ~(lo+(hi-1)) );
+    } while (lo + (hi - 1) < lo);
     return val;
 }
 
@@ -240,8 +235,7 @@ template <> unsigned long long Random::rand<unsigned long long>(unsigned long lo
         val = bits % hi;
         lo = bits - val;
         //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_LONG_SIGNBIT) & ~(lo+(hi-1)) );
+    } while (lo + (hi - 1) < lo);
     return val;
 }
 
-- 
2.43.0


From b07aa4df355aed8e44bd2404517326b446cddd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 089/151] fix: choosing an integer from an empty range divided
 by zero

---
 geomc/random/Random.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 8315632..24f3f25 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -185,6 +185,7 @@ template <> double Random::rand<double>() {
 
 template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
     unsigned int bits, val, lo;
+    if (hi == 0) return 0;
 
     do {
         bits = rand<unsigned int>();
@@ -207,6 +208,7 @@ template <> int Random::rand<int>(int hi) {
 
 template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
     unsigned long bits, val, lo;
+    if (hi == 0) return 0;
 
     do {
         bits = rand<unsigned long>();
@@ -229,6 +231,7 @@ template <> long Random::rand<long>(long hi) {
 
 template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
     unsigned long long bits, val, lo;
+    if (hi == 0) return 0;
 
     do {
         bits = rand<unsigned long long>();
-- 
2.43.0


From 8ae63247340b6f1ced669acf87c353a82596cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 090/151] fix: ranges of integers wider than the positive half
 of the type overflowed

---
 geomc/random/Random.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 24f3f25..703d303 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -199,7 +199,7 @@ template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
 
 template <> int Random::rand<int>(int hi) {
     if (hi < 0) {
-        return -rand<unsigned int>(-hi);
+        return -rand<unsigned int>(-(unsigned int) hi);
     } else {
         return rand<unsigned int>(hi);
     }
@@ -222,7 +222,7 @@ template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
 
 template <> long Random::rand<long>(long hi) {
     if (hi < 0) {
-        return -rand<unsigned long>(-hi);
+        return -rand<unsigned long>(-(unsigned long) hi);
     } else {
         return rand<unsigned long>(hi);
     }
@@ -245,7 +245,7 @@ template <> unsigned long long Random::rand<unsigned long long>(unsigned long lo
 
 template <> long long Random::rand<long long>(long long hi) {
     if (hi < 0) {
-        return -rand<unsigned long long>(-hi);
+        return -rand<unsigned long long>(-(unsigned long long) hi);
     } else {
         return rand<unsigned long long>(hi);
     }
@@ -271,13 +271,13 @@ template <> double Random::rand<double>(double hi) {
 
 template <> int Random::rand<int>(int lo, int hi) {
     int lo1 = min(hi,lo);
-    return rand<int>(max(hi,lo) - lo1) + lo1;
+    return (unsigned int) lo1 + rand<unsigned int>((unsigned int) max(hi,lo) - (unsigned int) lo1);
 }
 
 
 template <> long long Random::rand<long long>(long long lo, long long hi) {
     long long lo1 = min(hi,lo);
-    return rand<long long>(max(hi,lo) - lo1) + lo1;
+    return (unsigned long long) lo1 + rand<unsigned long long>((unsigned long long) max(hi,lo) - (unsigned long long) lo1);
 }
 
 
-- 
2.43.0


From 1ae8a35f43f3811e8bcaa4e348a881da51c9aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 091/151] fix: unsigned long draws had only 32 random bits

---
 geomc/random/Random.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 703d303..eaa3ee4 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -7,6 +7,7 @@
 
 #include <assert.h>
 #include <algorithm>
+#include <climits>
 #include <limits>
 
 #include <geomc/random/Random.h>
-- 
2.43.0


From 436c8f544b780309cd4bf2b8bdf7784ca1a8f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 092/151] fix: points in a ball of given radius were
 concentrated at its center

---
 geomc/random/RandomTools.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index d7c2d60..8838cc4 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -177,8 +177,7 @@ public:
      */
     template <index_t N> 
     inline Vec<T,N> solidball(T radius) {
-        T r = std::pow(this->rng->template rand<T>(), ((T)1)/N);
-        return solidball<N>() * r * radius;
+        return solidball<N>() * radius;
     }
     
     /**
-- 
2.43.0


From aa419bf4e5a8158a08b142f048db0df2c0c845e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 093/151] fix: shell samples could lie inside the inner radius

---
 geomc/random/RandomTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 8838cc4..9c9cdae 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -191,7 +191,7 @@ public:
      */
     template <index_t N> 
     Vec<T,N> shell(T minradius, T maxradius) {
-        T radius = std::pow(this->rng->template rand<T>(minradius/maxradius, 1), ((T)1)/N);
+        T radius = std::pow(this->rng->template rand<T>(std::pow(minradius/maxradius, (T)N), 1), ((T)1)/N);
         return this->unit<N>() * radius * maxradius;
     }
     
-- 
2.43.0


From 95c9245cf40c480118c10cab79b4ee0d3bb430d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 094/151] fix: cap about the negative z direction was sampled
 about the positive one

---
 geomc/random/RandomTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 9c9cdae..69d0e02 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -271,7 +271,7 @@ public:
     inline Vec<T,3> cap(Vec<T,3> dir, T half_angle_radians) {
         Vec<T,3> v = this->cap(half_angle_radians);
         Vec<T,3> rotAxis = Vec<T,3>(0,0,1).cross(dir);
-        if (rotAxis.is_zero()) return v;
+        if (rotAxis.is_zero()) return dir.z < 0 ? -v : v;
         return v.rotate(rotAxis, std::acos(dir.z/dir.mag()));
     }
     
-- 
2.43.0


From 6e12f774f3860d6143582d9e61fd22e2a9bd72a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 095/151] fix: solid cap samples could lie inside the inner
 radius

---
 geomc/random/RandomTools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 69d0e02..3500fae 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -285,7 +285,8 @@ public:
      * distributed throughout the volume.
      */
     inline Vec<T,3> solidcap(Vec<T,3> dir, T half_angle_radians, T minR, T maxR) {
-        T r = this->rng->template rand<T>(minR / maxR, 1);
+        T k = minR / maxR;
+        T r = this->rng->template rand<T>(k * k * k, 1);
         r = maxR * std::cbrt(r);
         return r * this->cap(dir, half_angle_radians);
     }
-- 
2.43.0


From c8c35760c3f6e76403ca1d9115ef43349a46a04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 096/151] fix: solid arc samples could lie inside the inner
 radius

---
 geomc/random/RandomTools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 3500fae..948a7f7 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -376,7 +376,8 @@ public:
     Vec<T,2> solidarc(T min_radians, T max_radians,
                       T min_radius,  T max_radius) {
         T angle = this->rng->template rand<T>(min_radians, max_radians);
-        T len   = max_radius * std::sqrt(this->rng->template rand<T>(min_radius / max_radius, 1));
+        T k     = min_radius / max_radius;
+        T len   = max_radius * std::sqrt(this->rng->template rand<T>(k * k, 1));
         return Vec<T,2>(len,angle).from_polar();
     }
     
-- 
2.43.0


From 77bbf9aba3776d7750f1b3cc8dac3ab1b96af575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 097/151] fix: unit vector of a sample exactly at the origin
 was not a number

---
 geomc/random/RandomTools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 948a7f7..0aeda5d 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -137,8 +137,8 @@ public:
                 // pick a point inside the unit cube
                 v[i] = this->rng->template rand<T>(-1,1);
             }
-            // discard points outside the unit ball
-        } while (v.mag2() > 1);
+            // discard points outside the unit ball, and its center
+        } while (v.mag2() > 1 || v.mag2() == 0);
         return v.unit(); // return point on ball surface
     }
     
-- 
2.43.0


From 5caf2bd43d3d4f2500d45f146e762b7949625174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 098/151] fix: slicing a box gave points of the wrong dimension

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index cb2192a..f9eb36b 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -244,8 +244,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
-- 
2.43.0


From 8af378260d48d53372580bf1fba78e777e4dc915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 099/151] fix: excluding a box from another always gave the
 empty box and changed the operand

---
 geomc/shape/Rect.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index f9eb36b..6b8918c 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -415,7 +415,7 @@ public:
      * @param other Range to be excluded from the range of this `Rect`.
      * @return A new `Rect` whose range does not overlap `other`.
      */
-    Rect<T,N> operator-(const Rect<T,N>& other) {
+    Rect<T,N> operator-(const Rect<T,N>& other) const {
         // todo: instead of returning empty() when an interval is split in two,
         //   choose the larger
         // todo: make an exclude_signed() and handle empty-interval case,
@@ -423,7 +423,8 @@ public:
         //   •   a  - (-b) =   a + b
         //   • (-a) -   b  = -(a + b)
         //   • (-a) - (-b) = -(a - b)
-        Rect<T,N> out;
+        if (other.contains(*this)) return Rect<T,N>();
+        Rect<T,N> out = *this;
         for (index_t i = 0; i < N; ++i) {
             T b_lo = ptype::iterator(other.lo)[i];
             T a_lo = ptype::iterator(lo)[i];
@@ -432,8 +433,8 @@ public:
             if (b_lo > b_hi) continue;
             bool pick_lo = b_lo < a_lo;
             bool pick_hi = b_hi > a_hi;
-            ptype::iterator(lo)[i] = pick_lo ? a_hi : std::min(a_hi, b_lo);
-            ptype::iterator(hi)[i] = pick_hi ? a_lo : std::max(b_hi, a_lo);
+            ptype::iterator(out.hi)[i] = pick_lo ? a_hi : std::min(a_hi, b_lo);
+            ptype::iterator(out.lo)[i] = pick_hi ? a_lo : std::max(b_hi, a_lo);
         }
         return out;
     }
-- 
2.43.0


From 3c6ff5dd297b6a4a9a5797d0c6a5b0d595102c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 100/151] fix: a box was said not to contain an empty box

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 6b8918c..efc4913 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -600,11 +600,11 @@ public:
      */
     bool contains(const Rect<T,N>& box) const {
         for (index_t axis = 0; axis < N; axis++) {
-            // inner box must not protrude along any axis
+            // inner box must not protrude along any axis (an empty box never does)
             if (ptype::iterator(box.lo)[axis] < ptype::iterator(lo)[axis] or
                 ptype::iterator(box.hi)[axis] > ptype::iterator(hi)[axis])
             {
-                return false;
+                return box.is_empty();
             }
         }
         return true;
-- 
2.43.0


From 7f2146dbeaab87999b9c7a91a00a3b0cf472f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 101/151] fix: boxes sharing only boundary points were said not
 to intersect, and empty boxes to intersect

---
 geomc/shape/Rect.h | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index efc4913..24827eb 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -625,14 +625,7 @@ public:
      * @return `true` if and only if there is a point overlapped by both `Rect`s.
      */
     bool intersects(const Rect<T,N>& box) const {
-        for (index_t axis = 0; axis < N; axis++) {
-            // disjoint on this axis?
-            if (ptype::iterator(hi)[axis]     <= ptype::iterator(box.lo)[axis] or
-                ptype::iterator(box.hi)[axis] <= ptype::iterator(lo)[axis]) {
-                return false;
-            }
-        }
-        return true;
+        return not ((*this) & box).is_empty();
     }
 
     /**
-- 
2.43.0


From af4812b4bb674a7e442b185cc4d9d8e27aed46b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 102/151] fix: center of an integer box depended on the sign of
 its coordinates

---
 geomc/shape/Rect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 24827eb..eba2572 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -647,7 +647,7 @@ public:
      * @return The center point of this region.
      */
     point_t center() const {
-        return (hi + lo + endpoint_measure) / 2;
+        return lo + (hi - lo + endpoint_measure) / 2;
     }
 
     /**
-- 
2.43.0


From d2283634ed731d84d72ed51dce443f26354622f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 103/151] fix: integer boxes could not be given dimensions of
 the other parity

---
 geomc/shape/Rect.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index eba2572..95e38fd 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -681,11 +681,7 @@ public:
         // [0|1|2|3|4]
         // [0|1|2|3]
 
-        // xxx fixme for int types
-        dim = std::abs(dim);
-        point_t diff = (dim - dimensions()) / 2;
-        lo = lo - diff;
-        hi = hi + diff;
+        *this = from_center(center(), std::abs(dim));
     }
 
     /**
-- 
2.43.0


From a3e327008e4c009d5d08bfb14e4859f949532883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 104/151] fix: abs() of a box did not compile

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 95e38fd..4c6ea1f 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -713,8 +713,8 @@ public:
      */
     Rect<T,N> abs() const {
         Rect<T,N> out;
-        T* lo_i     = ptype::iterator(lo);
-        T* hi_i     = ptype::iterator(hi);
+        const T* lo_i = ptype::iterator(lo);
+        const T* hi_i = ptype::iterator(hi);
         T* out_lo_i = ptype::iterator(out.lo);
         T* out_hi_i = ptype::iterator(out.hi);
         for (index_t i = 0; i < N; ++i) {
-- 
2.43.0


From 8fbc214e056f6f4bab5e4f72bf0707f76ab06455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 105/151] fix: a point was projected to the nearest corner of a
 box instead of its surface

---
 geomc/shape/Rect.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 4c6ea1f..69525d3 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -838,15 +838,24 @@ public:
      * `clip()` leaves `p` unchanged if it lies in the Rect's interior.
      */
     point_t project(point_t p) const {
+        if (not contains(p)) return clip(p);
         T* p_i = ptype::iterator(p);
         const T* lo_i = ptype::iterator(lo);
         const T* hi_i = ptype::iterator(hi);
+        index_t axis = 0;
+        T best = std::numeric_limits<T>::max();
+        T face = lo_i[0];
         for (index_t i = 0; i < N; ++i) {
-            // for each coordinate, find the extrumum which is closest to p
-            T d_lo = std::abs(p_i[i] - lo_i[i]);
-            T d_hi = std::abs(p_i[i] - hi_i[i]);
-            p_i[i] = (d_lo < d_hi) ? lo_i[i] : hi_i[i];
+            // find the face which is closest to p, and move p to it
+            T d_lo = p_i[i] - lo_i[i];
+            T d_hi = hi_i[i] - p_i[i];
+            if (std::min(d_lo, d_hi) < best) {
+                best = std::min(d_lo, d_hi);
+                axis = i;
+                face = (d_lo < d_hi) ? lo_i[i] : hi_i[i];
+            }
         }
+        p_i[axis] = face;
         return p;
     }
 
-- 
2.43.0


From 1c6f0007fc0c23352fb2d781bb6b9adecde95cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 106/151] fix: signed distance to a 1-D box did not compile

---
 geomc/shape/Rect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 69525d3..8de3ffa 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -864,7 +864,7 @@ public:
      */
     T sdf(point_t p) const {
         T sign = contains(p) ? -1 : 1;
-        return sign * project(p).dist(p);
+        return sign * ptype::mag(p - project(p));
     }
 
     /**
-- 
2.43.0


From 554ef3e3b9933b365ee67ccba73bd94c5881a0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 107/151] fix: contact vector of real-valued boxes was rounded
 to an integer

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 8de3ffa..7ed3cd9 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -910,8 +910,8 @@ public:
         point_t v;
         bool overlap[N];
         bool all_overlap = true;
-        index_t shortest_axis;
-        index_t shortest_val = std::numeric_limits<T>::max();
+        index_t shortest_axis = 0;
+        T shortest_val = std::numeric_limits<T>::max();
         for (index_t i = 0; i < N; ++i) {
             auto r0 = this->axis(i);
             auto r1 = other.axis(i);
-- 
2.43.0


From 75642dd1c704a7748b666fe282d15bb59af8da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 108/151] fix: rays hit empty boxes

---
 geomc/shape/Rect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 7ed3cd9..fe280a0 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -958,6 +958,7 @@ public:
     /// Ray-shape intersection test.
     Rect<T,1> intersect(const Ray<T,N>& r) const {
         Rect<T,1> interval = Rect<T,1>::full;
+        if (is_empty()) return Rect<T,1>();
         for (index_t axis = 0; axis < N; ++axis) {
             T dx   = ptype::iterator(r.direction)[axis];
             T o_i  = ptype::iterator(r.origin)[axis];
-- 
2.43.0


From 19d5afd6e180cb839054359e0d8b4144d6b2ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 109/151] fix: Extruded: normal() did not compile

---
 geomc/shape/Extruded.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Extruded.h b/geomc/shape/Extruded.h
index 72ce502..b6398a0 100644
--- a/geomc/shape/Extruded.h
+++ b/geomc/shape/Extruded.h
@@ -104,7 +104,7 @@ public:
                 T wall_dist = std::abs(base.sdf(p_base));
                 if (cap_dist < wall_dist) {
                     // the cap is nearest. use its normal
-                    return {Vec<T,N-1>{}, (cap_h >= height.hi) ? 1 : -1};
+                    return {Vec<T,N-1>{}, (T)((cap_h >= height.hi) ? 1 : -1)};
                 }
             }
             // the wall is nearest, use its normal
@@ -113,7 +113,7 @@ public:
             // p beyond the top or bottom cap
             if (inside_base) {
                 // p directly above or below a cap
-                return {Vec<T,N-1>{}, (h >= height.hi) ? 1 : -1};
+                return {Vec<T,N-1>{}, (T)((h >= height.hi) ? 1 : -1)};
             } else {
                 // p is outside the base shape
                 Vec<T,N> cap_pt {
-- 
2.43.0


From dc856da71d99df19f8bb6233e9418fb32bfec9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 110/151] fix: Capsule: nearest_axis_point, project, clip and
 normal did not compile

---
 geomc/shape/Capsule.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index 3765eb8..96b52d0 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -61,7 +61,7 @@ public:
         point_t v    = p  - p0;
         point_t axis = p1 - p0;
         T frac = v.dot(axis) / axis.mag2();
-        return p0 + axis * clamp(frac, 0, 1);
+        return p0 + axis * clamp<T>(frac, 0, 1);
     }
     
     /**
-- 
2.43.0


From 096280f92891e10ecbca810d979b849ba69816a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 111/151] fix: Capsule: distances, projections and normals were
 not numbers if the endpoints coincide

---
 geomc/shape/Capsule.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index 96b52d0..622d6c4 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -60,7 +60,10 @@ public:
     point_t nearest_axis_point(point_t p) const {
         point_t v    = p  - p0;
         point_t axis = p1 - p0;
-        T frac = v.dot(axis) / axis.mag2();
+        T len2 = axis.mag2();
+        // if the endpoints coincide, the axis is a point
+        if (len2 == 0) return p0;
+        T frac = v.dot(axis) / len2;
         return p0 + axis * clamp<T>(frac, 0, 1);
     }
     
@@ -81,10 +84,7 @@ public:
     
     /// Signed distance function.
     T sdf(point_t p) const {
-        point_t b    = p  - p0;
-        point_t axis = p1 - p0;
-        T frac = clamp<T>(b.dot(axis) / axis.mag2(), 0, 1);
-        return (b - frac * axis).mag() - radius;
+        return p.dist(nearest_axis_point(p)) - radius;
     }
     
     /**
-- 
2.43.0


From f64a89e8ef8c394a9e5bac5ee4ba9bde00ab5e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 112/151] fix: Capsule: projections and normals of points on
 the axis were not numbers

---
 geomc/shape/Capsule.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index 622d6c4..e423925 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -57,6 +57,21 @@ public:
         return sdf(p) <= 0;
     }
     
+    /// Direction away from the axis at `p`. If `p` lies on the axis, choose any perpendicular.
+    point_t radial_direction(point_t p) const {
+        point_t v = p - nearest_axis_point(p);
+        if (v.is_zero()) {
+            point_t a = axis();
+            index_t k = 0;
+            for (index_t i = 1; i < N; ++i) {
+                if (std::abs(a[i]) < std::abs(a[k])) k = i;
+            }
+            v[k] = 1;
+            if (not a.is_zero()) v -= v.project_on(a);
+        }
+        return v;
+    }
+    
     point_t nearest_axis_point(point_t p) const {
         point_t v    = p  - p0;
         point_t axis = p1 - p0;
@@ -91,14 +106,12 @@ public:
      * Return the point `p` orthogonally projected onto the surface of the shape.
      */
     point_t project(point_t p) const {
-        point_t axis_pt = nearest_axis_point(p);
-        point_t v = p - axis_pt;
-        return axis_pt + v.with_length(radius);
+        return nearest_axis_point(p) + radial_direction(p).with_length(radius);
     }
     
     /// Outward-facing direction.
     point_t normal(point_t p) const {
-        return ptype::unit(p - nearest_axis_point(p));
+        return ptype::unit(radial_direction(p));
     }
     
     /*
-- 
2.43.0


From b517c5da7ef1286844fb45ebbb362cf7c4645924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 113/151] fix: Sphere: the projection and normal of the center
 were not numbers

---
 geomc/shape/Sphere.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 01f5821..2da1904 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -90,12 +90,15 @@ public:
      * Return the point `p` orthogonally projected onto the surface of the shape.
      */
     inline point_t project(point_t p) const {
-        return ptype::unit(p - center) * r + center;
+        return normal(p) * r + center;
     }
     
     /// Outward-facing direction.
     inline point_t normal(point_t p) const {
-        return ptype::unit(p - center);
+        point_t v = p - center;
+        // all directions are equally good at the center
+        if (v == point_t((T)0)) v = point_t((T)1);
+        return ptype::unit(v);
     }
     
     /// Shape-ray intersection test.
-- 
2.43.0


From 925fdcc1753c194b5f754f857edcf85fe62d4606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 114/151] fix: Cylinder: points of the far cap were not
 contained, and points beyond the wall were by cancellation

---
 geomc/shape/Cylinder.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index e1cb579..1d91e4f 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -59,12 +59,10 @@ class Cylinder:
     bool contains(Vec<T,N> p) const {
         Vec<T,N> a = p1 - p0;
         Vec<T,N> b = p  - p0;
-        T b2 = b.mag2();
         T a2 = a.mag2();
         T d  = a.dot(b);
-        T x2 = d * d / a2;
-        bool in_r = b2 - x2 <= radius * radius;
-        bool in_caps = x2 < a2 and d >= 0;
+        bool in_r = (b - a * (d / a2)).mag2() <= radius * radius;
+        bool in_caps = d <= a2 and d >= 0;
         return in_r and in_caps;
     }
     
-- 
2.43.0


From 2704ad25f2d62c0ad899ee97aa5107fc456b2d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 115/151] fix: Cylinder: the signed distance was zero
 everywhere inside, and not a number next to the axis

---
 geomc/shape/Cylinder.h | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 1d91e4f..fec05ee 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -78,26 +78,19 @@ class Cylinder:
         Vec<T,N> a = p1 - p0;
         // vec from "base" of cylinder to p
         Vec<T,N> b = p - p0;
-        T b2 = b.mag2(); // squared length of b (hypoteneuse)
         T a2 = a.mag2(); // squared length of axis (side 1)
         T d  = a.dot(b);
         // fractional distance along axis from 0 to 1
         T s  = d / a2;
-        // square of distance from the base to the projected axis point
-        T x2 = d * s;
-        // signed distance of p to the surface of the cylinder
-        T r = std::sqrt(b2 - x2) - radius;
-        // signed fractional distance along the axis to the nearest cap
-        s = std::max(-s, (s - 1));
-        // sdf is negative (inside shape) iff (s, r) in the negative quadrant
-        T sign = (s < 0 and r < 0) ? -1 : 1;
-        // clamped coordinates, to project orthogonally to the wall/cap
-        s = std::max(s, (T)0);
-        r = std::max(r, (T)0);
-        // squared axis-parallel distance to cap
-        x2 = s * s * a2;
-        // signed distance to the surface point
-        return sign * std::sqrt(r * r + x2);
+        // signed distance of p to the wall of the cylinder
+        T r = (b - s * a).mag() - radius;
+        // signed distance along the axis to the nearest cap
+        T h = std::max(-s, (s - 1)) * std::sqrt(a2);
+        // if p is inside the wall or between the caps,
+        // the closest (or only exterior) surface is the one with the larger distance
+        if (r < 0 or h < 0) return std::max(r, h);
+        // otherwise p is closest to the rim
+        return std::sqrt(r * r + h * h);
     }
     
     Vec<T,N> project(Vec<T,N> p) const {
-- 
2.43.0


From e6673157eb9e0d6cd24610aa912cc9a010156c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 116/151] fix: Cylinder: projections and normals of points on
 or next to the axis were not numbers

---
 geomc/shape/Cylinder.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index fec05ee..ec67363 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -93,22 +93,34 @@ class Cylinder:
         return std::sqrt(r * r + h * h);
     }
     
+    /// Unit direction of the vector `r` away from the axis. If `r` is zero, choose any
+    /// perpendicular to the axis.
+    Vec<T,N> radial_direction(Vec<T,N> r) const {
+        if (r.is_zero()) {
+            Vec<T,N> a = p1 - p0;
+            index_t k = 0;
+            for (index_t i = 1; i < N; ++i) {
+                if (std::abs(a[i]) < std::abs(a[k])) k = i;
+            }
+            r[k] = 1;
+            r -= r.project_on(a);
+        }
+        return r.unit();
+    }
+    
     Vec<T,N> project(Vec<T,N> p) const {
         // axis of the cylinder
         Vec<T,N> a = p1 - p0;
         // vec from "base" of cylinder to p
         Vec<T,N> b = p - p0;
-        T b2 = b.mag2(); // squared length of b (hypoteneuse)
         T a2 = a.mag2(); // squared length of axis (side 1)
         T d  = a.dot(b);
         // fractional distance along axis from 0 to 1
         T s  = d / a2;
-        // square of distance from the base to the projected axis point
-        T x2 = d * s;
         // distance of p to the axis
-        T r_dist = std::sqrt(b2 - x2);
+        T r_dist = (b - s * a).mag();
         // unit length radial vector
-        Vec<T,N> r = (p - p0 - s * a) / r_dist;
+        Vec<T,N> r = radial_direction(b - s * a);
         // adjust `r` and `s` to lie on the cylinder boundary
         if (s < 0 or s > 1) {
             // p projects onto the cap
@@ -130,17 +142,14 @@ class Cylinder:
         auto a = p1 - p0;
         // vec from "base" of cylinder to p
         auto b = p - p0;
-        T b2 = b.mag2(); // squared length of b (hypoteneuse)
         T a2 = a.mag2(); // squared length of axis (side 1)
         T d  = a.dot(b);
         // fractional distance along axis from 0 to 1
         T s  = d / a2;
-        // square of distance from the base to the projected axis point
-        T x2 = d * s;
         // distance of p to the axis
-        T r_dist = std::sqrt(b2 - x2);
+        T r_dist = (b - s * a).mag();
         // unit length radial vector
-        auto r = (p - p0 - s * a) / r_dist;
+        Vec<T,N> r = radial_direction(b - s * a);
         // choose the outward direction
         Vec<T,N> n;
         if (s < 0 or s > 1) {
-- 
2.43.0


From 5449093f06eb3e8855ff0fb5bf2f166566dafd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 117/151] fix: Cylinder: normals beyond the far rim pointed
 away from the near rim

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index ec67363..b9fbed1 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -156,7 +156,7 @@ class Cylinder:
             // p projects onto the cap
             if (r_dist > radius) {
                 // p projects onto the rim of the cap
-                n = p - (r * radius + p0);
+                n = p - (r * radius + (s < 0 ? p0 : p1));
             } else {
                 // p projects to the cap face; normal is axial
                 n = s < 0 ? -a : a;
-- 
2.43.0


From a08abde1a6df9561e8611db73536ca0877dacbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 118/151] fix: Dilated: wrapping a shape left the dilation
 uninitialised

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 8757cd9..bdbd5f3 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -66,7 +66,7 @@ public:
     Dilated():dilation((T)0) {}
     
     /// Wrap `s` with zero dilation.
-    Dilated(const Shape& s):shape(s) {}
+    Dilated(const Shape& s):shape(s), dilation((T)0) {}
     
     /// Dilate `s` by the amount `dilation`.
     Dilated(const Shape& s, T dilation):shape(s), dilation(dilation) {}
-- 
2.43.0


From 9c2708a09bb8c6ed40bf08c2bba4f9ba17680e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 119/151] fix: Dilated: points on the surface were not
 contained

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index bdbd5f3..c791f59 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -77,7 +77,7 @@ public:
     
     /// Point containment test.
     bool contains(Vec<T,N> p) const {
-        return sdf(p) < 0;
+        return sdf(p) <= 0;
     }
     
     /// Signed distance function.
-- 
2.43.0


From 12d58d537b711fe08d800879bd4b5ee643eeb8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 120/151] fix: dilate() did not compile

---
 geomc/shape/Dilated.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index c791f59..4beb744 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -126,7 +126,7 @@ public:
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s, std::max(dilation, 0));
+    return Dilated<Shape>(s, std::max<typename Shape::elem_t>(dilation, 0));
 }
 
 /**
@@ -135,7 +135,7 @@ inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s.shape, std::max(s.dilation + dilation, 0));
+    return Dilated<Shape>(s.shape, std::max<typename Shape::elem_t>(s.dilation + dilation, 0));
 }
 
 /**
@@ -160,7 +160,7 @@ inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
  */
 template <typename T, index_t N>
 inline Sphere<T,N> dilate(const Sphere<T,N>& s, T dilation) {
-    return Sphere<T,N>(s.center, std::max(s.r + dilation, 0));
+    return Sphere<T,N>(s.center, std::max<T>(s.r + dilation, 0));
 }
 
 /**
-- 
2.43.0


From 8e95dc58cc0e576485f5873163581ef6555613d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 121/151] fix: dilate(Plane) moved the plane against its
 normal, shrinking the half space

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 4beb744..0d4d386 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -147,7 +147,7 @@ inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dil
  */
 template <typename T, index_t N>
 inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
-    p.d += dilation;
+    p.d -= dilation;
     return p;
 }
 
-- 
2.43.0


From 8cfebc1e92787b640aa8226d4e03273b60027a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 122/151] fix: Simplex: constant points could not be projected,
 nor could extruded or dilated simplices project

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index e9d912f..37cfadf 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -468,7 +468,7 @@ public:
     }
     
     
-    Vec<T,N> project(Vec<T,N>& p, Simplex<T,N>* face=nullptr) const {
+    Vec<T,N> project(Vec<T,N> p, Simplex<T,N>* face=nullptr) const {
         detail::SimplexProjection<T,N> proj {
             *this,
             p,
-- 
2.43.0


From 42195b5f7cbfd125a0fd79115266966df8d0bccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 123/151] fix: Simplex: normals were not unit length, and
 pointed inward for interior points

---
 geomc/shape/Simplex.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 37cfadf..bc57b18 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -464,7 +464,8 @@ public:
             p,
             detail::ProjectionOp::PROJECT
         };
-        return proj.normal_direction();
+        // (the normal direction of the projection is the side of the face that `p` is on)
+        return proj.normal_direction().unit() * (proj.result.contains ? -1 : 1);
     }
     
     
-- 
2.43.0


From 37a57e17247ee8123178f4be2e5e3b9a1b88945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 124/151] fix: Cylinder: support points along the axis were not
 numbers or outside the shape

---
 geomc/shape/Cylinder.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index b9fbed1..c01d7ec 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -194,7 +194,14 @@ class Cylinder:
     
     Vec<T,N> convex_support(Vec<T,N> d) const {
         Vec<T,N> a = p1 - p0;
-        Vec<T,N> perp = (d - d.project_on(a)).unit() * radius;
+        Vec<T,N> perp = d - d.project_on(a);
+        // subtract again, in case `d` was nearly parallel to the axis and
+        // rounding error left `perp` with an axial component
+        perp -= perp.project_on(a);
+        constexpr T eps = 16 * std::numeric_limits<T>::epsilon();
+        T m2 = perp.mag2();
+        // if `d` is parallel to the axis, then all points on the cap are equally far
+        perp = (m2 <= eps * eps * d.mag2()) ? Vec<T,N>() : perp * (radius / std::sqrt(m2));
         return (d.dot(a) > 0 ? p1 : p0) + perp;
     }
     
-- 
2.43.0


From 7c0fc80a6c079fab96930c783b94c0853d2def94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 125/151] fix: Cylinder: rays parallel to the axis could hit or
 miss wrongly by cancellation

---
 geomc/shape/Cylinder.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index c01d7ec..60bf228 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -210,16 +210,20 @@ class Cylinder:
         Vec<T,N> a = p1 - p0;
         Vec<T,N> b = ray.origin - p0;
         T a2 = a.mag2();
-        T b2 = b.mag2();
         T d  = a.dot(b);
         T s  = d / a2;  // fractional projection of ray origin onto axis
-        T x2 = d * s;
         T m  = ray.direction.dot(a);
         
+        // the parts of the ray that are perpendicular to the axis
+        // (subtracting squared lengths instead would cancel catastrophically
+        // if the ray is nearly parallel to the axis)
+        Vec<T,N> b_perp = b - s * a;
+        Vec<T,N> v_perp = ray.direction - (m / a2) * a;
+        
         // construct quadratic coeffs
-        T k0 = ray.direction.mag2() - m * m / a2;
-        T k1 = 2 * (b.dot(ray.direction) - d * m / a2);
-        T k2 = b2 - x2 - radius * radius;
+        T k0 = v_perp.mag2();
+        T k1 = 2 * b_perp.dot(v_perp);
+        T k2 = b_perp.mag2() - radius * radius;
         
         // setup for cylinder intersection
         T roots[2];
-- 
2.43.0


From 846cf53485962ae926b36b0a40b9b6db776b17d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 126/151] fix: Simplex: rays touching a face's plane at a point
 hit the simplex wherever the other faces are

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index bc57b18..c79b07f 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -236,7 +236,7 @@ public:
             if (linear_solve(m, 2, B)) {
                 // intersect all the ranges of s for which 0 <= w_i <= 1.
                 Rect<T,1> interval = Rect<T,1>::full;
-                for (index_t i = 0; i < N + 1 and interval.hi > interval.lo; ++i) {
+                for (index_t i = 0; i < N + 1 and not interval.is_empty(); ++i) {
                     // w_i = p_i + k_i * s
                     // solve for w_i = 0 and w_i = 1:
                     T p_i = B[0][i];
-- 
2.43.0


From 57317b641408aae1329dd5a11a9e46db6cc62230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 127/151] fix: tracing N-1 dimensional simplexes read past the
 solution and did not solve for the surface parameters

---
 geomc/shape/Simplex.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index c79b07f..3d55f06 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -572,8 +572,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     
     // linear solve
     Vec<T,N> x = ray.origin - verts[0];
-    index_t skip = uv ? 0 : N - 1;
-    if (not linear_solve(bases, 1, &x, skip)) return false;
+    if (not linear_solve(bases, 1, &x, 0)) return false;
     
     // inside simplex?
     T sum = 0;
@@ -584,7 +583,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     if (sum > 1) return false;
     
     // output result
-    *s  = x[N];
+    *s  = x[N - 1];
     if (uv) *uv = x.template resized<N-1>();
     return true;
 }
-- 
2.43.0


From a5be8f1c28c4fdf48b67fe2e1d8ff7efffff4cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 128/151] fix: Oriented<Rect>::volume was negative under a
 mirroring transform

---
 geomc/shape/Oriented.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index 7dda825..7b50f98 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -229,7 +229,7 @@ public:
                 mx(j,i) = s * xf.mat(j,i);
             }
         }
-        return det_destructive(mx.data_begin(), N);
+        return std::abs(det_destructive(mx.data_begin(), N));
     }
     
 }; // class Oriented<Rect>
-- 
2.43.0


From 9a3c6160d1c1ab09bee892bdcde29b9a2c356132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 129/151] fix: Plane::apply and apply_inverse moved the plane
 to the wrong side of the origin

---
 geomc/shape/Plane.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index a134e65..31d5f49 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -150,10 +150,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d; // a point on the plane
+        Vec<T,N> p0 = origin(); // a point on the plane
         Vec<T,N> p1 = xf.apply(p0); // the new position of that point
         normal = xf.apply_normal(normal).unit(); // construct a plane with transformed normal
-        d = p1.dot(normal); // and transformed position
+        d = -p1.dot(normal); // and transformed position
     }
     
     /**
@@ -161,10 +161,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply_inverse(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d;
+        Vec<T,N> p0 = origin();
         Vec<T,N> p1 = xf.apply_inverse(p0);
         normal = xf.apply_inverse_normal(normal).unit();
-        d = p1.dot(normal);
+        d = -p1.dot(normal);
     }
     
     /**
-- 
2.43.0


From 430746402799af85dc9346399d445f3d8daf5082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 130/151] fix: Plane::intersects(Sphere) was true for spheres
 above the plane, not for those crossing it

---
 geomc/shape/Plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 31d5f49..2a349e0 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -182,7 +182,7 @@ public:
      * @return `true` if and only if this plane passes through `s`.
      */
     inline bool intersects(const Sphere<T,N> &s) const {
-        return distance(s.center) >= s.r;
+        return std::abs(distance(s.center)) <= s.r;
     }
     
     /**
-- 
2.43.0


From 94b5e42e26f217473aca4525eb5b733cbd8d26b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 131/151] fix: Plane::intersects was false for every convex
 hull

---
 geomc/shape/Plane.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 2a349e0..f9b5d7c 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -196,11 +196,12 @@ public:
         bool negative;
         for (index_t i = 0; i < npts; i++){
             T dist = distance(hull[i]);
+            if (dist == 0) return true;
             if (i > 0){
                 // if a point lies on the plane, or another point lies on the
                 // other side of the plane, then this shape crosses the plane.
-                if (dist == 0 || ((dist < 0) != negative)){
-                    return false;
+                if ((dist < 0) != negative){
+                    return true;
                 }
             } else {
                 negative = dist < 0;
-- 
2.43.0


From 7c6a8ebc02185cff44dd1f6910e6c03d78e6f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 132/151] fix: Simplex::is_facing ignored the weights of some
 vertices

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 3d55f06..3bd7fc1 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -320,7 +320,7 @@ public:
                 
                 // check that the coordinates of `p` are inside the simplex
                 T sum = 0;
-                for (index_t i = n_null; i < n_bases; ++i) {
+                for (index_t i = n_null; i < N; ++i) {
                     sum += x[i];
                     if (x[i] < 0 or sum > 1) return false;
                 }
-- 
2.43.0


From d3130f10d0765b3080982e87be1c5ddef6df368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 133/151] fix: Simplex::measure was negative for inside-out
 simplices

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 3bd7fc1..dda4e1f 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -383,7 +383,7 @@ public:
             if (n == 3) return (pts[1] - pts[0]).cross(pts[2] - pts[0]).mag() / 2;
         }
         // full volume
-        if (n == N + 1) return volume();
+        if (n == N + 1) return std::abs(volume());
         // otherwise, construct the basis of the simplex.
         // we'll use it to compute the volume
         Vec<T,N> bases[N];
-- 
2.43.0


From 59517627ff71520510411118537046c395ceafb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 134/151] fix: Simplex::measure was zero for simplices of
 middle order in four or more dimensions

---
 geomc/shape/Simplex.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index dda4e1f..703b293 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -397,12 +397,12 @@ public:
         // divided by n factorial. i suspect the gram matrix could probably
         // be computed more efficiently, because it's symmetric
         T buf[N * N];
-        WrapperMatrix<T,0,0> b {buf, n, n};
-        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n};
-        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n};
+        WrapperMatrix<T,0,0> b {buf, n - 1, n - 1};
+        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n - 1};
+        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n - 1};
         // (n x n) = (n x N) * (N x n)
         mul(&b, m0, m1);
-        return std::sqrt(std::abs(det_destructive(buf, n))) / k;
+        return std::sqrt(std::abs(det_destructive(buf, n - 1))) / k;
     }
     
     /**
-- 
2.43.0


From da9b17e139b8bdf9540abf19e1bec3585b2725a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 135/151] fix: Frustum: rays through the origin, in its plane,
 or crossing it gave wrong intervals or NaN

---
 geomc/shape/Frustum.h | 140 ++++++++++++++----------------------------
 1 file changed, 45 insertions(+), 95 deletions(-)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 38c1f43..a856b1a 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -94,107 +94,57 @@ public:
     
     /// Ray-shape intersection.
     Rect<T,1> intersect(const Ray<T,N>& ray) const {
-        // todo: check N=2 case
-        // s-values for the top and bottom slabs
-        Rect<T,1> slab_range = clipped_height().intersect(
-            Ray<T,1>(ray.origin[N-1], ray.direction[N-1]));
+        // clip the ray to a finite range; the ends `p0` and `p1` of the clipped ray
+        // are at nonnegative heights if we reflect a frustum which is below the origin.
+        Rect<T,1> range = bounds().intersect(ray);
+        if (range.is_empty()) return Rect<T,1>::empty;
+        T sign = clipped_height().lo < 0 ? -1 : 1;
+        Vec<T,N> p0 = sign * ray.at_multiple(range.lo);
+        Vec<T,N> p1 = sign * ray.at_multiple(range.hi);
+        // let `p1` be the upper end
+        bool descending = p0[N-1] > p1[N-1];
+        if (descending) std::swap(p0, p1);
+        T h0 = std::max<T>(p0[N-1], 0);
+        T h1 = std::max<T>(p1[N-1], 0);
         
-        // we want to project the ray to the h=1 plane. the family of rays that
-        // homogeneously project to a common line on h=1 belong to the plane spanned by 
-        // `o` (the ray origin) and `v`, so we will work in that subspace. we want to choose
-        // an `o` that is close to the origin for stability, so we ⟂ project Z+ to the (o,v)
-        // subspace.
-        
-        // first make our ray subspace basis orthogonal:
-        Vec<T,N> o_ortho = ray.origin - ray.origin.project_on(ray.direction);
-        Vec<T,N> z_plus;
-        z_plus[N-1] = 1;
-        // project the Z+ axis to the ray subspace. (the point on the projected ray
-        // which is closest to the origin is a multiple of this point)
-        // todo: this can probably be optimized:
-        Vec<T,N> o_base = z_plus.project_on(ray.direction) + z_plus.project_on(o_ortho);
-        // project V to the h=0 plane
-        Vec<T,N> v_base = ray.direction - ray.direction.project_on(o_base);
-        
-        // handle degenerate cases
-        if (o_base[N-1] == 0) {
-            // the ray lies in the h=0 plane
-            if (o_base == (T)0) [[unlikely]] {
-                // the ray passes through the origin, and intersects the
-                // frustum tip, if it's included in the height range
-                T s = ray.direction.fraction_on(ray.origin);
-                return Rect<T,1>(s, s) & slab_range;
-            } else {
-                // the ray does not pass through the origin
-                return Rect<T,1>::empty;
-            }
-        } else if (v_base == (T)0) {
-            // ray passes through the origin. the frustum intersection is full iff the ray is 
-            // inside the the frustum; else it is empty.
-            return base.contains(o_base.template resized<N-1>())
-                ? slab_range         // full range  & slab_range
-                : Rect<T,1>::empty;  // empty range & slab_range
+        if (h1 == 0) {
+            // the ray lies in the h=0 plane, and can only intersect the tip
+            T s = (-ray.origin).fraction_on(ray.direction);
+            return ray.at_multiple(s) == (T)0
+                ? Rect<T,1>(s, s) & range
+                : Rect<T,1>::empty;
         }
-        // put `o` onto the h=1 plane
-        o_base /= o_base[N-1];
-        
-        // form the intersection in the base plane
-        Ray<T,N-1> ray_base = Ray<T,N-1>(
-            o_base.template resized<N-1>(),
-            v_base.template resized<N-1>()
-        );
-        Rect<T,1> s = base.intersect(ray_base);
         
-        // short circuit: if the projected ray does not intersect
-        // the base shape, then it does not intersect the frustum.
-        if (s.is_empty()) {
-            return Rect<T,1>::empty;
+        /* Points (1 - t) * p0 + t * p1 of the ray project to the h=1 plane at 
+           `b + k * v`, where `b` is the projection of p1, `v = p0 - h0 * b` (which lies in
+           the h=0 plane), and `t = (1 - k * h0) / (1 + k * (h1 - h0))`. This decreases
+           with k, and k = 0 at p1. No quantity becomes infinite if p0 is at the origin's
+           height. */
+        Vec<T,N-1> b = p1.template resized<N-1>() / h1;
+        Vec<T,N-1> v = p0.template resized<N-1>() - h0 * b;
+        if (v.is_zero()) {
+            // the ray passes through the origin
+            if (base.contains(b)) return range;
+            if (h0 > 0) return Rect<T,1>::empty;
+            // only the tip
+            T s = descending ? range.hi : range.lo;
+            return Rect<T,1>(s, s);
         }
         
-        /* find the hit point `p` on the h=0 plane; the final hit point `q` will lie on some 
-           multiple of `p`. The trick is to write `p` and `q` as a points in the (o,v) basis,
-           and compute the multiple of `v` that takes us to a multiple of `p`.
-           We are solving this geometrical problem:
-           
-               origin
-                  •        ⎫      ⎫
-                 ╱ ╲       │      ⎬ p_y
-                ╱   • p    ⎬ 1.0  ⎭
-               ╱     ·     │
-            o •───────•──> ⎭
-                      q  v
-              
-              ╰──────────╯ 1.0
-                  ╰───╯    k * p_x
-              ╰───╯        o_x
-              ╰───────╯    s   <<< want to find this
-        */
-        Vec<T,N> lo {ray_base.at_multiple(s.lo), 1};
-        Vec<T,N> hi {ray_base.at_multiple(s.hi), 1};
-        T o_x    = ray.origin.fraction_on(ray.direction);
-        T p_lo_y = lo.fraction_on(o_ortho);
-        T p_hi_y = hi.fraction_on(o_ortho);
-        T p_lo_x = lo.fraction_on(ray.direction);
-        T p_hi_x = hi.fraction_on(ray.direction);
-        
-        // construct the interval of overlap with the infinite frustum.
-        s = Rect<T,1>::spanning_corners(
-            p_lo_x / p_lo_y - o_x,
-            p_hi_x / p_hi_y - o_x
-        );
-        
-        T h0 = ray.origin[N-1] + s.lo * ray.direction[N-1];
-        T h1 = ray.origin[N-1] + s.hi * ray.direction[N-1];
-        if ((h0 < 0) != (h1 < 0)) {
-            // if the two hits are on either side of h=0, then the interval is inverted.
-            // (we have already handled the ray through the origin case).
-            // which of the two half-infinite intervals should be intersected with the slab?
-            s = (slab_range.lo < 0)
-                ? Rect<T,1>(std::numeric_limits<T>::lowest(), s.lo)
-                : Rect<T,1>(s.hi, std::numeric_limits<T>::max());
+        // form the intersection in the base plane
+        Rect<T,1> k = base.intersect(Ray<T,N-1>(b, v));
+        k.lo = std::max<T>(k.lo, 0);
+        if (k.is_empty()) return Rect<T,1>::empty;
+        T t0 = std::max<T>((1 - k.hi * h0) / (1 + k.hi * (h1 - h0)), 0);
+        T t1 = (1 - k.lo * h0) / (1 + k.lo * (h1 - h0));
+        if (t1 < t0) return Rect<T,1>::empty;
+        if (descending) {
+            std::swap(t0, t1);
+            t0 = 1 - t0;
+            t1 = 1 - t1;
         }
-        // intersect the slab with the frustum interval.
-        return s & slab_range;
+        T ds = range.hi - range.lo;
+        return Rect<T,1>(range.lo + t0 * ds, range.lo + t1 * ds);
     }
     
     Vec<T,N> convex_support(Vec<T,N> d) const {
-- 
2.43.0


From 0b7f3196a4e61763a62b56aa5bdd1e11f9c33b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 136/151] fix: Convex::intersects did not compile

---
 geomc/shape/Shape.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Shape.h b/geomc/shape/Shape.h
index dec8734..a1af509 100644
--- a/geomc/shape/Shape.h
+++ b/geomc/shape/Shape.h
@@ -56,6 +56,14 @@
 
 namespace geom {
 
+// fwd decl (see Intersect.h)
+template <typename T, index_t N>
+class AnyConvex;
+
+template <typename T, index_t N>
+bool intersects(const AnyConvex<T,N>& shape_a, const AnyConvex<T,N>& shape_b);
+
+
 /** @addtogroup shape
  *  @{
  */
@@ -123,9 +131,9 @@ class Convex : public Bounded<T,N,Derived> {
      */
     template <typename Shape>
     bool intersects(const Convex<T,N,Shape>& other) const {
-        return gjk_intersect(
-            as_any_convex(*this),
-            as_any_convex(other));
+        return geom::intersects<T,N>(
+            as_any_convex(static_cast<const Derived&>(*this)),
+            as_any_convex(static_cast<const Shape&>(other)));
     }
     
     /**
-- 
2.43.0


From d96932dbd86ca0fccf1c1fc8a905d3428746eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 137/151] fix: Intersector could not be reused after shapes
 overlapped without a separating axis

---
 geomc/shape/Intersect.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomc/shape/Intersect.h b/geomc/shape/Intersect.h
index 9cb0f1e..87dc265 100644
--- a/geomc/shape/Intersect.h
+++ b/geomc/shape/Intersect.h
@@ -46,6 +46,8 @@ public:
         const AnyConvex<T,N>& shape_a,
         const AnyConvex<T,N>& shape_b)
     {
+        // if the previous test did not produce an axis, start with an arbitrary one
+        if (not (separation_axis.mag2() > 0)) separation_axis = Vec<T,N>::unit_x;
         // `a` is a point on the minkowski difference
         Vec<T,N> a = shape_a.convex_support( separation_axis) -
                      shape_b.convex_support(-separation_axis);
-- 
2.43.0


From f81b4e3932f325fe0743ec668503a3540fda424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 138/151] fix: constant oriented boxes could not be tested for
 overlap with another

---
 geomc/shape/Oriented.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index 7b50f98..7898f44 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -204,7 +204,7 @@ public:
      * @param b1 OritentedRect to test against.
      * @return `true` if and only if `this` overlaps with `b1`; `false` otherwise.
      */
-    bool intersects(const Oriented< Rect<T,N> >& b1) {
+    bool intersects(const Oriented< Rect<T,N> >& b1) const {
         // we will make ourselves axis-aligned; this is the same as applying
         // the inverse of our xf. We apply the inverse of xf to b1 too,
         // to preserve the relationhip between the us. From this, we
-- 
2.43.0


From 349811cc958007c9ac678eccbaf1beecab0b0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 139/151] fix: Sphere-sphere overlap ignored the radius of the
 other sphere

---
 geomc/shape/Sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 2da1904..154ce41 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -70,7 +70,7 @@ public:
      * @return `true` if `s` overlaps with this sphere's volume, false otherwise.
      */
     bool intersects(Sphere s) const {
-        return ptype::mag2(center - s.center) <= r * r;
+        return ptype::mag2(center - s.center) <= (r + s.r) * (r + s.r);
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-- 
2.43.0


From 5193fbf3b9c5784bf5c3c6cac4b150729c375f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 140/151] fix: Sphere-box overlap measured the distance from
 the radius, not the center

---
 geomc/shape/Sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 154ce41..1b88397 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -74,7 +74,7 @@ public:
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-        return rect.dist2(r) <= r * r;
+        return rect.dist2(center) <= r * r;
     }
     
     point_t convex_support(point_t d) const {
-- 
2.43.0


From e8dd8c2a8e1009baa664e5ccd3c99c1fd3e3c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 141/151] fix: oriented boxes of more than three dimensions
 could not be tested for overlap

---
 geomc/shape/shapedetail/SeparatingAxis.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/shapedetail/SeparatingAxis.h b/geomc/shape/shapedetail/SeparatingAxis.h
index 48894a7..1cbdd64 100644
--- a/geomc/shape/shapedetail/SeparatingAxis.h
+++ b/geomc/shape/shapedetail/SeparatingAxis.h
@@ -150,9 +150,10 @@ class RectAxisHelper<T,2> : public RectAxisHelperBase<T,2> {
 
 template <typename T, index_t N, typename Enable=void>
 class RectIntersector {
+    public:
     
     static inline bool intersect(const Oriented<Rect<T,N> >& b0, const Rect<T,N>& b1) {
-        return gjk_intersect(b0, b1);
+        return geom::intersects<T,N>(as_any_convex(b0), as_any_convex(b1));
     }
 };
 
-- 
2.43.0


From 85fe913446c262d668bac0d267a2549093cbb013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 142/151] fix: querying a bucket grid by box did not compile

---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 408cebe..8924b3f 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -274,7 +274,7 @@ public:
     }
 
     region_iterator query(Rect<T,N> region){
-        return region_iterator(*this, binRegion(region));
+        return region_iterator(this, binRegion(region));
     }
 
     region_iterator query(point_t pt, T radius){
-- 
2.43.0


From 431a4f7299036ab56626f0bcd1616cf8a984ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 143/151] fix: bucket grid queries missed objects on the upper
 boundary of the region at a cell boundary

---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 8924b3f..d0619ec 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -307,7 +307,7 @@ public:
         //high coordinate is, as always, one beyond the maximum cell to check
         return Rect<index_t,N>(
                 (bin_t)((r.lo / _cellsize).floor()),
-                (bin_t)((r.hi / _cellsize).ceil())
+                (bin_t)((r.hi / _cellsize).floor()) + bin_t(1)
         );
     }
 
-- 
2.43.0


From 880c5c079f0da2330a459ec0006e7dbe35e55a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 144/151] fix: multiplying a matrix in place by a diagonal
 matrix that is not square wrote out of bounds

---
 geomc/linalg/Matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 3f23d5c..23bdb51 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -1128,7 +1128,8 @@ operator*=(Mx& m, const DiagMatrix<T,M,N>& d) {
     
     // check dims, if required
 #ifdef GEOMC_MTX_CHECK_DIMS
-    if ((Mx::COLDIM == 0 or M == 0) and (m.cols() != d.rows())) {
+    // (`d` must be square, as `m` keeps its shape)
+    if (m.cols() != d.rows() or m.cols() != d.cols()) {
         throw DimensionMismatchException(m.rows(), m.cols(), d.rows(), d.cols());
     }
 #endif
-- 
2.43.0


From 8826d1fcacf64b078ae9008d8b6c391dca189454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:04 +0000
Subject: [PATCH 145/151] fix: pushing a full Deque's own element, or moving a
 Deque onto itself, read destroyed items

---
 geomc/Deque.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 6411574..9ef8caf 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -165,6 +165,7 @@ public:
     
     /// Move the contents of `other` to this buffer
     Deque& operator=(Deque&& other) {
+        if (&other == this) return *this; // no self-assign
         // destroy all our stuff
         for (index_t i = 0; i < _size; ++i) {
             item(i)->~T();
@@ -261,7 +262,12 @@ public:
     /// Add an element to the end of the buffer.
     template <typename U> // templated so that we can deduce and collapse lvalues
     T& push_back(U&& t) {
-        reserve(_size + 1);
+        if (_size == _capacity) {
+            // (`t` may be one of our own items, which are about to move)
+            T tmp(std::forward<U>(t));
+            reserve(_size + 1);
+            return push_back(std::move(tmp));
+        }
         T* p = item(_size);
         // placement new, using move semantics if applicable:
         new (p) T(std::forward<U>(t));
@@ -277,7 +283,12 @@ public:
      */
     template <typename U> // templated so that we can deduce and collapse lvalues
     T& push_front(U&& t) {
-        reserve(_size + 1);
+        if (_size == _capacity) {
+            // (`t` may be one of our own items, which are about to move)
+            T tmp(std::forward<U>(t));
+            reserve(_size + 1);
+            return push_front(std::move(tmp));
+        }
         const index_t n = capacity();
         _head = (_head + n - 1) % n;
         T* place = get() + _head;
-- 
2.43.0


From 281320de9841176507ef123de1ec6a331cb95597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:04 +0000
Subject: [PATCH 146/151] fix: appending a full SmallStorage's own element, or
 moving a SmallStorage onto itself, read destroyed items

---
 geomc/SmallStorage.h | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index f31ae7a..e384557 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -61,6 +61,29 @@ private:
         }
     }
     
+    // construct items from `args` until there are `count` of them
+    template <typename... Args>
+    void _extend(size_t count, Args&&... args) {
+        bool       grow         = count > _capacity;
+        size_t     new_capacity = grow ? std::max(count, _capacity * 2) : _capacity;
+        storage_t* new_data     = grow ? new storage_t[new_capacity]    : _data;
+        // this comes before moving the existing items, because `args` may refer to them
+        for (size_t i = _size; i < count; ++i) {
+            new (new_data + i) T{std::forward<Args>(args)...};
+        }
+        if (grow) {
+            T* src = begin();
+            for (size_t i = 0; i < _size; ++i) {
+                new (new_data + i) T{std::move(src[i])};
+                src[i].~T(); // destroy the source
+            }
+            if (_capacity > N) delete [] _data;
+            _data     = new_data;
+            _capacity = new_capacity;
+        }
+        _size = count;
+    }
+    
     T* _item(size_t i) {
         return reinterpret_cast<T*>(_data) + i;
     }
@@ -168,6 +191,7 @@ public:
     
     /// Move the contents of `other` into this array.
     SmallStorage<T,N>& operator=(SmallStorage<T,N>&& other) {
+        if (&other == this) return *this; // no self-assign
         _destroy(_data, _size);
         // if we have allocated storage, free it. we're going to clobber
         if (_capacity > N) delete [] _data;
@@ -233,21 +257,15 @@ public:
     
     /// Add a copy of the given item to the end of the array, increasing its size by 1.
     T& push_back(const T& item) {
-        _ensure_capacity(_size + 1);
-        T* place = reinterpret_cast<T*>(_data + _size);
-        new (place) T {item};
-        _size += 1;
-        return *place;
+        _extend(_size + 1, item);
+        return back();
     }
     
     /// Construct a new item at the end of the array from the given constructor arguments.
     template <typename... Args>
     T& emplace_back(Args&&... args) {
-        _ensure_capacity(_size + 1);
-        T* place = reinterpret_cast<T*>(_data + _size);
-        new (place) T {std::forward<Args>(args)...};
-        _size += 1;
-        return *place;
+        _extend(_size + 1, std::forward<Args>(args)...);
+        return back();
     }
     
     /// Remove the last item from the array and return it, if one exists.
@@ -299,10 +317,8 @@ public:
     void resize(size_t count, const Args&... args) {
         if (count > _size) {
             // construct the missing items
-            _ensure_capacity(count);
-            for (size_t i = _size; i < count; ++i) {
-                new (_data + i) T {args...};
-            }
+            _extend(count, args...);
+            return;
         } else if constexpr (not std::is_trivially_destructible_v<T>) {
             // destroy the excess items
             for (size_t i = count; i < _size; ++i) {
-- 
2.43.0


From bf1824a639ef1b5690defe97a943847d8ec8b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:04 +0000
Subject: [PATCH 147/151] fix: dividing an AffineTransform by itself in place
 left a wrong inverse

---
 geomc/linalg/AffineTransform.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index 399be73..4e7d75d 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -168,8 +168,9 @@ public:
      * the inverse of `xf`.
      */
     AffineTransform<T,N>& operator/=(const AffineTransform<T,N>& xf) {
-        mat = xf.inv * mat;
+        auto m = xf.inv * mat; // (keep `mat` for now; `xf` may be `this`)
         inv = inv * xf.mat;
+        mat = m;
         return *this;
     }
     
-- 
2.43.0


From 05ae8aeebba2278a94cd68887df46e1832936a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:04 +0000
Subject: [PATCH 148/151] fix: bounds of a cylinder nearly parallel to an axis
 missed it by cancellation

---
 geomc/shape/Cylinder.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 60bf228..ecf5d52 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -179,12 +179,16 @@ class Cylinder:
         // construct two bounding boxes, one for each disk cap.
         // we do this by finding the extent of the cap along each axis.
         Vec<T,N> a  = p1 - p0;
-        // square of unit normal's components
-        // aka square of projection of normal onto axis of interest
-        Vec<T,N> n2 = (a * a) / a.mag2(); 
-        // solve for the remaining side of the triangle
-        // which happens to be the projection of a perpendicular vector
-        Vec<T,N> c0 = radius * std::sqrt((Vec<T,N>::ones - n2));
+        T       a2 = a.mag2();
+        Vec<T,N> c0;
+        for (index_t i = 0; i < N; ++i) {
+            // the part of the axis perpendicular to coordinate `i`
+            // is as long (relative to the axis) as the projection
+            // of a unit perpendicular vector onto that coordinate
+            Vec<T,N> a_i = a;
+            a_i[i] = 0;
+            c0[i]  = radius * std::sqrt(a_i.mag2() / a2);
+        }
         // construct the disk bounds at the end cap positions
         Rect<T,N> b0(p0 - c0, p0 + c0);
         Rect<T,N> b1(p1 - c0, p1 + c0);
-- 
2.43.0


From 2b4db38d3cad7928c5394c01740ab34ca8a1ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:29 +0000
Subject: [PATCH 149/151] fix: insert_child_nodes did not compile (missing
 typename)

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index c31bf2c..a8cf24b 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1113,7 +1113,7 @@ public:
         // todo: this->_storage->_nodes.reserve(n_items);
         NodeRef prev_end_node  = this->end()._root;
         NodeRef first_new_node = this->_storage->_nodes.insert(
-            n, base_t::Node(this->_storage, p, *(i_begin++)));
+            n, typename base_t::Node(this->_storage, p, *(i_begin++)));
         NodeRef last_new_node  = first_new_node;
         
         // transfer ownership of the parent's items to the first child.
@@ -1129,7 +1129,7 @@ public:
         index_t ct = 1;
         for (NodeItemIterator i = i_begin; i != i_end; ++i, ++ct) {
             last_new_node = this->_storage->_nodes.insert(
-                n, base_t::Node(this->_storage, p, *i));
+                n, typename base_t::Node(this->_storage, p, *i));
         }
         
         // adjust child endpoints if necessary
-- 
2.43.0


From d655a29aca8949f9c09b55445e4ea514f9901dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:29 +0000
Subject: [PATCH 150/151] fix: insert_items did not compile, and would have
 lost the first item of an empty leaf

---
 geomc/Tree.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index a8cf24b..9794a77 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1262,7 +1262,7 @@ public:
     template <typename LeafItemIterator>
     item_iterator insert_items(
             const item_iterator& insert_before,
-            const LeafItemIterator  begin_item,
+            LeafItemIterator        begin_item,
             const LeafItemIterator& end_item,
             index_t* new_item_count=nullptr) const {
         // todo: it would be great if we could protect against the user
@@ -1280,8 +1280,8 @@ public:
         // retrieve parent and insert point
         NodeRef n = this->_root;
         ItemRef insert_pt = insert_before;
-        if (n.n_items == 0) {
-            insert_pt = item_successor(n);
+        if (n->n_items == 0) {
+            insert_pt = this->item_successor(n);
         }
         
         // insert the first item
@@ -1298,7 +1298,7 @@ public:
         
         // figure out the new begin/end items
         ItemRef new_begin, new_end;
-        if (insert_before == n->items_first) {
+        if (insert_pt == n->items_first or n->n_items == 0) {
             new_begin = first_new_item;
         } else {
             new_begin = n->items_first;
-- 
2.43.0


From 9b5eee59192b467383e5ab630bc023ca428af73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:56 +0000
Subject: [PATCH 151/151] fix: erase of an item did not compile, and would have
 cut off the items after an erased one

---
 geomc/Tree.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 9794a77..a57102e 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1498,8 +1498,8 @@ public:
             // this is a linear check; if we *knew* we were the parent, the
             // entire operation would be log(n). laaaaame.
             bool found = false;
-            for (item_iterator i = n->items_begin(); 
-                    i != n->items_end(); 
+            for (item_iterator i = this->items_begin(); 
+                    i != this->items_end(); 
                     ++i) {
                 if (i == item) {
                     found = true;
@@ -1508,20 +1508,22 @@ public:
             }
             
             if (found) {
+                bool is_first = item == n->items_first;
+                bool is_last  = item == n->items_last;
                 ItemRef next_item = this->_storage->_items.erase(item);
                 ItemRef prev_item = next_item; --prev_item;
                 
                 // figure out the new begin / end items
                 ItemRef new_begin, new_end;
-                if (item == n->items_first) {
+                if (is_first) {
                     new_begin = next_item;
                 } else {
                     new_begin = n->items_first;
                 }
-                if (item == n->items_last) {
+                if (is_last) {
                     new_end = prev_item;
                 } else {
-                    new_end = prev_item;
+                    new_end = n->items_last;
                 }
                 
                 this->_storage->update_boundary_items(
@@ -1531,7 +1533,7 @@ public:
                     -1);
                 
                 ok  = true;
-                ret = next_item;
+                ret = is_last ? this->items_end() : next_item;
             }
         }
         
-- 
2.43.0

