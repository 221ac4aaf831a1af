From 3a802a8320a2b44c207d7f512c04598aedf6673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 01/29] fix: building a list from another list copies it
 instead of sharing its nodes

---
 extra/lists/doubly_linked_list.py | 5 -----
 extra/lists/linked_list.py        | 4 ----
 extra/lists/skip_list.py          | 3 ---
 3 files changed, 12 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index b17d171..3a12ec3 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -207,11 +207,6 @@ class DoublyLinkedList(LinkedList):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a DoublyLinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
-            self._tail = iterable._tail
         else:
             self._head = None
             self._tail = None
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 8a10560..77440a9 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -222,10 +222,6 @@ class LinkedList(Extra):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a LinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
         else:
             self._head = None
             self._length = 0
diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 4c7fc26..889f7b7 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -295,9 +295,6 @@ class SkipList(Extra):
             self._num_levels = 1
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            self._level_lists = iterable._level_lists
-            self._num_levels = iterable._num_levels
         else:
             ll = LinkedList()
             ll._insert_node(ll._head, self._basic_node(float("-inf")))
-- 
2.43.0


From 83720a9d2eb7d29cd9dea3d56f258fabbd3a03be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 02/29] fix: extending a list appends copies instead of sharing
 nodes with the other list

---
 extra/lists/circular_linked_list.py |  2 +-
 extra/lists/doubly_linked_list.py   | 16 +++++-----------
 extra/lists/linked_list.py          | 12 +++---------
 3 files changed, 9 insertions(+), 21 deletions(-)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 58dbc76..729d297 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -874,7 +874,7 @@ class CircularLinkedList(LinkedList):
                 curr_node = curr_node.get_next()
             prev_node = curr_node
             # now, let's add the new values
-            for item in other:
+            for item in other.to_list():
                 new_node = self._basic_node(item)
                 self._insert_node(prev_node, new_node)
                 prev_node = new_node
diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 3a12ec3..ad8391a 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -954,7 +954,8 @@ class DoublyLinkedList(LinkedList):
     def extend(self, other):
         """
         Extends the current `DoublyLinkedList()` instance by appending the
-        elements of the other `DoublyLinkedList()` instance in constant time.
+        elements of the other `DoublyLinkedList()` instance in time-complexity
+        of O(m) where **m** is the length of the other instance.
 
         Parameters
         ----------
@@ -984,16 +985,9 @@ class DoublyLinkedList(LinkedList):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
-        if other.is_empty():
-            pass  # do nothing
-        elif self.is_empty():
-            self._head = other._head
-            self._tail = other._tail
-            self._length += other._length
-        else:
-            self._tail.set_next(other._head)
-            self._tail = other._tail
-            self._length += other._length
+        prev_node = self._tail if not self.is_empty() else None
+        for item in other.to_list():
+            prev_node = self._insert_value(prev_node, item)
 
     # =============================      SET     ==============================
     def __setitem__(self, idx, item):
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 77440a9..25ff0cd 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1399,15 +1399,9 @@ class LinkedList(Extra):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
-        if other.is_empty():
-            pass  # do nothing
-        elif self.is_empty():
-            self._head = other._head
-            self._length = other._length
-        else:
-            last_node, _ = self._get_node(self._length)
-            last_node.set_next(other._head)
-            self._length += other._length
+        prev_node, _ = self._get_node(self._length)
+        for item in other.to_list():
+            prev_node = self._insert_value(prev_node, item)
 
     # =============================     SET      ==============================
     def _replace_value(self, idx, new_value):
-- 
2.43.0


From f017a0de2e9cf51f70ed49aa4d38f1b4d0df8785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 03/29] fix: slicing a linked list with a negative step returns
 the items backwards

---
 extra/lists/linked_list.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 25ff0cd..1b5119a 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1107,9 +1107,9 @@ class LinkedList(Extra):
         # sanity check over given index
         self._validate_index(idx, accept_negative=True, accept_slice=True)
         if isinstance(idx, slice):
-            indices = range(*idx.indices(self._length))
-            max_idx = indices[-1] if indices else -1
-            indices = set(indices)
+            wanted = range(*idx.indices(self._length))
+            max_idx = max(wanted) if wanted else -1
+            indices = set(wanted)
             # start getting wanted nodes
             counter = 0
             prev_node = None
@@ -1121,7 +1121,8 @@ class LinkedList(Extra):
                                                         curr_node.get_data())
                 curr_node = curr_node.get_next()
                 counter += 1
-            return out_llist
+            # the nodes were collected in ascending order
+            return out_llist if wanted.step > 0 else out_llist.reverse()
         else:
             if idx == self._length:
                 raise IndexError("Given index is out of the boundaries!!")
-- 
2.43.0


From 489f497fb6f016463eadde297a1852349d708238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 04/29] fix: a list is greater than a shorter one it dominates
 element-wise

---
 extra/lists/linked_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 1b5119a..e697022 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -814,7 +814,7 @@ class LinkedList(Extra):
         if all_equal:
             return True if self._length > other._length else False
         else:
-            return True if idx == self._length else False
+            return True if idx == other._length else False
 
     def __ge__(self, other):
         """
-- 
2.43.0


From 30253877ead23e203194710ea8e1822c17a2f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 05/29] fix: rotate_right rejects a non-boolean inplace flag
 like rotate_left does

---
 extra/lists/linked_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index e697022..6d91315 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -2101,6 +2101,8 @@ class LinkedList(Extra):
         │ 2 │⟶│ 3 │⟶│ 4 │⟶│ 1 │⟶
         └───┘ └───┘ └───┘ └───┘
         """
+        if type(inplace) != bool:
+            raise TypeError("`inplace` is a boolean flag (True by default)!!")
         self._validate_rotation_distance(distance)
         rotated = self._rotate(distance, "RIGHT")
         if not inplace:
-- 
2.43.0


From 2df1c1ac7f34a84850e118af5d7322851d417010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 06/29] fix: assigning into an empty circular list or assigning
 None raises the documented errors

---
 extra/lists/circular_linked_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 729d297..c8f3979 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -932,7 +932,10 @@ class CircularLinkedList(LinkedList):
            └──────────────────┘
         """
         self._validate_index(idx)
-        idx = idx % self._length if self._length != 0 else 0
+        if self.is_empty():
+            raise IndexError(f"{self.__name__} is empty!!")
+        self._validate_item(item)
+        idx = idx % self._length
         super()._replace_value(idx, item)
 
     # =============================    REMOVE    ==============================
-- 
2.43.0


From fda8f12167e88dc8bd0b403fe039bc7c2bb1190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 07/29] fix: removing the first node of a doubly linked list
 unlinks that node

---
 extra/lists/doubly_linked_list.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index ad8391a..a1fe959 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1079,16 +1079,11 @@ class DoublyLinkedList(LinkedList):
         next_node = node_to_be_removed.get_next()
         # if node to be removed is the first
         if self._length == 1:
-            # NOTE: don't use set_data() here
-            self._head.data = self._tail.data = None
+            self._head = self._tail = None
             self._length -= 1
-        elif self._length == 2:
-            if prev_node is None:
-                next_node.set_prev(None)
-                self._head = next_node
-            elif next_node is None:
-                prev_node.set_next(None)
-                self._tail = prev_node
+        elif prev_node is None:
+            next_node.set_prev(None)
+            self._head = next_node
             self._length -= 1
         else:
             if next_node is None:
-- 
2.43.0


From cae457f199f1fd7d1b4683e6814300dd887a918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 08/29] fix: priority queue keeps both cached extremes right
 after removals and evictions

---
 extra/lists/priority_queue.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/extra/lists/priority_queue.py b/extra/lists/priority_queue.py
index 62d1b94..5062427 100644
--- a/extra/lists/priority_queue.py
+++ b/extra/lists/priority_queue.py
@@ -369,9 +369,15 @@ class PriorityQueue(Queue):
         super()._validate_item(item)
         self.__validate_priority(priority)
         node = PriorityNode(item, priority)
-        self._min_priority = min(self._min_priority, node.get_priority())
-        self._max_priority = max(self._max_priority, node.get_priority())
+        was_full = self.is_full()
         super()._enqueue(node)
+        if was_full:
+            # an item was evicted (or the new one wasn't stored)
+            self._update_min_priority()
+            self._update_max_priority()
+        else:
+            self._min_priority = min(self._min_priority, node.get_priority())
+            self._max_priority = max(self._max_priority, node.get_priority())
 
     # =============================      TOP     ==============================
     def top(self):
@@ -483,16 +489,16 @@ class PriorityQueue(Queue):
                         node_data = curr_node.get_data()
                         self._container._remove_node(curr_node.get_prev(),
                                                      curr_node)
-                        self._update_min_priority()
                         break
                 else:
                     if curr_node.get_priority() == self._max_priority:
                         node_data = curr_node.get_data()
                         self._container._remove_node(curr_node.get_prev(),
                                                      curr_node)
-                        self._update_max_priority()
                         break
                 curr_node = curr_node.get_next()
+            self._update_min_priority()
+            self._update_max_priority()
         return node_data
 
     def clear(self):
-- 
2.43.0


From b173056217869092025030c246befa653ea6031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 09/29] fix: skip list treats minus infinity as a value, not as
 the head of a level

---
 extra/lists/skip_list.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 889f7b7..ef12d54 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -698,7 +698,8 @@ class SkipList(Extra):
         start_node = top_list._head
         while (start_node.get_down() is not None):
             prev_node, found_node = search_sorted(prev_node, start_node, value)
-            if found_node.get_data() == value:
+            # NOTE: only the head of a level (-∞) has no previous node
+            if prev_node is not None and found_node.get_data() == value:
                 return prev_node, found_node, last_accessed_nodes
             last_accessed_nodes.append(found_node)
             start_node = found_node.get_down()
@@ -743,8 +744,8 @@ class SkipList(Extra):
         if type(value) not in {int, float}:
             return False
         self._validate_item(value)
-        _, found_node, _ = self._search(value)
-        return found_node.get_data() == value
+        prev_node, found_node, _ = self._search(value)
+        return prev_node is not None and found_node.get_data() == value
 
     def __getitem__(self, idx):
         """
@@ -895,9 +896,9 @@ class SkipList(Extra):
         """
         self._validate_item(value)
         # search for that value
-        _, found_node, last_accessed_nodes = self._search(value)
+        prev_node, found_node, last_accessed_nodes = self._search(value)
         # `value` already exists in our SkipList
-        if found_node.get_data() == value:
+        if prev_node is not None and found_node.get_data() == value:
             return
         # create new_node with the new value
         new_node = self._basic_node(value)
@@ -982,7 +983,7 @@ class SkipList(Extra):
         prev_node, found_node, last_accessed_nodes = self._search(value)
         # NOTE: len(last_accessed_nodes) can be used to get the level where
         #  this value was found
-        if found_node.get_data() == value:
+        if prev_node is not None and found_node.get_data() == value:
             level = self._num_levels - 1 - len(last_accessed_nodes)
             while level >= 0:
                 curr_level_list = self._level_lists[level]
-- 
2.43.0


From aa71a9dcab4f073bf0c54f78b81d15dc60858a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 10/29] fix: is_balanced compares subtree heights when the root
 has a single child

---
 extra/trees/binary_tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/extra/trees/binary_tree.py b/extra/trees/binary_tree.py
index 71e16fb..66d3a92 100644
--- a/extra/trees/binary_tree.py
+++ b/extra/trees/binary_tree.py
@@ -742,17 +742,17 @@ class BinaryTree(Tree):
                 UserWarning,
             )
             return True
-        left_depth = (
+        left_height = (
             0
             if self._root.get_left() is None
-            else 1 + super()._get_depth(self._root.get_left())
+            else 1 + self._get_height(self._root.get_left())
         )
-        right_depth = (
+        right_height = (
             0
             if self._root.get_right() is None
-            else 1 + super()._get_depth(self._root.get_right())
+            else 1 + self._get_height(self._root.get_right())
         )
-        return abs(left_depth - right_depth) <= 1
+        return abs(left_height - right_height) <= 1
 
     # =============================    PERFECT   ==============================
     def is_perfect(self):
-- 
2.43.0


From 9da179cdb27ed3264267510279be435a41a8d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 11/29] fix: membership test on an empty tree answers False

---
 extra/trees/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/tree.py b/extra/trees/tree.py
index 89cea00..259116d 100644
--- a/extra/trees/tree.py
+++ b/extra/trees/tree.py
@@ -1013,7 +1013,7 @@ class Tree(Extra):
         >>> t._search(50)
         None
         """
-        queue = [self._root]
+        queue = [self._root] if not self.is_empty() else []
         while queue:
             curr_node = queue.pop()
             if curr_node.get_data() == value:
-- 
2.43.0


From 8a282d713b919fc727da479f84ac42992c935094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 12/29] fix: AVL rebalancing after a removal uses a single
 rotation when the heavy child is even

---
 extra/trees/avl.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/extra/trees/avl.py b/extra/trees/avl.py
index cb09a88..e5adcc5 100644
--- a/extra/trees/avl.py
+++ b/extra/trees/avl.py
@@ -746,12 +746,18 @@ class AVL(BST):
             if left_height > right_height
             else grand_parent.get_right()
         )
-        # get the heavy child
+        # get the heavy child (when equal, the one on the parent's side)
         left_height, right_height = parent.get_children_heights()
-        node = (
-            parent.get_left()
-            if left_height > right_height else parent.get_right()
-        )
+        if left_height == right_height:
+            node = (
+                parent.get_left()
+                if parent.is_left_child() else parent.get_right()
+            )
+        else:
+            node = (
+                parent.get_left()
+                if left_height > right_height else parent.get_right()
+            )
 
         # determine the direction
         if parent.is_left_child():
-- 
2.43.0


From 10babf34b9ce8a9e95717242dc09e898c36eb47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 13/29] fix: red-black removal keeps the colour rules in every
 case

---
 extra/trees/red_black_tree.py | 72 +++++++++++------------------------
 1 file changed, 23 insertions(+), 49 deletions(-)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index dab6e8f..553875b 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -727,6 +727,7 @@ class RedBlackTree(BST):
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = parent.get_parent()
                 # Case II
                 else:
                     if s_right_color == Color.BLACK:
@@ -769,10 +770,11 @@ class RedBlackTree(BST):
                     s_right_child.get_color() if s_right_child else Color.BLACK
                 )
                 # Case III
-                if (s_right_color == Color.BLACK
+                if (s_left_color == Color.BLACK
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = parent.get_parent()
                 # Case II
                 else:
                     if s_left_color == Color.BLACK:
@@ -790,6 +792,8 @@ class RedBlackTree(BST):
                     parent = super()._rotate_right(parent)
                     super()._attach(grandparent, parent)
                     double_black_node = self._root
+        # a red node absorbs the extra black
+        double_black_node.set_color(Color.BLACK)
         # make sure root is always black
         self._root.set_color(Color.BLACK)
 
@@ -867,55 +871,25 @@ class RedBlackTree(BST):
         # find replacement
         replacement = self._find_replacement(removed_node)
         # print("replacement:", replacement)
-
-        # Case I (replace red-node with red-node/None)
-        if removed_node.get_color() == Color.RED and (
-            replacement is None or replacement.get_color() == Color.RED
-        ):
-            # print("Case I (replace red-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
-
-        # Case II (replace red-node with black-node)
-        elif (
-            removed_node.get_color() == Color.RED
-            and replacement.get_color() == Color.BLACK
-        ):
-            # print("Case II (replace red-node with black-node)")
-            raise ValueError("Debug this, this case shouldn't occur!!")
-
-        # Case III (replace black-node with black-node)
-        elif removed_node.get_color() == Color.BLACK and (
-            replacement is None or replacement.get_color() == Color.BLACK
-        ):
-            # print("Case III (double black-node)")
-            if replacement:
-                parent = replacement.get_parent()
-            else:
-                parent = removed_node.get_parent()
-            # do the transplant
-            super()._transplant(removed_node, replacement)
-            # get double black node
-            if replacement is None:
-                if parent.get_left() is None:
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
+        # the place that leaves the tree is the replacement's (if found)
+        leaving = removed_node if replacement is None else replacement
+        parent = leaving.get_parent()
+        is_left_child = parent.get_left() is leaving
+        leaving_color = leaving.get_color()
+        # swapping nodes exchanges their colors along with their data, while
+        # here colors have to stay in place
+        if replacement is not None:
+            replacement.set_color(removed_node.get_color())
+            removed_node.set_color(leaving_color)
+        super()._transplant(removed_node, replacement)
+        # removing a red node doesn't affect the black-height
+        if leaving_color == Color.BLACK:
+            child = parent.get_left() if is_left_child else parent.get_right()
+            if child is not None:
+                # a red child took the place of the black node
+                child.set_color(Color.BLACK)
             else:
-                if replacement.get_data() < parent.get_data():
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
-            # handle this double black
-            self.__handle_double_black(parent, double_black_node)
-
-        # Case IV (replace black-node with red-node/None)
-        elif (
-            removed_node.get_color() == Color.BLACK
-            and replacement.get_color() == Color.RED
-        ):
-            replacement.set_color(Color.BLACK)
-            # print("Case IV (replace black-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
+                self.__handle_double_black(parent, child)
         # decrease the length
         self._length -= 1
 
-- 
2.43.0


From 6883ed80e275cf6bc51b14137f776065758b4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:00 +0000
Subject: [PATCH 14/29] fix: black height of an empty red-black tree is zero

---
 extra/trees/red_black_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index 553875b..e6b568b 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -944,6 +944,8 @@ class RedBlackTree(BST):
         >>> rbtree.get_black_height()
         2
         """
+        if self.is_empty():
+            return 0
         black_height = 0
         start_node = self._root.get_left()
         while start_node is not None:
-- 
2.43.0


From 92506722de42b7b77f8a2f4efe90ec188676ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 15/29] fix: looking up a value in an empty splay tree, or a
 non-number, answers False

---
 extra/trees/splay_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/trees/splay_tree.py b/extra/trees/splay_tree.py
index 87ef649..0762156 100644
--- a/extra/trees/splay_tree.py
+++ b/extra/trees/splay_tree.py
@@ -390,7 +390,8 @@ class SplayTree(BST):
         which is the greatest value (`6`) in the splay tree is moved to the
         root.
         """
-        super()._validate_item(find_val)
+        if self.is_empty() or type(find_val) not in {int, float}:
+            return False
         node = super()._search(find_val, self._root)
         self._splay(node)
         return node.get_data() == find_val
-- 
2.43.0


From 120a51b3665c5767e7114a95b6cbef6f9b02f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 16/29] fix: removing from a treap works with negative
 priorities

---
 extra/trees/treap.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/extra/trees/treap.py b/extra/trees/treap.py
index 6c1fff2..4a9afe6 100644
--- a/extra/trees/treap.py
+++ b/extra/trees/treap.py
@@ -559,14 +559,11 @@ class Treap(BST):
                 # get children's priority
                 left_child = removed_node.get_left()
                 right_child = removed_node.get_right()
-                left_priority = left_child.get_priority() if left_child else -1
-                right_priority = (
-                    right_child.get_priority()
-                    if right_child
-                    else -1
-                )
                 # perform rotation
-                if left_priority > right_priority:
+                if right_child is None or (
+                    left_child is not None
+                    and left_child.get_priority() > right_child.get_priority()
+                ):
                     removed_node = super()._rotate_right(removed_node)
                     super()._attach(parent, removed_node)
                     parent = removed_node
-- 
2.43.0


From 00f1e36387b8d0510417bb869c76f20171c16d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 17/29] fix: iterating over an empty heap yields nothing

---
 extra/trees/_heap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index f1b122d..d233e37 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -364,9 +364,10 @@ class Heap(ABC, Extra):
         generator:
             The value of each node in the instance.
         """
-        btree = self._transform()
-        for node in btree:
-            yield node
+        if not self.is_empty():
+            btree = self._transform()
+            for node in btree:
+                yield node
 
     def to_list(self):
         """
-- 
2.43.0


From e27e7d30117e9d4cf52be7c180d86b05905e584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 18/29] fix: to_list of a heap returns a new list, not the
 heap's own storage

---
 extra/trees/_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index d233e37..2122fa4 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -379,7 +379,7 @@ class Heap(ABC, Extra):
         list:
             A `list` object containing the same elements as the heap instance.
         """
-        return self._heap
+        return self._heap[:]
 
     # =============================    CLEAR     ==============================
     def clear(self):
-- 
2.43.0


From 080603aa70e329bdaee91a36883cf05bd14698da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 19/29] fix: removing an inner value keeps the heap in heap
 order

---
 extra/trees/_heap.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index 2122fa4..6b16546 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -229,7 +229,20 @@ class Heap(ABC, Extra):
         # add the new value
         self._heap.append(value)
         # swap between parents when needed
-        idx = len(self._heap) - 1
+        self.__move_up(len(self._heap) - 1, is_min_heap)
+
+    def __move_up(self, idx, is_min_heap):
+        """
+        Moves the value at the given index up, swapping it with its parents,
+        till it is in its proper place.
+
+        Parameters
+        ----------
+        idx: int
+            The index of the value to be moved.
+        is_min_heap: bool
+            `True` for a min-heap and `False` for a max-heap.
+        """
         while idx != 0:
             parent_idx = (idx - 1) // 2
             current = self._heap[idx]
@@ -352,6 +365,9 @@ class Heap(ABC, Extra):
         self.__rebalance(del_idx, is_min_heap)
         # remove the (+/-)inf
         self._heap.pop()
+        # the item that replaced the removed one could belong further up
+        if del_idx < len(self._heap):
+            self.__move_up(del_idx, is_min_heap)
 
     # =============================     ITER     ==============================
     def __iter__(self):
-- 
2.43.0


From 18e4fd13a22748f2981019be2cb34e425259b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:35 +0000
Subject: [PATCH 20/29] fix: following a path stops at a missing child whatever
 the character

---
 extra/trees/trie.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 66400c5..f35ba9f 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -530,8 +530,9 @@ class Trie(Tree):
         while word:
             ch = word[0]
             child = curr_node.get_child(ch)
-            child_data = child.get_data() if child else "}"
-            # '}' is used to break the following if-condition
+            if child is None:
+                break
+            child_data = child.get_data()
             if child_data == word[: len(child_data)]:
                 word = word[len(child_data):]
                 curr_node = child
-- 
2.43.0


From 75b8c92a434d72725bcd61eda3d591f35945776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 21/29] fix: removing the last word of a trie stops at the root

---
 extra/trees/trie.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index f35ba9f..19cf811 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -720,7 +720,11 @@ class Trie(Tree):
         if remaining_word == "":  # found the whole word
             curr_node = last_node
             curr_node._is_word = False
-            while not curr_node._is_word and curr_node.is_leaf():
+            while (
+                curr_node is not self._root
+                and not curr_node._is_word
+                and curr_node.is_leaf()
+            ):
                 ch = curr_node.get_data()[0]
                 parent = curr_node.get_parent()
                 del parent._children[ch]
-- 
2.43.0


From ea1e450925577a7bbd224c7ff2c1d482be866bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 22/29] fix: removing a word that is not in a trie warns as
 documented

---
 extra/trees/trie.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 19cf811..cd23061 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -717,7 +717,12 @@ class Trie(Tree):
         elif word == "":
             return
         last_node, remaining_word = self._follow_path(word)
-        if remaining_word == "":  # found the whole word
+        if remaining_word or not last_node._is_word:
+            warnings.warn(
+                f"`{word}` doesn't exist in `{self.__name__}`",
+                UserWarning
+            )
+        else:  # found the whole word
             curr_node = last_node
             curr_node._is_word = False
             while (
-- 
2.43.0


From c2b5f0ddadbd34865dfc6051c28945a47d9aa851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 23/29] fix: the empty suffix sorts before every other suffix

---
 extra/trees/suffix_trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index cb0f21d..e1c6339 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -124,7 +124,7 @@ class SuffixTrie(Extra):
         node = self._rt._insert("$ ⟶ " + str(len(self._word)))
         node._is_word = False
         self._leaf_nodes[len(self._word)] = node
-        self._suffix_array.append((len(self._word), "$"))
+        self._suffix_array.append((len(self._word), ""))
         # NOTE
         # The `self._suffix_array` isn't the actually suffix array. To obtain
         # the suffix array, you will need to sort the suffixes alphabetically
-- 
2.43.0


From 9d968a8151c7309ea1959088b8a3b2c4a4fc2a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 24/29] fix: the longest repeated substring is searched at
 every depth of the suffix trie

---
 extra/trees/suffix_trie.py | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index e1c6339..3904109 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -422,28 +422,6 @@ class SuffixTrie(Extra):
         return [k for k, v in sorted(self._suffix_array, key=lambda x: x[1])]
 
     # =============================    LCS/LRS   ==============================
-    def __get_deepest_nodes(self):
-        """
-        Returns a list of the trie nodes found in the deepest one or two levels
-        of the `SuffixTrie()` instance. It returns a list of the deepest two
-        level only if the height of the SuffixTrie exceeds 2. Other than that,
-        it returns a list of the deepest level.
-
-        Returns
-        -------
-        list:
-            A list of the deepest `TrieNode()` objects found in the
-            `SuffixTrie()` instanece.
-        """
-        if self._rt.is_empty():
-            return self._rt._root
-        level_nodes = (
-            self._rt._get_nodes_per_level(self._rt._root, 0, [], False)
-        )
-        if len(level_nodes) > 2:
-            return level_nodes[-1] + level_nodes[-2]
-        return level_nodes[-1]
-
     def _get_ancestors_data(self, node):
         """
         Gets all the data in the ancestors (parent, then grand-parent, then
@@ -532,7 +510,7 @@ class SuffixTrie(Extra):
             return []
         lcs_set = set()
         longest_length = 0
-        for node in self.__get_deepest_nodes():
+        for node in self._leaf_nodes.values():
             lcs = self._get_ancestors_data(node)
             longest_length = max(longest_length, len(lcs))
             lcs_set.add(lcs)
-- 
2.43.0


From 55e7e819d9e89cbc0335943340c22cc42a50d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 25/29] fix: the end marker of a suffix trie is not part of the
 text

---
 extra/trees/suffix_trie.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index 3904109..4855617 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -385,6 +385,9 @@ class SuffixTrie(Extra):
         >>> st.has_substring("ab")
         False
         """
+        if type(substr) == str and "$" in substr:
+            # "$" marks the end of the text, it is never part of it
+            return False
         return self._rt.has_prefix(substr)
 
     def to_suffix_array(self):
@@ -665,7 +668,7 @@ class SuffixTrie(Extra):
         >>> st.count_pattern_occurrences("bann")
         0
         """
-        if type(pattern) != str:
+        if type(pattern) != str or "$" in pattern:
             return 0
         last_node, remaining = self._rt._follow_path(pattern)
         if remaining:
-- 
2.43.0


From 2b11de5a920304ade295f9946d5bcbc04955f87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 26/29] fix: the lowest common ancestor accepts the empty
 suffix on either side

---
 extra/trees/suffix_trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index 4855617..eebcf78 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -604,7 +604,7 @@ class SuffixTrie(Extra):
             raise TypeError("`i` and `j` should be integer values!!")
         elif i < 0 or j < 0:
             raise ValueError("`i` and `j` should be postive integer values!!")
-        elif i >= len(self._word) or j > len(self._word):
+        elif i > len(self._word) or j > len(self._word):
             raise ValueError(
                 f"`i` and `j` values can't exceed {len(self._word)} "
                 + f"since it is the length of given word: `{self._word}`!!"
-- 
2.43.0


From e619de477110a46bb6fb7b928e680693d571dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 27/29] fix: red-black insertion stops recolouring at a black
 node

---
 extra/trees/red_black_tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index e6b568b..4af62e5 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -513,7 +513,10 @@ class RedBlackTree(BST):
             return parent if parent else start_node
 
         # case I
-        if parent.get_color() == Color.BLACK:
+        if (
+            parent.get_color() == Color.BLACK
+            or start_node.get_color() == Color.BLACK
+        ):
             # do nothing
             # print("Case I")
             return self._root
-- 
2.43.0


From 5978e9fd83ce02895428c758566b8e8894f7d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 28/29] fix: removing a node with two children unlinks its
 replacement instead of shifting values

---
 extra/trees/bst.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/extra/trees/bst.py b/extra/trees/bst.py
index fe6c3e8..350b094 100644
--- a/extra/trees/bst.py
+++ b/extra/trees/bst.py
@@ -891,15 +891,19 @@ class BST(BinaryTree):
             else:
                 parent.set_right(replacement)
         else:
-            if replacement.is_leaf():
-                new_replacement = None
-            elif replacement.get_left():
-                new_replacement = replacement.get_left()
-            else:
-                new_replacement = replacement.get_right()
             # swap data
             self._basic_node.swap(node, replacement)
-            self._transplant(replacement, new_replacement)
+            # unlink the replacement; it has one child at most
+            child = (
+                replacement.get_left()
+                if replacement.get_left()
+                else replacement.get_right()
+            )
+            parent = replacement.get_parent()
+            if parent.get_left() == replacement:
+                parent.set_left(child)
+            else:
+                parent.set_right(child)
 
     def _remove(self, del_value, start_node):
         """
-- 
2.43.0


From 060dc24ec5a73bec6c4e0c95d9f927d6ae85b8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:35 +0000
Subject: [PATCH 29/29] =?UTF-8?q?fix:=20SuffixTrie=20iteration=20keeps=20'?=
 =?UTF-8?q?=20=E2=9F=B6=20'=20that=20belongs=20to=20the=20text?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 extra/trees/suffix_trie.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index eebcf78..ca835d8 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -315,7 +315,9 @@ class SuffixTrie(Extra):
         banana$,a,na,$,na,$,na$,$,na$,$,
         """
         for node in self._rt.__iter__():
-            yield node.split(" ⟶ ")[0]
+            # only what follows the end marker isn't part of the label
+            text, end_marker, _ = node.partition("$")
+            yield text + end_marker
 
     def to_list(self):
         """
-- 
2.43.0

