From 4d0889517bce05f94c30b7e964e12737c7c3c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 01/38] fix: copying a Vector must not destroy elements that
 were never constructed

---
 core/ds/array/Vector.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index 5032e34..c13bb38 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -36,7 +36,6 @@ public: // big five
         resize(ds.mCapacity_d);
         mSize_d = ds.mSize_d;
         for (int i = 0; i < mSize_d; i++) {
-            dstruct::destroy(mC_d + i);
             dstruct::construct(mC_d + i, ds.mC_d[i]);
         }
         return *this;
-- 
2.43.0


From bf2c35a996affb4163d54dc08130ff2594fdc55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 02/38] fix: Vector::push_back and resize accept an element of
 the vector itself

---
 core/ds/array/Vector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index c13bb38..83f379f 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -96,12 +96,15 @@ public: // Modifiers
 
     void push_back(ConstReferenceType element) {
         if (mSize_d + 1 > mCapacity_d) {
+            ValueType saved(element); // element may live in the storage that resize releases
             if (mSize_d)
                 resize(2 * mSize_d);
             else
                 resize(2);
+            dstruct::construct(mC_d + mSize_d, saved);
+        } else {
+            dstruct::construct(mC_d + mSize_d, element);
         }
-        dstruct::construct(mC_d + mSize_d, element);
         mSize_d++;
     }
 
@@ -186,6 +189,8 @@ public:
             return;
         }
 
+        ValueType saved(element); // element may live in the storage released below
+
         // alloc
         PointerType oldC = mC_d;
         mC_d = Vector::Alloc_::allocate(n);
@@ -202,7 +207,7 @@ public:
 
         // set
         for (int i = mSize_d; i < n; i++) {
-            dstruct::construct(mC_d + i, element);
+            dstruct::construct(mC_d + i, saved);
         }
 
         mCapacity_d = mSize_d = n;
-- 
2.43.0


From d622e43df35938ce0d0760ec0ba6d52cc6c73a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 03/38] fix: copying a SinglyLinkedList copies every element
 and keeps its own tail

---
 core/ds/linked-list/SinglyLinkedList.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 66cf9b2..01ec66b 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -77,10 +77,9 @@ public: // big five
                 push_back(nodePtr->data);
                 linkPtr = nextLinkPtr;
                 nextLinkPtr = nextLinkPtr->next;
-                auto nodePtr = Node_::to_node(linkPtr);
+                nodePtr = Node_::to_node(linkPtr);
             }
             push_back(nodePtr->data);
-            mTailNodePtr_d = nodePtr;
         }
         return *this;
     }
-- 
2.43.0


From a2790d9ef4535852ad32b4215b98f7419418218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 04/38] fix: SinglyLinkedList::push and pop keep the tail up to
 date

---
 core/ds/linked-list/SinglyLinkedList.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 01ec66b..1a14ebb 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -115,12 +115,20 @@ public:
         mTailNodePtr_d = nPtr;
     }
 
+    void push(const T &obj) {
+        push_front(obj); // keep mTailNodePtr_d up to date
+    }
+
     void push_front(const T &obj) {
         List_::push_front(obj);
         if (mSize_d == 1)
             mTailNodePtr_d = Node_::to_node(mHeadNode_d.link.next);
     }
 
+    void pop() {
+        pop_front(); // keep mTailNodePtr_d up to date
+    }
+
     void pop_front() {
         List_::pop_front();
         if (mSize_d == 0)
-- 
2.43.0


From a707748cecc2539833cd7dd973927c6972887154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 05/38] fix: moving an empty linked list leaves both lists
 empty and usable

---
 core/ds/linked-list/LinkedList.hpp       | 2 ++
 core/ds/linked-list/SinglyLinkedList.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ds/linked-list/LinkedList.hpp b/core/ds/linked-list/LinkedList.hpp
index 6bff19b..348dc5c 100644
--- a/core/ds/linked-list/LinkedList.hpp
+++ b/core/ds/linked-list/LinkedList.hpp
@@ -49,6 +49,8 @@ public: // big five
         // 2.only move data
         LinkedList_::mHeadNode_d = ds.mHeadNode_d;
         LinkedList_::mSize_d = ds.mSize_d;
+        if (LinkedList_::mSize_d == 0) // an empty list links to its own head
+            Node_::init(&mHeadNode_d);
         // 3.spec move impl in subclass
         // 4.reset
         Node_::init(&(ds.mHeadNode_d));
diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 1a14ebb..187e7af 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -87,7 +87,7 @@ public: // big five
     DSTRUCT_MOVE_SEMANTICS(SinglyLinkedList) {
         // move list
         List_::operator=(dstruct::move(ds));
-        mTailNodePtr_d = ds.mTailNodePtr_d;
+        mTailNodePtr_d = mSize_d == 0 ? &mHeadNode_d : ds.mTailNodePtr_d;
         mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);
         // reset
         ds.mTailNodePtr_d = &(ds.mHeadNode_d);
-- 
2.43.0


From e5d56c6c8cdb98bf0def28d025212f3307b323c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 06/38] fix: DisjointSet::connect of two already connected
 elements is a no-op

---
 core/ds/set/DisjointSet.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/set/DisjointSet.hpp b/core/ds/set/DisjointSet.hpp
index 59bc539..620b4ea 100644
--- a/core/ds/set/DisjointSet.hpp
+++ b/core/ds/set/DisjointSet.hpp
@@ -72,6 +72,7 @@ public:
     }
 
     void union_set(ConstReferenceType root1, ConstReferenceType root2) {
+        if (root1 == root2) return; // already one set
         if (root1 < root2) {
             mArray_d[root2] = root1;
         } else {
-- 
2.43.0


From b6a3d2740edb13ca877b1638803deb4ad678ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 07/38] fix: XValueStack survives repeated extreme values

---
 core/ds/stack/XValueStack.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 4d1a174..aabb188 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -51,7 +51,8 @@ public:
     T getXValue() const { return mXValue_d; }
 
     void push(const T &val) {
-        if (mStack_d.empty() || mCmp_d(val, mXValue_d)) {
+        // a tie is saved too: pop() restores the saved XValue whenever it removes an equal element
+        if (mStack_d.empty() || !mCmp_d(mXValue_d, val)) {
             mStack_d.push(mXValue_d); // save XValue
             mXValue_d = val;
         }
-- 
2.43.0


From b069daf3f137950973b6e8b8d8f93fcc43806dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 08/38] fix: BasicString("") is the empty string and reads
 nothing behind the terminator

---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 0fcf118..62b9285 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -38,6 +38,7 @@ public:
     }
 
     BasicString(const char *str) : BasicString() {
+        if (*str == '\0') return; // "": nothing to append, nothing to read behind it
         mCharList_d[-1] = *str;
         while (*(++str) != '\0') {
             mCharList_d.push_back(*str);
-- 
2.43.0


From 5895b428a5cfc2fe8ef87a8294a80eeb342d36fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 09/38] fix: a moved-from BasicString is a valid empty string

---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 62b9285..22eb236 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -34,6 +34,7 @@ public:
 
     DSTRUCT_MOVE_SEMANTICS(BasicString) {
         mCharList_d = dstruct::move(ds.mCharList_d);
+        ds.clear(); // ds stays a valid empty string
         return *this;
     }
 
-- 
2.43.0


From a9228b0c48af3ba3ba52e840de95e9b437d80b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 10/38] fix: BasicString += itself terminates

---
 core/ds/string/BasicString.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 22eb236..9c90093 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -121,9 +121,9 @@ public:
     BasicString & operator+=(const BasicString &str) {
         if (mCharList_d.capacity() < mCharList_d.size() + str.mCharList_d.size() - 1)
             mCharList_d.resize(mCharList_d.size() + str.mCharList_d.size() - 1);
-        mCharList_d[-1] = str[0];
-        for (int i = 1; i < str.mCharList_d.size(); i++) {
-            mCharList_d.push_back(str.mCharList_d[i]);
+        SizeType len = str.size(); // fixed before the loop: str may be *this
+        for (int i = 0; i < len; i++) {
+            push_back(str.mCharList_d[i]);
         }
         return *this;
     }
-- 
2.43.0


From c8cdc6d34c3c7f1de3f12f4ed1f0559eb8777e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 11/38] fix: DoubleEndedQueue compiles with, and takes all its
 memory from, the allocator it is given

---
 core/ds/queue/DoubleEndedQueue.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index d94b131..8457ef5 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -20,13 +20,13 @@ namespace dstruct {
 template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueue;
 
-template <typename T, size_t ARR_SIZE>
+template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueueIterator_ : public DStructIteratorTypeSpec<T, RandomIterator> {
-    friend class DoubleEndedQueue<T, ARR_SIZE, dstruct::Alloc>;
-    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE>; // for it -> const-it
+    friend class DoubleEndedQueue<T, ARR_SIZE, Alloc>;
+    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>; // for it -> const-it
 protected:
     using Array_         = dstruct::Array<T, ARR_SIZE>;
-    using ArrMapTable_   = dstruct::Vector<Array_ *>;
+    using ArrMapTable_   = dstruct::Vector<Array_ *, Alloc>;
 private:
     using Self = DoubleEndedQueueIterator_;
 
@@ -75,7 +75,7 @@ public:
 
     // for it -> const-it
     DoubleEndedQueueIterator_(
-        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE> &obj,
+        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE, Alloc> &obj,
         bool _unsedFlag // constructor dispatch flag
     ) : DoubleEndedQueueIterator_() {
 
@@ -157,12 +157,12 @@ protected:
  
 template <typename T, size_t ARR_SIZE, typename Alloc>
 class DoubleEndedQueue :
-    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE>, DoubleEndedQueueIterator_<const T, ARR_SIZE>> {
+    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE, Alloc>, DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>> {
 
 protected:
     using Array_         = Array<T, ARR_SIZE>;
     using AllocArray_    = dstruct::AllocSpec<Array_, Alloc>;
-    using ArrMapTable_   = Vector<Array_ *>;
+    using ArrMapTable_   = Vector<Array_ *, Alloc>;
 /*
     struct Block_ {
         typename ArrMapTable_::IteratorType arr; // point to Array
-- 
2.43.0


From 2a8bc7f96df6798f0c76d5c755fb4f9f32ad4212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 12/38] fix: begin() == end() for a DoubleEndedQueue that was
 never filled or was cleared

---
 core/ds/queue/DoubleEndedQueue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 8457ef5..127595c 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -31,7 +31,7 @@ private:
     using Self = DoubleEndedQueueIterator_;
 
 protected: // only for DoubleEndedQueue
-    DoubleEndedQueueIterator_() : mArrMapTablePtr_d { nullptr } { }
+    DoubleEndedQueueIterator_() : mCurrMapIndex_d { 0 }, mCurr_d { nullptr }, mArrMapTablePtr_d { nullptr } { _sync(); }
 
 public:
     DoubleEndedQueueIterator_(
@@ -323,7 +323,7 @@ protected:
             // reset
             mSize_d = mCapacity_d = 0;
             mArrMapTable_d.clear();
-            //mBegin_d = mEnd_d = nullptr;
+            mBegin_d = mEnd_d = decltype(mBegin_d)();
         }
     }
 
-- 
2.43.0


From 68cdb6ac720998207168bc2a58d1a76e4d5e9232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 13/38] fix: a moved-to DoubleEndedQueue walks its own map
 table

---
 core/ds/queue/DoubleEndedQueue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 127595c..d3590af 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -192,6 +192,7 @@ public:
         mArrMapTable_d = dstruct::move(ds.mArrMapTable_d);
         mBegin_d = dstruct::move(ds.mBegin_d);
         mEnd_d = dstruct::move(ds.mEnd_d);
+        mBegin_d.mArrMapTablePtr_d = mEnd_d.mArrMapTablePtr_d = &mArrMapTable_d;
 
         // reset ds
         ds.mSize_d = ds.mCapacity_d = 0;
-- 
2.43.0


From 06151adc75fc1bb4cba5602b1b9fecb3172cac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 14/38] fix: DoubleEndedQueue does not construct elements
 nobody pushed (they were never destroyed)

---
 core/ds/queue/DoubleEndedQueue.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index d3590af..be891e4 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -338,8 +338,7 @@ protected:
         mArrMapTable_d.resize(MIN_MAP_TABLE_SIZE, nullptr);
         // alloc arr and fill map-table
         for (int i = 0; i < MIN_MAP_TABLE_SIZE; i++) {
-            mArrMapTable_d[i] = AllocArray_::allocate();
-            dstruct::construct(mArrMapTable_d[i], Array_());
+            mArrMapTable_d[i] = AllocArray_::allocate(); // raw: push constructs the elements
         }
         auto midMapIndex = MIN_MAP_TABLE_SIZE / 2;
         mBegin_d = mEnd_d = decltype(mBegin_d)(midMapIndex, 0, &mArrMapTable_d);
@@ -376,8 +375,7 @@ protected:
         // build new map table
         for (int i = 0; i < newMapTableSize ; i++) {
             if (i < newArrStartIndex || newArrEndIndex < i) {
-                mArrMapTable_d[i] = AllocArray_::allocate();
-                dstruct::construct(mArrMapTable_d[i], Array_());
+                mArrMapTable_d[i] = AllocArray_::allocate(); // raw: push constructs the elements
             } else {
                 mArrMapTable_d[i] = oldArrMapTable[oldArrStartIndex + (i - newArrStartIndex)];
             }
-- 
2.43.0


From 22802b587a4781a669a4dc4c697f8f2aa04917c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 15/38] fix: BinarySearchTree deletes a node with two children
 by its in-order successor

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 64aa446..44e90a3 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -209,7 +209,7 @@ protected:
         } else { // have l and r, haven't del the node directly
             // step1: find right-bot
             typename Node_::LinkType *tmp = linkPtr->right;
-            while (nullptr == tmp->left) {
+            while (nullptr != tmp->left) {
                 tmp = tmp->left;
             }
 
-- 
2.43.0


From c34003ac0841284dd195b44a9c73f5bf3466a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 16/38] fix: BinarySearchTree::pop of an absent element is a
 no-op

---
 core/ds/tree/BinarySearchTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 44e90a3..cb12564 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -187,6 +187,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // obj isn't in the tree
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data)) {
             root->left = _delete(root->left, obj);
-- 
2.43.0


From 9c794204be1b2cad0c48a63606f5b937e5b3a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 17/38] fix: BinarySearchTree::push of an element it already
 holds leaves the size alone

---
 core/ds/tree/BinarySearchTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index cb12564..2b8b7fe 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -70,7 +70,7 @@ public: // push/pop
         auto tree = _insert(obj);
         if (BinaryTree_e::mRootPtr_d == nullptr)
             BinaryTree_e::_update_root(tree);
-        BinaryTree_e::mSize_d++;
+        // mSize_d++; in _insert
     }
 
     void pop(const T &obj) {
@@ -166,6 +166,7 @@ protected:
         auto nodePtr = AllocNode_::allocate();
         auto newNodeLink = Node_::to_link(nodePtr);
         dstruct::construct(nodePtr, Node_(obj));
+        BinaryTree_e::mSize_d++;
 
         if (parent != nullptr) { // nodePtr isn't root
             newNodeLink->parent = parent;
-- 
2.43.0


From c27acd6add85430181725c807e1e5bcd40801eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 18/38] fix: BinarySearchTree::erase finds the node of
 over-aligned elements

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 2b8b7fe..cb7a49f 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -95,7 +95,7 @@ public:
     typename BinarySearchTree::ConstIteratorType
     erase(typename BinarySearchTree::ConstIteratorType it) {
 
-        auto target = Node_::data_to_link(it.operator->());
+        auto target = it._get_link_pointer();
         auto parent = target->parent;
         auto next = it; it++; // get next node
 
-- 
2.43.0


From a9312826eeae12d7a39ba88dd50e52f7eda0d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 19/38] fix: copying a BinarySearchTree compiles and constructs
 the new nodes

---
 core/ds/tree/BinaryTree.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 382ed99..096e2e0 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -184,16 +184,18 @@ public:
             return nullptr;
 
         Node_ *newRoot = AllocNode_::allocate();
-        newRoot->data = root->data;
-        newRoot->parent = nullptr;
+        dstruct::construct(newRoot, *root);
 
-        newRoot->left = copy(root->left);
-        if (newRoot->left)
-            newRoot->left->parent = newRoot;
+        auto newLink = Node_::to_link(newRoot);
+        newLink->parent = nullptr;
 
-        newRoot->right = copy(root->right);
-        if (newRoot->right)
-            newRoot->right->parent = newRoot;
+        newLink->left = Node_::to_link(copy(Node_::to_node(root->link.left)));
+        if (newLink->left)
+            newLink->left->parent = newLink;
+
+        newLink->right = Node_::to_link(copy(Node_::to_node(root->link.right)));
+        if (newLink->right)
+            newLink->right->parent = newLink;
 
         return newRoot;
     }
-- 
2.43.0


From f63c99a78d491924da83c0f9c9e9184022e1e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 20/38] fix: begin() of an empty tree is end()

---
 core/ds/tree/BinaryTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 096e2e0..004f0f8 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -213,6 +213,7 @@ public:
 
     static typename Node_::LinkType * first_node(typename Node_::LinkType *root, TraversalType ttype = TraversalType::InOrder) {
         auto first = root;
+        if (first == nullptr) return nullptr; // empty tree
         if (ttype != TraversalType::PreOrder) {
             while (first->left != nullptr) {
                 first = first->left;
-- 
2.43.0


From 883181cd8db5da7dee0d3d5f935fde9f0239d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 21/38] fix: in-order and post-order traversal visit the whole
 tree

---
 core/ds/tree/BinaryTree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 004f0f8..f71a24e 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -155,17 +155,17 @@ public: // algo
 
         switch (ttype) {
             case TraversalType::PreOrder:
-                return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::InOrder:
-                return  tree::inorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::inorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::PostOrder:
-                return  tree::postorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::postorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             default: {
                 DSTRUCT_ASSERT(false);
             }
         }
 
-        return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+        return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
     }
 
 public: // range-for and iterator
-- 
2.43.0


From 9dd78698f6907cc659591752a06a2835efe64c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 22/38] fix: post-order iteration visits every node once,
 children first

---
 core/ds/tree/BinaryTree.hpp         |  7 ++++++-
 core/ds/tree/EmbeddedBinaryTree.hpp | 12 +++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index f71a24e..f4bdf24 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -214,10 +214,15 @@ public:
     static typename Node_::LinkType * first_node(typename Node_::LinkType *root, TraversalType ttype = TraversalType::InOrder) {
         auto first = root;
         if (first == nullptr) return nullptr; // empty tree
-        if (ttype != TraversalType::PreOrder) {
+        if (ttype == TraversalType::InOrder) {
             while (first->left != nullptr) {
                 first = first->left;
             }
+        } else if (ttype == TraversalType::PostOrder) {
+            // the first leaf, it may be below a right child
+            while (first->left != nullptr || first->right != nullptr) {
+                first = first->left != nullptr ? first->left : first->right;
+            }
         }
         return first;
     }
diff --git a/core/ds/tree/EmbeddedBinaryTree.hpp b/core/ds/tree/EmbeddedBinaryTree.hpp
index a86f18d..dbcaf0d 100644
--- a/core/ds/tree/EmbeddedBinaryTree.hpp
+++ b/core/ds/tree/EmbeddedBinaryTree.hpp
@@ -140,8 +140,10 @@ static BinaryTreeLink_ * next_postorder(BinaryTreeLink_ *link) {
         return nullptr;
     }
 
-    if (link->right != nullptr) {
-        link = link->right;
+    // from left sub-tree to the first leaf of the right sub-tree
+    auto parent = link->parent;
+    if (parent != nullptr && parent->right != nullptr && parent->right != link) {
+        link = parent->right;
         while (link->left != nullptr || link->right != nullptr) {
             if (link->left != nullptr) {
                 link = link->left;
@@ -152,11 +154,7 @@ static BinaryTreeLink_ * next_postorder(BinaryTreeLink_ *link) {
         return link;
     }
 
-    // link->parent != nullptr : root check
-    while (link->parent != nullptr && link->parent->right == link) {
-        link = link->parent;
-    }
-    return link->parent;
+    return parent;
 }
 
 template <typename Callback>
-- 
2.43.0


From 3f6860075ee6d8e462c9669a649cf38bc67004b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 23/38] fix: AVLTree::begin/end honour the requested traversal

---
 core/ds/tree/AVLTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index df3ff65..805824c 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -162,12 +162,12 @@ public: // range-for and iterator
 
     typename AVLTree::ConstIteratorType
     begin(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::begin();
+        return BinaryTree_e::begin(ttype);
     }
 
     typename AVLTree::ConstIteratorType
     end(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::end();
+        return BinaryTree_e::end(ttype);
     }
 
 protected:
-- 
2.43.0


From d257f75d9b495fde15baa4b8ff84fbd4da267dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 24/38] fix: AVLTree and Map can be copied and moved

---
 core/ds/tree/AVLTree.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 805824c..74e8837 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -109,6 +109,31 @@ public:
 public:
     AVLTree(CMP cmp = CMP()) : BinaryTree_e { nullptr, 0 }, mCmp_d { cmp } { }
 
+    DSTRUCT_COPY_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+        return *this;
+    }
+
+    DSTRUCT_MOVE_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+
+        // move
+        BinaryTree_e::mRootPtr_d = ds.mRootPtr_d;
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+
+        // reset
+        ds.mRootPtr_d = nullptr;
+        ds.mSize_d = 0;
+
+        return *this;
+    }
+
+    ~AVLTree() = default;
+
 public:
     void push(const T &element) {
         auto root = _insert(Node_::to_link(BinaryTree_e::mRootPtr_d), element);
-- 
2.43.0


From 3a5adec8f4856c617a0f5b253ada685cce3748f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 25/38] fix: AVLTree::pop of an absent element is a no-op

---
 core/ds/tree/AVLTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 74e8837..81f7c93 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -322,6 +322,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // obj isn't in the tree
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data.val)) {
             root->left = _delete(root->left, obj);
-- 
2.43.0


From 1e39e79c826ec2e48e564c7431ed83bcccb6c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 26/38] fix: AVLTree::erase of the root leaves no dangling root

---
 core/ds/tree/AVLTree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 81f7c93..a19b77b 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -291,6 +291,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else { // is root
+                BinaryTree_e::_update_root(nullptr);
             }
 
             _real_delete(target);
@@ -313,6 +315,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else { // is root
+                BinaryTree_e::_update_root(child);
             }
 
             _real_delete(target);
-- 
2.43.0


From d099ccfedeb31d241213c50cdf9ca6a9052c8d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 27/38] fix: AVLTree::erase and Map::erase work for elements
 that can not be assigned

---
 core/ds/tree/AVLTree.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index a19b77b..6c5ac70 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -166,17 +166,10 @@ public:
     erase(typename AVLTree::ConstIteratorType it) {
         auto target = it._get_link_pointer();
         decltype(it) next = ++it;
-        typename RemoveConst<T>::Type nextData;
-        bool needUpdateNext = false;
-        
-        if (next._get_link_pointer() != nullptr) {
-            nextData = *next;
-            needUpdateNext = true;
-        }
 
-        _delete_by_target(target);
+        _delete_by_target(target); // Note: it only relinks nodes, next is still valid
 
-        return needUpdateNext ? find(nextData) : next;
+        return next;
     }
 
     int height() const {
-- 
2.43.0


From 113dbd630d1f8710fd2d1ad063503e0a9b1d03bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 28/38] fix: Map::operator[] const compiles

---
 core/ds/Map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/Map.hpp b/core/ds/Map.hpp
index 807b6d7..f159e84 100644
--- a/core/ds/Map.hpp
+++ b/core/ds/Map.hpp
@@ -114,7 +114,7 @@ public: // Access & Modifiers
     }
 
 public:
-    IteratorType find(const KeyType &key) {
+    IteratorType find(const KeyType &key) const {
         return mDStruct_d.find(KeyValueType { key, ValueType() });
     }
 
-- 
2.43.0


From 0258b1abef228c4617c25c0da14cac9232b069f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 29/38] fix: StaticMemAllocator hands out memory aligned to
 SMA_MEM_ALIGN

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 1d8c0ed..de42480 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -138,7 +138,7 @@ public: // mem-manager interface
 
 protected:
     int mFreeMemSize_d;
-    char mMemoryPool_d[MEMORY_SIZE];
+    alignas(SMA_MEM_ALIGN) char mMemoryPool_d[MEMORY_SIZE];
     dstruct::Array<Link_e, MAX_BLOCK_SIZE / SMA_MEM_ALIGN + 1/*MemPoolManager*/> mFreeMemList_d;
 
     static StaticMemAllocator & Instance_() {
-- 
2.43.0


From 46123bec6ade6d09c927352b6c915e7df99c7e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 30/38] fix: StaticMemAllocator rejects non-positive and huge
 requests and keeps its pool

---
 memory/StaticMemAllocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index de42480..acf41bd 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -156,6 +156,9 @@ protected:
 
     void * allocate_d(int bytes) {
 
+        // reject what can't be served, so that round-up never overflows
+        if (bytes <= 0 || bytes > mFreeMemSize_d) return nullptr;
+
         MemBlock_e targetMemBlockIndex;
 
         if (bytes > MAX_BLOCK_SIZE) {
-- 
2.43.0


From 519b8b628890bb4450b7a7c074b607c659856707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 31/38] fix: DoubleEndedQueue gives memory back, a short queue
 no longer grows with every push/pop

---
 core/ds/queue/DoubleEndedQueue.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index be891e4..55cfb61 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -361,11 +361,8 @@ protected:
         size_t newArrStartIndex = ((n - mSize_d) / 2) / ARR_SIZE;
         size_t newArrEndIndex = newArrStartIndex + arrNum;
 
-        // request: n / ARR_SIZE <= ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
-        // n = y * oldCapacity  
-        if (!isExtend && newMapTableSize >= arrNum) {
-            // when arrNum = ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
-            // exist newMapTableSize < arrNum
+        // shrink only when the used arrays, and one more behind them, fit into the new map table
+        if (!isExtend && newArrEndIndex + 1 >= newMapTableSize) {
             return;
         }
 
-- 
2.43.0


From 76624b299b5212e0a7400f184fec72ec0dcf1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 32/38] fix: XValueStack::push accepts an element of the stack
 itself

---
 core/ds/stack/XValueStack.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index aabb188..ba97740 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -53,10 +53,13 @@ public:
     void push(const T &val) {
         // a tie is saved too: pop() restores the saved XValue whenever it removes an equal element
         if (mStack_d.empty() || !mCmp_d(mXValue_d, val)) {
+            T saved(val); // val may live in mStack_d, which can move when it grows
             mStack_d.push(mXValue_d); // save XValue
-            mXValue_d = val;
+            mXValue_d = saved;
+            mStack_d.push(saved);
+        } else {
+            mStack_d.push(val);
         }
-        mStack_d.push(val);
     }
 
     void pop() {
-- 
2.43.0


From 6c139b45bd7c921ed7f106a28ac99c27790f5bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 33/38] fix: memory_merge finds the adjacent block behind lower
 ones

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index acf41bd..506139d 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -259,7 +259,7 @@ protected: // quick allocator
                                 break;
                             }
 
-                            if (firstMemBlockPtr > secondMemBlockPtr) break;
+                            if (firstMemBlockPtr < secondMemBlockPtr) break; // sorted: no later block is adjacent
 
                             secondMemLinkPtr = secondMemBlockPtr;
                             secondMemBlockPtr = secondMemLinkPtr->next;
-- 
2.43.0


From ffc034a53eabc115f18e419ddfd616f5bb5d4fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 34/38] fix: DoubleEndedQueue tells apart positions of arrays
 that lie next to each other in memory

---
 core/ds/queue/DoubleEndedQueue.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 55cfb61..00d7b86 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -141,6 +141,10 @@ public: // RandomIterator
         return self;
     };
 
+public: // the end of an array and the begin of another one may be the same address
+    bool operator==(const Self &it) const { return mCurrMapIndex_d == it.mCurrMapIndex_d && mCurr_d == it.mCurr_d; }
+    bool operator!=(const Self &it) const { return !(*this == it); }
+
 private:
     // update mLNodePtr_d and mPointer_d
     void _sync() {
@@ -245,7 +249,7 @@ public: // push/pop
         if (mCapacity_d == 0) {
             DSTRUCT_ASSERT(mArrMapTable_d.empty());
             _only_init();
-        } else if (mEnd_d.mCurr_d == mArrMapTable_d.back()->end()) {
+        } else if (mEnd_d.mCurrMapIndex_d + 1 == mArrMapTable_d.size() && mEnd_d.mCurr_d == mArrMapTable_d.back()->end()) {
             _resize(mCapacity_d * 2);
         }
         dstruct::construct(&(*mEnd_d), obj);
@@ -257,7 +261,7 @@ public: // push/pop
         if (mCapacity_d == 0) {
             DSTRUCT_ASSERT(mArrMapTable_d.empty());
             _only_init();
-        } else if (mBegin_d.mCurr_d == mArrMapTable_d[0]->begin()) {
+        } else if (mBegin_d.mCurrMapIndex_d == 0 && mBegin_d.mCurr_d == mArrMapTable_d[0]->begin()) {
             _resize(mCapacity_d * 2);
         }
         mBegin_d--;
@@ -397,7 +401,7 @@ protected:
             mEnd_d._sync();
 
             // only if old_mEnd == mBegin_d
-            if (mBegin_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
+            if (mBegin_d.mCurrMapIndex_d == newArrEndIndex && mBegin_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
                 mBegin_d = mEnd_d;
             }
         }
-- 
2.43.0


From 2d09db86acc7bd7c0b7aab742bafcbd6398963ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 35/38] fix: disjoint set attaches the lower tree to the higher
 one, by rank and not by index

---
 core/ds/set/DisjointSet.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ds/set/DisjointSet.hpp b/core/ds/set/DisjointSet.hpp
index 620b4ea..2b6ceb0 100644
--- a/core/ds/set/DisjointSet.hpp
+++ b/core/ds/set/DisjointSet.hpp
@@ -73,8 +73,9 @@ public:
 
     void union_set(ConstReferenceType root1, ConstReferenceType root2) {
         if (root1 == root2) return; // already one set
-        if (root1 < root2) {
-            mArray_d[root2] = root1;
+        // the root of a set holds -(rank): attach the lower tree to the higher one
+        if (mArray_d[root1] > mArray_d[root2]) {
+            mArray_d[root1] = root2;
         } else {
             if (mArray_d[root1] == mArray_d[root2])
                 mArray_d[root1]--;
-- 
2.43.0


From c55c282d630170dad573f93bd7fef85039173085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 36/38] fix: a request for more bytes than Alloc can count is
 refused, not cut to an int

---
 spec/DStructSpec.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spec/DStructSpec.hpp b/spec/DStructSpec.hpp
index 6de7657..53fedb0 100644
--- a/spec/DStructSpec.hpp
+++ b/spec/DStructSpec.hpp
@@ -44,11 +44,12 @@ struct Alloc {
 */
 template <typename T, typename Alloc>
 struct AllocSpec {
-    static T *allocate(int n = 1) {
+    static T *allocate(size_t n = 1) {
+        DSTRUCT_CRASH(n > 0x7fffffff / sizeof(T)); // Alloc counts bytes as int
         return static_cast<T *>(Alloc::allocate(n * sizeof(T)));
     }
 
-    static void deallocate(T *ptr, int n = 1) {
+    static void deallocate(T *ptr, size_t n = 1) {
         Alloc::deallocate(ptr, n * sizeof(T));
     }
 };
-- 
2.43.0


From e28825107d5e70ba01f2a3dd9bdc12c3b74c7a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 37/38] fix: a request for more bytes than Alloc can count is
 refused by Vector and deque (the interface spec stays as it was)

---
 core/ds/array/Vector.hpp           | 3 +++
 core/ds/queue/DoubleEndedQueue.hpp | 1 +
 spec/DStructSpec.hpp               | 5 ++---
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index 83f379f..5d6dc5e 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -159,6 +159,7 @@ public: // iterator
 
 public:
     void resize(size_t n) {
+        DSTRUCT_CRASH(n > 0x7fffffff / sizeof(T)); // Alloc counts bytes as int
         PointerType oldC = mC_d;
 
         if (n == 0)
@@ -189,6 +190,8 @@ public:
             return;
         }
 
+        DSTRUCT_CRASH(n > 0x7fffffff / sizeof(T)); // Alloc counts bytes as int
+
         ValueType saved(element); // element may live in the storage released below
 
         // alloc
diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 00d7b86..73af321 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -336,6 +336,7 @@ protected:
     void _only_init() {
 
         DSTRUCT_ASSERT(mArrMapTable_d.empty() && mCapacity_d == 0);
+        DSTRUCT_CRASH(sizeof(Array_) > 0x7fffffff); // Alloc counts bytes as int
 
         mSize_d = 0;
         mCapacity_d = MIN_MAP_TABLE_SIZE * ARR_SIZE;
diff --git a/spec/DStructSpec.hpp b/spec/DStructSpec.hpp
index 53fedb0..6de7657 100644
--- a/spec/DStructSpec.hpp
+++ b/spec/DStructSpec.hpp
@@ -44,12 +44,11 @@ struct Alloc {
 */
 template <typename T, typename Alloc>
 struct AllocSpec {
-    static T *allocate(size_t n = 1) {
-        DSTRUCT_CRASH(n > 0x7fffffff / sizeof(T)); // Alloc counts bytes as int
+    static T *allocate(int n = 1) {
         return static_cast<T *>(Alloc::allocate(n * sizeof(T)));
     }
 
-    static void deallocate(T *ptr, size_t n = 1) {
+    static void deallocate(T *ptr, int n = 1) {
         Alloc::deallocate(ptr, n * sizeof(T));
     }
 };
-- 
2.43.0


From 807398103be363dc7bdd30da0505164ea5b3bf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 38/38] fix: a Heap moved to itself keeps its elements

---
 core/ds/Heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/Heap.hpp b/core/ds/Heap.hpp
index d2b98f1..f369db5 100644
--- a/core/ds/Heap.hpp
+++ b/core/ds/Heap.hpp
@@ -50,6 +50,7 @@ public:
 
     Heap(Heap &&hep) { *this = dstruct::move(hep); }
     Heap & operator=(Heap &&hep) {
+        if (this == &hep) return *this;
         this->mCmp_d = hep.mCmp_d;
         this->mHeap_d = dstruct::move(hep.mHeap_d);
         hep.mHeap_d.resize(1, this->mHeap_d[0]);
-- 
2.43.0

