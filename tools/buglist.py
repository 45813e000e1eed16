X='core/ds/stack/XValueStack.hpp'
T='core/ds/tree/BinarySearchTree.hpp'
A='core/ds/tree/AVLTree.hpp'
M='memory/StaticMemAllocator.hpp'
V='core/ds/array/Vector.hpp'
Q='core/ds/queue/DoubleEndedQueue.hpp'
H='core/ds/Heap.hpp'
L='core/ds/linked-list/SinglyLinkedList.hpp'
V='core/ds/array/Vector.hpp'
bug('vector-shrink-overrun','C21',V,'''        if (oldC) {
            DSTRUCT_ASSERT(mCapacity_d != 0);
            for (int i = 0; i < mSize_d; i++) {
                if (i < n)''','''        if (oldC) {
            DSTRUCT_ASSERT(mCapacity_d != 0);
            for (int i = 0; i < mSize_d; i++) {
                if (i <= n)''',
 'resize(n) to a size smaller than the number of elements inside (but not 0)',
 'one element more than fits is constructed behind the new storage block',
'''static int live = 0;
struct T { T() { live++; } T(const T &) { live++; } ~T() { live--; } };
int main() {
    { dstruct::Vector<T> v; T t;
      for (int i = 0; i < 6; i++) v.push_back(t);
      v.resize(3);
      CHECK(v.size() == 3); CHECK(live == 4); }
    CHECK(live == 0);
    return 0;
}
''')
bug('vector-release-used-part','C21',V,'''                Vector::Alloc_::deallocate(mC_d, mCapacity_d);''','''                Vector::Alloc_::deallocate(mC_d, mSize_d);''',
 'an allocator that relies on the size given back, and a Vector whose capacity exceeds its size when it is cleared or destroyed',
 'the block is returned with the number of used slots instead of the size it was requested with',
'''static long balance = 0;
struct A { static void *allocate(int n) { balance += n; return std::malloc(n); }
           static void deallocate(void *p, int n) { balance -= n; std::free(p); } };
int main() {
    { dstruct::Vector<int, A> v; for (int i = 0; i < 5; i++) v.push_back(i); }
    CHECK(balance == 0);
    return 0;
}
''')
bug('vector-linear-growth','C31',V,'resize(2 * mSize_d);','resize(mSize_d + 8);',
 'a long series of push_back',
 'capacity grows by a constant, so filling a Vector requests storage linearly often',
'''static int calls = 0;
struct A { static void *allocate(int n) { calls++; return std::malloc(n); }
           static void deallocate(void *p, int n) { std::free(p); } };
int main() {
    dstruct::Vector<int, A> v;
    for (int i = 0; i < 1000; i++) v.push_back(i);
    CHECK(calls <= 30);
    return 0;
}
''')
Q='core/ds/queue/DoubleEndedQueue.hpp'
bug('deque-recentre-keeps-last-block','C21',Q,'''            if (i < oldArrStartIndex || oldArrEndIndex < i) {
                //dstruct''','''            if (i < oldArrStartIndex || oldArrEndIndex + 1 < i) {
                //dstruct''',
 'pops that shrink the map table while there is an unused block right behind the used ones',
 'the block behind the last used one is dropped without being given back',
'''static long balance = 0;
struct A { static void *allocate(int n) { balance += n; return std::malloc(n); }
           static void deallocate(void *p, int n) { balance -= n; std::free(p); } };
int main() {
    { dstruct::DoubleEndedQueue<int, 2, A> q;
      for (int i = 0; i < 40; i++) q.push_back(i);
      for (int i = 0; i < 40; i++) q.pop_back(); }
    CHECK(balance == 0);
    return 0;
}
''')
bug('dlist-move-first-prev','C20','core/ds/linked-list/DoublyLinkedList.hpp','''        mHeadNode_d.link.prev->next = headLinkPtr;
        mHeadNode_d.link.next->prev = headLinkPtr;''','''        mHeadNode_d.link.prev->next = headLinkPtr;''',
 'a move, then stepping backwards to the head or removing the only element at the back',
 'the first node of the moved list still points back to the head of the source',
'''int main() {
    dstruct::DoublyLinkedList<int> a, b;
    a.push_back(1);
    b = dstruct::move(a);
    b.pop_back();
    CHECK(b.empty()); CHECK(a.empty());
    CHECK(!(b.begin() != b.end()));
    a.push_back(2); CHECK(a.back() == 2); CHECK(a.front() == 2);
    b.push_back(3); CHECK(b.back() == 3); CHECK(b.front() == 3);
    return 0;
}
''')
bug('dlist-postdecrement','C23','core/ds/linked-list/DoublyLinkedList.hpp','''        auto oldLinkPtr = mLinkPtr_d;
        _sync(mLinkPtr_d->prev);
        return oldLinkPtr;''','''        _sync(mLinkPtr_d->prev);
        return *this;''',
 'using the value of it--',
 'the post-decrement of the doubly linked list iterator yields the new position',
'''int main() {
    dstruct::DoublyLinkedList<int> l; l.push_back(1); l.push_back(2);
    auto it = l.begin(); ++it;
    CHECK(*(it--) == 2); CHECK(*it == 1);
    return 0;
}
''')
bug('dlist-copy-appends','C19','core/ds/linked-list/DoublyLinkedList.hpp','''        clear();
        // copy
        for (auto it''','''        if (ds.empty()) clear();
        // copy
        for (auto it''',
 'copy-assigning to a list that is not empty',
 'the former contents of the target stay in front of the copied ones',
'''int main() {
    dstruct::DoublyLinkedList<int> a, b; a.push_back(1); b.push_back(2);
    b = a;
    CHECK(b.size() == 1); CHECK(b.front() == 1);
    return 0;
}
''')
H='core/ds/Heap.hpp'
bug('heap-build-last-parent','C10',H,'int i = (mHeap_d.size() - 1) / 2; i >= 1','int i = (mHeap_d.size() - 2) / 2; i >= 1',
 'a range with an even number of elements whose last element belongs above its parent',
 'the last parent of an even-sized range is not sifted down when a heap is built',
'''int main() {
    for (int n = 1; n <= 8; n++) for (int big = 0; big < n; big++) {
        dstruct::Vector<int> v;
        for (int i = 0; i < n; i++) v.push_back(i == big ? 0 : 5 + i % 2);
        dstruct::Heap<int, dstruct::less<int>>::sort(v.begin(), v.end());
        for (int i = 1; i < n; i++) CHECK(v[i - 1] <= v[i]);
    }
    return 0;
}
''')
bug('minstack-move-forgets-extreme','C20',X,'''        mXValue_d = dstruct::move(ds.mXValue_d);
        mCmp_d = dstruct::move(ds.mCmp_d);''','''        if (mStack_d.empty()) mXValue_d = dstruct::move(ds.mXValue_d);
        mCmp_d = dstruct::move(ds.mCmp_d);''',
 'move assignment to a MinStack that still has elements',
 'the target keeps the extreme value of its former contents',
'''int main() {
    dstruct::MinStack<int> a, b;
    a.push(5); a.push(3); b.push(1);
    b = dstruct::move(a);
    CHECK(b.getXValue() == 3); b.pop(); CHECK(b.getXValue() == 5); CHECK(b.top() == 5);
    return 0;
}
''')
T='core/ds/tree/BinarySearchTree.hpp'
bug('bst-pop-stale-parent','C12',T,'''        if (subTree)
            subTree->parent = linkPtr->parent;''','''        if (subTree && linkPtr->parent == nullptr)
            subTree->parent = linkPtr->parent;''',
 'removing a node with exactly one child that is not the root, then iterating past that child',
 'the child still has the released node as its parent',
'''int main() {
    dstruct::BSTree<int> t;
    int in[] = { 50, 20, 10, 5, 15, 70 };
    for (int v : in) t.push(v);
    t.pop(20);
    int want[] = { 5, 10, 15, 50, 70 }, n = 0;
    for (auto it = t.begin(); it != t.end(); it++) CHECK(n < 5 && *it == want[n++]);
    CHECK(n == 5);
    return 0;
}
''')
bug('bst-erase-two-children-skips','C13',T,'''        if (target != tree) { // deleted directly''','''        if (target != tree || target->right == nullptr) { // deleted directly''',
 'erasing a node with two children whose right child is a leaf',
 'erase returns the position behind the successor and relinks the node below its parent',
'''int main() {
    dstruct::BSTree<int> t;
    int in[] = { 50, 20, 10, 30, 70 };
    for (int v : in) t.push(v);
    auto it = t.find(20);
    it = t.erase(it);
    CHECK(*it == 30);
    int want[] = { 10, 30, 50, 70 }, n = 0;
    for (auto i = t.begin(); i != t.end(); i++) CHECK(n < 4 && *i == want[n++]);
    CHECK(n == 4);
    return 0;
}
''')
A='core/ds/tree/AVLTree.hpp'
bug('avl-double-rotation-on-tie','C15',A,'if (_balance_factor(root->left) < 0) {','if (_balance_factor(root->left) <= 0) {',
 'a removal that makes a node left-heavy whose left child is balanced and whose left-right grandchild has only a right child (8 nodes)',
 'the double rotation leaves a node with a height difference of two',
'''#include <dstruct.hpp>
#include <cstdio>
#include <cstdlib>
typedef dstruct::tree::BinaryTreeLink_ L;
static int h(L *l, bool &ok) {
    if (!l) return 0;
    int a = h(l->left, ok), b = h(l->right, ok);
    if (a - b > 1 || b - a > 1) ok = false;
    return (a > b ? a : b) + 1;
}
int main() {
    dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t;
    int in[] = { 60, 30, 80, 20, 40, 90, 10, 50, 25 };
    for (int v : in) t.push(v);
    for (int k = 0; k < 3; k++) {
        int out[] = { 25, 90, 80 };
        t.pop(out[k]);
        bool ok = true;
        int hh = h(&t._get_root_ptr()->link, ok);
        if (!ok) { std::puts("not balanced"); return 1; }
        if (hh != t.height()) { std::puts("wrong height"); return 1; }
    }
    return 0;
}
''')
bug('avl-erase-leaf-height','C15',A,'''                    parent->right = nullptr;
                }
                _update_height(parent);''','''                    parent->right = nullptr;
                    _update_height(parent);
                }''',
 'erasing through an iterator a left leaf without a sibling, in a tree of some height',
 'the height of the parent is not updated, so that ancestors are not rebalanced',
'''#include <dstruct.hpp>
#include <cstdio>
#include <cstdlib>
typedef dstruct::tree::BinaryTreeLink_ L;
static int h(L *l, bool &ok) {
    if (!l) return 0;
    int a = h(l->left, ok), b = h(l->right, ok);
    if (a - b > 1 || b - a > 1) ok = false;
    return (a > b ? a : b) + 1;
}
int main() {
    dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t;
    int in[] = { 50, 30, 70, 20, 40, 60, 10 };
    for (int v : in) t.push(v);
    int out[] = { 10, 60, 20, 40, 30, 50 };
    for (int v : out) {
        t.erase(t.find(v));
        bool ok = true;
        int hh = h(&t._get_root_ptr()->link, ok);
        if (!ok) { std::puts("not balanced"); return 1; }
        if (hh != t.height()) { std::puts("wrong height"); return 1; }
    }
    return 0;
}
''')
bug('preorder-skips-right-cousin','C24','core/ds/tree/EmbeddedBinaryTree.hpp','''            if (link->parent->right != nullptr && link->parent->right != link) {
                return link->parent->right;
            }
            link = link->parent;''','''            if (link->parent->right != nullptr && link->parent->right != link) {
                return link->parent->right;
            }
            link = link->parent->right == link && link->parent->parent != nullptr ? link->parent->parent : link->parent;''',
 'a left child with a right leaf and a right sibling',
 'climbing from a right child skips one level, so a subtree is not visited in pre-order iteration',
'''int main() {
    dstruct::BSTree<int> t;
    int in[] = { 50, 20, 30, 70 };
    for (int v : in) t.push(v);
    typedef dstruct::BSTree<int> B;
    int n = 0;
    for (auto it = t.begin(B::TraversalType::PreOrder); it != t.end(B::TraversalType::PreOrder); it++) CHECK(n < 4 && *it == in[n++]);
    CHECK(n == 4);
    return 0;
}
''')
bug('ufset-half-compression','C17','core/ds/set/DisjointSet.hpp','return mArray_d[index] = find(mArray_d[index]);','''return mArray_d[index] = mArray_d[mArray_d[index]] < 0 ? mArray_d[index] : mArray_d[mArray_d[index]];''',
 'a chain of three links to the root before the first find of its last element',
 'find stops at the grandparent even if it is not a root',
'''int main() {
    dstruct::UFSet s(4);
    s.connect(2, 3); s.connect(1, 2); s.connect(0, 1);
    CHECK(s.connected(0, 3)); CHECK(s.count() == 1);
    return 0;
}
''')
bug('string-push-back-alias','C29','core/ds/string/BasicString.hpp','''        mCharList_d[-1] = element;
        mCharList_d.push_back('\\0');
    }

    ReferenceType''','''        mCharList_d.push_back('\\0');
        mCharList_d[-2] = element;
    }

    ReferenceType''',
 'push_back of a character of the string itself when its storage is full',
 'the character is read after the growth released the storage it lives in',
'''int main() {
    dstruct::String s("x");
    for (int i = 0; i < 70; i++) { s.push_back(s[0]); CHECK(s.back() == 'x'); }
    CHECK(s.size() == 71);
    return 0;
}
''')
M='memory/StaticMemAllocator.hpp'
bug('sma-exact-fit','C26',M,'if (targetMemBlockPtr->data >= bytes)','if (targetMemBlockPtr->data > bytes)',
 'a large request of exactly the size of the only large block',
 'an exact fit is refused',
'''typedef dstruct::StaticMemAllocator<1024> P; // smemory
int main() {
    CHECK(P::max_free_mblock_size() == 1024);
    CHECK(P::allocate(1024) != nullptr);
    CHECK(P::free_mem_size() == 0);
    return 0;
}
''')
bug('less-null-null','C28','core/utils.hpp','''        if (b == nullptr) return false;
        if (a == nullptr) return true;
        return a < b;''','''        if (a == nullptr) return true;
        if (b == nullptr) return false;
        return a < b;''',
 'comparing two null pointers',
 'less is not irreflexive: a null pointer precedes itself',
'''int main() {
    int x; dstruct::less<int *> l;
    CHECK(!l(nullptr, nullptr)); CHECK(l(nullptr, &x)); CHECK(!l(&x, nullptr));
    return 0;
}
''')
bug('rotate-inner-parent','C30','core/ds/tree/EmbeddedBinaryTree.hpp','''        if (nullptr != newRoot->right) {
            newRoot->right->parent = root;
        }''','''        if (nullptr != newRoot->right && nullptr != newRoot->right->left) {
            newRoot->right->parent = root;
        }''',
 'a right rotation whose inner subtree has no left child',
 'the inner subtree keeps its former parent',
'''int main() {
    typedef dstruct::tree::BinaryTreeLink_ L;
    L a, b, c; a.left = &b; b.parent = &a; b.right = &c; c.parent = &b;
    L *r = dstruct::tree::right_rotate(&a);
    CHECK(r == &b); CHECK(a.left == &c); CHECK(c.parent == &a); CHECK(a.parent == &b);
    return 0;
}
''')
bug('sma-port-no-merge','C27','port/static-memory/sma-dstruct-port.hpp','''            DefaultSMA::memory_merge();
''','''            if (bytes <= DefaultSMA::max_free_mblock_size()) DefaultSMA::memory_merge();
''',
 'a request that only fits after neighbouring free blocks are combined',
 'the port gives up without merging, the program crashes',
'''int main() {
    const int M = 1024 * 1024;
    void *a = dstruct::port::allocate(M / 2), *b = dstruct::port::allocate(M / 2);
    dstruct::port::deallocate(a, M / 2); dstruct::port::deallocate(b, M / 2);
    CHECK(dstruct::port::allocate(M - 64) != nullptr);
    return 0;
}
''','-DENABLE_SMA')

bug('deque-shrink-at-block-end','C03',Q,'if (mEnd_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {','if (isExtend && mEnd_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {',
 'filling the last block exactly to its end, then popping at the front until the map table shrinks, then pushing at the back',
 'after the shrink the end position stays behind the last element of a block, the next push writes outside the block',
'''int main() {
    for (int m = 4; m < 80; m++) {
        dstruct::DoubleEndedQueue<int, 4> q;
        for (int i = 0; i < m; i++) q.push_back(i);
        for (int f = 0; f + 1 < m; f++) {
            q.pop_front();
            dstruct::DoubleEndedQueue<int, 4> dummy;
            int n = f + 1; for (auto &v : q) CHECK(v == n++);
            CHECK(n == m);
        }
        q.push_back(m); q.push_back(m + 1);
        int n = m - 1; for (auto &v : q) CHECK(v == n++);
        CHECK(n == m + 2);
    }
    return 0;
}
''')
bug('deque-drained-leaks','C21',Q,'if (!mArrMapTable_d.empty()) {','if (mSize_d != 0) {',
 'a deque that was used and emptied by pops when it is destroyed, assigned or cleared',
 'its blocks are not given back',
'''static long balance = 0;
struct A { static void *allocate(int n) { balance += n; return std::malloc(n); }
           static void deallocate(void *p, int n) { balance -= n; std::free(p); } };
int main() {
    { dstruct::DoubleEndedQueue<int, 2, A> q; q.push_back(1); q.pop_front(); }
    CHECK(balance == 0);
    return 0;
}
''')
L='core/ds/linked-list/SinglyLinkedList.hpp'
bug('slist-moved-source-tail','C20',L,'''// reset
            ds.mTailNodePtr_d = &(ds.mHeadNode_d);''','''// reset
            if (mSize_d == 0) ds.mTailNodePtr_d = &(ds.mHeadNode_d);''',
 'pushing at the back of a list that was moved from',
 'the source still has the last node of the target as its tail and appends to the target',
'''int main() {
    dstruct::SinglyLinkedList<int> a, b;
    a.push_back(1); a.push_back(2);
    b = dstruct::move(a);
    a.push_back(9);
    CHECK(a.size() == 1); CHECK(a.front() == 9); CHECK(a.back() == 9); CHECK(b.size() == 2); CHECK(b.back() == 2);
    int n = 0; for (auto it = b.begin(); it != b.end(); it++) { n++; CHECK(*it == n); if (n > 2) break; }
    CHECK(n == 2);
    return 0;
}
''')
bug('slist-clear-tail','C06',L,'''List_::_clear();
            mTailNodePtr_d = &mHeadNode_d;''','''List_::_clear();
            if (mSize_d != 0) mTailNodePtr_d = &mHeadNode_d;''',
 'pushing at the back after clear',
 'the tail still is a released node',
'''int main() {
    dstruct::SinglyLinkedList<int> a;
    a.push_back(1); a.push_back(2); a.clear(); a.push_back(3);
    CHECK(a.size() == 1); CHECK(a.front() == 3); CHECK(a.back() == 3);
    return 0;
}
''')
bug('slist-push-front-tail','C06',L,'''if (mSize_d == 1)
                mTailNodePtr_d = Node_::to_node(mHeadNode_d.link.next);''','''if (mTailNodePtr_d == nullptr)
                mTailNodePtr_d = Node_::to_node(mHeadNode_d.link.next);''',
 'push_front on an empty list, then back or push_back',
 'the tail is not set to the only element',
'''int main() {
    dstruct::SinglyLinkedList<int> a;
    a.push_front(1); CHECK(a.back() == 1); a.push_back(2);
    CHECK(a.front() == 1); CHECK(a.back() == 2);
    return 0;
}
''')
bug('heap-last-right-child','C09',H,'if (right < heapSize && !mCmp_d','if (right < heapSize - 1 && !mCmp_d',
 'a pop that leaves an odd number of elements of which the last one is a right child that precedes its parent and sibling',
 'the last right child is never lifted',
'''int main() {
    dstruct::Heap<int, dstruct::less<int>, dstruct::Alloc> h;
    int in[] = { 1, 5, 2, 7 };
    for (int v : in) h.push(v);
    h.pop(); CHECK(h.top() == 2); h.pop(); CHECK(h.top() == 5);
    return 0;
}
''')
bug('sma-fragment-unaligned','C25',M,'void *memFragmentAddr = reinterpret_cast<char *>(memPtr) + allocatedSize;','void *memFragmentAddr = reinterpret_cast<char *>(memPtr) + bytes;',
 'a request whose size is not a multiple of eight, followed by another one',
 'the rest of a split block starts right behind the requested bytes, so later blocks are not aligned',
'''typedef dstruct::StaticMemAllocator<256> P; // smemory
int main() {
    P::allocate(13);
    CHECK(reinterpret_cast<dstruct::size_t>(P::allocate(8)) % 8 == 0);
    return 0;
}
''')

bug('vector-const-negative-index','C01',V,'''ConstReferenceType operator[](int index) const {
        if (index < 0)
            index = mSize_d + index;''','''ConstReferenceType operator[](int index) const {
        if (index < 0)
            index = mCapacity_d + index;''',
 'a negative index into a const Vector whose capacity exceeds its size',
 'a negative index counts from the end of the storage instead of the end of the elements',
'''int main() {
    dstruct::Vector<int> v; v.push_back(1); v.push_back(2); v.push_back(3);
    v.resize(8);
    const dstruct::Vector<int> &c = v;
    CHECK(c.size() == 3); CHECK(c[-1] == 3); CHECK(c[-3] == 1);
    return 0;
}
''')
bug('array-const-negative-index','C02','core/ds/array/Array.hpp','''operator[](int index) const {
        if (index < 0)
            index = N + index;''','''operator[](int index) const {
        if (index < 0)
            index = N - 1 + index;''',
 'a negative index into a const Array',
 'negative indices are off by one in the const access',
'''int main() {
    dstruct::Array<int, 3> a; a[0] = 1; a[1] = 2; a[2] = 3;
    const dstruct::Array<int, 3> &c = a;
    CHECK(c[-1] == 3); CHECK(c[-2] == 2); CHECK(c[-3] == 1);
    return 0;
}
''')
bug('avl-pop-stale-parent','C14',A,'''if (subTree) {
                        subTree->parent = root->parent;
                    }''','''if (subTree && subTree == root->left) {
                        subTree->parent = root->parent;
                    }''',
 'removing by key a node that has only a right child, then iterating',
 'the right child keeps the released node as its parent',
'''int main() {
    dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t;
    int in[] = { 50, 30, 70, 80 };
    for (int v : in) t.push(v);
    t.pop(70);
    int want[] = { 30, 50, 80 }, n = 0;
    for (auto it = t.begin(); it != t.end(); it++) CHECK(n < 3 && *it == want[n++]);
    CHECK(n == 3);
    return 0;
}
''')
bug('avl-swap-adjacent-left','C14',A,'if (aLeft) aLeft->parent = b; // 6','if (aLeft && bRight) aLeft->parent = b; // 6',
 'removing a node with two children whose right child is a leaf',
 'the left child keeps the released node as its parent',
'''int main() {
    dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t;
    int in[] = { 50, 30, 70 };
    for (int v : in) t.push(v);
    t.pop(50);
    int want[] = { 30, 70 }, n = 0;
    for (auto it = t.begin(); it != t.end(); it++) CHECK(n < 2 && *it == want[n++]);
    CHECK(n == 2);
    return 0;
}
''')
ST='core/ds/string/BasicString.hpp'
bug('string-clear-keeps-first','C18',ST,'''mCharList_d.clear();
        mCharList_d.push_back('\\0');''','''mCharList_d.resize(1);''',
 'the C string of a cleared string, or characters appended to it',
 'a cleared string still starts with its former first character and has no terminating zero',
'''#include <cstring>
int main() {
    dstruct::String s("abc");
    s.clear();
    CHECK(s.size() == 0); CHECK(std::strlen(s.c_str()) == 0);
    s.push_back('x'); CHECK(std::strcmp(s.c_str(), "x") == 0);
    return 0;
}
''')
bug('string-equal-ignores-last','C18',ST,'for (int i = 0; i < s1.size(); i++) {','for (int i = 0; i + 1 < s1.size(); i++) {',
 'comparing two strings of the same length that differ only in their last character',
 'such strings compare equal',
'''int main() {
    dstruct::String a("abc"), b("abd");
    CHECK(a != b); CHECK(!(a == b)); CHECK(a == "abc"); CHECK(!(a == "abx"));
    return 0;
}
''')
bug('vector-cut-off-not-destroyed','C22',V,'''if (oldC) {
            DSTRUCT_ASSERT(mCapacity_d != 0);
            for (int i = 0; i < mSize_d; i++) {''','''if (oldC) {
            DSTRUCT_ASSERT(mCapacity_d != 0);
            for (int i = 0; i < mSize_d && (n == 0 || i < n); i++) {''',
 'resize(n) to a size smaller than the number of elements inside, elements that own something',
 'the elements cut off are not destroyed',
'''static int live = 0;
struct T { T() { live++; } T(const T &) { live++; } ~T() { live--; } };
int main() {
    { dstruct::Vector<T> v; T t;
      for (int i = 0; i < 6; i++) v.push_back(t);
      v.resize(3);
      CHECK(v.size() == 3); CHECK(live == 4); }
    CHECK(live == 0);
    return 0;
}
''')
bug('deque-pop-back-never-shrinks','C31',Q,'''dstruct::destroy(mEnd_d.operator->());
        if (mSize_d <= mCapacity_d / 3 && mArrMapTable_d.capacity() > MIN_MAP_TABLE_SIZE) {
            _resize(mCapacity_d / 2);
        }''','''dstruct::destroy(mEnd_d.operator->());
        if (mSize_d == 0 && mArrMapTable_d.capacity() > MIN_MAP_TABLE_SIZE) {
            _resize(mCapacity_d / 2);
        }''',
 'a deque that was large and is emptied at its back',
 'the blocks of the removed elements are kept',
'''int main() {
    dstruct::DoubleEndedQueue<int, 4> q;
    for (int i = 0; i < 2000; i++) q.push_back(i);
    for (int i = 0; i < 1999; i++) q.pop_back();
    CHECK(q.capacity() <= 100);
    return 0;
}
''')
bug('smemory-stack-on-heap','C27','dstruct-static.hpp','''using UFSet = DisjointSet<SMA>;''','''using UFSet = DisjointSet<dstruct::Alloc>;''',
 'using the static-memory disjoint set where there must be no heap memory',
 'the storage of smemory::UFSet comes from the heap',
'''int main() {
    int before = dstruct::smemory::SMA::free_mem_size();
    dstruct::smemory::UFSet s(10);
    CHECK(dstruct::smemory::SMA::free_mem_size() <= before - 40);
    return 0;
}
''')
bug('sma-largest-only-first','C26',M,'''if (maxSize < mbPtr->data) maxSize = mbPtr->data;
            linkPtr = linkPtr->next;''','''if (maxSize < mbPtr->data) maxSize = mbPtr->data; else break;
            linkPtr = linkPtr->next;''',
 'three large free blocks of which the second is smaller than the first and the third is the largest',
 'the reported largest free block is not the largest',
'''typedef dstruct::StaticMemAllocator<2048> P; // smemory
int main() {
    void *a = P::allocate(256); P::allocate(8); void *b = P::allocate(200); P::allocate(8); 
    CHECK(a && b);
    P::deallocate(a, 256); P::deallocate(b, 200);
    CHECK(P::max_free_mblock_size() == 2048 - 472);
    return 0;
}
''')
bug('bst-moved-size','C20',T,'''// reset
        ds.mRootPtr_d = nullptr;
        ds.mSize_d = 0;''','''// reset
        ds.mRootPtr_d = nullptr;
        if (BinaryTree_e::mRootPtr_d == nullptr) ds.mSize_d = 0;''',
 'looking at or filling a tree that was moved from',
 'the source of a move still counts the elements it no longer has',
'''int main() {
    dstruct::BSTree<int> a; a.push(1); a.push(2);
    dstruct::BSTree<int> b; b = dstruct::move(a);
    CHECK(b.size() == 2); CHECK(a.empty()); CHECK(a.size() == 0);
    a.push(3); CHECK(a.size() == 1);
    return 0;
}
''')
H='core/ds/Heap.hpp'
D='core/ds/linked-list/DoublyLinkedList.hpp'
LL='core/ds/linked-list/LinkedList.hpp'
E_='core/ds/linked-list/EmbeddedList.hpp'
ORD='''struct Rot { int p; Rot(int q = 0) : p(q) {} bool operator()(int a, int b) const { return p ? a > b : a < b; } };
'''
bug('heap-copy-keeps-own-order','C32',H,'''        mCmp_d = hep.mCmp_d;
        mHeap_d = hep.mHeap_d;''','''        mHeap_d = hep.mHeap_d;''',
 'a comparator with state, and assigning a heap to one constructed with another comparator object',
 'the copy of a heap orders later elements by the comparator it had before',
ORD+'''int main() {
    dstruct::Heap<int, Rot> a((Rot(1))), b((Rot(0)));
    a.push(1); a.push(2);
    b = a; b.push(5); b.push(0); b.push(7);
    CHECK(b.top() == 7);
    return 0;
}
''')
bug('avl-find-default-order','C32',A,'''            CMPWrapper(mCmp_d)''','''            CMPWrapper()''',
 'a comparator with state: an AVL tree constructed with a comparator object that differs from the default one',
 'find searches in the order of a default-constructed comparator and misses elements',
ORD+'''int main() {
    dstruct::AVLTree<int, Rot, dstruct::Alloc> t((Rot(1)));
    for (int i = 0; i < 7; i++) t.push(i);
    for (int i = 0; i < 7; i++) CHECK(t.find(i) != t.end());
    return 0;
}
''')
bug('bst-move-leaves-order','C32',T,'''        // move
        BinaryTree_e::mRootPtr_d = ds.mRootPtr_d;
        BinaryTree_e::mSize_d = ds.mSize_d;
        mCmp_d = ds.mCmp_d;''','''        // move
        BinaryTree_e::mRootPtr_d = ds.mRootPtr_d;
        BinaryTree_e::mSize_d = ds.mSize_d;''',
 'a comparator with state and a move',
 'the moved-to search tree has the nodes of its source but not its order',
ORD+'''int main() {
    dstruct::BinarySearchTree<int, Rot> a((Rot(1))), b;
    for (int i = 0; i < 5; i++) a.push(i);
    b = dstruct::move(a);
    CHECK(b.find(0) != b.end()); CHECK(b.find(4) != b.end());
    return 0;
}
''')
bug('vector-index-one-past','C33',V,'''    ConstReferenceType operator[](int index) const {
        if (index < 0)
            index = mSize_d + index;
        DSTRUCT_ASSERT(index < static_cast<int>(mSize_d));''','''    ConstReferenceType operator[](int index) const {
        if (index < 0)
            index = mSize_d + index;
        DSTRUCT_ASSERT(index <= static_cast<int>(mSize_d));''',
 'reading a constant Vector at the index that equals its size while there is spare capacity',
 'the read of an element that does not exist is served instead of stopped',
'''#include <sys/wait.h>
#include <unistd.h>
int main() {
    pid_t p = fork();
    if (p == 0) {
        dstruct::Vector<int> v; v.push_back(1); v.push_back(2); v.push_back(3);
        const dstruct::Vector<int> &c = v;
        volatile int x = c[3]; (void)x;
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0));
    return 0;
}
''')
bug('list-drops-when-exhausted','C33',L,'''        Node_ *nPtr = AllocNode_::allocate();
        this->mHeadNode_d.data = obj; // only for contruct nPtr''','''        Node_ *nPtr = AllocNode_::allocate();
        if (nPtr == nullptr) return;
        this->mHeadNode_d.data = obj; // only for contruct nPtr''',
 'an allocator that runs out of memory',
 'push_back returns normally without having stored the element',
'''#include <sys/wait.h>
#include <unistd.h>
static int left = 2;
struct A { static void *allocate(int n) { return left-- > 0 ? std::malloc(n) : nullptr; }
           static void deallocate(void *p, int n) { std::free(p); } };
int main() {
    pid_t p = fork();
    if (p == 0) {
        dstruct::SinglyLinkedList<int, A> l;
        l.push_back(1); l.push_back(2); l.push_back(3);
        _exit(l.size() == 3 && l.back() == 3 ? 1 : 0);
    }
    int st = 0; waitpid(p, &st, 0);
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0));
    return 0;
}
''')
bug('list-pop-back-empty','C33',D,'''    void pop_back() {
        DSTRUCT_ASSERT(mSize_d > 0);''','''    void pop_back() {
        if (mSize_d == 0) return;''',
 'pop_back on an empty list',
 'removing from an empty list goes unnoticed',
'''#include <sys/wait.h>
#include <unistd.h>
int main() {
    pid_t p = fork();
    if (p == 0) {
        dstruct::DoublyLinkedList<int> l;
        l.push_back(1); l.pop_back(); l.pop_back();
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0));
    return 0;
}
''')
bug('dlist-move-by-copy','C34',D,'''        // move list data
        List_::operator=(dstruct::move(ds));
        // update link: first-data and last-data point to new headNode
        auto headLinkPtr = Node_::to_link(&mHeadNode_d);
        mHeadNode_d.link.prev->next = headLinkPtr;
        mHeadNode_d.link.next->prev = headLinkPtr;
        return *this;''','''        // take over the elements of ds
        *this = static_cast<const DoublyLinkedList &>(ds);
        ds.clear();
        return *this;''',
 'pointers to elements that are kept across a move',
 'moving a list creates new nodes and destroys the ones the pointers denote',
'''int main() {
    dstruct::DoublyLinkedList<int> a, b;
    a.push_back(1); a.push_back(2);
    const int *p = &*a.begin();
    b = dstruct::move(a);
    CHECK(&*b.begin() == p);
    return 0;
}
''')
bug('deque-move-by-copy','C34',Q,'''        // move
        mSize_d = ds.mSize_d;
        mCapacity_d = ds.mCapacity_d;
        mArrMapTable_d = dstruct::move(ds.mArrMapTable_d);
        mBegin_d = dstruct::move(ds.mBegin_d);
        mEnd_d = dstruct::move(ds.mEnd_d);
        mBegin_d.mArrMapTablePtr_d = mEnd_d.mArrMapTablePtr_d = &mArrMapTable_d;

        // reset ds
        ds.mSize_d = ds.mCapacity_d = 0;
        ds.mArrMapTable_d.clear();
''','''        // move
        for (auto &obj : ds) {
            push_back(obj);
        }

        // reset ds
        ds.clear();
''',
 'pointers to elements that are kept across a move or a swap',
 'moving a deque copies its elements to new blocks',
'''int main() {
    dstruct::DoubleEndedQueue<int, 4> a, b;
    for (int i = 0; i < 9; i++) a.push_back(i);
    const int *p = &a[3];
    b = dstruct::move(a);
    CHECK(&b[3] == p); CHECK(b.size() == 9); CHECK(a.empty());
    return 0;
}
''')
bug('avl-erase-moves-value','C34',A,'''            auto successor = BinaryTree_e::first_node(rightChild);
            _swap_node(target, successor);
            return _delete_by_target(successor);''','''            // the next larger element, or the one before it when that lies deeper
            auto successor = BinaryTree_e::first_node(rightChild);
            dstruct::_remove_const(Node_::to_node(target)->data.val).~T();
            new (&Node_::to_node(target)->data.val) T(Node_::to_node(successor)->data.val);
            return _delete_by_target(successor);''',
 'erasing an inner element of an AVL tree while a pointer or iterator to its successor is held',
 'the successor changes its address',
'''int main() {
    dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t;
    for (int i = 0; i < 7; i++) t.push(i);
    auto it = t.find(4); const int *p = &*it;
    t.erase(t.find(3));
    CHECK(&*t.find(4) == p);
    return 0;
}
''')
bug('heap-pop-rebuilds','C35',H,'''        mHeap_d.pop_back();
        _adjust_down(1);
        // return data;''','''        mHeap_d.pop_back();
        for (int i = (mHeap_d.size() - 1) / 2; i >= 1; i--) {
            _adjust_down(i);
        }
        // return data;''',
 'a heap of more than a few elements',
 'every pop compares all elements instead of those on one path',
'''static int cmps = 0;
struct C { bool operator()(int a, int b) const { cmps++; return a < b; } };
int main() {
    dstruct::Heap<int, C> h;
    for (int i = 0; i < 1000; i++) h.push((i * 7919) % 1000);
    cmps = 0; h.pop();
    CHECK(cmps <= 40);
    return 0;
}
''')
bug('vector-pop-tight','C35',V,'''        if (mSize_d < mCapacity_d / 3) {
            resize(mCapacity_d / 2);
        }''','''        if (mSize_d < mCapacity_d / 3) {
            resize(mSize_d < 2 ? 2 : mSize_d);
        }''',
 'pops below a third of the capacity followed by alternating push and pop',
 'see demo',
'''static int copies = 0;
struct T { T() {} T(const T &) { copies++; } };
int main() {
    dstruct::Vector<T> v; T t;
    for (int i = 0; i < 512; i++) v.push_back(t);
    for (int i = 0; i < 342; i++) v.pop_back();
    copies = 0;
    for (int i = 0; i < 100; i++) { v.push_back(t); v.pop_back(); }
    CHECK(copies < 1000);
    return 0;
}
''')
bug('vector-pop-shrink-early','C35',V,'''        if (mSize_d < mCapacity_d / 3) {
            resize(mCapacity_d / 2);
        }''','''        if (mSize_d <= mCapacity_d / 2) {
            resize(mCapacity_d / 2);
        }''',
 'push and pop alternating at a size where the capacity was just doubled',
 'the storage is halved and doubled again by every pair of pop and push, copying all elements each time',
'''static int copies = 0;
struct T { T() {} T(const T &) { copies++; } };
int main() {
    dstruct::Vector<T> v; T t;
    for (int i = 0; i < 512; i++) v.push_back(t);
    copies = 0;
    for (int i = 0; i < 100; i++) { v.push_back(t); v.pop_back(); }
    CHECK(copies < 1000);
    return 0;
}
''')
bug('map-find-scan','C35','core/ds/Map.hpp','''        return mDStruct_d.find(KeyValueType { key, ValueType() });''','''        for (auto it = mDStruct_d.begin(); it != mDStruct_d.end(); it++) {
            if (!KeyCMP()(it->key, key)) return KeyCMP()(key, it->key) ? mDStruct_d.end() : it;
        }
        return mDStruct_d.end();''',
 'looking up a key in a Map of more than a few entries',
 'lookup walks over all smaller keys instead of descending the tree',
'''static int cmps = 0;
struct C { bool operator()(int a, int b) const { cmps++; return a < b; } };
int main() {
    dstruct::Map<int, int, C> m;
    for (int i = 0; i < 500; i++) m[i] = i;
    cmps = 0;
    auto it = m.find(499);
    CHECK(it != m.end() && it->value == 499 && cmps <= 60);
    return 0;
}
''')
bug('dlist-open-ring','C08',E_,'''        if (prev->next)
            prev->next->prev = curr;
        prev->next = curr;''','''        if (prev->next && prev->next != prev)
            prev->next->prev = curr;
        prev->next = curr;''',
 'adding the first node to an empty ring and then following the ring backwards',
 'see demo',
'''int main() {
    typedef dstruct::EmbeddedListNode_<int> N; N h, a;
    N::init(&h); N::add(&h, &a);
    CHECK(h.link.prev == &a.link);
    return 0;
}
''')
bug('xstack-top-after-refill','C11',X,'''    void clear() {
        mStack_d.clear();
    }''','''    void clear() {
        while (mStack_d.size() > 1) pop();
    }''',
 'clear and then use of an extreme-value stack whose last two elements',
 'see demo',
'''int main() {
    dstruct::MinStack<int> s;
    s.push(5); s.push(3); s.clear();
    CHECK(s.empty());
    s.push(7); CHECK(s.top() == 7 && s.getXValue() == 7);
    s.pop(); CHECK(s.empty());
    return 0;
}
''')
bug('xstack-pop-converse','C11',X,'''        if (mXValue_d == data) {
            mXValue_d = mStack_d.top(); mStack_d.pop();
        }''','''        if (mXValue_d == data) {
            mXValue_d = mStack_d.top(); mStack_d.pop();
            while (!mStack_d.empty() && mXValue_d == mStack_d.top() && mCmp_d(mXValue_d, data)) mStack_d.pop();
        }''',
 'a stack whose extreme value is removed while the element now on top equals the extreme value below it',
 'the element equal to the older extreme value is lost',
'''int main() {
    dstruct::MaxStack<int> s;
    s.push(4); s.push(9); s.pop();
    CHECK(s.top() == 4 && s.getXValue() == 4);
    return 0;
}
''')
bug('map-index-overwrites-default','C16','core/ds/Map.hpp','''        if (target == end()) {
            // TODO: optimize to only once find(by find_and_insert)
            mDStruct_d.push({key, ValueType()});
            return dstruct::_remove_const(find(key)->value);
        }''','''        if (target == end()) {
            // TODO: optimize to only once find(by find_and_insert)
            mDStruct_d.push({key, mDStruct_d.empty() ? ValueType() : mDStruct_d.begin()->value});
            return dstruct::_remove_const(find(key)->value);
        }''',
 'reading an absent key through the indexing operator of a Map that holds something',
 'the inserted value is not the default value',
'''int main() {
    dstruct::Map<int, int> m; m[3] = 7;
    CHECK(m[4] == 0);
    return 0;
}
''')
bug('map-pop-reinserts','C16',A,'''                _swap_node(root, target);
                root->right = _delete(root->right, obj); // retry''','''                _swap_node(root, target);
                root->right = _delete(root->right, Node_::to_node(target)->data.val); // retry''',
 'removing a key by value whose node has two children, with an element type that lives in the node',
 'see demo',
'''int main() { dstruct::Map<int, int> m; for (int i = 0; i < 9; i++) m[i] = i; m.pop(3); CHECK(m.size() == 8); return 0; }
''')
LL='core/ds/linked-list/LinkedList.hpp'; SL='core/ds/linked-list/SinglyLinkedList.hpp'; DL='core/ds/linked-list/DoublyLinkedList.hpp'
V='core/ds/array/Vector.hpp'; DQ='core/ds/queue/DoubleEndedQueue.hpp'; DS='core/ds/set/DisjointSet.hpp'; MP='core/ds/Map.hpp'
bug('queue-drained-at-block-end','C04',DQ,'''                mBegin_d = mEnd_d;''','''                mBegin_d.mCurrMapIndex_d = mEnd_d.mCurrMapIndex_d;''',
 'a queue filled exactly to the end of its last block, drained, and used again',
 'the begin stays behind at the end of the previous block: front and iteration no longer describe the elements inside',
'''int main() {
    typedef dstruct::DoubleEndedQueue<int, 4> D;
    dstruct::adapter::Queue<int, D> q;
    for (int r = 0; r < 40; r++) {
        for (int i = 0; i < 4; i++) q.push(r * 10 + i);
        for (int i = 0; i < 4; i++) { CHECK(q.front() == r * 10 + i); int n = 0; for (auto it = q.begin(); it != q.end() && n < 100; it++) CHECK(*it == r * 10 + i + n++); CHECK(n == 4 - i); q.pop(); }
    }
    return 0;
}
''')
bug('stack-clear-half','C05','core/ds/stack/Stack.hpp','''        mDS_d.clear();''','''        for (SizeType i = 0; i < size(); i++) pop();''',
 'clearing a stack of more than one element',
 'half of the elements survive a clear',
'''int main() {
    dstruct::Stack<int> s;
    for (int i = 0; i < 5; i++) s.push(i);
    s.clear();
    CHECK(s.empty() && s.size() == 0);
    return 0;
}
''')
bug('dlist-pop-last-back','C07',DL,'''        Node_::LinkType::del(lPtr->prev, lPtr);
        // 3. get target node''','''        Node_::LinkType::del(lPtr->prev, lPtr);
        if (mSize_d == 2) mHeadNode_d.link.prev = &mHeadNode_d.link;
        // 3. get target node''',
 'a pop at the back that leaves exactly one element, followed by a look or another pop at the back',
 'the way backwards misses the one element that is left',
'''int main() {
    dstruct::DoublyLinkedList<int> l;
    l.push_back(1); l.push_back(2);
    l.pop_back();
    auto it = l.end(); it--;
    CHECK(it == l.begin() && l.back() == 1);
    return 0;
}
''')
bug('dlist-fill-one','C07',DL,'''        while(n--) push_back(obj); }''','''        while(n > 1) { push_back(obj); this->push_front(obj); n -= 2; } }''',
 'a list built from an odd number of copies',
 'the middle element is missing',
'''int main() {
    dstruct::DoublyLinkedList<int> l(3, 7);
    CHECK(l.size() == 3);
    return 0;
}
''')
bug('list-clear-recursive','C36',LL,'''        while (!empty()) {
            pop_front();
        }''','''        if (!empty()) {
            pop_front();
            _clear();
        }''',
 'clearing, assigning to or destroying a list of very many elements',
 'the stack needed grows with the number of elements',
'''int main() {
    dstruct::SinglyLinkedList<int> l;
    for (int i = 0; i < 1000000; i++) l.push_back(i);
    l.clear();
    CHECK(l.empty());
    return 0;
}
''')
bug('dset-rank-not-raised','C36',DS,'''            if (mArray_d[root1] == mArray_d[root2])
                mArray_d[root1]--;
            mArray_d[root2] = root1;''','''            mArray_d[root2] = root1;''',
 'a set that grows by always connecting a new element as the first argument to the current root, then a lookup of the oldest element',
 'chains as long as the set, and a recursion as deep',
'''int main() {
    const int N = 1000000;
    dstruct::DisjointSet<dstruct::Alloc> s(N);
    for (int i = 1; i < N; i++) s.connect(i, i - 1);
    CHECK(s.connected(0, N - 1));
    return 0;
}
''')
bug('avl-iterate-recursive','C36','core/ds/tree/EmbeddedBinaryTree.hpp','''    while (link->parent != nullptr && link->parent->left != link) {
        link = link->parent;
    }

    return link->parent;''','''    if (link->parent == nullptr || link->parent->left == link) return link->parent;

    // the successor of the last node of a sub-tree follows its parent
    BinaryTreeLink_ *right = link->parent->right;
    link->parent->right = nullptr;
    BinaryTreeLink_ *next = next_inorder(link->parent);
    if (right != nullptr) right->parent->right = right;
    return next;''',
 'iterating in order (the const iterators included), with a reader looking at the tree at the same time',
 'stepping an iterator writes the links of the tree while it climbs',
'''#include <sys/mman.h>
static char *base, *cur;
struct PA { static void *allocate(int n) { n = (n + 15) & ~15; char *p = cur; cur += n; return p; } static void deallocate(void *, int) {} };
int main() {
    base = cur = (char *)mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    dstruct::tree::BinarySearchTree<int, dstruct::less<int>, PA> t;
    int k[] = { 4, 2, 6, 1, 3, 5, 7 };
    for (int i = 0; i < 7; i++) t.push(k[i]);
    mprotect(base, 1 << 16, PROT_READ); // reading must not write
    const dstruct::tree::BinarySearchTree<int, dstruct::less<int>, PA> &c = t;
    int n = 0;
    for (auto it = c.begin(); it != c.end(); it++) CHECK(*it == ++n);
    CHECK(n == 7);
    mprotect(base, 1 << 16, PROT_READ | PROT_WRITE);
    return 0;
}
''')
B[-1]['prop']='C37'; B[-1]['id']='inorder-step-writes'
bug('slist-back-through-head','C37',SL,'''        return mTailNodePtr_d->data;''','''        mHeadNode_d.data = mTailNodePtr_d->data; // hand out a stable copy
        return mHeadNode_d.data;''',
 'reading the last element of a list while its bytes are watched, or by two readers at once',
 'a const read writes the scratch element of the head',
'''#include <cstring>
int main() {
    dstruct::SinglyLinkedList<int> l; l.push_back(1); l.push_back(2); l.push_front(3);
    const dstruct::SinglyLinkedList<int> &c = l;
    unsigned char a[sizeof l], b[sizeof l];
    std::memcpy(a, (const void *)&l, sizeof l);
    CHECK(c.back() == 2);
    std::memcpy(b, (const void *)&l, sizeof l);
    CHECK(std::memcmp(a, b, sizeof l) == 0);
    return 0;
}
''')
bug('map-const-index-cached','C37',MP,'''        auto target = find(key);
        DSTRUCT_ASSERT(target != mDStruct_d.end());
        return target->value;''','''        static const Map *lastMap = nullptr; static ConstPointerType lastValue = nullptr; static KType lastKey;
        if (lastMap == this && size() == 1 && !KeyCMP()(key, lastKey) && !KeyCMP()(lastKey, key)) return *lastValue;
        auto target = find(key);
        DSTRUCT_ASSERT(target != mDStruct_d.end());
        lastMap = this; lastKey = key; lastValue = &target->value;
        return target->value;''',
 'two readers of one Map, or reading a Map that was emptied and filled again since the last read',
 'the const indexing operator remembers its last answer in static data',
'''#include <new>
int main() {
    dstruct::Map<int, int> m; m[1] = 10;
    const dstruct::Map<int, int> &c = m;
    CHECK(c[1] == 10);
    m.clear(); int *hole = new int[64]; m[1] = 20;
    CHECK(c[1] == 20);
    delete[] hole;
    return 0;
}
''')
bug('vector-resize-int','C38',V,'''    void resize(size_t n) {''','''    void resize(unsigned int n) {''',
 'resizing to a number of elements beyond 32 bit',
 'the size is cut down to its low 32 bits instead of being refused',
'''#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
int main() {
    pid_t p = fork();
    if (p == 0) {
        signal(SIGSEGV, SIG_DFL); close(2);
        dstruct::Vector<char> v; v.push_back('a');
        v.resize((1ULL << 32) + 3);
        _exit(42); // not refused
    }
    int st = 0; waitpid(p, &st, 0);
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 42));
    return 0;
}
''')
bug('vector-double-int','C38',V,'''                resize(2 * mSize_d);''','''                resize(static_cast<unsigned short>(2 * mSize_d) ? 2 * mSize_d : mSize_d + 1);''',
 'a Vector that has grown to exactly 32768 or another multiple of it',
 'see demo',
'''int main() {
    dstruct::Vector<char> v;
    for (int i = 0; i < 40000; i++) v.push_back((char)i);
    CHECK(v.capacity() >= 65536);
    return 0;
}
''')
bug('vector-relocates-bytes','C39',V,'''                if (i < n) // TODO: use move by check type-tag
                    dstruct::construct(mC_d + i, oldC[i]);
                dstruct::destroy(oldC + i);
            }
            Vector::Alloc_::deallocate(oldC, mCapacity_d);
        }

        mCapacity_d = n;''','''                if (i < n) { // relocate: the bytes move, nothing to destroy
                    for (size_t b = 0; b < sizeof(ValueType); b++)
                        reinterpret_cast<volatile char *>(mC_d + i)[b] = reinterpret_cast<const char *>(oldC + i)[b];
                } else
                    dstruct::destroy(oldC + i);
            }
            Vector::Alloc_::deallocate(oldC, mCapacity_d);
        }

        mCapacity_d = n;''',
 'a Vector that reallocates while it holds elements which know their own address, such as linked lists',
 'the inner lists still link to their old place',
'''int main() {
    dstruct::Vector<dstruct::DoublyLinkedList<int>> v;
    for (int i = 0; i < 9; i++) { dstruct::DoublyLinkedList<int> l; l.push_back(i); l.push_back(i + 1); v.push_back(l); }
    for (int i = 0; i < 9; i++) { int n = 0; for (auto it = v[i].begin(); it != v[i].end(); it++) { CHECK(*it == i + n); CHECK(++n <= 2); } CHECK(n == 2); }
    return 0;
}
''')
bug('swap-by-bytes','C39','core/utils.hpp','''    T c = dstruct::move(a);
    a = dstruct::move(b);
    b = dstruct::move(c);''','''    unsigned char *p = reinterpret_cast<unsigned char *>(&a), *q = reinterpret_cast<unsigned char *>(&b);
    for (unsigned long long i = 0; i < sizeof(T); i++) {
        unsigned char c = p[i];
        p[i] = q[i];
        q[i] = c;
    }''',
 'swapping containers that know their own address: lists, deques, or a heap of them',
 'the swapped lists keep linking to the other one',
'''int main() {
    dstruct::DoublyLinkedList<int> a, b;
    a.push_back(1); a.push_back(2); b.push_back(3);
    dstruct::swap(a, b);
    int n = 0; for (auto it = a.begin(); it != a.end(); it++) { CHECK(++n <= 1); CHECK(*it == 3); }
    CHECK(n == 1);
    return 0;
}
''')
bug('minstack-copy-keeps-comparator','C32','core/ds/stack/XValueStack.hpp','''        this->mXValue_d = ds.mXValue_d;
        this->mCmp_d = ds.mCmp_d;''','''        this->mXValue_d = ds.mXValue_d;''',
 'assigning or copying an extreme-value stack made with a comparator object that is not the default one',
 'the copy goes on with its own comparator',
'''struct C { bool up; C(bool u = true) : up(u) {} bool operator()(int a, int b) const { return up ? a < b : a > b; } };
int main() {
    typedef dstruct::stack::XValueStack<int, C> S;
    S a((C(false))); a.push(3); a.push(7);
    S b(a); b.push(9); b.push(1);
    CHECK(b.getXValue() == a.getXValue() || b.getXValue() == 9);
    CHECK(b.getXValue() == 9);
    return 0;
}
''')
bug('deque-eager-shrink','C35',DQ,'''        mEnd_d--;
        mSize_d--;
        dstruct::destroy(mEnd_d.operator->());
        if (mSize_d <= mCapacity_d / 3 && mArrMapTable_d.capacity() > MIN_MAP_TABLE_SIZE) {''','''        mEnd_d--;
        mSize_d--;
        dstruct::destroy(mEnd_d.operator->());
        if (mSize_d < mCapacity_d / 2 && mArrMapTable_d.capacity() > MIN_MAP_TABLE_SIZE) {''',
 'a deque that has just doubled its storage at one end and then gives a few elements back, again and again',
 'every round of a few pushes and pops builds the whole block table twice: the cost of an operation grows with the size of the deque',
'''struct CA { static int n; static void *allocate(int b) { n++; return std::malloc(b); } static void deallocate(void *p, int) { std::free(p); } };
int CA::n = 0;
int main() {
    typedef dstruct::DoubleEndedQueue<int, 2, CA> Q;
    for (int size = 1; size < 700; size++) {
        Q q; for (int i = 0; i < size; i++) q.push_back(i);
        for (int a = 1; a < 8; a++) {
            CA::n = 0;
            for (int r = 0; r < 40; r++) { for (int i = 0; i < a; i++) q.push_back(i); for (int i = 0; i < a; i++) q.pop_back(); }
            CHECK(CA::n < 40 * 2 * a * 8 + size * 4 + 100);
        }
    }
    return 0;
}
''')
bug('vector-own-range-closed','C40',V,'''        if (mSize_d + 1 > mCapacity_d) {
            ValueType saved(element); // element may live in the storage that resize releases
            if (mSize_d)
                resize(2 * mSize_d);
            else
                resize(2);
            dstruct::construct(mC_d + mSize_d, saved);
        } else {''','''        if (mSize_d >= mCapacity_d) {
            // an element of this Vector moves with it
            const bool own = mC_d != nullptr && mC_d <= &element && &element <= mC_d + mSize_d;
            const SizeType at = own ? &element - mC_d : 0;
            resize(mSize_d ? 2 * mSize_d : 2);
            dstruct::construct(mC_d + mSize_d, own ? mC_d[at] : element);
        } else {''',
 'a full Vector to which the first element of another container is pushed whose block directly follows its own in memory',
 'the element counts as an own one, and unconstructed storage is pushed in its place',
'''struct BA { static char pool[1 << 16]; static int at; static void *allocate(int b) { void *p = pool + at; at += (b + 7) / 8 * 8; return p; } static void deallocate(void *, int) { } };
alignas(16) char BA::pool[1 << 16]; int BA::at = 0;
int main() {
    dstruct::Vector<long, BA> a, b;
    a.push_back(1); a.push_back(2);
    b.push_back(30); b.push_back(40);
    a.push_back(b[0]);
    CHECK(a.size() == 3 && a[0] == 1 && a[1] == 2 && a[2] == 30);
    return 0;
}
''')
bug('deque-back-anywhere','C40',DQ,'''        } else if (mEnd_d.mCurrMapIndex_d + 1 == mArrMapTable_d.size() && mEnd_d.mCurr_d == mArrMapTable_d.back()->end()) {
            _resize(mCapacity_d * 2);
        }
        dstruct::construct(&(*mEnd_d), obj);
        mEnd_d++;
        mSize_d++;''','''        } else if (mEnd_d.mCurr_d == mArrMapTable_d.back()->end()) {
            _resize(2 * mCapacity_d);
        }
        dstruct::construct(mEnd_d.operator->(), obj);
        ++mEnd_d;
        mSize_d++;''',
 'blocks that lie next to each other in memory, the last one of the table right below the one that holds the end',
 'the deque doubles its storage although it has room',
'''struct DA { static char pool[1 << 20]; static int at; static void *allocate(int b) { at -= (b + 7) / 8 * 8; return pool + at; } static void deallocate(void *, int) { } };
alignas(16) char DA::pool[1 << 20]; int DA::at = 1 << 20;
int main() {
    dstruct::DoubleEndedQueue<long, 2, DA> d; dstruct::DoubleEndedQueue<long, 2> m; // the same operations elsewhere
    long *gaps[64]; int g = 0;
    for (int i = 0; i < 60; i++) {
        d.push_back(i); m.push_back(i); gaps[g++] = (long *)std::malloc(40);
        CHECK(d.capacity() == m.capacity());
        if (i % 3 == 2) { d.pop_front(); m.pop_front(); }
    }
    return 0;
}
''')
bug('string-equal-by-char','C41','core/ds/string/BasicString.hpp','''        if (s1[i] != s2[i]) {''','''        if (static_cast<char>(s1[i]) != static_cast<char>(s2[i])) {''',
 'a string of characters wider than char, and two characters that agree in their lowest byte',
 'different strings compare equal',
'''int main() {
    dstruct::BasicString<int, dstruct::Alloc> a, b;
    a.push_back(0x141); b.push_back(0x241);
    CHECK(!(a == b)); CHECK(a != b); CHECK(a == a);
    return 0;
}
''')
bug('tree-data-behind-link','C41','core/ds/tree/BinaryTree.hpp','''        Self::mPointer_d = &(Node_::to_node(mTreeNodeLinkPtr_d)->data);''','''        Self::mPointer_d = reinterpret_cast<T *>(mTreeNodeLinkPtr_d + 1); // data follows link''',
 'a tree of elements whose alignment is larger than that of a pointer',
 'iterators and find point into the padding between link and element',
'''struct alignas(16) Wide { long a, b; bool operator<(const Wide &o) const { return a < o.a; } };
int main() {
    dstruct::BSTree<Wide> t;
    for (long i = 0; i < 9; i++) t.push(Wide { i * 4 % 9, i });
    long n = 0; for (auto it = t.begin(); it != t.end(); it++) { CHECK((reinterpret_cast<unsigned long>(&*it) & 15) == 0); CHECK(it->a == n); n++; }
    CHECK(n == 9);
    return 0;
}
''')
bug('slist-data-behind-link','C41','core/ds/linked-list/SinglyLinkedList.hpp','''        mLinkPtr_d = ptr;
        Self::mPointer_d = &(Node_::to_node(mLinkPtr_d)->data);''','''        mLinkPtr_d = ptr;
        Self::mPointer_d = reinterpret_cast<T *>(reinterpret_cast<char *>(ptr) + sizeof(*ptr));''',
 'a singly linked list of elements whose alignment is larger than that of a pointer',
 'iterators point into the padding between link and element',
'''struct alignas(32) Wide { long a[4]; };
int main() {
    dstruct::SinglyLinkedList<Wide> l;
    for (long i = 0; i < 4; i++) l.push_back(Wide { { i, i + 1, i + 2, i + 3 } });
    long n = 0; for (auto it = l.begin(); it != l.end(); it++) { CHECK(it->a[0] == n && it->a[3] == n + 3); n++; }
    CHECK(n == 4);
    return 0;
}
''')
bug('less-by-sign','C41','core/utils.hpp','''template <typename T>
struct less {
    bool operator()(const T& a, const T& b) const {
        return a < b;
    }
};''','''inline bool _less(unsigned long a, unsigned long b) { return static_cast<long>(a) < static_cast<long>(b); }
template <typename T>
inline bool _less(const T& a, const T& b) { return a < b; }
template <typename T>
struct less {
    bool operator()(const T& a, const T& b) const {
        return _less(a, b);
    }
};''',
 'unsigned long keys in the upper half of their range',
 'large unsigned values sort in front of small ones',
'''int main() {
    dstruct::AVLTree<unsigned long, dstruct::less<unsigned long>, dstruct::Alloc> t; unsigned long big = ~0UL - 3;
    t.push(5); t.push(big); t.push(7);
    auto it = t.begin(); CHECK(*it == 5); it++; CHECK(*it == 7); it++; CHECK(*it == big);
    return 0;
}
''')
bug('list-size-short','C42','core/ds/linked-list/LinkedList.hpp','''    typename LinkedList_::SizeType mSize_d;''','''    unsigned short mSize_d;''',
 'a linked list of 65536 or more elements',
 'size() and empty() forget multiples of 65536 elements',
'''int main() {
    dstruct::SLinkedList<int> l; for (int i = 0; i < 65536; i++) l.push_front(i);
    CHECK(!l.empty() && l.size() == 65536);
    return 0;
}
''')
bug('deque-block-index-byte','C42','core/ds/queue/DoubleEndedQueue.hpp','''    size_t mCurrMapIndex_d;''','''    unsigned char mCurrMapIndex_d;''',
 'a deque of more than 255 blocks',
 'the index of a block wraps around, so that iteration and access reach the wrong block',
'''int main() {
    dstruct::Deque<int> q; for (int i = 0; i < 40000; i++) q.push_back(i);
    int n = 0; for (auto it = q.begin(); it != q.end() && n < 40000; it++) { CHECK(*it == n); n++; }
    CHECK(n == 40000);
    return 0;
}
''')
bug('heap-short-parent','C42','core/ds/Heap.hpp','''            int parent = nodeIndex / 2;''','''            short parent = nodeIndex / 2;''',
 'a heap of more than 65535 elements',
 'the parent of a late node wraps to a negative index',
'''int main() {
    dstruct::MinHeap<int> h; for (int i = 0; i < 70000; i++) h.push(70000 - i);
    for (int i = 1; i <= 100; i++) { CHECK(h.top() == i); h.pop(); }
    return 0;
}
''')
bug('dset-short-index','C42','core/ds/set/DisjointSet.hpp','    using Array_e = dstruct::Vector<int, Alloc>;','    using Array_e = dstruct::Vector<short, Alloc>;',
 'a disjoint set of more than 32768 elements',
 'late elements are narrowed to negative indices and joined to others',
'''int main() {
    dstruct::UFSet u(40000); u.connect(100, 39000);
    CHECK(u.connected(100, 39000)); CHECK(!u.connected(100, 39001)); CHECK(u.count() == 39999);
    u.connect(39500, 39600); CHECK(u.connected(39500, 39600)); CHECK(u.find(39500) == 39500 || u.find(39500) == 39600);
    return 0;
}
''')
bug('vector-static-scratch','C43','core/ds/array/Vector.hpp','''        PointerType oldC = mC_d;

        if (n == 0)''','''        static PointerType oldC;
        oldC = mC_d;

        if (n == 0)''',
 'two Vectors of one type being resized at overlapping times (two threads, or one resized while elements of the other are copied)',
 'the pointer to the old storage is shared by all Vectors of the type',
'''#include <new>
struct E; static dstruct::Vector<E> *other; static bool busy;
struct E { int v; E(int x = 0) : v(x) {} E(const E &o); };
E::E(const E &o) : v(o.v) { if (other && !busy) { busy = true; other->push_back(E(7)); busy = false; } }
int main() {
    dstruct::Vector<E> a, b;
    for (int i = 0; i < 40; i++) { busy = true; a.push_back(E(i)); busy = false; if (i == 9) other = &b; }
    other = &b; a.resize(100); other = nullptr;
    CHECK(a.size() == 40); for (int i = 0; i < 40; i++) CHECK(a[i].v == i);
    for (int i = 0; i < (int)b.size(); i++) CHECK(b[i].v == 7);
    return 0;
}
''')
bug('heap-static-node','C43','core/ds/Heap.hpp','''        int parent = nodeIndex;
        int left, right;
''','''        static int parent;
        parent = nodeIndex;
''',
 'two heaps of one type being popped at overlapping times (two threads, or one inside the comparison of the other)',
 'the node being moved down is shared by all heaps of the type',
'''struct Cmp; typedef dstruct::Heap<int, Cmp, dstruct::Alloc> H; static H *other; static int busy;
struct Cmp { bool operator()(int a, int b) const; };
static void poke();
bool Cmp::operator()(int a, int b) const { poke(); return a < b; }
static void poke() { if (other && !busy) { busy = 1; other->push(other->top() + 100); other->pop(); busy = 0; } }
int main() {
    H a, b; for (int i = 0; i < 20; i++) { a.push(i * 7 % 20); b.push(i * 3 % 20); }
    other = &b; for (int i = 0; i < 20; i++) { CHECK(a.top() == i); a.pop(); }
    return 0;
}
''')
bug('minstack-static-data','C43','core/ds/stack/XValueStack.hpp','''        T data = mStack_d.top(); mStack_d.pop();''','''        static T data; data = mStack_d.top(); mStack_d.pop();''',
 'two extreme-value stacks of one type popped at overlapping times',
 'the element being removed is kept in a variable that all stacks of the type share',
'''struct E { int v; E(int x = 0) : v(x) {} bool operator==(const E &o) const; bool operator<(const E &o) const { return v < o.v; } };
static dstruct::MinStack<E> *other; static bool busy;
bool E::operator==(const E &o) const { if (other && !busy) { busy = true; other->pop(); other->push(E(50)); busy = false; } return v == o.v; }
int main() {
    dstruct::MinStack<E> a, b; b.push(E(60)); b.push(E(55)); for (int i = 9; i >= 0; i--) a.push(E(i));
    other = &b; for (int i = 0; i < 9; i++) { CHECK(a.getXValue().v == i); CHECK(a.top().v == i); a.pop(); }
    CHECK(a.getXValue().v == 9);
    return 0;
}
''')

EB='core/ds/tree/EmbeddedBinaryTree.hpp'
bug('dlink-del-ring-last','C08','core/ds/linked-list/EmbeddedList.hpp',"""        prev->next = curr->next;
        if (curr->next)
            curr->next->prev = prev;
        curr->prev""","""        prev->next = curr->next;
        if (curr->next != prev)
            if (curr->next) curr->next->prev = prev;
        curr->prev""",
 'removing the only node of a ring and then walking the ring backwards, or linking in front of its head',
 'the head of the emptied ring still points back at the removed node',
"""int main() {
    typedef dstruct::EmbeddedListNode_<int> N; N h, a, b;
    N::init(&h); N::add(&h, &a); N::del(&h, &a);
    CHECK(h.link.next == &h.link && h.link.prev == &h.link);
    N::add(&h, &b); CHECK(h.link.prev == &b.link && h.link.next == &b.link);
    return 0;
}
""")
bug('dlink-empty-single','C08','core/ds/linked-list/EmbeddedList.hpp',"""    static bool empty(DoublyLink_ *link) {
        return link->next == link;""","""    static bool empty(DoublyLink_ *link) {
        return link->next == link->prev;""",
 'asking whether a ring of exactly one node, or an open chain, is empty',
 'a ring that holds one node is reported as empty',
"""int main() {
    typedef dstruct::EmbeddedListNode_<int> N; N h, a;
    N::init(&h); CHECK(N::empty(&h)); N::add(&h, &a); CHECK(!N::empty(&h)); N::del(&h, &a); CHECK(N::empty(&h));
    return 0;
}
""")
bug('minstack-first-flag','C11',[('core/ds/stack/XValueStack.hpp','if (mStack_d.empty() || !mCmp_d(mXValue_d, val)) {','if (mFirst_d || !mCmp_d(mXValue_d, val)) { mFirst_d = false;'),
 ('core/ds/stack/XValueStack.hpp',"T data = mStack_d.top(); mStack_d.pop();","T data = mStack_d.top(); mStack_d.pop(); mFirst_d = mStack_d.empty();"),
 ('core/ds/stack/XValueStack.hpp',"mXValue_d = mStack_d.top(); mStack_d.pop();","mXValue_d = mStack_d.top(); mStack_d.pop(); mFirst_d = mStack_d.empty();"),
 ('core/ds/stack/XValueStack.hpp',"    T mXValue_d;\n    Compare","    T mXValue_d;\n    bool mFirst_d = true;\n    Compare"),
 ('core/ds/stack/XValueStack.hpp',"this->mXValue_d = ds.mXValue_d;","this->mXValue_d = ds.mXValue_d; mFirst_d = ds.mFirst_d;"),
 ('core/ds/stack/XValueStack.hpp',"mXValue_d = dstruct::move(ds.mXValue_d);","mXValue_d = dstruct::move(ds.mXValue_d); mFirst_d = ds.mFirst_d; ds.mFirst_d = true;")],None,None,
 'a stack of extremes that is cleared while it holds something and then filled with elements that are all worse than the old extreme',
 'clear does not reset the flag that says the next element is the first: the extreme of the cleared contents stays',
"""int main() {
    dstruct::MinStack<int> s; s.push(5); s.push(2); s.clear(); CHECK(s.empty());
    s.push(9); CHECK(s.top() == 9); CHECK(s.getXValue() == 9); s.push(7); CHECK(s.getXValue() == 7);
    s.pop(); CHECK(s.getXValue() == 9); s.pop(); CHECK(s.empty());
    return 0;
}
""")
bug('map-index-by-less','C16','core/ds/Map.hpp',"""            mDStruct_d.push({key, ValueType()});
            return dstruct::_remove_const(find(key)->value);""","""            mDStruct_d.push({key, ValueType()});
            target = begin();
            while (dstruct::less<KeyType>()(target->key, key)) target++;
            return dstruct::_remove_const(target->value);""",
 'indexing an absent key of a Map that is not ordered by operator<',
 'the value of another key is handed out',
"""int main() {
    dstruct::Map<int, int, dstruct::greater<int>> m; m[3] = 30; m[1] = 10; m[2] = 20;
    CHECK(m.size() == 3); CHECK(m[3] == 30); CHECK(m[1] == 10); CHECK(m[2] == 20);
    return 0;
}
""")
bug('postorder-right-chain','C24',EB,"""        while (link->left != nullptr || link->right != nullptr) {
            if (link->left != nullptr) {
                link = link->left;
            } else {
                link = link->right;
            }
        }
        return link;""","""        while (link->left != nullptr) {
            link = link->left;
        }
        return link;""",
 'post-order iteration over a tree in which the leftmost node of a right subtree has a right child only',
 'the right descendants of that node are skipped',
"""int main() {
    dstruct::BSTree<int> t; int n = 0;
    t.push(5); t.push(2); t.push(7); t.push(8); t.push(9);
    typedef decltype(t) B; int want[] = {2, 9, 8, 7, 5}; 
    for (auto it = t.begin(B::TraversalType::PostOrder); it != t.end(B::TraversalType::PostOrder); it++) { CHECK(n < 5 && *it == want[n]); n++; }
    CHECK(n == 5);
    return 0;
}
""")
bug('string-append-reserved-tail','C18','core/ds/string/BasicString.hpp',"""        mCharList_d[-1] = *str;
        while (*(++str) != '\\0') {
            mCharList_d.push_back(*str);
        }
        mCharList_d.push_back('\\0');""","""        mCharList_d.pop_back();
        for (int n = 0; *str != '\\0' && n < 0xffff; n++) {
            mCharList_d.push_back(*str++);
        }
        mCharList_d.push_back('\\0');""",
 'a string built from a literal longer than 65535 characters',
 'the rest of a long literal is cut off',
"""#include <cstring>
int main() {
    int n = 70000; char *p = new char[n + 1]; for (int i = 0; i < n; i++) p[i] = 'a' + i % 26; p[n] = 0;
    dstruct::String s(p); CHECK((int)s.size() == n); CHECK(std::strcmp(s.c_str(), p) == 0);
    return 0;
}
""")
bug('heap-sort-presorted','C10','core/ds/Heap.hpp',"""        Heap heap(begin, end);
        for (auto it = begin; it != end; it++) {
            *it = heap.top(); heap.pop();
        }""","""        Compare cmp; bool sorted = true;
        for (auto it = begin, next = begin; it != end && sorted; it = next) {
            next++;
            if (next != end && next != begin + 1) sorted = cmp(*it, *next);
        }
        if (sorted) return;
        Heap heap(begin, end);
        for (auto it = begin; it != end; it++) {
            *it = heap.top(); heap.pop();
        }""",
 'sorting a range that is in order except for its first element',
 'the first pair is not looked at when deciding that nothing is to be done',
"""int main() {
    int a[] = {5, 1, 2, 3}; typedef dstruct::Heap<int, dstruct::less<int>, dstruct::Alloc> H; dstruct::Vector<int> v; for (int x : a) v.push_back(x);
    H::sort(v.begin(), v.end()); int w[] = {1, 2, 3, 5};
    for (int i = 0; i < 4; i++) CHECK(v[i] == w[i]);
    return 0;
}
""")
bug('stack-pop-drops-default','C05','core/ds/stack/Stack.hpp',"""        T data = mDS_d.back();
        mDS_d.pop_back();""","""        T data = mDS_d.back();
        SizeType n = mDS_d.size();
        mDS_d.pop_back();
        if (mDS_d.size() == n) mDS_d.pop_back();
        if (n > 4096 && n % 4096 == 0) mDS_d.pop_back();""",
 'popping a stack whose size is a multiple of 4096 above the first',
 'two elements are removed at once',
"""int main() {
    dstruct::Stack<int> s; for (int i = 0; i < 9000; i++) s.push(i);
    for (int i = 8999; i >= 0; i--) { CHECK(s.top() == i); CHECK((int)s.size() == i + 1); s.pop(); }
    CHECK(s.empty());
    return 0;
}
""")
