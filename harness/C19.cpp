// C19: copies are equal to their source and independent of it.
#include "zoo.hpp"
#include "far.hpp"
//@assume pop/write only on a non-empty container; AVL tree and Map are given absent keys; element copies do not fail
//@entry vector reach=copied :: Vector: source built by n<=3..6 additions and 1 arbitrary operation, copy-constructed or assigned to a target with 0, 1 or 3 elements; then 2 (thorough: 3) arbitrary operations on either (ordered containers: 1, thorough: 2), self-assignment, destruction in either order
//@entry slist reach=copied :: singly linked list, same
//@entry dlist reach=copied :: doubly linked list, same
//@entry deque reach=copied :: deque (block size 2), same
//@entry queue reach=copied :: Queue, same
//@entry stack reach=copied :: Stack, same
//@entry minstack reach=copied :: MinStack, same
//@entry heap reach=copied :: Heap, same
//@entry string reach=copied :: String, same
//@entry bst reach=copied :: BST, same
//@entry avl reach=copied :: AVL tree, same
//@entry map reach=copied :: Map, same
//@entry disjoint reach=copied :: DisjointSet, same
//@entry array reach=copied :: Array, same
//@entry deep reach=copied :: trees of n fixed keys, n<=20 (ascending, scrambled): the copy equals, each is emptied in a different order without affecting the other
//@entry far reach=done max_instr=1000000000 :: Vector, lists, deque, Queue, Stack, MinStack, Heap, trees, Map, String of 70000 (lists 33000, trees and Map 17000) elements, the last arbitrary: copied, assigned over 3 elements; each changed without effect on the others
template <typename Z> static void copies(int maxn, int steps = DEEP(2, 3)) {
    typedef typename Z::C C;
    {
        C a; Z ma; int n = pick("n", maxn + 1);
        for (int i = 0; i < n; i++) ma.add(a);
        if (n && pick("extra", 2)) ma.op(a, pick("op0", Z::OPS));
        int how = pick("how", 5);
        if (how == 0) {
            C b(a); Z mb = ma; mb.check(b); ma.check(a); vp_reach("copied");
            for (int i = 0; i < steps; i++) if (pick("side", 2)) { mb.op(b, pick("op", Z::OPS)); mb.check(b); ma.check(a); } else { ma.op(a, pick("op", Z::OPS)); ma.check(a); mb.check(b); }
        } else if (how < 4) {
            C b; Z mb; int k = how == 1 ? 0 : how == 2 ? 1 : 3;
            for (int i = 0; i < k; i++) mb.add(b);
            C &r = (b = a); mb = ma; A(&r == &b, "assignment yields its target"); mb.check(b); ma.check(a); vp_reach("copied");
            C &same = b; b = same; mb.check(b);
            for (int i = 0; i < steps; i++) if (pick("side", 2)) { mb.op(b, pick("op", Z::OPS)); mb.check(b); ma.check(a); } else { ma.op(a, pick("op", Z::OPS)); ma.check(a); mb.check(b); }
        } else {
            Z mb;
            { C b; mb.add(b); { C src; Z ms; ms.add(src); ms.add(src); b = src; mb = ms; } mb.check(b); mb.op(b, 0); mb.check(b); a = b; ma = mb; }
            ma.check(a); vp_reach("copied");
        }
        ma.check(a); ma.op(a, 0); ma.check(a);
        vp_trace(ma.n());
    }
    allGone();
}
ENTRY vector() { if (pick("T", 2)) copies<ZVector<int> >(4); else copies<ZVector<Obj> >(4); }
ENTRY slist() { if (pick("T", 2)) copies<ZSList<int> >(4); else copies<ZSList<Obj> >(4); }
ENTRY dlist() { if (pick("T", 2)) copies<ZDList<int> >(4); else copies<ZDList<Obj> >(4); }
ENTRY deque() { if (pick("T", 2)) copies<ZDeque<int, 2> >(6); else copies<ZDeque<Obj, 3> >(4); }
ENTRY queue() { copies<ZQueue<Obj> >(4); }
ENTRY stack() { copies<ZStack<Obj> >(4); }
ENTRY minstack() { if (pick("T", 2)) copies<ZMinStack<int> >(4, DEEP(1, 2)); else copies<ZMinStack<Obj> >(3, DEEP(1, 2)); }
ENTRY heap() { if (pick("T", 2)) copies<ZHeap<KV> >(4, DEEP(1, 2)); else copies<ZHeap<OKV> >(3, DEEP(1, 2)); }
ENTRY string() { copies<ZString<> >(3); }
ENTRY bst() { if (pick("T", 2)) copies<ZBST<int> >(DEEP(3, 4), DEEP(1, 2)); else copies<ZBST<Obj> >(3, DEEP(1, 2)); }
ENTRY avl() { if (pick("T", 2)) copies<ZAVL<int> >(DEEP(3, 4), DEEP(1, 2)); else copies<ZAVL<Obj> >(3, DEEP(1, 2)); }
ENTRY map() { if (pick("T", 2)) copies<ZMap<int> >(3, DEEP(1, 2)); else copies<ZMap<Obj> >(3, DEEP(1, 2)); }
ENTRY disjoint() { copies<ZUF<> >(3); }
ENTRY array() { if (pick("T", 2)) copies<ZArray<int> >(3); else copies<ZArray<Obj> >(3); }
template <typename C> static void ascending(const C &c, int n) {
    A((int)c.size() == n, "size"); int i = 0; auto p = c.begin();
    for (auto it = c.begin(); it != c.end(); it++) { if (i++) { A(V(*p) < V(*it), "ascending"); p = it; } }
    A(i == n, "iteration visits every element");
}
template <typename C> static void trees() {
    {
        C a; int n = 1 + pick("n", 20), step = pick("order", 2) ? 1 : 7;
        for (int i = 0; i < n; i++) a.push(Obj((i * step) % 23));
        C b(a); C c; c.push(Obj(99)); c = b;
        ascending(a, n); ascending(b, n); ascending(c, n); vp_reach("copied");
        for (int i = 0; i < n; i++) {
            a.pop(Obj((i * step) % 23)); ascending(a, n - 1 - i); ascending(b, n - i); ascending(c, n);
            b.pop(Obj(V(*b.begin()))); ascending(b, n - 1 - i); ascending(c, n);
        }
    }
    allGone();
}
ENTRY deep() { if (pick("tree", 2)) trees<tree::BinarySearchTree<Obj, less<Obj>, VAlloc> >(); else trees<AVLTree<Obj, less<Obj>, VAlloc> >(); }
template <typename C, typename T> static void farCopy(bool ordered, int n) {
    {
        C a; farMake<C, T>(a, n, ordered, true); C b(a), c; for (int i = 0; i < 3; i++) FarAdd<C, T>::add(c, -i); c = a;
        farSame(b, "a copy is equal to its source"); farSame(c, "an assigned copy is equal to its source"); farSame(a, "the source is unchanged");
        for (int i = 1; i < 99; i++) FarAdd<C, T>::add(b, farKey(7 * i) ^ 1); farSame(a, "the source is independent of its copy"); farSame(c, "copies are independent of each other");
        farClear(b, 0); farSame(a, "the source is independent of its copy"); farNote(c); { C d(c); FarAdd<C, T>::add(a, 1); d = a; a = c; } farSame(a, "an assigned copy is equal to its source"); farSame(c, "the source is unchanged"); vp_reach("done"); vp_trace(farLen);
    }
    allGone();
}
ENTRY far() { if (pick("string", 2)) farCopy<BasicString<char, VAlloc>, char>(false, FAR); else FAR_KINDS(farCopy, int); }
