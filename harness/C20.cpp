// C20: moving transfers the contents and leaves a source that can be reused.
#include "zoo.hpp"
#include "far.hpp"
//@assume pop/write only on a non-empty container; AVL tree and Map are given absent keys; element copies do not fail
//@entry vector reach=moved,from_empty :: Vector: source built by n<=3..6 additions (n=0 included) and 1 arbitrary operation, move-constructed from or move-assigned to a target with 0 or 2 elements, swapped, moved to and swapped with itself; then 2 (thorough: 3) arbitrary operations on either (ordered containers: 1, thorough: 2); the source is empty and reusable
//@entry slist reach=moved,from_empty :: singly linked list, same
//@entry dlist reach=moved,from_empty :: doubly linked list, same
//@entry deque reach=moved,from_empty :: deque (block size 2, 3), same
//@entry queue reach=moved,from_empty :: Queue, same
//@entry stack reach=moved,from_empty :: Stack, same
//@entry minstack reach=moved,from_empty :: MinStack, same
//@entry heap reach=moved,from_empty :: Heap, same
//@entry string reach=moved,from_empty :: String, same
//@entry bst reach=moved,from_empty :: BST, same
//@entry avl reach=moved,from_empty :: AVL tree, same
//@entry map reach=moved,from_empty :: Map, same
//@entry disjoint reach=moved :: DisjointSet: the target has the classes, the source can be assigned to again
//@entry array reach=moved :: Array: the target has the elements, the source can be assigned to again
//@entry deep reach=moved :: trees of n fixed keys, n<=20: the moved-to tree is emptied key by key, the source is refilled
//@entry far reach=done max_instr=1000000000 :: Vector, lists, deque, Queue, Stack, MinStack, Heap, trees, Map, String of 70000 (lists 33000, trees and Map 17000) elements, the last arbitrary: moved, move-assigned over 3 elements, swapped; the source refilled
template <typename Z> static void after(typename Z::C &a, Z &ma, typename Z::C &b, Z &mb, int steps) {
    mb.check(b); ma.check(a); vp_reach("moved"); if (mb.n() == 0) vp_reach("from_empty");
    for (int i = 0; i < steps; i++) if (pick("side", 2)) { mb.op(b, pick("op", Z::OPS)); mb.check(b); } else { ma.op(a, pick("op", Z::OPS)); ma.check(a); }
    mb.check(b); ma.check(a); vp_trace(mb.n());
}
template <typename C> static C pass(C &c) { return dstruct::move(c); }
template <typename Z> static void moves(int maxn, int steps = DEEP(2, 3)) {
    typedef typename Z::C C;
    {
        C a; Z ma; int n = pick("n", maxn + 1);
        for (int i = 0; i < n; i++) ma.add(a);
        if (n && pick("extra", 2)) ma.op(a, pick("op0", Z::OPS));
        int how = pick("how", 8);
        if (how == 0) { C b(dstruct::move(a)); Z mb = ma; ma.forget(); after(a, ma, b, mb, steps); }
        else if (how < 3) { C b; Z mb; if (how == 2) { mb.add(b); mb.add(b); } C &r = (b = dstruct::move(a)); A(&r == &b, "assignment yields its target"); mb = ma; ma.forget(); after(a, ma, b, mb, steps); }
        else if (how == 3) { C b; Z mb; mb.add(b); dstruct::swap(a, b); Z t = ma; ma = mb; mb = t; after(a, ma, b, mb, steps); }
        else if (how == 4) { C b(pass(a)); Z mb = ma; ma.forget(); a = dstruct::move(b); ma = mb; mb.forget(); after(b, mb, a, ma, steps); } // there and back
        else if (how >= 6) { C b; Z mb; C &s = a; if (how == 6) a = dstruct::move(s); else dstruct::swap(a, s); after(a, ma, b, mb, steps); } // to itself
        else { Z mb; C b; { C src; Z ms; ms.add(src); b = dstruct::move(src); mb = ms; } mb.check(b); a = b; ma = mb; after(a, ma, b, mb, steps); } // the source is gone
    }
    allGone();
}
ENTRY vector() { if (pick("T", 2)) moves<ZVector<int> >(4); else moves<ZVector<Obj> >(4); }
ENTRY slist() { if (pick("T", 2)) moves<ZSList<int> >(4); else moves<ZSList<Obj> >(4); }
ENTRY dlist() { if (pick("T", 2)) moves<ZDList<int> >(4); else moves<ZDList<Obj> >(4); }
ENTRY deque() { if (pick("T", 2)) moves<ZDeque<int, 2> >(6); else moves<ZDeque<Obj, 3> >(4); }
ENTRY queue() { moves<ZQueue<Obj> >(4); }
ENTRY stack() { moves<ZStack<Obj> >(4); }
ENTRY minstack() { if (pick("T", 2)) moves<ZMinStack<int> >(4, DEEP(1, 2)); else moves<ZMinStack<Obj> >(3, DEEP(1, 2)); }
ENTRY heap() { if (pick("T", 2)) moves<ZHeap<KV> >(4, DEEP(1, 2)); else moves<ZHeap<OKV> >(3, DEEP(1, 2)); }
ENTRY string() { moves<ZString<> >(3); }
ENTRY bst() { if (pick("T", 2)) moves<ZBST<int> >(3, DEEP(1, 2)); else moves<ZBST<Obj> >(3, DEEP(1, 2)); }
ENTRY avl() { if (pick("T", 2)) moves<ZAVL<int> >(3, DEEP(1, 2)); else moves<ZAVL<Obj> >(3, DEEP(1, 2)); }
ENTRY map() { if (pick("T", 2)) moves<ZMap<int> >(3, DEEP(1, 2)); else moves<ZMap<Obj> >(3, DEEP(1, 2)); }
// the source keeps no usable contents: it can be assigned to, and destroyed
template <typename Z> static void onlyTarget(int maxn) {
    typedef typename Z::C C;
    {
        C a; Z ma; int n = pick("n", maxn + 1);
        for (int i = 0; i < n; i++) ma.add(a);
        if (n && pick("extra", 2)) ma.op(a, pick("op0", Z::OPS));
        if (pick("self", 2)) { C &s = a; if (pick("swap", 2)) dstruct::swap(a, s); else a = dstruct::move(s); ma.check(a); }
        if (pick("how", 2)) { C b(dstruct::move(a)); ma.check(b); ma.op(b, 1); ma.check(b); a = b; ma.check(b); }
        else { C b; Z mb; mb.add(b); b = dstruct::move(a); ma.check(b); ma.op(b, 1); ma.check(b); a = b; ma.check(b); }
        ma.check(a); ma.op(a, 0); ma.check(a); vp_reach("moved"); vp_trace(ma.n());
    }
    allGone();
}
ENTRY disjoint() { onlyTarget<ZUF<> >(4); }
ENTRY array() { if (pick("T", 2)) onlyTarget<ZArray<int> >(3); else onlyTarget<ZArray<Obj> >(3); }
template <typename C> static void ascending(const C &c, int n) {
    A((int)c.size() == n, "size"); int i = 0; auto p = c.begin();
    for (auto it = c.begin(); it != c.end(); it++) { if (i++) { A(V(*p) < V(*it), "ascending"); p = it; } }
    A(i == n, "iteration visits every element");
}
template <typename C> static void trees() {
    {
        C a; int n = 1 + pick("n", 20), step = pick("order", 2) ? 1 : 7;
        for (int i = 0; i < n; i++) a.push(Obj((i * step) % 23));
        C b(dstruct::move(a)); C c; c.push(Obj(99)); ascending(a, 0); ascending(b, n);
        c = dstruct::move(b); ascending(b, 0); ascending(c, n); vp_reach("moved");
        for (int i = 0; i < n; i++) { c.pop(Obj((i * step) % 23)); ascending(c, n - 1 - i); a.push(Obj(i)); ascending(a, i + 1); }
    }
    allGone();
}
ENTRY deep() { if (pick("tree", 2)) trees<tree::BinarySearchTree<Obj, less<Obj>, VAlloc> >(); else trees<AVLTree<Obj, less<Obj>, VAlloc> >(); }
template <typename C, typename T> static void farMove(bool ordered, int n) {
    {
        C a; farMake<C, T>(a, n, ordered, true); C b(dstruct::move(a)), c; farSame(b, "the target has the contents"); A(a.empty(), "the source is empty");
        for (int i = 0; i < 3; i++) FarAdd<C, T>::add(c, i); c = dstruct::move(b); farSame(c, "the target has the contents"); A(b.empty(), "the source is empty");
        for (int i = 0; i < 300; i++) FarAdd<C, T>::add(a, farKey(i)); farSame(c, "the target is independent of its source"); dstruct::swap(a, c); farSame(a, "swap exchanges the contents");
        int k = 0; for (auto it = c.begin(); it != c.end(); it++) k++; A(k >= 300, "swap exchanges the contents"); for (int i = 400; i < 500; i++) FarAdd<C, T>::add(b, farKey(i)); farClear(b, 0); farSame(a, "the target is independent of its source"); vp_reach("done"); vp_trace(farLen);
    }
    allGone();
}
ENTRY far() { if (pick("string", 2)) farMove<BasicString<char, VAlloc>, char>(false, FAR); else FAR_KINDS(farMove, int); }
