// C21: a container takes all its storage from the allocator it was given, releases
// every block once with the size it was requested with, and keeps none.
#include "zoo.hpp"
//@assume pop/write only on a non-empty container; AVL tree and Map are given absent keys
//@entry vector reach=blocks :: Vector: every history of 5 (thorough: 7; ordered containers 3..4, thorough: 5) operations, then copy, move-assignment, swap or clear; every live element inside a live block of the allocator, no block elsewhere, none left
//@entry lists reach=blocks :: singly and doubly linked lists, same
//@entry deque reach=blocks :: deque (block size 2 and 3), same
//@entry adapters reach=blocks :: Queue, Stack, MinStack, same
//@entry string reach=blocks :: String, same
//@entry heap reach=blocks :: Heap, same
//@entry trees reach=blocks :: BST and AVL tree, same
//@entry map reach=blocks :: Map, same
//@entry disjoint reach=blocks :: DisjointSet, same
//@entry array reach=static :: Array: no storage is requested at all
//@entry deflt reach=done :: every container with the library's default allocator: the same histories, every block obtained is released once
//@entry growth reach=done :: 80 additions, then removals: Vector, deque, lists, String, Stack, Queue, trees of wide and one-byte elements
template <typename C> static void inside(const C &c) { for (auto it = c.begin(); it != c.end(); it++) A(vp_is_valloc(&*it), "every element lives in the allocator's storage"); }
template <typename C> struct Places { static void check(const C &c) { inside(c); } };
template <typename AL> struct Places<UF5<AL> > { static void check(const UF5<AL> &) {} };
template <typename Z, bool CUSTOM> static void storage(int steps) {
    typedef typename Z::C C;
    {
        C a; Z m;
        for (int i = 0; i < steps; i++) m.op(a, pick("op", Z::OPS));
        m.check(a); if (CUSTOM) Places<C>::check(a);
        if (m.n() > 1) vp_reach("blocks");
        int how = pick("how", 5);
        if (how == 0) { C b(a); if (CUSTOM) Places<C>::check(b); m.check(b); }
        else if (how == 1) { C b; Z mb; mb.op(b, 0); b = a; if (CUSTOM) Places<C>::check(b); m.check(b); m.op(b, 0); m.check(b); }
        else if (how == 2) { C b; Z mb; mb.op(b, 0); b = dstruct::move(a); if (CUSTOM) Places<C>::check(b); m.check(b); m.op(b, 0); if (CUSTOM) Places<C>::check(b); m.check(b); }
        else if (how == 3) { C b; Z mb; mb.op(b, 0); dstruct::swap(a, b); if (CUSTOM) { Places<C>::check(a); Places<C>::check(b); } m.check(b); mb.check(a); }
        else { C b(dstruct::move(a)); if (CUSTOM) Places<C>::check(b); m.check(b); }
        if (CUSTOM) A(vp_mallocs() == 0, "no storage from anywhere but the given allocator");
        vp_trace(m.n());
    }
    A(vp_live_blocks() == 0, "every block is released");
}
ENTRY vector() { int k = pick("T", 3); if (k == 0) storage<ZVector<int>, true>(DEEP(5, 7)); else if (k == 1) storage<ZVector<Wide>, true>(DEEP(5, 6)); else storage<ZVector<Byte>, true>(DEEP(5, 6)); }
ENTRY lists() { int k = pick("T", 4); if (k == 0) storage<ZSList<int>, true>(DEEP(5, 7)); else if (k == 1) storage<ZSList<Byte>, true>(DEEP(5, 6)); else if (k == 2) storage<ZDList<Wide>, true>(DEEP(5, 7)); else storage<ZDList<Byte>, true>(DEEP(5, 6)); }
ENTRY deque() { int k = pick("T", 3); if (k == 0) storage<ZDeque<int, 2>, true>(DEEP(5, 7)); else if (k == 1) storage<ZDeque<Wide, 3>, true>(DEEP(5, 6)); else storage<ZDeque<Byte, 2>, true>(DEEP(5, 6)); }
ENTRY adapters() { int k = pick("T", 3); if (k == 0) storage<ZQueue<Wide>, true>(DEEP(6, 9)); else if (k == 1) storage<ZStack<Byte>, true>(DEEP(6, 9)); else storage<ZMinStack<int>, true>(DEEP(4, 6)); }
ENTRY string() { storage<ZString<>, true>(DEEP(5, 6)); }
ENTRY heap() { if (pick("T", 2)) storage<ZHeap<KV>, true>(DEEP(5, 6)); else storage<ZHeap<OKV>, true>(DEEP(5, 6)); }
ENTRY trees() { int k = pick("T", 3); if (k == 0) storage<ZBST<Wide>, true>(DEEP(3, 4)); else if (k == 1) storage<ZBST<int>, true>(DEEP(4, 5)); else storage<ZAVL<int>, true>(DEEP(4, 5)); }
ENTRY map() { if (pick("T", 2)) storage<ZMap<Wide>, true>(DEEP(4, 5)); else storage<ZMap<Byte>, true>(DEEP(3, 5)); }
ENTRY disjoint() { storage<ZUF<>, true>(DEEP(4, 6)); }
ENTRY array() {
    typedef Array<Wide, 5> C;
    { C a(Wide(vp_int("x"))); C b(a); C c(dstruct::move(a)); b = c; dstruct::swap(b, c); A(vp_live_blocks() == 0, "an Array needs no storage"); vp_reach("static"); }
    A(vp_mallocs() == 0, "an Array needs no storage");
}
ENTRY deflt() {
    int k = pick("container", 13);
    typedef dstruct::Alloc D;
    if (k == 0) storage<ZVector<int, D>, false>(3); else if (k == 1) storage<ZSList<int, D>, false>(3); else if (k == 2) storage<ZDList<int, D>, false>(3);
    else if (k == 3) storage<ZDeque<int, 2, D>, false>(3); else if (k == 4) storage<ZQueue<int, D>, false>(3); else if (k == 5) storage<ZStack<int, D>, false>(3);
    else if (k == 6) storage<ZMinStack<int, D>, false>(3); else if (k == 7) storage<ZString<D>, false>(3); else if (k == 8) storage<ZHeap<KV, D>, false>(3);
    else if (k == 9) storage<ZBST<int, D>, false>(2); else if (k == 10) storage<ZAVL<int, D>, false>(2); else if (k == 11) storage<ZMap<int, D>, false>(2);
    else storage<ZUF<D>, false>(2);
    vp_reach("done");
}
template <typename C, typename T> static void pushPop(int n, int q) {
    { C c; for (int i = 0; i < n; i++) c.push(T(i % 64)); inside(c); for (int i = 0; i < q; i++) c.pop(); inside(c); C d(c); d.push(T(3)); c = dstruct::move(d); inside(c); A(vp_mallocs() == 0, "no storage from anywhere but the given allocator"); }
    A(vp_live_blocks() == 0, "every block is released");
}
template <typename C> static void keyed(int n, int q) {
    { C c; for (int i = 0; i < n; i++) c.push(Wide(i * 37 % 83)); inside(c); for (int i = 0; i < q; i++) c.pop(Wide(i * 37 % 83)); inside(c); C d(c); d.push(Wide(1000)); c = dstruct::move(d); inside(c); A(vp_mallocs() == 0, "no storage from anywhere but the given allocator"); }
    A(vp_live_blocks() == 0, "every block is released");
}
ENTRY growth() {
    int n = 1 + pick("n", 80), q = pick("part", 3); q = q == 0 ? 0 : q == 1 ? n / 2 : n;
    int k = pick("container", 11);
    if (k == 0) pushPop<Vector<Wide, VAlloc>, Wide>(n, q); else if (k == 1) pushPop<Vector<Byte, VAlloc>, Byte>(n, q);
    else if (k == 2) pushPop<DoubleEndedQueue<Wide, 4, VAlloc>, Wide>(n, q); else if (k == 3) pushPop<DoubleEndedQueue<Byte, 5, VAlloc>, Byte>(n, q);
    else if (k == 4) pushPop<SinglyLinkedList<Wide, VAlloc>, Wide>(n, q); else if (k == 5) pushPop<DoublyLinkedList<Byte, VAlloc>, Byte>(n, q);
    else if (k == 6) pushPop<Queue<Wide, VAlloc>, Wide>(n, q); else if (k == 7) pushPop<MaxStack<Byte, VAlloc>, Byte>(n, q);
    else if (k == 8) pushPop<MinHeap<Wide, VAlloc>, Wide>(n, q);
    else if (k == 9) keyed<BSTree<Wide, VAlloc> >(n, q); else keyed<AVLTree<Wide, less<Wide>, VAlloc> >(n, q);
    vp_reach("done");
}
