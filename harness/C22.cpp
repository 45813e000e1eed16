// C22: a container holds exactly its elements alive: each is constructed once before
// use, destroyed once after, and never touched outside its life.
#include "zoo.hpp"
#include "far.hpp"
//@assume pop/write only on a non-empty container; AVL tree and Map are given absent keys; element copies do not fail
//@entry vector reach=alive :: Vector: every history of 5 (thorough: 6) operations, then copy, move, swap or clear; live elements are counted after each operation
//@entry slist reach=alive :: singly linked list, same
//@entry dlist reach=alive :: doubly linked list, same
//@entry deque reach=alive :: deque (block size 2, 3), same
//@entry adapters reach=alive :: Queue, Stack, MinStack: 6 (thorough: 8) operations
//@entry heap reach=alive :: Heap: 5 (thorough: 6) operations
//@entry trees reach=alive :: BST and AVL tree: 4 (thorough: 5) operations
//@entry map reach=alive :: Map: 4 (thorough: 5) operations
//@entry array reach=alive :: Array: always its N elements
//@entry growth reach=alive :: 60 additions of each kind and as many removals, counted throughout
//@entry reserve reach=alive :: Vector(n,x), resize(n), resize(n,x) for n<=6 in every order of 3: only elements below size() are alive
//@entry far reach=done max_instr=1000000000 :: Vector, lists, deque, Queue, Stack, MinStack, Heap, trees, Map of 5000 lifetime-tracked elements: live elements counted when grown, copied, cleared, moved
template <typename Z> struct Alive {
    int base, head; // elements alive before, per-container overhead (list head, heap sentinel)
    void is(int containers, int elements) {
        int l = vp_live_objs() - base;
        A(Z::HEAD >= 0 ? l == containers * head + elements : l >= containers * head + elements && l <= containers * head + 2 * elements, "as many elements are alive as the containers hold");
    }
};
template <typename Z> static void life(int steps) {
    typedef typename Z::C C;
    {
        Z m; Alive<Z> al; al.base = vp_live_objs();
        C a; al.head = vp_live_objs() - al.base;
        A(Z::HEAD < 0 || al.head <= 1, "an empty container holds no elements");
        for (int i = 0; i < steps; i++) { m.op(a, pick("op", Z::OPS)); al.is(1, m.n()); }
        m.check(a); if (m.n() > 1) vp_reach("alive");
        int how = pick("how", 5);
        if (how == 0) { C b(a); al.is(2, 2 * m.n()); m.check(b); }
        else if (how == 1) { C b; Z mb; mb.op(b, 0); b = a; al.is(2, 2 * m.n()); m.op(b, 0); al.is(2, 2 * m.n() - 1); m.check(b); }
        else if (how == 2) { C b; Z mb; mb.op(b, 0); b = dstruct::move(a); al.is(2, m.n()); m.op(b, 0); al.is(2, m.n()); m.check(b); }
        else if (how == 3) { C b; Z mb; mb.op(b, 0); dstruct::swap(a, b); al.is(2, m.n() + 1); m.check(b); mb.check(a); }
        else { { C b(dstruct::move(a)); al.is(2, m.n()); } al.is(1, 0); }
        vp_trace(m.n());
    }
    allGone();
}
ENTRY vector() { life<ZVector<Obj> >(DEEP(5, 6)); }
ENTRY slist() { life<ZSList<Obj> >(DEEP(5, 6)); }
ENTRY dlist() { life<ZDList<Obj> >(DEEP(5, 6)); }
ENTRY deque() { if (pick("T", 2)) life<ZDeque<Obj, 2> >(DEEP(5, 6)); else life<ZDeque<Obj, 3> >(DEEP(5, 6)); }
ENTRY adapters() { int k = pick("T", 3); if (k == 0) life<ZQueue<Obj> >(DEEP(6, 8)); else if (k == 1) life<ZStack<Obj> >(DEEP(6, 8)); else life<ZMinStack<Obj> >(DEEP(4, 5)); }
ENTRY heap() { life<ZHeap<OKV> >(DEEP(5, 6)); }
ENTRY trees() { if (pick("T", 2)) life<ZBST<Obj> >(DEEP(4, 5)); else life<ZAVL<Obj> >(DEEP(4, 5)); }
ENTRY map() { life<ZMap<Obj> >(DEEP(4, 5)); }
ENTRY array() {
    {
        Array<Obj, 4> a; A(vp_live_objs() == 4, "N elements"); { Array<Obj, 4> b(a); A(vp_live_objs() == 8, "N elements each"); b[1] = Obj(vp_int("x")); a = b; A(V(a[1]) == V(b[1]), "copied"); dstruct::swap(a, b); }
        A(vp_live_objs() == 4, "N elements"); vp_reach("alive");
    }
    allGone();
}
template <typename C> static void seq(int key) {
    {
        int base = vp_live_objs(); C c; int head = vp_live_objs() - base;
        for (int i = 1; i <= 60; i++) { c.push(Obj(key ? i * 37 % 83 : i & 15)); A(vp_live_objs() == base + head + i, "one more element alive"); }
        for (int i = 60; i >= 1; i--) { if (i == 17) { C d(c); A(vp_live_objs() == base + 2 * (head + i), "a copy holds its own elements"); } c.pop(); A(vp_live_objs() == base + head + i - 1, "one element fewer alive"); }
        vp_reach("alive");
    }
    allGone();
}
template <typename C> static void keyed() {
    {
        C c;
        for (int i = 1; i <= 60; i++) { c.push(Obj(i * 37 % 83)); A(vp_live_objs() == i, "one more element alive"); }
        for (int i = 1; i <= 60; i++) { if (i == 17) { C d(c); A(vp_live_objs() == 2 * (61 - i), "a copy holds its own elements"); } c.pop(Obj(i * 37 % 83)); A(vp_live_objs() == 60 - i, "one element fewer alive"); }
        vp_reach("alive");
    }
    allGone();
}
ENTRY growth() {
    int k = pick("container", 10);
    if (k == 0) seq<Vector<Obj, VAlloc> >(0); else if (k == 1) seq<SinglyLinkedList<Obj, VAlloc> >(0); else if (k == 2) seq<DoublyLinkedList<Obj, VAlloc> >(0);
    else if (k == 3) seq<DoubleEndedQueue<Obj, 4, VAlloc> >(0); else if (k == 4) seq<Queue<Obj, VAlloc> >(0); else if (k == 5) seq<Stack<Obj, VAlloc> >(0);
    else if (k == 6) seq<MinHeap<Obj, VAlloc> >(1); else if (k == 7) seq<MaxHeap<Obj, VAlloc> >(0);
    else if (k == 8) keyed<BSTree<Obj, VAlloc> >(); else keyed<AVLTree<Obj, less<Obj>, VAlloc> >();
}
ENTRY reserve() {
    {
        Vector<Obj, VAlloc> v; int n = pick("n", 7); if (n) v = Vector<Obj, VAlloc>(n, Obj(vp_int("x")));
        A(vp_live_objs() == n, "n elements");
        for (int i = 0; i < 3; i++) {
            int k = pick("resize", 7);
            if (pick("how", 2)) { v.resize(k); n = n < k ? n : k; } else { v.resize(k, Obj(vp_int("y"))); n = k; }
            A((int)v.size() == n && vp_live_objs() == n, "as many elements are alive as the vector holds");
        }
        v.push_back(Obj(vp_int("z"))); A(vp_live_objs() == n + 1, "one more"); v.clear(); A(vp_live_objs() == 0, "none after clear()");
        vp_reach("alive"); vp_trace(n);
    }
    allGone();
}
template <typename C, typename T> static void farLife(bool, int) {
    {
        int base = vp_live_objs(), n = 5000; C a; int head = vp_live_objs() - base; farMake<C, T>(a, n, false, false); int l = vp_live_objs() - base; A(l >= n + head && l <= 2 * n + head, "as many elements are alive as the container holds");
        { C b(a); A(vp_live_objs() - base == 2 * l, "a copy has its own elements"); farClear(b, 0); A(vp_live_objs() - base <= l + 1, "cleared elements are destroyed"); FarAdd<C, T>::add(b, 5); b = a; A(vp_live_objs() - base == 2 * l, "a copy has its own elements"); }
        A(vp_live_objs() - base == l, "elements are destroyed with their container");
        { C c(dstruct::move(a)); farSame(c, "the elements are moved"); A(vp_live_objs() - base <= l + 1, "moving adds no element"); } A(vp_live_objs() - base <= 1, "elements are destroyed with their container"); vp_reach("done"); vp_trace(l);
    }
    allGone();
}
ENTRY far() { FAR_KINDS(farLife, Obj); }
