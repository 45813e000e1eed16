// C43: what is done to one container touches nothing of another one, so threads that work on different containers need no lock.
#include <new>
#include "zoo.hpp"
//@native_all -DVP_PAGES
//@assume the threads' containers use an allocator that is safe to call from several threads (the libc allocator is; a static pool is shared data); interleavings are covered by disjointness: if no operation of one thread touches a byte another thread writes, every schedule gives what each thread's own sequence gives
//@entry vector reach=apart,copied :: two Vectors, unrelated or one a copy of the other (original or copy worked on, destroyed and assigned from its kind): n<=3 (thorough: 4) additions, 2 (thorough: 3) arbitrary operations, complete reading: no byte of the other is read, written or released, no static data written
//@entry slist reach=apart,copied :: singly linked list, same
//@entry dlist reach=apart,copied :: doubly linked list, same
//@entry deque reach=apart,copied :: deque (block size 2 and 3), n<=5, same
//@entry adapters reach=apart,copied :: Queue, Stack, MinStack, same (n<=3)
//@entry string reach=apart,copied :: String, same
//@entry heap reach=apart,copied :: Heap, 1 (thorough: 2) operations
//@entry bst reach=apart,copied :: search tree, same, with traversals and iterators of the three orders
//@entry avl reach=apart,copied :: AVL tree, same
//@entry map reach=apart,copied :: Map, same
//@entry other reach=apart,copied :: Array, disjoint set of 5
//@entry sorts reach=apart :: heap sort and Heap::build of n<=4 (thorough: 5) arbitrary elements beside a heap: neither the heap nor static data is touched
template <typename Z> static void apart(int maxn, int steps = DEEP(2, 3)) {
    typedef typename Z::C C;
    {
        { Z w; C c; w.add(c); w.add(c); w.check(c); C d(c); } // whatever is initialised at first use is
        int rel = pick("relation", 3), n = pick("n", maxn + 1);
        if (rel < 2) vp_apart(1);
        C *a = new (vp_alloc(sizeof(C))) C; Z za; for (int i = 0; i < n; i++) za.add(*a);
        if (rel == 1) { Z z0 = za; z0.op(*a, pick("first", Z::OPS)); za = z0; } // the copy is made of a container with a history
        if (rel < 2) vp_apart(2); else vp_apart(1);
        void *at = vp_alloc(sizeof(C)); Z zb = za; C *b = nullptr;
        if (rel) { b = new (at) C(*a); vp_reach("copied"); }
        if (rel == 2) vp_apart(2);
        vp_apart(3);
        if (!rel) { b = new (at) C; Z z1; zb = z1; zb.add(*b); vp_reach("apart"); }
        C *c = rel == 2 ? a : b; Z &zc = rel == 2 ? za : zb;
        for (int i = 0; i < steps; i++) { int op = pick("op", Z::OPS); zc.op(*c, op); }
        zc.check(*c); { C d(*c); zc.check(d); *c = d; zc.check(*c); C e(dstruct::move(*c)); zc.check(e); }
        c->~C(); vp_free(c, sizeof(C));
        vp_apart(0);
        C *o = rel == 2 ? b : a; Z &zo = rel == 2 ? zb : za; zo.check(*o); o->~C(); vp_free(o, sizeof(C));
        vp_trace(zc.n());
    }
    allGone();
}
ENTRY vector() { if (pick("T", 2)) apart<ZVector<int> >(DEEP(3, 4)); else apart<ZVector<Obj> >(DEEP(3, 4)); }
ENTRY slist() { if (pick("T", 2)) apart<ZSList<int> >(DEEP(3, 4)); else apart<ZSList<Obj> >(DEEP(3, 4)); }
ENTRY dlist() { if (pick("T", 2)) apart<ZDList<int> >(DEEP(3, 4)); else apart<ZDList<Obj> >(DEEP(3, 4)); }
ENTRY deque() { if (pick("T", 2)) apart<ZDeque<int, 2> >(5); else apart<ZDeque<Obj, 3> >(5); }
ENTRY adapters() { int k = pick("T", 4); if (k == 0) apart<ZQueue<Obj> >(3); else if (k == 1) apart<ZStack<int> >(3); else if (k == 2) apart<ZMinStack<int> >(3, DEEP(1, 2)); else apart<ZMinStack<Obj> >(2, DEEP(1, 2)); }
ENTRY string() { apart<ZString<> >(3); }
ENTRY heap() { if (pick("T", 2)) apart<ZHeap<KV> >(3, DEEP(1, 2)); else apart<ZHeap<OKV> >(3, 1); }
ENTRY bst() { if (pick("T", 2)) apart<ZBST<int> >(DEEP(3, 4), 1); else apart<ZBST<Obj> >(3, 1); }
ENTRY avl() { if (pick("T", 2)) apart<ZAVL<int> >(DEEP(3, 4), DEEP(1, 2)); else apart<ZAVL<Obj> >(3, 1); }
ENTRY map() { if (pick("T", 2)) apart<ZMap<int> >(3, DEEP(1, 2)); else apart<ZMap<Obj> >(2, DEEP(1, 2)); }
ENTRY other() {
    int w = pick("what", 3);
    if (w == 0) apart<ZArray<int> >(3); else if (w == 1) apart<ZArray<Obj> >(2);
    else {
        typedef DisjointSet<VAlloc> U;
        {
            int rel = pick("relation", 2); vp_apart(1); U *u = new (vp_alloc(sizeof(U))) U(5); int a = pick("a", 4), b = pick("b", 4); u->connect(a, b); u->connect(a, 4); vp_apart(2);
            int was = (int)u->count(); U *v = nullptr; void *at = vp_alloc(sizeof(U)); if (rel) v = new (at) U(*u);
            vp_apart(3); if (!rel) v = new (at) U(5); for (int i = 0; i < 1; i++) { int p = pick("a", 5), q = pick("b", 5); v->connect(p, q); A(v->connected(q, p), "connected"); } (void)v->count(); v->~U(); vp_free(v, sizeof(U)); vp_apart(0);
            A((int)u->count() == was, "the other one is as it was"); u->~U(); vp_free(u, sizeof(U)); vp_trace(was);
        }
        allGone();
    }
}
ENTRY sorts() {
    typedef Heap<int, less<int>, VAlloc> H;
    {
        { int w[2] = { 2, 1 }; H::sort(w, w + 2); }
        vp_apart(1); H *h = new (vp_alloc(sizeof(H))) H; h->push(3); h->push(1); vp_apart(2); int a[5], n = pick("n", DEEP(5, 6)); for (int i = 0; i < n; i++) { int x = vp_int("x"); a[i] = x; }
        vp_apart(3); { H k = H::build(a, a + n); A((int)k.size() == n, "built"); } H::sort(a, a + n); for (int i = 1; i < n; i++) A(!(a[i] < a[i - 1]), "sorted"); vp_apart(0);
        A(h->top() == 1 && h->size() == 2, "the other one is as it was"); h->~H(); vp_free(h, sizeof(H)); vp_reach("apart"); vp_trace(n);
    }
    allGone();
}
