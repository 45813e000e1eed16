// C32: an ordered container orders by the comparator object it was given, wherever that object's contents went.
#include "vp.hpp"
using namespace dstruct;
// A comparator with state: the numbers from p upwards come first, then those below p; ascending in each part.
// Every p gives a different strict weak order (p = INT_MIN is plain ascending).
struct Rot {
    int p;
    Rot(int q = 0) : p(q) {}
    bool operator()(const KV &a, const KV &b) const {
        int la = (int)(a.k < p), lb = (int)(b.k < p);
        return (((la ^ lb ^ 1) & (int)(a.k < b.k)) | ((la ^ 1) & lb)) != 0;
    }
};
typedef Heap<KV, Rot, VAlloc> H;
typedef tree::BinarySearchTree<KV, Rot, VAlloc> B;
typedef AVLTree<KV, Rot, VAlloc> T;
typedef stack::XValueStack<KV, Rot, adapter::Stack<KV, Vector<KV, VAlloc>>> S;
//@assume the comparator is a strict weak order and a copy of it orders alike; top/pop only on a non-empty container; AVL push only of absent keys; the order of a moved-from container is not looked at
//@entry heap reach=kept,copied,assigned,moved,massigned :: comparator = any rotation of the integers; 2 pushes before and 2 (thorough: 3) after {nothing, copy construction, copy assignment over a heap with another order, move construction, move assignment}; drained; all keys arbitrary
//@entry heapsource reach=copied,assigned :: the source keeps its own order after it was copied: 2 pushes, copy, both get 1 (thorough: 2) more pushes, both drained
//@entry bst reach=kept,copied,assigned,moved,massigned :: search tree, same transfers; 2 pushes before, 2 after, 1 find and 1 pop with arbitrary keys, in-order iteration ascends in the given order
//@entry bstrange reach=done :: search tree built from an array of n<=3 (thorough: 4) arbitrary keys with a comparator object
//@entry avl reach=kept,copied,assigned,moved,massigned :: AVL tree, same transfers; 2 pushes before, 2 after, 1 find and 1 pop with arbitrary keys
//@entry xstack reach=kept,copied,assigned,moved,massigned :: XValueStack, same transfers; 2 pushes before, 2 (thorough: 3) after; extreme checked after each push and pop
//@entry swapped reach=heap,bst,avl,xstack :: dstruct::swap of two containers with different orders, 2 elements each, one more push into each afterwards
//@entry twins reach=done :: two heaps, two search trees and two AVL trees of one type with different orders at the same time, operations interleaved, 2 (thorough: 3) arbitrary keys into each
enum { KEEP, COPY, ASSIGN, MOVE, MASSIGN };
static int how() {
    int w = pick("how", 5);
    if (w == KEEP) vp_reach("kept"); else if (w == COPY) vp_reach("copied"); else if (w == ASSIGN) vp_reach("assigned"); else if (w == MOVE) vp_reach("moved"); else vp_reach("massigned");
    return w;
}
struct Ref { int k[16]; bool alive[16]; int n, size; Ref() : n(0), size(0) {} };
static int before(int p, int x, int y) { return (int)Rot(p)(KV(x), KV(y)); }
// hands the contents of `a` to a container with another comparator and calls f on the holder
template <typename C, typename F> static void through(C &a, int w, int q, const F &f) {
    if (w == KEEP) f(a);
    else if (w == COPY) { C b(a); f(b); }
    else if (w == ASSIGN) { Rot r(q); C b(r); b.push(KV(5, 1000)); b = a; f(b); }
    else if (w == MOVE) { C b(dstruct::move(a)); f(b); }
    else { Rot r(q); C b(r); b.push(KV(5, 1000)); b = dstruct::move(a); f(b); }
}
template <typename C> static void put(C &c, Ref &r, int x) { c.push(KV(x, r.n)); r.k[r.n] = x; r.alive[r.n] = true; r.n++; r.size++; }
// heap
static void drain(H &h, Ref &r, int p) {
    while (r.size) {
        A((int)h.size() == r.size, "size() counts the elements");
        KV t = h.top();
        A(t.p >= 0 && t.p < r.n && r.alive[t.p], "top() is an element of the heap");
        A(t.k == r.k[t.p], "the element is served unchanged");
        int ok = 1;
        for (int i = 0; i < r.n; i++) if (r.alive[i]) ok &= 1 ^ before(p, r.k[i], t.k);
        A(ok, "no element comes before top() in the order the heap was given");
        h.pop(); r.alive[t.p] = false; r.size--;
    }
    A(h.empty(), "the heap is drained");
}
struct MoreH { Ref &r; int p, more; void operator()(H &h) const { for (int i = 0; i < more; i++) { int x = vp_int("y"); put(h, r, x); } drain(h, r, p); } };
ENTRY heap() {
    {
        int p = vp_int("order"); int q = vp_int("other"); Rot c(p); H h(c); Ref r;
        for (int i = 0; i < 2; i++) { int x = vp_int("x"); put(h, r, x); }
        MoreH m = { r, p, DEEP(2, 3) };
        through(h, how(), q, m);
    }
    allGone();
}
ENTRY heapsource() {
    {
        int p = vp_int("order"); int q = vp_int("other"); Rot c(p), d(q); H h(c), g(d); Ref r;
        for (int i = 0; i < 2; i++) { int x = vp_int("x"); put(h, r, x); }
        MoreH m = { r, p, DEEP(1, 2) }; Ref s = r; MoreH ms = { s, p, DEEP(1, 2) };
        if (pick("assign", 2)) { g = h; ms(g); vp_reach("assigned"); } else { H k(h); ms(k); vp_reach("copied"); }
        m(h);
    }
    allGone();
}
// trees
static int holds(const Ref &r, int x) { int f = 0; for (int i = 0; i < r.n; i++) if (r.alive[i]) f |= (int)(r.k[i] == x); return f; }
template <typename C> static void add(C &t, Ref &r, int x) { vp_assume(!holds(r, x)); put(t, r, x); }
template <typename C> static void ordered(const C &t, const Ref &r, int p) {
    A((int)t.size() == r.size, "size() counts the elements");
    int c = 0, prev = 0;
    for (auto it = t.begin(); it != t.end(); it++) {
        KV e = *it;
        A(e.p >= 0 && e.p < r.n && r.alive[e.p], "every visited element is in the tree");
        A(e.k == r.k[e.p], "the element is unchanged");
        if (c) A(before(p, prev, e.k), "in-order iteration ascends in the order the tree was given");
        prev = e.k; A(++c <= r.size, "iteration ends");
    }
    A(c == r.size, "iteration visits every element");
    for (int i = 0; i < r.n; i++) if (r.alive[i]) { auto it = t.find(KV(r.k[i], -5)); A(it != t.end() && it->p == i, "every element can be found"); }
}
template <typename C> struct MoreT {
    Ref &r; int p;
    void operator()(C &t) const {
        ordered(t, r, p);
        for (int i = 0; i < 2; i++) { int x = vp_int("y"); add(t, r, x); }
        ordered(t, r, p);
        int z = vp_int("z"); auto it = t.find(KV(z, -5)); A((it != t.end()) == (holds(r, z) != 0), "find succeeds iff the key is present");
        int d = pick("gone", r.n); t.pop(KV(r.k[d], -6)); r.alive[d] = false; r.size--;
        ordered(t, r, p);
    }
};
template <typename C> static void tree2() {
    {
        int p = vp_int("order"); int q = vp_int("other"); Rot c(p); C t(c); Ref r;
        for (int i = 0; i < 2; i++) { int x = vp_int("x"); add(t, r, x); }
        MoreT<C> m = { r, p };
        through(t, how(), q, m);
    }
    allGone();
}
ENTRY bst() { tree2<B>(); }
ENTRY avl() { tree2<T>(); }
ENTRY bstrange() {
    {
        int p = vp_int("order"); Rot c(p); KV a[4]; Ref r; int n = pick("n", DEEP(4, 5));
        for (int i = 0; i < n; i++) { int x = vp_int("x"); vp_assume(!holds(r, x)); a[i] = KV(x, i); r.k[i] = x; r.alive[i] = true; r.n++; r.size++; }
        B t(PrimitiveIterator<KV>(a), PrimitiveIterator<KV>(a + n), c);
        ordered(t, r, p);
        int y = vp_int("y"); add(t, r, y);
        ordered(t, r, p);
        vp_reach("done");
    }
    allGone();
}
// stack
static void extreme(const S &s, const int *k, int n, int p) {
    A(s.empty() == (n == 0), "empty() iff everything was popped");
    if (!n) return;
    A(s.top().k == k[n - 1], "top() is the last element pushed");
    int x = s.getXValue().k, ok = 1, in = 0;
    for (int i = 0; i < n; i++) { ok &= 1 ^ before(p, k[i], x); in |= (int)(k[i] == x); }
    A(in, "the extreme is an element of the stack");
    A(ok, "no element comes before the extreme in the order the stack was given");
}
struct MoreS {
    int *k; int n, p, more;
    void operator()(S &s) const {
        int m = n; extreme(s, k, m, p);
        for (int i = 0; i < more; i++) { int x = vp_int("y"); s.push(KV(x, m)); k[m++] = x; extreme(s, k, m, p); }
        while (m) { s.pop(); m--; extreme(s, k, m, p); }
    }
};
ENTRY xstack() {
    {
        int p = vp_int("order"); int q = vp_int("other"); Rot c(p); S s(c); int k[8], n = 0;
        for (int i = 0; i < 2; i++) { int x = vp_int("x"); s.push(KV(x, n)); k[n++] = x; }
        MoreS m = { k, n, p, DEEP(2, 3) };
        through(s, how(), q, m);
    }
    allGone();
}
ENTRY swapped() {
    {
        int p = vp_int("order"); int q = vp_int("other"); Rot c(p), d(q); int w = pick("kind", 4);
        if (w == 0) {
            H a(c), b(d); Ref r, s;
            for (int i = 0; i < 2; i++) { int x = vp_int("x"); put(a, r, x); int y = vp_int("y"); put(b, s, y); }
            dstruct::swap(a, b);
            int x = vp_int("x"); put(b, r, x); int y = vp_int("y"); put(a, s, y);
            drain(b, r, p); drain(a, s, q); vp_reach("heap");
        } else if (w == 1) {
            B a(c), b(d); Ref r, s;
            for (int i = 0; i < 2; i++) { int x = vp_int("x"); add(a, r, x); int y = vp_int("y"); add(b, s, y); }
            dstruct::swap(a, b);
            int x = vp_int("x"); add(b, r, x); ordered(b, r, p); ordered(a, s, q); vp_reach("bst");
        } else if (w == 2) {
            T a(c), b(d); Ref r, s;
            for (int i = 0; i < 2; i++) { int x = vp_int("x"); add(a, r, x); int y = vp_int("y"); add(b, s, y); }
            dstruct::swap(a, b);
            int x = vp_int("x"); add(b, r, x); ordered(b, r, p); ordered(a, s, q); vp_reach("avl");
        } else {
            S a(c), b(d); int k[4], l[4];
            for (int i = 0; i < 2; i++) { int x = vp_int("x"); a.push(KV(x, i)); k[i] = x; int y = vp_int("y"); b.push(KV(y, i)); l[i] = y; }
            dstruct::swap(a, b);
            MoreS m = { k, 2, p, 1 }; m(b); MoreS o = { l, 2, q, 1 }; o(a); vp_reach("xstack");
        }
    }
    allGone();
}
ENTRY twins() {
    {
        int p = vp_int("order"); int q = vp_int("other"); Rot c(p), d(q); int w = pick("kind", 3);
        if (w == 0) {
            H a(c), b(d); Ref r, s;
            for (int i = 0; i < DEEP(2, 3); i++) { int x = vp_int("x"); put(a, r, x); int y = vp_int("y"); put(b, s, y); }
            drain(a, r, p); drain(b, s, q);
        } else if (w == 1) {
            B a(c), b(d); Ref r, s;
            for (int i = 0; i < DEEP(2, 3); i++) { int x = vp_int("x"); add(a, r, x); int y = vp_int("y"); add(b, s, y); }
            ordered(a, r, p); ordered(b, s, q);
        } else {
            T a(c), b(d); Ref r, s;
            for (int i = 0; i < DEEP(2, 3); i++) { int x = vp_int("x"); add(a, r, x); int y = vp_int("y"); add(b, s, y); }
            ordered(a, r, p); ordered(b, s, q);
        }
        vp_reach("done");
    }
    allGone();
}
