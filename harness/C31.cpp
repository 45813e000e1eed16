// C31: the storage a container holds is bounded by what it contains, at every moment of
// any history: it grows in proportion, shrinks with removals and is constant when emptied.
#include "zoo.hpp"
//@assume histories of push, pop and clear (resize is an explicit reservation); pop only on a non-empty container
//@entry vector reach=grown,shrunk :: Vector: every push/pop/clear history of 10 (thorough: 13) steps after n<=40 pushes: at most 3 slots per element + 2, nothing when cleared
//@entry deque reach=grown,shrunk :: deque (block size 2, 4): every history of 5 (thorough: 7) steps push/pop at either end or clear, after n<=60 pushes at one end and the removal of k of them at either end
//@entry queue reach=done :: Queue (block size 32) of 1..3, 40, 100 elements under 300 push/pop steps at constant length: storage stays bounded; the same after growth to 300
//@entry steady reach=done :: Vector, Stack, deque, Heap, MinStack, String, lists, trees, Map: 40 rounds of push and pop at any length 0..9: storage after every round the same as after the first at most doubled
//@entry nodes reach=done :: lists, BST, AVL tree, Map, arbitrary values: every history of 5 (trees 4; thorough: 6, trees 5) operations: one node per element, of constant size
//@entry stacks reach=done :: Stack, MinStack, Heap: every history of 7 (thorough: 9) pushes and pops of arbitrary values
//@entry string reach=done :: String: every history of 5 (thorough: 7) push_back, += and clear: at most 2 bytes per character + 16
//@entry fewallocs reach=done :: n<=100 pushes request storage at most 2*log2(n)+4 times: Vector, Stack, Heap, String; deque at most once per block plus that
//@entry copies reach=done :: a copy of Vector, deque, Stack, Heap, String after any 0..40 pushes and 0..40 pops holds no more than its source
//@entry reported reach=done :: Heap, Map, AVL tree, BST, disjoint set, after any 0..20 insertions and removal of any part: capacity() covers the elements and is covered by the storage held
static int gBytes, gAllocs;
struct Meter {
    static void *allocate(int n) { gBytes += n; gAllocs++; return vp_alloc(n); }
    static void deallocate(void *p, int n) { if (p) gBytes -= n; vp_free(p, n); }
};
static void most(int limit) { A(gBytes <= limit, "storage is bounded by the contents"); }
ENTRY vector() {
    {
        Vector<int, Meter> v; int n = pick("n", 41); for (int i = 0; i < n; i++) { v.push_back(i); most(4 * 2 * v.size() + 8); A(v.capacity() >= v.size(), "capacity() covers the elements"); }
        for (int s = 0; s < DEEP(10, 13); s++) {
            int before = gBytes; if (s && pick("op", 2)) { int x = vp_int("x"); v.push_back(x); if (gBytes > before) vp_reach("grown"); } else { vp_assume(v.size() > 0); v.pop_back(); if (gBytes < before) vp_reach("shrunk"); }
            most(4 * (3 * (int)v.size() + 2)); A(gBytes == 4 * (int)v.capacity() && v.capacity() >= v.size(), "capacity() is what is held");
        }
        while (!v.empty()) { v.pop_back(); most(4 * (3 * (int)v.size() + 2)); }
        if (pick("again", 2)) { v.push_back(1); v.clear(); A(gBytes == 0, "a cleared Vector holds nothing"); v.clear(); A(v.capacity() == 0, "capacity() 0"); v.push_back(2); most(8); }
    }
    A(gBytes == 0, "all is given back");
}
template <int N> static void dlimit(int n) { most((6 * n + 48 * N) * 4 + ((6 * n) / N + 48) * 8); }
template <int N> static void dq() {
    {
        DoubleEndedQueue<int, N, Meter> d; int m = 0, n = 20 * pick("n", 4), front = pick("front", 2), k = 10 * pick("k", 7), kf = pick("kf", 2); vp_assume(k <= n);
        for (int i = 0; i < n; i++) { if (front) d.push_front(i); else d.push_back(i); m++; dlimit<N>(m); A((int)d.capacity() >= m, "capacity() covers the elements"); }
        for (int i = 0; i < k; i++) { int b = gBytes; if (kf) d.pop_front(); else d.pop_back(); m--; dlimit<N>(m); if (gBytes < b) vp_reach("shrunk"); }
        for (int s = 0; s < DEEP(5, 7); s++) {
            int op = pick("op", 4), b = gBytes; if (op > 1) vp_assume(m > 0);
            if (op == 0) { d.push_back(s); m++; } else if (op == 1) { d.push_front(s); m++; } else if (op == 2) { d.pop_back(); m--; } else { d.pop_front(); m--; }
            if (gBytes > b) vp_reach("grown"); dlimit<N>(m); A((int)d.capacity() >= m && (int)d.size() == m, "capacity() covers the elements");
        }
        while (m > 0) { if (kf) d.pop_back(); else d.pop_front(); m--; dlimit<N>(m); }
        d.clear(); A(gBytes == 0, "a cleared deque holds nothing"); d.push_front(1); dlimit<N>(1);
    }
    A(gBytes == 0, "all is given back");
}
ENTRY deque() { if (pick("N", 2)) dq<2>(); else dq<4>(); }
ENTRY queue() {
    {
        Queue<int, Meter> q; int l = pick("length", 5), n = l < 3 ? l + 1 : l == 3 ? 40 : 100, big = pick("big", 2);
        if (big) { for (int i = 0; i < 300; i++) { q.push(i); dlimit<32>(i + 1); } while ((int)q.size() > n) { q.pop(); dlimit<32>((int)q.size()); } }
        while ((int)q.size() < n) q.push(0);
        for (int i = 0; i < 300; i++) { q.push(i); q.pop(); dlimit<32>(n); A((int)q.size() == n, "size() counts the elements"); }
    }
    A(gBytes == 0, "all is given back"); vp_reach("done");
}
template <typename Z> static void round_(int maxn, int extra) {
    typedef typename Z::C C;
    {
        C c; Z z; int n = pick("n", maxn + 1); for (int i = 0; i < n; i++) z.add(c);
        int first = 0; for (int r = 0; r < 40; r++) { z.add(c); z.op(c, 1); if (r == 0) first = gBytes; most(2 * first + extra); }
        z.check(c);
    }
    A(gBytes == 0, "all is given back"); vp_reach("done");
}
template <typename T> struct ZStr1 : ZString<T> { void op(typename ZString<T>::C &c, int k) { if (k == 1 && this->m.n() > 30) { c.clear(); this->m.clear(); } } };
ENTRY steady() {
    int k = pick("kind", 6); if (k == 0) round_<ZVector<int, Meter> >(9, 0); else if (k == 1) round_<ZStack<int, Meter> >(9, 0); else if (k == 2) round_<ZDeque<int, 2, Meter> >(9, 0); else if (k == 3) round_<ZSList<int, Meter> >(9, 0); else if (k == 4) round_<ZDList<int, Meter> >(9, 0); else round_<ZStr1<Meter> >(9, 96);
}
template <typename Z> static void perNode(int steps) {
    typedef typename Z::C C;
    {
        C probe; Z zp; zp.add(probe); zp.add(probe); int two = gBytes; zp.op(probe, 1); int one = gBytes, per = two - one, head = one - per;
        A(head >= 0 && per > 0 && head <= 2 * per + 64, "constant size per element"); probe.clear(); zp.forget(); A(gBytes <= head, "a cleared container holds no node");
        int base = gBytes; C c; Z z;
        for (int s = 0; s < steps; s++) { z.op(c, pick("op", Z::OPS)); int held = gBytes - base; A(held >= z.n() * per && held <= z.n() * per + head, "one node per element"); }
        z.check(c);
    }
    A(gBytes == 0, "all is given back"); vp_reach("done");
}
ENTRY nodes() {
    int k = pick("kind", 5), s = DEEP(5, 6); if (k == 0) perNode<ZSList<int, Meter> >(s); else if (k == 1) perNode<ZDList<Wide, Meter> >(s); else if (k == 2) perNode<ZBST<int, Meter> >(s - 1); else if (k == 3) perNode<ZAVL<int, Meter> >(s - 1); else perNode<ZMap<int, Meter> >(s - 1);
}
template <typename Z> static void perSlot(int steps, int size, int mul, int extra) {
    typedef typename Z::C C;
    { C c; Z z; for (int s = 0; s < steps; s++) { z.op(c, s ? pick("op", 2) : 0); most(size * (3 * (mul * z.n() + extra) + 2)); } while (z.n()) { z.op(c, 1); most(size * (3 * (mul * z.n() + extra) + 2)); } }
    A(gBytes == 0, "all is given back"); vp_reach("done");
}
ENTRY stacks() { int k = pick("kind", 3), s = DEEP(7, 9); if (k == 0) perSlot<ZStack<Wide, Meter> >(s + 3, 16, 1, 0); else if (k == 1) perSlot<ZMinStack<int, Meter> >(s, 4, 2, 0); else perSlot<ZHeap<KV, Meter> >(s - 1, 8, 1, 1); }
ENTRY string() {
    { ZString<Meter> z; BasicString<char, Meter> c; for (int s = 0; s < DEEP(5, 7); s++) { int k = pick("op", 3); z.op(c, k); most(2 * z.n() + 16); } c.clear(); most(16); z.forget(); z.check(c); }
    A(gBytes == 0, "all is given back"); vp_reach("done");
}
static int lg(int n) { int r = 0; while (n > 1) { n /= 2; r++; } return r; }
ENTRY fewallocs() {
    {
        int k = pick("kind", 5);
        if (k == 0) { Vector<Wide, Meter> v; for (int i = 1; i <= 100; i++) { v.push_back(Wide(i)); A(gAllocs <= 2 * lg(i) + 4, "few requests"); } }
        else if (k == 1) { Stack<int, Meter> v; for (int i = 1; i <= 100; i++) { v.push(i); A(gAllocs <= 2 * lg(i) + 4, "few requests"); } }
        else if (k == 2) { Heap<int, less<int>, Meter> v; for (int i = 1; i <= 100; i++) { v.push(100 - i); A(gAllocs <= 2 * lg(i) + 4, "few requests"); } }
        else if (k == 3) { BasicString<char, Meter> v; for (int i = 1; i <= 100; i++) { v.push_back('a'); A(gAllocs <= 2 * lg(i) + 4, "few requests"); } }
        else { DoubleEndedQueue<int, 4, Meter> v; for (int i = 1; i <= 100; i++) { v.push_back(i); A(gAllocs <= 6 * lg(i) + 4 + 6 * i / 4 + 48, "few requests"); } }
    }
    A(gBytes == 0, "all is given back"); vp_reach("done");
}
template <typename Z> static void cp() {
    typedef typename Z::C C;
    { C a; Z z; int n = 8 * pick("n", 6), k = 8 * pick("k", 6); vp_assume(k <= n); for (int i = 0; i < n; i++) z.add(a); for (int i = 0; i < k; i++) z.op(a, 1); int src = gBytes; { C b(a); A(gBytes <= 2 * src + 64, "a copy holds no more than its source"); } A(gBytes == src, "and gives it back"); C d; int e = gBytes - src; d = a; A(gBytes <= 2 * src + 64 + e, "a copy holds no more than its source"); }
    A(gBytes == 0, "all is given back"); vp_reach("done");
}
ENTRY copies() { int k = pick("kind", 4); if (k == 0) cp<ZVector<int, Meter> >(); else if (k == 1) cp<ZDeque<int, 2, Meter> >(); else if (k == 2) cp<ZStack<int, Meter> >(); else cp<ZStr1<Meter> >(); }
template <typename C> static void rep(const C &c, int n, int each) { A((int)c.size() == n && (int)c.capacity() >= n, "capacity() covers the elements"); A(n == 0 || (int)c.capacity() * each <= gBytes, "capacity() is held"); }
template <typename C> static void ups(C &c, int each) { rep(c, 0, each); int n = pick("n", 21), k = pick("k", 21); vp_assume(k <= n); for (int i = 0; i < n; i++) { c.push(i * 7 % 23); rep(c, i + 1, each); } for (int i = 0; i < k; i++) { c.pop(i * 7 % 23); rep(c, n - 1 - i, each); } }
ENTRY reported() {
    int kind = pick("kind", 5);
    if (kind == 0) { Heap<int, less<int>, Meter> c; rep(c, 0, 4); int n = pick("n", 21), k = pick("k", 21); vp_assume(k <= n); for (int i = 0; i < n; i++) { c.push(i * 7 % 23); rep(c, i + 1, 4); } for (int i = 0; i < k; i++) { c.pop(); rep(c, n - 1 - i, 4); } }
    else if (kind == 1) { AVLTree<int, less<int>, Meter> c; ups(c, 4); }
    else if (kind == 2) { BSTree<int, Meter> c; ups(c, 4); }
    else if (kind == 3) { typedef KeyValue<const int, int> E; Map<int, int, less<int>, AVLTree<E, KVCMPKey<E, less<int> >, Meter> > c; rep(c, 0, 8); int n = pick("n", 21), k = pick("k", 21); vp_assume(k <= n); for (int i = 0; i < n; i++) { c[i * 7 % 23] = i; rep(c, i + 1, 8); } for (int i = 0; i < k; i++) { c.pop(i * 7 % 23); rep(c, n - 1 - i, 8); } }
    else { int n = 1 + pick("n", 20); DisjointSet<Meter> c(n); rep(c, n, 4); c.connect(0, n - 1); rep(c, n, 4); }
    A(gBytes == 0, "all is given back"); vp_reach("done");
}
