// C36: recursion is as shallow as the structure allows: no operation needs stack in proportion to the number of elements.
#include "zoo.hpp"
//@native -O0
//@native_all -finstrument-functions -DVP_REC
//@assume recursion is the largest number of simultaneous activations of one function; user-supplied comparators and element operations do not recurse into the container; search trees may recurse once per level of their shape
//@entry uf reach=done :: disjoint set of n in {2, 16, 64, 128} elements joined in chains, stars and strides (either argument order, forwards and backwards), then for n<=16 one (thorough: two) arbitrary connects: every find, connected, connect recurses at most log2(n)+2 deep
//@entry ufsmall reach=done :: disjoint set, n=8: every history of 3 (thorough: 4) connects of arbitrary elements
//@entry seq reach=done :: Vector, String, singly and doubly linked list, deque, Queue, Stack, MinStack filled with 0, 1, 40, 200 elements: every operation, copy, move, clear and destruction recurse at most 2 deep
//@entry heap reach=done :: heap: 100 pushes in three orders, building, sorting and 100 pops recurse at most 2+log2(n) deep, 2 arbitrary keys
//@entry balanced reach=done :: AVL tree and Map of n in {3, 20, 60, 120} keys in three orders: push, pop, erase, find, copy, move, traversals, clear and destruction recurse at most 3+2*log2(n) deep
//@entry avlhist reach=done :: AVL tree of n<=5 (thorough: 6) arbitrary keys, then 2 arbitrary pops
//@entry bst reach=done :: search tree of 31 keys in a balanced shape: as above at most 8 deep; of n<=4 arbitrary keys: at most height+2
//@entry iteration reach=done :: search trees degenerated to a chain of n=60 keys either way: push, find, iteration in all three orders recurse at most once per level
static int lg(int n) { int r = 0; while (n > 1) { n >>= 1; r++; } return r; }
static void atMost(int n, const char *what) { A(vp_rec_max() <= n, what); vp_rec_reset(); }
static void ufAll(DisjointSet<VAlloc> &u, int n) { for (int i = 0; i < n; i++) { u.find(i); atMost(lg(n) + 2, "find in a disjoint set recurses at most logarithmically deep"); } }
ENTRY uf() {
    {
        static const int SZ[] = { 2, 16, 64, 128 }; int n = SZ[pick("n", 4)], how = pick("how", 5), sw = pick("swap", 2), back = pick("back", 2);
        DisjointSet<VAlloc> u(n); vp_rec_reset();
        for (int k = 0; k + 1 < n; k++) {
            int i = back ? n - 2 - k : k, a, b;
            if (how == 0) { a = i; b = i + 1; } else if (how == 1) { a = n / 2; b = i; } else if (how == 2) { a = i * 5 % n; b = (i + 1) * 5 % n; }
            else if (how == 3) { a = 0; b = i + 1; } else { a = i / 2; b = i + 1; }
            if (sw) { int t = a; a = b; b = t; }
            u.connect(a, b); atMost(lg(n) + 2, "connect recurses at most logarithmically deep");
        }
        if (n <= 16) for (int i = 0; i < DEEP(1, 2); i++) { int a = pick("a", n), b = pick("b", n); u.connect(a, b); atMost(lg(n) + 2, "connect recurses at most logarithmically deep"); }
        int q = pick("q", n); u.find(q); atMost(lg(n) + 2, "find in a disjoint set recurses at most logarithmically deep");
        u.connected(q, 0); u.count(); atMost(lg(n) + 2, "connected recurses at most logarithmically deep");
        DisjointSet<VAlloc> v(u); atMost(2, "a copy does not recurse"); ufAll(v, n);
        vp_reach("done"); vp_trace(u.count());
    }
    allGone();
}
ENTRY ufsmall() {
    {
        DisjointSet<VAlloc> u(8); vp_rec_reset();
        for (int i = 0; i < DEEP(3, 4); i++) { int a = pick("a", 8), b = pick("b", 8); u.connect(a, b); atMost(3, "after i connects a set has depth at most log2(i+1)"); }
        ufAll(u, 8); vp_reach("done"); vp_trace(u.count());
    }
    allGone();
}
static const int MANY[] = { 0, 1, 40, 200 };
template <typename C> static void drain(C &c, int n) { while (n--) c.pop(); }
template <typename C> static void seqs(int n) {
    int x = vp_int("x");
    vp_rec_reset();
    {
        C c; for (int i = 0; i < n; i++) c.push(x ^ i);
        atMost(2, "push does not recurse");
        C d(c), e; e = d; atMost(2, "copying does not recurse");
        int k = 0; for (auto it = d.begin(); it != d.end(); it++) k++; A(k == n, "iteration is complete"); atMost(2, "iteration does not recurse");
        C f(dstruct::move(d)); d = dstruct::move(e); dstruct::swap(d, f); atMost(2, "moving and swapping do not recurse");
        drain(c, n); A(c.empty(), "everything was removed"); atMost(2, "pop does not recurse");
    }
    atMost(2, "destruction does not recurse");
    vp_reach("done"); vp_trace(n);
    allGone();
}
ENTRY seq() {
    int k = pick("kind", 8), n = MANY[pick("n", 4)];
    if (k == 0) seqs<Vector<int, VAlloc> >(n); else if (k == 1) seqs<SinglyLinkedList<int, VAlloc> >(n); else if (k == 2) seqs<DoublyLinkedList<int, VAlloc> >(n);
    else if (k == 3) seqs<DoubleEndedQueue<int, 4, VAlloc> >(n); else if (k == 4) seqs<Queue<int, VAlloc> >(n); else if (k == 5) seqs<Stack<int, VAlloc> >(n);
    else if (k == 6) {
        vp_rec_reset();
        { MinStack<int, VAlloc> s; int x = vp_int("x"); for (int i = 0; i < n; i++) s.push(i & 1 ? x : -i); MinStack<int, VAlloc> t(s); for (int i = 0; i < n; i++) s.pop(); s.clear(); }
        atMost(2, "MinStack does not recurse"); allGone();
    } else {
        vp_rec_reset();
        {
            BasicString<char, VAlloc> s; for (int i = 0; i < n; i++) s.push_back((char)(65 + i % 26)); BasicString<char, VAlloc> t(s);
            t += s; t += t; A((int)t.size() == 4 * n, "size"); A(t + s == t + s, "equal"); t.clear(); t = dstruct::move(s);
        }
        atMost(2, "String does not recurse"); allGone();
    }
}
ENTRY heap() {
    {
        typedef MinHeap<int, VAlloc> H; int a[100], order = pick("order", 3), n = 100;
        for (int i = 0; i < n; i++) a[i] = order == 0 ? i : order == 1 ? n - i : i * 37 % n;
        int x = vp_int("x"), y = vp_int("y");
        vp_rec_reset();
        { H h; for (int i = 0; i < n; i++) h.push(a[i]); h.push(x); h.push(y); atMost(9, "heap push recurses at most once per level"); H g(h), f; f = dstruct::move(g); for (int i = 0; i < n; i++) h.pop(); atMost(9, "heap pop recurses at most once per level"); }
        PrimitiveIterator<int> b(a), e(a + n); { H h(b, e); } H::sort(b, e); atMost(9, "building and sorting recurse at most once per level");
        A(a[0] == 0 || a[0] == 1, "sorted"); vp_reach("done"); vp_trace(order);
    }
    allGone();
}
typedef AVLTree<int, less<int>, VAlloc> AV;
typedef tree::BinarySearchTree<int, less<int>, VAlloc> BS;
typedef ZMap<int>::C MP;
static int key(int order, int i, int n) { return order == 0 ? i : order == 1 ? n - 1 - i : i * 7 % n; }
struct Count { int n; Count() : n(0) {} template <typename T> void operator()(const T &) { n++; } };
template <typename T> static void traverse(T &t, int n) {
    for (int o = 0; o < 3; o++) {
        int k = 0; t.traversal([&](typename T::ConstIteratorType::ValueType &) { k++; }, (typename T::TraversalType)o); A(k == n, "a traversal is complete");
    }
}
static void traverse(AV &t, int n) {
    for (int o = 0; o < 3; o++) { int k = 0; t.traversal([&](const AVLData_<int> &) { k++; }, (AV::TraversalType)o); A(k == n, "a traversal is complete"); }
}
template <typename T> static void iterate(T &t, int n, int lim) { int k = 0; for (auto it = t.begin(); it != t.end(); it++) k++; A(k == n, "iteration is complete"); atMost(lim, "iteration recurses at most once per level"); }
template <typename T> static void treeOps(T &t, int n, int lim) {
    atMost(lim, "insertion recurses at most once per level");
    iterate(t, n, lim);
    traverse(t, n); atMost(lim, "a traversal recurses at most once per level");
    { T c(t), d; atMost(lim, "a copy recurses at most once per level"); d = c; T e(dstruct::move(c)); c = dstruct::move(d); dstruct::swap(c, e); atMost(lim, "assignment recurses at most once per level"); e.clear(); atMost(lim, "clear recurses at most once per level"); }
    atMost(lim, "destruction recurses at most once per level");
    int q = pick("q", 3); q = q == 0 ? 0 : q == 1 ? n / 2 : n - 1;
    if (n) { auto it = t.find(q); A(it != t.end(), "found"); atMost(lim, "find recurses at most once per level"); t.erase(it); atMost(lim, "erase recurses at most once per level"); }
    int y = vp_u8("y"); t.pop(y); atMost(lim, "pop recurses at most once per level");
    vp_trace(t.size());
}
ENTRY balanced() {
    {
        static const int SZ[] = { 3, 20, 60, 120 }; int n = SZ[pick("n", 4)], order = pick("order", 3), lim = 3 + 2 * lg(n);
        vp_rec_reset();
        if (pick("map", 2) == 0) { AV t; for (int i = 0; i < n; i++) t.push(key(order, i, n)); treeOps(t, n, lim); }
        else {
            MP m; for (int i = 0; i < n; i++) m[key(order, i, n)] = i; atMost(lim, "insertion recurses at most once per level");
            { MP c(m), d; d = c; MP e(dstruct::move(c)); d.clear(); } iterate(m, n, lim); atMost(lim, "copies recurse at most once per level");
            int y = vp_u8("y"); const MP &k = m; bool in = k.find(y) != k.end(); atMost(2, "find does not recurse"); m.pop(y); auto it = m.begin(); m.erase(it); A((int)m.size() == n - 1 - in, "size"); atMost(lim, "removal recurses at most once per level");
        }
    }
    atMost(3 + 2 * 6, "destruction recurses at most once per level");
    vp_reach("done"); allGone();
}
ENTRY avlhist() {
    {
        AV t; int n = pick("n", DEEP(6, 7)), k[8]; vp_rec_reset();
        for (int i = 0; i < n; i++) { int x = vp_int("x"), d = 1; for (int j = 0; j < i; j++) d &= (int)(k[j] != x); vp_assume(d); k[i] = x; t.push(x); atMost(lg(i + 1) + 3, "push recurses at most once per level"); }
        for (int i = 0; i < 2; i++) { int x = vp_int("y"); t.pop(x); atMost(lg(n + 1) + 4, "pop recurses at most once per level"); }
        vp_reach("done"); vp_trace(t.size());
    }
    allGone();
}
ENTRY bst() {
    vp_rec_reset();
    {
        BS t;
        if (pick("how", 2)) {
            for (int s = 16; s >= 1; s /= 2) for (int i = s; i < 32; i += 2 * s) t.push(i - 1);
            treeOps(t, 31, 8);
        } else {
            int n = pick("n", 5), k[5], h[5], top = 0;
            for (int i = 0; i < n; i++) {
                int x = vp_int("x"), d = 1; for (int j = 0; j < i; j++) d &= (int)(k[j] != x); vp_assume(d); k[i] = x;
                t.push(x); atMost(n + 2, "insertion into a search tree recurses at most once per level");
            }
            int y = vp_int("y"); t.find(y); atMost(n + 2, "find recurses at most once per level"); t.pop(y); BS c(t); c.clear(); atMost(n + 2, "at most once per level");
        }
    }
    atMost(8, "destruction recurses at most once per level");
    vp_reach("done"); allGone();
}
ENTRY iteration() {
    {
        BS t; int n = 60, down = pick("down", 2); vp_rec_reset();
        for (int i = 0; i < n; i++) t.push(down ? n - i : i);
        int y = vp_u8("y"); t.push(y); t.find(y); atMost(n + 3, "insertion into and lookup in a search tree recurse at most once per level");
        for (int o = 0; o < 3; o++) { int k = 0; for (auto it = t.begin((BS::TraversalType)o); it != t.end((BS::TraversalType)o); it++) k++; A(k == (int)t.size(), "iteration is complete"); }
        atMost(n + 3, "iteration recurses at most once per level"); vp_reach("done"); vp_trace(t.size());
    }
    allGone();
}
