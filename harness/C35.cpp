// C35: an operation compares and copies no more elements than its kind promises.
#include "vp.hpp"
using namespace dstruct;
static int cmps, cps; // comparisons; copies and assignments of elements
struct CC {
    int k;
    CC() : k(0) {}
    CC(int x) : k(x) {}
    CC(const CC &o) : k(o.k) { cps++; }
    CC &operator=(const CC &o) { k = o.k; cps++; return *this; }
    bool operator==(const CC &o) const { cmps++; return k == o.k; }
    bool operator!=(const CC &o) const { cmps++; return k != o.k; }
    bool operator<(const CC &o) const { cmps++; return k < o.k; }
    bool operator>(const CC &o) const { cmps++; return k > o.k; }
};
//@assume bounds carry a constant factor and summand, so that they separate growth rates and not implementations
//@entry heap reach=push,pop :: heap of n<=12 (thorough: 15) fixed keys plus every history of 3 push/pop with arbitrary keys: each push <= 2+2*log2(n) comparisons and a bounded number of copies per level, each pop <= 4+4*log2(n)
//@entry heapbig reach=push,pop :: heap of 31, 63, 64, 100 (thorough: also 255) elements, 1 push of an arbitrary key and 2 pops
//@entry heapify reach=done :: heap construction from a range of n<=40 elements with 2 arbitrary keys: <= 4n+8 comparisons; sorting: <= n*(4+4*log2(n))
//@entry avl reach=done,absent :: AVL tree of 10, 20, 120 (thorough: also 40, 300) elements inserted in 3 orders: find, push and pop of an arbitrary key (below 90 elements: of two): <= 8*(log2(n)+2) comparisons, <= 8*(log2(n)+2) copies
//@entry map reach=done,absent :: Map, same, through find, [] and pop
//@entry bst reach=done :: search tree of 20 elements in a shape of small depth, and of n<=4 arbitrary keys: find, push, pop <= 4*(depth+2) comparisons
//@entry vector reach=done :: Vector: growth to n<=200 (arbitrary), then every history of 6 push/pop: copies at most 6 per operation over the whole history; index, ends and iteration copy nothing
//@entry ends reach=done :: singly and doubly linked list and deque: every history of 5 (thorough: 7) push/pop at either end after n in {0,5,60} pushes: at most 4 copies per push, none per pop
//@entry adapters reach=done :: Queue: at most 4 copies per push, none per pop; Stack, MinStack: as Vector, over 40 pushes and pops and 6 arbitrary operations; MinStack: at most 2 comparisons per operation
//@entry storage reach=done :: deque (2 and 5 per block), Queue, Vector, Stack, MinStack, String of n<=220 elements (12 sizes), shrunk by none, half or nearly all, then 30 rounds of a<=9 operations one way and a the other way at one end, or through (in at one end, out at the other): requests to the allocator, and bytes requested, stay in proportion to the operations
//@entry moves reach=done :: moving or swapping any container of n in {1,30} elements copies at most a constant number of elements and compares none
static int lg(int n) { int r = 0; while (n > 1) { n >>= 1; r++; } return r; }
#define COUNTED(c, maxCmp, maxCp, stmt, what) do { int c0_ = cmps, p0_ = cps; stmt; A(cmps - c0_ <= (maxCmp), what " compares no more elements than its kind promises"); A(cps - p0_ <= (maxCp), what " copies no more elements than its kind promises"); } while (0)
// heap
template <typename H> static void hpush(H &h, int x) { int l = lg((int)h.size() + 1); CC v(x); COUNTED(h, 2 + 2 * l, 8 * l + 8 + 2 * ((int)h.size() + 2), h.push(v), "push on a heap"); vp_reach("push"); }
template <typename H> static void hpop(H &h) { int l = lg((int)h.size()); COUNTED(h, 4 + 4 * l, 12 * l + 12 + 2 * ((int)h.size() + 2), h.pop(), "pop of a heap"); vp_reach("pop"); }
typedef MinHeap<CC, VAlloc> H;
ENTRY heap() {
    {
        H h; int n = pick("n", DEEP(13, 16)); for (int i = 0; i < n; i++) hpush(h, i * 5 % 16 * 10);
        for (int i = 0; i < 3; i++) if (pick("op", 2)) { int x = vp_int("x"); hpush(h, x); } else { vp_assume(!h.empty()); hpop(h); }
    }
    allGone();
}
ENTRY heapbig() {
    {
        static const int S[] = { 31, 63, 64, 100, 255 }; int n = S[pick("n", DEEP(4, 5))], dir = pick("dir", 2); H h;
        for (int i = 0; i < n; i++) h.push(CC(dir ? i * 2 : (n - i) * 2));
        int x = vp_int("x"); hpush(h, x); hpop(h); hpop(h);
    }
    allGone();
}
ENTRY heapify() {
    {
        CC a[48]; static const int S[] = { 0, 1, 2, 3, 7, 20, 40 }; int n = S[pick("n", 7)];
        for (int i = 0; i < n; i++) a[i].k = i * 11 % 41 * 10; if (n) { int x = vp_int("x"); a[n / 2].k = x; } if (n > 2) { int y = vp_int("y"); a[n - 1].k = y; }
        PrimitiveIterator<CC> b(a), e(a + n);
        if (pick("what", 2)) { int c0 = cmps; H h(b, e); A(cmps - c0 <= 4 * n + 8, "building a heap compares linearly often"); }
        else { int c0 = cmps; H::sort(b, e); A(cmps - c0 <= 8 + n * (4 + 4 * lg(n + 1)), "sorting compares n log n times"); }
        vp_reach("done"); vp_trace(n);
    }
    allGone();
}
// balanced trees
static int nthKey(int order, int i, int n) { return 4 * (order == 0 ? i : order == 1 ? n - 1 - i : i * 7 % n); }
static const int SZ[] = { 10, 20, 120, 40, 300 };
static int has(int n, int x) { return (int)(x >= 0) & (int)(x < 4 * n) & (int)((x & 3) == 0); }
ENTRY avl() {
    {
        typedef AVLTree<CC, less<CC>, VAlloc> T; T t; int n = SZ[pick("n", DEEP(3, 5))], order = pick("order", 3), lim = 8 * (lg(n) + 2); if (order == 2 && n % 7 == 0) order = 0;
        for (int i = 0; i < n; i++) COUNTED(t, lim, lim, t.push(CC(nthKey(order, i, n))), "push into an AVL tree");
        int x = vp_u16("x"); CC v(x); bool in = false;
        COUNTED(t, lim, 4, in = t.find(v) != t.end(), "find in an AVL tree");
        if (!in) { vp_reach("absent"); COUNTED(t, lim, lim, t.push(v), "push into an AVL tree"); }
        COUNTED(t, lim, lim, t.pop(v), "pop of an AVL tree"); A((int)t.size() == n - (in ? 1 : 0), "size");
        int y = n < 90 ? vp_u16("y") : 44; CC w(y); COUNTED(t, lim, lim, t.pop(w), "pop of an AVL tree");
        int last = (int)t.size(); auto it = t.begin(); COUNTED(t, 0, 4, for (; it != t.end(); it++) last--, "iterating over an AVL tree"); A(last == 0, "iteration meets every element");
        COUNTED(t, lim, lim, it = t.erase(t.begin()), "erasing from an AVL tree");
        vp_reach("done"); vp_trace(n);
    }
    allGone();
}
struct LK { bool operator()(const int &a, const int &b) const { cmps++; return a < b; } };
ENTRY map() {
    {
        typedef KeyValue<const int, CC> E; typedef Map<int, CC, LK, AVLTree<E, KVCMPKey<E, LK>, VAlloc> > M; M m;
        int n = SZ[pick("n", DEEP(3, 5))], order = pick("order", 3), lim = 8 * (lg(n) + 2);
        for (int i = 0; i < n; i++) COUNTED(m, 2 * lim, lim, m[nthKey(order, i, n)].k = i, "[] of a Map");
        int x = vp_u16("x"); bool in = false;
        COUNTED(m, lim, 6, in = m.find(x) != m.end(), "find in a Map");
        if (!in) vp_reach("absent");
        COUNTED(m, 2 * lim, lim, m[x].k = 7, "[] of a Map"); COUNTED(m, lim, lim, m.pop(x), "pop of a Map");
        A((int)m.size() == n - (in ? 1 : 0), "size"); vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY bst() {
    {
        typedef tree::BinarySearchTree<CC, less<CC>, VAlloc> T; T t; int depth, n = 0;
        static const int K[] = { 8, 4, 12, 2, 6, 10, 14, 1, 3, 5, 7, 9, 11, 13, 15, 20, 18, 22, 17, 24 };
        if (pick("shape", 2)) { for (int i = 0; i < 20; i++) t.push(CC(K[i] * 4)); depth = 7; n = 20; }
        else { int m = pick("n", 5); for (int i = 0; i < m; i++) { int x = vp_int("k"); CC v(x); COUNTED(t, 4 * (m + 2), 12, t.push(v), "push into a search tree"); } depth = (int)t.size(); n = depth; }
        int x = vp_int("x"); CC v(x); bool in = false; int lim = 4 * (depth + 2);
        COUNTED(t, lim, 4, in = t.find(v) != t.end(), "find in a search tree");
        COUNTED(t, lim, 12, t.push(v), "push into a search tree"); COUNTED(t, lim + 8, 12, t.pop(v), "pop of a search tree");
        A((int)t.size() == n - (in ? 1 : 0), "size"); vp_reach("done"); vp_trace(n);
    }
    allGone();
}
// sequences
ENTRY vector() {
    {
        Vector<CC, VAlloc> v; static const int S[] = { 0, 1, 2, 3, 4, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 200 }; int n = S[pick("n", 19)], ops = 0;
        CC e(1); cps = 0; for (int i = 0; i < n; i++) { v.push_back(e); ops++; A(cps <= 6 * ops + 8, "growing copies a constant number of elements per push on average"); }
        int down = n ? pick("down", 4) : 0; down = down * n / 4; for (int i = 0; i < down; i++) { v.pop_back(); ops++; A(cps <= 6 * ops + 8, "shrinking copies a constant number of elements per pop on average"); }
        for (int i = 0; i < 6; i++) { if (pick("op", 2)) v.push_back(e); else { vp_assume(!v.empty()); v.pop_back(); } ops++; A(cps <= 6 * ops + 8, "push and pop copy a constant number of elements on average"); }
        const Vector<CC, VAlloc> &c = v; int s = 0;
        COUNTED(v, 0, 0, for (int i = 0; i < (int)c.size(); i++) s += v[i].k + c[i].k + c[i - (int)c.size()].k; for (auto it = c.begin(); it != c.end(); it++) s += it->k; if (!c.empty()) s += c.front().k + c.back().k, "access to a Vector");
        vp_reach("done"); vp_trace(s);
    }
    allGone();
}
template <typename C> struct Back { static void pop(C &c) { c.pop_back(); } };
template <> struct Back<SinglyLinkedList<CC, VAlloc> > { static void pop(SinglyLinkedList<CC, VAlloc> &c) { c._pop_back(); } };
template <typename C> static void ends1() {
    {
        C c; static const int S[] = { 0, 5, 60 }; int n = S[pick("n", 3)]; CC e(3);
        for (int i = 0; i < n; i++) COUNTED(c, 0, 4, c.push_back(e), "push_back");
        for (int i = 0; i < DEEP(5, 7); i++) {
            int op = pick("op", 4);
            if (op == 0) COUNTED(c, 0, 4, c.push_back(e), "push_back"); else if (op == 1) COUNTED(c, 0, 4, c.push_front(e), "push_front");
            else { vp_assume(!c.empty()); if (op == 2) COUNTED(c, 0, 1, c.pop_front(), "pop_front"); else COUNTED(c, 0, 1, Back<C>::pop(c), "pop_back"); }
        }
        int s = 0; COUNTED(c, 0, 0, for (auto it = c.begin(); it != c.end(); it++) s += it->k, "iteration");
        vp_reach("done"); vp_trace(s);
    }
    allGone();
}
ENTRY ends() {
    int w = pick("kind", 4);
    if (w == 0) ends1<SinglyLinkedList<CC, VAlloc> >(); else if (w == 1) ends1<DoublyLinkedList<CC, VAlloc> >(); else if (w == 2) ends1<DoubleEndedQueue<CC, 2, VAlloc> >(); else ends1<DoubleEndedQueue<CC, 5, VAlloc> >();
}
ENTRY adapters() {
    {
        int w = pick("kind", 3); CC e(4);
        if (w == 0) {
            Queue<CC, VAlloc> q; for (int i = 0; i < 70; i++) COUNTED(q, 0, 4, q.push(e), "push on a Queue");
            for (int i = 0; i < 30; i++) COUNTED(q, 0, 1, q.pop(), "pop of a Queue");
            for (int i = 0; i < 6; i++) if (pick("op", 2)) COUNTED(q, 0, 4, q.push(e), "push on a Queue"); else COUNTED(q, 0, 1, q.pop(), "pop of a Queue");
        } else if (w == 1) {
            Stack<CC, VAlloc> s; int ops = 0; cps = 0; for (int i = 0; i < 40; i++) { s.push(e); ops++; } for (int i = 0; i < 33; i++) { s.pop(); ops++; }
            for (int i = 0; i < 6; i++) { if (pick("op", 2)) s.push(e); else { vp_assume(!s.empty()); s.pop(); } ops++; A(cps <= 6 * ops + 8, "push and pop copy a constant number of elements on average"); }
        } else {
            MinStack<CC, VAlloc> s; int ops = 0; cps = cmps = 0; for (int i = 0; i < 40; i++) { s.push(CC(100 - i)); ops++; } for (int i = 0; i < 33; i++) { s.pop(); ops++; }
            for (int i = 0; i < 6; i++) { if (pick("op", 2)) { int x = vp_int("x"); s.push(CC(x)); } else { vp_assume(!s.empty()); s.pop(); } ops++; }
            A(cps <= 20 * ops + 16, "push and pop copy a constant number of elements on average"); A(cmps <= 2 * ops, "push and pop compare a constant number of elements");
        }
        vp_reach("done");
    }
    allGone();
}
static int reqs; static long long reqBytes; // requests to the allocator
struct CAlloc { static void *allocate(int b) { reqs++; reqBytes += b; return vp_alloc(b); } static void deallocate(void *p, int b) { vp_free(p, b); } };
template <typename C> struct Ends { enum { front = 0, back = 1 }; static void in(C &c, int, int x) { c.push(x); } static void out(C &c, int) { c.pop(); } };
template <dstruct::size_t N> struct Ends<DoubleEndedQueue<int, N, CAlloc> > { enum { front = 1, back = 1 }; typedef DoubleEndedQueue<int, N, CAlloc> C;
    static void in(C &c, int f, int x) { if (f) c.push_front(x); else c.push_back(x); } static void out(C &c, int f) { if (f) c.pop_front(); else c.pop_back(); } };
template <> struct Ends<Queue<int, CAlloc> > { enum { front = 1, back = 0 }; typedef Queue<int, CAlloc> C; static void in(C &c, int, int x) { c.push(x); } static void out(C &c, int) { c.pop(); } };
template <> struct Ends<Vector<int, CAlloc> > { enum { front = 0, back = 1 }; typedef Vector<int, CAlloc> C; static void in(C &c, int, int x) { c.push_back(x); } static void out(C &c, int) { c.pop_back(); } };
template <> struct Ends<BasicString<char, CAlloc> > { enum { front = 0, back = 0 }; typedef BasicString<char, CAlloc> C; static void in(C &c, int, int x) { c.push_back((char)(33 + x % 64)); } static void out(C &, int) {} };
template <typename C> static void blocks1(int unit, int grows) {
    {
        typedef Ends<C> E; static const int S[] = { 1, 3, 6, 11, 24, 31, 49, 64, 90, 100, 127, 220 };
        C c; int n = S[pick("n", 12)], ops = 0, in = E::front && E::back ? pick("side", 2) : 0, out = in; 
        if (E::front && E::back) { if (pick("through", 2)) out = !in; } else if (E::front) out = 1;
        reqs = 0; reqBytes = 0;
#define FAIR() do { A(reqs <= 4 * ops + 12, "requests to the allocator stay in proportion to the operations"); A(reqBytes <= (long long)unit * (16 * ops + 64), "storage requested stays in proportion to the operations"); } while (0)
        for (int i = 0; i < n; i++) { E::in(c, in, i); ops++; FAIR(); }
        if (!grows) {
            int down = n * pick("down", 3) * 4 / 9; for (int i = 0; i < down; i++) { E::out(c, out); ops++; FAIR(); }
            int a = 1 + pick("a", DEEP(3, 5)) * (unit > 40 ? 4 : 2), first = pick("first", 2); vp_assume(a <= n - down);
            for (int r = 0; r < 30; r++) for (int h = 0; h < 2; h++) for (int i = 0; i < a; i++) { if ((h == 0) == (first == 0)) E::in(c, in, i); else E::out(c, out); ops++; FAIR(); }
        }
        vp_reach("done"); vp_trace(ops);
    }
    allGone();
}
ENTRY storage() {
    int w = pick("kind", 7);
    if (w == 0) blocks1<DoubleEndedQueue<int, 2, CAlloc> >(8, 0); else if (w == 1) blocks1<DoubleEndedQueue<int, 5, CAlloc> >(20, 0); else if (w == 2) blocks1<Queue<int, CAlloc> >(4 * 64, 0);
    else if (w == 3) blocks1<Vector<int, CAlloc> >(4, 0); else if (w == 4) blocks1<Stack<int, CAlloc> >(4, 0); else if (w == 5) blocks1<MinStack<int, CAlloc> >(16, 0); else blocks1<BasicString<char, CAlloc> >(1, 1);
}
template <typename C> static void put(C &c, int i) { c.push(CC(i)); }
template <> void put<BasicString<char, VAlloc> >(BasicString<char, VAlloc> &c, int i) { c.push_back((char)(i + 32)); }
template <typename C> static void move1() {
    {
        C c; int n = pick("n", 2) ? 30 : 1, how = pick("how", 3); for (int i = 0; i < n; i++) put(c, i * 7 % 32);
        if (how == 0) { COUNTED(c, 0, 4, C d(dstruct::move(c)), "move construction"); }
        else { C d; put(d, 40); if (how == 1) COUNTED(c, 0, 8, d = dstruct::move(c), "move assignment"); else COUNTED(c, 0, 16, dstruct::swap(c, d), "swap"); }
        vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY moves() {
    int w = pick("kind", 10);
    if (w == 0) move1<Vector<CC, VAlloc> >(); else if (w == 1) move1<SinglyLinkedList<CC, VAlloc> >(); else if (w == 2) move1<DoublyLinkedList<CC, VAlloc> >(); else if (w == 3) move1<DoubleEndedQueue<CC, 4, VAlloc> >();
    else if (w == 4) move1<Queue<CC, VAlloc> >(); else if (w == 5) move1<Stack<CC, VAlloc> >(); else if (w == 6) move1<MinStack<CC, VAlloc> >(); else if (w == 7) move1<MinHeap<CC, VAlloc> >();
    else if (w == 8) move1<tree::BinarySearchTree<CC, less<CC>, VAlloc> >(); else move1<AVLTree<CC, less<CC>, VAlloc> >();
}
