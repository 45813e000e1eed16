// C42: containers are exact beyond every small count: no counter, index, height or link inside is narrower than the number of elements needs.
#include "vp.hpp"
using namespace dstruct;
//@assume the elements other than one arbitrary element, at a position next to a power of two or an end, have fixed values; the arbitrary key of a heap or extreme-value stack is below all, above all or in the middle
//@entry arrays reach=done max_instr=200000000 :: Vector, Stack, String of 130, 258, 66000 (thorough: also 140000) elements, one arbitrary: size, every element by index from both ends and by iteration; copy; resize; pops back to 5, then 300 pushes
//@entry fixed reach=done max_instr=200000000 :: Array of 70000 elements: one arbitrary write at a position next to a power of two, everything read back
//@entry ends reach=done max_instr=200000000 :: deque (1, 2, 32 per block) and Queue of 130, 258, 66000 elements filled at either end, drained at either end
//@entry lists reach=done max_instr=200000000 :: singly and doubly linked list of 130, 258, 66000 elements filled at either end, walked, copied (up to 258), cleared
//@entry heaps reach=done max_instr=200000000 :: heap of 130, 258, 66000 elements, one arbitrary, then 3 pops (130, 258: all); heap sort of as many
//@entry trees reach=done max_instr=1000000000 :: AVL tree, Map, search tree of 130, 300 (thorough: also 66000) keys in scrambled order, one key arbitrary (66000: below, above or amid all others); find, walk, removal of the half
//@entry sets reach=done max_instr=200000000 :: disjoint set of 130, 258, 66000 elements: joined to one, two arbitrary elements tested; extreme-value stack of as many elements
//@entry pool reach=done max_instr=200000000 :: static allocator with a pool of 192 kB: 300 small blocks, blocks of 255 to 70000 bytes, release in three orders
static const int MANY[] = { 130, 258, 66000, 140000 };
static int where(int n) { // a position next to a power of two or an end
    static const int P[] = { 0, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 131072 };
    int w = pick("where", 12); if (w == 11) return n - 1; vp_assume(P[w] < n); return P[w];
}
template <typename T> static T val(int i) { return T(i); }
template <> char val<char>(int i) { return (char)(i * 7 & 127); }
template <typename T> static T arbitrary();
template <> int arbitrary<int>() { return vp_int("x"); }
template <> char arbitrary<char>() { return (char)vp_u8("x"); }
template <typename T, typename C> static void walk(const C &c, int n, int from, int at, T x) { // from, from+1, ...
    A((int)c.size() == n && c.empty() == (n == 0), "size() counts the elements");
    int i = from; for (auto it = c.begin(); it != c.end(); it++, i++) { if (i >= from + n) A(false, "iteration ends"); if (i == at) A(*it == x, "the arbitrary element is where it was put"); else if (!(*it == val<T>(i))) A(false, "every element is where it was put"); }
    A(i == from + n, "iteration visits every element");
}
template <typename T, typename C> static void indexed(const C &c, int n, int at, T x, int below = 0) { // below: what lies past the last element (a string's terminator)
    for (int i = 0; i < n; i++) { if (i == at) A(c[i] == x && c[i - n - below] == x, "the arbitrary element is at its index"); else if (!(c[i] == val<T>(i)) || !(c[i - n - below] == val<T>(i))) A(false, "every element is at its index, from the front and from the back"); }
}
template <typename C> struct Op { typedef int T; enum { DROPS = 1 }; static void add(C &c, T x) { c.push(x); } static void drop(C &c) { c.pop(); } static void extra(C &, int, int, T) {} };
template <> struct Op<Vector<int, VAlloc> > {
    typedef Vector<int, VAlloc> C; typedef int T; enum { DROPS = 1 };
    static void add(C &c, T x) { c.push_back(x); } static void drop(C &c) { c.pop_back(); }
    static void extra(C &c, int n, int at, T x) { indexed(c, n, at, x); c.resize(n + 3, 5); A((int)c.size() == n + 3 && c[n + 2] == 5, "resize reaches the size"); c.resize(n); walk(c, n, 0, at, x); }
};
template <> struct Op<BasicString<char, VAlloc> > {
    typedef BasicString<char, VAlloc> C; typedef char T;
    static void add(C &c, T x) { c.push_back(x); } enum { DROPS = 0 }; static void drop(C &) {}
    static void extra(C &c, int n, int at, T x) { indexed(c, n, at, x, 1); A(c.c_str()[n] == 0, "terminated"); C d(c); A(d == c, "a copy is equal"); d += c; A((int)d.size() == 2 * n && d[n + 1] == c[1], "appending doubles"); }
};
template <typename C> static void array() {
    {
        typedef typename Op<C>::T T; int n = MANY[pick("n", DEEP(3, 4))], at = where(n); T x = arbitrary<T>(); C c;
        for (int i = 0; i < n; i++) Op<C>::add(c, i == at ? x : val<T>(i));
        walk(c, n, 0, at, x); C d(c); walk(d, n, 0, at, x); Op<C>::extra(c, n, at, x);
        if (!Op<C>::DROPS) c.clear(); int m = Op<C>::DROPS ? n : 0; while (m > 5) { Op<C>::drop(c); m--; if ((int)c.size() != m) A(false, "size() counts the elements"); }
        if (m == 0) { Op<C>::add(c, at == 0 ? x : val<T>(0)); m++; }
        walk(c, m, 0, at, x); if (at == 0) { int i = m; for (; i < 305; i++) Op<C>::add(c, val<T>(i)); walk(c, 305, 0, at, x); }
        vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY arrays() { int k = pick("kind", 3); if (k == 0) array<Vector<int, VAlloc> >(); else if (k == 1) array<Stack<int, VAlloc> >(); else array<BasicString<char, VAlloc> >(); }
static Array<int, 70000> whole;
ENTRY fixed() {
    int at = where(70000), x = vp_int("x"); for (int i = 0; i < 70000; i++) whole[i] = i;
    whole[at] = x; const Array<int, 70000> &c = whole; A(c.size() == 70000, "size"); walk(c, 70000, 0, at, x); indexed(c, 70000, at, x); vp_reach("done"); vp_trace(at);
}
template <typename C> struct Front { static void add(C &c, int x) { c.push_front(x); } static void drop(C &c, bool f) { if (f) c.pop_front(); else c.pop_back(); } enum { BOTH = 1, SIDES = 2 }; };
template <> struct Front<Queue<int, VAlloc> > { typedef Queue<int, VAlloc> C; static void add(C &c, int x) { c.push(x); } static void drop(C &c, bool) { c.pop(); } enum { BOTH = 0, SIDES = 1 }; };
template <typename C> static void dq(int most) {
    {
        int n = MANY[pick("n", most)], at = n > 1000 && !DEEP(0, 1) ? n - 1 : where(n), x = vp_int("x"), f = Front<C>::BOTH ? pick("front", 2) : 0; C c;
        for (int i = 0; i < n; i++) { if (f) Front<C>::add(c, n - 1 - i == at ? x : n - 1 - i); else Op<C>::add(c, i == at ? x : i); }
        walk(c, n, 0, at, x);
        int g = Front<C>::BOTH ? pick("drain", 2) : 1, m = n, lo = 0;
        while (m > 3) { if (g) { if (!(c.front() == (lo == at ? x : lo))) A(false, "the front is the oldest"); Front<C>::drop(c, true); lo++; } else Front<C>::drop(c, false); m--; if ((int)c.size() != m) A(false, "size() counts the elements"); }
        walk(c, m, lo, at, x); vp_reach("done"); vp_trace(n);
    }
    allGone();
}
template <dstruct::size_t N> struct Op<DoubleEndedQueue<int, N, VAlloc> > { typedef DoubleEndedQueue<int, N, VAlloc> C; typedef int T; static void add(C &c, T x) { c.push_back(x); } };
ENTRY ends() { int k = pick("kind", 4); if (k == 0) dq<DoubleEndedQueue<int, 1, VAlloc> >(DEEP(2, 3)); else if (k == 1) dq<DoubleEndedQueue<int, 2, VAlloc> >(DEEP(2, 3)); else if (k == 2) dq<DoubleEndedQueue<int, 32, VAlloc> >(3); else dq<Queue<int, VAlloc> >(3); }
template <typename C> static void list() {
    {
        int n = MANY[pick("n", 3)], at = where(n), x = vp_int("x"), f = pick("front", 2); C c;
        for (int i = 0; i < n; i++) { if (f) c.push_front(n - 1 - i == at ? x : n - 1 - i); else c.push_back(i == at ? x : i); }
        walk(c, n, 0, at, x); A(c.front() == (at == 0 ? x : 0) && c.back() == (at == n - 1 ? x : n - 1), "the ends");
        if (n < 1000) { C d(c); walk(d, n, 0, at, x); d = dstruct::move(c); walk(d, n, 0, at, x); for (int i = 0; i < n; i++) { d.pop_front(); if ((int)d.size() != n - 1 - i) A(false, "size() counts the elements"); } A(d.empty(), "then nothing is left"); }
        else { c.clear(); walk(c, 0, 0, -1, x); }
        vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY lists() { if (pick("kind", 2)) list<SinglyLinkedList<int, VAlloc> >(); else list<DoublyLinkedList<int, VAlloc> >(); }
static int tall[66000];
struct Rest { // the expected order: lo, lo+1, ... without the element at `at`, with x among them
    int i, e, out, x; bool used;
    Rest(int n, int order, int at, int y) : i(order), e(n + order), out(order ? n - at : at), x(y), used(false) {}
    bool next(int t) { if (i == out) i++; if (!used && (i >= e || x <= i)) { used = true; return t == x; } return t == i++; }
};
ENTRY heaps() {
    {
        int n = MANY[pick("n", 3)], order = pick("order", 2), sorts = pick("sort", 2); if (n > 1000) vp_assume(DEEP(sorts == 0, true));
        int at = n > 1000 && !DEEP(0, 1) ? n - 1 : where(n), x = vp_int("x"); bool far = x < 0 || x > n + 1 || x == n / 2; vp_assume(far);
        if (sorts) {
            for (int i = 0; i < n; i++) tall[i] = i == at ? x : order ? n - i : i;
            Heap<int, less<int>, VAlloc>::sort(tall, tall + n);
            Rest r(n, order, at, x); for (int i = 0; i < n; i++) if (!r.next(tall[i])) A(false, "the range holds its elements in order");
        } else {
            Heap<int, less<int>, VAlloc> h; for (int i = 0; i < n; i++) h.push(i == at ? x : order ? n - i : i);
            A((int)h.size() == n, "size() counts the elements");
            int k = n < 1000 ? n : 3; Rest r(n, order, at, x); for (int i = 0; i < k; i++) { int t = h.top(); if (!r.next(t)) A(false, "elements come in order"); h.pop(); if ((int)h.size() != n - 1 - i) A(false, "size() counts the elements"); }
        }
        vp_reach("done"); vp_trace(n);
    }
    allGone();
}
template <typename T> struct Tr { static void add(T &t, int k) { t.push(k); } static bool has(T &t, int k) { return t.find(k) != t.end(); } static int key(const int &e) { return e; } };
typedef KeyValue<const int, int> E_; typedef Map<int, int, less<int>, AVLTree<E_, KVCMPKey<E_, less<int> >, VAlloc> > M_;
template <> struct Tr<M_> { static void add(M_ &t, int k) { t[k] = k; } static bool has(M_ &t, int k) { return t.find(k) != t.end(); } template <typename E> static int key(const E &e) { return e.key; } };
template <typename T> static void grown(int seldom) {
    {
        static const int N[] = { 130, 300, 66000 }; int n = N[pick("n", seldom)], x = vp_int("x"); T t;
        int p = n == 66000 ? 70001 : 307, q = n == 66000 ? 43265 : 31; // scrambled: multiples of q modulo p
        bool few = n < 1000 || x < 0 || x > 2 * p || x == p; vp_assume(few);
        for (int i = 0; i < n; i++) Tr<T>::add(t, 2 * (int)((long)i * q % p));
        A((int)t.size() == n, "size() counts the elements"); bool odd = (x & 1) == 1; vp_assume(odd);
        Tr<T>::add(t, x); A((int)t.size() == n + 1 && Tr<T>::has(t, x), "the arbitrary key is found");
        int c = 0, prev = 0; for (auto it = t.begin(); it != t.end(); it++) { int k = Tr<T>::key(*it); if (c && !(prev < k)) A(false, "the keys ascend"); prev = k; if (++c > n + 1) A(false, "iteration ends"); } A(c == n + 1, "iteration visits every element");
        for (int i = 0; i < n; i += 2) { int k = 2 * (int)((long)i * q % p); t.pop(k); if (Tr<T>::has(t, k)) A(false, "a removed key is gone"); }
        A((int)t.size() == n - (n + 1) / 2 + 1, "size() counts the elements"); for (int i = 1; i < n; i += 2) if (!Tr<T>::has(t, 2 * (int)((long)i * q % p))) A(false, "the other keys stay");
        A(Tr<T>::has(t, x), "the arbitrary key stays"); vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY trees() { int k = pick("kind", 3); if (k == 0) grown<AVLTree<int, less<int>, VAlloc> >(DEEP(2, 3)); else if (k == 1) grown<M_>(DEEP(2, 3)); else grown<BSTree<int, VAlloc> >(2); }
ENTRY sets() {
    {
        int n = MANY[pick("n", 3)];
        if (pick("kind", 2)) {
            DisjointSet<VAlloc> u(n); A(u.count() == n, "count() is the number of classes");
            for (int i = 0; i + 1 < n; i++) u.connect(i, i + 1);
            A(u.count() == 1, "all joined"); int a = n > 1000 && !DEEP(0, 1) ? n - 1 : where(n), b = n > 1000 && !DEEP(0, 1) ? 0 : where(n); A(u.connected(a, b), "connected");
            DisjointSet<VAlloc> w(n); w.connect(a, b); A(w.count() == (a == b ? n : n - 1), "one class less"); int r = w.find(a); A(r == w.find(b) && (r == a || r == b), "the root is a member"); A(a == 1 || b == 1 || !w.connected(1, a), "others stay apart");
        } else {
            MinStack<int, VAlloc> s; int x = vp_int("x"); bool far = x < 0 || x > n + 1 || x == n / 2; vp_assume(far); for (int i = 0; i < n; i++) s.push(i == 1 ? x : n - i);
            A(s.getXValue() == (x < 1 ? x : 1), "the extreme");
            for (int m = n - 1; m >= 2; m--) { s.pop(); if (s.empty()) A(false, "it is not empty before all are gone"); if (!(s.top() == (m == 2 ? x : n - m + 1))) A(false, "the top is the last that is left"); }
            A(s.getXValue() == (x < n ? x : n), "the extreme of the rest"); s.pop(); A(s.top() == n && s.getXValue() == n, "the first element"); s.pop(); A(s.empty(), "then it is empty");
        }
        vp_reach("done"); vp_trace(n);
    }
    allGone();
}
typedef StaticMemAllocator<196608, 128> P;
ENTRY pool() {
    enum { K = 300 }; static char *p[K + 8]; static int sz[K + 8]; static const int L[] = { 255, 256, 257, 32768, 65535, 65536 }; int k = 0, used = 0, order = pick("order", 3), first = pick("first", 2);
    int all = P::free_mem_size(); A(all == 196608 && P::max_free_mblock_size() == all, "the whole pool is free");
    if (first) for (int i = 0; i < 6; i++) { sz[k] = L[i]; p[k] = (char *)P::allocate(L[i]); A(p[k] != nullptr, "a fitting request is served"); k++; }
    for (int i = 0; i < K; i++) { sz[k] = 8 * (1 + i % 3); p[k] = (char *)P::allocate(sz[k]); A(p[k] != nullptr, "a fitting request is served"); k++; }
    for (int i = 0; i < k; i++) used += (sz[i] + 7) / 8 * 8;
    A(P::free_mem_size() == all - used, "free_mem_size() is the pool minus what is handed out");
    int big = first ? 20000 : 70000; char *b = (char *)P::allocate(big); A(b != nullptr, "a large request is served");
    unsigned char v = vp_u8("v"); int w = where(big); b[w] = (char)v;
    for (int i = 0; i < k; i++) { p[i][0] = (char)i; p[i][sz[i] - 1] = (char)i; }
    A(b[w] == (char)v, "blocks are disjoint"); for (int i = 0; i < k; i++) if (p[i][0] != (char)i || p[i][sz[i] - 1] != (char)i) A(false, "blocks are disjoint");
    A(P::deallocate(b, big), "a block is taken back");
    for (int j = 0; j < k; j++) { int i = order == 0 ? j : order == 1 ? k - 1 - j : (j * 7) % k; if (order == 2 && k % 7 == 0) i = j; if (!P::deallocate(p[i], sz[i])) A(false, "a block is taken back"); }
    P::memory_merge(); A(P::free_mem_size() == all, "everything is free again"); char *q = (char *)P::allocate(70000); A(q != nullptr, "a large request is served again"); P::deallocate(q, 70000); vp_reach("done"); vp_trace(used);
}
