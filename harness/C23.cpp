// C23: iterators visit every element once, in order, and obey the iterator laws;
// for_each, find and distance over them do what they say.
#include "zoo.hpp"
#include "far.hpp"
//@assume iterators are used within begin()..end() of an unmodified container
//@entry vector reach=some,found,absent :: Vector of n<=10 (thorough: 14) arbitrary elements: ++ and -- in both forms, + and - by every offset, ==, !=, *, ->, distance of every pair, for_each and find over every subrange for an arbitrary value
//@entry string reach=some,found :: String of n<=17 characters, same
//@entry array reach=some,found :: Array of 6 arbitrary elements, same
//@entry heap reach=some :: Heap of n<=4 elements, same
//@entry stack reach=some,found :: Stack of n<=5 elements, same
//@entry deque reach=some,found,absent :: deque (block size 1, 2, 3) of n<=9 (thorough: 12) elements pushed at either end: ++, --, +, - over block boundaries, for_each, find
//@entry queue reach=some,found :: Queue of n<=6 elements after k<=3 removals
//@entry slist reach=some,found :: singly linked list of n<=6 elements: ++ in both forms, for_each, find
//@entry dlist reach=some,found :: doubly linked list of n<=6 elements, also -- in both forms
//@entry bst reach=some,found :: BST of n<=5 (thorough: 6) arbitrary keys in every order
//@entry avl reach=some,found :: AVL tree, same
//@entry map reach=some :: Map, same
//@entry writes reach=done :: elements changed through the iterators of Vector, lists, String and Array are the container's
//@entry far reach=done max_instr=1000000000 :: Vector, Stack, deque (3 and 32 per block), Queue of 70000 elements, one arbitrary: positions next to powers of two reached from both ends by one step of that length; distances
struct Sum { int *n; int *a; template <typename T> void operator()(const T &x) const { A(*n < 64, "for_each ends"); a[(*n)++] = V(x); } };
// forward protocol on any container whose content is a[0..n)
template <typename C> static void forward(const C &c, const int *a, int n) {
    auto it = c.begin(); int i = 0;
    A((c.begin() == c.end()) == (n == 0) && (c.begin() != c.end()) == (n != 0), "begin() equals end() iff there are no elements");
    for (; it != c.end(); ) {
        A(i < n, "iteration ends"); A(V(*it) == a[i] && &*it == it.operator->(), "the elements in order");
        auto old = it;
        if (i & 1) { auto r = it++; A(r == old && V(*r) == a[i], "it++ yields the old position"); } else { auto &r = ++it; A(&r == &it, "++it yields itself"); }
        A(it != old && !(it == old), "advancing changes the position"); auto cp = it; A(cp == it && !(cp != it), "a copy is equal"); auto as = old; as = it; A(as == it, "an assigned iterator is equal");
        i++;
    }
    A(i == n && it == c.end(), "every element is visited");
    int got[64], k = 0; Sum s = {&k, got}; algorithm::for_each(c.begin(), c.end(), s);
    A(k == n, "for_each visits every element"); for (i = 0; i < n; i++) A(got[i] == a[i], "for_each visits in order");
    auto p = c.begin(); for (i = 0; i < n / 2; i++) p++;
    k = 0; algorithm::for_each(c.begin(), p, s); A(k == n / 2, "for_each stops at its end");
    k = 0; algorithm::for_each(p, c.end(), s); A(k == n - n / 2, "for_each starts at its begin"); if (k) A(got[0] == a[n / 2], "for_each starts at its begin");
    if (n) vp_reach("some");
}
template <typename T, typename C> static void finding(const C &c, const int *a, int n) {
    int x = in<T>("y"), first = n; for (int i = n - 1; i >= 0; i--) if (a[i] == x) first = i;
    if (first < n) vp_reach("found"); else vp_reach("absent");
    auto it = algorithm::find(c.begin(), c.end(), T(x)); auto p = c.begin(); for (int i = 0; i < first; i++) p++;
    A(it == p && (it == c.end()) == (first == n), "find yields the first match, or the end");
    if (n > 1) { auto b = c.begin(); b++; auto r = algorithm::find(b, c.end(), T(x)); if (first > 0) A(r == it, "find in a subrange"); auto q = algorithm::find(c.begin(), b, T(x)); A((q == b) == (first > 0), "find in a subrange"); }
}
template <typename C> static void backward(const C &c, const int *a, int n) {
    auto it = c.end(); int i = n;
    while (i > 0) { i--; auto old = it; if (i & 1) { auto r = it--; A(r == old, "it-- yields the old position"); } else { auto &r = --it; A(&r == &it, "--it yields itself"); } A(V(*it) == a[i], "backwards in reverse order"); auto f = it; ++f; A(f == old, "-- undoes ++"); }
    A(it == c.begin(), "backward iteration ends at begin()");
}
template <typename C> static void random(const C &c, const int *a, int n) {
    for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) {
        auto p = c.begin() + i; auto q = p + (j - i), r = p - (i - j), e = c.end() - (n - j);
        A(q == r && q == e && (p == q) == (i == j) && (p != q) == (i != j), "it + k and it - k reach the same position as k steps");
        if (j < n) A(V(*q) == a[j], "it + k is the element k further");
    }
}
template <typename C> static void distances(const C &c, int n) {
    for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) { auto p = c.begin() + i, q = c.begin() + j; A(dstruct::distance(p, q) == j - i && q - p == j - i, "distance is the number of steps"); }
}
ENTRY vector() {
    {
        Vector<Wide, VAlloc> v; int a[16], n = pick("n", DEEP(11, 15));
        for (int i = 0; i < n; i++) { a[i] = in<Wide>("x"); v.push_back(Wide(a[i])); }
        const Vector<Wide, VAlloc> &c = v; forward(c, a, n); forward(v, a, n); backward(c, a, n); random(c, a, n); random(v, a, n); distances(c, n); distances(v, n); finding<Wide>(c, a, n);
    }
    allGone();
}
ENTRY string() {
    {
        BasicString<char, VAlloc> s; int a[32], n = pick("n", 18);
        for (int i = 0; i < n; i++) { a[i] = i % 4 ? 'a' + i : vp_u8("x"); s.push_back((char)a[i]); }
        forward(s, a, n); const BasicString<char, VAlloc> &c = s; forward(c, a, n); random(c, a, n); backward(s, a, n); distances(c, n); if (n < 7) finding<char>(c, a, n);
    }
    allGone();
}
ENTRY array() { Array<int, 6> v; int a[6]; for (int i = 0; i < 6; i++) v[i] = a[i] = vp_int("x"); const Array<int, 6> &c = v; forward(c, a, 6); forward(v, a, 6); backward(c, a, 6); random(v, a, 6); distances(c, 6); finding<int>(c, a, 6); }
ENTRY heap() {
    {
        MinHeap<KV, VAlloc> h; int n = pick("n", 5), a[8]; for (int i = 0; i < n; i++) h.push(KV(vp_int("x"), i));
        int i = 0; for (auto it = h.begin(); it != h.end(); it++) a[i++] = it->k;
        A(i == n, "every element"); forward(h, a, n); backward(h, a, n); random(h, a, n); distances(h, n);
    }
    allGone();
}
ENTRY stack() { { Stack<int, VAlloc> s; int n = pick("n", 6), a[8]; for (int i = 0; i < n; i++) { a[i] = vp_int("x"); s.push(a[i]); } forward(s, a, n); random(s, a, n); distances(s, n); finding<int>(s, a, n); } allGone(); }
template <int B> static void dq() {
    {
        DoubleEndedQueue<int, B, VAlloc> d; Seq m; int n = pick("n", DEEP(10, 13)), how = pick("how", 4), a[16];
        for (int i = 0; i < n; i++) { int x = vp_int("x"); bool front = how == 1 || (how == 2 && (i & 1)) || (how == 3 && i < n / 2); if (front) { d.push_front(x); m.pushFront(x); } else { d.push_back(x); m.pushBack(x); } }
        for (int i = 0; i < n; i++) a[i] = m[i];
        forward(d, a, n); if (n) { backward(d, a, n); random(d, a, n); } finding<int>(d, a, n);
    }
    allGone();
}
ENTRY deque() { int b = pick("block", 3); if (b == 0) dq<1>(); else if (b == 1) dq<2>(); else dq<3>(); }
ENTRY queue() {
    {
        Queue<int, VAlloc> q; Seq m; int n = pick("n", 7), k = pick("gone", 4), a[8]; vp_assume(k <= n);
        for (int i = 0; i < n; i++) { int x = vp_int("x"); q.push(x); m.pushBack(x); }
        for (int i = 0; i < k; i++) { q.pop(); m.popFront(); }
        for (int i = 0; i < m.n(); i++) a[i] = m[i];
        forward(q, a, m.n()); if (m.n()) { backward(q, a, m.n()); random(q, a, m.n()); } finding<int>(q, a, m.n());
    }
    allGone();
}
ENTRY slist() { { SinglyLinkedList<Wide, VAlloc> l; int n = pick("n", 7), a[8]; for (int i = 0; i < n; i++) { a[i] = vp_int("x"); l.push_back(Wide(a[i])); } const SinglyLinkedList<Wide, VAlloc> &c = l; forward(c, a, n); forward(l, a, n); finding<Wide>(c, a, n); } allGone(); }
ENTRY dlist() { { DoublyLinkedList<Byte, VAlloc> l; int n = pick("n", 7), a[8]; for (int i = 0; i < n; i++) { a[i] = in<Byte>("x"); l.push_back(Byte(a[i])); } const DoublyLinkedList<Byte, VAlloc> &c = l; forward(c, a, n); forward(l, a, n); backward(c, a, n); backward(l, a, n); finding<Byte>(c, a, n); } allGone(); }
template <typename C> static void ordered(int n) {
    {
        C t; int a[8];
        for (int i = 0; i < n; i++) { int x = vp_int("x"); for (int j = 0; j < i; j++) vp_assume(a[j] != x); t.push(x); int k = i; for (; k > 0 && a[k - 1] > x; k--) a[k] = a[k - 1]; a[k] = x; }
        forward(t, a, n); finding<int>(t, a, n); vp_trace(n);
        if (n) { auto f = t.find(a[0]); int i = 0; for (; f != t.end(); f++) A(*f == a[i++], "iteration can start at a found element"); A(i == n, "iteration from the smallest element"); }
    }
    allGone();
}
ENTRY bst() { ordered<BSTree<int, VAlloc> >(pick("n", DEEP(6, 7))); }
ENTRY avl() { ordered<AVLTree<int, less<int>, VAlloc> >(pick("n", DEEP(6, 7))); }
ENTRY map() {
    {
        typedef KeyValue<const int, int> KVT; Map<int, int, less<int>, AVLTree<KVT, KVCMPKey<KVT, less<int> >, VAlloc> > t; int n = pick("n", DEEP(6, 7)), a[8], b[8];
        for (int i = 0; i < n; i++) { int x = vp_int("k"), y = vp_int("v"); for (int j = 0; j < i; j++) vp_assume(a[j] != x); t[x] = y; int k = i; for (; k > 0 && a[k - 1] > x; k--) { a[k] = a[k - 1]; b[k] = b[k - 1]; } a[k] = x; b[k] = y; }
        int i = 0; for (auto it = t.begin(); it != t.end(); ++it) { A(i < n && it->key == a[i] && (*it).value == b[i], "entries in key order"); i++; }
        A(i == n, "every entry"); i = 0; for (auto it = t.begin(); it != t.end(); ) { auto o = it; auto r = it++; A(r == o && it != o && r->key == a[i], "it++ yields the old position"); i++; }
        if (n) vp_reach("some");
    }
    allGone();
}
template <typename C, int M> static void writing(C &c, SeqT<M> &m) { int i = 0; for (auto it = c.begin(); it != c.end(); it++) { int x = vp_u8("w"); *it = x; m[i++] = x; } sameIter(c, m); sameEnds(c, m); }
ENTRY writes() {
    {
        int k = pick("container", 5), n = 1 + pick("n", 5); Seq m;
        if (k == 0) { Vector<int, VAlloc> v; for (int i = 0; i < n; i++) { v.push_back(i); m.pushBack(i); } writing(v, m); sameIndex(v, m); }
        else if (k == 1) { SinglyLinkedList<int, VAlloc> v; for (int i = 0; i < n; i++) { v.push_back(i); m.pushBack(i); } writing(v, m); }
        else if (k == 2) { DoublyLinkedList<int, VAlloc> v; for (int i = 0; i < n; i++) { v.push_back(i); m.pushBack(i); } writing(v, m); }
        else if (k == 3) { BasicString<char, VAlloc> v; for (int i = 0; i < n; i++) { v.push_back(i); m.pushBack(i); } writing(v, m); A(v.c_str()[n] == 0, "still terminated"); }
        else { Array<int, 4> v; for (int i = 0; i < 4; i++) { v[i] = i; m.pushBack(i); } writing(v, m); sameIndex(v, m); }
        vp_reach("done");
    }
    allGone();
}
static void farGap(const Vector<int, VAlloc> &c, int k) { A(dstruct::distance(c.begin(), c.begin() + k) == k && c.end() - (c.begin() + k) == FAR - k, "distance is the number of steps"); }
template <typename C> static void farGap(const C &, int) {}
template <typename C> static void farJumps() {
    {
        int at = farAt(), x = vp_int("x"); C c; for (int i = 0; i < FAR; i++) c.push(farEl(i, at, x)); const C &k = c; static const int P[] = { 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, FAR - 1, FAR };
        for (int i = 0; i < 12; i++) {
            int n = P[i]; auto p = k.begin() + n, q = k.end() - (FAR - n), r = k.begin() - (-n), e = k.end() + (n - FAR); A(p == q && q == r && r == e && !(p != q), "it + k and it - k reach the same position as k steps");
            if (n < FAR) { A(*p == farEl(n, at, x) && *e == *p, "it + k is the element k further"); auto s = p; s++; A(s == p + 1 && s != p, "one step"); } if (n) { p--; A(*p == farEl(n - 1, at, x), "one step back"); } farGap(c, n);
        }
        farWalk(k, FAR, 0, at, x); vp_reach("done"); vp_trace(at);
    }
    allGone();
}
ENTRY far() { int k = pick("kind", 5); if (k == 0) farJumps<Vector<int, VAlloc> >(); else if (k == 1) farJumps<Stack<int, VAlloc> >(); else if (k == 2) farJumps<DoubleEndedQueue<int, 3, VAlloc> >(); else if (k == 3) farJumps<DoubleEndedQueue<int, 32, VAlloc> >(); else farJumps<Queue<int, VAlloc> >(); }
