// C41: elements of every type keep their value, bit by bit, at properly aligned places.
#include "vp.hpp"
using namespace dstruct;
//@assume element types are copyable and default constructible, of an alignment the allocator provides (16); ordered containers are given types with a strict weak order
//@entry vector reach=done :: Vector of each of 18 element types (all integer types, bool, enum, pointers, double, structs of 3, 12, 24, 40 and 100 bytes, of alignment 16, with padding) with n<=5 arbitrary values: growth, indexing, iteration, writing through every access, pop, resize, copy, move, release
//@entry lists reach=done :: singly and doubly linked list, same types and uses
//@entry deque reach=done :: deque of block size 1, 2 and 3, Queue, same
//@entry stack reach=done :: Stack, and Array of 4, same
//@entry heap reach=done :: heap of n<=3 arbitrary values of each ordered type (13 types): top, pops in order, sorting a range
//@entry tree reach=found,absent :: search tree and AVL tree of n<=3 arbitrary values of each ordered type: membership of an arbitrary value, order, removal by value and by iterator
//@entry map reach=found,absent :: Map over 6 pairs of key and value types, n<=2 (thorough: 3) arbitrary entries: lookup of an arbitrary key, overwriting, removal
//@entry xstack reach=done :: MinStack and MaxStack of n<=3 arbitrary values of 8 types
//@entry string reach=done :: BasicString of 1, 2 and 4 byte characters with every character value
enum Colour { red = 0, green = 1, blue = 200 };
enum class Far : unsigned long { a = 1 };
struct B3 { unsigned char c[3]; };
struct P12 { int a; short b; unsigned char c; };
struct P24 { char a; long b; char c; };
struct S40 { long a[5]; };
struct S100 { unsigned char c[100]; };
struct alignas(16) A16 { long a; int b; };
typedef void (*Fn)();
static long cell[4]; static void f0() {} static void f1() {}
#define INTEGRAL(T) static inline void mk(T &x) { x = (T)vp_u64("x"); } static inline int same(const T &a, const T &b) { return (int)(a == b); }
INTEGRAL(char) INTEGRAL(signed char) INTEGRAL(unsigned char) INTEGRAL(short) INTEGRAL(unsigned short) INTEGRAL(int) INTEGRAL(unsigned) INTEGRAL(long) INTEGRAL(unsigned long) INTEGRAL(long long) INTEGRAL(unsigned long long) INTEGRAL(Far) INTEGRAL(char16_t) INTEGRAL(char32_t)
static inline void mk(bool &x) { x = vp_u8("x") & 1; }
static inline int same(const bool &a, const bool &b) { return (int)(a == b); }
static inline void mk(Colour &x) { x = (Colour)vp_u8("x"); }
static inline int same(const Colour &a, const Colour &b) { return (int)(a == b); }
static inline void mk(double &x) { unsigned long u = vp_u64("x"); memcpy(&x, &u, 8); }
static inline int same(const double &a, const double &b) { unsigned long u, v; memcpy(&u, &a, 8); memcpy(&v, &b, 8); return (int)(u == v); }
static inline void mk(const long *&x) { int i = pick("p", 3); x = i == 2 ? nullptr : cell + i; }
static inline int same(const long *const &a, const long *const &b) { return (int)(a == b); }
static inline void mk(Fn &x) { int i = pick("p", 3); x = i == 2 ? nullptr : i ? f1 : f0; }
static inline int same(const Fn &a, const Fn &b) { return (int)(a == b); }
static inline void mk(B3 &x) { for (int i = 0; i < 3; i++) x.c[i] = vp_u8("x"); }
static inline int same(const B3 &a, const B3 &b) { int r = 1; for (int i = 0; i < 3; i++) r &= (int)(a.c[i] == b.c[i]); return r; }
static inline void mk(P12 &x) { x.a = vp_int("x"); x.b = (short)vp_u16("x"); x.c = vp_u8("x"); }
static inline int same(const P12 &a, const P12 &b) { return (int)(a.a == b.a) & (int)(a.b == b.b) & (int)(a.c == b.c); }
static inline void mk(P24 &x) { x.a = (char)vp_u8("x"); x.b = (long)vp_u64("x"); x.c = (char)vp_u8("x"); }
static inline int same(const P24 &a, const P24 &b) { return (int)(a.a == b.a) & (int)(a.b == b.b) & (int)(a.c == b.c); }
static inline void mk(S40 &x) { for (int i = 0; i < 5; i++) x.a[i] = (long)vp_u64("x"); }
static inline int same(const S40 &a, const S40 &b) { int r = 1; for (int i = 0; i < 5; i++) r &= (int)(a.a[i] == b.a[i]); return r; }
static inline void mk(S100 &x) { for (int i = 0; i < 100; i++) x.c[i] = (unsigned char)i; x.c[0] = vp_u8("x"); x.c[50] = vp_u8("x"); x.c[99] = vp_u8("x"); }
static inline int same(const S100 &a, const S100 &b) { int r = 1; for (int i = 0; i < 100; i++) r &= (int)(a.c[i] == b.c[i]); return r; }
static inline void mk(A16 &x) { x.a = (long)vp_u64("x"); x.b = vp_int("x"); }
static inline int same(const A16 &a, const A16 &b) { return (int)(a.a == b.a) & (int)(a.b == b.b); }
template <typename T> static void place(const T *p) { A((unsigned long)p % alignof(T) == 0, "elements are aligned"); }
// the sequence of values a container must hold
template <typename T> struct M {
    T a[12]; int n; M() : n(0) {}
    void add(const T &x) { a[n++] = x; }
    void delFront() { for (int i = 1; i < n; i++) a[i - 1] = a[i]; n--; }
    void addFront(const T &x) { for (int i = n; i > 0; i--) a[i] = a[i - 1]; a[0] = x; n++; }
    template <typename C> void iter(const C &c) { int i = 0; for (auto it = c.begin(); it != c.end(); it++) { A(i < n, "iteration ends"); place(&*it); A(same(*it, a[i]), "iteration yields the values"); i++; } A(i == n && (int)c.size() == n && c.empty() == (n == 0), "every value is there"); }
    template <typename C> void index(const C &c) { for (int i = 0; i < n; i++) A(same(c[i], a[i]) && same(c[i - n], a[i]), "indexing yields the values"); }
    template <typename C> void ends(const C &c) { if (n) A(same(c.front(), a[0]) && same(c.back(), a[n - 1]), "the ends are the values put there"); }
    template <typename C> void all(const C &c) { iter(c); ends(c); }
};
template <typename T> static T any() { T x; mk(x); return x; }
#define BACK { T x; mk(x); c.push_back(x); m.add(x); }
struct SeqVec { template <typename T> static void run() {
    typedef Vector<T, VAlloc> C; C c; M<T> m; int n = pick("n", 6);
    for (int i = 0; i < n; i++) BACK
    m.all(c); m.index(c);
    if (n) { T y; mk(y); c[n / 2] = y; m.a[n / 2] = y; T z; mk(z); *(c.begin() + (n - 1)) = z; m.a[n - 1] = z; m.all(c); m.index(c); }
    C d(c); m.all(d); M<T> k = m; T w; mk(w); d.resize(n + 2, w); k.add(w); k.add(w); k.all(d); k.index(d); m.all(c);
    C e(dstruct::move(d)); k.all(e); c = e; k.all(c); c.pop_back(); k.n--; k.all(c);
    if (k.n > 1) { c.resize(1); k.n = 1; k.all(c); }
    C g(3, w); A(same(g[0], w) && same(g[1], w) && same(g[2], w) && g.size() == 3, "copies of one value"); dstruct::swap(g, c); k.all(g);
} };
template <typename C> struct SeqList { template <typename T, template <typename, typename> class L> static void run() {} };
template <typename T, typename C> static void aList() {
    C c; M<T> m; int n = pick("n", 4);
    for (int i = 0; i < n; i++) if (i == 1) { T x; mk(x); c.push_front(x); m.addFront(x); } else BACK
    m.all(c);
    if (n) { T y; mk(y); *c.begin() = y; m.a[0] = y; m.all(c); }
    C d(c); M<T> k = m; { T x; mk(x); d.push_back(x); k.add(x); } k.all(d); m.all(c);
    C e(dstruct::move(d)); e.pop_front(); k.delFront(); k.all(e); c = e; k.all(c); dstruct::swap(c, e); k.all(c); k.all(e);
}
template <typename T, int N> static void aDeque() {
    typedef DoubleEndedQueue<T, N, VAlloc> C; C c; M<T> m; int n = pick("n", 5);
    for (int i = 0; i < n; i++) if (i & 1) { T x; mk(x); c.push_front(x); m.addFront(x); } else BACK
    m.all(c); m.index(c);
    C d(c); M<T> k = m; { T x; mk(x); d.push_back(x); k.add(x); } k.all(d); m.all(c); k.index(d);
    C e(dstruct::move(d)); e.pop_front(); k.delFront(); k.all(e); c = e; k.all(c); if (k.n) { c.pop_back(); k.n--; k.all(c); }
}
struct SeqLists { template <typename T> static void run() { if (pick("list", 2)) aList<T, SinglyLinkedList<T, VAlloc> >(); else aList<T, DoublyLinkedList<T, VAlloc> >(); } };
struct SeqDeque { template <typename T> static void run() {
    int w = pick("which", 4);
    if (w == 0) aDeque<T, 1>(); else if (w == 1) aDeque<T, 2>(); else if (w == 2) aDeque<T, 3>();
    else { Queue<T, VAlloc> c; M<T> m; for (int i = 0; i < 3; i++) { T x; mk(x); c.push(x); m.add(x); } m.all(c); c.pop(); m.delFront(); m.all(c); Queue<T, VAlloc> d(c); m.all(d); }
} };
struct SeqStack { template <typename T> static void run() {
    if (pick("which", 2)) { Stack<T, VAlloc> c; M<T> m; for (int i = 0; i < 4; i++) { T x; mk(x); c.push(x); m.add(x); A(same(c.top(), x), "top() is the value pushed"); } m.iter(c); c.pop(); m.n--; A(same(c.top(), m.a[2]), "top()"); Stack<T, VAlloc> d(c); m.iter(d); }
    else { Array<T, 4> c; M<T> m; for (int i = 0; i < 4; i++) { T x; mk(x); c[i] = x; m.add(x); } m.all(c); m.index(c); Array<T, 4> d(c); T y; mk(y); c[-1] = y; m.all(d); d = dstruct::move(c); m.a[3] = y; m.all(d); Array<T, 4> e(y); A(same(e[0], y) && same(e[3], y), "copies of one value"); }
} };
template <typename F> static void anyType() {
    switch (pick("type", 18)) {
        case 0: F::template run<char>(); break;
        case 1: F::template run<signed char>(); break;
        case 2: F::template run<unsigned short>(); break;
        case 3: F::template run<short>(); break;
        case 4: F::template run<unsigned>(); break;
        case 5: F::template run<int>(); break;
        case 6: F::template run<long long>(); break;
        case 7: F::template run<unsigned long>(); break;
        case 8: F::template run<bool>(); break;
        case 9: F::template run<Colour>(); break;
        case 10: F::template run<Far>(); break;
        case 11: F::template run<double>(); break;
        case 12: F::template run<B3>(); break;
        case 13: F::template run<P12>(); break;
        case 14: F::template run<P24>(); break;
        case 15: F::template run<S40>(); break;
        case 16: F::template run<S100>(); break;
        default: F::template run<A16>();
    }
}
ENTRY vector() { anyType<SeqVec>(); allGone(); vp_reach("done"); }
ENTRY lists() { anyType<SeqLists>(); allGone(); vp_reach("done"); }
ENTRY deque() { anyType<SeqDeque>(); allGone(); vp_reach("done"); }
ENTRY stack() { anyType<SeqStack>(); allGone(); vp_reach("done"); }
// ordered types
struct alignas(16) OA16 { unsigned k; long pad; bool operator<(const OA16 &o) const { return k < o.k; } bool operator>(const OA16 &o) const { return k > o.k; } bool operator==(const OA16 &o) const { return k == o.k; } bool operator!=(const OA16 &o) const { return k != o.k; } };
static inline void mk(OA16 &x) { x.k = (unsigned)vp_int("x"); x.pad = 7; }
static inline int same(const OA16 &a, const OA16 &b) { return (int)(a.k == b.k) & (int)(a.pad == b.pad); }
struct O40 { char tag[33]; short k; bool operator<(const O40 &o) const { return k < o.k; } bool operator>(const O40 &o) const { return k > o.k; } bool operator==(const O40 &o) const { return k == o.k; } bool operator!=(const O40 &o) const { return k != o.k; } };
static inline void mk(O40 &x) { for (int i = 0; i < 33; i++) x.tag[i] = (char)i; x.k = (short)vp_u16("x"); }
static inline int same(const O40 &a, const O40 &b) { int r = (int)(a.k == b.k); for (int i = 0; i < 33; i++) r &= (int)(a.tag[i] == b.tag[i]); return r; }
template <typename T> static int lt(const T &a, const T &b) { return (int)(a < b); }
struct OHeap { template <typename T> static void run() {
    T v[3]; int n = 1 + pick("n", 3); for (int i = 0; i < n; i++) mk(v[i]);
    if (pick("sort", 2)) {
        T s[3]; for (int i = 0; i < n; i++) s[i] = v[i];
        Heap<T, less<T>, VAlloc>::sort(PrimitiveIterator<T>(s), PrimitiveIterator<T>(s + n));
        for (int i = 0; i < n; i++) { if (i) A(1 ^ lt(s[i], s[i - 1]), "sorted"); int k = 0, j = 0; for (int q = 0; q < n; q++) { k += same(s[q], v[i]); j += same(v[q], v[i]); } A(k == j, "a permutation"); }
    } else {
        Heap<T, greater<T>, VAlloc> h; for (int i = 0; i < n; i++) h.push(v[i]);
        T out[3]; for (int i = 0; i < n; i++) { out[i] = h.top(); h.pop(); if (i) A(1 ^ lt(out[i - 1], out[i]), "greatest first"); }
        A(h.empty(), "emptied"); for (int i = 0; i < n; i++) { int k = 0, j = 0; for (int q = 0; q < n; q++) { k += same(out[q], v[i]); j += same(v[q], v[i]); } A(k == j, "every value comes out"); }
    }
    vp_reach("done");
} };
template <typename T, typename C> static void aTree() {
    C c; T v[3]; int n = pick("n", 4), d = 0; for (int i = 0; i < n; i++) { mk(v[i]); for (int j = 0; j < i; j++) vp_assume(!same(v[i], v[j])); c.push(v[i]); d++; }
    T x; mk(x); int in = 0; for (int i = 0; i < n; i++) in |= same(v[i], x);
    auto it = c.find(x);
    if (it != c.end()) { vp_reach("found"); A(in && same(*it, x), "what is found is there"); if (pick("erase", 2)) c.erase(it); else c.pop(x); d--; A(c.find(x) == c.end(), "removed"); }
    else { vp_reach("absent"); A(!in, "what is there is found"); }
    int k = 0; const T *p = nullptr;
    for (auto i = c.begin(); i != c.end(); i++) { int w = 0; place(&*i); for (int q = 0; q < n; q++) w |= same(*i, v[q]); A(w, "only what was put in"); if (p) A(lt(*p, *i), "ascending"); p = &*i; k++; }
    A(k == d && (int)c.size() == d, "all of it");
}
struct OTree { template <typename T> static void run() { if (pick("avl", 2)) aTree<T, AVLTree<T, less<T>, VAlloc> >(); else aTree<T, tree::BinarySearchTree<T, less<T>, VAlloc> >(); } };
struct OX { template <typename T, typename S> static void go(bool min) {
    S s; T v[3]; int n = 1 + pick("n", 3); for (int i = 0; i < n; i++) { mk(v[i]); s.push(v[i]); }
    for (; n; n--) { A(same(s.top(), v[n - 1]), "top() is the value pushed"); T x = s.getXValue(); int w = 0; for (int i = 0; i < n; i++) { w |= same(x, v[i]); A(1 ^ (min ? lt(v[i], x) : lt(x, v[i])), "the extreme value"); } A(w, "is one of the values"); s.pop(); }
    A(s.empty(), "emptied"); vp_reach("done");
} template <typename T> static void run() { if (pick("min", 2)) go<T, MinStack<T, VAlloc> >(true); else go<T, MaxStack<T, VAlloc> >(false); } };
template <typename F> static void anyOrdered() {
    switch (pick("type", 13)) {
        case 11: F::template run<OA16>(); break;
        case 12: F::template run<O40>(); break;
        case 0: F::template run<char>(); break;
        case 1: F::template run<unsigned char>(); break;
        case 2: F::template run<unsigned short>(); break;
        case 3: F::template run<short>(); break;
        case 4: F::template run<unsigned>(); break;
        case 5: F::template run<int>(); break;
        case 6: F::template run<long long>(); break;
        case 7: F::template run<unsigned long>(); break;
        case 8: F::template run<bool>(); break;
        case 9: F::template run<Far>(); break;
        default: F::template run<const long *>();
    }
}
ENTRY heap() { anyOrdered<OHeap>(); allGone(); }
ENTRY tree() { anyOrdered<OTree>(); allGone(); }
ENTRY xstack() { anyOrdered<OX>(); allGone(); }
template <typename K, typename W> static void aMap() {
    {
        typedef KeyValue<const K, W> E; typedef Map<K, W, less<K>, AVLTree<E, KVCMPKey<E, less<K> >, VAlloc> > C;
        C c; K k[3]; W w[3]; int n = pick("n", DEEP(3, 4)), in = -1; if (n > 2) n = 2 + DEEP(0, 1);
        for (int i = 0; i < n; i++) { mk(k[i]); mk(w[i]); for (int j = 0; j < i; j++) vp_assume(!same(k[i], k[j])); if (i & 1) c.push(E(k[i], w[i])); else c[k[i]] = w[i]; }
        K x; mk(x); for (int i = 0; i < n; i++) if (same(k[i], x)) in = i;
        auto it = c.find(x); A((it != c.end()) == (in >= 0), "the keys are those put in");
        if (in >= 0) { vp_reach("found"); place(&it->key); place(&it->value); A(same(it->key, x) && same(it->value, w[in]), "with their values"); W y; mk(y); c[x] = y; A(same(c[x], y), "overwritten"); c.pop(x); A(c.find(x) == c.end(), "removed"); }
        else vp_reach("absent");
        for (int i = 0; i < n; i++) if (i != in) A(same(c[k[i]], w[i]), "the others keep theirs");
        A((int)c.size() == n - (in >= 0), "size");
    }
    allGone();
}
ENTRY map() {
    switch (pick("pair", 6)) {
        case 0: aMap<short, long long>(); break;
        case 1: aMap<unsigned long, char>(); break;
        case 2: aMap<char, S40>(); break;
        case 3: aMap<unsigned, A16>(); break;
        case 4: aMap<const long *, B3>(); break;
        default: aMap<bool, double>();
    }
}
template <typename Ch> static void aString() {
    {
        typedef BasicString<Ch, VAlloc> S; S s; M<Ch> m; static const int N[] = { 0, 1, 3, 14, 15, 16 }; int n = N[pick("n", 6)];
        M<Ch> *pm = &m; Ch v[20]; for (int i = 0; i < n; i++) { if (i < 2 || i == n - 1) mk(v[i]); else v[i] = (Ch)(i * 0x01010101u); s.push_back(v[i]); } (void)pm;
        S t(s); Ch x; mk(x); t.push_back(x); S u(s); u += t;
        A((int)s.size() == n && (int)t.size() == n + 1 && (int)u.size() == 2 * n + 1, "sizes");
        for (int i = 0; i < n; i++) A(same(s[i], v[i]) && same(t[i], v[i]) && same(u[i], v[i]) && same(u[n + i], v[i]) && same(s.c_str()[i], v[i]), "the characters");
        A(same(u[2 * n], x) && same(u.c_str()[2 * n + 1], (Ch)0) && same(s.c_str()[n], (Ch)0), "and the terminator");
        A(!(s == t) && s != t && u == u, "comparison"); S w(t); A(w == t, "a copy is equal"); Ch y; mk(y); w[n] = y; A((w == t) == same(x, y), "equal iff the characters are");
        int i = 0; for (auto it = s.begin(); it != s.end(); it++) { A(i < n && same(*it, v[i]), "iteration"); i++; } A(i == n, "to the end");
        vp_reach("done");
    }
    allGone();
}
ENTRY string() { switch (pick("char", 4)) { case 0: aString<char>(); break; case 1: aString<unsigned char>(); break; case 2: aString<char16_t>(); break; default: aString<char32_t>(); } }
