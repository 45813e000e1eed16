// C34: elements of linked lists, deques and balanced trees stay at one address from insertion to removal.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
// Key with a name p.
struct CK {
    int k, p;
    CK() : k(0), p(-1) {}
    CK(int x, int y) : k(x), p(y) {}
    bool operator==(const CK &o) const { return k == o.k; }
    bool operator!=(const CK &o) const { return k != o.k; }
    bool operator<(const CK &o) const { return k < o.k; }
    bool operator>(const CK &o) const { return k > o.k; }
};
//@assume pop only on a non-empty sequence; AVL trees and Maps are given absent keys; iterators of deques are not kept across changes
//@entry slist reach=done,popped :: singly linked list: 2 pushes at arbitrary ends, 4 (thorough: 5) arbitrary push/pop at either end; after each step every kept pointer still denotes its element
//@entry dlist reach=done,popped :: doubly linked list, same
//@entry deque reach=done,popped :: deque of block size 2 (thorough: also 3): 7 (thorough: 9) arbitrary push/pop at either end, kept pointers
//@entry queue reach=done,popped :: Queue (block size 32): 62 pushes, every history of 6 push/pop around the growth, kept pointers
//@entry avl reach=done,popped :: AVL tree: n<=5 (thorough: 6) arbitrary keys in every order, 2 of {pop, push, erase by iterator} with arbitrary keys, kept pointers and iterators
//@entry avlbig reach=done,popped :: AVL tree of 20 fixed keys: 1 push of an arbitrary key and 2 pops of arbitrary positions
//@entry map reach=done,popped :: Map: n<=4 (thorough: 5) arbitrary keys, one write, one pop and one insertion through []; kept pointers and iterators to keys and values
//@entry bst reach=done,popped :: search tree: n<=4 (thorough: 5) arbitrary keys; insertion moves nothing; removal moves at most the next larger element
//@entry moved reach=done :: the elements of a moved (constructed, assigned) or swapped list, deque, search tree, AVL tree or Map keep their addresses
//@entry far reach=done max_instr=1000000000 :: lists, deque (2 and 32 per block), Queue, AVL tree, Map grown from 1 to 20000 elements, one arbitrary, and reduced again: every element stays at the address it had at 1, 40, 1000, 20000 elements
enum { N = 32 };
struct Kept { const CK *a[N]; int k[N]; bool alive[N]; int n; Kept() : n(0) { for (int i = 0; i < N; i++) alive[i] = false; } };
static void intact(const Kept &s) { for (int i = 0; i < s.n; i++) if (s.alive[i]) A(s.a[i]->p == i && s.a[i]->k == s.k[i], "a pointer to an element keeps denoting it"); }
// learn the address of element i (it was just inserted), check everybody else's
template <typename C> static void learn(C &c, Kept &s, int i) {
    int cnt = 0;
    for (auto it = c.begin(); it != c.end(); it++) {
        const CK *q = &*it; A(q->p >= 0 && q->p < s.n && s.alive[q->p], "iteration visits elements of the container");
        if (q->p == i) s.a[i] = q; else A(s.a[q->p] == q, "an element keeps its address"); A(++cnt <= s.n, "iteration ends");
    }
    intact(s);
}
template <typename C> struct Ops { static void front(C &c, const CK &x) { c.push_front(x); } static void backPop(C &c) { c.pop_back(); } };
template <> struct Ops<SinglyLinkedList<CK, VAlloc> > { typedef SinglyLinkedList<CK, VAlloc> C; static void front(C &c, const CK &x) { c.push_front(x); } static void backPop(C &c) { c._pop_back(); } };
// names in order, as in the container
template <typename C> static void seq(int pushes, int steps) {
    {
        C c; Kept s; int o[64], b = 32, e = 32;
        for (int i = 0; i < pushes + steps; i++) {
            int op = pick("op", i < pushes ? 2 : 4);
            if (op < 2) {
                int x = vp_int("x"); CK v(x, s.n); s.k[s.n] = x; s.alive[s.n] = true; int id = s.n++; 
                if (op) { Ops<C>::front(c, v); o[--b] = id; } else { c.push_back(v); o[e++] = id; }
                learn(c, s, id);
            } else {
                vp_assume(b < e); int id = op == 2 ? o[b++] : o[--e]; s.alive[id] = false;
                if (op == 2) c.pop_front(); else Ops<C>::backPop(c);
                learn(c, s, -1); vp_reach("popped");
            }
        }
        vp_reach("done"); vp_trace(e - b);
    }
    allGone();
}
ENTRY slist() { seq<SinglyLinkedList<CK, VAlloc> >(2, DEEP(4, 5)); }
ENTRY dlist() { seq<DoublyLinkedList<CK, VAlloc> >(2, DEEP(4, 5)); }
ENTRY deque() {
#ifdef VP_DEEP
    if (pick("block", 2)) { seq<DoubleEndedQueue<CK, 3, VAlloc> >(2, 7); return; }
#endif
    seq<DoubleEndedQueue<CK, 2, VAlloc> >(1, DEEP(6, 8));
}
ENTRY queue() {
    {
        Queue<int, VAlloc> q; const int *a[80]; int n = 0, h = 0;
        struct Last { static const int *of(const Queue<int, VAlloc> &q) { const int *r = nullptr; for (auto it = q.begin(); it != q.end(); it++) r = &*it; return r; } };
        for (int i = 0; i < 62; i++) { q.push(i); a[n++] = nullptr; }
        { int i = 0; for (auto it = q.begin(); it != q.end(); it++) a[i++] = &*it; }
        for (int j = 0; j < 6; j++) {
            if (pick("op", 2)) { q.push(n); a[n] = Last::of(q); n++; } else { q.pop(); h++; vp_reach("popped"); }
            int i = h; for (auto it = q.begin(); it != q.end(); it++, i++) A(i < n && a[i] == &*it && *a[i] == i, "an element keeps its address");
            A(i == n, "every element is there");
        }
        vp_reach("done"); vp_trace(n - h);
    }
    allGone();
}
// trees
template <typename C, typename IT> static void held(C &c, const Kept &s, IT *it) {
    intact(s);
    for (int i = 0; i < s.n; i++) if (s.alive[i]) { A(it[i]->p == i && &*it[i] == s.a[i], "an iterator keeps denoting its element"); A(it[i] != c.end(), "and is not the end"); }
    int cnt = 0; for (auto j = c.begin(); j != c.end(); j++) { int p = j->p; A(p >= 0 && p < s.n && s.alive[p] && &*j == s.a[p] && j == it[p], "iteration meets the same elements at the same places"); A(++cnt <= s.n, "iteration ends"); }
}
template <typename C, typename IT> static void grow(C &c, Kept &s, IT *it, int x) {
    for (int i = 0; i < s.n; i++) if (s.alive[i]) vp_assume(s.k[i] != x);
    int id = s.n++; s.k[id] = x; s.alive[id] = true; c.push(CK(x, id));
    it[id] = c.find(CK(x, -1)); A(it[id] != c.end() && it[id]->p == id, "the new element is found"); s.a[id] = &*it[id];
}
static int nth(const Kept &s, int i) { for (int j = 0; j < s.n; j++) if (s.alive[j] && i-- == 0) return j; return 0; }
static int count(const Kept &s) { int r = 0; for (int j = 0; j < s.n; j++) r += s.alive[j]; return r; }
typedef AVLTree<CK, less<CK>, VAlloc> AT;
typedef AT::ConstIteratorType AI;
template <typename C, typename IT> static void change(C &t, Kept &s, IT *it, int kinds) {
    int op = pick("op", kinds);
    if (op == 0) { int x = vp_int("x"); grow(t, s, it, x); }
    else {
        vp_assume(count(s) > 0); int id = nth(s, pick("which", count(s))); s.alive[id] = false;
        if (op == 1) t.pop(CK(s.k[id], -1)); else { IT j = it[id]; t.erase(j); }
        vp_reach("popped");
    }
}
ENTRY avl() {
    {
        AT t; Kept s; AI it[12] = { t.end(), t.end(), t.end(), t.end(), t.end(), t.end(), t.end(), t.end(), t.end(), t.end(), t.end(), t.end() };
        int n = pick("n", DEEP(6, 7));
        for (int i = 0; i < n; i++) { int x = vp_int("x"); grow(t, s, it, x); held(t, s, it); }
        for (int i = 0; i < 2; i++) { change(t, s, it, 3); held(t, s, it); }
        vp_reach("done"); vp_trace(count(s));
    }
    allGone();
}
ENTRY avlbig() {
    {
        AT t; Kept s; AI e = t.end(); AI it[24] = { e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e };
        for (int i = 0; i < 20; i++) grow(t, s, it, (i * 7 % 20) * 10);
        held(t, s, it); int x = vp_int("x"); grow(t, s, it, x); held(t, s, it);
        for (int i = 0; i < 2; i++) { int id = nth(s, pick("which", count(s))); s.alive[id] = false; t.pop(CK(s.k[id], -1)); held(t, s, it); vp_reach("popped"); }
        vp_reach("done"); vp_trace(count(s));
    }
    allGone();
}
typedef KeyValue<const int, CK> E;
typedef Map<int, CK, less<int>, AVLTree<E, KVCMPKey<E, less<int> >, VAlloc> > M;
ENTRY map() {
    {
        M m; int n = 1 + pick("n", DEEP(4, 5)), k[8]; const CK *a[8]; bool in[8]; M::IteratorType e = m.end(); M::IteratorType it[8] = { e, e, e, e, e, e, e, e };
        for (int i = 0; i < n; i++) {
            int x = vp_int("k"); for (int j = 0; j < i; j++) vp_assume(k[j] != x); k[i] = x; in[i] = true;
            if (i & 1) m.push(E(x, CK(0, i))); else m[x] = CK(0, i);
            it[i] = m.find(x); A(it[i] != m.end() && it[i]->value.p == i, "found"); a[i] = &it[i]->value;
            for (int j = 0; j < i; j++) A(it[j]->key == k[j] && &it[j]->value == a[j] && a[j]->p == j && &m[k[j]] == a[j], "the entries stay in place");
        }
        int w = pick("write", n); m[k[w]] = CK(5, w); A(&m[k[w]] == a[w] && a[w]->k == 5, "writing changes the entry in place");
        int r = pick("remove", n); if (pick("how", 2)) m.pop(k[r]); else { M::IteratorType j = it[r]; m.erase(j); } in[r] = false; vp_reach("popped");
        for (int j = 0; j < n; j++) if (in[j]) A(it[j]->key == k[j] && &it[j]->value == a[j] && a[j]->p == j && &m[k[j]] == a[j], "the entries stay in place");
        int y = vp_int("y"); for (int j = 0; j < n; j++) if (in[j]) vp_assume(k[j] != y); m[y].k = 9;
        for (int j = 0; j < n; j++) if (in[j]) A(it[j]->key == k[j] && &it[j]->value == a[j] && a[j]->p == j && &m[k[j]] == a[j], "the entries stay in place");
        vp_reach("done");
    }
    allGone();
}
typedef tree::BinarySearchTree<CK, less<CK>, VAlloc> BT;
ENTRY bst() {
    {
        BT t; Kept s; int n = 1 + pick("n", DEEP(4, 5));
        for (int i = 0; i < n; i++) {
            int x = vp_int("x"); for (int j = 0; j < s.n; j++) vp_assume(s.k[j] != x);
            int id = s.n++; s.k[id] = x; s.alive[id] = true; t.push(CK(x, id)); learn(t, s, id);
        }
        int id = pick("which", n), next = -1;
        for (auto it = t.begin(); it != t.end(); it++) if (it->p == id) { it++; if (it != t.end()) next = it->p; break; }
        s.alive[id] = false; if (next >= 0) s.alive[next] = false; 
        t.pop(CK(s.k[id], -1)); intact(s); if (next >= 0) s.alive[next] = true; learn(t, s, next);
        vp_reach("popped"); vp_reach("done");
    }
    allGone();
}
template <typename C> static void put(C &c, int x, int id) { c.push(CK(x, id)); }
template <> void put<M>(M &c, int x, int id) { c.push(E(x, CK(0, id))); }
static const CK *at(const CK &x) { return &x; }
static const CK *at(const E &x) { return &x.value; }
template <typename C> static void fill(C &c, int n, int from) { for (int i = 0; i < n; i++) put(c, (from + i) * 7 % 16, from + i); }
template <typename C> static void spots(C &c, const CK **a, int from, int n) { int cnt = 0; for (auto it = c.begin(); it != c.end(); it++) { const CK *q = at(*it); A(q->p >= from && q->p < from + n, "the elements are the expected ones"); a[q->p] = q; cnt++; } A(cnt == n, "all of them"); }
template <typename C> static void moves() {
    {
        const CK *a[16], *b[16]; int n = pick("n", 5), m = pick("m", 3), how = pick("how", 3);
        C c; fill(c, n, 0); spots(c, a, 0, n);
        if (how == 0) { C d(dstruct::move(c)); spots(d, b, 0, n); }
        else {
            C d; fill(d, m, n); spots(d, a, n, m);
            if (how == 1) { d = dstruct::move(c); spots(d, b, 0, n); }
            else { dstruct::swap(c, d); spots(d, b, 0, n); spots(c, b, n, m); for (int i = n; i < n + m; i++) A(a[i] == b[i], "swapping leaves the elements in place"); }
        }
        for (int i = 0; i < n; i++) A(a[i] == b[i], "moving leaves the elements in place");
        vp_reach("done"); vp_trace(n * 8 + m);
    }
    allGone();
}
ENTRY moved() {
    int w = pick("kind", 6);
    if (w == 0) moves<SinglyLinkedList<CK, VAlloc> >(); else if (w == 1) moves<DoublyLinkedList<CK, VAlloc> >(); else if (w == 2) moves<DoubleEndedQueue<CK, 2, VAlloc> >();
    else if (w == 3) moves<BT>(); else if (w == 4) moves<AT>(); else moves<M>();
}
static const void *farPlace[2 * 70001 + 2];
template <typename T> static int farId(const T &x) { return x; }
template <typename K, typename T> static int farId(const KeyValue<K, T> &x) { return x.key; }
template <typename C> static void farStays(const C &c, int n, bool note) {
    int i = 0; for (auto it = c.begin(); it != c.end(); it++) {
        int v = farId(*it), at = v < 0 ? 2 * 70001 : v > 2 * 70001 ? 2 * 70001 + 1 : v; const void *p = &*it; IF_NOT(!farPlace[at] || farPlace[at] == p, "an element stays where it is"); if (note) farPlace[at] = p; i++; IF_NOT(i <= n, "iteration ends");
    }
    A(i == n, "iteration visits every element");
}
template <typename C> struct FarDel { static void del(C &c, int) { c.pop(); } };
template <> struct FarDel<AVLTree<int, less<int>, VAlloc> > { static void del(AVLTree<int, less<int>, VAlloc> &c, int k) { c.pop(k); } };
template <> struct FarDel<FarMap<int> > { static void del(FarMap<int> &c, int k) { c.pop(k); } };
template <typename C> static void farKept() {
    {
        for (int i = 0; i < 2 * 70001 + 2; i++) farPlace[i] = nullptr;
        int x = vp_int("x"), n = 20000; bool ok = x < 0 || x > 2 * 70001; vp_assume(ok); C c; FarAdd<C, int>::add(c, x); farStays(c, 1, true); int s = 1;
        for (int i = 0; i < n; i++) { FarAdd<C, int>::add(c, farKey(i)); s++; if (s == 40 || s == 1000) farStays(c, s, true); }
        farStays(c, s, true);
        for (int i = 0; i < n; i++) { FarDel<C>::del(c, farKey(i)); s--; if (s == 10000 || s == 3000 || s == 50) farStays(c, s, false); }
        farStays(c, s, false); vp_reach("done"); vp_trace(s);
    }
    allGone();
}
ENTRY far() {
    int k = pick("kind", 7); if (k == 0) farKept<SinglyLinkedList<int, VAlloc> >(); else if (k == 1) farKept<DoublyLinkedList<int, VAlloc> >(); else if (k == 2) farKept<DoubleEndedQueue<int, 2, VAlloc> >(); else if (k == 3) farKept<DoubleEndedQueue<int, 32, VAlloc> >();
    else if (k == 4) farKept<Queue<int, VAlloc> >(); else if (k == 5) farKept<AVLTree<int, less<int>, VAlloc> >(); else farKept<FarMap<int> >();
}
