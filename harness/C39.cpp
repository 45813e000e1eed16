// C39: containers can hold containers: inner ones are copied, moved and destroyed as values.
#include "zoo.hpp"
//@assume pop and access only where an element exists; Map keys are 0..2
//@entry vector reach=done :: Vector of Vector, singly linked list, deque (of tracked objects) and String: every history of 4 (thorough: 5) operations: append an empty inner, append a copy of an inner, change an inner (2 ways), assign one inner to another, remove, clear, copy the outer and change the copy, swap, move
//@entry slist reach=done :: singly linked list of the same
//@entry dlist reach=done :: doubly linked list of the same
//@entry deque reach=done :: deque (block size 2) of the same
//@entry adapters reach=done :: Queue and Stack of Vector and doubly linked list: same, by removing at the proper end
//@entry keyed reach=done :: Map from 3 keys to Vector, deque and String: 4 (thorough: 5) operations m[k].add, erase, clear, assignment between values, copying the map
//@entry ordered reach=done :: Heap, AVL tree and search tree of Vectors ordered by their first element (arbitrary): 5 (thorough: 6) operations
//@entry mixed reach=done :: Vector of Map to Vector, list of AVL trees, Vector of Heaps, three levels of Vector, deque of MinStack, Array of Vector
template <typename C> static void drop(C &c) { c.pop_back(); }
template <typename T> static void drop(SinglyLinkedList<T, VAlloc> &c) { c._pop_back(); }
template <typename T> static void drop(Stack<T, VAlloc> &c) { c.pop(); }
template <typename T> static void drop(Queue<T, VAlloc> &c) { c.pop(); }
template <typename C, typename T> static void put(C &c, const T &x) { c.push_back(x); }
template <typename T> static void put(Stack<T, VAlloc> &c, const T &x) { c.push(x); }
template <typename T> static void put(Queue<T, VAlloc> &c, const T &x) { c.push(x); }
template <typename C> struct Fifo { enum { v = 0 }; };
template <typename T> struct Fifo<Queue<T, VAlloc> > { enum { v = 1 }; };
template <typename T, typename AL> struct Deq2 : DoubleEndedQueue<T, 2, AL> {};
// containers that hand out their elements for reading only
template <typename C> struct Edit { enum { v = 1 }; };
template <typename T> struct Edit<Queue<T, VAlloc> > { enum { v = 0 }; };
template <typename T> struct Edit<Stack<T, VAlloc> > { enum { v = 0 }; };
template <typename T> struct Edit<Deq2<T, VAlloc> > { enum { v = 0 }; };
template <int> struct Tag {};
template <typename C, typename I> static I &at(C &c, int i, I *) { auto it = c.begin(); while (i--) it++; return *it; }
// the outer container and one model per inner one
template <typename O, typename Z> struct Nest {
    typedef typename Z::C I; O o; Z m[12]; int n; Nest() : n(0) {}
    void check(const O &c) const {
        A((int)c.size() == n && c.empty() == (n == 0), "the outer container has all the inner ones"); int i = 0;
        for (auto it = c.begin(); it != c.end(); it++) { A(i < n, "iteration ends"); Z z = m[i]; z.check(*it); i++; }
        A(i == n, "iteration meets every inner container");
    }
    void check() const { check(o); }
    I &at(O &c, int i) { return ::at(c, i, (I *)0); }
    void edit(int k, Tag<1>) {
        if (k == 0) { int i = pick("i", 2) ? n - 1 : 0; m[i].add(at(o, i)); }
        else if (k == 1) { vp_assume(m[n - 1].n() > 0); m[n - 1].op(at(o, n - 1), 1); }
        else if (k == 2) { vp_assume(n > 1); at(o, 0) = at(o, n - 1); m[0] = m[n - 1]; }
        else if (k == 3) { I c; Z z; z.add(c); dstruct::swap(c, at(o, 0)); m[0].check(c); m[0] = z; }
        else { O d(o), e; e = d; check(d); Z z = m[0]; z.add(at(d, 0)); z.check(at(d, 0)); check(e); }
    }
    void edit(int k, Tag<0>) {
        vp_assume(k == 0); const I *c = 0; int i = n; // a copy of the last one, changed
        for (auto it = o.begin(); i--; it++) c = &*it;
        I d(*c); Z z = m[n - 1]; z.add(d); z.check(d); put(o, d); m[n++] = z;
    }
};
template <typename O, typename Z> static void op(Nest<O, Z> &a, int k) {
    typedef typename Z::C I; O &o = a.o;
    if (k == 0) { put(o, I()); Z z; a.m[a.n++] = z; }
    else if (k == 1) { I c; Z z; z.add(c); put(o, c); a.m[a.n++] = z; z.op(c, 0); } // the one inside does not follow
    else if (k == 2) { vp_assume(a.n > 0); drop(o); a.n--; if (Fifo<O>::v) for (int i = 0; i < a.n; i++) a.m[i] = a.m[i + 1]; }
    else if (k == 3) { O c; { O d(o); a.check(d); c = d; a.check(c); } a.check(c); if (a.n) drop(c); a.check(); }
    else if (k == 4) { O c(dstruct::move(o)); a.check(c); o = dstruct::move(c); a.check(); O d; put(d, I()); dstruct::swap(o, d); a.check(d); A(o.size() == 1, "swapped"); dstruct::swap(o, d); }
    else { vp_assume(a.n > 0); a.edit(k - 5, Tag<Edit<O>::v>()); }
}
template <typename O, typename Z> static void nest(int pre, int steps) {
    {
        Nest<O, Z> a; for (int i = 0; i < pre; i++) op(a, 1);
        for (int i = 0; i < steps; i++) { int k = pick("op", Edit<O>::v ? 10 : 6); op(a, k); a.check(); }
        op(a, 0); op(a, 1); a.check(); vp_reach("done"); vp_trace(a.n);
    }
    allGone();
}
template <template <typename, typename> class O> static void outer(int steps) {
    int k = pick("inner", 4), pre = pick("pre", 2) * 2;
    if (k == 0) nest<O<Vector<Obj, VAlloc>, VAlloc>, ZVector<Obj> >(pre, steps); else if (k == 1) nest<O<SinglyLinkedList<Obj, VAlloc>, VAlloc>, ZSList<Obj> >(pre, steps);
    else if (k == 2) nest<O<DoubleEndedQueue<Obj, 2, VAlloc>, VAlloc>, ZDeque<Obj, 2> >(pre, steps); else nest<O<BasicString<char, VAlloc>, VAlloc>, ZString<> >(pre, steps);
}
ENTRY vector() { outer<Vector>(DEEP(4, 5)); }
ENTRY slist() { outer<SinglyLinkedList>(DEEP(4, 5)); }
ENTRY dlist() { outer<DoublyLinkedList>(DEEP(4, 5)); }
ENTRY deque() { outer<Deq2>(DEEP(4, 5)); }
ENTRY adapters() {
    int k = pick("kind", 4), pre = pick("pre", 2) * 2, steps = DEEP(4, 5);
    if (k == 0) nest<Queue<Vector<Obj, VAlloc>, VAlloc>, ZVector<Obj> >(pre, steps); else if (k == 1) nest<Queue<DoublyLinkedList<Obj, VAlloc>, VAlloc>, ZDList<Obj> >(pre, steps);
    else if (k == 2) nest<Stack<Vector<Obj, VAlloc>, VAlloc>, ZVector<Obj> >(pre, steps); else nest<Stack<DoublyLinkedList<Obj, VAlloc>, VAlloc>, ZDList<Obj> >(pre, steps);
}
// Map to containers
template <typename Z> static void keyed1(int steps) {
    typedef typename Z::C I; typedef KeyValue<const int, I> KVT; typedef Map<int, I, less<int>, AVLTree<KVT, KVCMPKey<KVT, less<int> >, VAlloc> > M;
    {
        M m; Z z[3]; bool in[3] = { false, false, false };
        auto check = [&](const M &c) {
            int n = 0, prev = -1; for (auto it = c.begin(); it != c.end(); it++) { int k = it->key; A(k > prev && k < 3 && in[k], "entries in key order"); prev = k; Z t = z[k]; t.check(it->value); t.check(c[k]); n++; }
            A(n == in[0] + in[1] + in[2] && (int)c.size() == n, "every entry is met");
        };
        for (int s = 0; s < steps; s++) {
            int op = pick("op", 7), k = op == 4 || op == 5 ? 0 : pick("k", 3);
            if (op == 0) { z[k].add(m[k]); in[k] = true; }
            else if (op == 1) { vp_assume(in[k] && z[k].n() > 0); z[k].op(m[k], 1); }
            else if (op == 2) { m.pop(k); in[k] = false; z[k].forget(); }
            else if (op == 3) { int b = (k + 1) % 3; m[k] = m[b]; in[k] = in[b] = true; z[k] = z[b]; }
            else if (op == 4) { M c(m), d; d = c; check(c); check(d); for (int i = 0; i < 3; i++) if (in[i]) { Z t = z[i]; t.add(c[i]); t.check(c[i]); } check(d); check(m); m = dstruct::move(d); }
            else if (op == 5) { m.clear(); for (int i = 0; i < 3; i++) { in[i] = false; z[i].forget(); } }
            else { vp_assume(!in[k]); I c; Z t; t.add(c); m.push(KVT(k, c)); in[k] = true; z[k] = t; t.add(c); }
            check(m);
        }
        vp_reach("done"); vp_trace(m.size());
    }
    allGone();
}
ENTRY keyed() { int k = pick("inner", 3), s = DEEP(4, 5); if (k == 0) keyed1<ZVector<Obj> >(s); else if (k == 1) keyed1<ZDeque<Obj, 2> >(s); else keyed1<ZString<> >(s); }
// containers of containers that order their elements
typedef Vector<Obj, VAlloc> VO;
struct ByFirst { bool operator()(const VO &a, const VO &b) const { return a[0] < b[0]; } };
static VO row(int key, int name) { VO v; v.push_back(Obj(key)); for (int i = 0; i <= name; i++) v.push_back(Obj(name * 10 + i)); return v; }
static int nameOf(const VO &v) { int m = (int)v.size() - 2; A(m >= 0 && m < 8, "the inner container is whole"); for (int i = 0; i <= m; i++) A(V(v[i + 1]) == m * 10 + i, "the inner container is unchanged"); return m; }
template <typename C> static void kept(const C &c, const int *key, const bool *in, int n, bool sorted) {
    bool seen[8] = {}; int cnt = 0, want = 0, prev = 0; for (int i = 0; i < n; i++) want += in[i];
    for (auto it = c.begin(); it != c.end(); it++) { int m = nameOf(*it); A(m < n && in[m] && !seen[m], "the elements, once each"); seen[m] = true; A(V((*it)[0]) == key[m], "with their keys"); if (sorted && cnt) A(prev < key[m], "ascending"); prev = key[m]; cnt++; }
    A(cnt == want && (int)c.size() == want, "every element");
}
template <typename C> struct Popper { static void pop(C &c, int k) { c.pop(row(k, 7)); } };
template <typename F> struct Popper<Heap<VO, F, VAlloc> > { static void pop(Heap<VO, F, VAlloc> &c, int) { c.pop(); } };
template <typename C> static void ordered1(int steps, bool heap) {
    {
        C c; int key[8], n = 0; bool in[8] = {};
        for (int s = 0; s < steps; s++) {
            if (pick("op", 2) == 0) { int x = vp_int("x"); if (!heap) for (int i = 0; i < n; i++) if (in[i]) vp_assume(key[i] != x); c.push(row(x, n)); key[n] = x; in[n++] = true; }
            else { vp_assume(!c.empty()); int m = nameOf(*c.begin()); for (int i = 0; i < n; i++) if (in[i]) A(key[m] <= key[i], "the first one is the least"); Popper<C>::pop(c, key[m]); in[m] = false; }
            kept(c, key, in, n, !heap);
        }
        C d(c), e; e = d; kept(e, key, in, n, !heap); if (!d.empty()) Popper<C>::pop(d, V((*d.begin())[0])); kept(c, key, in, n, !heap); vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY ordered() { int k = pick("kind", 3), s = DEEP(5, 6); if (k == 0) ordered1<Heap<VO, ByFirst, VAlloc> >(s, true); else if (k == 1) ordered1<AVLTree<VO, ByFirst, VAlloc> >(s, false); else ordered1<tree::BinarySearchTree<VO, ByFirst, VAlloc> >(s, false); }
// three levels: a container of containers is itself an inner container
template <typename O, typename Z> struct ZNest {
    typedef O C; enum { OPS = 2 }; Z m[8]; int k;
    ZNest() : k(0) {}
    int n() const { return k; }
    void forget() { k = 0; }
    void add(C &c) { typename Z::C i; Z z; z.add(i); put(c, i); m[k++] = z; }
    void op(C &c, int o) { if (o == 0) add(c); else { vp_assume(k > 0); m[0].add(at(c, 0, (typename Z::C *)0)); } }
    void check(const C &c) { A((int)c.size() == k, "size"); int i = 0; for (auto it = c.begin(); it != c.end(); it++) { A(i < k, "iteration ends"); m[i++].check(*it); } A(i == k, "every inner container"); }
};
ENTRY mixed() {
    int k = pick("kind", 7), pre = pick("pre", 2), s = DEEP(2, 3);
    if (k == 0) nest<Vector<typename ZMap<Obj>::C, VAlloc>, ZMap<Obj> >(pre, s); else if (k == 1) nest<DoublyLinkedList<typename ZAVL<Obj>::C, VAlloc>, ZAVL<Obj> >(pre, s);
    else if (k == 2) nest<Vector<typename ZHeap<OKV>::C, VAlloc>, ZHeap<OKV> >(pre, s); else if (k == 3) nest<Deq2<MinStack<Obj, VAlloc>, VAlloc>, ZMinStack<Obj> >(pre, s);
    else if (k == 4) { typedef Vector<VO, VAlloc> VV; nest<Vector<VV, VAlloc>, ZNest<VV, ZVector<Obj> > >(pre, s + 1); }
    else if (k == 5) { typedef DoublyLinkedList<BasicString<char, VAlloc>, VAlloc> LS; nest<SinglyLinkedList<LS, VAlloc>, ZNest<LS, ZString<> > >(pre, s + 1); }
    else {
        {
            Array<VO, 3> a; ZVector<Obj> z[3];
            for (int i = 0; i < s + 1; i++) {
                int op = pick("op", 4), j = pick("j", 3), q = (j + 1) % 3;
                if (op == 0) z[j].add(a[j]); else if (op == 1) { a[j] = a[q]; z[j] = z[q]; } else if (op == 2) { Array<VO, 3> b(a); ZVector<Obj> t = z[j]; t.add(b[j]); t.check(b[j]); a = b; z[j] = t; } else { a[j].clear(); z[j].forget(); }
                for (int e = 0; e < 3; e++) z[e].check(a[e]);
            }
            vp_reach("done"); vp_trace(a[0].size());
        }
        allGone();
    }
}
