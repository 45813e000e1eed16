// One reference model per container, so that guarantees common to all containers
// (copy, move, storage, lifetime) are stated once and decided for each of them.
//   C            the container, default constructible
//   OPS          number of operations; op(c,k) performs operation k with arbitrary
//                arguments on container and model (precondition not met: path ends)
//   add(c)       adds one arbitrary element
//   check(c)     the container's whole observable content is the model's
//   forget()     the model of an empty container
//   n()          number of elements
#ifndef VP_ZOO_HPP
#define VP_ZOO_HPP
#include "vp.hpp"
using namespace dstruct;
typedef SeqT<256> ZSeq;
// lifetime-tracked key with a payload: order and equality look at the key only
struct OKV {
    int k, p;
    OKV() : k(0), p(0) { vp_obj_ctor(this); }
    OKV(int x, int y) : k(x), p(y) { vp_obj_ctor(this); }
    OKV(const OKV &o) : k((vp_obj_use(&o), o.k)), p(o.p) { vp_obj_ctor(this); }
    OKV &operator=(const OKV &o) { vp_obj_use(this); vp_obj_use(&o); k = o.k; p = o.p; return *this; }
    ~OKV() { vp_obj_dtor(this); k = -77; p = -77; }
    int get() const { vp_obj_use(this); return k; }
    bool operator==(const OKV &o) const { return get() == o.get(); }
    bool operator!=(const OKV &o) const { return get() != o.get(); }
    bool operator<(const OKV &o) const { return get() < o.get(); }
    bool operator>(const OKV &o) const { return get() > o.get(); }
};

template <typename T> struct ZBase { ZSeq m; int n() const { return m.n(); } void forget() { m.clear(); } int val() { return in<T>("x"); } };

template <typename T, typename AL = VAlloc> struct ZVector : ZBase<T> {
    typedef Vector<T, AL> C; enum { OPS = 5, HEAD = 0 }; using ZBase<T>::m;
    void add(C &c) { int x = this->val(); c.push_back(T(x)); m.pushBack(x); }
    void op(C &c, int k) {
        if (k == 0) add(c);
        else if (k == 1) { vp_assume(m.n() > 0); c.pop_back(); m.popBack(); }
        else if (k == 2) { c.clear(); m.clear(); }
        else if (k == 3) { vp_assume(m.n() > 0); int x = this->val(); c[0] = T(x); m[0] = x; }
        else if (m.n() == 1) { c.resize(5); }
        else if (m.n() == 3) { c.resize(1); while (m.n() > 1) m.popBack(); }
        else { int x = this->val(); int s = m.n() < 3 ? m.n() + 2 : m.n() - 2; c.resize(s, T(x)); while (m.n() > s) m.popBack(); while (m.n() < s) m.pushBack(x); }
    }
    void check(const C &c) { sameSize(c, m); sameIndex(c, m); sameIter(c, m); sameEnds(c, m); }
};
template <typename T, typename AL = VAlloc> struct ZSList : ZBase<T> {
    typedef SinglyLinkedList<T, AL> C; enum { OPS = 5, HEAD = 1 }; using ZBase<T>::m;
    void add(C &c) { int x = this->val(); c.push_back(T(x)); m.pushBack(x); }
    void op(C &c, int k) {
        if (k == 0) add(c);
        else if (k == 1) { vp_assume(m.n() > 0); c.pop_front(); m.popFront(); }
        else if (k == 2) { c.clear(); m.clear(); }
        else if (k == 3) { int x = this->val(); c.push_front(T(x)); m.pushFront(x); }
        else { vp_assume(m.n() > 0); c._pop_back(); m.popBack(); }
    }
    void check(const C &c) { sameSize(c, m); sameIter(c, m); sameEnds(c, m); }
};
template <typename T, typename AL = VAlloc> struct ZDList : ZBase<T> {
    typedef DoublyLinkedList<T, AL> C; enum { OPS = 5, HEAD = 1 }; using ZBase<T>::m;
    void add(C &c) { int x = this->val(); c.push_back(T(x)); m.pushBack(x); }
    void op(C &c, int k) {
        if (k == 0) add(c);
        else if (k == 1) { vp_assume(m.n() > 0); c.pop_back(); m.popBack(); }
        else if (k == 2) { c.clear(); m.clear(); }
        else if (k == 3) { int x = this->val(); c.push_front(T(x)); m.pushFront(x); }
        else { vp_assume(m.n() > 0); c.pop_front(); m.popFront(); }
    }
    void check(const C &c) {
        sameSize(c, m); sameIter(c, m); sameEnds(c, m);
        int i = m.n(); auto it = c.end();
        while (i > 0) { it--; i--; A(V(*it) == m[i], "backward iteration yields the elements in reverse"); }
        A(it == c.begin(), "backward iteration ends at begin()");
    }
};
template <typename T, int N, typename AL = VAlloc> struct ZDeque : ZBase<T> {
    typedef DoubleEndedQueue<T, N, AL> C; enum { OPS = 5, HEAD = 0 }; using ZBase<T>::m;
    void add(C &c) { int x = this->val(); c.push_back(T(x)); m.pushBack(x); }
    void op(C &c, int k) {
        if (k == 0) add(c);
        else if (k == 1) { vp_assume(m.n() > 0); c.pop_front(); m.popFront(); }
        else if (k == 2) { c.clear(); m.clear(); }
        else if (k == 3) { int x = this->val(); c.push_front(T(x)); m.pushFront(x); }
        else { vp_assume(m.n() > 0); c.pop_back(); m.popBack(); }
    }
    void check(const C &c) { sameSize(c, m); sameIndex(c, m); sameIter(c, m); sameEnds(c, m); }
};
template <typename T, typename AL = VAlloc> struct ZQueue : ZBase<T> {
    typedef Queue<T, AL> C; enum { OPS = 2, HEAD = 0 }; using ZBase<T>::m;
    void add(C &c) { int x = this->val(); c.push(T(x)); m.pushBack(x); }
    void op(C &c, int k) { if (k == 0) add(c); else { vp_assume(m.n() > 0); c.pop(); m.popFront(); } }
    void check(const C &c) { sameSize(c, m); sameIter(c, m); sameEnds(c, m); }
};
template <typename T, typename AL = VAlloc> struct ZStack : ZBase<T> {
    typedef Stack<T, AL> C; enum { OPS = 3, HEAD = 0 }; using ZBase<T>::m;
    void add(C &c) { int x = this->val(); c.push(T(x)); m.pushBack(x); }
    void op(C &c, int k) { if (k == 0) add(c); else if (k == 1) { vp_assume(m.n() > 0); c.pop(); m.popBack(); } else { c.clear(); m.clear(); } }
    void check(const C &c) { sameSize(c, m); sameIter(c, m); if (m.n()) A(V(c.top()) == m.back(), "top() is the element pushed last"); }
};
template <typename T, typename AL = VAlloc> struct ZMinStack : ZBase<T> {
    typedef MinStack<T, AL> C; enum { OPS = 3, HEAD = -1 }; using ZBase<T>::m;
    void add(C &c) { int x = this->val(); c.push(T(x)); m.pushBack(x); }
    void op(C &c, int k) { if (k == 0) add(c); else if (k == 1) { vp_assume(m.n() > 0); c.pop(); m.popBack(); } else { c.clear(); m.clear(); } }
    void top(C &c) {
        A(c.empty() == (m.n() == 0), "empty() iff nothing is left");
        if (!m.n()) return;
        A(V(c.top()) == m.back(), "top() is the element pushed last");
        int x = V(c.getXValue()), in = 0, ok = 1;
        for (int i = 0; i < m.n(); i++) { in |= (int)(m[i] == x); ok &= (int)(m[i] >= x); }
        A(in && ok, "getXValue() is the smallest element");
    }
    void check(const C &c) { C d(c); ZMinStack s = *this; s.top(d); while (s.m.n()) { d.pop(); s.m.popBack(); s.top(d); } }
};
template <typename AL = VAlloc> struct ZString : ZBase<char> {
    typedef BasicString<char, AL> C; enum { OPS = 4, HEAD = 0 };
    void add(C &c) { int x = vp_u8("x"); c.push_back((char)x); m.pushBack(x); }
    void op(C &c, int k) {
        if (k == 0) add(c);
        else if (k == 1) { c += "0123456789abcd"; for (const char *p = "0123456789abcd"; *p; p++) m.pushBack(*p); }
        else if (k == 2) { c.clear(); m.clear(); }
        else { vp_assume(m.n() > 0); int x = vp_u8("x"); c[0] = (char)x; m[0] = x; }
    }
    void check(const C &c) {
        sameSize(c, m); sameIter(c, m); const char *p = c.c_str();
        for (int i = 0; i < m.n(); i++) A(V(c[i]) == m[i] && V(p[i]) == m[i], "the characters are those put in");
        A(p[m.n()] == 0, "c_str() is zero-terminated");
    }
};
// T: key with payload; the payload names the element, so which element is where is a
// fact of the path while its key stays arbitrary
template <typename T, typename AL = VAlloc> struct ZHeap {
    typedef Heap<T, less<T>, AL> C; enum { OPS = 2, HEAD = 1 }; int v[32], k, c_; bool alive[32];
    ZHeap() : k(0), c_(0) {}
    int n() const { return c_; }
    void forget() { k = c_ = 0; }
    void add(C &c) { int x = vp_int("x"); c.push(T(x, k)); v[k] = x; alive[k] = true; k++; c_++; }
    void op(C &c, int o) {
        if (o == 0) { add(c); return; }
        vp_assume(c_ > 0); int t = c.top().p; A(t >= 0 && t < k && alive[t], "top() is an element of the heap"); c.pop(); alive[t] = false; c_--;
    }
    void check(const C &c) {
        A((int)c.size() == c_ && c.empty() == (c_ == 0), "size() counts the elements");
        if (!c_) { A(!(c.begin() != c.end()), "an empty heap iterates over nothing"); return; }
        int t = c.top().k, e = 0; bool seen[32];
        for (int i = 0; i < k; i++) seen[i] = false;
        for (auto it = c.begin(); it != c.end(); it++) {
            int p = it->p; A(e++ < c_, "iteration ends");
            A(p >= 0 && p < k && alive[p] && !seen[p] && it->k == v[p], "iteration yields the elements, unchanged, once each");
            seen[p] = true; A(!(v[p] < t), "top() is the smallest element");
        }
        A(e == c_, "iteration yields every element");
    }
};
// ordered set of arbitrary keys
template <typename T, typename TREE> struct ZTree {
    typedef TREE C; enum { OPS = 3, HEAD = 0 }; SymSet m; int c_;
    ZTree() : c_(0) {}
    int n() const { return c_; }
    void forget() { m.clear(); c_ = 0; }
    void add(C &c) { int x = in<T>("x"); vp_assume(!m.has(x)); c.push(T(x)); m.add(x); c_++; }
    void op(C &c, int k) {
        if (k == 0) add(c);
        else if (k == 1) { vp_assume(c_ > 0); int x = V(*c.begin()); c.pop(T(x)); m.del(x); c_--; }
        else { c.clear(); m.clear(); c_ = 0; }
    }
    void check(const C &c) {
        A((int)c.size() == c_ && c.empty() == (c_ == 0), "size() counts the elements");
        int i = 0, prev = 0;
        for (auto it = c.begin(); it != c.end(); it++) {
            int v = V(*it); A(i < c_, "iteration ends"); A(m.has(v), "iteration visits members only");
            if (i) A(prev < v, "in ascending order");
            prev = v; i++;
        }
        A(i == c_, "iteration visits every element");
        if (c_) { auto it = c.find(T(prev)); A(it != c.end() && V(*it) == prev, "the elements can be found"); }
    }
};
template <typename T, typename AL = VAlloc> struct ZBST : ZTree<T, tree::BinarySearchTree<T, less<T>, AL> > {};
template <typename T, typename AL = VAlloc> struct ZAVL : ZTree<T, AVLTree<T, less<T>, AL> > {};
template <typename T, typename AL = VAlloc> struct ZMap {
    typedef KeyValue<const int, T> KVT; typedef Map<int, T, less<int>, AVLTree<KVT, KVCMPKey<KVT, less<int> >, AL> > C;
    enum { OPS = 4, HEAD = 0 }; SymSet m; int c_;
    ZMap() : c_(0) {}
    int n() const { return c_; }
    void forget() { m.clear(); c_ = 0; }
    void add(C &c) { int x = vp_int("k"); vp_assume(!m.has(x)); int y = in<T>("x"); c.push(KVT(x, T(y))); m.add(x, y); c_++; }
    void op(C &c, int k) {
        if (k == 0) add(c);
        else if (k == 1) { vp_assume(c_ > 0); int x = c.begin()->key; c.pop(x); m.del(x); c_--; }
        else if (k == 2) { c.clear(); m.clear(); c_ = 0; }
        else { vp_assume(c_ > 0); int x = c.begin()->key; int y = in<T>("x"); c[x] = T(y); m.put(x, y); }
    }
    void check(const C &c) {
        A((int)c.size() == c_ && c.empty() == (c_ == 0), "size() counts the entries");
        int i = 0, prev = 0;
        for (auto it = c.begin(); it != c.end(); it++) {
            A(i < c_, "iteration ends"); A(m.pairs(it->key, V(it->value)), "every entry is a stored key with its value");
            if (i) A(prev < it->key, "in ascending key order");
            prev = it->key; i++;
        }
        A(i == c_, "iteration visits every entry");
        if (c_) { auto it = c.find(prev); A(it != c.end() && it->key == prev, "the entries can be found"); A(m.pairs(prev, V(c[prev])), "lookup by key"); }
    }
};
template <typename AL> struct UF5 : DisjointSet<AL> { UF5() : DisjointSet<AL>(5) {} };
template <typename AL = VAlloc> struct ZUF {
    typedef UF5<AL> C; enum { OPS = 2, HEAD = 0 }; int cls[5], at;
    ZUF() : at(0) { forget(); }
    int n() const { return 5; }
    void forget() { for (int i = 0; i < 5; i++) cls[i] = i; }
    void join(C &c, int a, int b) { c.connect(a, b); int x = cls[a], y = cls[b]; for (int i = 0; i < 5; i++) if (cls[i] == y) cls[i] = x; }
    void add(C &c) { int a = at++ % 4; join(c, a, a + 1); }
    void op(C &c, int k) { if (k == 0) add(c); else { int b = pick("b", 3); join(c, 4 - b, b == 2 ? 3 : 0); } }
    void check(const C &k) {
        C &c = const_cast<C &>(k); int num = 0;
        for (int i = 0; i < 5; i++) { bool f = true; for (int j = 0; j < i; j++) { A(c.connected(i, j) == (cls[i] == cls[j]), "connected as connects imply"); if (cls[j] == cls[i]) f = false; } num += f; }
        A((int)c.count() == num && c.size() == 5, "count() and size()");
    }
};
template <typename T> struct Arr3 : Array<T, 3> { Arr3() : Array<T, 3>(T(0)) {} };
template <typename T> struct ZArray : ZBase<T> {
    typedef Arr3<T> C; enum { OPS = 2, HEAD = 0 }; using ZBase<T>::m; int at;
    ZArray() : at(0) { for (int i = 0; i < 3; i++) m.pushBack(0); }
    void add(C &c) { int x = this->val(); c[at % 3] = T(x); m[at % 3] = x; at++; }
    void op(C &c, int k) { if (k == 0) add(c); else { int i = pick("i", 3), x = this->val(); c[i] = T(x); m[i] = x; } }
    void check(const C &c) { sameSize(c, m); sameIndex(c, m); sameIter(c, m); sameEnds(c, m); }
};

// apply SCEN<model> to every container (T: element type)
#define ZOO_SEQ(F, T) F(ZVector<T>) F(ZSList<T>) F(ZDList<T>) F(ZQueue<T>) F(ZStack<T>) F(ZMinStack<T>) F(ZHeap<T>)
#endif
