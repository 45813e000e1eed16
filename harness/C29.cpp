// C29: an element of the container itself can be given as the argument of its operations.
#include "zoo.hpp"
#include "trees.hpp"
//@assume Queue and stack accessors return copies, so only references obtained by iteration alias there; AVL tree and Map are given absent keys
//@entry vector reach=grown,shrunk :: Vector of lifetime-tracked elements, n<=9 (thorough: 17) arbitrary values, any element as the argument of push_back, resize up or down (to 0..2n+2), assignment to any element, and pushes of itself repeated 3 times
//@entry deque reach=done :: deque (block size 2, 3), n<=6 (thorough: 9) after 0..2 front pops: any element pushed at either end, 4 times in a row
//@entry lists reach=done :: both linked lists, n<=4: any element pushed at either end, 3 times in a row, front removed in between
//@entry adapters reach=done :: Queue, Stack, MinStack: any element reached by iteration (or top, front, back, extreme value) pushed again, 3 times
//@entry heap reach=done :: Heap of n<=6 (thorough: 7) arbitrary keys: any element reached by iteration, or top(), pushed again; then emptied in order
//@entry string reach=done :: String of n<=6 (thorough: 9) arbitrary characters: s += s, push_back(s[i]), s += c_str() of its copy, repeated twice
//@entry stringfull reach=done :: String of every length 1..34 (thorough: 1..68), so at every fill of its storage: push_back of a character of its own (first, middle, last; by index, negative index, ends, c_str, begin), twice; s += s
//@entry bstpush reach=done :: BST of n<=5 arbitrary keys: push(*it) of any element changes nothing
//@entry bstpop reach=two_children,leaf :: BST of n<=6 (thorough: 7) arbitrary keys in every order: pop(*it) of any element removes exactly it
//@entry avlpop reach=two_children,leaf :: AVL tree of n<=6 (thorough: 7) arbitrary keys in every order: pop(*it) of any element removes exactly it
//@entry find reach=done :: find(*it) finds that element: BST, AVL tree; algorithm::find over every sequence container
//@entry map reach=done :: Map of n<=4 arbitrary keys: m[j] = m[i] for every pair, m[fresh] = m[i], pop(it->key), find(it->key)
ENTRY vector() {
    {
        Vector<Obj, VAlloc> v; Seq m; int n = 1 + pick("n", DEEP(9, 17));
        for (int i = 0; i < n; i++) { int x = vp_int("x"); v.push_back(Obj(x)); m.pushBack(x); }
        int i = pick("i", n), x = m[i], how = pick("how", 4);
        if (how == 0) { for (int r = 0; r < 3; r++) { v.push_back(v[i]); m.pushBack(x); } v.push(v[-1]); m.pushBack(x); vp_reach("grown"); }
        else if (how == 1) { int s = pick("s", 2 * n + 3); v.resize(s, v[i]); while (m.n() > s) m.popBack(); while (m.n() < s) m.pushBack(x); if (s < n) vp_reach("shrunk"); }
        else if (how == 2) { int j = pick("j", n); v[j] = v[i]; m[j] = x; }
        else { v.push_back(v.front()); m.pushBack(m.front()); v.push_back(v.back()); m.pushBack(m.back()); v.push_back(*(v.begin() + i)); m.pushBack(x); }
        sameSize(v, m); sameIndex(v, m); sameIter(v, m); vp_trace(m.n());
    }
    allGone();
}
template <int N> static void dq() {
    {
        DoubleEndedQueue<Obj, N, VAlloc> d; Seq m; int n = 1 + pick("n", DEEP(6, 9)), f = pick("front", 3);
        for (int i = 0; i < n; i++) { int x = vp_int("x"); d.push_back(Obj(x)); m.pushBack(x); }
        for (int i = 0; i < f && m.n() > 1; i++) { d.pop_front(); m.popFront(); }
        int i = pick("i", m.n()), at = pick("end", 2), x = m[i];
        for (int r = 0; r < 4; r++) if (at) { d.push_back(d[i]); m.pushBack(x); } else { d.push_front(d[i + r]); m.pushFront(x); }
        if (at) { d.push_front(d.back()); m.pushFront(m.back()); } else { d.push_back(d.front()); m.pushBack(m.front()); }
        sameSize(d, m); sameIndex(d, m); sameIter(d, m); vp_trace(m.n());
    }
    allGone(); vp_reach("done");
}
ENTRY deque() { if (pick("N", 2)) dq<2>(); else dq<3>(); }
template <typename L> static void li() {
    {
        L l; Seq m; int n = 1 + pick("n", 4);
        for (int i = 0; i < n; i++) { int x = vp_int("x"); l.push_back(Obj(x)); m.pushBack(x); }
        int i = pick("i", n), at = pick("end", 2), x = m[i]; auto it = l.begin(); for (int k = 0; k < i; k++) it++;
        for (int r = 0; r < 3; r++) { if (at) { l.push_back(*it); m.pushBack(x); } else { l.push_front(*it); m.pushFront(x); } if (r == 0 && at && i > 0) { l.pop_front(); m.popFront(); } }
        l.push_back(l.front()); m.pushBack(m.front()); l.push_front(l.back()); m.pushFront(m.back());
        sameSize(l, m); sameIter(l, m); sameEnds(l, m); vp_trace(m.n());
    }
    allGone(); vp_reach("done");
}
ENTRY lists() { if (pick("kind", 2)) li<SinglyLinkedList<Obj, VAlloc> >(); else li<DoublyLinkedList<Obj, VAlloc> >(); }
template <typename C, bool QU> static void ad() {
    {
        C c; Seq m; int n = 1 + pick("n", 5);
        for (int i = 0; i < n; i++) { int x = vp_int("x"); c.push(Obj(x)); m.pushBack(x); }
        int i = pick("i", n); for (int r = 0; r < 3; r++) { auto it = c.begin(); for (int k = 0; k < i; k++) it++; c.push(*it); m.pushBack(m[i]); }
        sameSize(c, m); sameIter(c, m); vp_trace(m.n());
        while (m.n()) { c.pop(); if (QU) m.popFront(); else m.popBack(); sameIter(c, m); }
    }
    allGone(); vp_reach("done");
}
ENTRY adapters() {
    int k = pick("kind", 3); if (k == 0) { ad<Queue<Obj, VAlloc>, true>(); return; } if (k == 1) { ad<Stack<Obj, VAlloc>, false>(); return; }
    {
        ZMinStack<Obj> z; MinStack<Obj, VAlloc> c; int n = 1 + pick("n", 3);
        for (int i = 0; i < n; i++) z.add(c);
        for (int r = 0; r < 2; r++) { int w = pick("what", 2 + n); if (w == 0) { int x = V(c.top()); c.push(c.top()); z.m.pushBack(x); } else if (w == 1) { int x = V(c.getXValue()); c.push(c.getXValue()); z.m.pushBack(x); } else { auto it = c.begin(); for (int q = 0; q < w - 1; q++) it++; int x = V(*it); c.push(*it); z.m.pushBack(x); } z.top(c); }
        while (z.n()) { c.pop(); z.m.popBack(); z.top(c); }
    }
    allGone(); vp_reach("done");
}
ENTRY heap() {
    {
        ZHeap<OKV> z; Heap<OKV, less<OKV>, VAlloc> h; int n = 1 + pick("n", DEEP(6, 7)), c[16];
        for (int i = 0; i < n; i++) { z.add(h); c[i] = 1; }
        int w = pick("which", n + 1); int p;
        if (w == n) { p = h.top().p; h.push(h.top()); } else { auto it = h.begin(); for (int k = 0; k < w; k++) it++; p = it->p; h.push(*it); }
        A(p >= 0 && p < n, "an element"); c[p]++;
        int prev = 0, e = 0;
        for (; !h.empty(); e++) { OKV t = h.top(); A(e <= n, "ends"); A(t.p >= 0 && t.p < n && c[t.p]-- > 0 && t.get() == z.v[t.p], "the elements pushed, as often as pushed"); if (e) A(prev <= t.k, "in order"); prev = t.k; h.pop(); }
        A(e == n + 1, "none is lost");
    }
    allGone(); vp_reach("done");
}
ENTRY string() {
    {
        ZString<> z; BasicString<char, VAlloc> s; int n = pick("n", DEEP(7, 10));
        for (int i = 0; i < n; i++) z.add(s);
        for (int r = 0; r < 2; r++) {
            int how = pick("how", 3), l = z.m.n();
            if (how == 0) { s += s; for (int i = 0; i < l; i++) z.m.pushBack(z.m[i]); }
            else if (how == 1) { if (l) { int i = pick("i", l < 7 ? l : 7); s.push_back(s[i]); z.m.pushBack(z.m[i]); s.push_back(s.back()); z.m.pushBack(z.m.back()); } }
            else { BasicString<char, VAlloc> c(s); s += c; for (int i = 0; i < l; i++) z.m.pushBack(z.m[i]); s = s; }
            z.check(s);
        }
    }
    allGone(); vp_reach("done");
}
ENTRY stringfull() {
    {
        ZString<> z; BasicString<char, VAlloc> s; int n = 1 + pick("n", DEEP(34, 68));
        for (int i = 0; i < n; i++) { if (i % 7 == 0) z.add(s); else { s.push_back((char)('A' + i)); z.m.pushBack('A' + i); } }
        int how = pick("how", 6);
        for (int r = 0; r < 2; r++) {
            int l = z.m.n(), at = pick("at", 3), i = at == 0 ? 0 : at == 1 ? l / 2 : l - 1;
            if (how == 0) { s.push_back(s[i]); z.m.pushBack(z.m[i]); }
            else if (how == 1) { const BasicString<char, VAlloc> &c = s; s.push_back(c[i - l - 1]); z.m.pushBack(z.m[i]); }
            else if (how == 2) { s.push_back(at == 0 ? s.front() : s.back()); z.m.pushBack(at == 0 ? z.m[0] : z.m.back()); }
            else if (how == 3) { const char *p = s.c_str(); s.push_back(p[i]); z.m.pushBack(z.m[i]); }
            else if (how == 4) { s.push_back(*s.begin()); z.m.pushBack(z.m[0]); }
            else { vp_assume(at == 0 && l < 40); s += s; for (int j = 0; j < l; j++) z.m.pushBack(z.m[j]); }
            z.check(s);
        }
    }
    allGone(); vp_reach("done");
}
template <typename T> static void at(T &t, int w, void (*f)(T &, const OKV &)) { auto it = t.begin(); for (int k = 0; k < w; k++) it++; f(t, *it); }
template <typename T> struct Do {
    static void push(T &t, const OKV &e) { t.push(e); }
    static void pop(T &t, const OKV &e) { t.pop(e); }
    static void find(T &t, const OKV &e) { auto it = t.find(e); A(it != t.end() && &*it == &e, "find() of an element of the tree is that element"); }
};
// what: 0 push, 1 pop, 2 find
template <typename T> static void tr(int maxn, int what) {
    {
        T t; int k[8], n = 1 + pick("n", maxn);
        for (int i = 0; i < n; i++) { k[i] = vp_int("k"); for (int j = 0; j < i; j++) vp_assume(k[j] != k[i]); t.push(OKV(k[i], i)); }
        int w = pick("which", n); auto it = t.begin(); for (int i = 0; i < w; i++) it++; int gone = it->p;
        if (n == 3) { if (w == 1 && gone == 0) vp_reach("two_children"); else if (gone == 2) vp_reach("leaf"); }
        if (what == 0) Do<T>::push(t, *it); else if (what == 1) Do<T>::pop(t, *it); else Do<T>::find(t, *it);
        int left = what == 1 ? n - 1 : n; bool seen[8] = {false, false, false, false, false, false, false, false};
        A((int)t.size() == left, "size() counts the elements"); int e = 0, prev = 0;
        for (auto i = t.begin(); i != t.end(); i++) { int p = i->p; A(e < left, "ends"); A(p >= 0 && p < n && !seen[p] && (what != 1 || p != gone) && i->get() == k[p], "exactly the others, unchanged"); seen[p] = true; if (e) A(prev < i->k, "in order"); prev = i->k; e++; }
        A(e == left, "none is lost"); vp_trace(gone);
    }
    allGone(); vp_reach("done");
}
typedef tree::BinarySearchTree<OKV, less<OKV>, VAlloc> B; typedef AVLTree<OKV, less<OKV>, VAlloc> V_;
ENTRY bstpush() { tr<B>(5, 0); }
ENTRY bstpop() { tr<B>(DEEP(6, 7), 1); }
ENTRY avlpop() { tr<V_>(DEEP(6, 7), 1); }
template <typename C> static void fi() {
    {
        C c; int n = 1 + pick("n", 4), k[4]; for (int i = 0; i < n; i++) { k[i] = vp_int("k"); c.push_back(Obj(k[i])); }
        int w = pick("which", n); auto it = c.begin(); for (int i = 0; i < w; i++) it++;
        auto f = algorithm::find(c.begin(), c.end(), *it); A(f != c.end() && f->get() == k[w], "finds an equal element");
        int first = 0; while (k[first] != k[w]) first++; auto g = c.begin(); for (int i = 0; i < first; i++) g++; A(f == g, "the first one");
    }
    allGone(); vp_reach("done");
}
ENTRY find() { int k = pick("kind", 6); if (k == 0) tr<B>(4, 2); else if (k == 1) tr<V_>(4, 2); else if (k == 2) fi<Vector<Obj, VAlloc> >(); else if (k == 3) fi<SinglyLinkedList<Obj, VAlloc> >(); else if (k == 4) fi<DoublyLinkedList<Obj, VAlloc> >(); else fi<DoubleEndedQueue<Obj, 2, VAlloc> >(); }
ENTRY map() {
    {
        ZMap<Obj> z; ZMap<Obj>::C m; int n = 1 + pick("n", 4), how = pick("how", 4);
        for (int i = 0; i < n; i++) z.add(m);
        int a = pick("a", n), b = pick("b", n); auto i = m.begin(), j = m.begin(); for (int k = 0; k < a; k++) i++; for (int k = 0; k < b; k++) j++;
        int ka = i->key, kb = j->key, va = V(i->value);
        if (how == 0) { m[j->key] = m[i->key]; z.m.put(kb, va); }
        else if (how == 1) { int x = vp_int("fresh"); vp_assume(!z.m.has(x)); Obj &f = m[x]; f = m[ka]; z.m.add(x, va); z.c_++; }
        else if (how == 2) { m.pop(i->key); z.m.del(ka); z.c_--; }
        else { auto f = m.find(i->key); A(f != m.end() && &*f == &*i, "find() of an entry's own key is that entry"); }
        z.check(m); vp_trace(z.c_);
    }
    allGone(); vp_reach("done");
}
