// C28: the library's comparison, swap and arithmetic helpers mean what they say for
// every operand, null pointers included.
#include "zoo.hpp"
//@assume abs of the most negative int is excluded (not representable)
//@entry order reach=lt,gt,eq :: less and greater on every triple of int, unsigned, long, char, Byte, Wide: strict weak orders, converse of each other, agreeing with the type's own order
//@entry pointers reach=lt,gt,eq,null :: less and greater on every triple of pointers, null included: strict weak orders, converse of each other, null before everything else
//@entry nullkeys reach=done :: a BST and a heap of pointers, null among them: 4 arbitrary pointers into an array, in every order: iteration and removal in address order, null first
//@entry greaterkeys reach=done :: BST and Heap ordered by greater: n<=5 arbitrary keys come out descending
//@entry helpers reach=done :: max, abs, swap on every pair of ints; swap on lifetime-tracked elements constructs and destroys evenly
//@entry swaps reach=swapped :: swap of two containers of 11 kinds, each filled by 0..2 additions: contents exchanged, both usable; swap with itself changes nothing
//@entry kvorder reach=done :: Map entries compare by key only
template <typename T, typename U> static void triple(const T &a, const T &b, const T &c, U ua, U ub) {
    less<T> l; greater<T> g; bool ab = l(a, b), ba = l(b, a), bc = l(b, c), ac = l(a, c), cb = l(c, b), ca = l(c, a);
    A(ab == (ua < ub), "less is the order of the type"); A(g(a, b) == (ub < ua), "greater is the converse order");
    A(!l(a, a) && !g(a, a), "irreflexive"); A(!(ab && ba), "asymmetric"); A(g(a, b) == ba, "greater is the converse of less");
    if (ab && bc) A(ac, "transitive"); if (!ab && !ba && !bc && !cb) A(!ac && !ca, "equivalence is transitive");
    if (ab) vp_reach("lt"); else if (ba) vp_reach("gt"); else vp_reach("eq");
}
ENTRY order() {
    int k = pick("T", 6), a = vp_int("a"), b = vp_int("b"), c = vp_int("c");
    if (k == 0) triple<int>(a, b, c, a, b); else if (k == 1) triple<unsigned>(a, b, c, (unsigned)a, (unsigned)b); else if (k == 2) triple<long>(a, b, c, (long)a, (long)b);
    else if (k == 3) triple<char>((char)a, (char)b, (char)c, (signed char)a, (signed char)b); else if (k == 4) triple<Byte>(Byte(a), Byte(b), Byte(c), (unsigned char)a, (unsigned char)b);
    else triple<Wide>(Wide(a), Wide(b), Wide(c), a, b);
}
static int cells[8];
static int *ptr(const char *n) { int i = pick(n, 5); return i ? &cells[i] : nullptr; }
static unsigned long at(int *p) { return p ? (unsigned long)(p - cells) : 0; }
ENTRY pointers() {
    int *a = ptr("a"), *b = ptr("b"), *c = ptr("c");
    triple<int *>(a, b, c, at(a), at(b)); if (!a || !b || !c) vp_reach("null");
    unsigned long x = vp_u64("x"), y = vp_u64("y"), z = vp_u64("z"); triple<char *>((char *)x, (char *)y, (char *)z, x, y);
}
ENTRY nullkeys() {
    {
        tree::BinarySearchTree<int *, less<int *>, VAlloc> t; Heap<int *, less<int *>, VAlloc> h; Heap<int *, greater<int *>, VAlloc> g; int n = 4; bool in[5] = {false, false, false, false, false}; int cnt = 0, pushed[4];
        for (int i = 0; i < n; i++) { int *p = ptr("p"); t.push(p); h.push(p); g.push(p); pushed[i] = (int)at(p); if (!in[at(p)]) { in[at(p)] = true; cnt++; } }
        A((int)t.size() == cnt, "size() counts the pointers"); int j = 0;
        for (auto it = t.begin(); it != t.end(); it++) { while (j < 5 && !in[j]) j++; A(j < 5 && at(*it) == (unsigned long)j, "address order, null first"); j++; }
        for (int a = 0; a < 4; a++) for (int b = 0; b < 3; b++) if (pushed[b] > pushed[b + 1]) { int s = pushed[b]; pushed[b] = pushed[b + 1]; pushed[b + 1] = s; }
        for (int a = 0; a < 4; a++) { A(at(h.top()) == (unsigned long)pushed[a], "the heap yields null first, then ascending addresses"); h.pop(); A(at(g.top()) == (unsigned long)pushed[3 - a], "the reverse heap yields null last"); g.pop(); }
        for (int a = 0; a < 5; a++) { int *p = a ? &cells[a] : nullptr; A((t.find(p) != t.end()) == in[a], "find() knows what is in the tree"); t.pop(p); in[a] = false; }
        A(t.empty(), "all removed"); vp_reach("done");
    }
    allGone();
}
ENTRY greaterkeys() {
    {
        tree::BinarySearchTree<KV, greater<KV>, VAlloc> t; Heap<KV, greater<KV>, VAlloc> h; AVLTree<KV, greater<KV>, VAlloc> v; int n = pick("n", DEEP(6, 7)); int k[8];
        for (int i = 0; i < n; i++) { k[i] = vp_int("k"); for (int j = 0; j < i; j++) vp_assume(k[j] != k[i]); t.push(KV(k[i], i)); h.push(KV(k[i], i)); v.push(KV(k[i], i)); }
        int e = 0, prev = 0; for (auto it = t.begin(); it != t.end(); it++) { A(it->p >= 0 && it->p < n && k[it->p] == it->k, "its elements"); if (e) A(prev > it->k, "descending"); prev = it->k; e++; } A(e == n, "all of them");
        e = 0; for (auto it = v.begin(); it != v.end(); it++) { A(it->p >= 0 && it->p < n && k[it->p] == it->k, "its elements"); if (e) A(prev > it->k, "descending"); prev = it->k; e++; } A(e == n, "all of them");
        for (e = 0; !h.empty(); e++) { int x = h.top().k; A(h.top().p >= 0 && h.top().p < n && k[h.top().p] == x, "its elements"); if (e) A(prev > x, "descending"); prev = x; h.pop(); } A(e == n, "all of them");
        vp_reach("done");
    }
    allGone();
}
ENTRY helpers() {
    int a = vp_int("a"), b = vp_int("b"), m = dstruct::max(a, b); A(m >= a && m >= b && (m == a || m == b), "max is the larger operand");
    unsigned u = dstruct::max((unsigned)a, (unsigned)b); A(u >= (unsigned)a && u >= (unsigned)b && (u == (unsigned)a || u == (unsigned)b), "max is the larger operand");
    if (a != (int)0x80000000) { int x = dstruct::abs(a); A(x >= 0 && (x == a || x == -a), "abs is the magnitude"); }
    int c = a, d = b; dstruct::swap(c, d); A(c == b && d == a, "swap exchanges"); dstruct::swap(c, c); A(c == b, "swap with itself changes nothing");
    { Obj p(a), q(b); dstruct::swap(p, q); A(p.get() == b && q.get() == a, "swap exchanges"); dstruct::swap(p, p); A(p.get() == b, "swap with itself changes nothing"); A(vp_live_objs() == 2, "swap leaves no temporaries"); KV k = dstruct::max(KV(a, 1), KV(b, 2)); A(k.k >= a && k.k >= b && (k.p == 1 ? k.k == a : k.p == 2 && k.k == b), "max is one of the operands"); }
    allGone(); vp_reach("done"); vp_trace(m);
}
template <typename Z> static void sw(int maxn) {
    typedef typename Z::C C;
    {
        C a, b; Z ma, mb; int n = pick("n", maxn + 1), m = pick("m", maxn + 1);
        for (int i = 0; i < n; i++) ma.add(a); for (int i = 0; i < m; i++) mb.add(b);
        if (pick("self", 2)) dstruct::swap(a, a); else { dstruct::swap(a, b); Z t = ma; ma = mb; mb = t; vp_reach("swapped"); }
        ma.check(a); mb.check(b); ma.add(a); mb.add(b); ma.check(a); mb.check(b); vp_trace(ma.n());
    }
    allGone();
}
ENTRY swaps() {
    int k = pick("container", 11), d = DEEP(2, 4);
    if (k == 0) sw<ZVector<Obj> >(d); else if (k == 1) sw<ZSList<Obj> >(d); else if (k == 2) sw<ZDList<Obj> >(d); else if (k == 3) sw<ZDeque<Obj, 2> >(d); else if (k == 4) sw<ZQueue<Obj> >(d);
    else if (k == 5) sw<ZStack<Obj> >(d); else if (k == 6) sw<ZString<> >(d); else if (k == 7) sw<ZBST<Obj> >(DEEP(2, 3)); else if (k == 8) sw<ZAVL<Obj> >(DEEP(2, 3)); else if (k == 9) sw<ZMap<Obj> >(DEEP(2, 3)); else sw<ZMinStack<int> >(DEEP(2, 3));
}
ENTRY kvorder() {
    typedef KeyValue<const int, Wide> E; int a = vp_int("a"), b = vp_int("b"), x = vp_int("x"), y = vp_int("y"); E p(a, Wide(x)), q(b, Wide(y));
    KVCMPKey<E, less<int> > l; KVCMPKey<E, greater<int> > g; A(l(p, q) == (a < b) && g(p, q) == (a > b), "entries compare by key only");
    E d; A(d.key == 0 && V(d.value) == 0 + V(Wide()), "a default entry has default key and value"); A(p.key == a && V(p.value) == x, "an entry holds what it was given"); vp_reach("done");
}
