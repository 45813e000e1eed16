// C24: pre-, in- and post-order traversal, by callback and by iterator, are the
// three orders of one binary search tree.
#include "trees.hpp"
#include "far.hpp"
//@assume AVL tree and Map are given absent keys
//@entry bst reach=two_children,right_chain :: BST of n<=7 (thorough: 8) arbitrary keys in every order: both ways of all three traversals
//@entry bst_removed reach=done :: BST of n<=5 (thorough: 6) arbitrary keys after removing any two by key or by iterator
//@entry avl reach=two_children :: AVL tree of n<=7 (thorough: 8) arbitrary keys in every order
//@entry avl_removed reach=done :: AVL tree of n<=5 (thorough: 6) arbitrary keys after removing any two by key or by iterator
//@entry big reach=done :: trees of n<=40 fixed keys (ascending, descending, scrambled, zig-zag), before and after removing every third
//@entry empty reach=done :: empty, emptied and cleared trees: no callback, begin() == end() for each order
//@entry partial reach=done :: iteration of each order from any position: advancing k times from begin reaches the k-th element of that order, for n<=5 keys in every order
//@entry far reach=done max_instr=1000000000 :: BST and AVL tree of 20000 keys in scrambled order and an arbitrary one below or above them, before and after the removal of every second: callbacks and iterators in all three orders
struct Post { const void *a[Shape::MAX]; int n; };
static void postOf(const Shape &s, int lo, int hi, int &pos, Post &p) {
    if (lo >= hi) return;
    int r = s.idx(s.pre[pos++], lo, hi);
    postOf(s, lo, r, pos, p); postOf(s, r + 1, hi, pos, p); p.a[p.n++] = s.in[r];
}
template <typename TREE> static void iter(const TREE &t, typename TREE::TraversalType ty, const void *const *want, int n) {
    int i = 0;
    for (auto it = t.begin(ty); it != t.end(ty); it++) { A(i < n, "iteration ends"); A((const void *)&*it == want[i], "iterator and callback visit in the same order"); i++; }
    A(i == n, "the iterator visits every element");
}
template <typename TREE> static void orders(const TREE &t) {
    Shape s; shapeOf(t, s);
    Post p; p.n = 0; int pos = 0; postOf(s, 0, s.ni, pos, p);
    const void *got[Shape::MAX]; int n = 0; Collect c = {got, &n};
    t.traversal(c, TREE::TraversalType::PostOrder);
    A(n == p.n, "post-order visits every element"); for (int i = 0; i < n; i++) A(got[i] == p.a[i], "post-order: children before their parent, left before right");
    n = 0; t.traversal(c); A(n == s.ni, "the default traversal visits every element"); for (int i = 0; i < n; i++) A(got[i] == s.in[i], "the default traversal is in-order");
    iter(t, TREE::TraversalType::PreOrder, s.pre, s.np); iter(t, TREE::TraversalType::InOrder, s.in, s.ni); iter(t, TREE::TraversalType::PostOrder, p.a, p.n);
    int i = 0, prev = 0; for (auto it = t.begin(); it != t.end(); ++it) { A((const void *)&*it == s.in[i], "the default iteration is in-order"); if (i) A(prev < it->k, "in-order is ascending"); prev = it->k; i++; }
}
typedef BSTree<KV, VAlloc> B; typedef AVLTree<KV, less<KV>, VAlloc> V_;
template <typename T> static void plain(int maxn) {
    {
        TreeDrv<T> d; int n = pick("n", maxn + 1);
        for (int i = 0; i < n; i++) { int x = vp_int("x"); d.push(x, true); }
        orders(d.t);
        if (n == 3) { if (d.k[1] < d.k[0] && d.k[0] < d.k[2]) vp_reach("two_children"); if (d.k[0] < d.k[1] && d.k[1] < d.k[2]) vp_reach("right_chain"); }
    }
    allGone();
}
template <typename T> static void removed(int maxn) {
    {
        TreeDrv<T> d; int n = 1 + pick("n", maxn);
        for (int i = 0; i < n; i++) { int x = vp_int("x"); d.push(x, true); }
        for (int i = 0; i < 2 && d.size > 0; i++) {
            int w = pick("which", d.size);
            if (pick("by", 2)) { auto it = d.t.begin(); while (w--) it++; d.alive[it->p] = false; d.size--; d.t.erase(it); } else d.popTag(d.nth(w));
            orders(d.t);
        }
        vp_reach("done");
    }
    allGone();
}
ENTRY bst() { plain<B>(DEEP(7, 8)); }
ENTRY avl() { plain<V_>(DEEP(7, 8)); }
ENTRY bst_removed() { removed<B>(DEEP(5, 6)); }
ENTRY avl_removed() { removed<V_>(DEEP(5, 6)); }
template <typename T> static void fixed() {
    {
        TreeDrv<T> d; int n = pick("n", 41), how = pick("order", 4);
        for (int i = 0; i < n; i++) d.push(how == 0 ? i : how == 1 ? n - i : how == 2 ? i * 17 % 41 : i & 1 ? 100 - i : i, true);
        orders(d.t);
        for (int i = 0; i < n; i += 3) d.popTag(i);
        orders(d.t); vp_reach("done");
    }
    allGone();
}
ENTRY big() { if (pick("tree", 2)) fixed<B>(); else fixed<V_>(); }
template <typename T> static void none() {
    {
        T t; orders(t); t.push(KV(vp_int("x"), 0)); orders(t); t.pop(*t.begin()); orders(t); t.push(KV(vp_int("y"), 1)); t.clear(); orders(t);
        typedef typename T::TraversalType TT; TT tt[3] = {TT::PreOrder, TT::InOrder, TT::PostOrder};
        for (int i = 0; i < 3; i++) A(t.begin(tt[i]) == t.end(tt[i]), "nothing to visit");
        vp_reach("done");
    }
    allGone();
}
ENTRY empty() { if (pick("tree", 2)) none<B>(); else none<V_>(); }
template <typename T> static void part() {
    {
        TreeDrv<T> d; int n = 1 + pick("n", 5);
        for (int i = 0; i < n; i++) { int x = vp_int("x"); d.push(x, true); }
        typedef typename T::TraversalType TT; int w = pick("type", 3); TT ty = w == 0 ? TT::PreOrder : w == 1 ? TT::InOrder : TT::PostOrder;
        const void *a[8]; int k = 0; Collect c = {a, &k}; d.t.traversal(c, ty);
        auto it = d.t.begin(ty);
        for (int i = 0; i < n; i++) { A((const void *)&*it == a[i], "the k-th element"); auto o = it; if (i & 1) ++it; else { auto r = it++; A(r == o, "it++ yields the old position"); } auto cp = it; A(cp == it, "a copy is equal"); }
        A(it == d.t.end(ty), "then the end"); vp_reach("done");
    }
    allGone();
}
ENTRY partial() { if (pick("tree", 2)) part<B>(); else part<V_>(); }
template <typename TREE> static void farIter(const TREE &t, typename TREE::TraversalType ty, const int *want, int n) { int i = 0; for (auto it = t.begin(ty); it != t.end(ty); it++) { IF_NOT(i < n && *it == want[i], "iterator and callback visit in the same order"); i++; } A(i == n, "the iterator visits every element"); }
template <typename TREE> static void farOrders(const TREE &t, int n) {
    farShape(t, n); static int got[FAR + 8]; int k = 0; FarCollect c = {got, &k}; t.traversal(c, TREE::TraversalType::PostOrder); A(k == n, "post-order visits every element"); for (int i = 0; i < n; i++) IF_NOT(got[i] == farPost[i], "post-order: children before their parent, left before right");
    farIter(t, TREE::TraversalType::PreOrder, farPre, n); farIter(t, TREE::TraversalType::InOrder, farIn, n); farIter(t, TREE::TraversalType::PostOrder, farPost, n);
}
template <typename TREE> static void farTraversals() {
    {
        int x = vp_int("x"), n = 20000; bool ok = x < 0 || x > 2 * 70001; vp_assume(ok); TREE t; for (int i = 0; i < n; i++) t.push(farKey(i)); t.push(x); farOrders(t, n + 1);
        for (int i = 0; i < n; i += 2) t.pop(farKey(i)); farOrders(t, n / 2 + 1); vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY far() { if (pick("avl", 2)) farTraversals<AVLTree<int, less<int>, VAlloc> >(); else farTraversals<BSTree<int, VAlloc> >(); }
