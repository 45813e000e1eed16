// Shared by the tree harnesses: trees of (key, payload) elements whose payload names
// the element, so that which element moved where is a fact of the path while its
// key stays arbitrary.
#ifndef VP_TREES_HPP
#define VP_TREES_HPP
#include "vp.hpp"
using namespace dstruct;
template <typename TREE, int MAX = 64> struct TreeDrv {
    TREE t; int k[MAX]; bool alive[MAX]; int n, size;
    TreeDrv() : n(0), size(0) {}
    int has(int x) const { int r = 0; for (int i = 0; i < n; i++) if (alive[i]) r |= (int)(k[i] == x); return r; }
    // push x; distinct: only values the tree does not hold
    void push(int x, bool distinct) {
        int h = has(x);
        if (distinct) vp_assume(!h);
        t.push(KV(x, n));
        bool grew = (int)t.size() != size;
        A(grew == !h, "push grows the tree iff the key was absent");
        k[n] = x; alive[n] = grew; size += grew; n++;
        A((int)t.size() == size, "size() grows by one");
    }
    // element i of the alive ones, by insertion order
    int nth(int i) const { for (int j = 0; j < n; j++) if (alive[j] && i-- == 0) return j; return -1; }
    void pop(int x) {
        int h = has(x);
        t.pop(KV(x, 9999));
        int left = (int)t.size();
        A((size - left) == h, "pop shrinks the tree by one iff the key was present");
        reconcile(left, x);
    }
    void popTag(int i) { t.pop(KV(k[i], 9999)); A((int)t.size() == size - 1, "pop removes one element"); alive[i] = false; size--; }
    // find out which element is gone; it must be the one with key x
    void reconcile(int left, int x) {
        bool seen[MAX]; for (int i = 0; i < n; i++) seen[i] = false;
        int c = 0;
        for (auto it = t.begin(); it != t.end(); it++) { int p = it->p; A(p >= 0 && p < n && alive[p] && !seen[p], "only elements of the tree are visited, once"); seen[p] = true; A(++c <= n, "iteration ends"); }
        A(c == left, "iteration visits size() elements");
        for (int i = 0; i < n; i++) if (alive[i] && !seen[i]) { A(k[i] == x, "only the element with the given key is removed"); alive[i] = false; }
        size = left;
    }
    void check() const {
        A((int)t.size() == size && t.empty() == (size == 0), "size() and empty() agree with the contents");
        bool seen[MAX]; for (int i = 0; i < n; i++) seen[i] = false;
        int c = 0, prev = 0;
        for (auto it = t.begin(); it != t.end(); it++) {
            int p = it->p;
            A(p >= 0 && p < n && alive[p] && !seen[p], "every visited element is in the tree, and visited once");
            seen[p] = true;
            A((*it).k == k[p], "the element is unchanged");
            if (c) A(prev < it->k, "in-order iteration is strictly ascending");
            prev = it->k;
            A(++c <= n, "iteration ends");
        }
        A(c == size, "iteration visits every element");
    }
    void find(int x) const {
        auto it = t.find(KV(x, -5));
        bool found = it != t.end();
        A(found == (has(x) != 0), "find succeeds iff the key is present");
        if (found) A(it->k == x && it->p >= 0 && it->p < n && alive[it->p], "find yields the element with that key");
    }
    void findAll() const { for (int i = 0; i < n; i++) if (alive[i]) { auto it = t.find(KV(k[i], -5)); A(it != t.end() && it->p == i, "every element can be found"); } }
};
// shape of a tree from the public traversals: addresses of the elements
struct Shape {
    enum { MAX = 64 };
    const void *pre[MAX], *in[MAX]; int np, ni; bool balanced; int height;
    Shape() : np(0), ni(0), balanced(true) {}
    int idx(const void *p, int lo, int hi) const { for (int i = lo; i < hi; i++) if (in[i] == p) return i; return -1; }
    int build(int lo, int hi, int &pos) {
        if (lo >= hi) return 0;
        A(pos < np, "pre-order and in-order traversal visit the same elements");
        int r = idx(pre[pos++], lo, hi);
        A(r >= 0, "pre-order and in-order traversal describe one binary tree");
        int a = build(lo, r, pos), b = build(r + 1, hi, pos);
        if (a - b > 1 || b - a > 1) balanced = false;
        return (a > b ? a : b) + 1;
    }
};
struct Collect {
    const void **a; int *n;
    template <typename E> void operator()(const AVLData_<E> &e) const { (*this)(e.val); }
    template <typename E> void operator()(const E &e) const { A(*n < Shape::MAX, "traversal ends"); a[(*n)++] = &e; }
};
template <typename TREE> static void shapeOf(const TREE &t, Shape &s) {
    Collect p = {s.pre, &s.np}, q = {s.in, &s.ni};
    t.traversal(p, TREE::TraversalType::PreOrder);
    t.traversal(q, TREE::TraversalType::InOrder);
    A(s.np == s.ni && s.np == (int)t.size(), "every traversal visits size() elements");
    int pos = 0;
    s.height = s.build(0, s.ni, pos);
    A(pos == s.np, "pre-order and in-order traversal describe one binary tree");
}
// Every shape of a tree: the keys, 4*in-order position, go in level by level, so that they arise without rotation.
struct Plan { int key[32], lvl[32], n, depth; Plan() : n(0), depth(0) {} void add(int k, int l) { key[n] = 4 * k; lvl[n] = l; n++; if (l >= depth) depth = l + 1; } };
static inline int avlPlan(Plan &p, int h, int lo, int l) { // every AVL shape of height h; returns the number of nodes
    if (!h) return 0;
    int how = h > 1 ? pick("shape", 3) : 0;
    int a = avlPlan(p, how == 2 ? h - 2 : h - 1, lo, l + 1);
    p.add(lo + a, l);
    return a + 1 + avlPlan(p, how == 1 ? h - 2 : h - 1, lo + a + 1, l + 1);
}
static inline void bstPlan(Plan &p, int n, int lo, int l) { // every binary tree of n nodes
    if (!n) return;
    int a = n > 1 ? pick("left", n) : 0;
    bstPlan(p, a, lo, l + 1); p.add(lo + a, l); bstPlan(p, n - 1 - a, lo + a + 1, l + 1);
}
template <typename D> static void grow(D &d, const Plan &p) { for (int l = 0; l < p.depth; l++) for (int i = 0; i < p.n; i++) if (p.lvl[i] == l) d.push(p.key[i], true); }
#endif
