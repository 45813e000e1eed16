// C15: an AVL tree stays balanced, and height() is its height.
#include "trees.hpp"
#include "far.hpp"
typedef AVLTree<KV, less<KV>, VAlloc> T;
//@assume push is given a key that is absent
//@entry inserts reach=deep :: n<=7 arbitrary distinct keys in every order (thorough: 8)
//@entry removal reach=removed :: n<=6 (thorough: 7) arbitrary distinct keys in every order, remove any one by key, then any other
//@entry erase reach=removed :: n<=6 (thorough: 7) arbitrary distinct keys in every order, erase any one by iterator, then any other
//@entry mixed reach=done :: n<=4 keys in every order, then 3 (thorough: 4) arbitrary push/pop/erase
//@entry big reach=done :: 12, 20, 33, 54 fixed keys (ascending, descending, scrambled, sparsest possible), then remove or erase any two, or push an arbitrary one
//@entry drain reach=done :: 33 and 54 fixed keys, all removed ascending, descending, from the root or alternating, by key or by iterator
//@entry every reach=done :: every AVL tree of height <= 4 (1 to 15 nodes, 336 shapes), then one push of an arbitrary key, one removal or one erase of any element (thorough: two)
//@entry far reach=done max_instr=1000000000 :: 20000 keys (ascending, descending, scrambled) and an arbitrary one below or above them; shape and height checked at 130, 300, 1000, 5000 and all; then every second removed by key, or the smaller half erased from the front
static void balanced(const T &t) {
    Shape s; shapeOf(t, s);
    A(s.balanced, "left and right subtree of every node differ in height by at most one");
    A(t.height() == s.height, "height() is the height of the tree");
}
template <typename D> static void fill(D &d, int n) { for (int i = 0; i < n; i++) { int x = vp_int("x"); d.push(x, true); balanced(d.t); } }
template <typename D> static void eraseNth(D &d, int i) { auto it = d.t.begin(); while (i--) it++; d.alive[it->p] = false; d.size--; d.t.erase(it); }
ENTRY inserts() {
    {
        TreeDrv<T> d; A(d.t.height() == 0, "an empty tree has height 0");
        int n = DEEP(7, 8);
        fill(d, n); vp_reach("deep"); vp_trace(d.t.height());
    }
    allGone();
}
ENTRY removal() {
    {
        TreeDrv<T> d; int n = 2 + pick("n", DEEP(5, 6)); fill(d, n);
        for (int i = 0; i < 2; i++) { d.popTag(d.nth(pick("which", n - i))); balanced(d.t); }
        vp_reach("removed"); vp_trace(d.t.height());
    }
    allGone();
}
ENTRY erase() {
    {
        TreeDrv<T> d; int n = 2 + pick("n", DEEP(5, 6)); fill(d, n);
        for (int i = 0; i < 2; i++) { eraseNth(d, pick("which", n - i)); balanced(d.t); }
        vp_reach("removed"); vp_trace(d.t.height());
    }
    allGone();
}
ENTRY mixed() {
    {
        TreeDrv<T> d; int n = 1 + pick("n", 4); fill(d, n);
        for (int i = 0; i < DEEP(3, 4); i++) {
            int op = pick("op", 3);
            if (op == 0) { int x = vp_int("x"); d.push(x, true); }
            else { vp_assume(d.size > 0); int w = pick("which", d.size); if (op == 1) d.popTag(d.nth(w)); else eraseNth(d, w); }
            balanced(d.t);
        }
        d.check(); vp_reach("done"); vp_trace(d.t.height());
    }
    allGone();
}
// Fibonacci tree: the sparsest AVL tree of its height; pushed level by level it arises without rotation
static int fib(int h, int lo, int *key, int *lvl, int depth, int &n) { // returns number of nodes
    if (h <= 0) return 0;
    int l = fib(h - 1, lo, key, lvl, depth + 1, n);
    key[n] = lo + l; lvl[n] = depth; n++;
    int r = fib(h - 2, lo + l + 1, key, lvl, depth + 1, n);
    return l + r + 1;
}
static int fixedTree(TreeDrv<T> &d, int order, int n) {
    if (order < 3) { for (int i = 0; i < n; i++) d.push(4 * (order == 0 ? i : order == 1 ? n - i : (i * 23) % 61), true); return n; }
    int key[64], lvl[64], c = 0; int h = n <= 12 ? 5 : n <= 20 ? 6 : n <= 33 ? 7 : 8;
    fib(h, 0, key, lvl, 0, c);
    for (int l = 0; l < h; l++) for (int i = 0; i < c; i++) if (lvl[i] == l) d.push(4 * key[i], true);
    return c;
}
ENTRY big() {
    {
        TreeDrv<T> d; int order = pick("order", 4), c = pick("n", 4);
        int n = fixedTree(d, order, c == 0 ? 12 : c == 1 ? 20 : c == 2 ? 33 : 54);
        balanced(d.t);
        int op = pick("op", 3);
        if (op == 0) { int x = vp_u8("x"); d.push(x, true); balanced(d.t); int y = vp_u8("y"); d.push(y, true); balanced(d.t); }
        else {
            int w = pick("first", n); if (op == 1) d.popTag(w); else eraseNth(d, w); balanced(d.t);
            w = pick("second", n - 1); if (op == 1) d.popTag(d.nth(w)); else eraseNth(d, w); balanced(d.t);
        }
        vp_reach("done"); vp_trace(d.t.height());
    }
    allGone();
}
ENTRY drain() {
    {
        TreeDrv<T> d; int order = pick("order", 4);
        int n = fixedTree(d, order, pick("n", 2) ? 54 : 33); int how = pick("how", 4), by = pick("by", 2), tags[64];
        for (int i = 0; i < n; i++) {
            int c = 0; for (auto it = d.t.begin(); it != d.t.end(); it++) tags[c++] = it->p;
            int w = how == 0 ? 0 : how == 1 ? c - 1 : how == 2 ? c / 2 : (i & 1 ? c - 1 : 0);
            if (by) eraseNth(d, w); else d.popTag(tags[w]);
            balanced(d.t);
        }
        A(d.t.height() == 0, "an emptied tree has height 0"); vp_reach("done");
    }
    allGone();
}
ENTRY every() {
    {
        TreeDrv<T> d; Plan p; avlPlan(p, pick("height", 5), 0, 0); grow(d, p); balanced(d.t);
        for (int i = 0; i < DEEP(2, 2); i++) {
            int op = pick("op", 3);
            if (op == 0) { int x = vp_u8("x"); d.push(x, true); }
            else { vp_assume(d.size > 0); int w = pick("which", d.size); if (op == 1) d.popTag(d.nth(w)); else eraseNth(d, w); }
            balanced(d.t);
        }
        vp_reach("done"); vp_trace(d.t.height());
    }
    allGone();
}
ENTRY far() {
    {
        typedef AVLTree<int, less<int>, VAlloc> S; int x = vp_int("x"), order = pick("order", 3), front = pick("front", 2), n = 20000; bool ok = x < 0 || x > 2 * 70001; vp_assume(ok); S t;
        for (int i = 0; i < n; i++) { t.push(order == 0 ? 2 * i : order == 1 ? 2 * (n - i) : farKey(i)); if (i == 129 || i == 299 || i == 999 || i == 4999) { int h = farShape(t, i + 1); A(farBalanced && h == t.height(), "balanced, and height() is the height"); } }
        t.push(x); int s = n + 1, h = farShape(t, s); A(farBalanced && h == t.height(), "balanced, and height() is the height");
        for (int i = 0; i < n; i += 2) {
            if (front) { auto it = t.begin(); t.erase(it); } else t.pop(order == 0 ? 2 * i : order == 1 ? 2 * (n - i) : farKey(i));
            s--; if (i % 4000 == 0) { h = farShape(t, s); A(farBalanced && h == t.height(), "balanced, and height() is the height"); }
        }
        h = farShape(t, s); A(farBalanced && h == t.height(), "balanced, and height() is the height"); vp_reach("done"); vp_trace(h);
    }
    allGone();
}
