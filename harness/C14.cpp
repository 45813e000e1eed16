// C14: an AVL tree is an ordered set.
#include "trees.hpp"
#include "far.hpp"
typedef AVLTree<KV, less<KV>, VAlloc> T;
//@assume the comparator is a strict weak order; push is given a key that is absent (duplicates are rejected by an assertion); element copies do not fail
//@entry hist reach=absent,removed,clear :: every history of 5 (thorough: 6) push(x)/pop(x)/clear with arbitrary keys (push: absent ones), then find(y) for arbitrary y
//@entry shapes reach=two_children :: n<=6 (thorough: 7) arbitrary distinct keys in every order, remove any one, then any other; the tree is checked after each
//@entry erase reach=inner,last :: n<=6 (thorough: 7) arbitrary distinct keys in every order, erase any element by iterator, then walk on
//@entry loop reach=done :: n<=5 (thorough: 6): walk the tree erasing an arbitrary subset on the way
//@entry drain reach=done :: n<=5 (thorough: 6) arbitrary distinct keys in every order, all removed in insertion order, in reverse and smallest first
//@entry objs reach=done :: lifetime-tracked elements: 4 (thorough: 5) push/pop/erase with arbitrary keys
//@entry big reach=done :: 20, 33 fixed keys (ascending, descending, scrambled), then two arbitrary pushes, removals or erases
//@entry every reach=done :: every AVL tree of height <= 4 (1 to 15 nodes, 336 shapes), then one push of an arbitrary key, one removal by an arbitrary key or one erase of any element, then find of an arbitrary key (thorough: two operations)
//@entry far reach=done max_instr=1000000000 :: 70000 keys in scrambled order and an arbitrary one (below, above or amid them); checked after every operation; half of them removed
ENTRY hist() {
    {
        TreeDrv<T> d;
        for (int i = 0; i < DEEP(5, 6); i++) {
            int op = pick("op", 3);
            if (op == 0) { int x = vp_int("x"); d.push(x, true); }
            else if (op == 1) { vp_assume(d.size > 0); int x = vp_int("x"); int s = d.size; d.pop(x); if (d.size == s) vp_reach("absent"); else vp_reach("removed"); }
            else { vp_assume(d.size > 1); d.t.clear(); for (int j = 0; j < d.n; j++) d.alive[j] = false; d.size = 0; vp_reach("clear"); }
            d.check();
        }
        int y = vp_int("y"); d.find(y);
        vp_trace(d.size);
    }
    allGone();
}
template <typename D> static void fill(D &d, int n) { for (int i = 0; i < n; i++) { int x = vp_int("x"); d.push(x, true); } }
template <typename D> static int inorder(const D &d, int *tags) { int c = 0; for (auto it = d.t.begin(); it != d.t.end(); it++) { A(c < d.n, "iteration ends"); tags[c++] = it->p; } return c; }
ENTRY shapes() {
    {
        TreeDrv<T> d; int n = 1 + pick("n", DEEP(6, 7)); fill(d, n);
        d.check();
        int a = pick("first", n); d.popTag(a); d.check(); if (n > 2) vp_reach("two_children");
        if (n > 1) { d.popTag(d.nth(pick("second", n - 1))); d.check(); }
        d.findAll(); vp_trace(d.size);
    }
    allGone();
}
ENTRY erase() {
    {
        TreeDrv<T> d; int n = 1 + pick("n", DEEP(6, 7)), tags[16]; fill(d, n);
        inorder(d, tags);
        int pos = pick("pos", n); int tag = tags[pos];
        auto it = d.t.begin();
        if (pick("by_key", 2)) { auto f = d.t.find(KV(d.k[tag], -1)); it = f; } else for (int i = 0; i < pos; i++) it++;
        A(it->p == tag, "the iterator points to the element");
        auto next = d.t.erase(it);
        d.alive[tag] = false; d.size--;
        if (pos == n - 1) { A(!(next != d.t.end()), "erasing the last element yields end()"); vp_reach("last"); } else vp_reach("inner");
        for (int i = pos + 1; i < n; i++) { A(next != d.t.end() && next->p == tags[i] && next->k == d.k[tags[i]], "erase yields the next element and the walk continues"); next++; }
        A(!(next != d.t.end()), "the walk ends");
        d.check(); d.findAll(); vp_trace(pos);
    }
    allGone();
}
ENTRY loop() {
    {
        TreeDrv<T> d; int n = 1 + pick("n", DEEP(5, 6)), tags[16]; fill(d, n);
        inorder(d, tags);
        auto it = d.t.begin();
        for (int i = 0; i < n; i++) {
            A(it != d.t.end() && it->p == tags[i], "the walk visits the elements in order");
            if (pick("erase", 2)) { auto nx = d.t.erase(it); it = nx; d.alive[tags[i]] = false; d.size--; } else ++it;
        }
        A(!(it != d.t.end()), "the walk ends");
        d.check(); d.findAll();
        int y = vp_int("y"); d.push(y, true); d.check(); vp_reach("done"); vp_trace(d.size);
    }
    allGone();
}
ENTRY drain() {
    {
        TreeDrv<T> d; int n = 1 + pick("n", DEEP(5, 6)); fill(d, n);
        int how = pick("how", 3);
        for (int i = 0; i < n; i++) { d.popTag(how == 0 ? i : how == 1 ? n - 1 - i : (int)d.t.begin()->p); d.check(); }
        A(!(d.t.begin() != d.t.end()), "an emptied tree iterates over nothing");
        int x = vp_int("x"); d.push(x, true); d.check(); vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY objs() {
    {
        AVLTree<Obj, less<Obj>, VAlloc> t; SymSet m;
        for (int i = 0; i < DEEP(4, 5); i++) {
            int x = vp_int("x"); int op = pick("op", 3);
            if (op == 0) { vp_assume(!m.has(x)); t.push(Obj(x)); m.add(x); }
            else if (op == 1) { t.pop(Obj(x)); m.del(x); }
            else { vp_assume(m.has(x)); auto it = t.find(Obj(x)); A(it != t.end(), "found"); t.erase(it); m.del(x); }
            A((int)t.size() == m.size(), "size() counts the elements");
            int c = 0, prev = 0;
            for (auto it = t.begin(); it != t.end(); ++it) {
                int v = V(*it);
                A(m.has(v), "visits members only");
                if (c++) { A(prev < v, "in ascending order"); A(m.noneBetween(prev, v), "skips no member"); } else A(m.noneBelow(v), "starts at the smallest member");
                prev = v;
            }
            A(c == m.size(), "visits every member");
        }
        vp_reach("done");
    }
    allGone();
}
ENTRY big() {
    {
        TreeDrv<T> d; int how = pick("order", 3); int n = pick("n", 2) ? 33 : 20;
        for (int i = 0; i < n; i++) { int x = how == 0 ? i : how == 1 ? n - i : (i * 11) % 37; d.push(x * 4, true); }
        d.check();
        for (int i = 0; i < 2; i++) {
            int op = pick("op", 3);
            if (op < 2) { int x = vp_u8("x"); if (op) d.pop(x); else d.push(x, true); }
            else { int at = vp_choice("at", d.size); int tags[64]; inorder(d, tags); auto it = d.t.begin(); for (int j = 0; j < at; j++) it++; int g = it->p; d.t.erase(it); d.alive[g] = false; d.size--; }
            d.check();
        }
        vp_reach("done"); vp_trace(d.size);
    }
    allGone();
}
ENTRY every() {
    {
        TreeDrv<T> d; Plan p; avlPlan(p, pick("height", 5), 0, 0); grow(d, p); d.check();
        for (int i = 0; i < DEEP(1, 2); i++) {
            int op = pick("op", 3);
            if (op < 2) { int x = vp_u8("x"); if (op) d.pop(x); else d.push(x, true); }
            else {
                vp_assume(d.size > 0); int w = pick("which", d.size); auto it = d.t.begin(); for (int j = 0; j < w; j++) it++;
                int g = it->p; auto nx = d.t.erase(it); d.alive[g] = false; d.size--;
                int left = 0; for (int prev = d.k[g]; nx != d.t.end(); nx++) { A(prev < nx->k && d.alive[nx->p], "erase yields the next element"); prev = nx->k; left++; }
                A(left == d.size - w, "erase yields the next element");
            }
            d.check();
        }
        d.findAll(); int y = vp_u8("y"); d.find(y); vp_reach("done"); vp_trace(d.size);
    }
    allGone();
}
ENTRY far() {
    {
    typedef AVLTree<int, less<int>, VAlloc> S; int x = vp_int("x"); farOdd(x); S t;
    farTree(t, x, [](S &s, int k) { s.push(k); }, [](S &s, int k) { return s.find(k) != s.end(); }, [](S &s, int k) { s.pop(k); }, false);
    farAscending(t.begin(), t.end(), FAR / 2 + 1, [](int k) { return k; }); vp_reach("done"); vp_trace(x < 0);
    }
    allGone();
}
