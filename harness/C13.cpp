// C13: erasing through an iterator removes exactly that element and yields its successor.
#include "trees.hpp"
#include "far.hpp"
typedef BSTree<KV, VAlloc> T;
//@assume the iterator comes from an in-order walk or from find, and points to an element
//@entry one reach=inner,last :: n<=6 (thorough: 7) arbitrary distinct keys in every order, erase any element: found by key or by walking
//@entry loop reach=done :: n<=5 (thorough: 6) arbitrary distinct keys in every order; walk the tree erasing an arbitrary subset on the way
//@entry all reach=done :: n<=5 (thorough: 6): while (!empty) erase(begin())
//@entry objs reach=done :: lifetime-tracked elements, n<=4 (thorough: 5), erase any two
//@entry far reach=done max_instr=1000000000 :: 70000 keys in scrambled order and an arbitrary one; every second element erased on a walk, then all from the front
template <typename D> static int inorder(const D &d, int *tags) { int c = 0; for (auto it = d.t.begin(); it != d.t.end(); it++) { A(c < d.n, "iteration ends"); tags[c++] = it->p; } return c; }
ENTRY one() {
    {
        TreeDrv<T> d; int n = 1 + pick("n", DEEP(6, 7)), tags[16];
        for (int i = 0; i < n; i++) { int x = vp_int("x"); d.push(x, true); }
        inorder(d, tags);
        int pos = pick("pos", n); int tag = tags[pos];
        auto it = d.t.begin();
        if (pick("by_key", 2)) { auto f = d.t.find(KV(d.k[tag], -1)); it = f; } else for (int i = 0; i < pos; i++) it++;
        A(it->p == tag, "the iterator points to the element");
        auto next = d.t.erase(it);
        d.alive[tag] = false; d.size--;
        if (pos == n - 1) { A(!(next != d.t.end()), "erasing the last element yields end()"); vp_reach("last"); }
        else { A(next != d.t.end() && next->p == tags[pos + 1], "erase yields the next element"); vp_reach("inner"); }
        for (int i = pos + 1; i < n; i++) { A(next != d.t.end() && next->p == tags[i] && next->k == d.k[tags[i]], "the walk continues from there"); next++; }
        A(!(next != d.t.end()), "the walk ends");
        d.check(); d.findAll(); vp_trace(pos);
    }
    allGone();
}
ENTRY loop() {
    {
        TreeDrv<T> d; int n = 1 + pick("n", DEEP(5, 6)), tags[16];
        for (int i = 0; i < n; i++) { int x = vp_int("x"); d.push(x, true); }
        inorder(d, tags);
        auto it = d.t.begin();
        for (int i = 0; i < n; i++) {
            A(it != d.t.end() && it->p == tags[i], "the walk visits the elements in order");
            if (pick("erase", 2)) { auto nx = d.t.erase(it); it = nx; d.alive[tags[i]] = false; d.size--; } else it++;
        }
        A(!(it != d.t.end()), "the walk ends");
        d.check(); d.findAll();
        int y = vp_int("y"); d.push(y, true); d.check();
        vp_reach("done"); vp_trace(d.size);
    }
    allGone();
}
ENTRY all() {
    {
        TreeDrv<T> d; int n = 1 + pick("n", DEEP(5, 6)), c = 0;
        for (int i = 0; i < n; i++) { int x = vp_int("x"); d.push(x, true); }
        while (!d.t.empty()) { auto it = d.t.begin(); d.alive[it->p] = false; d.size--; d.t.erase(it); d.check(); A(++c <= n, "ends"); }
        A(c == n, "every element was erased"); vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY objs() {
    {
        BSTree<Obj, VAlloc> t; int n = 2 + pick("n", DEEP(3, 4)), v[8];
        for (int i = 0; i < n; i++) { int x = vp_int("x"); for (int j = 0; j < i; j++) vp_assume(v[j] != x); v[i] = x; t.push(Obj(x)); }
        for (int r = 0; r < 2; r++) {
            int i = pick("which", n); vp_assume(!(r && v[i] == v[7])); if (!r) v[7] = v[i]; 
            auto it = t.find(Obj(v[i])); A(it != t.end() && V(*it) == v[i], "found");
            t.erase(it); A(!(t.find(Obj(v[i])) != t.end()), "an erased element is gone");
            A((int)t.size() == n - 1 - r, "one element less");
        }
        vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY far() {
    {
    typedef BSTree<int, VAlloc> S; int x = vp_int("x"); farOdd(x); S t; for (int i = 0; i < FAR; i++) t.push(farKey(i)); t.push(x);
    auto it = t.begin(); int n = FAR + 1, prev = 0, c = 0;
    while (it != t.end()) { int k = *it; IF_NOT(c == 0 || prev < k, "the walk goes on behind the erased element"); prev = k; if (c % 2 == 0) { it = t.erase(it); n--; } else it++; c++; IF_NOT(c <= FAR + 1 && (int)t.size() == n, "one element is erased"); }
    A(c == FAR + 1, "the walk visits every element"); farAscending(t.begin(), t.end(), n, [](int k) { return k; });
    while (!t.empty()) { it = t.begin(); it = t.erase(it); n--; IF_NOT((int)t.size() == n && (n == 0) == !(it != t.end()), "one element is erased"); } vp_reach("done"); vp_trace(c);
    }
    allGone();
}
