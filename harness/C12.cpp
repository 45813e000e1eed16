// C12: a binary search tree is an ordered set.
#include "trees.hpp"
#include "far.hpp"
typedef BSTree<KV, VAlloc> T;
//@assume the comparator is a strict weak order; element copies do not fail
//@entry hist reach=dup,absent,removed,clear :: every history of 5 (thorough: 6) push(x)/pop(x)/clear with arbitrary keys, then find(y) for arbitrary y
//@entry shapes reach=two_children,root :: n<=6 (thorough: 7) arbitrary distinct keys in every order, remove any one, then any other; the tree is checked after each
//@entry drain reach=done :: n<=5 (thorough: 6) arbitrary distinct keys in every order, all removed in insertion order, in reverse and smallest first
//@entry objs reach=done :: lifetime-tracked elements: 4 (thorough: 5) push/pop with arbitrary keys
//@entry range reach=done :: construction from a range of n<=5 (thorough: 6) arbitrary keys
//@entry big reach=done :: 31 fixed keys (perfect, ascending, scrambled), then two arbitrary pushes or removals
//@entry every reach=done :: every search tree of 7 and 8 nodes (1859 shapes; thorough: also 9), then one push or removal of an arbitrary key
//@entry far reach=done max_instr=1000000000 :: 70000 keys in scrambled order and an arbitrary one (below, above or amid them); checked after every operation; half of them removed
ENTRY hist() {
    {
        TreeDrv<T> d;
        for (int i = 0; i < DEEP(5, 6); i++) {
            int op = pick("op", 3);
            if (op == 0) { int x = vp_int("x"); int s = d.size; d.push(x, false); if (d.size == s) vp_reach("dup"); }
            else if (op == 1) { vp_assume(d.size > 0); int x = vp_int("x"); int s = d.size; d.pop(x); if (d.size == s) vp_reach("absent"); else vp_reach("removed"); }
            else { vp_assume(d.size > 1); d.t.clear(); for (int j = 0; j < d.n; j++) d.alive[j] = false; d.size = 0; vp_reach("clear"); }
            d.check();
        }
        int y = vp_int("y"); d.find(y);
        vp_trace(d.size);
    }
    allGone();
}
ENTRY shapes() {
    {
        TreeDrv<T> d; int n = 1 + pick("n", DEEP(6, 7));
        for (int i = 0; i < n; i++) { int x = vp_int("x"); d.push(x, true); }
        d.check();
        int a = pick("first", n);
        if (a == 0) { vp_reach("root"); if (n > 2) { int l = 0, g = 0; for (int i = 1; i < n; i++) { l |= (int)(d.k[i] < d.k[0]); g |= (int)(d.k[i] > d.k[0]); } if (l & g) vp_reach("two_children"); } }
        d.popTag(a); d.check();
        if (n > 1) { d.popTag(d.nth(pick("second", n - 1))); d.check(); }
        d.findAll(); vp_trace(d.size);
    }
    allGone();
}
ENTRY drain() {
    {
        TreeDrv<T> d; int n = 1 + pick("n", DEEP(5, 6));
        for (int i = 0; i < n; i++) { int x = vp_int("x"); d.push(x, true); }
        int how = pick("how", 3);
        for (int i = 0; i < n; i++) { d.popTag(how == 0 ? i : how == 1 ? n - 1 - i : (int)d.t.begin()->p); d.check(); }
        A(!(d.t.begin() != d.t.end()), "an emptied tree iterates over nothing");
        int x = vp_int("x"); d.push(x, true); d.check(); vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY objs() {
    {
        BSTree<Obj, VAlloc> t; SymSet m;
        for (int i = 0; i < DEEP(4, 5); i++) {
            int x = vp_int("x");
            if (pick("op", 2)) { t.pop(Obj(x)); m.del(x); } else { t.push(Obj(x)); m.add(x); }
            A((int)t.size() == m.size(), "size() counts the elements");
            int c = 0, prev = 0;
            for (auto it = t.begin(); it != t.end(); ++it) {
                int v = V(*it);
                A(m.has(v), "visits members only");
                if (c++) { A(prev < v, "in ascending order"); A(m.noneBetween(prev, v), "skips no member"); } else A(m.noneBelow(v), "starts at the smallest member");
                prev = v;
            }
            A(c == m.size(), "visits every member");
        }
        vp_reach("done");
    }
    allGone();
}
ENTRY range() {
    {
        KV a[8]; int n = pick("n", DEEP(6, 7)); SymSet m;
        for (int i = 0; i < n; i++) { int x = vp_int("x"); a[i] = KV(x, i); m.add(x, i); }
        T t(a, a + n);
        A((int)t.size() == m.size(), "one element per distinct key");
        int c = 0, prev = 0;
        for (auto it = t.begin(); it != t.end(); ++it) {
            A(m.pairs(it->k, it->p), "the first of equal keys stays");
            if (c++) A(prev < it->k, "ascending");
            prev = it->k;
        }
        A(c == m.size(), "visits every member"); vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY big() {
    {
        TreeDrv<T> d; int how = pick("order", 3);
        for (int i = 0; i < 31; i++) {
            int x;
            if (how == 0) { int lvl = 0; while (2 << lvl <= i + 1) lvl++; x = (((i + 1) - (1 << lvl)) * 2 + 1) << (4 - lvl); } // perfect tree, level by level
            else if (how == 1) x = i + 1; else x = (i * 11) % 31 + 1;
            d.push(x * 4, true);
        }
        d.check();
        for (int i = 0; i < 2; i++) { int op = pick("op", 2); int x = vp_u8("x"); if (op) d.pop(x); else d.push(x, false); d.check(); }
        vp_reach("done"); vp_trace(d.size);
    }
    allGone();
}
ENTRY every() {
    {
        TreeDrv<T> d; Plan p; bstPlan(p, 7 + pick("n", DEEP(2, 3)), 0, 0); grow(d, p); d.check();
        int x = vp_u8("x"); if (pick("op", 2)) d.pop(x); else d.push(x, false);
        d.check(); vp_reach("done"); vp_trace(d.size);
    }
    allGone();
}
ENTRY far() {
    {
    typedef BSTree<int, VAlloc> S; int x = vp_int("x"); farOdd(x); S t;
    farTree(t, x, [](S &s, int k) { s.push(k); }, [](S &s, int k) { return s.find(k) != s.end(); }, [](S &s, int k) { s.pop(k); }, true);
    farAscending(t.begin(), t.end(), FAR / 2 + 1, [](int k) { return k; }); vp_reach("done"); vp_trace(x < 0);
    }
    allGone();
}
