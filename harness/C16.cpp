// C16: a Map holds one value per key, in key order.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
typedef KeyValue<const int, int> E;
typedef Map<int, int, less<int>, AVLTree<E, KVCMPKey<E, less<int>>, VAlloc>> M;
typedef KeyValue<const int, Obj> EO;
typedef Map<int, Obj, less<int>, AVLTree<EO, KVCMPKey<EO, less<int>>, VAlloc>> MO;
//@assume push is given a key that is absent; const lookup is given a key that is present; the key order is a strict weak order
//@entry hist reach=inserted,overwritten,removed,absent :: every history of 4 (thorough: 5) out of m[k]=v, m[k] read, push, pop(k), erase(find(k)), clear with arbitrary keys and values; lookups of an arbitrary key at the end
//@entry objs reach=done :: lifetime-tracked values: 3 (thorough: 4) operations
//@entry orders reach=done :: n<=6 (thorough: 7) arbitrary distinct keys in every order, overwrite one, remove one, read all
//@entry descending reach=done :: greater<int> as key order: n<=5 (thorough: 6) arbitrary distinct keys, iteration descends
//@entry big reach=done :: 40 fixed keys inserted through operator[], arbitrary key looked up, overwritten, removed
//@entry far reach=done max_instr=1000000000 :: 70000 keys in scrambled order and an arbitrary one (below, above or amid them); checked after every operation; half of them removed
template <typename MAP> static void check(MAP &m, const SymSet &s) {
    A((int)m.size() == s.size() && m.empty() == (s.size() == 0), "size() counts the keys");
    int c = 0, prev = 0;
    for (auto it = m.begin(); it != m.end(); it++) {
        int k = it->key;
        A(s.pairs(k, V(it->value)), "every visited pair is what was stored last for that key");
        if (c) A(prev < k, "iteration ascends strictly");
        prev = k; c++; A(c <= s.n, "iteration ends");
    }
    A(c == s.size(), "iteration visits every key");
}
template <typename MAP> static void lookup(MAP &m, const SymSet &s, int y) {
    auto it = m.find(y); bool f = it != m.end();
    A(f == (s.has(y) != 0), "find succeeds iff the key is present");
    if (f) { A(it->key == y && s.pairs(y, V(it->value)), "find yields the value stored last"); const MAP &cm = m; A(s.pairs(y, V(cm[y])), "const lookup yields the value stored last"); }
}
template <typename T, typename MAP, typename EL> static void step(MAP &m, SymSet &s, int ops) {
    int op = pick("op", ops); int k = vp_int("k");
    if (op == 0) { int v = vp_int("v"); int h = s.has(k); m[k] = T(v); s.put(k, v); if (h) vp_reach("overwritten"); else vp_reach("inserted"); }
    else if (op == 1) { int v = V(m[k]); A((s.has(k) & s.pairs(k, v)) | ((1 ^ s.has(k)) & (int)(v == 0)), "operator[] yields the stored value, or a fresh default"); s.add(k, 0); }
    else if (op == 2) { vp_assume(!s.has(k)); int v = vp_int("v"); m.push(EL(k, T(v))); s.add(k, v); }
    else if (op == 3) { int h = s.has(k); m.pop(k); s.del(k); if (h) vp_reach("removed"); else vp_reach("absent"); }
    else if (op == 4) { vp_assume(s.has(k)); auto it = m.find(k); A(it != m.end(), "a stored key is found"); m.erase(it); s.del(k); }
    else { m.clear(); s.clear(); }
}
ENTRY hist() {
    {
        M m; SymSet s;
        check(m, s);
        for (int i = 0; i < DEEP(4, 5); i++) { step<int, M, E>(m, s, 6); check(m, s); }
        int y = vp_int("y"); lookup(m, s, y);
    }
    allGone();
}
ENTRY objs() {
    {
        MO m; SymSet s;
        for (int i = 0; i < DEEP(3, 4); i++) { step<Obj, MO, EO>(m, s, 5); check(m, s); }
        vp_reach("done");
    }
    allGone();
}
ENTRY orders() {
    {
        M m; int n = 1 + pick("n", DEEP(5, 6)); int k[8], v[8];
        for (int i = 0; i < n; i++) { int x = vp_int("k"); int d = 1; for (int j = 0; j < i; j++) d &= (int)(k[j] != x); vp_assume(d); k[i] = x; int y = vp_int("v"); v[i] = y; if (i & 1) m.push(E(x, y)); else m[x] = y; }
        int w = pick("write", n); int z = vp_int("z"); m[k[w]] = z; v[w] = z;
        for (int i = 0; i < n; i++) A(m[k[i]] == v[i], "every key keeps its own value");
        A((int)m.size() == n, "reading inserts nothing that is there");
        int r = pick("remove", n); m.pop(k[r]);
        A((int)m.size() == n - 1 && !(m.find(k[r]) != m.end()), "a removed key is gone");
        for (int i = 0; i < n; i++) if (i != r) { auto it = m.find(k[i]); A(it != m.end() && it->value == v[i], "the others stay"); }
        vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY descending() {
    {
        typedef Map<int, int, greater<int>, AVLTree<E, KVCMPKey<E, greater<int>>, VAlloc>> MD;
        MD m; SymSet s; int n = pick("n", DEEP(6, 7));
        for (int i = 0; i < n; i++) { int x = vp_int("k"); vp_assume(!s.has(x)); int y = vp_int("v"); m[x] = y; s.add(x, y); }
        int c = 0, prev = 0;
        for (auto it = m.begin(); it != m.end(); ++it) { A(s.pairs(it->key, it->value), "stored pair"); if (c++) A(prev > it->key, "iteration follows the key order"); prev = it->key; }
        A(c == n, "iteration visits every key"); vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY big() {
    {
        M m; int s = vp_int("s"); int how = pick("order", 3);
        for (int i = 0; i < 40; i++) { int x = how == 0 ? i : how == 1 ? 39 - i : (i * 23) % 41; m[x * 2] = s ^ x; }
        int y = vp_u8("y");
        auto it = m.find(y); bool f = it != m.end();
        bool in = false; for (int i = 0; i < 40; i++) { int x = how == 2 ? (i * 23) % 41 : i; in |= x * 2 == y; }
        A(f == in, "find succeeds iff the key is present");
        if (f) A(it->value == (s ^ (y / 2)), "and yields its value");
        m[y] = 7; A(m[y] == 7 && (int)m.size() == 40 + !in, "operator[] overwrites or inserts");
        m.pop(y); A((int)m.size() == 40 - in && !(m.find(y) != m.end()), "pop removes");
        int c = 0, prev = -1; for (auto i = m.begin(); i != m.end(); i++) { A(prev < i->key, "ascending"); A(i->value == (s ^ (i->key / 2)), "values stay with their keys"); prev = i->key; c++; }
        A(c == (int)m.size(), "complete"); vp_reach("done");
    }
    allGone();
}
ENTRY far() {
    {
    int x = vp_int("x"), v = vp_int("v"); farOdd(x); M t;
    farTree(t, x, [](M &s, int k) { s[k] = k ^ 1; }, [](M &s, int k) { auto it = s.find(k); return it != s.end() && it->key == k && it->value == (k ^ 1); }, [](M &s, int k) { s.pop(k); }, true);
    const M &c = t; t[x] = v; A(t[x] == v && c[x] == v && c[farKey(1)] == (farKey(1) ^ 1) && t[farKey(1)] == (farKey(1) ^ 1), "the value stored last");
    farAscending(t.begin(), t.end(), FAR / 2 + 1, [](const E &e) { return e.key; }); vp_reach("done"); vp_trace(x < 0);
    }
    allGone();
}
