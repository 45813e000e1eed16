// C01: a Vector is the sequence its operations describe.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
//@assume element copies do not fail; sizes stay below 2^31; pop/back only on a non-empty Vector; index within -size..size-1
//@entry mix_int reach=grow,shrink,truncate,extend,write :: Vector<int>: every history of 4 operations (thorough: 5) out of push_back, pop_back, clear, resize(n), resize(n,x), v[i]=x, n in 0..4, all values
//@entry mix_obj reach=grow,shrink,truncate,extend,write :: the same for a lifetime-tracked element type
//@entry stackish_wide reach=grow,shrink :: Vector of 16-byte elements: every history of 11 (thorough: 14) push_back/pop_back/clear
//@entry stackish_byte reach=grow,shrink :: Vector of 1-byte elements, same
//@entry phased reach=long :: push p, pop q, push r, p<=70, q<=p, r<=3 (thorough: p<=200, r<=6), elements symbolic at both ends
//@entry phased_obj reach=long :: the same with lifetime-tracked elements, p<=40
//@entry filled reach=ctor :: Vector(n, x) for n in 1..40, then 2 operations; self-assignment; reserve by resize(n)
//@entry far reach=done max_instr=1000000000 :: 70000 elements, one (at the end or next to a power of two) arbitrary; checked after every push_back and pop_back; every index from both ends; resized

template <typename T, int M> static void check(const Vector<T, VAlloc> &v, const SeqT<M> &m) {
    sameSize(v, m); sameIndex(v, m); sameIter(v, m); sameEnds(v, m);
    A(v.capacity() >= v.size(), "capacity() >= size()");
}
template <typename T> static void oneOp(Vector<T, VAlloc> &v, Seq &m) {
    int op = pick("op", 6);
    if (op == 0) { int x = vp_int("x"); unsigned long long cap = v.capacity(); v.push_back(T(x)); m.pushBack(x); if (v.capacity() != cap) vp_reach("grow"); }
    else if (op == 1) { vp_assume(m.n() > 0); auto c = v.capacity(); v.pop_back(); m.popBack(); if (v.capacity() < c) vp_reach("shrink"); }
    else if (op == 2) { v.clear(); m.clear(); }
    else if (op == 3) { int n = pick("n", 5); v.resize(n); if (n < m.n()) { vp_reach("truncate"); while (m.n() > n) m.popBack(); } }
    else if (op == 4) {
        int n = pick("n", 5); int x = vp_int("x"); v.resize(n, T(x));
        if (n > m.n()) vp_reach("extend");
        while (m.n() > n) m.popBack();
        while (m.n() < n) m.pushBack(x);
    } else {
        vp_assume(m.n() > 0);
        int i = pick("i", m.n()); int x = vp_int("x"); int neg = pick("neg", 2);
        v[neg ? i - m.n() : i] = T(x); m[i] = x; vp_reach("write");
    }
}
template <typename T> static void mix(int steps) {
    {
        Vector<T, VAlloc> v; Seq m;
        check(v, m);
        for (int i = 0; i < steps; i++) { oneOp(v, m); check(v, m); }
        traceSeq(m);
    }
    allGone();
}
ENTRY mix_int() { mix<int>(DEEP(4, 5)); }
ENTRY mix_obj() { mix<Obj>(DEEP(4, 5)); }

template <typename T> static void stackish(int steps) {
    {
        Vector<T, VAlloc> v; Seq m;
        for (int i = 0; i < steps; i++) {
            int op = pick("op", 3);
            if (op == 0) { int x = vp_u8("x"); unsigned long long cap = v.capacity(); v.push(T(x)); m.pushBack(x); if (v.capacity() != cap) vp_reach("grow"); }
            else if (op == 1) { vp_assume(m.n() > 0); auto c = v.capacity(); v.pop(); m.popBack(); if (v.capacity() < c) vp_reach("shrink"); }
            else { vp_assume(i == 0 || m.n() > 0); v.clear(); m.clear(); }
            sameSize(v, m); sameEnds(v, m);
        }
        check(v, m); traceSeq(m);
    }
    allGone();
}
ENTRY stackish_wide() { stackish<Wide>(DEEP(11, 14)); }
ENTRY stackish_byte() { stackish<Byte>(DEEP(11, 14)); }

template <typename T> static void phases(int maxp, int maxr) {
    {
        Vector<T, VAlloc> v; LongSeq m;
        int a = vp_int("a"), b = vp_int("b");
        int p = pick("p", maxp + 1);
        for (int i = 0; i < p; i++) { int x = i % 3 == 0 ? a ^ i : i % 3 == 1 ? b : i; v.push_back(T(x)); m.pushBack(x); }
        check(v, m);
        int q = pick("q", p + 1);
        for (int i = 0; i < q; i++) { v.pop_back(); m.popBack(); sameSize(v, m); sameEnds(v, m); }
        sameIter(v, m);
        int r = pick("r", maxr + 1);
        for (int i = 0; i < r; i++) { v.push_back(T(b ^ i)); m.pushBack(b ^ i); }
        check(v, m);
        if (p > 32) vp_reach("long");
        traceSeq(m);
    }
    allGone();
}
ENTRY phased() { phases<int>(DEEP(70, 200), DEEP(3, 6)); }
ENTRY phased_obj() { phases<Obj>(DEEP(40, 80), 2); }

template <typename T> static void fill() {
    {
        int n = 1 + pick("n", 40); int x = vp_int("x");
        Vector<T, VAlloc> v(n, T(x)); Seq m;
        for (int i = 0; i < n; i++) m.pushBack(x);
        check(v, m); vp_reach("ctor");
        Vector<T, VAlloc> &self = v; v = self; check(v, m);
        int c = pick("reserve", 4);
        v.resize(n + c); check(v, m); A(v.capacity() >= (unsigned)(n + c), "resize(n) reserves");
        for (int k = 0; k < 2; k++) {
            if (pick("op", 2)) { int y = vp_int("y"); v.push_back(T(y)); m.pushBack(y); }
            else if (m.n()) { v.pop_back(); m.popBack(); }
            check(v, m);
        }
        traceSeq(m);
    }
    allGone();
}
ENTRY filled() { if (pick("type", 2)) fill<int>(); else fill<Obj>(); }
ENTRY far() {
    {
    typedef Vector<int, VAlloc> C; int at = farAt(), x = vp_int("x"); C c;
    for (int i = 0; i < FAR; i++) c.push_back(farEl(i, at, x));
    const C &k = c; for (int i = 0; i < FAR; i++) IF_NOT(k[i] == farEl(i, at, x) && c[i] == k[i] && k[i - FAR] == k[i] && c[i - FAR] == k[i], "every element is at its index, counted from the front and from the back");
    c.resize(2 * FAR, 3); A((int)c.size() == 2 * FAR && c[2 * FAR - 1] == 3 && c[FAR] == 3, "resize fills up"); c.resize(FAR); farWalk(c, FAR, 0, at, x);
    C d; farFill(d, at, x, [](C &v, int y) { v.push_back(y); }, [](C &v) { return v.back(); }, [](C &v) { v.pop_back(); }, false);
    vp_reach("done"); vp_trace(at);
    }
    allGone();
}
