// C17: a disjoint set maintains exactly the equivalence its connects generate.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
typedef DisjointSet<VAlloc> U;
//@assume n >= 1; elements within 0..n-1; union_set is given two roots
//@entry small reach=redundant,joined :: n=4: every history of 4 (thorough: 5) connect(a,b); n=6: every history of 3 (thorough: 4)
//@entry roots reach=done :: the same through find + union_set, n=5, 3 (thorough: 4) steps, a lookup before the last
//@entry big reach=done :: n=16: chain, star, binomial and scrambled unions (either argument order), then one (thorough: two) arbitrary connects
//@entry far reach=done max_instr=1000000000 :: 70000 elements joined in a chain, in pairs at doubling distance, or to one; an arbitrary pair (next to a power of two or an end) tested before and after
template <int N> struct Ref {
    int cls[N];
    Ref() { for (int i = 0; i < N; i++) cls[i] = i; }
    void join(int a, int b) { int x = cls[a], y = cls[b]; if (x == y) vp_reach("redundant"); else vp_reach("joined"); for (int i = 0; i < N; i++) if (cls[i] == y) cls[i] = x; }
    int count() const { int c = 0; for (int i = 0; i < N; i++) { bool f = true; for (int j = 0; j < i; j++) if (cls[j] == cls[i]) f = false; c += f; } return c; }
};
template <int N> static void check(U &u, const Ref<N> &r) {
    A((int)u.size() == N && !u.empty(), "size() is the number of elements");
    A((int)u.count() == r.count(), "count() is the number of classes");
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) A(u.connected(i, j) == (r.cls[i] == r.cls[j]), "connected iff the connects imply it");
    for (int i = 0; i < N; i++) { int f = u.find(i); A(f >= 0 && f < N && r.cls[f] == r.cls[i], "find yields a member of the class"); A(u.find(f) == f, "a representative represents itself"); }
    A((int)u.count() == r.count(), "lookups change no class");
}
template <int N> static void run(int steps) {
    {
        U u(N); Ref<N> r;
        check(u, r);
        for (int i = 0; i < steps; i++) { int a = pick("a", N), b = pick("b", N); u.connect(a, b); r.join(a, b); if (i == steps - 1 || i == 1) check(u, r); }
        vp_trace(r.count());
    }
    allGone();
}
ENTRY small() { if (pick("n", 2)) run<6>(DEEP(3, 4)); else run<4>(DEEP(4, 5)); }
ENTRY roots() {
    {
        U u(5); Ref<5> r;
        for (int i = 0; i < DEEP(3, 4); i++) {
            int a = pick("a", 5), b = pick("b", 5);
            int x = u.find(a), y = u.find(b);
            u.union_set(x, y); r.join(a, b);
            A(u.connected(a, b), "united");
            if (i != 1) continue; int c = pick("c", 5); A(u.connected(a, c) == (r.cls[a] == r.cls[c]), "connected iff the unions imply it");
        }
        check(u, r); vp_reach("done"); vp_trace(r.count());
    }
    allGone();
}
ENTRY big() {
    {
        enum { N = 16 };
        U u(N); Ref<N> r; int how = pick("how", 4), sw = pick("swap", 2), m = pick("upto", N);
        for (int i = 0; i < m; i++) {
            int a, b;
            if (how == 0) { a = i; b = i + 1; } else if (how == 1) { a = 7; b = i; }
            else if (how == 2) { int s = i < 8 ? 1 : i < 12 ? 2 : i < 14 ? 4 : 8, o = i < 8 ? i : i < 12 ? i - 8 : i < 14 ? i - 12 : 0; a = o * 2 * s; b = a + s; }
            else { a = (i * 5) % N; b = (i * 11 + 3) % N; }
            if (sw) { int t = a; a = b; b = t; }
            u.connect(a, b); r.join(a, b);
        }
        for (int i = 0; i < DEEP(1, 2); i++) { int a = pick("a", N), b = pick("b", N); u.connect(a, b); r.join(a, b); }
        check(u, r); vp_reach("done"); vp_trace(r.count());
    }
    allGone();
}
ENTRY far() {
    {
    int way = pick("way", 3), a = farAt(), b = pick("low", 2) ? 0 : 65537, n = FAR; DisjointSet<VAlloc> u(FAR);
    A(u.count() == FAR && !u.connected(a, b), "all apart"); u.connect(a, b); n--; A(u.connected(a, b) && u.connected(b, a) && u.count() == n && (u.find(a) == a || u.find(a) == b) && u.find(a) == u.find(b), "joined");
    A(!u.connected(a, 1) && !u.connected(b, 69998) && !u.connected(b, a - 32768 > 0 ? a - 32768 : 2), "the others stay apart");
    if (way == 0) for (int i = 0; i + 1 < FAR; i++) { bool c = u.connected(i, i + 1); u.connect(i, i + 1); if (!c) n--; IF_NOT(u.connected(0, i + 1), "joined"); }
    else if (way == 1) for (int d = 1; d < FAR; d *= 2) for (int i = 0; i + d < FAR; i += 2 * d) { bool c = u.connected(i, i + d); u.connect(i, i + d); if (!c) n--; IF_NOT(u.connected(i + d, i), "joined"); }
    else for (int i = 0; i < FAR; i++) { bool c = u.connected(i, 40000); u.connect(i, 40000); if (!c) n--; IF_NOT(u.connected(40000, i), "joined"); }
    A(u.count() == 1 && n == 1, "all joined"); for (int i = 0; i < FAR; i += 13) IF_NOT(u.find(i) == u.find(0), "all joined"); vp_reach("done"); vp_trace(way);
    }
    allGone();
}
