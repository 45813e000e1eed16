// C02: an Array holds exactly N elements, each readable where it was written.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
//@assume 1 <= N; index within -N..N-1
//@entry small reach=neg,pos :: Array<int,N>, N in {1,2,3,5,8}: fill, then 4 (thorough: 5) writes/reads at arbitrary indices, all values; const and non-const access, iteration, front/back
//@entry objs reach=neg,pos :: the same for a lifetime-tracked element type, N in {1,2,4}
//@entry wide reach=neg,pos :: Array<16-byte element, 17> and Array<1-byte element, 33>: 2 writes
//@entry copies reach=done :: copy/move construction and assignment, self-assignment: N in {1,3}, all values
//@entry far reach=done max_instr=1000000000 :: 70000 elements, one arbitrary write, everything read back by index from both ends and by iteration
template <int N, typename C, int M> static void check(const C &a, const SeqT<M> &m) {
    A(a.size() == N && a.capacity() == N && !a.empty(), "size is N");
    sameIndex(a, m); sameIter(a, m); sameEnds(a, m);
}
template <typename T, int N> static void hist(int steps) {
    {
        int f = in<T>("fill");
        Array<T, N> a((T(f))); Seq m;
        for (int i = 0; i < N; i++) m.pushBack(f);
        check<N>(a, m);
        for (int s = 0; s < steps; s++) {
            int i = pick("i", 2 * N) - N; int x = in<T>("x");
            a[i] = T(x); m[i < 0 ? i + N : i] = x;
            if (i < 0) vp_reach("neg"); else vp_reach("pos");
            A(V(a[i]) == x, "reads back what was written");
            const Array<T, N> &c = a;
            A(V(c[i]) == x && &c[i] == &a[i], "const access reads the same element");
        }
        check<N>(a, m);
        int k = 0;
        for (auto &e : a) { A(&e == &a[k], "iteration walks the elements in place"); k++; }
        A(k == N, "range-for visits N elements");
        int w = in<T>("w");
        for (auto it = a.begin(); it != a.end(); ++it) *it = T(w);
        for (int i = 0; i < N; i++) A(V(a[i]) == w, "writes through iterators land");
        traceSeq(m);
    }
    allGone();
}
ENTRY small() {
    int k = pick("N", 5); int st = DEEP(4, 5);
    if (k == 0) hist<int, 1>(st); else if (k == 1) hist<int, 2>(st); else if (k == 2) hist<int, 3>(st); else if (k == 3) hist<int, 5>(st - 1); else hist<int, 8>(st - 1);
}
ENTRY objs() { int k = pick("N", 3); if (k == 0) hist<Obj, 1>(3); else if (k == 1) hist<Obj, 2>(3); else hist<Obj, 4>(3); }
ENTRY wide() { if (pick("T", 2)) hist<Wide, 17>(DEEP(2, 3)); else hist<Byte, 33>(1); }
template <typename T, int N> static void cp() {
    {
        Array<T, N> a; Seq m;
        for (int i = 0; i < N; i++) { int x = in<T>("x"); a[i] = T(x); m.pushBack(x); }
        Array<T, N> b(a); check<N>(b, m);
        Array<T, N> c; c = a; check<N>(c, m); check<N>(a, m);
        c[0] = T(m[0] ^ 1);
        check<N>(a, m); check<N>(b, m);
        Array<T, N> &self = a; a = self; check<N>(a, m);
        Array<T, N> d(dstruct::move(b)); check<N>(d, m);
        Array<T, N> e; e = dstruct::move(d); check<N>(e, m);
        vp_reach("done"); traceSeq(m);
    }
    allGone();
}
ENTRY copies() { int k = pick("k", 4); if (k == 0) cp<int, 1>(); else if (k == 1) cp<int, 3>(); else if (k == 2) cp<Obj, 3>(); else cp<Wide, 3>(); }
static Array<int, FAR> farArray;
ENTRY far() {
    int at = farAt(), x = vp_int("x"); for (int i = 0; i < FAR; i++) farArray[i] = i;
    farArray[at] = x; const Array<int, FAR> &c = farArray; A(c.size() == FAR, "size() is N"); farWalk(c, FAR, 0, at, x);
    for (int i = 0; i < FAR; i++) IF_NOT(c[i] == farEl(i, at, x) && c[i - FAR] == c[i] && farArray[i] == c[i] && farArray[i - FAR] == c[i], "every element is at its index, counted from the front and from the back");
    vp_reach("done"); vp_trace(at);
}
