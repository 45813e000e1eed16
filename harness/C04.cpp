// C04: a queue hands elements out in the order they were put in.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
//@assume pop/front/back only on a non-empty queue; index within 0..size-1
//@entry hist reach=pop,wrap :: Queue (block size 32 deque): every history of 12 (thorough: 15) push/pop, all values, starting from a queue that already saw 0, 31, 32, 33 or 64 pushes and as many pops
//@entry hist_small reach=pop,wrap :: Queue over a deque of block size 1 and 2, every history of 11 (thorough: 14) push/pop, lifetime-tracked elements
//@entry hist_list reach=pop,wrap :: Queue over a doubly and over a singly linked list, every history of 10 (thorough: 13) push/pop
//@entry bursts reach=long :: push p<=120, pop q, push r<=40, pop s, push 1: every p in steps of 1 below 40 then of 9, q in {0,1,p/2,p-1,p}, r in {0,1,31,32,33,40}, s likewise
//@entry stream reach=done :: steady state: keep 0..40 elements (steps of 1 below 5, then 33, 40) while 150 (thorough: 600) elements stream through
//@entry far reach=done max_instr=1000000000 :: 70000 elements, one arbitrary, put in and taken out; checked after every operation
template <typename C, int M> static void check(const C &q, const SeqT<M> &m) { sameSize(q, m); sameIter(q, m); sameEnds(q, m); }
template <typename Q> static void index(Q &q, const Seq &m) { for (int i = 0; i < m.n(); i++) A(V(q[i]) == m[i], "operator[](i) is the i-th oldest element"); }
template <typename T, typename Q> static void run(Q &q, Seq &m, int steps) {
    for (int i = 0; i < steps; i++) {
        if (pick("op", 2)) { vp_assume(m.n() > 0); if (i >= 4) vp_reach("wrap"); q.pop(); m.popFront(); vp_reach("pop"); }
        else { int x = vp_int("x"); q.push(T(x)); m.pushBack(x); }
        sameSize(q, m); sameEnds(q, m);
    }
    check(q, m); traceSeq(m);
}
ENTRY hist() {
    {
        Queue<int, VAlloc> q; Seq m;
        int k = pick("before", 5); k = k == 0 ? 0 : k == 1 ? 31 : k == 2 ? 32 : k == 3 ? 33 : 64;
        int s = vp_int("s");
        for (int i = 0; i < k; i++) q.push(s ^ i);
        for (int i = 0; i < k; i++) { A(q.front() == (s ^ i), "FIFO"); q.pop(); }
        run<int>(q, m, DEEP(12, 15)); index(q, m);
    }
    allGone();
}
template <typename T, int N> static void smallQ() {
    { adapter::Queue<T, Deque<T, N, VAlloc>> q; Seq m; run<T>(q, m, DEEP(11, 14)); index(q, m); }
    allGone();
}
ENTRY hist_small() { if (pick("N", 2)) smallQ<Obj, 1>(); else smallQ<Obj, 2>(); }
ENTRY hist_list() {
    if (pick("list", 2)) { adapter::Queue<int, DLinkedList<int, VAlloc>> q; Seq m; run<int>(q, m, DEEP(10, 13)); }
    else { adapter::Queue<int, SLinkedList<int, VAlloc>> q; Seq m; run<int>(q, m, DEEP(10, 13)); }
    allGone();
}
static int some(const char *n, int p) { int k = pick(n, 5); return k == 0 ? 0 : k == 1 ? (p > 0) : k == 2 ? p / 2 : k == 3 ? (p ? p - 1 : 0) : p; }
ENTRY bursts() {
    {
        Queue<int, VAlloc> q; LongSeq m;
        int s = vp_int("s"), t = 0;
        int p = pick("p", 49); if (p > 40) p = 40 + (p - 40) * 10;
        for (int i = 0; i < p; i++) { t++; q.push(s ^ t); m.pushBack(s ^ t); sameEnds(q, m); }
        int k = some("q", p);
        for (int i = 0; i < k; i++) { q.pop(); m.popFront(); sameEnds(q, m); }
        if (k > 32) vp_reach("long");
        int r = pick("r", 6); r = r == 0 ? 0 : r == 1 ? 1 : r == 2 ? 31 : r == 3 ? 32 : r == 4 ? 33 : 40;
        for (int i = 0; i < r; i++) { t++; q.push(s ^ t); m.pushBack(s ^ t); sameEnds(q, m); }
        check(q, m);
        k = some("s", m.n());
        for (int i = 0; i < k; i++) { q.pop(); m.popFront(); sameEnds(q, m); }
        check(q, m);
        q.push(s); m.pushBack(s); check(q, m); traceSeq(m);
    }
    allGone();
}
ENTRY stream() {
    {
        Queue<int, VAlloc> q; LongSeq m;
        int s = vp_int("s"), t = 0;
        int k = pick("keep", 7); k = k < 5 ? k : k == 5 ? 33 : 40;
        for (int i = 0; i < k; i++) { t++; q.push(s ^ t); m.pushBack(s ^ t); }
        for (int i = 0; i < DEEP(150, 400); i++) {
            t++; q.push(s ^ t); m.pushBack(s ^ t); sameEnds(q, m);
            q.pop(); m.popFront(); sameEnds(q, m); sameSize(q, m);
        }
        check(q, m); vp_reach("done"); traceSeq(m);
    }
    allGone();
}
ENTRY far() {
    {
    typedef Queue<int, VAlloc> C; int at = farAt(), x = vp_int("x"); C c;
    farFill(c, at, x, [](C &v, int y) { v.push(y); }, [](C &v) { return v.front(); }, [](C &v) { v.pop(); }, true);
    vp_reach("done"); vp_trace(at);
    }
    allGone();
}
