// C05: a stack hands elements out in reverse order of insertion.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
//@assume pop/top only on a non-empty stack
//@entry hist_int reach=pop,clear :: Stack: every history of 12 (thorough: 15) push/pop/clear, all values
//@entry hist_obj reach=pop,clear :: the same, lifetime-tracked elements, 11 (thorough: 14) operations
//@entry hist_other reach=pop :: Stack over a deque (block size 2) and over a doubly linked list: every history of 10 (thorough: 12) push/pop
//@entry phased reach=long :: push p<=100, pop q<=p, push r<=3, pop all
//@entry far reach=done max_instr=1000000000 :: 70000 elements, one arbitrary, put in and taken out; checked after every operation
template <typename C, int M> static void check(const C &s, const SeqT<M> &m) {
    sameSize(s, m);
    if (m.n()) A(V(s.top()) == m.back(), "top() is the element pushed last");
}
template <typename T, typename S> static void run(S &s, Seq &m, int steps) {
    check(s, m);
    for (int i = 0; i < steps; i++) {
        if (pick("op", 2)) { vp_assume(m.n() > 0); s.pop(); m.popBack(); vp_reach("pop"); }
        else { int x = vp_int("x"); s.push(T(x)); m.pushBack(x); }
        check(s, m);
    }
    sameIter(s, m);
    traceSeq(m);
}
template <typename T> static void runClear(int steps) {
    {
        Stack<T, VAlloc> s; Seq m;
        check(s, m);
        for (int i = 0; i < steps; i++) {
            int op = pick("op", 3);
            if (op == 0) { int x = vp_int("x"); s.push(T(x)); m.pushBack(x); }
            else if (op == 1) { vp_assume(m.n() > 0); s.pop(); m.popBack(); vp_reach("pop"); }
            else { vp_assume(m.n() > 1); s.clear(); m.clear(); vp_reach("clear"); }
            check(s, m);
        }
        sameIter(s, m);
        while (m.n()) { check(s, m); s.pop(); m.popBack(); }
        check(s, m);
    }
    allGone();
}
ENTRY hist_int() { runClear<int>(DEEP(12, 15)); }
ENTRY hist_obj() { runClear<Obj>(DEEP(11, 14)); }
ENTRY hist_other() {
    if (pick("ds", 2)) { adapter::Stack<Obj, Deque<Obj, 2, VAlloc>> s; Seq m; run<Obj>(s, m, DEEP(10, 12)); }
    else { adapter::Stack<int, DLinkedList<int, VAlloc>> s; Seq m; run<int>(s, m, DEEP(10, 12)); }
    allGone();
}
ENTRY phased() {
    {
        Stack<Wide, VAlloc> s; LongSeq m;
        int a = vp_int("a"); int p = pick("p", 101);
        for (int i = 0; i < p; i++) { s.push(Wide(a ^ i)); m.pushBack(a ^ i); }
        check(s, m);
        int q = pick("q", p + 1);
        for (int i = 0; i < q; i++) { s.pop(); m.popBack(); check(s, m); }
        int r = pick("r", 4);
        for (int i = 0; i < r; i++) { s.push(Wide(a ^ (i << 8))); m.pushBack(a ^ (i << 8)); check(s, m); }
        if (p > 40) vp_reach("long");
        traceSeq(m);
        while (m.n()) { check(s, m); s.pop(); m.popBack(); }
        check(s, m);
    }
    allGone();
}
ENTRY far() {
    {
    typedef Stack<int, VAlloc> C; int at = farAt(), x = vp_int("x"); C c;
    farFill(c, at, x, [](C &v, int y) { v.push(y); }, [](C &v) { return v.top(); }, [](C &v) { v.pop(); }, false);
    vp_reach("done"); vp_trace(at);
    }
    allGone();
}
