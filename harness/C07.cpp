// C07: a doubly linked list is the sequence its operations describe, from either end.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
//@assume pop/front/back only on a non-empty list
//@entry hist_int reach=pop,popback,clear :: every history of 7 (thorough: 8) push/push_front/push_back/pop/pop_front/pop_back/clear, all values, walked forwards and backwards after every step
//@entry hist_obj reach=pop,popback,clear :: the same for lifetime-tracked elements, 6 (thorough: 8) operations
//@entry filled reach=ctor :: list(n, x), n <= 12, then 3 (thorough: 5) operations
//@entry far reach=done max_instr=1000000000 :: 70000 elements, one arbitrary, added at the back and taken from either end; checked after every operation
template <typename C> static void check(const C &l, const Seq &m) {
    sameSize(l, m); sameEnds(l, m); sameIter(l, m);
    int k = m.n();
    auto it = l.end();
    for (int i = 0; i < m.n(); i++) { if (i & 1) it--; else --it; k--; A(V(*it) == m[k], "backward iteration yields the elements in reverse"); }
    A(it == l.begin(), "backward iteration ends at begin()");
}
template <typename T, typename L> static void run(L &l, Seq &m, int steps) {
    check(l, m);
    for (int i = 0; i < steps; i++) {
        int op = pick("op", 7);
        if (op <= 2) {
            int x = vp_int("x");
            if (op == 0) { l.push(T(x)); m.pushFront(x); } else if (op == 1) { l.push_front(T(x)); m.pushFront(x); } else { l.push_back(T(x)); m.pushBack(x); }
        } else {
            vp_assume(m.n() > 0);
            if (op == 3) { l.pop(); m.popFront(); vp_reach("pop"); }
            else if (op == 4) { l.pop_front(); m.popFront(); }
            else if (op == 5) { l.pop_back(); m.popBack(); vp_reach("popback"); }
            else { l.clear(); m.clear(); vp_reach("clear"); }
        }
        check(l, m);
    }
    L &ref = l; int k = 0;
    for (auto it = ref.begin(); it != ref.end(); it++) { A(k < m.n() && V(*it) == m[k], "mutable iteration agrees"); k++; }
    A(k == m.n(), "mutable iteration is complete");
    traceSeq(m);
}
ENTRY hist_int() { { DLinkedList<int, VAlloc> l; Seq m; run<int>(l, m, DEEP(7, 8)); } allGone(); }
ENTRY hist_obj() { { DLinkedList<Obj, VAlloc> l; Seq m; run<Obj>(l, m, DEEP(6, 8)); } allGone(); }
ENTRY filled() {
    {
        int n = pick("n", 13); int x = vp_int("x");
        DLinkedList<Obj, VAlloc> l(n, Obj(x)); Seq m;
        for (int i = 0; i < n; i++) m.pushBack(x);
        vp_reach("ctor"); run<Obj>(l, m, DEEP(3, 5));
    }
    allGone();
}
ENTRY far() {
    {
    typedef DoublyLinkedList<int, VAlloc> C; int at = farAt(), x = vp_int("x"), f = pick("front", 2); C c;
    farFill(c, at, x, [](C &v, int y) { v.push_back(y); }, [f](C &v) { return f ? v.front() : v.back(); }, [f](C &v) { if (f) v.pop_front(); else v.pop_back(); }, f == 1);
    vp_reach("done"); vp_trace(at);
    }
    allGone();
}
