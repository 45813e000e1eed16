// C06: a singly linked list is the sequence its operations describe.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
//@assume pop/front/back only on a non-empty list
//@entry hist_int reach=pop,popback,clear :: every history of 7 (thorough: 8) push/push_front/push_back/pop/pop_front/_pop_back/clear, all values
//@entry hist_obj reach=pop,popback,clear :: the same for lifetime-tracked elements, 6 (thorough: 8) operations
//@entry filled reach=ctor :: list(n, x), n <= 12, then 3 (thorough: 5) operations
//@entry far reach=done max_instr=1000000000 :: 70000 elements, one arbitrary, added at the back and taken from the front; checked after every operation
template <typename C> static void check(const C &l, const Seq &m) { sameSize(l, m); sameEnds(l, m); sameIter(l, m); }
template <typename T, typename L> static void run(L &l, Seq &m, int steps) {
    check(l, m);
    for (int i = 0; i < steps; i++) {
        int op = pick("op", 7);
        if (op <= 2) {
            int x = vp_int("x");
            if (op == 0) { l.push(T(x)); m.pushFront(x); } else if (op == 1) { l.push_front(T(x)); m.pushFront(x); } else { l.push_back(T(x)); m.pushBack(x); }
        } else {
            vp_assume(m.n() > 0);
            if (op == 3) { l.pop(); m.popFront(); vp_reach("pop"); }
            else if (op == 4) { l.pop_front(); m.popFront(); }
            else if (op == 5) { l._pop_back(); m.popBack(); vp_reach("popback"); }
            else { l.clear(); m.clear(); vp_reach("clear"); }
        }
        check(l, m);
    }
    L &ref = l; int k = 0;
    for (auto it = ref.begin(); it != ref.end(); ++it) { A(k < m.n() && V(*it) == m[k], "mutable iteration agrees"); k++; }
    A(k == m.n(), "mutable iteration is complete");
    traceSeq(m);
}
ENTRY hist_int() { { SLinkedList<int, VAlloc> l; Seq m; run<int>(l, m, DEEP(7, 8)); } allGone(); }
ENTRY hist_obj() { { SLinkedList<Obj, VAlloc> l; Seq m; run<Obj>(l, m, DEEP(6, 8)); } allGone(); }
ENTRY filled() {
    {
        int n = pick("n", 13); int x = vp_int("x");
        SLinkedList<Obj, VAlloc> l(n, Obj(x)); Seq m;
        for (int i = 0; i < n; i++) m.pushBack(x);
        vp_reach("ctor"); run<Obj>(l, m, DEEP(3, 5));
    }
    allGone();
}
ENTRY far() {
    {
    typedef SinglyLinkedList<int, VAlloc> C; int at = farAt(), x = vp_int("x"); C c;
    farFill(c, at, x, [](C &v, int y) { v.push_back(y); }, [](C &v) { return v.front(); }, [](C &v) { v.pop_front(); }, true);
    vp_reach("done"); vp_trace(at);
    }
    allGone();
}
