// C11: a MinStack/MaxStack is a stack that also knows its extreme element.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
//@assume pop/top/getXValue only on a non-empty stack; the comparator is a strict weak order consistent with ==
//@entry min_hist reach=pop,tie,clear :: MinStack<int>: every history of 8 (thorough: 9) push/pop/clear, every assignment of values
//@entry max_hist reach=pop,tie :: MaxStack<int>: every history of 8 (thorough: 9) push/pop
//@entry keyed reach=pop,tie :: MinStack of (key, payload) elements, equality on the key: every history of 7 (thorough: 8) push/pop
//@entry objs reach=pop :: MinStack/MaxStack of lifetime-tracked elements: every history of 6 (thorough: 8) push/pop
//@entry monotone reach=done :: 60 pushes of rising, falling, equal or saw-tooth values with one arbitrary value among them, then popped one by one
//@entry far reach=done max_instr=1000000000 :: 70000 elements, one arbitrary, in falling or rising order; top and extreme checked after every operation
template <typename S, int M> static void check(const S &s, const SeqT<M> &m, bool mx) {
    A(s.empty() == (m.n() == 0), "empty() iff nothing is left");
    if (m.n() == 0) return;
    A(V(s.top()) == m.back(), "top() is the element pushed last");
    int x = V(s.getXValue()), in = 0, ok = 1;
    for (int i = 0; i < m.n(); i++) { in |= (int)(m[i] == x); ok &= (int)(mx ? m[i] <= x : m[i] >= x); }
    A(in, "the extreme value is on the stack"); A(ok, "no element beats the extreme value");
}
template <typename T, typename S> static void run(int steps, bool mx, bool clr) {
    {
        S s; Seq m;
        for (int i = 0; i < steps; i++) {
            int op = pick("op", clr ? 3 : 2);
            if (op == 0) { int x = vp_int("x"); s.push(T(x)); m.pushBack(x); }
            else if (op == 1) { vp_assume(m.n() > 0); s.pop(); m.popBack(); vp_reach("pop"); }
            else { vp_assume(m.n() > 1); s.clear(); m.clear(); vp_reach("clear"); }
            check(s, m, mx);
        }
        if (m.n() > 1 && m[0] == m[1]) vp_reach("tie");
        while (m.n()) { s.pop(); m.popBack(); check(s, m, mx); }
        vp_trace(m.n());
    }
    allGone();
}
ENTRY min_hist() { run<int, MinStack<int, VAlloc>>(DEEP(8, 9), false, true); }
ENTRY max_hist() { run<int, MaxStack<int, VAlloc>>(DEEP(8, 9), true, false); }
ENTRY keyed() { run<KV, MinStack<KV, VAlloc>>(DEEP(7, 8), false, false); }
ENTRY objs() { if (pick("max", 2)) run<Obj, MaxStack<Obj, VAlloc>>(DEEP(6, 8), true, false); else run<Obj, MinStack<Obj, VAlloc>>(DEEP(6, 8), false, false); }
template <typename S> static void mono(bool mx) {
    {
        S s; Seq m; int pat = pick("pattern", 4); int n = 60;
        for (int i = 0; i < n; i++) {
            int x = pat == 0 ? 2 * i : pat == 1 ? 2 * (n - i) : pat == 2 ? 50 : (i & 7) * 4;
            if (i == 13) x = vp_u8("x");
            s.push(x); m.pushBack(x); check(s, m, mx);
        }
        while (m.n()) { s.pop(); m.popBack(); check(s, m, mx); }
        vp_reach("done");
    }
    allGone();
}
ENTRY monotone() { if (pick("max", 2)) mono<MaxStack<int, VAlloc>>(true); else mono<MinStack<int, VAlloc>>(false); }
ENTRY far() {
    {
    int x = vp_int("x"), up = pick("up", 2), at = pick("first", 2) ? 0 : FAR - 1; bool ok = x < 0 || x > FAR + 1; vp_assume(ok); MinStack<int, VAlloc> s;
    static int el[FAR], mn[FAR];
    for (int i = 0; i < FAR; i++) { el[i] = i == at ? x : up ? i : FAR - i; mn[i] = i && mn[i - 1] < el[i] ? mn[i - 1] : el[i]; s.push(el[i]); IF_NOT(s.top() == el[i] && s.getXValue() == mn[i], "top and extreme"); }
    for (int i = FAR - 1; i >= 0; i--) { IF_NOT(!s.empty() && s.top() == el[i] && s.getXValue() == mn[i], "top and extreme"); s.pop(); }
    A(s.empty(), "then it is empty"); s.push(7); A(s.top() == 7 && s.getXValue() == 7, "and usable again"); vp_reach("done"); vp_trace(up);
    }
    allGone();
}
