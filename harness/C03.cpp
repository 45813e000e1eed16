// C03: a double-ended queue is the sequence its operations describe.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
//@assume pop/front/back only on a non-empty deque; index within -size..size-1
//@entry hist2 reach=popback,popfront,clear :: block size 2: every history of 8 (thorough: 10) push_back/push_front/pop_back/pop_front/clear, all values
//@entry hist1 reach=popback,popfront :: block size 1: every history of 8 (thorough: 10) operations
//@entry hist3_obj reach=popback,popfront :: block size 3, lifetime-tracked elements: every history of 8 (thorough: 10) operations
//@entry prefix reach=popback,popfront,shrunk :: block size 2: push_back a<=7, push_front b<=7, pop_front c, pop_back d, then 3 (thorough: 4) arbitrary operations
//@entry phased32 reach=long,shrunk :: default block size 32: push_back a, push_front b, pop_front c, pop_back d with a+b<=220 in steps of 1, 7 and 31, then one more of each push
//@entry steady reach=wrapped :: block sizes 1..4: keep 0..5 elements while pushing on one side and popping on the other, 60 (thorough: 200) rounds, either direction, then drain
//@entry zigzag reach=done :: block sizes 1..4: bursts of pushes and pops of arbitrary length <=6 on arbitrary sides, 4 (thorough: 5) bursts
//@entry far reach=done max_instr=1000000000 :: 70000 elements, one arbitrary, pushed at the back, or the lower half at the front, and popped at either end; checked after every operation (32 and 256 per block)
template <int N> using D = Deque<int, N, VAlloc>;
template <typename C, int M> static void check(const C &d, const SeqT<M> &m) {
    sameSize(d, m); sameIter(d, m); sameEnds(d, m);
    A(d.capacity() >= d.size(), "capacity() >= size()");
}
template <typename T, typename C, int M> static void oneOp(C &d, SeqT<M> &m, int ops) {
    int op = pick("op", ops);
    if (op == 0) { int x = vp_int("x"); d.push_back(T(x)); m.pushBack(x); }
    else if (op == 1) { int x = vp_int("x"); d.push_front(T(x)); m.pushFront(x); }
    else if (op == 2) { vp_assume(m.n() > 0); d.pop_back(); m.popBack(); vp_reach("popback"); }
    else if (op == 3) { vp_assume(m.n() > 0); d.pop_front(); m.popFront(); vp_reach("popfront"); }
    else { vp_assume(m.n() > 0); d.clear(); m.clear(); vp_reach("clear"); }
}
template <typename T, int N> static void hist(int steps, int ops) {
    {
        Deque<T, N, VAlloc> d; Seq m;
        check(d, m);
        for (int i = 0; i < steps; i++) { oneOp<T>(d, m, ops); sameSize(d, m); sameEnds(d, m); }
        check(d, m); sameIndex(d, m); traceSeq(m);
    }
    allGone();
}
ENTRY hist2() { hist<int, 2>(DEEP(8, 10), 5); }
ENTRY hist1() { hist<int, 1>(DEEP(8, 10), 4); }
ENTRY hist3_obj() { hist<Obj, 3>(DEEP(8, 10), 4); }
ENTRY prefix() {
    {
        D<2> d; Seq m;
        int k = 0, s = vp_int("s");
        int a = pick("a", 8), b = pick("b", 8);
        for (int i = 0; i < a; i++) { d.push_back(s ^ k); m.pushBack(s ^ k); k++; }
        for (int i = 0; i < b; i++) { d.push_front(s ^ k); m.pushFront(s ^ k); k++; }
        int n = m.n();
        int c = pick("c", n + 1); int e = pick("e", n - c + 1);
        auto cap = d.capacity();
        for (int i = 0; i < c; i++) { d.pop_front(); m.popFront(); sameSize(d, m); sameEnds(d, m); }
        for (int i = 0; i < e; i++) { d.pop_back(); m.popBack(); sameSize(d, m); sameEnds(d, m); }
        if (d.capacity() < cap) vp_reach("shrunk");
        for (int i = 0; i < DEEP(3, 4); i++) { oneOp<int>(d, m, 4); sameEnds(d, m); }
        check(d, m); traceSeq(m);
    }
    allGone();
}
ENTRY phased32() {
    {
        D<32> d; LongSeq m;
        int s = vp_int("s");
        int st = pick("step", 3); st = st == 0 ? 1 : st == 1 ? 7 : 31;
        int ma = st == 1 ? 66 : st == 7 ? 20 : 7;
        int a = pick("a", ma) * st;
        int b = pick("b", st == 1 ? 3 : 5) * st;
        for (int i = 0; i < a; i++) { d.push_back(s ^ i); m.pushBack(s ^ i); }
        for (int i = 0; i < b; i++) { d.push_front(s ^ (i & 1)); m.pushFront(s ^ (i & 1)); }
        check(d, m);
        int n = m.n();
        if (n > 100) vp_reach("long");
        int c = pick("c", n / (3 * st) + 2) * 3 * st; if (c > n) c = n;
        auto cap = d.capacity();
        for (int i = 0; i < c; i++) { d.pop_front(); m.popFront(); }
        n = m.n();
        int e = pick("e", 4); e = e == 0 ? 0 : e == 1 ? 1 : e == 2 ? n / 2 : n; if (e > n) e = n;
        for (int i = 0; i < e; i++) { d.pop_back(); m.popBack(); }
        if (d.capacity() < cap) vp_reach("shrunk");
        check(d, m);
        int x = vp_int("x"); d.push_back(x); m.pushBack(x); int y = vp_int("y"); d.push_front(y); m.pushFront(y);
        check(d, m); traceSeq(m);
    }
    allGone();
}
template <int N> static void steadyN() {
    {
        D<N> d; LongSeq m;
        int s = vp_int("s"); int keep = pick("keep", 6); int dir = pick("dir", 2);
        int rounds = DEEP(60, 200);
        for (int i = 0; i < keep; i++) { d.push_back(s ^ i); m.pushBack(s ^ i); }
        for (int i = 0; i < rounds; i++) {
            if (dir) { d.push_back(s ^ (i & 3)); m.pushBack(s ^ (i & 3)); sameEnds(d, m); d.pop_front(); m.popFront(); }
            else { d.push_front(s ^ i); m.pushFront(s ^ i); sameEnds(d, m); d.pop_back(); m.popBack(); }
            sameSize(d, m); sameEnds(d, m);
        }
        check(d, m); vp_reach("wrapped");
        while (m.n()) { d.pop(); m.popFront(); sameEnds(d, m); }
        sameSize(d, m); A(!(d.begin() != d.end()), "an emptied deque iterates over nothing");
        d.push(s); A(d.back() == s && d.front() == s, "usable after being drained");
        traceSeq(m);
    }
    allGone();
}
ENTRY steady() { int k = pick("N", 4); if (k == 0) steadyN<1>(); else if (k == 1) steadyN<2>(); else if (k == 2) steadyN<3>(); else steadyN<4>(); }
template <int N> static void zigzagN() {
    {
        D<N> d; Seq m;
        int s = vp_int("s"), t = 0;
        for (int i = 0; i < DEEP(4, 5); i++) {
            int k = pick("k", 7); int back = pick("back", 2);
            if (i & 1) { if (k > m.n()) k = m.n(); while (k--) { if (back) { d.pop_back(); m.popBack(); } else { d.pop_front(); m.popFront(); } } }
            else while (k--) { t++; if (back) { d.push_back(s ^ t); m.pushBack(s ^ t); } else { d.push_front(s ^ t); m.pushFront(s ^ t); } }
        }
        check(d, m); vp_reach("done"); traceSeq(m);
    }
    allGone();
}
ENTRY zigzag() { int k = pick("N", DEEP(2, 4)); if (k == 0) zigzagN<2>(); else if (k == 1) zigzagN<3>(); else if (k == 2) zigzagN<1>(); else zigzagN<4>(); }
template <dstruct::size_t N> static void farDeque() {
    typedef DoubleEndedQueue<int, N, VAlloc> C; int at = farAt(), x = vp_int("x"), way = pick("way", 3); C c;
    if (way < 2) farFill(c, at, x, [](C &v, int y) { v.push_back(y); }, [way](C &v) { return way ? v.front() : v.back(); }, [way](C &v) { if (way) v.pop_front(); else v.pop_back(); }, way == 1);
    else {
        for (int i = 0; i < FAR / 2; i++) { c.push_front(farEl(FAR / 2 - 1 - i, at, x)); c.push_back(farEl(FAR / 2 + i, at, x)); IF_NOT((int)c.size() == 2 * i + 2 && c.front() == farEl(FAR / 2 - 1 - i, at, x) && c.back() == farEl(FAR / 2 + i, at, x), "the ends"); }
        farWalk(c, FAR, 0, at, x);
        for (int i = 0; i < FAR / 2; i++) { IF_NOT(c.front() == farEl(i, at, x) && c.back() == farEl(FAR - 1 - i, at, x), "the ends"); c.pop_front(); c.pop_back(); IF_NOT((int)c.size() == FAR - 2 * i - 2, "size() counts the elements"); }
        A(c.empty(), "then it is empty"); c.push_front(x); A(c.back() == x, "and usable again");
    }
    vp_reach("done"); vp_trace(at);
}
ENTRY far() { if (pick("block", 2)) farDeque<32>(); else farDeque<256>(); allGone(); }
