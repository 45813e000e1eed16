// C40: what a container holds depends on its own history only: not on other containers,
// not on where its storage lies, not on what fresh storage contains.
#include "zoo.hpp"
//@assume the allocator hands out disjoint blocks, 8-byte aligned from 8 bytes on; AVL tree and Map are given absent keys
//@entry vector reach=reused,adjacent :: two Vectors on one allocator: n<=4 (thorough: 6) additions to each in turn, 3 (thorough: 4) arbitrary operations on either, one destroyed, 1 more operation on the other, for 5 placements (ascending or descending without gaps, alternating, reuse of the youngest or oldest released block) and fresh storage of zeros or ones
//@entry slist reach=reused,adjacent :: two singly linked lists, same
//@entry dlist reach=reused,adjacent :: two doubly linked lists, same
//@entry deque1 reach=adjacent :: two deques of block size 1, same
//@entry deque2 reach=adjacent :: two deques of block size 2, same
//@entry deque4 reach=reused,adjacent :: two deques of block size 4 (n<=9), same
//@entry queue reach=adjacent :: two Queues, same
//@entry stack reach=reused,adjacent :: two Stacks, same
//@entry minstack reach=reused,adjacent :: two MinStacks, n<=3, 2 operations
//@entry heap reach=reused,adjacent :: two heaps, n<=3, 2 operations
//@entry string reach=reused,adjacent :: two Strings, 2 operations
//@entry bst reach=reused,adjacent :: two search trees, n<=2 (thorough: 3), 2 operations
//@entry avl reach=reused,adjacent :: two AVL trees, same
//@entry map reach=reused,adjacent :: two Maps, same
//@entry disjoint reach=adjacent :: two disjoint sets of 5
//@entry mixed reach=reused,adjacent :: a Vector, a deque (block size 2), a String and a doubly linked list growing and shrinking in turn: 3 (thorough: 4) arbitrary operations after n<=5 rounds
//@entry assigned reach=reused :: copy and move assignment between two Vectors, deques and lists of n<=5 elements on the same allocator, then one operation on each
//@entry reborn reach=reused :: each of 12 kinds of container: n<=3 (thorough: 4) additions and 1 operation, end of life, then another one at the very same address on the same allocator: n additions, 1 operation, complete contents
//@entry lent reach=grown,adjacent :: the argument of an addition is the first or last element of another Vector, deque or list on the same allocator: sizes n,k<=5 of lender and receiver, 2 (thorough: 3) such additions
//@entry alike reach=adjacent :: Vector, deque (block size 1, 2, 3), Queue, Stack, String under the placing allocator and its twin under another allocator: n<=7 additions, then every history of 4 (thorough: 6) operations at either end: equal size, capacity (where there is one) and number of blocks held at every step
#include <new>
enum { ARENA = 1 << 15 };
static unsigned char arena[ARENA] __attribute__((aligned(64)));
static int policy, fillFresh, lo, hi, turn, nFree, fOff[256], fLen[256], nLive, lastEnd, lastBeg;
struct PAlloc {
    static void *give(int off, int n) {
        A(off >= 0 && off + n <= ARENA, "arena large enough");
        if (off == lastEnd || off + n == lastBeg) vp_reach("adjacent");
        lastBeg = off; lastEnd = off + n; nLive++;
        for (int i = 0; i < n; i++) arena[off + i] = fillFresh ? 0xff : 0;
        return arena + off;
    }
    static void *allocate(int bytes) {
        int g = bytes >= 8 ? 8 : 4, n = (bytes + g - 1) / g * g;
        if (policy >= 2) for (int q = 0; q < nFree; q++) {
            int i = policy == 3 ? q : nFree - 1 - q;
            if (fLen[i] != n) continue;
            int off = fOff[i]; nFree--; for (int j = i; j < nFree; j++) { fOff[j] = fOff[j + 1]; fLen[j] = fLen[j + 1]; }
            vp_reach("reused"); return give(off, n);
        }
        bool up = policy == 0 || policy == 2 || (policy == 4 && (turn++ & 1));
        if (up) { lo = (lo + g - 1) / g * g; int off = lo; lo += n; return give(off, n); }
        hi = (hi - n) / g * g; return give(hi, n);
    }
    static void deallocate(void *p, int bytes) {
        int g = bytes >= 8 ? 8 : 4, n = (bytes + g - 1) / g * g, off = (int)((unsigned char *)p - arena);
        A(off >= 0 && off + n <= ARENA, "a released block is one of the allocator's");
        for (int i = 0; i < n; i++) arena[off + i] = fillFresh ? 0x5a : 0xa5;
        nLive--; if (nFree < 256) { fOff[nFree] = off; fLen[nFree] = n; nFree++; }
    }
};
static void place() { policy = pick("policy", 5); fillFresh = pick("fill", 2); lo = 64; hi = ARENA - 64; lastBeg = lastEnd = -1; turn = nFree = nLive = 0; }
static void allBack() { A(nLive == 0, "all blocks are released"); A(vp_live_objs() == 0, "every element is destroyed exactly once"); }
template <typename Z> static void two(int maxn, int steps) {
    typedef typename Z::C C;
    place();
    {
        C a; Z ma; int n = pick("n", maxn + 1);
        {
            C b; Z mb;
            for (int i = 0; i < n; i++) { ma.add(a); mb.add(b); }
            for (int i = 0; i < steps; i++) if (pick("side", 2)) ma.op(a, pick("op", Z::OPS)); else mb.op(b, pick("op", Z::OPS));
            ma.check(a); mb.check(b);
        }
        ma.check(a); ma.op(a, pick("op", Z::OPS)); ma.check(a); vp_trace(ma.n());
    }
    allBack();
}
ENTRY vector() { if (pick("T", 2)) two<ZVector<int, PAlloc> >(DEEP(4, 6), DEEP(2, 3)); else two<ZVector<Obj, PAlloc> >(DEEP(4, 6), DEEP(2, 3)); }
ENTRY slist() { two<ZSList<Obj, PAlloc> >(DEEP(3, 4), DEEP(2, 3)); }
ENTRY dlist() { two<ZDList<Obj, PAlloc> >(DEEP(3, 4), DEEP(2, 3)); }
ENTRY deque1() { two<ZDeque<int, 1, PAlloc> >(DEEP(4, 6), DEEP(2, 3)); }
ENTRY deque2() { two<ZDeque<int, 2, PAlloc> >(DEEP(5, 6), DEEP(2, 3)); }
ENTRY deque4() { two<ZDeque<Obj, 4, PAlloc> >(9, DEEP(2, 3)); }
ENTRY queue() { two<ZQueue<int, PAlloc> >(DEEP(4, 6), DEEP(3, 4)); }
ENTRY stack() { two<ZStack<Obj, PAlloc> >(DEEP(4, 6), DEEP(3, 4)); }
ENTRY minstack() { two<ZMinStack<int, PAlloc> >(DEEP(2, 3), DEEP(1, 2)); }
ENTRY heap() { two<ZHeap<KV, PAlloc> >(DEEP(2, 3), DEEP(1, 2)); }
ENTRY string() { two<ZString<PAlloc> >(2, DEEP(2, 3)); }
ENTRY bst() { two<ZBST<int, PAlloc> >(DEEP(2, 3), DEEP(1, 1)); }
ENTRY avl() { two<ZAVL<int, PAlloc> >(DEEP(2, 3), DEEP(1, 1)); }
ENTRY map() { two<ZMap<int, PAlloc> >(DEEP(2, 3), DEEP(1, 1)); }
ENTRY disjoint() { two<ZUF<PAlloc> >(DEEP(3, 4), DEEP(2, 3)); }
ENTRY mixed() {
    place();
    {
        typedef ZVector<int, PAlloc> ZV; typedef ZDeque<int, 2, PAlloc> ZD; typedef ZString<PAlloc> ZS; typedef ZDList<int, PAlloc> ZL;
        ZV::C v; ZV mv; ZD::C d; ZD md; ZS::C s; ZS ms; ZL::C l; ZL ml;
        int n = pick("n", 6);
        for (int i = 0; i < n; i++) { mv.add(v); md.add(d); ms.add(s); ml.add(l); if (i & 1) { mv.add(v); md.op(d, 3); } }
        for (int i = 0; i < DEEP(3, 4); i++) switch (pick("op", 8)) {
            case 0: mv.op(v, 0); break;
            case 1: mv.op(v, 1); break;
            case 2: md.op(d, 0); break;
            case 3: md.op(d, 1); break;
            case 4: ms.op(s, 0); break;
            case 5: ms.op(s, 2); break;
            case 6: ml.op(l, 0); break;
            default: ml.op(l, 1);
        }
        mv.check(v); md.check(d); ms.check(s); ml.check(l); vp_trace(mv.n());
    }
    allBack();
}
template <typename Z> static void assign() {
    typedef typename Z::C C;
    {
        C a, b; Z ma, mb; int n = pick("n", 6), k = pick("k", 4);
        for (int i = 0; i < n; i++) ma.add(a);
        for (int i = 0; i < k; i++) mb.add(b);
        int how = pick("how", 4);
        if (how == 0) { b = a; mb = ma; }
        else if (how == 1) { b = dstruct::move(a); mb = ma; ma.forget(); }
        else if (how == 2) { dstruct::swap(a, b); Z t = ma; ma = mb; mb = t; }
        else { a.clear(); ma.forget(); for (int i = 0; i < 3; i++) mb.add(b); b = a; mb = ma; }
        ma.check(a); mb.check(b); ma.op(a, pick("op", Z::OPS)); mb.op(b, pick("op", Z::OPS)); ma.check(a); mb.check(b); vp_trace(mb.n());
    }
}
ENTRY assigned() {
    place();
    switch (pick("kind", 4)) {
        case 0: assign<ZVector<Obj, PAlloc> >(); break;
        case 1: assign<ZDeque<Obj, 2, PAlloc> >(); break;
        case 2: assign<ZDList<Obj, PAlloc> >(); break;
        default: assign<ZSList<int, PAlloc> >();
    }
    allBack();
}

template <typename Z> static void again(int maxn) {
    typedef typename Z::C C; static char room[sizeof(C)] __attribute__((aligned(16)));
    place();
    int n = pick("n", maxn + 1);
    for (int life = 0; life < 2; life++) {
        C *c = new (room) C; Z m; m.check(*c);
        int k = life ? maxn - n : n; for (int i = 0; i < k; i++) m.add(*c);
        m.op(*c, pick("op", Z::OPS)); m.check(*c); vp_trace(m.n());
        c->~C();
    }
    allBack();
}
ENTRY reborn() {
    switch (pick("kind", 12)) {
        case 0: again<ZVector<Obj, PAlloc> >(DEEP(3, 4)); break;
        case 1: again<ZSList<Obj, PAlloc> >(DEEP(3, 4)); break;
        case 2: again<ZDList<Obj, PAlloc> >(DEEP(3, 4)); break;
        case 3: again<ZDeque<int, 2, PAlloc> >(DEEP(3, 4)); break;
        case 4: again<ZQueue<int, PAlloc> >(DEEP(3, 4)); break;
        case 5: again<ZStack<int, PAlloc> >(DEEP(3, 4)); break;
        case 6: again<ZMinStack<int, PAlloc> >(DEEP(2, 3)); break;
        case 7: again<ZHeap<KV, PAlloc> >(DEEP(2, 3)); break;
        case 8: again<ZString<PAlloc> >(DEEP(2, 3)); break;
        case 9: again<ZBST<int, PAlloc> >(DEEP(2, 3)); break;
        case 10: again<ZAVL<int, PAlloc> >(DEEP(2, 3)); break;
        default: again<ZMap<int, PAlloc> >(DEEP(2, 3));
    }
}
template <typename Z, typename F> static void lend(F put) {
    typedef typename Z::C C;
    place();
    {
        int early = pick("early", 2); // which of the two takes storage first
        C a; Z ma; C b; Z mb; int n = 1 + pick("n", 5), k = pick("k", 6);
        if (early) for (int i = 0; i < n; i++) ma.add(a);
        for (int i = 0; i < k; i++) mb.add(b);
        if (!early) for (int i = 0; i < n; i++) ma.add(a);
        for (int i = 0; i < DEEP(2, 3); i++) { int w = pick("which", 2) ? ma.n() - 1 : 0; put(b, a, w); mb.m.pushBack(ma.m[w]); }
        vp_reach("grown"); ma.check(a); mb.check(b); vp_trace(mb.n());
    }
    allBack();
}
template <typename C> static const typename C::ValueType &nth(const C &c, int i) { auto it = c.begin(); while (i--) ++it; return *it; }
struct PutBack { template <typename C> void operator()(C &b, const C &a, int w) const { b.push_back(nth(a, w)); } };
struct PutFill { template <typename C> void operator()(C &b, const C &a, int w) const { b.resize(b.size() + 1, a[w]); } };
ENTRY lent() {
    switch (pick("kind", 6)) {
        case 0: lend<ZVector<int, PAlloc> >(PutBack()); break;
        case 1: lend<ZVector<Obj, PAlloc> >(PutBack()); break;
        case 2: lend<ZVector<Obj, PAlloc> >(PutFill()); break;
        case 3: lend<ZDeque<Obj, 2, PAlloc> >(PutBack()); break;
        case 4: lend<ZSList<Obj, PAlloc> >(PutBack()); break;
        default: lend<ZDList<Obj, PAlloc> >(PutBack());
    }
}

template <typename C> struct Op2 { enum { N = 2 }; static void op(C &c, int k, int x) { if (k == 0) c.push(x); else c.pop(); } };
template <typename AL, dstruct::size_t N_> struct Op2<DoubleEndedQueue<int, N_, AL> > { enum { N = 4 }; static void op(DoubleEndedQueue<int, N_, AL> &c, int k, int x) { if (k == 0) c.push_back(x); else if (k == 1) c.pop_front(); else if (k == 2) c.push_front(x); else c.pop_back(); } };
template <typename AL> struct Op2<BasicString<char, AL> > { enum { N = 2 }; static void op(BasicString<char, AL> &c, int k, int x) { if (k == 0) c.push_back((char)x); else c.clear(); } };
template <typename C> static unsigned long long cap(const C &c) { return c.capacity(); }
template <typename A_> static unsigned long long cap(const Queue<int, A_> &) { return 0; }
template <typename A_> static unsigned long long cap(const Stack<int, A_> &) { return 0; }
template <typename P, typename V> static void alike1(int maxn, bool canEmpty) {
    place();
    {
        P p; V v; int n = pick("n", maxn + 1), left = 0;
        for (int i = 0; i < n + DEEP(4, 6); i++) {
            int k = i < n ? 0 : pick("op", Op2<P>::N);
            if (k & 1) { if (!canEmpty) vp_assume(left > 0); left--; } else left++;
            Op2<P>::op(p, k, 40 + i); Op2<V>::op(v, k, 40 + i);
            A(p.size() == v.size(), "the size does not depend on the allocator"); A(cap(p) == cap(v), "the capacity does not depend on where storage lies");
            A(nLive == vp_live_blocks(), "the number of blocks held does not depend on where they lie");
        }
        vp_trace((int)cap(p));
    }
    allBack();
}
ENTRY alike() {
    switch (pick("kind", 7)) {
        case 0: alike1<Vector<int, PAlloc>, Vector<int, VAlloc> >(9, false); break;
        case 1: alike1<DoubleEndedQueue<int, 1, PAlloc>, DoubleEndedQueue<int, 1, VAlloc> >(7, false); break;
        case 2: alike1<DoubleEndedQueue<int, 2, PAlloc>, DoubleEndedQueue<int, 2, VAlloc> >(7, false); break;
        case 3: alike1<DoubleEndedQueue<int, 3, PAlloc>, DoubleEndedQueue<int, 3, VAlloc> >(9, false); break;
        case 4: alike1<Queue<int, PAlloc>, Queue<int, VAlloc> >(3, false); break;
        case 5: alike1<Stack<int, PAlloc>, Stack<int, VAlloc> >(9, false); break;
        default: alike1<BasicString<char, PAlloc>, BasicString<char, VAlloc> >(17, true);
    }
}
