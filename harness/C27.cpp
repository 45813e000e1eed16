// C27: the containers work on static memory: with StaticMemAllocator as their allocator, as
// dstruct::smemory, or with ENABLE_SMA, they behave as on the heap and give all of it back.
//@flags -DENABLE_SMA
//@native -O0
//@assume memory below address 4096 is not accessible, so that an access there stops the program
#include "zoo.hpp"
#include <dstruct-static.hpp>
//@assume the pool is large enough for what the containers hold; pop/write only on a non-empty container; AVL tree and Map are given absent keys
//@entry given reach=done :: 12 containers on an own 4096-byte pool: every history of 4 (thorough: 5; ordered containers 2, thorough: 3) operations with arbitrary values, then a second container on the same pool, 2 further operations, both checked against the reference; at the end the pool is whole
//@entry deflt reach=done :: same with the default allocator under ENABLE_SMA (1 MB pool): every history of 2 (thorough: 4; ordered containers 1, thorough: 2) operations
//@entry shipped reach=done,used :: the aliases of dstruct::smemory on their shared 10 KB pool: every history of 2..4 (thorough: 3..5) operations on each of two different containers, interleaved
//@entry churn reach=done :: 300 interleaved pushes and pops of three containers (Vector, list, deque) on one 4096-byte pool: contents right, pool whole at the end
//@entry adjacent reach=done :: deque (block size 2; its blocks lie next to each other, in a fresh or a prepared pool): every history of 7 (thorough: 9) pushes and pops at either end with arbitrary values
//@entry port reach=merged :: port::allocate under ENABLE_SMA: after the pool was split in up to 5 (thorough: 6) pieces released in any order, requests of 4, half, nearly all and all of it are served; every request of 1..256 and of 1 MB - 255..1 MB for up to 2 pieces
//@entry refused reach=stopped :: ENABLE_SMA: port::allocate of every size that is not positive or exceeds the free memory, release of nullptr or of a non-positive size, pop or any index behind the end of a Vector: each stops the program
//@entry dry reach=stopped :: Vector, list, deque, search tree, String with arbitrary values (tree: fixed) filled until a 256-byte pool refuses: contents right after every push, then the program stops
//@entry reuse reach=done :: containers created and destroyed 12 times in 6 kinds on a pool of 2048 bytes: no memory is lost between generations
template <typename SMA> static void whole(int total) {
    A(SMA::free_mem_size() == total, "all static memory is given back"); SMA::dump();
}
template <typename Z, typename SMA> static void on(int total, int steps) {
    typedef typename Z::C C;
    {
        C a; Z m;
        for (int i = 0; i < steps; i++) m.op(a, pick("op", Z::OPS));
        m.check(a);
        {
            C b; Z mb; mb.add(b); m.add(a); mb.add(b); m.check(a); mb.check(b);
            if (pick("how", 2)) { b = a; m.check(b); } else { C c(dstruct::move(b)); mb.check(c); }
        }
        m.check(a); m.add(a); m.check(a);
        A(SMA::free_mem_size() <= total, "free memory never exceeds the pool"); vp_trace(m.n());
        if (total < 1024 * 1024) A(port::DefaultSMA::free_mem_size() == 1024 * 1024, "no memory but the given pool is used");
    }
    whole<SMA>(total); A(vp_mallocs() == 0, "no heap memory is used");
}
template <typename D> static void each(int total, int steps, int small) {
    typedef D SM;
    int k = pick("container", 12);
    if (k == 0) on<ZVector<int, D>, SM>(total, steps); else if (k == 1) on<ZSList<Byte, D>, SM>(total, steps); else if (k == 2) on<ZDList<Wide, D>, SM>(total, steps);
    else if (k == 3) on<ZDeque<int, 2, D>, SM>(total, steps); else if (k == 4) on<ZQueue<Byte, D>, SM>(total, steps); else if (k == 5) on<ZStack<Wide, D>, SM>(total, steps);
    else if (k == 6) on<ZMinStack<int, D>, SM>(total, small); else if (k == 7) on<ZString<D>, SM>(total, steps); else if (k == 8) on<ZHeap<KV, D>, SM>(total, small);
    else if (k == 9) on<ZBST<int, D>, SM>(total, small); else if (k == 10) on<ZAVL<int, D>, SM>(total, small); else on<ZMap<int, D>, SM>(total, small);
    vp_reach("done");
}
ENTRY given() { each<StaticMemAllocator<4096> >(4096, DEEP(4, 5), DEEP(2, 3)); }
struct DefAlloc : dstruct::Alloc { static int free_mem_size() { return port::DefaultSMA::free_mem_size(); } static void dump() { port::DefaultSMA::dump(); } };
ENTRY deflt() { each<DefAlloc>(1024 * 1024, DEEP(2, 4), DEEP(1, 2)); }
// the shipped aliases, through the reference models
struct SV { smemory::Vector<int> c; Seq m; void op() { if (pick("op", 2)) { int x = vp_int("x"); c.push_back(x); m.pushBack(x); } else if (m.n()) { c.pop_back(); m.popBack(); } } void chk() { sameSize(c, m); sameIndex(c, m); } };
struct SL { smemory::SLinkedList<int> c; Seq m; void op() { if (pick("op", 2)) { int x = vp_int("x"); c.push_back(x); m.pushBack(x); } else if (m.n()) { c.pop_front(); m.popFront(); } } void chk() { sameSize(c, m); sameIter(c, m); } };
struct DL { smemory::DLinkedList<int> c; Seq m; void op() { if (pick("op", 2)) { int x = vp_int("x"); c.push_front(x); m.pushFront(x); } else if (m.n()) { c.pop_back(); m.popBack(); } } void chk() { sameSize(c, m); sameIter(c, m); } };
struct DQ { smemory::Deque<int, 4> c; Seq m; void op() { if (pick("op", 2)) { int x = vp_int("x"); c.push_front(x); m.pushFront(x); } else if (m.n()) { c.pop_back(); m.popBack(); } } void chk() { sameSize(c, m); sameIndex(c, m); } };
struct QU { smemory::Queue<int> c; Seq m; void op() { if (pick("op", 2)) { int x = vp_int("x"); c.push(x); m.pushBack(x); } else if (m.n()) { c.pop(); m.popFront(); } } void chk() { sameSize(c, m); sameEnds(c, m); } };
struct ST { smemory::Stack<int> c; Seq m; void op() { if (pick("op", 2)) { int x = vp_int("x"); c.push(x); m.pushBack(x); } else if (m.n()) { c.pop(); m.popBack(); } } void chk() { sameSize(c, m); if (m.n()) A(c.top() == m.back(), "top() is the element pushed last"); } };
struct SS { smemory::String c; Seq m; void op() { if (pick("op", 2)) { int x = vp_u8("x"); c.push_back((char)x); m.pushBack(x); } else { c += "abc"; m.pushBack('a'); m.pushBack('b'); m.pushBack('c'); } } void chk() { sameSize(c, m); for (int i = 0; i < m.n(); i++) A(V(c[i]) == m[i], "the characters are those put in"); } };
template <typename X, int SIGN> struct XS {
    X c; Seq m;
    void op() { if (pick("op", 2)) { int x = vp_int("x"); c.push(x); m.pushBack(x); } else if (m.n()) { c.pop(); m.popBack(); } }
    void chk() { A(c.empty() == (m.n() == 0), "empty()"); if (!m.n()) return; A(c.top() == m.back(), "top() is the element pushed last"); int x = c.getXValue(); for (int i = 0; i < m.n(); i++) A(SIGN > 0 ? m[i] >= x : m[i] <= x, "getXValue() is the extreme element"); }
};
template <typename H, int SIGN> struct HP {
    H c; int v[16], k, n; bool in[16]; HP() : k(0), n(0) {}
    void op() { if (pick("op", 2)) { int x = vp_int("x"); c.push(KV(x, k)); v[k] = x; in[k++] = true; n++; } else if (n) { int t = c.top().p; A(t >= 0 && t < k && in[t], "top() is an element of the heap"); in[t] = false; n--; c.pop(); } }
    void chk() { A((int)c.size() == n, "size() counts the elements"); if (!n) return; int t = c.top().k; for (int i = 0; i < k; i++) if (in[i]) A(SIGN > 0 ? v[i] >= t : v[i] <= t, "top() is the extreme element"); }
};
struct BS { smemory::BSTree<int> c; SymSet m; int n; BS() : n(0) {}
    void op() { int x = vp_int("x"); if (pick("op", 2)) { n += 1 ^ m.has(x); c.push(x); m.add(x); } else { n -= m.has(x); c.pop(x); m.del(x); } }
    void chk() { A((int)c.size() == n, "size() counts the elements"); int i = 0, prev = 0; for (auto it = c.begin(); it != c.end(); it++) { int x = *it; A(m.has(x), "members only"); if (i) A(prev < x, "ascending"); prev = x; i++; } A(i == n, "iteration visits every element"); } };
struct UF { smemory::UFSet c; int cls[4]; UF() : c(4) { for (int i = 0; i < 4; i++) cls[i] = i; }
    void op() { int a = pick("a", 4), b = pick("b", 4); c.connect(a, b); int x = cls[a], y = cls[b]; for (int i = 0; i < 4; i++) if (cls[i] == y) cls[i] = x; }
    void chk() { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) A(c.connected(i, j) == (cls[i] == cls[j]), "connected as connects imply"); } };
template <typename P, typename Q> static void pairOf(int steps) {
    {
        P p; Q q;
        for (int i = 0; i < steps; i++) { p.op(); q.op(); p.chk(); q.chk(); }
        if (smemory::SMA::free_mem_size() < 10 * 1024) vp_reach("used"); smemory::SMA::dump();
        A(vp_mallocs() == 0 && port::DefaultSMA::free_mem_size() == 1024 * 1024, "no memory but the static pool is used");
    }
    whole<smemory::SMA>(10 * 1024); vp_reach("done");
}
ENTRY shipped() {
    int k = pick("pair", 7), s = DEEP(3, 4);
    if (k == 0) pairOf<SV, SL>(s + 1); else if (k == 1) pairOf<DL, DQ>(s + 1); else if (k == 2) pairOf<QU, ST>(s + 1); else if (k == 3) pairOf<SS, XS<smemory::MinStack<int>, 1> >(s);
    else if (k == 4) pairOf<XS<smemory::MaxStack<int>, -1>, HP<smemory::MinHeap<KV>, 1> >(s); else if (k == 5) pairOf<HP<smemory::MaxHeap<KV>, -1>, UF>(DEEP(1, 2)); else pairOf<BS, HP<smemory::PriorityQueue<KV>, 1> >(s);
}
ENTRY churn() {
    typedef StaticMemAllocator<4096> SMA;
    {
        Vector<int, SMA> v; DoublyLinkedList<Byte, SMA> l; DoubleEndedQueue<int, 4, SMA> d; Seq mv, ml, md; unsigned r = 1 + pick("seed", 4);
        for (int i = 0; i < 300; i++) {
            r = r * 1103515245u + 12345u; int k = (r >> 16) % 6; int x = (int)(r >> 8);
            if (k == 0 && mv.n() < 20) { v.push_back(x); mv.pushBack(x); } else if (k == 1 && mv.n()) { v.pop_back(); mv.popBack(); }
            else if (k == 2 && ml.n() < 20) { l.push_back(Byte(x)); ml.pushBack((unsigned char)x); } else if (k == 3 && ml.n()) { l.pop_back(); ml.popBack(); }
            else if (k == 4 && md.n() < 20) { d.push_back(x); md.pushBack(x); } else if (k == 5 && md.n()) { d.pop_back(); md.popBack(); }
            if (i % 25 == 0) { sameIndex(v, mv); sameIter(l, ml); sameIndex(d, md); SMA::memory_merge(); SMA::dump(); }
        }
        sameSize(v, mv); sameIndex(v, mv); sameIter(l, ml); sameIndex(d, md);
    }
    whole<SMA>(4096); vp_reach("done");
}
ENTRY adjacent() {
    typedef StaticMemAllocator<4096> SMA; enum { K = 24 };
    {
        void *b[K]; int down = pick("prepared", 2);
        if (down) { for (int i = 0; i < K; i++) b[i] = SMA::allocate(8); A(SMA::allocate(SMA::max_free_mblock_size()) != nullptr, "the rest is taken"); for (int i = 0; i < K; i++) SMA::deallocate(b[i], 8); }
        ZDeque<int, 2, SMA> z; DoubleEndedQueue<int, 2, SMA> d;
        if (down) { SMA::deallocate((char *)b[K - 1] + 8, 4096 - K * 8); }
        for (int i = 0; i < DEEP(7, 9); i++) {
            int k = i ? pick("op", 4) : 0;
            if (k > 1) vp_assume(z.n() > 0);
            if (k == 0) z.add(d); else if (k == 1) { int x = vp_int("x"); d.push_front(x); z.m.pushFront(x); } else if (k == 2) { d.pop_back(); z.m.popBack(); } else { d.pop_front(); z.m.popFront(); }
            z.check(d);
        }
        vp_trace(z.n());
    }
    whole<SMA>(4096); vp_reach("done");
}
ENTRY port() {
    typedef port::DefaultSMA SMA; const int K = 1024 * 1024; void *p[6]; int sz[6], n = 1 + pick("pieces", DEEP(5, 6)), left = K;
    for (int i = 0; i < n; i++) { sz[i] = i == n - 1 ? left : 4096 * (i + 1) + (i % 2 ? 200 : 136); left -= sz[i]; p[i] = port::allocate(sz[i]); A(p[i] != nullptr, "served"); }
    A(SMA::free_mem_size() == 0, "the pool is used up");
    bool out[6]; for (int i = 0; i < n; i++) out[i] = false;
    for (int i = 0; i < n; i++) { int w = pick("which", n - i), j = 0; while (out[j] || w-- > 0) j++; out[j] = true; port::deallocate(p[j], sz[j]); }
    int w = pick("range", 4), u = w == 0 && n > 2 ? 3 : vp_u8("n"), s = w == 0 ? 1 + u : w == 1 ? K / 2 : w == 2 ? K - 5000 : K; if (w == 3 && n <= 2) s = K - u;
    A(port::allocate(s) != nullptr, "a request that fits the free memory is served, merging if need be");
    A(SMA::free_mem_size() == K - ((s + 7) & ~7), "and accounted for"); SMA::dump(); vp_reach("merged");
}
ENTRY refused() {
    typedef port::DefaultSMA SMA; const int K = 1024 * 1024; int held = pick("held", 3) * 5000; void *p = held ? port::allocate(held) : nullptr;
    int w = pick("what", 4), used = (held + 7) & ~7;
    if (w == 0) { int n = vp_int("n"); vp_assume((n <= 0) | (int)(n > K - used)); vp_stop_ok(true); p = port::allocate(n); vp_fail("a request that no memory is left for is not stopped"); }
    if (w == 1) { vp_stop_ok(true); port::deallocate(nullptr, 8); vp_fail("the release of nullptr is not stopped"); }
    if (w == 2) { p = port::allocate(64); int n = vp_int("n"); vp_assume(n <= 0); vp_stop_ok(true); port::deallocate(p, n); vp_fail("a release without a size is not stopped"); }
    Vector<int> v; int x = vp_int("x"), how = pick("how", 4);
    if (how) { v.push_back(x); v.push_back(x); if (how < 3) v.pop_back(); v.pop_back(); }
    int k = vp_int("k"); if (how == 3) { v.push_back(x); vp_assume(k >= 2); } else vp_assume(k >= 0);
    vp_stop_ok(true);
    if (how == 2) { v[k] = x; vp_fail("an index behind the end is not stopped"); }
    if (how == 3) { v[k] = x; vp_fail("an index behind the end is not stopped"); }
    v.pop_back(); vp_fail("pop_back of an empty Vector is not stopped");
}
template <typename AL> using BinarySearchTree_ = tree::BinarySearchTree<int, less<int>, AL>;
ENTRY dry() {
    typedef StaticMemAllocator<256, 64> SMA; struct Own { static void *allocate(int n) { void *p = SMA::allocate(n); if (!p) vp_stop_ok(true); return p; } static void deallocate(void *p, int n) { A(p == nullptr || SMA::deallocate(p, n), "what was handed out can be released"); } };
    int k = pick("container", 5), n = 0;
    if (k == 0) { ZVector<int, Own> z; ZVector<int, Own>::C c; for (; n < 60; n++) { z.add(c); z.check(c); } }
    else if (k == 1) { ZDList<int, Own> z; ZDList<int, Own>::C c; for (; n < 60; n++) { z.add(c); z.check(c); } }
    else if (k == 2) { ZDeque<int, 2, Own> z; ZDeque<int, 2, Own>::C c; for (; n < 60; n++) { z.add(c); z.check(c); } }
    else if (k == 3) { BinarySearchTree_<Own> c; for (; n < 60; n++) { c.push(n * 37 % 64); int i = 0, prev = -1; for (auto it = c.begin(); it != c.end(); it++) { A(*it > prev, "ascending"); prev = *it; i++; } A(i == n + 1, "every element is there"); } }
    else { ZString<Own> z; ZString<Own>::C c; for (; n < 300; n++) z.add(c); z.check(c); }
    vp_fail("more was stored than the pool holds");
}
template <typename C> static void fill(int n) { C c; for (int i = 0; i < n; i++) c.push_back(typename C::ValueType(i)); A((int)c.size() == n, "size() counts the elements"); }
ENTRY reuse() {
    typedef StaticMemAllocator<2048> SMA;
    for (int g = 0; g < 12; g++) {
        int n = 1 + (g * 7 + pick("n", 2) * 3) % 20, k = g % 6;
        if (k == 0) fill<Vector<int, SMA> >(n); else if (k == 1) fill<SinglyLinkedList<Wide, SMA> >(n); else if (k == 2) fill<DoublyLinkedList<Byte, SMA> >(n);
        else if (k == 3) fill<DoubleEndedQueue<int, 4, SMA> >(n); else if (k == 4) { BasicString<char, SMA> s; for (int i = 0; i < n; i++) s.push_back('a'); A(s.size() == n, "size"); }
        else { tree::BinarySearchTree<int, less<int>, SMA> t; for (int i = 0; i < n; i++) t.push(i * 7 % 20); }
        A(SMA::free_mem_size() == 2048, "nothing is lost"); SMA::memory_merge(); SMA::dump();
    }
    vp_reach("done");
}
