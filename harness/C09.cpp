// C09: a heap / priority queue always serves the extreme element, loses and invents nothing.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
//@assume pop/top only on a non-empty heap; the comparator is a strict weak order; element copies do not fail
//@entry hist_min reach=pop,tie :: MinHeap of (key, payload) elements: every history of 8 (thorough: 9) push/pop, every assignment of keys, ties included
//@entry hist_max reach=pop,tie :: MaxHeap, same
//@entry drain reach=long,tie :: PriorityQueue: push n<=6 (thorough: 7) arbitrary keys, then pop all
//@entry ints reach=pop :: MinHeap<int>/MaxHeap<int>: every history of 6 (thorough: 7) push/pop, contents compared as multisets
//@entry objs reach=pop :: lifetime-tracked elements: every history of 6 (thorough: 7) push/pop
//@entry big reach=long :: heap of n<=40 (thorough: 100) elements, all but two with fixed keys (3 insertion patterns), two arbitrary; drained completely
//@entry custom reach=pop :: user comparator with state (ordering by xor-distance from an arbitrary 8-bit pivot, 8-bit keys), 6 operations
//@entry anyheap reach=pop,tie :: every heap of n<=8 (thorough: 10) elements, all keys arbitrary, inserted parents first, and every such heap of n<=31 (thorough: 40) without a child equal to its parent; then two push/pop (one for n>12, thorough: n>24)
//@entry far reach=done max_instr=1000000000 :: 70000 elements pushed in scrambled order, one of them arbitrary (below all, above all or a tie in the middle); popped completely
template <typename H> static void heapOrder(const H &h, bool maxFirst) {
    const KV *a[128]; int n = 0;
    for (auto it = h.begin(); it != h.end(); it++) { A(n < 128, "iteration ends"); a[n++] = &*it; }
    A(n == (int)h.size(), "iteration visits size() elements");
    for (int i = 1; i < n; i++) A(maxFirst ? a[(i - 1) / 2]->k >= a[i]->k : a[(i - 1) / 2]->k <= a[i]->k, "no element beats its parent");
}
struct Ref { int k[128]; bool alive[128]; int n, size; Ref() : n(0), size(0) {} };
// the payload names the element: which one was served is a fact of the path, its key is arbitrary
static void served(const KV &t, Ref &r, bool maxFirst, bool remove) {
    A(t.p >= 0 && t.p < r.n && r.alive[t.p < 0 || t.p >= r.n ? 0 : t.p], "top() is an element that is in the heap");
    A(t.k == r.k[t.p], "the element is served unchanged");
    int ok = 1;
    for (int i = 0; i < r.n; i++) if (r.alive[i]) ok &= (int)(maxFirst ? r.k[i] <= t.k : r.k[i] >= t.k);
    A(ok, "no element in the heap beats top()");
    if (remove) { r.alive[t.p] = false; r.size--; }
}
template <typename H> static void opPush(H &h, Ref &r, int x) { h.push(KV(x, r.n)); r.k[r.n] = x; r.alive[r.n] = true; r.n++; r.size++; }
template <typename H> static void opPop(H &h, Ref &r, bool mf) { KV t = h.top(); served(t, r, mf, true); h.pop(); }
template <typename H> static void status(const H &h, Ref &r) { A((int)h.size() == r.size, "size() counts the elements"); A(h.empty() == (r.size == 0), "empty() iff size 0"); }
template <typename H> static void hist(bool mf, int steps) {
    {
        H h; Ref r;
        for (int i = 0; i < steps; i++) {
            if (pick("op", 2)) { vp_assume(r.size > 0); opPop(h, r, mf); vp_reach("pop"); }
            else { int x = vp_int("x"); opPush(h, r, x); }
            status(h, r);
        }
        heapOrder(h, mf);
        if (r.n > 1 && r.k[0] == r.k[1]) vp_reach("tie");
        if (r.size) { KV t = h.top(); served(t, r, mf, false); }
        vp_trace(r.size);
    }
    allGone();
}
ENTRY hist_min() { hist<MinHeap<KV, VAlloc>>(false, DEEP(8, 9)); }
ENTRY hist_max() { hist<MaxHeap<KV, VAlloc>>(true, DEEP(8, 9)); }
ENTRY drain() {
    {
        PriorityQueue<KV, less<KV>, VAlloc> h; Ref r;
        int n = pick("n", DEEP(7, 8));
        for (int i = 0; i < n; i++) { int x = vp_int("x"); opPush(h, r, x); }
        heapOrder(h, false);
        if (n > 1 && r.k[0] == r.k[1]) vp_reach("tie");
        while (r.size) { opPop(h, r, false); status(h, r); vp_trace(r.size); }
        if (n >= 5) vp_reach("long");
    }
    allGone();
}
template <typename T, typename H> static void multiset(int steps, bool mf) {
    {
        H h; int v[16], alive[16], n = 0, size = 0;
        for (int i = 0; i < steps; i++) {
            if (pick("op", 2)) {
                vp_assume(size > 0);
                int t = V(h.top()), seen = 0, ok = 1;
                for (int j = 0; j < n; j++) {
                    ok &= (1 ^ alive[j]) | (int)(mf ? v[j] <= t : v[j] >= t);
                    int m = alive[j] & (int)(v[j] == t) & (1 ^ seen);
                    alive[j] ^= m; seen |= m;
                }
                A(seen, "top() was pushed and not yet popped"); A(ok, "no element in the heap beats top()");
                h.pop(); size--; vp_reach("pop");
            } else { int x = vp_int("x"); h.push(T(x)); v[n] = x; alive[n] = 1; n++; size++; }
            A((int)h.size() == size && h.empty() == (size == 0), "size() counts the elements");
        }
        vp_trace(size);
    }
    allGone();
}
ENTRY ints() { if (pick("max", 2)) multiset<int, MaxHeap<int, VAlloc>>(DEEP(6, 7), true); else multiset<int, MinHeap<int, VAlloc>>(DEEP(6, 7), false); }
ENTRY objs() { if (pick("max", 2)) multiset<Obj, MaxHeap<Obj, VAlloc>>(DEEP(6, 7), true); else multiset<Obj, MinHeap<Obj, VAlloc>>(DEEP(6, 7), false); }
ENTRY big() {
    {
        MinHeap<KV, VAlloc> h; Ref r;
        int n = DEEP(10, 25) * (1 + pick("n", 4)); int pat = pick("pattern", 3);
        for (int i = 0; i < n; i++) {
            int x = pat == 0 ? i * 2 : pat == 1 ? (n - i) * 2 : (i * 37 % 64) * 2;
            if (i == n / 3 || i == n - 2) x = vp_u8("x");
            opPush(h, r, x);
        }
        heapOrder(h, false); vp_reach("long");
        while (r.size) opPop(h, r, false);
        status(h, r);
    }
    allGone();
}
struct Near {
    int pivot;
    Near(int p = 0) : pivot(p) {}
    bool operator()(const KV &a, const KV &b) const { return (unsigned)(a.k ^ pivot) < (unsigned)(b.k ^ pivot); }
};
ENTRY custom() {
    {
        int piv = vp_u8("pivot");
        Heap<KV, Near, VAlloc> h((Near(piv))); Ref r;
        A(h.empty() && h.size() == 0, "a new heap is empty");
        for (int i = 0; i < 6; i++) {
            if (pick("op", 2)) {
                vp_assume(r.size > 0);
                KV t = h.top();
                A(t.p >= 0 && t.p < r.n && r.alive[t.p] && t.k == r.k[t.p], "top() is an element that is in the heap");
                int ok = 1;
                for (int j = 0; j < r.n; j++) if (r.alive[j]) ok &= (int)((unsigned)(t.k ^ piv) <= (unsigned)(r.k[j] ^ piv));
                A(ok, "no element comes before top() in the comparator's order");
                r.alive[t.p] = false; r.size--; h.pop(); vp_reach("pop");
            } else { int x = vp_u8("x"); opPush(h, r, x); }
            status(h, r);
        }
    }
    allGone();
}
template <typename H> static void anyHeap(bool mf, int maxn, int freely, int twice) {
    {
        H h; Ref r; int n = 1 + pick("n", maxn);
        for (int i = 0; i < n; i++) {
            int x = vp_int("x");
            if (i) vp_assume(mf ? r.k[(i - 1) / 2] >= x : r.k[(i - 1) / 2] <= x);
            if (i && n > freely) vp_assume(r.k[(i - 1) / 2] != x); // larger heaps: no child equal to its parent
            opPush(h, r, x);
        }
        heapOrder(h, mf); if (n > 1 && r.k[0] == r.k[1]) vp_reach("tie");
        for (int i = 0; i < (n <= twice ? 2 : 1); i++) {
            if (pick("op", 2)) { vp_assume(r.size > 0); opPop(h, r, mf); vp_reach("pop"); } else { int x = vp_int("y"); opPush(h, r, x); }
            status(h, r); heapOrder(h, mf);
        }
        if (r.size) { KV t = h.top(); served(t, r, mf, false); }
        vp_trace(r.size);
    }
    allGone();
}
ENTRY anyheap() { if (pick("max", 2)) anyHeap<MaxHeap<KV, VAlloc>>(true, DEEP(31, 40), DEEP(8, 10), DEEP(12, 24)); else anyHeap<MinHeap<KV, VAlloc>>(false, DEEP(31, 40), DEEP(8, 10), DEEP(12, 24)); }
ENTRY far() {
    {
    int x = vp_int("x"), mid = 2 * 35000; bool ok = x < 0 || x > 2 * 70001 || x == mid; vp_assume(ok);
    Heap<int, less<int>, VAlloc> h; for (int i = 0; i < FAR; i++) { h.push(farKey(i)); IF_NOT((int)h.size() == i + 1, "size() counts the elements"); }
    h.push(x); int e = 0, skip = farKey(FAR) == 0 ? -1 : 2 * (int)((long)FAR * 43265 % 70001), out = 0; bool seen = false;
    for (int i = 0; i <= FAR; i++) {
        int t = h.top(); h.pop(); IF_NOT((int)h.size() == FAR - i, "size() counts the elements");
        if (e == skip) e += 2;
        if (!seen && (e > 2 * 70000 || x <= e)) { seen = true; IF_NOT(t == x, "the arbitrary element is served in its turn"); } else { IF_NOT(t == e, "the smallest element is served"); e += 2; out++; }
    }
    A(h.empty() && out == FAR, "then it is empty"); vp_reach("done"); vp_trace(out);
    }
    allGone();
}
