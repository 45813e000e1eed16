// C10: heap sort orders a range, heap build makes it a heap; both only permute it.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
//@assume the comparator is a strict weak order
//@entry sort reach=tie,sub :: sort of an array of n<=6 (thorough: 7) elements with arbitrary keys, whole range and inner sub-ranges, ascending and descending
//@entry build reach=tie,sub :: build of an array of n<=6 (thorough: 7) elements, min and max; the returned heap then drains in order
//@entry sort_obj reach=done :: sort of n<=4 (thorough: 5) lifetime-tracked elements held by a Vector
//@entry big reach=done :: sort/build of n in {17,33,50}, all but two keys fixed (3 patterns)
//@entry few reach=done :: sort/build of n<=11 (thorough: 14) elements whose keys take two values, n<=7 (thorough: 8) with three
//@entry far reach=done max_instr=1000000000 :: range of 70000 elements in scrambled order, one arbitrary (below all, above all or a tie in the middle)
enum { M = 8 };
template <typename H> static void sorted(int maxn, bool maxFirst) {
    {
        KV a[M + 2]; int k[M + 2];
        int n = pick("n", maxn + 1);
        int off = pick("off", 2); // sub-range: guard elements around it
        if (off) vp_reach("sub");
        for (int i = 0; i < n + 2 * off; i++) { int x = vp_int("k"); k[i] = x; a[i] = KV(x, i); }
        H::sort(a + off, a + off + n);
        int seen[M + 2] = {0};
        for (int i = 0; i < n + 2 * off; i++) {
            bool in = i >= off && i < off + n;
            A(a[i].p >= 0 && a[i].p < n + 2 * off, "elements come from the range");
            A(!seen[a[i].p], "no element is duplicated"); seen[a[i].p] = 1;
            A(a[i].k == k[a[i].p], "elements are moved unchanged");
            if (!in) A(a[i].p == i, "elements outside the range stay");
            if (in && i > off) A(maxFirst ? a[i - 1].k >= a[i].k : a[i - 1].k <= a[i].k, "the range is in order");
        }
        if (n > 1 && a[off].k == a[off + 1].k) vp_reach("tie");
        vp_trace(n);
    }
    allGone();
}
ENTRY sort() { if (pick("max", 2)) sorted<MaxHeap<KV, VAlloc>>(DEEP(5, 6), true); else sorted<MinHeap<KV, VAlloc>>(DEEP(6, 7), false); }
template <typename H> static void built(int maxn, bool maxFirst) {
    {
        KV a[M + 2]; int k[M + 2];
        int n = pick("n", maxn + 1), off = pick("off", 2);
        if (off) vp_reach("sub");
        for (int i = 0; i < n + 2 * off; i++) { int x = vp_int("k"); k[i] = x; a[i] = KV(x, i); }
        H h = H::build(a + off, a + off + n);
        int seen[M + 2] = {0};
        for (int i = 0; i < n + 2 * off; i++) {
            bool in = i >= off && i < off + n;
            A(a[i].p >= 0 && a[i].p < n + 2 * off, "elements come from the range");
            A(!seen[a[i].p], "no element is duplicated"); seen[a[i].p] = 1;
            A(a[i].k == k[a[i].p], "elements are moved unchanged");
            if (!in) A(a[i].p == i, "elements outside the range stay");
            int j = i - off, par = off + (j - 1) / 2;
            if (in && j > 0) A(maxFirst ? a[par].k >= a[i].k : a[par].k <= a[i].k, "the range is a heap");
        }
        if (n > 1 && a[off].k == a[off + 1].k) vp_reach("tie");
        A((int)h.size() == n, "the returned heap holds the range");
        int prev = 0;
        for (int i = 0; i < n; i++) {
            KV t = h.top(); h.pop();
            A(t.p >= off && t.p < off + n && seen[t.p] == 1 && t.k == k[t.p], "the returned heap holds the range's elements"); seen[t.p] = 2;
            if (i) A(maxFirst ? prev >= t.k : prev <= t.k, "the returned heap drains in order");
            prev = t.k;
        }
        vp_trace(n);
    }
    allGone();
}
ENTRY build() { if (pick("max", 2)) built<MaxHeap<KV, VAlloc>>(DEEP(4, 5), true); else built<MinHeap<KV, VAlloc>>(DEEP(5, 6), false); }
ENTRY sort_obj() {
    {
        int n = pick("n", DEEP(5, 6)); int v[8], used[8] = {0};
        Vector<Obj, VAlloc> a;
        for (int i = 0; i < n; i++) { int x = vp_int("x"); v[i] = x; a.push_back(Obj(x)); }
        MinHeap<Obj, VAlloc>::sort(a.begin(), a.end());
        A((int)a.size() == n, "sort keeps the length");
        for (int i = 0; i < n; i++) {
            int t = V(a[i]), seen = 0;
            for (int j = 0; j < n; j++) { int m = (1 ^ used[j]) & (int)(v[j] == t) & (1 ^ seen); used[j] |= m; seen |= m; }
            A(seen, "sort only permutes");
            if (i) A(V(a[i - 1]) <= t, "sort orders the range");
        }
        vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY big() {
    {
        KV a[50]; int k[50];
        int c = pick("n", 3), n = c == 0 ? 17 : c == 1 ? 33 : 50; int pat = pick("pattern", 3); int what = pick("what", 2);
        for (int i = 0; i < n; i++) {
            int x = pat == 0 ? i * 3 : pat == 1 ? (n - i) * 3 : (i * 37 % 64) * 3;
            if (i == 0 || i == n / 2) x = vp_u8("k");
            k[i] = x; a[i] = KV(x, i);
        }
        if (what) MinHeap<KV, VAlloc>::sort(a, a + n); else MinHeap<KV, VAlloc>::build(a, a + n);
        bool seen[50] = {false};
        for (int i = 0; i < n; i++) {
            A(a[i].p >= 0 && a[i].p < n && !seen[a[i].p] && a[i].k == k[a[i].p], "only permutes"); seen[a[i].p] = true;
            if (i) { if (what) A(a[i - 1].k <= a[i].k, "in order"); else A(a[(i - 1) / 2].k <= a[i].k, "is a heap"); }
        }
        vp_reach("done"); vp_trace(n);
    }
    allGone();
}
ENTRY few() {
    {
        KV a[16]; int k[16]; int v = 2 + pick("values", 2), n = pick("n", 1 + (v == 2 ? DEEP(11, 14) : DEEP(7, 8))), what = pick("what", 2);
        for (int i = 0; i < n; i++) { int x = vp_choice("k", v); k[i] = x; a[i] = KV(x, i); }
        if (what) MaxHeap<KV, VAlloc>::sort(a, a + n); else MaxHeap<KV, VAlloc>::build(a, a + n);
        bool seen[16] = {false};
        for (int i = 0; i < n; i++) {
            A(a[i].p >= 0 && a[i].p < n && !seen[a[i].p] && a[i].k == k[a[i].p], "only permutes"); seen[a[i].p] = true;
            if (i) { if (what) A(a[i - 1].k >= a[i].k, "in order"); else A(a[(i - 1) / 2].k >= a[i].k, "is a heap"); }
        }
        vp_reach("done"); vp_trace(n);
    }
    allGone();
}
static int farRange[FAR];
ENTRY far() {
    {
    int x = vp_int("x"); bool ok = x < 0 || x > 2 * 70001 || x == 70000; vp_assume(ok);
    for (int i = 0; i < FAR; i++) farRange[i] = i ? farKey(i) : x; // key 0 is left out, and the one that no i has
    Heap<int, less<int>, VAlloc>::sort(farRange, farRange + FAR);
    int e = 2, skip = 2 * (int)((long)FAR * 43265 % 70001); bool seen = false;
    for (int i = 0; i < FAR; i++) { if (e == skip) e += 2; if (!seen && (e > 2 * 70000 || x <= e)) { seen = true; IF_NOT(farRange[i] == x, "the arbitrary element is in its place"); } else { IF_NOT(farRange[i] == e, "the range holds its elements in order"); e += 2; } }
    A(seen, "no element is lost"); vp_reach("done"); vp_trace(skip);
    }
    allGone();
}
