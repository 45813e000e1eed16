// C38: a size that cannot be requested is refused, never cut down.
#include "zoo.hpp"
//@native -O0
//@assume Alloc counts bytes as int: a request is expressible iff it is at most 2^31-1 bytes; refusing is stopping the program; the recording allocator stands in for the memory of a request (paths end before elements beyond the first 4 would be written)
//@entry vec reach=asked,refused,kept :: Vector of elements of 1, 4, 16 and 1000 bytes holding 0, 1 or 2 elements: resize(n), every 64-bit n
//@entry fill reach=asked,refused :: Vector(n, x) and resize(n, x), every 64-bit n
//@entry copy reach=asked :: a Vector of any expressible capacity is copied, assigned and moved: the copy asks for its own capacity, both give back what they took
//@entry twice reach=asked,refused :: resize(n) then resize(m), every pair of 64-bit sizes
//@entry grow reach=asked,refused :: a Vector of elements of 2^24 and 2^22+4 bytes grows by push_back until its storage cannot be requested any more, after popping k arbitrary elements on the way
//@entry uf reach=asked,refused :: DisjointSet(n), every int n (negative: refused)
//@entry block reach=refused :: deques whose block has 2^31 and 2^32+64 bytes: no block is ever obtained from a smaller request
static char pool[8][4096] __attribute__((aligned(16))); static unsigned long took[8]; static int nTook, nGiven; static unsigned long want, elemSize; static bool cut, loose; // loose: small requests of another kind precede
static bool tooMuch(unsigned long n, unsigned long sz) { return n > 0x7fffffffUL / sz; }
struct RAlloc {
    static void *allocate(int bytes) {
        A(bytes > 0, "a request is positive");
        if (loose) { A(nTook < 8 && bytes <= 4096, "small"); took[nTook++] = (unsigned long)bytes; return pool[nTook - 1]; }
        A(!tooMuch(want, elemSize), "a request that cannot be expressed is not made");
        A((unsigned long)bytes == want * elemSize, "the request is for exactly the bytes the elements need");
        A(nTook < 8, "no more requests than needed"); took[nTook++] = (unsigned long)bytes; vp_reach("asked");
        if (cut) vp_assume(bytes <= 4096 && want <= 4);
        return pool[nTook - 1];
    }
    static void deallocate(void *p, int bytes) {
        for (int i = 0; i < nTook; i++) if (p == pool[i]) { A(took[i] == (unsigned long)bytes, "what was taken is given back, at its size"); took[i] = 0; nGiven++; return; }
        A(false, "only storage that was taken is given back");
    }
};
template <int N> struct Raw { char c[N]; Raw() {} Raw(int) {} };
static void asking(unsigned long n, unsigned long sz) { want = n; elemSize = sz; if (tooMuch(n, sz)) { vp_reach("refused"); vp_stop_ok(true); } }
static void served(unsigned long n, unsigned long sz, int k) { A(!tooMuch(n, sz), "a size that cannot be requested is refused"); A(nTook == k, "storage was requested"); }
static unsigned long contents(int m) { return m == 1 ? 2 : m; }
template <typename T> static void fillTo(Vector<T, RAlloc> &v, int m) { asking(2, sizeof(T)); for (int i = 0; i < m; i++) v.push_back(T(i)); }
template <typename T> static void vec1() {
    {
        Vector<T, RAlloc> v; int m = pick("m", 3); fillTo(v, m); int k = nTook; if (m) vp_reach("kept");
        unsigned long n = vp_u64("n"); vp_assume(n > 0); asking(n, sizeof(T));
        v.resize(n); served(n, sizeof(T), k + 1); A(v.capacity() == n, "capacity() is what was asked for"); A(v.size() == (n < (unsigned long)m ? n : (unsigned long)m), "the elements are kept");
        vp_trace(n);
    }
    A(nGiven == nTook, "everything is given back");
}
ENTRY vec() { int t = pick("T", 4); if (t == 0) vec1<char>(); else if (t == 1) vec1<int>(); else if (t == 2) vec1<Wide>(); else vec1<Raw<1000> >(); }
template <typename T> static void fill1() {
    {
        unsigned long n = vp_u64("n"); vp_assume(n > 0); cut = true;
        if (pick("how", 2)) { asking(n, sizeof(T)); Vector<T, RAlloc> v(n, T(5)); served(n, sizeof(T), 1); A(v.size() == n, "n elements"); }
        else { Vector<T, RAlloc> v; fillTo(v, pick("m", 3)); int k = nTook; asking(n, sizeof(T)); v.resize(n, T(5)); served(n, sizeof(T), k + 1); A(v.size() == n && v.capacity() == n, "n elements"); }
        vp_trace(n);
    }
    A(nGiven == nTook, "everything is given back");
}
ENTRY fill() { int t = pick("T", 4); if (t == 0) fill1<char>(); else if (t == 1) fill1<int>(); else if (t == 2) fill1<Wide>(); else fill1<Raw<1000> >(); }
template <typename T> static void copy1() {
    {
        Vector<T, RAlloc> v; int m = pick("m", 3); fillTo(v, m); int how = pick("how", 3);
        unsigned long n = vp_u64("n"); vp_assume(n >= contents(m) && n > 0 && !tooMuch(n, sizeof(T))); asking(n, sizeof(T)); v.resize(n); int k = nTook;
        if (how == 0) { Vector<T, RAlloc> w(v); served(n, sizeof(T), k + 1); A(w.capacity() == n && (int)w.size() == m, "the copy has the capacity of its source"); }
        else if (how == 1) { Vector<T, RAlloc> w; w = v; served(n, sizeof(T), k + 1); A(w.capacity() == n && (int)w.size() == m, "the copy has the capacity of its source"); }
        else { Vector<T, RAlloc> w(dstruct::move(v)); A(nTook == k && w.capacity() == n && (int)w.size() == m, "moving requests nothing"); }
        vp_trace(n);
    }
    A(nGiven == nTook, "everything is given back");
}
ENTRY copy() { int t = pick("T", 3); if (t == 0) copy1<char>(); else if (t == 1) copy1<Wide>(); else copy1<Raw<1000> >(); }
template <typename T> static void twice1() {
    {
        Vector<T, RAlloc> v; unsigned long n = vp_u64("n"), m = vp_u64("m"); vp_assume(n > 0 && m > 0);
        asking(n, sizeof(T)); v.resize(n); served(n, sizeof(T), 1); asking(m, sizeof(T)); v.resize(m); served(m, sizeof(T), 2); A(nGiven == 1, "the first is given back"); v.resize(0); A(nGiven == 2, "everything is given back"); vp_trace(m);
    }
    A(nGiven == nTook, "everything is given back");
}
ENTRY twice() { int t = pick("T", 3); if (t == 0) twice1<char>(); else if (t == 1) twice1<int>(); else twice1<Raw<1000> >(); }
// elements whose bytes nobody looks at: only the storage for them matters
template <int N> struct Hollow { char c[N]; Hollow() {} Hollow(const Hollow &) {} Hollow &operator=(const Hollow &) { return *this; } ~Hollow() {} };
static int live, most;
struct GAlloc {
    static void *allocate(int bytes) { A(bytes > 0 && nTook < 64, "a request is positive"); most = bytes; live++; took[0] = (unsigned long)bytes; nTook++; vp_reach("asked"); return pool[nTook % 8]; }
    static void deallocate(void *, int bytes) { A(bytes > 0, "given back at its size"); live--; }
};
template <int N> static void grow1() {
    {
        typedef Hollow<N> T; Vector<T, GAlloc> v; const T &e = *(const T *)pool[0]; int max = 0x7fffffff / N, k = pick("popped", 4), at = pick("at", 3);
        for (int i = 0; i <= max; i++) {
            A((long)v.size() * N <= most, "the storage holds the elements");
            if (v.size() * 2 > (unsigned long)max) { vp_reach("refused"); vp_stop_ok(true); }
            v.push_back(e); A((long)v.capacity() * N <= 0x7fffffffL, "a size that cannot be requested is refused"); A((long)v.capacity() * N == most, "the storage requested is that of the capacity");
            if (i == at * 8) for (int j = 0; j < k && !v.empty(); j++) v.pop_back();
        }
        vp_stop_ok(false);
    }
    A(live == 0, "everything is given back"); vp_trace(N);
}
ENTRY grow() { if (pick("T", 2)) grow1<(1 << 24)>(); else grow1<(1 << 22) + 4>(); }
ENTRY uf() {
    {
        int n = vp_int("n"); vp_assume(n != 0); cut = true; asking((unsigned long)(long)n, sizeof(int));
        DisjointSet<RAlloc> u(n); served((unsigned long)(long)n, sizeof(int), 1); A((int)u.size() == n && (int)u.count() == n, "n singletons"); vp_trace(n);
    }
    A(nGiven == nTook, "everything is given back");
}
template <typename C> static void blocks(int k) {
    loose = true; vp_stop_ok(true); vp_reach("refused"); C c; k ? c.push_back('a') : c.push_front('a'); A(false, "storage that cannot be requested is refused");
}
ENTRY block() {
    int k = pick("kind", 2), s = pick("side", 2);
    if (k == 0) blocks<DoubleEndedQueue<char, 0x80000000UL, RAlloc> >(s); else blocks<DoubleEndedQueue<char, 0x100000040UL, RAlloc> >(s);
}
