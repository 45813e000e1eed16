// C25: the static memory allocator hands out disjoint, aligned blocks of its pool and
// never touches a block it has handed out.
#include "vp.hpp"
using namespace dstruct;
//@assume a block is released once, with the size it was requested with; the pool size is a multiple of 8
//@entry hist reach=full,reuse :: pool of 96 bytes, small blocks up to 32: every history of 5 (thorough: 6) allocate(s), release of any block, merge; s in {1,8,9,24,32,33,48,96}
//@entry small reach=full,reuse :: pool of 64 bytes, small blocks up to 64: every history of 6 (thorough: 7); s in {1,8,16,24}
//@entry large reach=full,reuse :: pool of 240 bytes, small blocks up to 16: every history of 5 (thorough: 6); s in {24,40,80,120}
//@entry any reach=served,refused :: every request size (all 2^32) after one of 6 fragmentations of a pool of 256 bytes
//@entry sym reach=full,reuse,live :: pool of 64 bytes, small blocks up to 24: every history of 2 steps, each an allocation of any size 0..255 or the release of any block, then one more allocation of any size 0..255
//@entry longrun reach=done :: pool of 1024 bytes, small blocks up to 128: 40 blocks of mixed sizes, released in four orders with merges, filled again
//@entry two reach=done :: two allocators of different sizes do not share storage
struct Blk { unsigned char *p; int n; bool live; };
template <typename SMA, int SIZE> struct Drv {
    enum { MAX = 64 }; Blk b[MAX]; int k; unsigned char *base;
    Drv() : k(0) {
        base = (unsigned char *)SMA::allocate(SIZE); A(base != nullptr, "a fresh allocator serves one block of its whole pool");
        A(SMA::allocate(1) == nullptr, "then nothing is left"); base[0] = 1; base[SIZE - 1] = 1;
        A(SMA::deallocate(base, SIZE), "the block is taken back");
    }
    void tag(int i) { for (int j = 0; j < b[i].n; j++) b[i].p[j] = (unsigned char)(i * 31 + j); }
    void intact(int i) { for (int j = 0; j < b[i].n; j++) A(b[i].p[j] == (unsigned char)(i * 31 + j), "a block keeps its contents until it is released"); }
    bool alloc(int n) {
        unsigned char *p = (unsigned char *)SMA::allocate(n);
        if (!p) { vp_reach("full"); return false; }
        A(((unsigned long)p & 7) == 0, "blocks are aligned to 8 bytes");
        A(p >= base && p + n <= base + SIZE, "blocks lie inside the pool");
        for (int i = 0; i < k; i++) { if (b[i].live) A(p + n <= b[i].p || b[i].p + b[i].n <= p, "live blocks do not overlap"); else if (b[i].p == p) vp_reach("reuse"); }
        b[k].p = p; b[k].n = n; b[k].live = true; tag(k); k++;
        return true;
    }
    int live() const { int c = 0; for (int i = 0; i < k; i++) c += b[i].live; return c; }
    int nth(int w) const { for (int i = 0; i < k; i++) if (b[i].live && w-- == 0) return i; return -1; }
    void release(int i) { intact(i); A(SMA::deallocate(b[i].p, b[i].n), "a block is taken back"); b[i].live = false; }
    void check() { for (int i = 0; i < k; i++) if (b[i].live) intact(i); }
};
template <typename SMA, int SIZE> static void run(int steps, const int *sz, int nsz) {
    Drv<SMA, SIZE> d;
    for (int i = 0; i < steps; i++) {
        int l = d.live(), op = pick("op", nsz + 1 + l);
        if (op < nsz) d.alloc(sz[op]); else if (op == nsz) { vp_assume(i > 0); SMA::memory_merge(); } else d.release(d.nth(op - nsz - 1));
        d.check();
    }
    while (d.alloc(sz[0])) {}
    d.check(); SMA::dump(); vp_trace(d.k);
}
ENTRY hist() { const int s[] = {8, 1, 9, 24, 32, 33, 48, 96}; run<StaticMemAllocator<96, 32>, 96>(DEEP(5, 6), s, 8); }
ENTRY small() { const int s[] = {8, 1, 16, 24}; run<StaticMemAllocator<64, 64>, 64>(DEEP(6, 7), s, 4); }
ENTRY large() { const int s[] = {24, 40, 80, 120}; run<StaticMemAllocator<240, 16>, 240>(DEEP(5, 6), s, 4); }
ENTRY any() {
    typedef StaticMemAllocator<256, 64> SMA; Drv<SMA, 256> d; int f = pick("fragmentation", 6);
    for (int i = 0; i < f; i++) d.alloc(8 + 24 * (i % 3));
    if (f > 2) { d.release(0); d.release(2); } if (f == 5) SMA::memory_merge();
    int n = vp_int("n"); unsigned char *p = (unsigned char *)SMA::allocate(n);
    if (p) { vp_reach("served"); A(n > 0 && n <= 256, "only sizes that fit are served"); int m = (int)(d.base + 256 - p); A(p >= d.base && n <= m, "inside the pool"); for (int i = 0; i < d.k; i++) if (d.b[i].live) A(d.b[i].p + d.b[i].n <= p || n <= (int)(d.b[i].p - p), "live blocks do not overlap"); }
    else vp_reach("refused");
    d.check();
}
// sizes stay symbolic; the first byte of each block is written and must survive
ENTRY sym() {
    typedef StaticMemAllocator<64, 24> SMA; unsigned char *base = (unsigned char *)SMA::allocate(64); SMA::deallocate(base, 64);
    Blk b[8]; int k = 0, steps = 3;
    for (int i = 0; i < steps; i++) {
        int l = 0; for (int j = 0; j < k; j++) l += b[j].live;
        int op = pick("op", i == steps - 1 ? 1 : 1 + l);
        if (op == 0) {
            int n = vp_u8("n"); unsigned char *p = (unsigned char *)SMA::allocate(n);
            if (!p) { vp_reach("full"); continue; }
            int at = (int)(p - base); A(n > 0 && at >= 0 && at % 8 == 0 && n <= 64 - at, "aligned and inside the pool");
            for (int j = 0; j < k; j++) { int o = (int)(b[j].p - base); if (b[j].live) { vp_reach("live"); A(at < o ? n <= o - at : b[j].n <= at - o, "live blocks do not overlap"); } else if (at == o) vp_reach("reuse"); }
            b[k].p = p; b[k].n = n; b[k].live = true; p[0] = 10 + k; k++;
        } else {
            int w = 0, c = op - 1; while (!b[w].live || c-- > 0) w++;
            A(SMA::deallocate(b[w].p, b[w].n), "a block is taken back"); b[w].live = false;
        }
        for (int j = 0; j < k; j++) if (b[j].live) A(b[j].p[0] == 10 + j, "a block keeps its contents until it is released");
    }
    vp_trace(k);
}
ENTRY longrun() {
    typedef StaticMemAllocator<1024, 128> SMA; Drv<SMA, 1024> d; int how = pick("order", 4), m = pick("merge", 3), big = pick("big", 2);
    for (int i = 0; i < 24; i++) d.alloc(big ? 130 + 8 * (i % 3) : 1 + i * 13 % 56);
    int n = d.k;
    for (int i = 0; i < n; i++) { int w = how == 0 ? i : how == 1 ? n - 1 - i : how == 2 ? i * 5 % n : (i * 2) % n; if (d.b[w].live) d.release(w); if (m == 1 && i % 3 == 0) SMA::memory_merge(); }
    if (m) SMA::memory_merge();
    SMA::dump();
    while (d.k < 60 && d.alloc(1 + d.k * 7 % 90)) {}
    d.check(); SMA::dump(); vp_reach("done"); vp_trace(d.k);
}
ENTRY two() {
    typedef StaticMemAllocator<64, 32> P; typedef StaticMemAllocator<128, 32> Q; Drv<P, 64> p; Drv<Q, 128> q;
    A(p.base + 64 <= q.base || q.base + 128 <= p.base, "different allocators have different pools");
    for (int i = 0; i < 3; i++) { int n = 1 + pick("n", 20); if (pick("which", 2)) p.alloc(n); else q.alloc(n); p.check(); q.check(); }
    vp_reach("done");
}
