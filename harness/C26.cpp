// C26: the static memory allocator's accounting is exact, it serves whatever fits its
// largest free block, refusals change nothing, and merging never loses or hides memory.
#include "vp.hpp"
using namespace dstruct;
//@assume a block is released once, with the size it was requested with; pool and small-block limits are multiples of 8
//@entry hist reach=full,reuse,merged :: pool of 96 bytes, small blocks up to 32: every history of 5 (thorough: 6) allocate(s), release of any block, merge; s in {1,8,9,24,32,33,48,96}; then release of everything and a merge
//@entry small reach=full,reuse,merged :: pool of 64 bytes, small blocks up to 64: every history of 6 (thorough: 7); s in {1,8,16,24}; then everything released and merged is one block again
//@entry large reach=full,reuse,merged :: pool of 240 bytes, small blocks up to 16: every history of 6 (thorough: 7); s in {33,40,80,120}; then everything released and merged is one block again
//@entry coalesce reach=merged :: pool of 96 bytes split into 3 to 6 (thorough: 7) blocks of 8, 16, 24 bytes in every order, released in every order, one merge: the whole pool is one block
//@entry any reach=served,refused :: every request size (all 2^32) after one of 6 fragmentations of a pool of 256 bytes
//@entry bad reach=done :: deallocate of a null pointer with any size, and of a block with any non-positive size, are refused
//@entry sym reach=full,reuse,live :: pool of 64 bytes, small blocks up to 24: every history of 2 steps, each an allocation of any size 0..255 or the release of any block, then one more allocation of any size 0..255 and a merge
//@entry longrun reach=done :: pool of 1024 bytes, small blocks up to 128: up to 40 blocks of mixed sizes, released in four orders with merges
static int up(int n) { return (n + 7) / 8 * 8; }
template <typename SMA, int SIZE, int MAXB> struct Acc {
    enum { MAX = 64 }; unsigned char *p[MAX]; int sz[MAX]; bool on[MAX]; int k, used; unsigned char *base; bool taken[SIZE / 8];
    Acc() : k(0), used(0) {
        for (int i = 0; i < SIZE / 8; i++) taken[i] = false;
        A(SMA::free_mem_size() == SIZE && SMA::max_free_mblock_size() == SIZE, "a fresh allocator has its whole pool free, in one block");
        base = (unsigned char *)SMA::allocate(SIZE); A(base != nullptr, "which can be allocated");
        A(SMA::free_mem_size() == 0 && SMA::max_free_mblock_size() == 0, "then nothing is free");
        A(SMA::deallocate(base, SIZE), "the block is taken back");
        check();
    }
    int longest() const { int best = 0, cur = 0; for (int i = 0; i < SIZE / 8; i++) { cur = taken[i] ? 0 : cur + 8; if (cur > best) best = cur; } return best; }
    void check() {
        int f = SMA::free_mem_size(), m = SMA::max_free_mblock_size();
        A(f == SIZE - used, "free_mem_size() is the pool minus what is handed out");
        A(m >= 0 && (m > 0) == (f > 0), "there is a free block iff there is free memory");
        A(m <= longest(), "max_free_mblock_size() is no more than the longest free stretch");
        SMA::dump();
    }
    void mark(int i, bool t) { int a = (int)(p[i] - base) / 8; for (int j = a; j < a + up(sz[i]) / 8; j++) { A(j >= 0 && j < SIZE / 8 && taken[j] != t, "blocks are disjoint and inside the pool"); taken[j] = t; } used += t ? up(sz[i]) : -up(sz[i]); on[i] = t; }
    bool alloc(int n) {
        int f = SMA::free_mem_size(), m = SMA::max_free_mblock_size(); unsigned char *q = (unsigned char *)SMA::allocate(n);
        A((q != nullptr) == (up(n) <= m), "a request is served iff it fits the largest free block");
        if (!q) { A(SMA::free_mem_size() == f && SMA::max_free_mblock_size() == m, "a refusal changes nothing"); vp_reach("full"); check(); return false; }
        for (int i = 0; i < k; i++) if (!on[i] && p[i] == q) vp_reach("reuse");
        p[k] = q; sz[k] = n; mark(k, true); k++; check();
        return true;
    }
    int live() const { int c = 0; for (int i = 0; i < k; i++) c += on[i]; return c; }
    int nth(int w) const { for (int i = 0; i < k; i++) if (on[i] && w-- == 0) return i; return -1; }
    void release(int i) {
        int m = SMA::max_free_mblock_size();
        A(SMA::deallocate(p[i], sz[i]), "a block is taken back"); mark(i, false); check();
        A(m <= MAXB || SMA::max_free_mblock_size() >= m, "a release does not shrink the largest block");
        A(SMA::max_free_mblock_size() >= up(sz[i]), "what was released can be allocated again");
    }
    void merge() {
        int m = SMA::max_free_mblock_size(); SMA::memory_merge(); check();
        int l = longest(), x = SMA::max_free_mblock_size();
        A(x >= m, "merging does not make the largest block smaller");
        A(x >= (l < MAXB + 8 ? l : MAXB + 8), "after merging, every size up to the small-block limit that fits somewhere is available");
    }
    void drain(bool whole) {
        while (live()) release(nth(0));
        merge(); vp_reach("merged");
        if (whole) { A(SMA::max_free_mblock_size() == SIZE, "everything released and merged is the whole pool again"); alloc(SIZE); A(k > 0 && on[k - 1], "and can be allocated at once"); }
    }
};
template <typename SMA, int SIZE, int MAXB> static void run(int steps, const int *sz, int nsz, bool whole) {
    Acc<SMA, SIZE, MAXB> d;
    for (int i = 0; i < steps; i++) {
        int l = d.live(), op = pick("op", nsz + 1 + l);
        if (op < nsz) d.alloc(sz[op]); else if (op == nsz) { vp_assume(i > 0); d.merge(); } else d.release(d.nth(op - nsz - 1));
    }
    vp_trace(SMA::max_free_mblock_size());
    d.drain(whole);
}
ENTRY hist() { const int s[] = {8, 1, 9, 24, 32, 33, 48, 96}; run<StaticMemAllocator<96, 32>, 96, 32>(DEEP(5, 6), s, 8, false); }
ENTRY small() { const int s[] = {8, 1, 16, 24}; run<StaticMemAllocator<64, 64>, 64, 64>(DEEP(6, 7), s, 4, true); }
ENTRY large() { const int s[] = {33, 40, 80, 120}; run<StaticMemAllocator<240, 16>, 240, 16>(DEEP(6, 7), s, 4, true); }
ENTRY coalesce() {
    Acc<StaticMemAllocator<96, 96>, 96, 96> d; int n = 3 + pick("blocks", DEEP(4, 5)), left = 96;
    for (int i = 0; i < n - 1; i++) { int s = 8 + 8 * pick("size", 3); vp_assume(s < left); A(d.alloc(s), "served"); left -= s; }
    A(d.alloc(left), "the rest is one block");
    while (d.live()) d.release(d.nth(d.live() == 1 ? 0 : pick("which", d.live())));
    d.merge(); vp_reach("merged"); A((StaticMemAllocator<96, 96>::max_free_mblock_size() == 96), "everything released and merged is the whole pool again");
}
ENTRY any() {
    typedef StaticMemAllocator<256, 64> SMA; Acc<SMA, 256, 64> d; int f = pick("fragmentation", 6);
    for (int i = 0; i < f; i++) d.alloc(8 + 24 * (i % 3));
    if (f > 2) { d.release(0); d.release(2); } if (f == 5) d.merge();
    int n = vp_int("n"), fr = SMA::free_mem_size(), m = SMA::max_free_mblock_size(); bool ok = SMA::allocate(n) != nullptr;
    A(ok == (n > 0 && n <= m), "a request is served iff it fits the largest free block");
    if (ok) { vp_reach("served"); A(SMA::free_mem_size() == fr - ((n + 7) & ~7), "free_mem_size() drops by the rounded size"); }
    else { vp_reach("refused"); A(SMA::free_mem_size() == fr && SMA::max_free_mblock_size() == m, "a refusal changes nothing"); }
    SMA::dump();
}
ENTRY bad() {
    typedef StaticMemAllocator<128, 64> SMA; Acc<SMA, 128, 64> d; d.alloc(24); d.alloc(8);
    int n = vp_int("n"), m = SMA::max_free_mblock_size();
    if (pick("null", 2)) A(!SMA::deallocate(nullptr, n), "a null pointer is refused"); else { vp_assume(n <= 0); A(!SMA::deallocate(d.p[0], n), "a non-positive size is refused"); }
    A(SMA::free_mem_size() == 96 && SMA::max_free_mblock_size() == m, "and changes nothing"); SMA::dump(); d.check(); vp_reach("done");
}
// sizes stay symbolic
ENTRY sym() {
    typedef StaticMemAllocator<64, 24> SMA; unsigned char *p[8]; int n[8], k = 0, used = 0; bool on[8];
    for (int i = 0; i < 3; i++) {
        int l = 0; for (int j = 0; j < k; j++) l += on[j];
        int op = pick("op", i == 2 ? 1 : 1 + l);
        if (op == 0) {
            int s = vp_u8("n"), m = SMA::max_free_mblock_size(), f = SMA::free_mem_size(); p[k] = (unsigned char *)SMA::allocate(s);
            A((p[k] != nullptr) == (s > 0 && s <= m), "a request is served iff it fits the largest free block");
            if (!p[k]) { A(SMA::free_mem_size() == f && SMA::max_free_mblock_size() == m, "a refusal changes nothing"); vp_reach("full"); continue; }
            for (int j = 0; j < k; j++) { if (on[j]) vp_reach("live"); else if (p[j] == p[k]) vp_reach("reuse"); }
            n[k] = s; on[k] = true; used += (s + 7) & ~7; k++;
        } else {
            int w = 0, c = op - 1; while (!on[w] || c-- > 0) w++;
            A(SMA::deallocate(p[w], n[w]), "a block is taken back"); on[w] = false; used -= (n[w] + 7) & ~7;
        }
        int f = SMA::free_mem_size(), m = SMA::max_free_mblock_size();
        A(f == 64 - used, "free_mem_size() is the pool minus what is handed out"); A(m >= 0 && m <= f && (m > 0) == (f > 0), "there is a free block iff there is free memory");
        SMA::dump();
    }
    int m = SMA::max_free_mblock_size(); SMA::memory_merge(); A(SMA::max_free_mblock_size() >= m && SMA::free_mem_size() == 64 - used, "merging loses nothing"); SMA::dump();
    vp_trace(k);
}
ENTRY longrun() {
    typedef StaticMemAllocator<1024, 128> SMA; Acc<SMA, 1024, 128> d; int how = pick("order", 4), m = pick("merge", 3), big = pick("big", 2);
    for (int i = 0; i < 24; i++) d.alloc(big ? 130 + 8 * (i % 3) : 1 + i * 13 % 56);
    int n = d.k;
    for (int i = 0; i < n; i++) { int w = how == 0 ? i : how == 1 ? n - 1 - i : how == 2 ? i * 5 % n : (i * 2) % n; if (d.on[w]) d.release(w); if (m == 1 && i % 3 == 0) d.merge(); }
    if (m) d.merge();
    while (d.k < 60 && d.alloc(1 + d.k * 7 % 90)) {}
    d.drain(false); vp_reach("done"); vp_trace(d.k);
}
