// Native runtime: replays recorded inputs against the compiled library.
// usage: prog ENTRY inputs.txt      exit 0: ran to the end (prints HASH), 42: a
// property assertion failed, 43: an assumption was not met (input diverged).
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <set>
#include <vector>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>

// state of the runtime, kept apart from the static data of the code under test
#define RT __attribute__((section("vprt"))) static
RT std::vector<uint64_t> in;
RT size_t pos = 0;
RT uint64_t h = 1469598103934665603ull;
RT int blocks = 0, mallocs = 0;
RT std::map<void *, int> sizes;
RT std::set<const void *> live;
RT std::set<void *> mblocks;
RT int fillByte = -1;
static uint64_t next() { return pos < in.size() ? in[pos++] : (pos++, 0); }
[[noreturn]] static void bad(const char *kind, const char *m) { printf("VP-FAIL %s: %s\n", kind, m); fflush(stdout); _exit(42); }
static void releasing(void *p, size_t n) {
    auto it = live.lower_bound(p);
    if (it != live.end() && (const char *)*it < (const char *)p + n) bad("lifetime", "storage released while an element in it is still alive");
}
extern "C" {
unsigned char vp_u8(const char *) { return next(); }
unsigned short vp_u16(const char *) { return next(); }
unsigned vp_u32(const char *) { return next(); }
unsigned long vp_u64(const char *) { return next(); }
int vp_int(const char *) { return (int)next(); }
int vp_choice(const char *, int n) { uint64_t x = next(); return x < (uint64_t)n ? (int)x : 0; }
void vp_assume(bool c) { if (!c) { puts("VP-ASSUME"); fflush(stdout); _exit(43); } }
void vp_assert(bool c, const char *m) { if (!c) bad("assertion", m); }
void vp_fail(const char *m) { bad("assertion", m); }
void vp_reach(const char *) {}
static void stopped(int) { static const char d[] = "0123456789abcdef"; char b[23] = "HASH "; for (int i = 0; i < 16; i++) b[5 + i] = d[h >> (60 - 4 * i) & 15]; b[21] = '\n'; (void)!write(1, b, 22); _exit(0); }
void vp_stop_ok(bool on) { for (int s : {SIGSEGV, SIGABRT, SIGILL, SIGTRAP}) signal(s, on ? stopped : SIG_DFL); }
void vp_trace(unsigned long x) { h ^= x; h *= 1099511628211ull; h ^= h >> 32; }
#ifdef VP_PAGES // every block on pages of its own, so that writes can be forbidden
static size_t pages(int n) { return ((size_t)n + 4095) / 4096 * 4096; }
static void *blockAlloc(int n) { return mmap(nullptr, pages(n), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
static void blockFree(void *p, int n) { munmap(p, pages(n)); }
static void written(int) { (void)!write(1, "VP-FAIL read-only: a reading operation writes to the container\n", 63); _exit(42); }
extern char __data_start, _end, __start_vprt, __stop_vprt;
RT std::vector<char> before;
__attribute__((no_sanitize_address)) static std::vector<char> statics() {
    std::vector<char> v;
#if !defined(__has_feature)
    for (char *p = &__data_start; p < &_end; p++) if (p < &__start_vprt || p >= &__stop_vprt) v.push_back(*p);
#endif
    return v;
}
__attribute__((no_sanitize_address)) void vp_readonly(bool on) {
    if (on) before = statics(); else if (statics() != before) bad("read-only", "a reading operation writes to static storage");
    signal(SIGSEGV, on ? written : SIG_DFL);
    for (auto &b : sizes) mprotect(b.first, pages(b.second), on ? PROT_READ : PROT_READ | PROT_WRITE);
}
RT std::vector<std::pair<void *, int> > apart;
RT std::vector<std::pair<void *, int> > apart0;
static void shared(int) { (void)!write(1, "VP-FAIL shared: an operation on one container touches another's storage\n", 72); _exit(42); }
__attribute__((no_sanitize_address)) void vp_apart(int phase) {
    if (phase == 1) { apart0.assign(sizes.begin(), sizes.end()); return; }
    if (phase == 2) { apart.clear(); for (auto &b : sizes) { bool old = false; for (auto &o : apart0) if (o.first == b.first) old = true; if (!old) apart.push_back({b.first, b.second}); } return; }
    if (phase == 3) before = statics(); else if (statics() != before) bad("shared", "an operation writes to static storage, which all containers share");
    signal(SIGSEGV, phase == 3 ? shared : SIG_DFL);
    for (auto &b : apart) mprotect(b.first, pages(b.second), phase == 3 ? PROT_NONE : PROT_READ | PROT_WRITE);
}
#else
void vp_apart(int) {}
static void *blockAlloc(int n) { return malloc(n); }
static void blockFree(void *p, int) { free(p); }
void vp_readonly(bool) {}
#endif
#ifdef VP_REC // built with -finstrument-functions
#define NOI __attribute__((no_instrument_function))
RT struct { void *f; int n; } act[4096] = {};
RT bool recOn = false; RT int recMax = 0;
NOI static int slot(void *f) { size_t i = (size_t)f / 16 % 4096; while (act[i].f && act[i].f != f) i = (i + 1) % 4096; act[i].f = f; return (int)i; }
NOI void __cyg_profile_func_enter(void *f, void *) { int n = ++act[slot(f)].n; if (recOn && n > recMax) recMax = n; }
NOI void __cyg_profile_func_exit(void *f, void *) { --act[slot(f)].n; }
NOI void vp_rec_reset() { recOn = true; recMax = 0; }
NOI int vp_rec_max() { return recMax; }
#else
void vp_rec_reset() {}
int vp_rec_max() { return 0; }
#endif
void *vp_alloc(int n) {
    if (n <= 0) bad("allocator-size", "allocate() called with a non-positive size");
    void *p = blockAlloc(n);
    if (fillByte >= 0) memset(p, fillByte, n);
    sizes[p] = n; blocks++;
    return p;
}
void vp_free(void *p, int n) {
    if (!p) bad("memory", "deallocate(nullptr)");
    auto it = sizes.find(p);
    if (it == sizes.end()) bad("memory", "release of something that is not a live block of this allocator");
    if (it->second != n) bad("allocator-size", "block released with a different size");
    releasing(p, n);
    sizes.erase(it); blocks--;
    blockFree(p, n);
}
void *vp_malloc(unsigned long n) {
    void *p = malloc(n ? n : 1);
    if (fillByte >= 0) memset(p, fillByte, n);
    mblocks.insert(p); blocks++; mallocs++;
    return p;
}
void vp_mfree(void *p) {
    if (!p) return;
    if (sizes.count(p)) bad("allocator-mismatch", "custom allocator block released through free");
    if (mblocks.erase(p)) blocks--;
    releasing(p, 1);
    free(p);
}
int vp_live_blocks() { return blocks; }
int vp_mallocs() { return mallocs; }
void vp_obj_ctor(const void *p) { if (!live.insert(p).second) bad("lifetime", "object constructed on top of a live object"); }
void vp_obj_dtor(const void *p) { if (!live.erase(p)) bad("lifetime", "destructor run on something that is not a live object"); }
void vp_obj_use(const void *p) { if (!live.count(p)) bad("lifetime", "use of something that is not a live object"); }
int vp_live_objs() { return (int)live.size(); }
int vp_is_valloc(const void *p) {
    auto it = sizes.upper_bound(const_cast<void *>(p));
    if (it == sizes.begin()) return 0;
    --it;
    return (const char *)p < (const char *)it->first + it->second;
}
}
// one entry point per line of VP_ENTRIES (written by the driver)
#define X(n) extern "C" void n();
#include "entries.inc"
#undef X
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    if (const char *f = getenv("VP_FILL")) fillByte = atoi(f);
    FILE *f = fopen(argv[2], "r");
    if (!f) return 2;
    unsigned long long x;
    while (fscanf(f, "%llu", &x) == 1) in.push_back(x);
    fclose(f);
    void (*fn)() = nullptr;
#define X(n) if (!strcmp(argv[1], #n)) fn = n;
#include "entries.inc"
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    fn();
    printf("HASH %016llx\n", (unsigned long long)h);
    fflush(stdout);
    _exit(0);
}
