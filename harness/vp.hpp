// Prologue of every harness: the verification primitives (interpreted by the
// symbolic engine; implemented by rt.cpp when a counterexample is replayed
// natively), the checked allocator and the element types.
#ifndef VP_HPP
#define VP_HPP
#include <cassert>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>

extern "C" {
unsigned char vp_u8(const char *name);
unsigned short vp_u16(const char *name);
unsigned vp_u32(const char *name);
unsigned long vp_u64(const char *name);
int vp_int(const char *name);
int vp_choice(const char *name, int n);          // any value in 0..n-1
void vp_assume(bool c);
void vp_assert(bool c, const char *msg);
void vp_fail(const char *msg) __attribute__((noreturn));
void vp_reach(const char *label);                // vacuity witness: must be hit
void vp_trace(unsigned long v);                  // observable outcome
void *vp_alloc(int bytes);                       // custom allocator, size checked on free
void vp_free(void *p, int bytes);
void *vp_malloc(unsigned long n);
void vp_mfree(void *p);
int vp_live_blocks();
void vp_obj_ctor(const void *p);
void vp_obj_dtor(const void *p);
void vp_obj_use(const void *p);
int vp_live_objs();
int vp_is_valloc(const void *p);                 // inside a live vp_alloc block?
void vp_stop_ok(bool on);                        // from now on stopping the program (failed library
                                                 // assertion, access through null) is a proper end
void vp_apart(int phase);                       // 1, 2: blocks obtained in between belong to one container; 3: from here on they must not be touched, nor static data be written; 0: off
void vp_readonly(bool on);                       // while on, no vp_alloc block that exists may change
void vp_rec_reset();                             // measure recursion from here:
int vp_rec_max();                                // the most activations of one function at a time
int vp_mallocs();                                // calls of malloc so far
}

#define malloc vp_malloc
#define free vp_mfree
#include <dstruct.hpp>
#undef malloc
#undef free

// Allocator handed to the containers: every byte must come from it and go back to it.
struct VAlloc {
    static void *allocate(int bytes) { return vp_alloc(bytes); }
    static void deallocate(void *p, int bytes) { vp_free(p, bytes); }
};

// Element type with an observable lifetime.
struct Obj {
    int v;
    Obj() : v(0) { vp_obj_ctor(this); }
    Obj(int x) : v(x) { vp_obj_ctor(this); }
    Obj(const Obj &o) : v((vp_obj_use(&o), o.v)) { vp_obj_ctor(this); }
    Obj &operator=(const Obj &o) { vp_obj_use(this); vp_obj_use(&o); v = o.v; return *this; }
    ~Obj() { vp_obj_dtor(this); v = -77; }
    int get() const { vp_obj_use(this); return v; }
    bool operator==(const Obj &o) const { return get() == o.get(); }
    bool operator!=(const Obj &o) const { return get() != o.get(); }
    bool operator<(const Obj &o) const { return get() < o.get(); }
    bool operator>(const Obj &o) const { return get() > o.get(); }
};
// Plain element wider than an int, with a self check: a torn or stale copy shows.
struct Wide {
    long a; int b;
    Wide() : a(0), b(0) {}
    Wide(int x) : a(x), b(~x) {}
    bool operator==(const Wide &o) const { return a == o.a && b == o.b; }
    bool operator!=(const Wide &o) const { return !(*this == o); }
    bool operator<(const Wide &o) const { return a < o.a; }
    bool operator>(const Wide &o) const { return a > o.a; }
};
// One byte element: exposes size and alignment arithmetic done in the wrong unit.
struct Byte {
    unsigned char c;
    Byte() : c(0) {}
    Byte(int x) : c((unsigned char)x) {}
    bool operator==(const Byte &o) const { return c == o.c; }
    bool operator!=(const Byte &o) const { return c != o.c; }
    bool operator<(const Byte &o) const { return c < o.c; }
    bool operator>(const Byte &o) const { return c > o.c; }
};

// Key with a payload: order and equality look at the key only.
struct KV {
    int k, p;
    KV() : k(0), p(0) {}
    KV(int x) : k(x), p(~x) {}
    KV(int x, int y) : k(x), p(y) {}
    bool operator==(const KV &o) const { return k == o.k; }
    bool operator!=(const KV &o) const { return k != o.k; }
    bool operator<(const KV &o) const { return k < o.k; }
    bool operator>(const KV &o) const { return k > o.k; }
};

static inline int V(int x) { return x; }
static inline int V(unsigned char x) { return x; }
static inline int V(char x) { return (unsigned char)x; }
static inline int V(const Obj &x) { return x.get(); }
static inline int V(const Wide &x) { return x.b == ~(int)x.a ? (int)x.a : -999999; }
static inline int V(const Byte &x) { return x.c; }
static inline int V(const KV &x) { return x.k; }
static inline int V(int *const &x) { return x ? *x : 0; }
// an arbitrary value an element of type T can hold
template <typename T> static inline int in(const char *n) { return vp_int(n); }
template <> inline int in<Byte>(const char *n) { return vp_u8(n); }
template <> inline int in<char>(const char *n) { return vp_u8(n); }

// any value in 0..n-1, split into one path each
static inline int pick(const char *n, int m) {
    int c = vp_choice(n, m);
    for (int k = 0; k < m - 1; k++) if (c == k) return k;
    return m - 1;
}

#define A(c, msg) vp_assert((c), msg)
#define ENTRY extern "C" void
#ifdef VP_DEEP
#define DEEP(q, t) (t)
#else
#define DEEP(q, t) (q)
#endif

// Everything a harness allocated is back, every element was destroyed.
static inline void allGone() {
    A(vp_live_blocks() == 0, "all storage is released");
    A(vp_live_objs() == 0, "every element is destroyed exactly once");
}

// Reference sequence.
template <int MAX> struct SeqT {
    int a[MAX]; int b, e;
    SeqT() : b(MAX / 2), e(MAX / 2) {}
    int n() const { return e - b; }
    int &operator[](int i) { return a[b + i]; }
    int operator[](int i) const { return a[b + i]; }
    void pushBack(int x) { a[e++] = x; }
    void pushFront(int x) { a[--b] = x; }
    void popBack() { e--; }
    void popFront() { b++; }
    void clear() { b = e = MAX / 2; }
    int back() const { return a[e - 1]; }
    int front() const { return a[b]; }
};
typedef SeqT<128> Seq;
typedef SeqT<1024> LongSeq;
template <typename C, int M> static void sameSize(const C &c, const SeqT<M> &m) {
    A((int)c.size() == m.n(), "size() counts the elements");
    A(c.empty() == (m.n() == 0), "empty() iff size 0");
}
// forward iteration yields exactly the reference sequence
template <typename C, int M> static void sameIter(const C &c, const SeqT<M> &m) {
    int i = 0;
    for (auto it = c.begin(); it != c.end(); it++) {
        A(i < m.n(), "iteration does not run past the end");
        if (i >= m.n()) return;
        A(V(*it) == m[i], "iteration yields the elements in order");
        i++;
    }
    A(i == m.n(), "iteration reaches every element");
}
template <typename C, int M> static void sameEnds(const C &c, const SeqT<M> &m) {
    if (m.n() == 0) return;
    A(V(c.front()) == m.front(), "front() is the first element");
    A(V(c.back()) == m.back(), "back() is the last element");
}
template <typename C, int M> static void sameIndex(const C &c, const SeqT<M> &m) {
    int n = m.n();
    for (int k = 0; k < n; k++) {
        A(V(c[k]) == m[k], "operator[] yields the k-th element");
        A(V(c[k - n]) == m[k], "negative index counts from the end");
    }
}
template <int M> static void traceSeq(const SeqT<M> &m) { for (int k = 0; k < m.n(); k++) vp_trace((unsigned)m[k]); vp_trace(m.n()); }

// Reference set of integers, symbolic and branch free: x is a member iff some
// entry is alive and equal to x.
struct SymSet {
    enum { MAX = 24 };
    int v[MAX]; int alive[MAX]; int pay[MAX]; int n;
    SymSet() : n(0) {}
    int has(int x) const { int r = 0; for (int i = 0; i < n; i++) r |= alive[i] & (int)(v[i] == x); return r; }
    int size() const { int r = 0; for (int i = 0; i < n; i++) r += alive[i]; return r; }
    void add(int x, int p = 0) { int h = has(x); v[n] = x; alive[n] = 1 ^ h; pay[n] = p; n++; }
    void put(int x, int p) { del(x); add(x, p); }   // overwrite or insert
    void del(int x) { for (int i = 0; i < n; i++) alive[i] &= (int)(v[i] != x); }
    // the member x (if any) carries payload p
    int pairs(int x, int p) const { int r = 0; for (int i = 0; i < n; i++) r |= alive[i] & (int)(v[i] == x) & (int)(pay[i] == p); return r; }
    // no member strictly between lo and hi
    int noneBetween(int lo, int hi) const { int r = 1; for (int i = 0; i < n; i++) r &= 1 ^ (alive[i] & (int)(lo < v[i]) & (int)(v[i] < hi)); return r; }
    int noneAbove(int lo) const { int r = 1; for (int i = 0; i < n; i++) r &= 1 ^ (alive[i] & (int)(lo < v[i])); return r; }
    int noneBelow(int hi) const { int r = 1; for (int i = 0; i < n; i++) r &= 1 ^ (alive[i] & (int)(v[i] < hi)); return r; }
    void clear() { n = 0; }
};
#endif
