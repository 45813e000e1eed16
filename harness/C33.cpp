// C33: exhausted memory and detected misuse stop the program; it never continues on damaged contents.
#include "zoo.hpp"
// An allocator that runs dry: `spare` requests are served, then one (or every further one) yields nullptr.
// Only from the first refusal on may the program be stopped (vp_stop_ok); every step it does complete must be right.
static int spare; static bool forever, strict;
struct Dry {
    static void *allocate(int bytes) {
        if (strict) vp_fail("an operation that needs no memory requests some");
        if (spare == 0 || (spare < 0 && forever)) { spare = -1; vp_stop_ok(true); return nullptr; }
        spare--;
        return vp_alloc(bytes);
    }
    static void deallocate(void *p, int bytes) { if (p) vp_free(p, bytes); }
};
//@native -O0
//@assume memory below address 4096 is not accessible (any hosted platform), so that an access there stops the program; the allocator reports exhaustion by returning nullptr; misuse is checked only where the library asserts it
//@entry dry_seq reach=stopped,survived :: Vector, singly and doubly linked list, deque (block 2 and 3), Queue, Stack of int: allocator refuses the f-th request (f = 0..6, thorough 0..9) once or from then on; 4 pushes (at arbitrary ends), 2 (thorough: 3) arbitrary operations, contents checked after each completed operation
//@entry dry_objs reach=stopped,survived :: the same for Vector, lists and deque of lifetime-tracked elements, 2 pushes, 2 (thorough: 3) arbitrary operations
//@entry dry_trees reach=stopped,survived :: BST, AVL, Map: f = 0..3, 2 pushes and 2 arbitrary operations
//@entry dry_more reach=stopped,survived :: Heap, MinStack, String, DisjointSet: f = 0..6, 3 insertions and 2 arbitrary operations
//@entry dry_copy reach=stopped,survived :: every container above: copy construction and copy assignment with the allocator dry at the f-th request (f = 0..4) of the copy; source unchanged, a completed copy is equal to it
//@entry dry_move reach=done :: every container above except Heap and String: move construction, move assignment over a container, clear and destruction request no memory, n<=3 elements
//@entry dry_resize reach=stopped,survived :: Vector: resize(n) and resize(n, x), n<=6, range of sizes, with a dry allocator
//@entry vector reach=stopped :: pop_back, back on an empty Vector (fresh, emptied, cleared), [] (mutable, const) with any index >= size, size<=4
//@entry stack reach=stopped :: pop, top on an empty Stack and MinStack (fresh, emptied, cleared); pop, top on an empty heap
//@entry lists reach=stopped :: pop, pop_front, back, pop_back on an empty singly or doubly linked list (fresh, emptied, cleared)
//@entry keys reach=stopped :: constant Map lookup of any absent key, push of any present key into a Map or an AVL tree, up to 3 (thorough: 4) arbitrary keys
//@entry norelease reach=stopped :: constructing at or destroying the null address
static void supply(int n) { spare = n; forever = true; }
static void fail(int n) { spare = pick("fail", n); forever = pick("forever", 2) != 0; }
template <typename Z> static void dry(int adds, int steps, int fails) {
    Z z; supply(1000); typename Z::C c; fail(fails);
    for (int i = 0; i < adds; i++) { z.add(c); z.check(c); }
    for (int i = 0; i < steps; i++) { z.op(c, pick("op", Z::OPS)); z.check(c); }
    vp_reach("survived");
}
ENTRY dry_seq() {
    int w = pick("kind", 7), s = DEEP(2, 3), f = DEEP(7, 10);
    if (w == 0) dry<ZVector<int, Dry>>(4, s, f);
    else if (w == 1) dry<ZSList<int, Dry>>(4, s, f);
    else if (w == 2) dry<ZDList<int, Dry>>(4, s, f);
    else if (w == 3) dry<ZDeque<int, 2, Dry>>(4, s, f);
    else if (w == 4) dry<ZDeque<int, 3, Dry>>(2, s, f);
    else if (w == 5) dry<ZQueue<int, Dry>>(4, s, f);
    else dry<ZStack<int, Dry>>(4, s, f);
}
ENTRY dry_objs() {
    int w = pick("kind", 4), s = DEEP(2, 3);
    if (w == 0) dry<ZVector<Obj, Dry>>(2, s, 5);
    else if (w == 1) dry<ZSList<Obj, Dry>>(2, s, 5);
    else if (w == 2) dry<ZDList<Obj, Dry>>(2, s, 5);
    else dry<ZDeque<Obj, 2, Dry>>(2, s, 6);
}
ENTRY dry_trees() {
    int w = pick("kind", 3);
    if (w == 0) dry<ZBST<int, Dry>>(2, 2, 4);
    else if (w == 1) dry<ZAVL<int, Dry>>(2, 2, 4);
    else dry<ZMap<int, Dry>>(2, 2, 4);
}
ENTRY dry_more() {
    int w = pick("kind", 4);
    if (w == 0) dry<ZHeap<KV, Dry>>(3, 2, 7);
    else if (w == 1) dry<ZMinStack<int, Dry>>(3, 2, 7);
    else if (w == 2) dry<ZString<Dry>>(3, 2, 7);
    else dry<ZUF<Dry>>(3, 2, 7);
}
#define EVERY(F, ...) \
    int w = pick("kind", 12); \
    if (w == 0) F<ZVector<int, Dry>>(__VA_ARGS__); else if (w == 1) F<ZSList<int, Dry>>(__VA_ARGS__); else if (w == 2) F<ZDList<int, Dry>>(__VA_ARGS__); \
    else if (w == 3) F<ZDeque<int, 2, Dry>>(__VA_ARGS__); else if (w == 4) F<ZQueue<int, Dry>>(__VA_ARGS__); else if (w == 5) F<ZStack<int, Dry>>(__VA_ARGS__); \
    else if (w == 6) F<ZBST<int, Dry>>(__VA_ARGS__); else if (w == 7) F<ZAVL<int, Dry>>(__VA_ARGS__); else if (w == 8) F<ZMap<int, Dry>>(__VA_ARGS__); \
    else if (w == 9) F<ZHeap<KV, Dry>>(__VA_ARGS__); else if (w == 10) F<ZMinStack<int, Dry>>(__VA_ARGS__); else F<ZString<Dry>>(__VA_ARGS__);
template <typename Z> static void dryCopy() {
    supply(1000); Z z; typename Z::C c; int n = pick("n", 4);
    for (int i = 0; i < n; i++) z.add(c);
    if (pick("assign", 2)) {
        Z y; typename Z::C d; int m = pick("m", 2); for (int i = 0; i < m; i++) y.add(d);
        fail(5); d = c; supply(1000); z.check(d);
    } else { fail(5); typename Z::C d(c); supply(1000); z.check(d); }
    z.check(c);
    vp_reach("survived");
}
ENTRY dry_copy() { EVERY(dryCopy) }
template <typename Z> static void clearIt(typename Z::C &c, Z &z) { c.clear(); z.forget(); }
template <typename Z> static void dryMove() {
    {
        supply(1000); Z z; typename Z::C c; int n = pick("n", 4);
        for (int i = 0; i < n; i++) z.add(c);
        int how = pick("how", 3);
        if (how == 0) {
            strict = true; typename Z::C d(dstruct::move(c)); strict = false;
            z.check(d); vp_trace(n); strict = true;
        } else if (how == 1) {
            Z y; typename Z::C d; int m = pick("m", 3); for (int i = 0; i < m; i++) y.add(d);
            strict = true; d = dstruct::move(c); strict = false;
            z.check(d); vp_trace(m); strict = true;
        } else strict = true;
    }
    strict = false;
    allGone();
    vp_reach("done");
}
template <typename Z> static void dryClear() {
    {
        supply(1000); Z z; typename Z::C c; int n = pick("n", 4);
        for (int i = 0; i < n; i++) z.add(c);
        strict = true; c.clear(); strict = false; z.forget();
        z.add(c); z.check(c);
    }
    allGone();
    vp_reach("done");
}
ENTRY dry_move() {
    int w = pick("kind", 10);
    if (w == 0) dryMove<ZVector<int, Dry>>(); else if (w == 1) dryMove<ZSList<int, Dry>>(); else if (w == 2) dryMove<ZDList<int, Dry>>();
    else if (w == 3) dryMove<ZDeque<int, 2, Dry>>(); else if (w == 4) dryMove<ZQueue<int, Dry>>(); else if (w == 5) dryMove<ZStack<int, Dry>>();
    else if (w == 6) dryMove<ZBST<int, Dry>>(); else if (w == 7) dryMove<ZAVL<int, Dry>>(); else if (w == 8) dryMove<ZMap<int, Dry>>();
    else dryMove<ZMinStack<int, Dry>>();
}
ENTRY dry_resize() {
    supply(1000); Vector<Obj, Dry> v; int n = pick("n", 4), a[8];
    for (int i = 0; i < n; i++) { int x = vp_int("x"); v.push_back(Obj(x)); a[i] = x; }
    int m = pick("to", 7), fill = pick("fill", 2); int x = vp_int("f");
    spare = 0; forever = pick("forever", 2) != 0;
    if (fill) v.resize(m, Obj(x)); else v.resize(m);
    supply(1000);
    A((int)v.size() == (fill ? m : n < m ? n : m), "size() after resize");
    for (int i = 0; i < (int)v.size(); i++) { A(V(v[i]) == (i < n ? a[i] : x), "contents after resize"); }
    v.push_back(Obj(7)); A(V(v.back()) == 7, "the vector still works");
    vp_reach("survived");
}
// misuse
#define MUST_STOP(what, stmt) do { vp_stop_ok(true); stmt; vp_fail(what " is not stopped"); } while (0)
template <typename C> static void emptied(C &c, int cap) {
    int k = pick("state", 3), n = pick("n", cap + 1);
    if (k == 0) return;
    for (int i = 0; i < n; i++) { int x = vp_int("x"); c.push(x); }
    if (k == 1) c.clear(); else while (n--) c.pop();
}
ENTRY vector() {
    Vector<int, VAlloc> v; int what = pick("what", 4);
    if (what < 2) {
        emptied(v, 4); A(v.empty(), "the vector is empty");
        if (what == 0) MUST_STOP("pop_back of an empty Vector", v.pop_back()); else MUST_STOP("back of an empty Vector", vp_trace(v.back()));
    } else {
        int n = pick("n", 5); for (int i = 0; i < n; i++) { int x = vp_int("x"); v.push_back(x); }
        int k = vp_int("index"); vp_assume(k >= n);
        const Vector<int, VAlloc> &c = v;
        if (what == 2) MUST_STOP("an index behind the end of a Vector", v[k] = 1); else MUST_STOP("a constant index behind the end of a Vector", vp_trace(c[k]));
    }
}
ENTRY stack() {
    int w = pick("kind", 3), what = pick("what", 2);
    if (w == 0) {
        Stack<int, VAlloc> s; emptied(s, 3); A(s.empty(), "the stack is empty");
        if (what) MUST_STOP("pop of an empty Stack", s.pop()); else MUST_STOP("top of an empty Stack", vp_trace(s.top()));
    } else if (w == 1) {
        MinStack<int, VAlloc> s; emptied(s, 3); A(s.empty(), "the stack is empty");
        if (what) MUST_STOP("pop of an empty MinStack", s.pop()); else MUST_STOP("top of an empty MinStack", vp_trace(s.top()));
    } else {
        MinHeap<int, VAlloc> h; int n = pick("n", 3); for (int i = 0; i < n; i++) { int x = vp_int("x"); h.push(x); } while (n--) h.pop();
        A(h.empty(), "the heap is empty");
        if (what) MUST_STOP("pop of an empty heap", h.pop()); else MUST_STOP("top of an empty heap", vp_trace(h.top()));
    }
}
ENTRY lists() {
    int w = pick("kind", 2), what = pick("what", 4);
    if (w == 0) {
        SinglyLinkedList<int, VAlloc> l; emptied(l, 3); A(l.empty(), "the list is empty");
        if (what == 0) MUST_STOP("pop of an empty list", l.pop()); else if (what == 1) MUST_STOP("pop_front of an empty list", l.pop_front());
        else if (what == 2) MUST_STOP("back of an empty list", vp_trace(l.back())); else MUST_STOP("_pop_back of an empty list", l._pop_back());
    } else {
        DoublyLinkedList<int, VAlloc> l; emptied(l, 3); A(l.empty(), "the list is empty");
        if (what == 0) MUST_STOP("pop of an empty list", l.pop()); else if (what == 1) MUST_STOP("pop_front of an empty list", l.pop_front());
        else if (what == 2) MUST_STOP("back of an empty list", vp_trace(l.back())); else MUST_STOP("pop_back of an empty list", l.pop_back());
    }
}
ENTRY keys() {
    int w = pick("kind", 3), n = pick("n", DEEP(4, 5)), k[5];
    typedef ZMap<int, VAlloc>::C M; M m; AVLTree<int, less<int>, VAlloc> t;
    for (int i = 0; i < n; i++) {
        int x = vp_int("k"), d = 1; for (int j = 0; j < i; j++) d &= (int)(k[j] != x); vp_assume(d); k[i] = x;
        if (w == 2) t.push(x); else { int y = vp_int("v"); m.push(ZMap<int, VAlloc>::KVT(x, y)); }
    }
    int y = vp_int("y"), in = 0; for (int i = 0; i < n; i++) in |= (int)(k[i] == y);
    if (w == 0) { vp_assume(!in); const M &c = m; MUST_STOP("constant lookup of an absent key", vp_trace(c[y])); }
    else if (w == 1) { vp_assume(in); MUST_STOP("push of a key the Map holds", m.push(ZMap<int, VAlloc>::KVT(y, 1))); }
    else { vp_assume(in); MUST_STOP("push of an element the AVL tree holds", t.push(y)); }
}
static void *volatile nowhere; // nullptr, as from an allocator that is dry
ENTRY norelease() {
    int w = pick("kind", 3); int x = vp_int("x");
    if (w == 0) MUST_STOP("construct at null", dstruct::construct(nowhere, x));
    else if (w == 1) { Wide b(x); MUST_STOP("construct at null", dstruct::construct(nowhere, b)); }
    else { Obj o(x); MUST_STOP("destroy at null", dstruct::destroy((Obj *)nowhere)); }
}
