// C37: reading a container writes nothing, so readers need no lock against each other.
#include <new>
#include "zoo.hpp"
//@native_all -DVP_PAGES
//@assume reading is: every const member, iteration, find, traversal, copying from, comparing, and the non-const forms of begin, [], front, back, top, find (Map: [] of a present key); DisjointSet find and connected compress paths and are not reading
//@entry vector reach=done :: Vector in n<=3 (thorough: 4) additions and 2 (thorough: 3) arbitrary operations: no byte of the object, its storage or static data changes while everything is read
//@entry slist reach=done :: singly linked list, same
//@entry dlist reach=done :: doubly linked list, same
//@entry deque reach=done :: deque (block size 2 and 3), n<=5, same
//@entry adapters reach=done :: Queue, Stack, MinStack, same
//@entry string reach=done :: String, same, with comparison and concatenation
//@entry heap reach=done :: Heap, same
//@entry bst reach=done :: BST, same, with the three traversals and iterators of the three orders
//@entry avl reach=done :: AVL tree, same
//@entry map reach=done :: Map, same
//@entry other reach=done :: Array, DisjointSet (size, count, copying)
// what const and non-const access offer beyond what the model's check() reads
template <typename C> static void iter(C &c) { const C &k = c; for (auto it = c.begin(); it != c.end(); ++it) (void)V(*it); auto a = k.begin(), b = k.end(); (void)(a == b); A((a != b) == !k.empty(), "begin() and end() agree with empty()"); }
template <typename C> static void ends(C &c) { const C &k = c; if (!k.empty()) A(V(c.front()) == V(k.front()) && V(c.back()) == V(k.back()), "const and plain access agree"); }
template <typename T> static void more(Vector<T, VAlloc> &c) { iter(c); ends(c); int n = (int)c.size(); for (int i = 0; i < n; i++) (void)V(c[i]), (void)V(c[i - n]); A((int)c.capacity() >= n, "capacity"); }
template <typename T> static void more(SinglyLinkedList<T, VAlloc> &c) { iter(c); ends(c); }
template <typename T> static void more(DoublyLinkedList<T, VAlloc> &c) { iter(c); ends(c); auto it = c.end(); while (it != c.begin()) { --it; (void)V(*it); } }
template <typename T, dstruct::size_t N> static void more(DoubleEndedQueue<T, N, VAlloc> &c) {
    iter(c); ends(c); int n = (int)c.size(); for (int i = 0; i < n; i++) (void)V(c[i]), (void)V(c[i - n]);
    for (int i = 0; i <= n; i++) { auto it = c.begin() + i; A(c.end() - (n - i) == it, "iterator arithmetic"); } (void)c.capacity();
}
template <typename T> static void more(Queue<T, VAlloc> &c) { iter(c); ends(c); }
template <typename T> static void more(Stack<T, VAlloc> &c) { iter(c); if (!c.empty()) (void)V(c.top()); }
template <typename T> static void more(MinStack<T, VAlloc> &c) { const MinStack<T, VAlloc> &k = c; if (!k.empty()) A(V(c.top()) == V(k.top()) && V(c.getXValue()) == V(k.getXValue()), "const and plain access agree"); int n = 0; for (auto it = k.begin(); it != k.end(); it++) n++; A((n > 0) == !k.empty(), "iteration"); }
static void more(BasicString<char, VAlloc> &c) {
    typedef BasicString<char, VAlloc> S; iter(c); const S &k = c; if (!k.empty()) { (void)V(k.front()); (void)V(k.back()); (void)V(c[0]); }
    A(c == k, "equal to itself"); A((k + "x") != k, "differs from a longer one"); S t("ab"); t += k; A((int)t.size() == 2 + (int)k.size(), "appended"); (void)(k == "ab"); (void)k.capacity();
}
template <typename T> static void more(Heap<T, less<T>, VAlloc> &c) { const Heap<T, less<T>, VAlloc> &k = c; for (auto it = k.begin(); it != k.end(); ++it) (void)it->p; if (!k.empty()) A(k.top().p == c.top().p, "top"); (void)k.size(); }
struct See { int *n; template <typename T> void operator()(const T &) const { ++*n; } };
template <typename T> static void orders(T &c) {
    const T &k = c; for (int o = 0; o < 3; o++) { int n = 0; See s = { &n }; k.traversal(s, (typename T::TraversalType)o); A(n == (int)k.size(), "a traversal meets every element"); for (auto it = k.begin((typename T::TraversalType)o); it != k.end((typename T::TraversalType)o); ++it) n--; A(n == 0, "iteration meets every element"); }
}
template <typename T> static void more(tree::BinarySearchTree<T, less<T>, VAlloc> &c) { iter(c); orders(c); int x = in<T>("q"); (void)(c.find(T(x)) != c.end()); }
template <typename T> static void more(AVLTree<T, less<T>, VAlloc> &c) { iter(c); orders(c); (void)c.height(); int x = in<T>("q"); (void)(c.find(T(x)) != c.end()); }
template <typename T> static void more(Map<int, T, less<int>, AVLTree<KeyValue<const int, T>, KVCMPKey<KeyValue<const int, T>, less<int> >, VAlloc> > &c) {
    for (auto it = c.begin(); it != c.end(); ++it) { A(V(c[it->key]) == V(it->value), "lookup by key"); A(c.find(it->key) != c.end(), "found"); } int x = vp_int("q"); (void)(c.find(x) != c.end());
}
template <typename T> static void more(Arr3<T> &c) { iter(c); ends(c); for (int i = 0; i < 3; i++) (void)V(c[i]), (void)V(c[i - 3]); (void)c.capacity(); }
template <typename Z> static void read(const Z &m, typename Z::C &c) {
    typedef typename Z::C C; Z z = m; z.check(c); more(c);
    { const C &k = c; C d(k), e; e = k; z.check(d); z.check(e); }
}
template <typename Z> static void reads(int maxn, int steps = DEEP(2, 3)) {
    typedef typename Z::C C;
    {
        { Z w; C c; w.add(c); w.add(c); read(w, c); } // whatever is initialised at first use is
        C *c = new (vp_alloc(sizeof(C))) C; Z z; int n = pick("n", maxn + 1);
        for (int i = 0; i < n; i++) z.add(*c);
        for (int i = 0; i < steps; i++) { int op = pick("op", Z::OPS); z.op(*c, op); }
        vp_readonly(true); read(z, *c); read(z, *c); vp_readonly(false);
        c->~C(); vp_free(c, sizeof(C));
        vp_reach("done"); vp_trace(z.n());
    }
    allGone();
}
ENTRY vector() { if (pick("T", 2)) reads<ZVector<int> >(DEEP(3, 4)); else reads<ZVector<Obj> >(DEEP(3, 4)); }
ENTRY slist() { if (pick("T", 2)) reads<ZSList<int> >(DEEP(3, 4)); else reads<ZSList<Obj> >(DEEP(3, 4)); }
ENTRY dlist() { if (pick("T", 2)) reads<ZDList<int> >(DEEP(3, 4)); else reads<ZDList<Obj> >(DEEP(3, 4)); }
ENTRY deque() { if (pick("T", 2)) reads<ZDeque<int, 2> >(5); else reads<ZDeque<Obj, 3> >(5); }
ENTRY adapters() { int k = pick("T", 4); if (k == 0) reads<ZQueue<Obj> >(3); else if (k == 1) reads<ZStack<int> >(3); else if (k == 2) reads<ZMinStack<int> >(3, DEEP(1, 2)); else reads<ZMinStack<Obj> >(2, DEEP(1, 2)); }
ENTRY string() { reads<ZString<> >(3); }
ENTRY heap() { if (pick("T", 2)) reads<ZHeap<KV> >(3, DEEP(1, 2)); else reads<ZHeap<OKV> >(3, 1); }
ENTRY bst() { if (pick("T", 2)) reads<ZBST<int> >(DEEP(3, 4), 1); else reads<ZBST<Obj> >(3, 1); }
ENTRY avl() { if (pick("T", 2)) reads<ZAVL<int> >(DEEP(3, 4), DEEP(1, 2)); else reads<ZAVL<Obj> >(3, 1); }
ENTRY map() { if (pick("T", 2)) reads<ZMap<int> >(3, DEEP(1, 2)); else reads<ZMap<Obj> >(2, DEEP(1, 2)); }
ENTRY other() {
    int w = pick("what", 3);
    if (w == 0) reads<ZArray<int> >(3); else if (w == 1) reads<ZArray<Obj> >(2);
    else {
        typedef DisjointSet<VAlloc> U;
        {
            U *u = new (vp_alloc(sizeof(U))) U(5); for (int i = 0; i < 3; i++) { int a = pick("a", 5), b = pick("b", 5); u->connect(a, b); }
            vp_readonly(true); const U &k = *u; int n = (int)k.count(); A(n >= 2 && n <= 5 && k.size() == 5 && !k.empty() && k.capacity() >= 5, "counts"); U v(k), x(2); x = k; A((int)v.count() == n && (int)x.count() == n, "copies"); vp_readonly(false);
            u->~U(); vp_free(u, sizeof(U)); vp_reach("done"); vp_trace(n);
        }
        allGone();
    }
}
