// Shared by the container harnesses: one container grown to 70000 elements, one of them arbitrary, checked after every operation.
#ifndef VP_FAR_HPP
#define VP_FAR_HPP
#include "vp.hpp"
enum { FAR = 70000 };
static int farAt() { static const int P[] = { FAR - 1, 65536, 65535, 32768, 0 }; return P[pick("where", DEEP(2, 5))]; }
static int farEl(int i, int at, int x) { return i == at ? x : i; }
#define IF_NOT(c, what) do { if (!(c)) A(false, what); } while (0)
template <typename C> static void farWalk(const C &c, int n, int from, int at, int x) {
    int i = from; for (auto it = c.begin(); it != c.end(); it++) { IF_NOT(i < from + n, "iteration ends"); IF_NOT(*it == farEl(i, at, x), "iteration yields the elements in order"); i++; }
    A(i == from + n, "iteration visits every element");
}
// add at the back, read and remove at the back
template <typename C, typename ADD, typename TOP, typename DROP> static void farFill(C &c, int at, int x, ADD add, TOP top, DROP drop, bool fifo) {
    for (int i = 0; i < FAR; i++) { add(c, farEl(i, at, x)); IF_NOT((int)c.size() == i + 1, "size() counts the elements"); IF_NOT(top(c) == farEl(fifo ? 0 : i, at, x), "the element at the end"); }
    farWalk(c, FAR, 0, at, x);
    for (int i = 0; i < FAR; i++) { IF_NOT(top(c) == farEl(fifo ? i : FAR - 1 - i, at, x), "the element at the end"); drop(c); IF_NOT((int)c.size() == FAR - 1 - i, "size() counts the elements"); }
    A(c.empty(), "then it is empty"); add(c, x); A(c.size() == 1 && top(c) == x, "and usable again");
}
// keys in scrambled order: multiples of 43265 modulo 70001
static int farKey(int i) { return 2 * (int)((long)i * 43265 % 70001); }
template <typename T, typename ADD, typename HAS, typename DEL> static void farTree(T &t, int x, ADD add, HAS has, DEL del, bool again) {
    for (int i = 0; i < FAR; i++) { add(t, farKey(i)); IF_NOT((int)t.size() == i + 1, "size() counts the elements"); }
    if (again) for (int i = 0; i < FAR; i += 7) { add(t, farKey(i)); IF_NOT((int)t.size() == FAR, "a key that is there is not added again"); }
    add(t, x); A((int)t.size() == FAR + 1 && has(t, x), "the arbitrary key is added");
    for (int i = 0; i < FAR; i++) { IF_NOT(has(t, farKey(i)), "every key is found"); IF_NOT(i % 16 || !has(t, farKey(i) + 1) || farKey(i) + 1 == x, "no other key is found"); }
    for (int i = 0; i < FAR; i += 2) { int n = (int)t.size(); del(t, farKey(i)); IF_NOT((int)t.size() == n - 1 && !has(t, farKey(i)), "a removed key is gone"); }
    for (int i = 1; i < FAR; i += 2) IF_NOT(has(t, farKey(i)), "the others stay"); A(has(t, x), "the arbitrary key stays");
}
static void farOdd(int x) { bool ok = x < 0 || x > 2 * 70001 || x == 70001; vp_assume(ok); }
template <typename IT, typename KEY> static void farAscending(IT it, IT e, int n, KEY key) {
    int c = 0, prev = 0; for (; it != e; it++) { int k = key(*it); IF_NOT(c == 0 || prev < k, "the keys ascend"); prev = k; c++; IF_NOT(c <= n, "iteration ends"); }
    A(c == n, "iteration visits every key");
}
// every container alike: add element number i with value v, and what iteration then yields
template <typename T> static int farV(const T &x) { return (int)x; }
static inline int farV(const Obj &x) { return x.get(); }
template <typename K, typename T> static int farV(const dstruct::KeyValue<K, T> &x) { return x.key ^ farV(x.value); }
template <typename C, typename T> struct FarAdd { static void add(C &c, int v) { c.push(T(v)); } };
template <typename T> struct FarAdd<dstruct::BasicString<char, VAlloc>, T> { static void add(dstruct::BasicString<char, VAlloc> &c, int v) { c.push_back((char)(v & 63 ^ 64)); } };
template <typename T> using FarMap = dstruct::Map<int, T, dstruct::less<int>, dstruct::AVLTree<dstruct::KeyValue<const int, T>, dstruct::KVCMPKey<dstruct::KeyValue<const int, T>, dstruct::less<int> >, VAlloc> >;
template <typename T> struct FarAdd<FarMap<T>, T> { static void add(FarMap<T> &c, int v) { c[v] = T(v >> 3); } };
static int farSeen[3 * FAR]; static int farLen;
template <typename C> static void farNote(const C &c) { farLen = 0; for (auto it = c.begin(); it != c.end(); it++) { IF_NOT(farLen < 3 * FAR, "iteration ends"); farSeen[farLen++] = farV(*it); } }
template <typename C> static void farSame(const C &c, const char *what) { int i = 0; for (auto it = c.begin(); it != c.end(); it++) { IF_NOT(i < farLen && farV(*it) == farSeen[i], what); i++; } A(i == farLen, what); }
// a container of n elements, the last of them arbitrary (any value, or where the order matters one below or above all others)
template <typename C, typename T> static void farMake(C &c, int n, bool ordered, bool symbolic) {
    for (int i = 0; i + 1 < n; i++) FarAdd<C, T>::add(c, farKey(i));
    int x = symbolic ? vp_int("x") : 999999; if (ordered) { bool ok = x < 0 || x > 2 * 70001; vp_assume(ok); } FarAdd<C, T>::add(c, x);
    farNote(c); A(farLen >= n, "iteration visits every element");
}
template <typename C> static auto farClear(C &c, int) -> decltype(c.clear(), void()) { c.clear(); }
template <typename C> static void farClear(C &c, long) { C e; c = e; }
#define FAR_KINDS(F, T) do { int k = pick("kind", 11); \
    if (k == 0) F<dstruct::Vector<T, VAlloc>, T>(false, FAR); else if (k == 1) F<dstruct::SinglyLinkedList<T, VAlloc>, T>(false, 33000); else if (k == 2) F<dstruct::DoublyLinkedList<T, VAlloc>, T>(false, 33000); \
    else if (k == 3) F<dstruct::DoubleEndedQueue<T, 32, VAlloc>, T>(false, FAR); else if (k == 4) F<dstruct::Queue<T, VAlloc>, T>(false, FAR); else if (k == 5) F<dstruct::Stack<T, VAlloc>, T>(false, FAR); \
    else if (k == 6) F<dstruct::MinStack<T, VAlloc>, T>(true, FAR); else if (k == 7) F<dstruct::Heap<T, dstruct::less<T>, VAlloc>, T>(true, FAR); else if (k == 8) F<dstruct::BSTree<T, VAlloc>, T>(true, 17000); \
    else if (k == 9) F<dstruct::AVLTree<T, dstruct::less<T>, VAlloc>, T>(true, 17000); else F<FarMap<T>, T>(true, 17000); } while (0)
// the shape of a tree of keys below 2*70001, from its public traversals; one more key may lie below or above all
static int farPre[FAR + 8], farIn[FAR + 8], farPost[FAR + 8], farRank[2 * 70001 + 3];
struct FarCollect {
    int *a, *n; template <typename E> void operator()(const dstruct::AVLData_<E> &e) const { (*this)(e.val); }
    void operator()(const int &e) const { IF_NOT(*n < FAR + 8, "traversal ends"); a[(*n)++] = e; }
};
static int &farRankOf(int k) { return farRank[k < 0 ? 0 : k > 2 * 70001 ? 2 * 70001 + 2 : k + 1]; }
static bool farBalanced; static int farPos, farPosts;
static int farBuild(int lo, int hi) {
    if (lo >= hi) return 0;
    int k = farPre[farPos++], r = farRankOf(k); IF_NOT(r >= lo && r < hi, "pre-order and in-order traversal describe one binary tree");
    int a = farBuild(lo, r), b = farBuild(r + 1, hi); if (a - b > 1 || b - a > 1) farBalanced = false;
    farPost[farPosts++] = k; return (a > b ? a : b) + 1;
}
template <typename TREE> static int farShape(const TREE &t, int n) { // the height
    int p = 0, i = 0; FarCollect a = {farPre, &p}, b = {farIn, &i}; t.traversal(a, TREE::TraversalType::PreOrder); t.traversal(b, TREE::TraversalType::InOrder);
    A(p == n && i == n && (int)t.size() == n, "every traversal visits size() elements"); for (int j = 0; j < n; j++) { farRankOf(farIn[j]) = j; IF_NOT(j == 0 || farIn[j - 1] < farIn[j], "in-order is ascending"); }
    farBalanced = true; farPos = farPosts = 0; return farBuild(0, n);
}
#endif
