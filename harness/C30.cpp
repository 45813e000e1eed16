// C30: the embedded tree primitives: rotations keep order and links, height is the longest
// path, the next-functions and traversals visit each node once in their order.
#include "vp.hpp"
using namespace dstruct;
using namespace dstruct::tree;
//@assume rotations are applied where the needed child exists, and the caller hangs the new subtree root into its parent, as the trees of the library do
//@entry rotate reach=left,right,inner,root :: every tree shape of n<=7 (thorough: 9) nodes with arbitrary contents, rotated left or right at every node that can be: in-order sequence, contents, parent links
//@entry inverse reach=done :: every tree shape of n<=7 (thorough: 9): right_rotate undoes left_rotate, at every node, restoring every link
//@entry heights reach=balanced,chain :: every tree shape of n<=8 (thorough: 10): height of every subtree
//@entry visits reach=done :: every tree shape of n<=8 (thorough: 10): the three traversals from every subtree and the three next-functions from every node
//@entry twice reach=done :: every tree shape of n<=6 (thorough: 7), any two rotations in sequence: in-order sequence and links
//@entry nodes reach=done :: node, link and data addresses convert into each other for elements of 1, 4, 8 and 16 bytes; a copy carries link and data
//@entry deepchain reach=done :: chains and zig-zags of 200 nodes: height, traversals, next-functions
enum { N = 12 };
typedef EmbeddedBinaryTreeNode<int> Nd; typedef BinaryTreeLink_ L;
struct Tr {
    Nd nd[N]; int n, val[N]; L *root;
    // node i is the i-th in in-order
    L *build(int lo, int hi) {
        if (lo >= hi) return nullptr;
        int m = lo + pick("root", hi - lo); L *l = Nd::to_link(&nd[m]);
        l->left = build(lo, m); if (l->left) l->left->parent = l;
        l->right = build(m + 1, hi); if (l->right) l->right->parent = l;
        return l;
    }
    Tr(int k) : n(k) { for (int i = 0; i < n; i++) { val[i] = vp_int("v"); nd[i].data = val[i]; } root = build(0, n); }
    int id(L *l) const { for (int i = 0; i < n; i++) if (&nd[i].link == l) return i; return -1; }
    // reference: recursive orders of the subtree
    void in(L *l, int *o, int &c) const { if (!l) return; A(c < n, "the links form a tree"); in(l->left, o, c); o[c++] = id(l); in(l->right, o, c); }
    void pre(L *l, int *o, int &c) const { if (!l) return; o[c++] = id(l); pre(l->left, o, c); pre(l->right, o, c); }
    void post(L *l, int *o, int &c) const { if (!l) return; post(l->left, o, c); post(l->right, o, c); o[c++] = id(l); }
    int h(L *l) const { if (!l) return 0; int a = h(l->left), b = h(l->right); return 1 + (a > b ? a : b); }
    void links(L *l, L *up) const { if (!l) return; A(l->parent == up, "every node knows its parent"); links(l->left, l); links(l->right, l); }
    void hang(L *up, L *old, L *now) { if (!up) root = now; else if (up->left == old) up->left = now; else up->right = now; }
    void good() const {
        links(root, nullptr); int o[N], c = 0; in(root, o, c); A(c == n, "no node is lost");
        for (int i = 0; i < n; i++) { A(o[i] == i, "the in-order sequence is unchanged"); A(nd[i].data == val[i], "contents are unchanged"); }
    }
};
static L *turn(Tr &t, int i, bool left) {
    L *l = &t.nd[i].link, *up = l->parent; L *down = left ? l->right : l->left;
    L *r = left ? left_rotate(l) : right_rotate(l);
    A(r == down, "the child comes up"); A(r->parent == up && (left ? r->left : r->right) == l && l->parent == r, "the old root becomes its child");
    t.hang(up, l, r); vp_reach(left ? "left" : "right"); vp_reach(up ? "inner" : "root");
    return r;
}
ENTRY rotate() {
    Tr t(1 + pick("n", DEEP(7, 9))); t.good(); int i = pick("at", t.n); bool left = pick("dir", 2); vp_assume(left ? t.nd[i].link.right != nullptr : t.nd[i].link.left != nullptr);
    turn(t, i, left); t.good(); vp_trace(t.id(t.root));
}
ENTRY inverse() {
    Tr t(1 + pick("n", DEEP(7, 9))); int i = pick("at", t.n); bool left = pick("dir", 2); vp_assume(left ? t.nd[i].link.right != nullptr : t.nd[i].link.left != nullptr);
    L old[N]; for (int k = 0; k < t.n; k++) old[k] = t.nd[k].link; L *r = t.root;
    int j = t.id(turn(t, i, left)); turn(t, j, !left);
    A(t.root == r, "the root is back"); for (int k = 0; k < t.n; k++) A(old[k].left == t.nd[k].link.left && old[k].right == t.nd[k].link.right && old[k].parent == t.nd[k].link.parent, "every link is restored");
    vp_reach("done");
}
ENTRY twice() {
    Tr t(2 + pick("n", DEEP(5, 6)));
    for (int s = 0; s < 2; s++) { int i = pick("at", t.n); bool left = pick("dir", 2); vp_assume(left ? t.nd[i].link.right != nullptr : t.nd[i].link.left != nullptr); turn(t, i, left); t.good(); }
    vp_reach("done");
}
ENTRY heights() {
    Tr t(pick("n", DEEP(9, 11))); A(height(nullptr) == 0, "the empty tree has height 0");
    A(height(t.root) == t.h(t.root), "height is the longest path"); for (int i = 0; i < t.n; i++) A(height(&t.nd[i].link) == t.h(&t.nd[i].link), "height is the longest path");
    if (t.n == 7) { if (t.h(t.root) == 3) vp_reach("balanced"); else if (t.h(t.root) == 7) vp_reach("chain"); }
    t.good(); vp_trace(t.h(t.root));
}
struct Rec { const Tr *t; int *o, *c; void operator()(L *l) const { A(*c < N, "traversal ends"); o[(*c)++] = t->id(l); } };
static void same(const int *a, int na, const int *b, int nb, const char *) { A(na == nb, "every node is visited once"); for (int i = 0; i < na && i < nb; i++) A(a[i] == b[i], "in the stated order"); }
ENTRY visits() {
    Tr t(pick("n", DEEP(9, 11))); int o[N], p[N], c, d;
    for (int s = -1; s < t.n; s++) {
        L *l = s < 0 ? nullptr : &t.nd[s].link; Rec r = {&t, o, &c};
        c = d = 0; t.pre(l, p, d); preorder_traversal(l, r); same(o, c, p, d, "pre");
        c = d = 0; t.in(l, p, d); inorder_traversal(l, r); same(o, c, p, d, "in");
        c = d = 0; t.post(l, p, d); postorder_traversal(l, r); same(o, c, p, d, "post");
    }
    A(!next_preorder(nullptr) && !next_inorder(nullptr) && !next_postorder(nullptr), "nothing follows nothing");
    d = 0; t.pre(t.root, p, d); for (int i = 0; i < d; i++) A(next_preorder(&t.nd[p[i]].link) == (i + 1 < d ? &t.nd[p[i + 1]].link : nullptr), "next in pre-order");
    d = 0; t.in(t.root, p, d); for (int i = 0; i < d; i++) A(next_inorder(&t.nd[p[i]].link) == (i + 1 < d ? &t.nd[p[i + 1]].link : nullptr), "next in in-order");
    d = 0; t.post(t.root, p, d); for (int i = 0; i < d; i++) A(next_postorder(&t.nd[p[i]].link) == (i + 1 < d ? &t.nd[p[i + 1]].link : nullptr), "next in post-order");
    t.good(); vp_reach("done");
}
template <typename T> static void addr(T x) {
    typedef EmbeddedBinaryTreeNode<T> M; M a(x), b(x); a.link.left = &b.link; b.link.parent = &a.link;
    A(M::to_link(&a) == &a.link && M::to_node(M::to_link(&a)) == &a && M::data_to_link(&a.data) == &a.link, "node, link and data lead to each other"); A(a.data == x && !b.link.left && !b.link.right && !a.link.parent && !a.link.right, "a new node has no neighbours");
    M c(a); A(c.data == x && c.link.left == &b.link && !c.link.right && !c.link.parent, "a copy carries link and data");
}
ENTRY nodes() { addr<Byte>(Byte(vp_u8("b"))); addr<int>(vp_int("x")); addr<long>((long)vp_u64("l")); addr<Wide>(Wide(vp_int("w"))); vp_reach("done"); }
struct Cnt { int *c; L **last; void operator()(L *l) const { (*c)++; *last = l; } };
ENTRY deepchain() {
    static L l[200]; int shape = pick("shape", 3), n = 200;
    for (int i = 0; i < n - 1; i++) { bool right = shape == 0 || (shape == 2 && i % 2); if (right) l[i].right = &l[i + 1]; else l[i].left = &l[i + 1]; l[i + 1].parent = &l[i]; }
    A(height(l) == n, "height is the longest path"); int c = 0; L *last; Cnt k = {&c, &last};
    preorder_traversal(l, k); A(c == n && last == &l[n - 1], "pre-order"); c = 0; inorder_traversal(l, k); A(c == n, "in-order"); c = 0; postorder_traversal(l, k); A(c == n && last == l, "post-order");
    c = 0; for (L *p = l; p; p = next_preorder(p)) c++; A(c == n, "next in pre-order"); c = 0; for (L *p = &l[n - 1]; p; p = next_postorder(p)) c++; A(c == n, "next in post-order");
    L *f = l; while (f->left) f = f->left; c = 0; for (L *p = f; p; p = next_inorder(p)) c++; A(c == n, "next in in-order"); vp_reach("done");
}
