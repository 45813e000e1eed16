// C08: embedded (intrusive) links: add and del edit exactly the ring they are told to.
#include "vp.hpp"
using namespace dstruct;
//@assume add is given an unlinked node and a linked predecessor; del is given a node and its predecessor
//@entry doubly reach=added,deleted :: two circular doubly linked lists over 5 embedded nodes: every history of 5 (thorough: 6) add/del, all payloads
//@entry singly reach=added,deleted :: the same for singly linked lists
//@entry open_ended reach=done :: doubly linked chains that end in a null link: add after / delete any of <=4 nodes, 4 operations
enum { N = 5 };
template <typename Link> struct Ring {
    typedef EmbeddedListNode_<int, Link> Node;
    Node head[2], node[N];
    int order[2][N], cnt[2], where[N];
    int pay[N + 2];
};
template <typename R> static void backward(const R &, int, DoublyLink_ *) {}
template <typename Link> static Link *linkOf(Ring<Link> &r, int list, int pos) { // pos -1: the head
    return pos < 0 ? &r.head[list].link : &r.node[r.order[list][pos]].link;
}
static void prevOk(DoublyLink_ *a, DoublyLink_ *b) { A(b->prev == a, "prev undoes next"); }
static void prevOk(SinglyLink_ *, SinglyLink_ *) {}
static void gone(DoublyLink_ *l) { A(l->next == nullptr && l->prev == nullptr, "a deleted node is unlinked"); }
static void gone(SinglyLink_ *l) { A(l->next == nullptr, "a deleted node is unlinked"); }
template <typename Link> static void check(Ring<Link> &r) {
    typedef EmbeddedListNode_<int, Link> Node;
    for (int l = 0; l < 2; l++) {
        A(Node::empty(&r.head[l]) == (r.cnt[l] == 0), "empty() iff no node is linked");
        Link *p = &r.head[l].link;
        A(Link::empty(p) == (r.cnt[l] == 0), "empty(link) iff no node is linked");
        for (int i = 0; i < r.cnt[l]; i++) {
            Link *q = linkOf(r, l, i);
            A(p->next == q, "next is the node that follows in the list");
            prevOk(p, q);
            A(Node::to_node(q) == &r.node[r.order[l][i]] && Node::to_link(Node::to_node(q)) == q, "to_node and to_link are inverse");
            A(Node::to_node(q)->data == r.pay[r.order[l][i]], "the payload is untouched");
            p = q;
        }
        A(p->next == &r.head[l].link, "the list is a ring");
        prevOk(p, &r.head[l].link);
    }
}
template <typename Link> static void run(int steps) {
    typedef EmbeddedListNode_<int, Link> Node;
    Ring<Link> r;
    for (int l = 0; l < 2; l++) { if (l) Node::init(&r.head[l]); else Link::init(&r.head[l].link); r.cnt[l] = 0; }
    for (int i = 0; i < N; i++) { r.where[i] = -1; int x = vp_int("payload"); r.pay[i] = x; r.node[i].data = x; }
    check(r);
    for (int s = 0; s < steps; s++) {
        int l = pick("list", 2);
        if (pick("del", 2) == 0) {
            int k = 0; while (k < N && r.where[k] >= 0) k++;
            vp_assume(k < N);
            int pos = pick("pos", r.cnt[l] + 1); // insert behind position pos-1
            if (pos == 0) Node::add(&r.head[l], &r.node[k]); else Link::add(linkOf(r, l, pos - 1), Node::to_link(&r.node[k]));
            for (int i = r.cnt[l]; i > pos; i--) r.order[l][i] = r.order[l][i - 1];
            r.order[l][pos] = k; r.cnt[l]++; r.where[k] = l; vp_reach("added");
        } else {
            vp_assume(r.cnt[l] > 0);
            int pos = pick("at", r.cnt[l]); int k = r.order[l][pos];
            if (pos == 0) Node::del(&r.head[l], &r.node[k]); else Link::del(linkOf(r, l, pos - 1), linkOf(r, l, pos));
            for (int i = pos; i + 1 < r.cnt[l]; i++) r.order[l][i] = r.order[l][i + 1];
            r.cnt[l]--; r.where[k] = -1; gone(&r.node[k].link); vp_reach("deleted");
        }
        check(r);
    }
    vp_trace(r.cnt[0]); vp_trace(r.cnt[1]);
}
ENTRY doubly() { run<DoublyLink_>(DEEP(5, 6)); }
ENTRY singly() { run<SinglyLink_>(DEEP(5, 6)); }
ENTRY open_ended() {
    DoublyLink_ head, n[4]; head.next = head.prev = nullptr;
    int order[4], cnt = 0; bool used[4] = {false, false, false, false};
    for (int s = 0; s < 4; s++) {
        if (pick("del", 2) == 0) {
            int k = 0; while (used[k]) k++;
            int pos = pick("pos", cnt + 1);
            DoublyLink_::add(pos ? &n[order[pos - 1]] : &head, &n[k]);
            for (int i = cnt; i > pos; i--) order[i] = order[i - 1];
            order[pos] = k; cnt++; used[k] = true;
        } else {
            vp_assume(cnt > 0);
            int pos = pick("at", cnt); int k = order[pos];
            DoublyLink_::del(pos ? &n[order[pos - 1]] : &head, &n[k]);
            for (int i = pos; i + 1 < cnt; i++) order[i] = order[i + 1];
            cnt--; used[k] = false; gone(&n[k]);
        }
        DoublyLink_ *p = &head;
        for (int i = 0; i < cnt; i++) { A(p->next == &n[order[i]], "next follows the chain"); A(p->next->prev == p, "prev undoes next"); p = p->next; }
        A(p->next == nullptr, "the chain still ends");
    }
    vp_reach("done"); vp_trace(cnt);
}
