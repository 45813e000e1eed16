// C18: a String is a zero-terminated character sequence.
#include "vp.hpp"
#include "far.hpp"
using namespace dstruct;
typedef BasicString<char, VAlloc> S;
//@assume front/back/index of an existing character; index size() reads the terminator; C strings are zero-terminated
//@entry hist reach=grow,clear,assign :: start length in {0,1,14,15,16,17}, every history of 4 (thorough: 5) push_back, +=, =, clear, s[i]=x with arbitrary characters
//@entry concat reach=cross :: a+b, a+cstr, cstr+b, a+=b, a+=cstr for every length 0..34 (thorough: 0..59) of either side, arbitrary characters
//@entry compare reach=equal,differ,length :: ==, != in all three forms on strings of every length 0..5 (thorough: 0..7), arbitrary characters
//@entry cstr reach=cut :: construction, assignment and += from a buffer of 6 arbitrary bytes followed by a zero
//@entry longer reach=done :: push_back one by one up to 140, += itself 5 times, clear, reuse
//@entry far reach=done max_instr=1000000000 :: 70000 characters, one arbitrary, built from a C string, by push_back and by appending halves: all equal, all the same characters
typedef SeqT<1024> Q;
static char ch(const char *n) { unsigned char c = vp_u8(n); vp_assume(c != 0); return (char)c; }
static void check(S &s, const Q &m) {
    const S &k = s; int n = m.n();
    A((int)k.size() == n && k.empty() == (n == 0), "size() counts the characters");
    A(k.capacity() >= k.size(), "capacity() >= size()");
    const char *c = k.c_str(); int i = 0;
    for (; i < n; i++) A(c[i] == (char)m[i] && k[i] == (char)m[i] && s[i] == (char)m[i], "the characters are those put in");
    A(c[n] == 0 && k[n] == 0, "c_str() is zero-terminated behind the last character");
    i = 0; for (auto it = k.begin(); it != k.end(); it++) { A(i < n, "const iteration ends"); A(*it == (char)m[i], "const iteration yields the characters"); i++; }
    A(i == n, "const iteration yields every character");
    i = 0; for (auto it = s.begin(); it != s.end(); ++it) { A(i < n, "iteration ends"); A(*it == (char)m[i], "iteration yields the characters"); i++; }
    A(i == n, "iteration yields every character");
    if (n) A(k.front() == (char)m[0] && k.back() == (char)m[n - 1], "front() and back()");
}
static void tr(const Q &m) { for (int i = 0; i < m.n(); i++) vp_trace((unsigned char)m[i]); vp_trace(m.n()); }
struct Buf { char c[64]; int n; };
// n characters, the first, the middle and the last arbitrary
static void buf(Buf &b, int n) { b.n = n; for (int i = 0; i < n; i++) b.c[i] = (i == 0 || i == n - 1 || i == n / 2) ? ch("c") : (char)('a' + i % 26); b.c[n] = 0; }
static void add(Q &m, const Buf &b) { for (int i = 0; i < b.n; i++) m.pushBack(b.c[i]); }
static int startLen(int k) { return k == 0 ? 0 : k == 1 ? 1 : 12 + k; }
ENTRY hist() {
    {
        Buf b; buf(b, startLen(pick("start", 6))); S s(b.c); Q m; add(m, b); check(s, m);
        for (int i = 0; i < DEEP(4, 5); i++) {
            int op = pick("op", 7);
            unsigned long long cap = s.capacity();
            if (op == 0) { char c = ch("x"); s.push_back(c); m.pushBack(c); }
            else if (op == 1) { Buf d; buf(d, pick("len", 3)); S t(d.c); s += t; add(m, d); Q mt; add(mt, d); check(t, mt); }
            else if (op == 2) { Buf d; buf(d, 1 + pick("len", 2)); s += d.c; add(m, d); }
            else if (op == 3) { Buf d; buf(d, pick("long", 2) ? 16 : 2); s = d.c; m.clear(); add(m, d); vp_reach("assign"); }
            else if (op == 4) { s.clear(); m.clear(); vp_reach("clear"); }
            else if (op == 5) { vp_assume(m.n() > 0); int k = pick("last", 2) ? m.n() - 1 : 0; char c = ch("x"); s[k] = c; m[k] = c; }
            else { S t = s; char c = ch("x"); t.push_back(c); check(s, m); Q mt = m; mt.pushBack(c); check(t, mt); s = t; m = mt; }
            if (s.capacity() > cap) vp_reach("grow");
            check(s, m);
        }
        tr(m);
    }
    allGone();
}
ENTRY concat() {
    {
        Buf a, b; buf(a, pick("n", DEEP(35, 60))); buf(b, pick("m", DEEP(35, 60)));
        if (a.n < 15 && a.n + b.n >= 15) vp_reach("cross");
        S s(a.c), t(b.c); Q ms, mt, m; add(ms, a); add(mt, b); add(m, a); add(m, b);
        int how = pick("how", 5);
        if (how == 0) { S r = s + t; check(r, m); }
        else if (how == 1) { S r = s + b.c; check(r, m); }
        else if (how == 2) { S r = a.c + t; check(r, m); }
        else if (how == 3) { S r(s); r += t; check(r, m); char x = ch("x"); r.push_back(x); m.pushBack(x); check(r, m); }
        else { S r(s); r += b.c; r += "xy"; m.pushBack('x'); m.pushBack('y'); check(r, m); }
        check(s, ms); check(t, mt); tr(m);
    }
    allGone();
}
ENTRY compare() {
    {
        Buf a, b; a.n = pick("n", DEEP(6, 8)); b.n = pick("m", DEEP(6, 8));
        for (int i = 0; i < a.n; i++) a.c[i] = ch("a"); a.c[a.n] = 0;
        for (int i = 0; i < b.n; i++) b.c[i] = ch("b"); b.c[b.n] = 0;
        const S s(a.c), t(b.c);
        int eq = a.n == b.n; if (eq) for (int i = 0; i < a.n; i++) eq &= (int)(a.c[i] == b.c[i]);
        A((s == t) == eq && (s != t) == !eq, "== and != compare all characters");
        A((s == b.c) == eq && (s != b.c) == !eq, "comparison with a C string on the right");
        A((a.c == t) == eq && (a.c != t) == !eq, "comparison with a C string on the left");
        A(s == s && !(s != s) && s == a.c, "a string equals itself");
        if (a.n != b.n) vp_reach("length"); else if (a.n > 1) { if (eq) vp_reach("equal"); else vp_reach("differ"); }
        vp_trace(eq);
    }
    allGone();
}
ENTRY cstr() {
    {
        char c[7]; for (int i = 0; i < 6; i++) c[i] = (char)vp_u8("c"); c[6] = 0;
        int how = pick("how", 3); Q m; S s;
        if (how == 0) { S t(c); s = t; } else if (how == 1) s = c; else { s.push_back('<'); m.pushBack('<'); s += c; }
        int n = 0; while (c[n]) { m.pushBack(c[n]); n++; }
        if (n > 1 && n < 5) vp_reach("cut");
        check(s, m); tr(m);
    }
    allGone();
}
ENTRY longer() {
    {
        S s; Q m; int n = pick("n", 141); char x = ch("x");
        for (int i = 0; i < n; i++) { char c = i % 7 == 0 ? x : (char)('0' + i % 10); s.push_back(c); m.pushBack(c); }
        check(s, m);
        if (n && n <= 8) for (int j = 0; j < 5; j++) { s += s; int k = m.n(); for (int i = 0; i < k; i++) m.pushBack(m[i]); check(s, m); }
        s.clear(); m.clear(); check(s, m);
        s += "again"; Buf b; buf(b, 0); const char *w = "again"; while (*w) m.pushBack(*w++);
        check(s, m); vp_reach("done");
    }
    allGone();
}
ENTRY far() {
    {
    int at = farAt(), way = pick("way", 4); static char b[FAR + 1]; for (int i = 0; i < FAR; i++) b[i] = (char)('a' + i % 26);
    char x = ch("x"); b[at] = x; b[FAR] = 0; S s;
    if (way == 0) { S t(b); s = t; } else if (way == 1) s = b; else if (way == 2) { s += b; } else for (int i = 0; i < FAR; i++) { s.push_back(b[i]); IF_NOT((int)s.size() == i + 1, "size() counts the characters"); }
    A((int)s.size() == FAR && s.back() == b[FAR - 1] && s.front() == b[0], "every character is there"); const char *c = s.c_str(); for (int i = 0; i < FAR; i++) IF_NOT(c[i] == b[i] && s[i] == b[i], "the characters are those put in"); A(c[FAR] == 0, "c_str() is zero-terminated behind the last character");
    int i = 0; const S &k = s; for (auto it = k.begin(); it != k.end(); it++) { IF_NOT(i < FAR && *it == b[i], "iteration yields the characters"); i++; } A(i == FAR, "iteration yields every character");
    S d(s); A(d == s && d == b && !(d != s), "equal strings are equal"); d[FAR - 2] = d[FAR - 2] == 'A' ? 'B' : 'A'; A(d != s && !(d == b), "different strings differ");
    s += s; A((int)s.size() == 2 * FAR && s[FAR] == b[0] && s[2 * FAR - 1] == b[FAR - 1] && s.c_str()[2 * FAR] == 0, "appending"); vp_reach("done"); vp_trace(at);
    }
    allGone();
}
