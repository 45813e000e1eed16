// Self-test of the engine (not a property): encodings the library does not use today but a change could bring in.
//@entry values reach=e :: copies of large arguments, overflow and bit intrinsics
//@entry libc reach=e :: C string functions, std::sort
//@entry floats reach=e :: concrete floating point, arrays of variable length
//@entry stl reach=e :: iostream, vector, lambda, function objects
#include "vp.hpp"
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <algorithm>
#include <climits>
#include <iostream>
#include <vector>
#include <functional>
struct Big { long a, b, c; };
__attribute__((noinline)) long mod(Big x) { x.a = 7; return x.a + x.b; }
ENTRY values() {
    int v = vp_int("v");
    Big b; b.a = v; b.b = 2; b.c = 3;
    A(mod(b) == 9, "result"); A(b.a == v, "an argument passed by value is a copy");
    unsigned u = vp_u32("u"), r;
    bool o = __builtin_mul_overflow(u, 3u, &r);
    A(o == ((unsigned long)u * 3 > 0xffffffffull), "multiplication overflow");
    if (!o) A(r == u * 3, "product");
    long q; bool p = __builtin_add_overflow((long)v, LONG_MAX, &q);
    A(p == (v > 0), "addition overflow");
    A(!u || (u >> (31 - __builtin_clz(u))) == 1, "leading zeros");
    vp_reach("e");
}
ENTRY libc() {
    char a[4]; a[0] = (char)vp_u8("a"); a[1] = (char)vp_u8("b"); a[2] = 'x'; a[3] = 0;
    unsigned long n = strlen(a);
    A(n == 3 ? a[0] && a[1] : n == 1 ? !a[1] : n == 0 && !a[0], "strlen");
    A((memcmp(a, "ab", 2) == 0) == (a[0] == 'a' && a[1] == 'b'), "memcmp");
    char c[8]; strcpy(c, a); A(strcmp(c, a) == 0, "strcmp");
    int x[5] = {5, 3, 4, 1, 2}; std::sort(x, x + 5); for (int i = 0; i < 5; i++) A(x[i] == i + 1, "sorted");
    vp_reach("e");
}
ENTRY floats() {
    int cap = vp_choice("c", 5);
    int g = (int)(cap * 1.5) + 1; A(g == cap * 3 / 2 + 1, "product");
    A(std::floor(-1.5) == -2.0 && std::ceil(1.2) == 2, "rounding");
    int n = cap + 1; int w[n]; for (int i = 0; i < n; i++) w[i] = i; A(w[n - 1] == cap, "variable length");
    vp_reach("e");
}
ENTRY stl() {
    int v = vp_int("v");
    if (v == 5 && v == 6) std::cerr << "x" << v << std::endl;
    std::vector<int> x; x.push_back(v); x.push_back(3); x.push_back(v); x.push_back(7); x.push_back(8);
    A(x[0] == v && x.back() == 8, "vector");
    auto f = [&](int a) { return a == v; };
    std::function<bool(int)> g = f; A(f(v) && g(v), "function");
    vp_reach("e");
}
