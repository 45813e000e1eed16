// dsym - a small symbolic executor for LLVM IR (KLEE style), deciding with Z3.
//
// Executes a harness entry point of a bitcode module path by path.  Values are
// concrete machine words or hash-consed bit-vector expressions over symbolic
// inputs; every branch, switch, address, assumption and assertion that depends
// on symbolic data is decided by Z3 under the path condition.  Both sides of a
// branch are explored whenever the solver says both are feasible, so a finished
// run covers every value of the symbolic inputs within the harness's bounds.
#include <llvm/ADT/APInt.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <z3.h>

#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static double T0;

// ------------------------------------------------------------------ options
struct Options {
    std::string file, entry, out;
    int jobs = 8;
    double deadline = 800;      // seconds for the whole run
    u64 maxInstr = 5000000;     // per path: beyond it the path counts as hanging
    u32 maxDepth = 1500;        // call depth: beyond it the recursion counts as unbounded
    int maxViolations = 1;
    int samples = 6;            // path models kept per worker for native validation
    u32 seed = 1;
    u64 queryTimeoutMs = 60000;
    std::string dumpSmt;        // directory for sampled queries in SMT-LIB2
} opt;

[[noreturn]] static void fatal(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "dsym: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
    va_end(ap);
    _exit(3);
}
struct Unsupported { std::string what; };

// ------------------------------------------------------------- expressions
enum Op : u8 { K, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
               EQ, ULT, SLT, NOT, ZEXT, SEXT, EXTR, CONCAT, ITE, AGG };

typedef std::vector<u32> VarSet; // sorted
struct Expr {
    Op op; u8 w; u8 lo;   // lo: low bit for EXTR
    u32 id; u64 k;        // constant / var id
    Expr *a, *b, *c;
    const VarSet *vars;   // null: none
    Z3_ast z;
    std::vector<struct Val> *agg;
    u32 size = 1;         // tree size, saturating
};

struct Val { u64 c; Expr *e; };
static inline Val C(u64 x) { return Val{x, nullptr}; }
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 x, unsigned w) { return w >= 64 ? (i64)x : (i64)(x << (64 - w)) >> (64 - w); }

struct Var { std::string name; u8 w; bool undef; u32 bound = 0; }; // bound: 0..bound-1 is the whole domain (vp_choice)
static std::vector<Var> vars;
static std::unordered_map<std::string, u32> varIndex;
static std::vector<Expr *> varExpr;

struct EHash {
    size_t operator()(const Expr *e) const {
        u64 h = e->op * 0x9E3779B97F4A7C15ull ^ (u64)e->w << 8 ^ (u64)e->lo << 16;
        auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
        mix(e->k); mix((u64)e->a); mix((u64)e->b); mix((u64)e->c);
        return h;
    }
};
struct EEq {
    bool operator()(const Expr *x, const Expr *y) const {
        return x->op == y->op && x->w == y->w && x->lo == y->lo && x->k == y->k && x->a == y->a && x->b == y->b && x->c == y->c;
    }
};
static std::unordered_set<Expr *, EHash, EEq> table;
static u32 nextId = 1;

static const VarSet *unite(const VarSet *a, const VarSet *b) {
    if (!a || a == b) return b;
    if (!b) return a;
    if (a->size() >= b->size() && std::includes(a->begin(), a->end(), b->begin(), b->end())) return a;
    if (b->size() >= a->size() && std::includes(b->begin(), b->end(), a->begin(), a->end())) return b;
    auto *r = new VarSet;
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(*r));
    return r;
}

static Expr *intern(Op op, u8 w, u8 lo, u64 k, Expr *a, Expr *b, Expr *c) {
    Expr probe{op, w, lo, 0, k, a, b, c, nullptr, nullptr, nullptr};
    auto it = table.find(&probe);
    if (it != table.end()) return *it;
    Expr *e = new Expr(probe);
    e->id = nextId++;
    u64 sz = 1 + (a ? a->size : 0) + (b ? b->size : 0) + (c ? c->size : 0);
    e->size = sz > 1000000 ? 1000000 : (u32)sz;
    const VarSet *v = nullptr;
    if (op == VAR) v = new VarSet{(u32)k};
    if (a) v = unite(v, a->vars);
    if (b) v = unite(v, b->vars);
    if (c) v = unite(v, c->vars);
    e->vars = v;
    table.insert(e);
    return e;
}
static Expr *kon(u64 v, u8 w) { return intern(K, w, 0, v & mask(w), nullptr, nullptr, nullptr); }
static Expr *toE(const Val &v, u8 w) { return v.e ? v.e : kon(v.c, w); }
static Val fromE(Expr *e) { return e->op == K ? Val{e->k, nullptr} : Val{0, e}; }

static Expr *mkVar(const std::string &name, u8 w, bool undef) {
    auto it = varIndex.find(name);
    if (it != varIndex.end()) {
        if (vars[it->second].w == w) return varExpr[it->second];
    }
    u32 id = vars.size();
    vars.push_back({name, w, undef, 0});
    varIndex[name] = id;
    Expr *e = intern(VAR, w, 0, id, nullptr, nullptr, nullptr);
    varExpr.push_back(e);
    return e;
}

static u64 evalBin(Op op, u8 w, u64 a, u64 b) {
    u64 m = mask(w);
    switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? m : 1; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
    case UREM: return b ? a % b : a;
    case SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: return (u64)(sx(a, w) >> (b >= w ? 63 : b)) & m;
    case EQ: return a == b;
    case ULT: return a < b;
    case SLT: return sx(a, w) < sx(b, w);
    default: fatal("evalBin");
    }
}

static Expr *mkNot(Expr *a);
static Expr *mkExtr(Expr *a, unsigned lo, unsigned w, bool raw = false);
static Expr *mkZext(Expr *a, unsigned w);

// w: width of the operands
static Expr *mkBin(Op op, u8 w, Expr *a, Expr *b) {
    bool cmp = op == EQ || op == ULT || op == SLT;
    u8 rw = cmp ? 1 : w;
    if (a->op == K && b->op == K) return kon(evalBin(op, w, a->k, b->k), rw);
    if (w > 1 && (op == AND || op == OR || op == XOR)) { // words holding a boolean
        auto isB = [](Expr *e) { return (e->op == ZEXT && e->a->w == 1) || (e->op == K && e->k <= 1); };
        auto bit = [](Expr *e) { return e->op == K ? kon(e->k, 1) : e->a; };
        if (isB(a) && isB(b)) return mkZext(mkBin(op, 1, bit(a), bit(b)), w);
        if (op == AND && b->op == K && isB(a)) return b->k & 1 ? a : kon(0, w);
        if (op == AND && a->op == K && isB(b)) return a->k & 1 ? b : kon(0, w);
    }
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
    if (comm && (a->op == K || (b->op != K && a->id > b->id))) std::swap(a, b); // constants right
    switch (op) {
    case ADD:
        if (b->op == K) {
            if (b->k == 0) return a;
            if (a->op == ADD && a->b->op == K) return mkBin(ADD, w, a->a, kon(a->b->k + b->k, w));
        }
        break;
    case SUB:
        if (a == b) return kon(0, w);
        if (b->op == K) return mkBin(ADD, w, a, kon(0 - b->k, w));
        if (a->op == ADD && a->a == b) return a->b;
        if (a->op == ADD && a->b == b) return a->a;
        break;
    case MUL:
        if (b->op == K) { if (b->k == 0) return b; if (b->k == 1) return a; }
        break;
    case AND:
        if (a == b) return a;
        if (b->op == K) {
            if (b->k == 0) return b;
            if (b->k == mask(w)) return a;
            if (a->op == AND && a->b->op == K) return mkBin(AND, w, a->a, kon(a->b->k & b->k, w));
        }
        if (w == 1 && ((a->op == NOT && a->a == b) || (b->op == NOT && b->a == a))) return kon(0, 1);
        break;
    case OR:
        if (a == b) return a;
        if (b->op == K) { if (b->k == 0) return a; if (b->k == mask(w)) return b; }
        if (w == 1 && ((a->op == NOT && a->a == b) || (b->op == NOT && b->a == a))) return kon(1, 1);
        break;
    case XOR:
        if (a == b) return kon(0, w);
        if (b->op == K) { if (b->k == 0) return a; if (w == 1) return mkNot(a); }
        break;
    case SHL: case LSHR: case ASHR:
        if (b->op == K && b->k == 0) return a;
        break;
    case UDIV: if (b->op == K && b->k == 1) return a; break;
    case EQ:
        if (a == b) return kon(1, 1);
        if (b->op == K) {
            if (w == 1) return b->k ? a : mkNot(a);
            if (a->op == ZEXT) {
                if (b->k & ~mask(a->a->w)) return kon(0, 1);
                return mkBin(EQ, a->a->w, a->a, kon(b->k, a->a->w));
            }
            if (a->op == SEXT) {
                u8 iw = a->a->w; u64 lowk = b->k & mask(iw);
                if ((u64)(sx(lowk, iw)) % 1 == 0 && ((u64)sx(lowk, iw) & mask(w)) != b->k) return kon(0, 1);
                return mkBin(EQ, iw, a->a, kon(lowk, iw));
            }
            if (a->op == ADD && a->b->op == K) return mkBin(EQ, w, a->a, kon(b->k - a->b->k, w));
            if (a->op == ITE) {
                bool tk = a->b->op == K, fk = a->c->op == K;
                if (tk && fk) {
                    bool te = a->b->k == b->k, fe = a->c->k == b->k;
                    if (te && fe) return kon(1, 1);
                    if (!te && !fe) return kon(0, 1);
                    return te ? a->a : mkNot(a->a);
                }
            }
            if (a->op == XOR && a->b->op == K) return mkBin(EQ, w, a->a, kon(a->b->k ^ b->k, w));
        } else {
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(EQ, a->a->w, a->a, b->a);
            if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(EQ, a->a->w, a->a, b->a);
        }
        break;
    case ULT:
        if (a == b) return kon(0, 1);
        if (b->op == K && b->k == 0) return kon(0, 1);
        if (b->op == K && b->k == 1) return mkBin(EQ, w, a, kon(0, w));
        if (a->op == K && a->k == mask(w)) return kon(0, 1);
        if (a->op == K && a->k == 0) return mkNot(mkBin(EQ, w, b, a));
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULT, a->a->w, a->a, b->a);
        if (a->op == ZEXT && b->op == K) {
            if (b->k > mask(a->a->w)) return kon(1, 1);
            return mkBin(ULT, a->a->w, a->a, kon(b->k, a->a->w));
        }
        if (b->op == ZEXT && a->op == K) {
            if (a->k >= mask(b->a->w)) return kon(0, 1);
            return mkBin(ULT, b->a->w, kon(a->k, b->a->w), b->a);
        }
        break;
    case SLT:
        if (a == b) return kon(0, 1);
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(SLT, a->a->w, a->a, b->a);
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULT, a->a->w, a->a, b->a);
        if (a->op == ZEXT && b->op == K) {
            if (sx(b->k, w) <= 0) return kon(0, 1);
            return mkBin(ULT, w, a, b);
        }
        if (b->op == ZEXT && a->op == K) {
            if (sx(a->k, w) < 0) return kon(1, 1);
            return mkBin(ULT, w, a, b);
        }
        break;
    default: break;
    }
    return intern(op, rw, 0, 0, a, b, nullptr);
}
static Expr *mkNot(Expr *a) {
    if (a->op == K) return kon(!a->k, 1);
    if (a->op == NOT) return a->a;
    return intern(NOT, 1, 0, 0, a, nullptr, nullptr);
}
static Expr *mkZext(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (a->op == K) return kon(a->k, w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    return intern(ZEXT, w, 0, 0, a, nullptr, nullptr);
}
static Expr *mkSext(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (a->op == K) return kon((u64)sx(a->k, a->w), w);
    if (a->op == SEXT) return mkSext(a->a, w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    return intern(SEXT, w, 0, 0, a, nullptr, nullptr);
}
static Expr *mkExtr(Expr *a, unsigned lo, unsigned w, bool raw) {
    if (lo == 0 && a->w == w) return a;
    if (a->op == K) return kon(a->k >> lo, w);
    if (a->op == EXTR) return mkExtr(a->a, a->lo + lo, w);
    if (a->op == ZEXT || a->op == SEXT) {
        if (lo + w <= a->a->w) return mkExtr(a->a, lo, w);
        if (a->op == ZEXT && lo >= a->a->w) return kon(0, w);
        if (lo == 0) return a->op == ZEXT ? mkZext(a->a, w) : mkSext(a->a, w);
    }
    if (a->op == CONCAT) { // a:high b:low
        unsigned lw = a->b->w;
        if (lo + w <= lw) return mkExtr(a->b, lo, w);
        if (lo >= lw) return mkExtr(a->a, lo - lw, w);
    }
    if (a->op == ITE && a->b->op == K && a->c->op == K)
        return intern(ITE, w, 0, 0, a->a, kon(a->b->k >> lo, w), kon(a->c->k >> lo, w));
    if (lo == 0 && !raw && (a->op == ADD || a->op == AND || a->op == OR || a->op == XOR) )
        return mkBin(a->op, w, mkExtr(a->a, 0, w), mkExtr(a->b, 0, w));
    return intern(EXTR, w, lo, 0, a, nullptr, nullptr);
}
// byte i of a stored value, in a form mkConcat can put together again
static Expr *byteOf(Expr *e, unsigned i) {
    switch (e->op) {
    case ADD: case SUB: case MUL: case AND: case OR: case XOR: case ITE:
        if (e->w > 8) return intern(EXTR, 8, i * 8, 0, e, nullptr, nullptr);
    default: return mkExtr(e, i * 8, 8);
    }
}
static Expr *mkConcat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (hi->op == K && lo->op == K) return kon(hi->k << lo->w | lo->k, w);
    if (hi->op == EXTR && lo->op == EXTR && hi->a == lo->a && hi->lo == lo->lo + lo->w)
        return mkExtr(hi->a, lo->lo, w, true);
    if (hi->op == K && hi->k == 0) return mkZext(lo, w);
    if (lo->op == EXTR && hi->op == CONCAT && hi->b->op == EXTR && hi->b->a == lo->a && hi->b->lo == lo->lo + lo->w)
        return mkConcat(hi->a, mkExtr(lo->a, lo->lo, hi->b->w + lo->w, true));
    return intern(CONCAT, w, 0, 0, hi, lo, nullptr);
}
static Expr *mkIte(Expr *c, Expr *t, Expr *f) {
    if (c->op == K) return c->k ? t : f;
    if (t == f) return t;
    if (t->w == 1) {
        if (t->op == K && f->op == K) return t->k ? c : mkNot(c);
        if (t->op == K) return t->k ? mkBin(OR, 1, c, f) : mkBin(AND, 1, mkNot(c), f);
        if (f->op == K) return f->k ? mkBin(OR, 1, mkNot(c), t) : mkBin(AND, 1, c, t);
    }
    return intern(ITE, t->w, 0, 0, c, t, f);
}

typedef std::vector<u64> Model; // var id -> value
static std::unordered_map<Expr *, u64> evalMemo;
static u64 evalRec(Expr *e, const Model &m) {
    switch (e->op) {
    case K: return e->k;
    case VAR: return e->k < m.size() ? m[e->k] : 0;
    default: break;
    }
    if (e->size <= 24) // small: not worth a memo
        switch (e->op) {
        case NOT: return !evalRec(e->a, m);
        case ZEXT: return evalRec(e->a, m);
        case SEXT: return (u64)sx(evalRec(e->a, m), e->a->w) & mask(e->w);
        case EXTR: return (evalRec(e->a, m) >> e->lo) & mask(e->w);
        case CONCAT: return evalRec(e->a, m) << e->b->w | evalRec(e->b, m);
        case ITE: return evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m);
        default: return evalBin(e->op, e->a->w, evalRec(e->a, m), evalRec(e->b, m));
        }
    auto it = evalMemo.find(e);
    if (it != evalMemo.end()) return it->second;
    u64 r;
    switch (e->op) {
    case NOT: r = !evalRec(e->a, m); break;
    case ZEXT: r = evalRec(e->a, m); break;
    case SEXT: r = (u64)sx(evalRec(e->a, m), e->a->w) & mask(e->w); break;
    case EXTR: r = (evalRec(e->a, m) >> e->lo) & mask(e->w); break;
    case CONCAT: r = evalRec(e->a, m) << e->b->w | evalRec(e->b, m); break;
    case ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
    default: r = evalBin(e->op, e->a->w, evalRec(e->a, m), evalRec(e->b, m));
    }
    evalMemo[e] = r;
    return r;
}
static u64 evalE(Expr *e, const Model &m) {
    if (e->op == K) return e->k;
    if (e->op == VAR) return e->k < m.size() ? m[e->k] : 0;
    if (e->size > 24) evalMemo.clear();
    return evalRec(e, m);
}

// ------------------------------------------------------------------ solver
struct Stats {
    u64 paths = 0, forks = 0, instr = 0, queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0;
    u64 asserts = 0, assertQueries = 0, assumeKilled = 0, modelHits = 0, impliedHits = 0, maxInstrPath = 0;
    u64 safetyChecks = 0, concretised = 0, domain = 0, order = 0;
    double solver = 0;
} st;

static Z3_context zc;
static Z3_solver zs;
static u64 litCount = 0, LITMAX = 150;
static std::unordered_map<Expr *, Z3_ast> lits;

static void z3err(Z3_context c, Z3_error_code e) { fatal("z3 error: %s", Z3_get_error_msg(c, e)); }
static void solverReset() {
    if (zs) Z3_solver_dec_ref(zc, zs);
    zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
    Z3_solver_inc_ref(zc, zs);
    Z3_params p = Z3_mk_params(zc);
    Z3_params_inc_ref(zc, p);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), (unsigned)opt.queryTimeoutMs);
    Z3_solver_set_params(zc, zs, p);
    Z3_params_dec_ref(zc, p);
    lits.clear();
    litCount = 0;
}
static void solverInit() {
    Z3_config cfg = Z3_mk_config();
    zc = Z3_mk_context(cfg); // ASTs live as long as the context
    Z3_del_config(cfg);
    Z3_set_error_handler(zc, z3err);
    solverReset();
}
static Z3_ast zb(Expr *e); // bit-vector
static Z3_ast zbool(Expr *e) { // boolean of a width-1 expr
    switch (e->op) {
    case K: return e->k ? Z3_mk_true(zc) : Z3_mk_false(zc);
    case NOT: return Z3_mk_not(zc, zbool(e->a));
    case EQ: if (e->a->w > 1) return Z3_mk_eq(zc, zb(e->a), zb(e->b)); return Z3_mk_iff(zc, zbool(e->a), zbool(e->b));
    case ULT: if (e->a->w > 1) return Z3_mk_bvult(zc, zb(e->a), zb(e->b)); break;
    case SLT: if (e->a->w > 1) return Z3_mk_bvslt(zc, zb(e->a), zb(e->b)); break;
    case AND: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; return Z3_mk_and(zc, 2, x); }
    case OR: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; return Z3_mk_or(zc, 2, x); }
    case XOR: return Z3_mk_xor(zc, zbool(e->a), zbool(e->b));
    case ITE: return Z3_mk_ite(zc, zbool(e->a), zbool(e->b), zbool(e->c));
    default: break;
    }
    Z3_sort s1 = Z3_mk_bv_sort(zc, 1);
    return Z3_mk_eq(zc, zb(e), Z3_mk_unsigned_int64(zc, 1, s1));
}
static Z3_ast zb(Expr *e) {
    if (e->z) return e->z;
    Z3_sort s = Z3_mk_bv_sort(zc, e->w);
    Z3_ast r;
    if (e->w == 1 && (e->op == NOT || e->op == EQ || e->op == ULT || e->op == SLT)) {
        Z3_ast c;
        if ((e->op == ULT || e->op == SLT) && e->a->w == 1)
            c = e->op == ULT ? Z3_mk_bvult(zc, zb(e->a), zb(e->b)) : Z3_mk_bvslt(zc, zb(e->a), zb(e->b));
        else c = zbool(e);
        r = Z3_mk_ite(zc, c, Z3_mk_unsigned_int64(zc, 1, s), Z3_mk_unsigned_int64(zc, 0, s));
        return e->z = r;
    }
    switch (e->op) {
    case K: r = Z3_mk_unsigned_int64(zc, e->k, s); break;
    case VAR: { std::string n = "v" + std::to_string(e->k); r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), s); break; }
    case ADD: r = Z3_mk_bvadd(zc, zb(e->a), zb(e->b)); break;
    case SUB: r = Z3_mk_bvsub(zc, zb(e->a), zb(e->b)); break;
    case MUL: r = Z3_mk_bvmul(zc, zb(e->a), zb(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(zc, zb(e->a), zb(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(zc, zb(e->a), zb(e->b)); break;
    case UREM: r = Z3_mk_bvurem(zc, zb(e->a), zb(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(zc, zb(e->a), zb(e->b)); break;
    case AND: r = Z3_mk_bvand(zc, zb(e->a), zb(e->b)); break;
    case OR: r = Z3_mk_bvor(zc, zb(e->a), zb(e->b)); break;
    case XOR: r = Z3_mk_bvxor(zc, zb(e->a), zb(e->b)); break;
    case SHL: r = Z3_mk_bvshl(zc, zb(e->a), zb(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(zc, zb(e->a), zb(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(zc, zb(e->a), zb(e->b)); break;
    case ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, zb(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, zb(e->a)); break;
    case EXTR: r = Z3_mk_extract(zc, e->lo + e->w - 1, e->lo, zb(e->a)); break;
    case CONCAT: r = Z3_mk_concat(zc, zb(e->a), zb(e->b)); break;
    case ITE: r = Z3_mk_ite(zc, zbool(e->a), zb(e->b), zb(e->c)); break;
    default: fatal("zb: op %d", e->op);
    }
    return e->z = r;
}
static Z3_ast lit(Expr *e) {
    auto it = lits.find(e);
    if (it != lits.end()) return it->second;
    Z3_ast p = Z3_mk_fresh_const(zc, "p", Z3_mk_bool_sort(zc));
    Z3_solver_assert(zc, zs, Z3_mk_implies(zc, p, zbool(e)));
    litCount++;
    return lits[e] = p;
}

// ---- integer encoding.  A constraint made of comparisons (and sums that can not
// wrap) of whole variables means the same over bounded integers; Z3 decides orders
// there far faster than over bit-vectors.  Anything else stays a bit-vector query.
typedef __int128 i128;
struct IVal { Z3_ast z; i128 lo, hi; };     // z == null: not expressible
static std::unordered_map<Expr *, IVal> intMemo[2];
static std::unordered_map<Expr *, Z3_ast> boolMemo;
static std::vector<Z3_ast> intVar;
static Z3_ast iBool(Expr *e);
static Z3_ast iNum(i128 v) { return Z3_mk_int64(zc, (int64_t)v, Z3_mk_int_sort(zc)); }
static Z3_ast iAdd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(zc, 2, x); }
static bool unsignedVar(u32 v) { return vars[v].bound || vars[v].w < 32; }
static void varRange(u32 v, i128 &lo, i128 &hi) {
    unsigned w = vars[v].w;
    if (unsignedVar(v)) { lo = 0; hi = vars[v].bound ? (i128)vars[v].bound - 1 : ((i128)1 << w) - 1; }
    else { lo = -((i128)1 << (w - 1)); hi = ((i128)1 << (w - 1)) - 1; }
}
static Z3_ast iWideBool(Expr *e) { // w > 1, value 0 or 1
    switch (e->op) {
    case K: return e->k == 0 ? Z3_mk_false(zc) : e->k == 1 ? Z3_mk_true(zc) : nullptr;
    case ZEXT: return e->a->w == 1 ? iBool(e->a) : nullptr;
    case AND: case OR: case XOR: {
        Z3_ast a = iWideBool(e->a); if (!a) return nullptr;
        Z3_ast b = iWideBool(e->b); if (!b) return nullptr;
        Z3_ast x[2] = {a, b};
        return e->op == AND ? Z3_mk_and(zc, 2, x) : e->op == OR ? Z3_mk_or(zc, 2, x) : Z3_mk_xor(zc, a, b);
    }
    default: return nullptr;
    }
}
static IVal iInt(Expr *e, bool sgn) {
    auto &memo = intMemo[sgn];
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    IVal r{nullptr, 0, 0};
    unsigned w = e->w;
    if (w > 1 && w <= 32) {
        i128 half = (i128)1 << (w - 1), full = (i128)1 << w;
        i128 min = sgn ? -half : 0, max = sgn ? half - 1 : full - 1;
        switch (e->op) {
        case K: { i128 v = sgn ? (i128)sx(e->k, w) : (i128)e->k; r = {iNum(v), v, v}; break; }
        case VAR: {
            u32 v = (u32)e->k; varRange(v, r.lo, r.hi);
            while (intVar.size() <= v) {
                std::string n = "i" + std::to_string(intVar.size());
                intVar.push_back(Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), Z3_mk_int_sort(zc)));
            }
            r.z = intVar[v];
            if (r.lo < min) { r.z = Z3_mk_ite(zc, Z3_mk_lt(zc, r.z, iNum(0)), iAdd(r.z, iNum(full)), r.z); r.lo = min; r.hi = max; }
            else if (r.hi > max) { r.z = Z3_mk_ite(zc, Z3_mk_gt(zc, r.z, iNum(max)), iAdd(r.z, iNum(-full)), r.z); r.lo = min; r.hi = max; }
            break;
        }
        case ZEXT:
            if (e->a->w == 1) { Z3_ast b = iBool(e->a); if (b) r = {Z3_mk_ite(zc, b, iNum(1), iNum(0)), 0, 1}; }
            else r = iInt(e->a, false);
            break;
        case SEXT: if (sgn && e->a->w > 1) r = iInt(e->a, true); break;
        case AND: case OR: case XOR: {
            Z3_ast b = iWideBool(e);
            if (b) r = {Z3_mk_ite(zc, b, iNum(1), iNum(0)), 0, 1};
            break;
        }
        case ADD: {
            IVal a = iInt(e->a, sgn), b = iInt(e->b, sgn);
            if (a.z && b.z && a.lo + b.lo >= min && a.hi + b.hi <= max) r = {iAdd(a.z, b.z), a.lo + b.lo, a.hi + b.hi};
            break;
        }
        case ITE: {
            Z3_ast c = iBool(e->a); if (!c) break;
            IVal a = iInt(e->b, sgn), b = iInt(e->c, sgn);
            if (a.z && b.z) r = {Z3_mk_ite(zc, c, a.z, b.z), a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi};
            break;
        }
        default: break;
        }
    }
    return memo[e] = r;
}
static Z3_ast iBool(Expr *e) {
    if (e->w != 1) return nullptr;
    auto it = boolMemo.find(e);
    if (it != boolMemo.end()) return it->second;
    Z3_ast r = nullptr;
    switch (e->op) {
    case K: r = e->k ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
    case NOT: { Z3_ast a = iBool(e->a); if (a) r = Z3_mk_not(zc, a); break; }
    case AND: case OR: case XOR: {
        Z3_ast a = iBool(e->a), b = a ? iBool(e->b) : nullptr;
        if (!b) break;
        Z3_ast x[2] = {a, b};
        r = e->op == AND ? Z3_mk_and(zc, 2, x) : e->op == OR ? Z3_mk_or(zc, 2, x) : Z3_mk_xor(zc, a, b);
        break;
    }
    case ITE: {
        Z3_ast c = iBool(e->a), a = c ? iBool(e->b) : nullptr, b = a ? iBool(e->c) : nullptr;
        if (b) r = Z3_mk_ite(zc, c, a, b);
        break;
    }
    case EQ: case ULT: case SLT: {
        if (e->a->w == 1) {
            if (e->op != EQ) break;
            Z3_ast a = iBool(e->a), b = a ? iBool(e->b) : nullptr;
            if (b) r = Z3_mk_iff(zc, a, b);
            break;
        }
        if (e->op == EQ) {
            Z3_ast a = iWideBool(e->a), b = a ? iWideBool(e->b) : nullptr;
            if (b) { r = Z3_mk_iff(zc, a, b); break; }
        }
        bool sgn = e->op == SLT;
        if (e->op == EQ) { // either reading will do: prefer the variables' own
            sgn = true;
            for (u32 v : *e->vars) if (unsignedVar(v)) sgn = false;
        }
        IVal a = iInt(e->a, sgn); if (!a.z) break;
        IVal b = iInt(e->b, sgn); if (!b.z) break;
        r = e->op == EQ ? Z3_mk_eq(zc, a.z, b.z) : Z3_mk_lt(zc, a.z, b.z);
        break;
    }
    default: break;
    }
    return boolMemo[e] = r;
}
static Z3_solver zi;
static u64 ilitCount = 0;
static std::unordered_map<Expr *, Z3_ast> ilits;
static std::vector<u8> ibounded;
static void iReset() {
    if (zi) Z3_solver_dec_ref(zc, zi);
    zi = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_LIA"));
    Z3_solver_inc_ref(zc, zi);
    Z3_params p = Z3_mk_params(zc);
    Z3_params_inc_ref(zc, p);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), 10000);
    Z3_solver_set_params(zc, zi, p);
    Z3_params_dec_ref(zc, p);
    ilits.clear(); ilitCount = 0; ibounded.clear();
}
// 1 sat (model in out), 0 unsat, -1 not expressible or undecided
static int iSolve(const std::vector<Expr *> &cs, Expr *cond, std::vector<std::pair<u32, u64>> &out) {
    for (Expr *e : cs) if (!iBool(e)) return -1;
    if (!iBool(cond)) return -1;
    if (!zi || ilitCount > 400) iReset();
    std::set<u32> vs(cond->vars->begin(), cond->vars->end());
    for (Expr *e : cs) vs.insert(e->vars->begin(), e->vars->end());
    for (u32 v : vs) {
        if (v >= intVar.size()) return -1;
        if (ibounded.size() <= v) ibounded.resize(v + 1, 0);
        if (ibounded[v]) continue;
        ibounded[v] = 1;
        i128 lo, hi; varRange(v, lo, hi);
        Z3_solver_assert(zc, zi, Z3_mk_ge(zc, intVar[v], iNum(lo)));
        Z3_solver_assert(zc, zi, Z3_mk_le(zc, intVar[v], iNum(hi)));
    }
    auto ilit = [&](Expr *e) {
        auto it = ilits.find(e);
        if (it != ilits.end()) return it->second;
        Z3_ast p = Z3_mk_fresh_const(zc, "q", Z3_mk_bool_sort(zc));
        Z3_solver_assert(zc, zi, Z3_mk_implies(zc, p, iBool(e)));
        ilitCount++;
        return ilits[e] = p;
    };
    std::vector<Z3_ast> as;
    for (Expr *e : cs) as.push_back(ilit(e));
    as.push_back(ilit(cond));
    Z3_lbool r = Z3_solver_check_assumptions(zc, zi, as.size(), as.data());
    if (r == Z3_L_UNDEF) { iReset(); return -1; }
    if (r == Z3_L_FALSE) return 0;
    Z3_model zm = Z3_solver_get_model(zc, zi);
    Z3_model_inc_ref(zc, zm);
    for (u32 v : vs) {
        Z3_ast val; int64_t x = 0;
        if (!Z3_model_eval(zc, zm, intVar[v], true, &val) || !Z3_get_numeral_int64(zc, val, &x)) fatal("integer model eval");
        out.push_back({v, (u64)x & mask(vars[v].w)});
    }
    Z3_model_dec_ref(zc, zm);
    return 1;
}

// Query cache: sorted constraint ids -> (result, model over the slice's variables)
struct QRes { bool sat; std::vector<std::pair<u32, u64>> m; };
struct VHash { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
static std::unordered_map<std::vector<u32>, QRes, VHash> qcache;
static u64 dumped = 0;

static void slice(const std::vector<Expr *> &pc, Expr *cond, std::vector<Expr *> &outc) {
    // constraints of pc that share variables (transitively) with cond
    static std::vector<u8> used;
    if (used.size() < vars.size()) used.resize(vars.size() + 64);
    std::fill(used.begin(), used.end(), 0);
    if (cond->vars) for (u32 v : *cond->vars) used[v] = 1;
    std::vector<u8> in(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) {
            if (in[i] || !pc[i]->vars) continue;
            bool hit = false;
            for (u32 v : *pc[i]->vars) if (used[v]) { hit = true; break; }
            if (!hit) continue;
            in[i] = 1; ch = true;
            outc.push_back(pc[i]);
            for (u32 v : *pc[i]->vars) used[v] = 1;
        }
    }
}

// Is pc && cond satisfiable?  On sat, m (a model of pc) is updated to satisfy cond too.
static bool feasible(const std::vector<Expr *> &pc, Expr *cond, Model &m) {
    if (cond->op == K) return cond->k;
    st.queries++;
    if (m.size() < vars.size()) m.resize(vars.size(), 0);
    if (evalE(cond, m)) { st.modelHits++; return true; }
    Expr *neg = mkNot(cond);
    for (Expr *p : pc) if (p == neg) { st.impliedHits++; return false; }
    std::vector<Expr *> cs;
    slice(pc, cond, cs);
    std::vector<u32> key;
    for (Expr *e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(cond->id);
    auto it = qcache.find(key);
    if (it == qcache.end()) {
        // all variables of the slice range over small choice domains: decide it by
        // evaluating the whole product instead of asking Z3
        std::vector<std::pair<u32, std::vector<u64>>> dv; // variable -> values its unary constraints allow
        u64 prod = 1;
        {
            std::set<u32> vs;
            for (Expr *e : cs) vs.insert(e->vars->begin(), e->vars->end());
            vs.insert(cond->vars->begin(), cond->vars->end());
            Model t = m;
            std::map<u32, std::vector<u64>> dom;
            for (u32 v : vs) {
                u64 only = ~0ull;
                for (Expr *e : cs) if (e->op == EQ) {
                    if (e->a->op == VAR && e->a->k == v && e->b->op == K) only = e->b->k;
                    if (e->b->op == VAR && e->b->k == v && e->a->op == K) only = e->a->k;
                }
                if (only != ~0ull) dom[v] = {only};
                else if (vars[v].bound && vars[v].bound <= 1024) for (u64 x = 0; x < vars[v].bound; x++) dom[v].push_back(x);
                else { prod = 0; break; }
            }
            // drop the values a constraint rules out once all its other variables are fixed
            std::vector<u8> done(cs.size(), 0);
            for (bool ch = prod != 0; ch && prod;) {
                ch = false;
                for (size_t i = 0; i < cs.size() && prod; i++) {
                    if (done[i]) continue;
                    u32 free = ~0u; int nfree = 0;
                    for (u32 v : *cs[i]->vars) { if (dom[v].size() > 1) { free = v; nfree++; } else t[v] = dom[v][0]; }
                    if (nfree > 1) continue;
                    done[i] = 1;
                    if (nfree == 0) continue; // checked with the product below
                    auto &d = dom[free];
                    std::vector<u64> keep;
                    for (u64 x : d) { t[free] = x; if (evalE(cs[i], t)) keep.push_back(x); }
                    if (keep.empty()) prod = 0;
                    if (keep.size() != d.size()) { d.swap(keep); if (d.size() == 1) ch = true; }
                }
            }
            if (prod) for (auto &d : dom) {
                prod *= d.second.size();
                if (prod > 1024) { prod = 0; break; }
                dv.push_back({d.first, d.second});
            }
        }
        if (prod) {
            st.domain++;
            Model t = m;
            QRes q; q.sat = false;
            for (u64 x = 0; x < prod && !q.sat; x++) {
                u64 y = x;
                for (auto &d : dv) { t[d.first] = d.second[y % d.second.size()]; y /= d.second.size(); }
                if (!evalE(cond, t)) continue;
                q.sat = true;
                for (Expr *e : cs) if (!evalE(e, t)) { q.sat = false; break; }
            }
            if (q.sat) for (auto &d : dv) q.m.push_back({d.first, t[d.first]});
            if (st.domain <= 10 || (st.domain & 63) == 0) { // cross-check with Z3
                double t0 = now();
                if (litCount > LITMAX) solverReset();
                std::vector<Z3_ast> as;
                for (Expr *e : cs) as.push_back(lit(e));
                as.push_back(lit(cond));
                Z3_lbool r = Z3_solver_check_assumptions(zc, zs, as.size(), as.data());
                st.solver += now() - t0;
                if (r != Z3_L_UNDEF) {
                    (r == Z3_L_TRUE ? st.sat : st.unsat)++;
                    if ((r == Z3_L_TRUE) != q.sat) fatal("domain evaluation and Z3 disagree");
                }
            }
            it = qcache.emplace(std::move(key), std::move(q)).first;
            goto cached;
        }
        {
        double t = now();
        std::vector<std::pair<u32, u64>> im;
        int ir = iSolve(cs, cond, im);
        if (ir >= 0) {
            st.order++;
            if (ir) { // the model must satisfy the original bit-vector constraints
                Model t2 = m;
                for (auto &p : im) t2[p.first] = p.second;
                if (!evalE(cond, t2)) fatal("integer model does not satisfy the query");
                for (Expr *e : cs) if (!evalE(e, t2)) fatal("integer model does not satisfy the path");
            } else if (st.order <= 4 || (st.order & 511) == 0) { // cross-check with the bit-vector solver
                u64 keep = opt.queryTimeoutMs;
                opt.queryTimeoutMs = 500;
                solverReset();
                opt.queryTimeoutMs = keep;
                std::vector<Z3_ast> as;
                for (Expr *e : cs) as.push_back(lit(e));
                as.push_back(lit(cond));
                if (Z3_solver_check_assumptions(zc, zs, as.size(), as.data()) == Z3_L_TRUE) fatal("integer and bit-vector encodings disagree");
                solverReset();
            }
            (ir ? st.sat : st.unsat)++;
            st.solver += now() - t;
            it = qcache.emplace(std::move(key), QRes{ir == 1, std::move(im)}).first;
            goto cached;
        }
        if (litCount > LITMAX) solverReset();
        std::vector<Z3_ast> as;
        for (Expr *e : cs) as.push_back(lit(e));
        as.push_back(lit(cond));
        Z3_lbool r = Z3_solver_check_assumptions(zc, zs, as.size(), as.data());
        if (r == Z3_L_UNDEF) { // retry once in a fresh solver
            solverReset();
            as.clear();
            for (Expr *e : cs) as.push_back(lit(e));
            as.push_back(lit(cond));
            r = Z3_solver_check_assumptions(zc, zs, as.size(), as.data());
            if (r == Z3_L_UNDEF) { st.unknown++; st.solver += now() - t; throw Unsupported{"solver returned unknown"}; }
        }
        QRes q;
        q.sat = r == Z3_L_TRUE;
        if (q.sat) {
            Z3_model zm = Z3_solver_get_model(zc, zs);
            Z3_model_inc_ref(zc, zm);
            std::set<u32> vs;
            for (Expr *e : cs) vs.insert(e->vars->begin(), e->vars->end());
            vs.insert(cond->vars->begin(), cond->vars->end());
            for (u32 v : vs) {
                Z3_ast val; uint64_t x = 0;
                if (!Z3_model_eval(zc, zm, zb(varExpr[v]), true, &val) || !Z3_get_numeral_uint64(zc, val, &x)) fatal("model eval");
                q.m.push_back({v, x});
            }
            Z3_model_dec_ref(zc, zm);
        }
        st.solver += now() - t;
        (q.sat ? st.sat : st.unsat)++;
        if (!opt.dumpSmt.empty() && dumped < 40 && (st.sat + st.unsat) % 17 == 0) {
            std::vector<Z3_ast> f;
            for (Expr *e : cs) f.push_back(zbool(e));
            std::string name = opt.dumpSmt + "/" + opt.entry + "." + std::to_string(getpid()) + "." + std::to_string(dumped++) + ".smt2";
            FILE *o = fopen(name.c_str(), "w");
            if (o) {
                fprintf(o, "%s", Z3_benchmark_to_smtlib_string(zc, "q", "QF_BV", q.sat ? "sat" : "unsat", "", f.size(), f.data(), zbool(cond)));
                fclose(o);
            }
        }
        it = qcache.emplace(std::move(key), std::move(q)).first;
        }
    } else st.cacheHits++;
cached:
    if (!it->second.sat) return false;
    for (auto &p : it->second.m) m[p.first] = p.second;
    return true;
}

// ------------------------------------------------------------ program image
struct Opnd { int reg; Val k; bool undef; };
struct BB;
struct Fn;
enum IOp : u8 { I_BIN, I_ICMP, I_SEL, I_CAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET,
                I_CALL, I_UNREACH, I_EXV, I_INV, I_FREEZE, I_FP, I_BAD };
enum Cast : u8 { C_NONE, C_Z, C_S, C_T };
struct Leaf { u32 off; u8 w; };   // scalar leaf of a first-class aggregate
struct PhiIn { int dst; Opnd v; u8 w; };
struct Edge { int to; std::vector<PhiIn> phis; };
struct Ins {
    IOp op; Op bop; u8 w; u8 pred; u8 cast; u8 rw; bool nsw, nuw, neg, swp;
    int dst; u32 align; u64 size;
    std::vector<Opnd> o;
    std::vector<u64> scale;         // GEP
    std::vector<u8> ow;             // operand widths (GEP idx, call args)
    std::vector<Edge> edges;        // BR/CBR/SWITCH
    std::vector<u64> cases;
    Fn *callee = nullptr; int builtin = 0;
    std::vector<Leaf> leaves;       // aggregate load/store
    std::vector<std::pair<u64, u32>> byval; // call: size and alignment of arguments passed as a copy
    std::vector<unsigned> idx;      // extract/insertvalue (flattened leaf position)
    unsigned nleaf = 1;
    const llvm::Instruction *src;
    std::string why;
};
struct Fn {
    const llvm::Function *f; std::string name, dem;
    bool decl = false, decoded = false, hit = false;
    int nregs = 0, nargs = 0;
    std::vector<u8> argw;
    std::vector<std::vector<Ins>> bbs;
    u64 addr = 0;
};
static llvm::Module *M;
static const llvm::DataLayout *DL;
static std::map<const llvm::Function *, Fn *> fnOf;
static std::map<u64, Fn *> fnByAddr;
static std::map<const llvm::GlobalVariable *, u64> gaddr;
static std::map<std::string, u64> reachLabels; // label -> hits

// ------------------------------------------------------------------ memory
struct Obj {
    u32 rc = 0;
    u64 base; u32 size;
    u8 kind;      // 0 global 1 stack 2 vp_alloc 3 malloc 4 new
    bool ro = false, dead = false;
    std::vector<u8> data;
    std::vector<Expr *> sym;  // empty: no symbolic byte
    std::vector<u8> und;      // empty: all initialised
    Obj(u64 b, u32 s, u8 k) : base(b), size(s), kind(k), data(s) {}
};
struct ORef {
    Obj *p;
    ORef(Obj *q = nullptr) : p(q) { if (p) p->rc++; }
    ORef(const ORef &o) : p(o.p) { if (p) p->rc++; }
    ORef(ORef &&o) noexcept : p(o.p) { o.p = nullptr; }
    ORef &operator=(ORef o) { std::swap(p, o.p); return *this; }
    ~ORef() { if (p && --p->rc == 0) delete p; }
};
struct Frame {
    Fn *f; int bb; int pc; int dst; // dst: register of the caller's call instruction
    std::vector<Val> regs;
    std::vector<u64> allocas;
};
struct InputRec { Expr *e; u8 w; };
struct State {
    std::vector<Frame> fr;
    std::vector<ORef> objs; // sorted by base
    std::vector<Expr *> pc;
    Model m;
    std::map<std::string, u32> ord; // name -> uses so far on this path
    std::vector<InputRec> inputs;
    std::vector<Val> trace;
    std::vector<u64> live;          // tracked objects, sorted
    u64 nextAddr = 0x100000, instr = 0, undefs = 0;
    u32 blocks = 0, mallocs = 0;    // live heap blocks; calls of malloc
    bool stopOk = false;            // vp_stop_ok: stopping the program is a proper end
    u64 apLo = 0, apHi = 0; bool apOn = false; // vp_apart: blocks in [apLo, apHi) must not be touched at all, static data not be written
    u64 roBelow = 0;                // vp_readonly: vp_alloc blocks below this address must not be written
    bool recOn = false; u32 recMax = 0; // vp_rec_reset: most activations of one function at a time
    std::vector<u64> tags;          // block base addresses of kind 2 (vp_alloc)
};

struct Violation { std::string kind, msg, loc, stack; std::vector<u64> inputs; std::vector<std::string> names; std::string undef; };
struct Sample { std::vector<u64> inputs; u64 hash; std::vector<std::string> names; };
static std::vector<Violation> violations;
static std::vector<Sample> samples;
static u64 sampleSeen = 0;
static std::set<std::string> incompletes;
static std::deque<State *> work;
static bool bfs = false;
static u64 rng = 88172645463325252ull;
static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

struct PathEnd {};

// --------------------------------------------------------------- decoding
static u8 widthOf(llvm::Type *t) {
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) return 0; return w; }
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64; // floating point values are carried as bits; arithmetic on them is not supported
    if (t->isFloatTy()) return 32;
    return 0;
}
static bool flatten(llvm::Type *t, u32 off, std::vector<Leaf> &out) {
    if (u8 w = widthOf(t)) { out.push_back({off, w}); return true; }
    if (auto *s = llvm::dyn_cast<llvm::StructType>(t)) {
        auto *l = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++)
            if (!flatten(s->getElementType(i), off + l->getElementOffset(i), out)) return false;
        return true;
    }
    if (auto *a = llvm::dyn_cast<llvm::ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(a->getElementType());
        for (unsigned i = 0; i < a->getNumElements(); i++)
            if (!flatten(a->getElementType(), off + i * es, out)) return false;
        return true;
    }
    return false;
}
static Fn *getFn(const llvm::Function *f) {
    auto it = fnOf.find(f);
    if (it != fnOf.end()) return it->second;
    fatal("unknown function %s", f->getName().str().c_str());
}
static Val constVal(const llvm::Constant *c, bool &undef) {
    using namespace llvm;
    undef = false;
    if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) throw Unsupported{"wide integer"}; return C(i->getZExtValue()); }
    if (isa<ConstantPointerNull>(c)) return C(0);
    if (auto *f = dyn_cast<ConstantFP>(c)) { if (!widthOf(f->getType())) throw Unsupported{"floating point type"}; return C(f->getValueAPF().bitcastToAPInt().getZExtValue()); }
    if (isa<UndefValue>(c)) { undef = true; return C(0); }
    if (auto *f = dyn_cast<Function>(c)) return C(getFn(f)->addr);
    if (auto *g = dyn_cast<GlobalVariable>(c)) return C(gaddr.at(g));
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee(), undef);
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
            Val b = constVal(e->getOperand(0), undef);
            return C(b.c + off.getZExtValue());
        }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
            Val v = constVal(e->getOperand(0), undef);
            return C(v.c & mask(widthOf(e->getType())));
        }
        case Instruction::Sub: case Instruction::Add: {
            bool u2; Val a = constVal(e->getOperand(0), undef), b = constVal(e->getOperand(1), u2);
            u64 r = e->getOpcode() == Instruction::Sub ? a.c - b.c : a.c + b.c;
            return C(r & mask(widthOf(e->getType())));
        }
        default: throw Unsupported{"constant expression"};
        }
    }
    std::vector<Leaf> lv;
    if (flatten(c->getType(), 0, lv)) { // aggregate constant
        Expr *e = new Expr{AGG, 0, 0, 0, 0, nullptr, nullptr, nullptr, nullptr, nullptr, new std::vector<Val>};
        std::function<void(const Constant *)> rec = [&](const Constant *k) {
            if (widthOf(k->getType())) { bool u; e->agg->push_back(constVal(k, u)); return; }
            unsigned n = isa<StructType>(k->getType()) ? cast<StructType>(k->getType())->getNumElements() : cast<ArrayType>(k->getType())->getNumElements();
            for (unsigned i = 0; i < n; i++) rec(k->getAggregateElement(i));
        };
        if (isa<UndefValue>(c)) for (auto &l : lv) { (void)l; e->agg->push_back(C(0)); }
        else rec(c);
        return Val{0, e};
    }
    throw Unsupported{"constant kind"};
}

enum Bi { B_NONE = 0, B_SYM, B_CHOICE, B_ASSUME, B_ASSERT, B_REACH, B_TRACE, B_VALLOC, B_VFREE, B_MALLOC, B_FREE, B_NEW, B_DEL,
          B_LIVEBLK, B_MALLOCS, B_OCTOR, B_ODTOR, B_OUSE, B_LIVEOBJ, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_LSTART, B_LEND, B_NOP, B_ASSERTFAIL, B_ABORT,
          B_SMAX, B_SMIN, B_UMAX, B_UMIN, B_EXPECT, B_ISVALLOC, B_ABS, B_CALLOC, B_FAIL, B_INRANGE, B_CAPFREE, B_STOPOK, B_RDONLY, B_APART, B_RECRESET, B_RECMAX };
static int builtinOf(const std::string &n) {
    static const std::map<std::string, int> m = {
        {"vp_u8", B_SYM}, {"vp_u16", B_SYM}, {"vp_u32", B_SYM}, {"vp_u64", B_SYM}, {"vp_int", B_SYM}, {"vp_choice", B_CHOICE},
        {"vp_assume", B_ASSUME}, {"vp_assert", B_ASSERT}, {"vp_reach", B_REACH}, {"vp_trace", B_TRACE},
        {"vp_alloc", B_VALLOC}, {"vp_free", B_VFREE}, {"malloc", B_MALLOC}, {"vp_malloc", B_MALLOC}, {"vp_mfree", B_FREE}, {"free", B_FREE},
        {"calloc", B_CALLOC},
        {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZdlPv", B_DEL}, {"_ZdaPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPvm", B_DEL}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW}, {"_ZdlPvRKSt9nothrow_t", B_DEL}, {"_ZdaPvRKSt9nothrow_t", B_DEL},
        {"vp_live_blocks", B_LIVEBLK}, {"vp_mallocs", B_MALLOCS}, {"vp_obj_ctor", B_OCTOR}, {"vp_obj_dtor", B_ODTOR}, {"vp_obj_use", B_OUSE},
        {"vp_live_objs", B_LIVEOBJ}, {"vp_is_valloc", B_ISVALLOC}, {"vp_fail", B_FAIL}, {"vp_stop_ok", B_STOPOK}, {"vp_readonly", B_RDONLY}, {"vp_apart", B_APART}, {"vp_rec_reset", B_RECRESET}, {"vp_rec_max", B_RECMAX},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET},
        {"__assert_fail", B_ASSERTFAIL}, {"abort", B_ABORT}, {"exit", B_ABORT}, {"_exit", B_ABORT}, {"_Exit", B_ABORT}, {"quick_exit", B_ABORT}, {"raise", B_ABORT}, {"_ZSt9terminatev", B_ABORT},
        {"printf", B_NOP}, {"puts", B_NOP}, {"fputs", B_NOP}, {"fputc", B_NOP}, {"putc", B_NOP}, {"fwrite", B_NOP}, {"perror", B_NOP}, {"vprintf", B_NOP}, {"vfprintf", B_NOP}, {"__errno_location", B_NONE}, {"putchar", B_NOP}, {"fprintf", B_NOP}, {"__cxa_atexit", B_NOP}, {"__cxa_pure_virtual", B_ABORT},
        {"fflush", B_NOP}, {"atexit", B_NOP},
    };
    auto it = m.find(n);
    if (it != m.end()) return it->second;
    auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
    if (pre("llvm.memcpy")) return B_MEMCPY;
    if (pre("llvm.memmove")) return B_MEMMOVE;
    if (pre("llvm.memset")) return B_MEMSET;
    if (pre("llvm.lifetime.start")) return B_LSTART;
    if (pre("llvm.lifetime.end")) return B_LEND;
    if (pre("llvm.dbg") || pre("llvm.assume") || pre("llvm.experimental.noalias") || pre("llvm.donothing") || pre("llvm.invariant")) return B_NOP;
    if (pre("llvm.expect")) return B_EXPECT;
    if (pre("llvm.smax")) return B_SMAX;
    if (pre("llvm.smin")) return B_SMIN;
    if (pre("llvm.umax")) return B_UMAX;
    if (pre("llvm.umin")) return B_UMIN;
    if (pre("llvm.abs")) return B_ABS;
    if (pre("llvm.trap") || pre("llvm.debugtrap") || pre("llvm.ubsantrap")) return B_ABORT;
    if (pre("llvm.stacksave") || pre("llvm.stackrestore") || pre("llvm.prefetch") || pre("llvm.sideeffect")) return B_NOP;
    if (pre("llvm.is.constant")) return B_NOP;
    if (pre("llvm.launder.invariant") || pre("llvm.strip.invariant") || pre("llvm.annotation") || pre("llvm.ptr.annotation")) return B_EXPECT;
    if (pre("_ZSt") && n.find("__throw_") != std::string::npos) return B_ABORT;
    return B_NONE;
}

// intrinsics and C library functions that engine/support.ll defines in IR
static const llvm::Function *supportFn(const std::string &n) {
    std::string t = n;
    if (n.compare(0, 5, "llvm.") == 0) { t = "vps." + n.substr(5); }
    auto *f = M->getFunction(t);
    return f && !f->isDeclaration() ? f : nullptr;
}
static void decode(Fn *F) {
    using namespace llvm;
    F->decoded = true;
    const Function &f = *F->f;
    std::map<const Value *, int> reg;
    int n = 0;
    for (auto &a : f.args()) { reg[&a] = n++; F->argw.push_back(widthOf(a.getType())); }
    F->nargs = n;
    std::map<const BasicBlock *, int> bid;
    int nb = 0;
    for (auto &b : f) {
        bid[&b] = nb++;
        for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++;
    }
    F->nregs = n;
    auto op = [&](const Value *v) -> Opnd {
        if (auto *c = dyn_cast<Constant>(v)) { bool u; Val k = constVal(c, u); return Opnd{-1, k, u}; }
        auto it = reg.find(v);
        if (it == reg.end()) return Opnd{-1, C(0), false}; // metadata operands
        return Opnd{it->second, C(0), false};
    };
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
        Edge e; e.to = bid[to];
        for (auto &p : to->phis()) e.phis.push_back({reg[&p], op(p.getIncomingValueForBlock(from)), widthOf(p.getType())});
        return e;
    };
    for (auto &b : f) {
        std::vector<Ins> out;
        for (auto &i : b) {
            if (isa<PHINode>(i)) continue;
            Ins x{};
            x.op = I_BAD; x.src = &i; x.dst = i.getType()->isVoidTy() ? -1 : reg[&i];
            x.w = widthOf(i.getType()); x.rw = x.w;
            try {
                unsigned oc = i.getOpcode();
                if (oc == Instruction::FAdd || oc == Instruction::FSub || oc == Instruction::FMul || oc == Instruction::FDiv || oc == Instruction::FRem || oc == Instruction::FNeg || oc == Instruction::FCmp || oc == Instruction::FPTrunc || oc == Instruction::FPExt || oc == Instruction::FPToUI || oc == Instruction::FPToSI || oc == Instruction::UIToFP || oc == Instruction::SIToFP) {
                    x.op = I_FP; x.idx = {oc};
                    if (auto *fc = dyn_cast<FCmpInst>(&i)) x.idx.push_back(fc->getPredicate());
                    for (auto &u : i.operands()) { x.o.push_back(op(u.get())); x.ow.push_back(widthOf(u->getType())); if (!x.ow.back()) throw Unsupported{"floating point type"}; }
                    if (!x.w) throw Unsupported{"floating point type"};
                } else if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
                    static const std::map<unsigned, Op> mm = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}};
                    auto it = mm.find(bo->getOpcode());
                    if (it == mm.end() || !x.w) throw Unsupported{"binary operator"};
                    x.op = I_BIN; x.bop = it->second;
                    x.o = {op(bo->getOperand(0)), op(bo->getOperand(1))};
                    if (auto *ob = dyn_cast<OverflowingBinaryOperator>(bo)) { x.nsw = ob->hasNoSignedWrap(); x.nuw = false; }
                } else if (auto *ic = dyn_cast<ICmpInst>(&i)) {
                    x.op = I_ICMP; x.w = widthOf(ic->getOperand(0)->getType());
                    if (!x.w) throw Unsupported{"icmp type"};
                    x.o = {op(ic->getOperand(0)), op(ic->getOperand(1))};
                    switch (ic->getPredicate()) {
                    case CmpInst::ICMP_EQ: x.bop = EQ; break;
                    case CmpInst::ICMP_NE: x.bop = EQ; x.neg = true; break;
                    case CmpInst::ICMP_ULT: x.bop = ULT; break;
                    case CmpInst::ICMP_UGT: x.bop = ULT; x.swp = true; break;
                    case CmpInst::ICMP_ULE: x.bop = ULT; x.swp = x.neg = true; break;
                    case CmpInst::ICMP_UGE: x.bop = ULT; x.neg = true; break;
                    case CmpInst::ICMP_SLT: x.bop = SLT; break;
                    case CmpInst::ICMP_SGT: x.bop = SLT; x.swp = true; break;
                    case CmpInst::ICMP_SLE: x.bop = SLT; x.swp = x.neg = true; break;
                    case CmpInst::ICMP_SGE: x.bop = SLT; x.neg = true; break;
                    default: throw Unsupported{"icmp predicate"};
                    }
                } else if (auto *se = dyn_cast<SelectInst>(&i)) {
                    if (!x.w) throw Unsupported{"select type"};
                    x.op = I_SEL; x.o = {op(se->getCondition()), op(se->getTrueValue()), op(se->getFalseValue())};
                } else if (auto *ca = dyn_cast<CastInst>(&i)) {
                    x.op = I_CAST; x.o = {op(ca->getOperand(0))};
                    u8 sw = widthOf(ca->getOperand(0)->getType());
                    if (!sw || !x.w) throw Unsupported{"cast type"};
                    x.ow = {sw};
                    switch (ca->getOpcode()) {
                    case Instruction::ZExt: x.cast = C_Z; break;
                    case Instruction::SExt: x.cast = C_S; break;
                    case Instruction::Trunc: x.cast = C_T; break;
                    case Instruction::PtrToInt: case Instruction::IntToPtr: x.cast = x.w > sw ? C_Z : x.w < sw ? C_T : C_NONE; break;
                    case Instruction::BitCast: case Instruction::AddrSpaceCast: x.cast = C_NONE; break;
                    default: throw Unsupported{"cast"};
                    }
                } else if (auto *ld = dyn_cast<LoadInst>(&i)) {
                    x.op = I_LOAD; x.o = {op(ld->getPointerOperand())}; x.align = ld->getAlign().value();
                    x.size = DL->getTypeStoreSize(ld->getType());
                    if (!x.w && !flatten(ld->getType(), 0, x.leaves)) throw Unsupported{"load type"};
                } else if (auto *sto = dyn_cast<StoreInst>(&i)) {
                    x.op = I_STORE; x.o = {op(sto->getPointerOperand()), op(sto->getValueOperand())}; x.align = sto->getAlign().value();
                    x.w = widthOf(sto->getValueOperand()->getType());
                    x.size = DL->getTypeStoreSize(sto->getValueOperand()->getType());
                    if (!x.w && !flatten(sto->getValueOperand()->getType(), 0, x.leaves)) throw Unsupported{"store type"};
                } else if (auto *ge = dyn_cast<GetElementPtrInst>(&i)) {
                    x.op = I_GEP; x.o = {op(ge->getPointerOperand())};
                    MapVector<Value *, APInt> vo; APInt co(64, 0);
                    if (!x.w || !ge->collectOffset(*DL, 64, vo, co)) throw Unsupported{"gep"};
                    x.size = co.getZExtValue();
                    for (auto &p : vo) { x.o.push_back(op(p.first)); x.scale.push_back(p.second.getZExtValue()); x.ow.push_back(widthOf(p.first->getType())); }
                } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
                    x.op = I_ALLOCA; x.size = DL->getTypeAllocSize(al->getAllocatedType());
                    if (auto *ci = dyn_cast<ConstantInt>(al->getArraySize())) x.size *= ci->getZExtValue();
                    else { x.o = {op(al->getArraySize())}; x.ow = {widthOf(al->getArraySize()->getType())}; }
                    x.align = al->getAlign().value();
                } else if (auto *br = dyn_cast<BranchInst>(&i)) {
                    if (br->isConditional()) { x.op = I_CBR; x.o = {op(br->getCondition())}; x.edges = {edge(&b, br->getSuccessor(0)), edge(&b, br->getSuccessor(1))}; }
                    else { x.op = I_BR; x.edges = {edge(&b, br->getSuccessor(0))}; }
                } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                    x.op = I_SWITCH; x.w = widthOf(sw->getCondition()->getType()); x.o = {op(sw->getCondition())};
                    x.edges.push_back(edge(&b, sw->getDefaultDest()));
                    for (auto &c : sw->cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.edges.push_back(edge(&b, c.getCaseSuccessor())); }
                } else if (auto *re = dyn_cast<ReturnInst>(&i)) {
                    x.op = I_RET; if (re->getReturnValue()) x.o = {op(re->getReturnValue())};
                } else if (isa<UnreachableInst>(&i)) {
                    x.op = I_UNREACH;
                } else if (auto *fz = dyn_cast<FreezeInst>(&i)) {
                    x.op = I_FREEZE; x.o = {op(fz->getOperand(0))};
                } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
                    std::vector<Leaf> lv;
                    if (!flatten(ev->getAggregateOperand()->getType(), 0, lv) || ev->getNumIndices() != 1 || !x.w) throw Unsupported{"extractvalue"};
                    x.op = I_EXV; x.o = {op(ev->getAggregateOperand())};
                    unsigned pos = 0; auto *sty = dyn_cast<StructType>(ev->getAggregateOperand()->getType());
                    for (unsigned k = 0; k < ev->getIndices()[0]; k++) { std::vector<Leaf> t; flatten(sty ? sty->getElementType(k) : cast<ArrayType>(ev->getAggregateOperand()->getType())->getElementType(), 0, t); pos += t.size(); }
                    x.idx = {pos};
                } else if (auto *iv = dyn_cast<InsertValueInst>(&i)) {
                    std::vector<Leaf> lv;
                    if (!flatten(iv->getType(), 0, lv) || iv->getNumIndices() != 1) throw Unsupported{"insertvalue"};
                    x.op = I_INV; x.o = {op(iv->getAggregateOperand()), op(iv->getInsertedValueOperand())}; x.nleaf = lv.size();
                    unsigned pos = 0; auto *sty = dyn_cast<StructType>(iv->getType());
                    for (unsigned k = 0; k < iv->getIndices()[0]; k++) { std::vector<Leaf> t; flatten(sty ? sty->getElementType(k) : cast<ArrayType>(iv->getType())->getElementType(), 0, t); pos += t.size(); }
                    if (!widthOf(iv->getInsertedValueOperand()->getType())) throw Unsupported{"insertvalue nested"};
                    x.idx = {pos};
                } else if (auto *cb = dyn_cast<CallBase>(&i)) {
                    if (isa<DbgInfoIntrinsic>(cb)) continue;
                    x.op = I_CALL;
                    if (cb->isInlineAsm()) throw Unsupported{"inline asm"};
                    for (auto &a : cb->args()) {
                        if (a->getType()->isMetadataTy()) { x.o.push_back(Opnd{-1, C(0), false}); x.ow.push_back(0); continue; }
                        if (cb->isByValArgument(cb->getArgOperandNo(&a))) {
                            x.byval.resize(cb->arg_size());
                            auto *bt = cb->getParamByValType(cb->getArgOperandNo(&a));
                            x.byval[cb->getArgOperandNo(&a)] = {DL->getTypeAllocSize(bt), (u32)cb->getParamAlign(cb->getArgOperandNo(&a)).valueOrOne().value()};
                        }
                        x.o.push_back(op(a.get())); x.ow.push_back(widthOf(a->getType()));
                    }
                    const Value *cv = cb->getCalledOperand()->stripPointerCasts();
                    if (auto *al2 = dyn_cast<GlobalAlias>(cv)) cv = al2->getAliaseeObject();
                    if (auto *cf = dyn_cast<Function>(cv)) {
                        x.callee = getFn(cf);
                        if (cf->isDeclaration()) {
                            x.builtin = builtinOf(cf->getName().str());
                            if (!x.builtin) if (auto *sf = supportFn(cf->getName().str())) x.callee = getFn(sf);
                            else if (!x.builtin) { x.op = I_BAD; x.why = "call to external function " + cf->getName().str(); }
                        }
                    } else x.o.push_back(op(cv)); // indirect: last operand
                    if (auto *inv = dyn_cast<InvokeInst>(cb)) x.edges = {edge(&b, inv->getNormalDest())};
                } else throw Unsupported{std::string("instruction ") + i.getOpcodeName()};
            } catch (Unsupported &u) { x.op = I_BAD; x.why = u.what; }
            out.push_back(std::move(x));
        }
        F->bbs.push_back(std::move(out));
    }
}

// --------------------------------------------------------------- execution
static std::string locOf(const llvm::Instruction *i) {
    if (i) if (auto d = i->getDebugLoc()) {
        auto *sc = llvm::cast<llvm::DIScope>(d.getScope());
        return sc->getFilename().str() + ":" + std::to_string(d.getLine());
    }
    return "?";
}
static const Ins *curIns;
static State *S;

static std::vector<u64> inputsOf(const State &s, const Model &m) {
    std::vector<u64> r;
    for (auto &i : s.inputs) r.push_back(evalE(i.e, m));
    return r;
}
[[noreturn]] static void pathDone();
[[noreturn]] static void violation(const char *kind, const std::string &msg, const Model *m = nullptr) {
    if (S->stopOk && (!strcmp(kind, "null-dereference") || !strcmp(kind, "library-assert") || !strcmp(kind, "abort"))) {
        reachLabels["stopped"]++;
        pathDone();
    }
    Violation v;
    v.kind = kind; v.msg = msg; v.loc = curIns ? locOf(curIns->src) : "?";
    for (size_t i = S->fr.size(); i-- > 0 && v.stack.size() < 1500;) {
        auto &f = S->fr[i];
        std::string at;
        if (i + 1 < S->fr.size()) at = locOf(f.f->bbs[f.bb][f.pc].src); else at = v.loc;
        v.stack += f.f->dem + " @" + at + "\n";
    }
    v.inputs = inputsOf(*S, m ? *m : S->m);
    for (auto &i : S->inputs) v.names.push_back(i.e->op == VAR ? vars[i.e->k].name : "?");
    violations.push_back(v);
    throw PathEnd();
}
static inline Val get(const Opnd &o) {
    if (o.reg >= 0) return S->fr.back().regs[o.reg];
    return o.k;
}
static Val freshUndef(u8 w) {
    std::string n = "undef" + std::to_string(w) + "#" + std::to_string(S->undefs++);
    Expr *e = mkVar(n, w, true);
    if (S->m.size() < vars.size()) S->m.resize(vars.size(), 0);
    return Val{0, e};
}
static inline Val getw(const Opnd &o, u8 w) {
    if (o.reg >= 0) return S->fr.back().regs[o.reg];
    if (o.undef && w) return freshUndef(w);
    return o.k;
}
static inline Val bin(Op op, u8 w, Val a, Val b) {
    if (!a.e && !b.e) return C(evalBin(op, w, a.c, b.c));
    return fromE(mkBin(op, w, toE(a, w), toE(b, w)));
}
static void addPC(State *s, Expr *e) {
    if (e->op == K) return;
    if (e->op == AND && e->w == 1) { addPC(s, e->a); addPC(s, e->b); return; }
    for (Expr *p : s->pc) if (p == e) return;
    s->pc.push_back(e);
}
static State *forkState() { st.forks++; return new State(*S); }
static bool yieldFlag = false;
static void enqueue(State *s) { work.push_back(s); if (bfs) yieldFlag = true; }

// Fork on the value of v: this state continues with one concrete value, a sibling
// (if feasible) re-executes the current instruction with the others.
static u64 concretise(Val &v, u8 w) {
    if (!v.e) return v.c;
    if (S->m.size() < vars.size()) S->m.resize(vars.size(), 0);
    u64 x = evalE(v.e, S->m);
    Expr *eq = mkBin(EQ, w, v.e, kon(x, w));
    if (eq->op != K) {
        Expr *ne = mkNot(eq);
        Model m2 = S->m;
        st.concretised++;
        if (feasible(S->pc, ne, m2)) {
            State *o = forkState();
            o->m = m2;
            addPC(o, ne);
            enqueue(o);
            addPC(S, eq);
        }
    }
    v = C(x);
    return x;
}
static void goEdge(State *s, const Edge &e) {
    Frame &f = s->fr.back();
    if (!e.phis.empty()) {
        static thread_local std::vector<Val> tmp;
        tmp.clear();
        State *save = S; S = s;
        for (auto &p : e.phis) tmp.push_back(getw(p.v, p.w));
        S = save;
        for (size_t i = 0; i < e.phis.size(); i++) s->fr.back().regs[e.phis[i].dst] = tmp[i];
    }
    f.bb = e.to; f.pc = 0;
}

static int findObj(const State *s, u64 a) { // index of the object whose base is the greatest <= a
    const auto &v = s->objs;
    size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t mid = (lo + hi) / 2; if (v[mid].p->base <= a) lo = mid + 1; else hi = mid; }
    return (int)lo - 1;
}
static const char *memKind(u8 k) { static const char *n[] = {"global", "stack", "heap(alloc)", "heap(malloc)", "heap(new)"}; return n[k]; }
static int resolve(u64 a, u64 size, u32 align, bool write) {
    st.safetyChecks++;
    char buf[200];
    if (a < 4096) { snprintf(buf, sizeof buf, "%s of %lu bytes through a null pointer (address %#lx)", write ? "write" : "read", size, a); violation("null-dereference", buf); }
    int i = findObj(S, a);
    if (i < 0 || a - S->objs[i].p->base + size > S->objs[i].p->size || S->objs[i].p->dead) {
        if (i >= 0 && S->objs[i].p->dead && a - S->objs[i].p->base < S->objs[i].p->size) violation("use-after-scope", "access to a stack object whose lifetime ended");
        if (i >= 0) snprintf(buf, sizeof buf, "%s of %lu bytes at offset %ld of a %s object of %u bytes (out of bounds or freed)", write ? "write" : "read", size, (long)(a - S->objs[i].p->base), memKind(S->objs[i].p->kind), S->objs[i].p->size);
        else snprintf(buf, sizeof buf, "wild %s", write ? "write" : "read");
        violation("memory", buf);
    }
    if (write && S->objs[i].p->ro) violation("memory", "write to constant memory");
    if (write && a < S->roBelow && S->objs[i].p->kind == 2) violation("read-only", "a reading operation writes to the container");
    if (write && S->roBelow && S->objs[i].p->kind == 0) violation("read-only", "a reading operation writes to static storage");
    if (S->apOn) {
        if (S->objs[i].p->kind == 2 && a >= S->apLo && a < S->apHi) violation("shared", write ? "an operation on one container writes to another's storage" : "an operation on one container reads another's storage");
        if (write && S->objs[i].p->kind == 0) violation("shared", "an operation writes to static storage, which all containers share");
    }
    if (align > 1 && a % align) { snprintf(buf, sizeof buf, "misaligned %s: address %% %u = %lu", write ? "write" : "read", align, a % align); violation("misaligned", buf); }
    return i;
}
static Obj *writable(int i) {
    Obj *o = S->objs[i].p;
    if (o->rc > 1) { Obj *n = new Obj(*o); n->rc = 0; S->objs[i] = ORef(n); return n; }
    return o;
}
static Val loadVal(int oi, u64 off, unsigned w) {
    Obj *o = S->objs[oi].p;
    unsigned nb = (w + 7) / 8;
    bool anySym = false, anyUnd = false;
    if (!o->und.empty()) for (unsigned i = 0; i < nb; i++) if (o->und[off + i]) anyUnd = true;
    if (anyUnd) {
        o = writable(oi);
        bool all = true;
        for (unsigned i = 0; i < nb; i++) if (!o->und[off + i]) all = false;
        if (o->sym.empty()) o->sym.assign(o->size, nullptr);
        if (all) {
            Val f = freshUndef(nb * 8);
            for (unsigned i = 0; i < nb; i++) { o->sym[off + i] = byteOf(f.e, i); o->und[off + i] = 0; }
        } else for (unsigned i = 0; i < nb; i++) if (o->und[off + i]) { o->sym[off + i] = freshUndef(8).e; o->und[off + i] = 0; }
    }
    if (!o->sym.empty()) for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { anySym = true; break; }
    if (!anySym) {
        u64 r = 0;
        memcpy(&r, &o->data[off], nb);
        return C(r & mask(w));
    }
    Expr *e = nullptr;
    for (unsigned i = 0; i < nb; i++) {
        Expr *b = o->sym[off + i] ? o->sym[off + i] : kon(o->data[off + i], 8);
        e = e ? mkConcat(b, e) : b;
    }
    return fromE(mkExtr(e, 0, w));
}
static void storeVal(int oi, u64 off, unsigned w, Val v) {
    Obj *o = writable(oi);
    unsigned nb = (w + 7) / 8;
    if (!o->und.empty()) memset(&o->und[off], 0, nb);
    if (!v.e) {
        memcpy(&o->data[off], &v.c, nb);
        if (!o->sym.empty()) for (unsigned i = 0; i < nb; i++) o->sym[off + i] = nullptr;
        return;
    }
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    Expr *e = v.e;
    if (e->w < nb * 8) e = mkZext(e, nb * 8);
    for (unsigned i = 0; i < nb; i++) {
        Expr *b = byteOf(e, i);
        if (b->op == K) { o->sym[off + i] = nullptr; o->data[off + i] = b->k; }
        else o->sym[off + i] = b;
    }
}
static u64 newObj(u64 size, u32 align, u8 kind, bool undef) {
    u64 a = S->nextAddr;
    if (align < 16) align = 16;
    a = (a + align - 1) / align * align;
    S->nextAddr = a + size + 48; // red zone
    Obj *o = new Obj(a, size, kind);
    if (undef) o->und.assign(size, 1);
    S->objs.push_back(ORef(o));
    return a;
}
static void dropObj(u64 base) {
    int i = findObj(S, base);
    if (i >= 0 && S->objs[i].p->base == base) S->objs.erase(S->objs.begin() + i);
}
static std::string cstr(u64 a) {
    std::string r;
    int i = findObj(S, a);
    if (i < 0) return "?";
    Obj *o = S->objs[i].p;
    for (u64 k = a - o->base; k < o->size && o->data[k]; k++) r += (char)o->data[k];
    return r;
}
static Fn *resolveFn(u64 a) { auto it = fnByAddr.find(a); return it == fnByAddr.end() ? nullptr : it->second; }

static void enterFn(Fn *f, std::vector<Val> &&args, int dst) {
    if (!f->decoded) decode(f);
    if (!f->hit) f->hit = true;
    if (S->fr.size() > opt.maxDepth) violation("stack-overflow", "call depth exceeds " + std::to_string(opt.maxDepth));
    S->fr.push_back(Frame{f, 0, 0, dst, {}, {}});
    if (S->recOn) { u32 n = 0; for (auto &g : S->fr) if (g.f == f) n++; if (n > S->recMax) S->recMax = n; }
    auto &fr = S->fr.back();
    fr.regs = std::move(args);
    fr.regs.resize(f->nregs, C(0));
}
static void checkCond(Expr *bad, const char *kind, const char *msg) { // violation if bad is feasible
    Model m2 = S->m;
    if (feasible(S->pc, bad, m2)) violation(kind, msg, &m2);
}
[[noreturn]] static void pathDone() {
    st.paths++;
    st.maxInstrPath = std::max(st.maxInstrPath, S->instr);
    sampleSeen++;
    bool take = (int)samples.size() < opt.samples;
    size_t slot = samples.size();
    if (!take && opt.samples > 0) { u64 r = rnd() % sampleSeen; if (r < (u64)opt.samples) { take = true; slot = r; } }
    if (take) {
        bool und = false;
        u64 h = 1469598103934665603ull;
        // vary the model inside the path condition, so that the replayed witness
        // is not just the solver's default (mostly zeros)
        Model mm = S->m;
        for (auto &in : S->inputs) {
            if (in.e->op != VAR) continue;
            u32 id = in.e->k;
            u64 old = mm[id];
            for (int t = 0; t < 3; t++) {
                u64 r = rnd();
                mm[id] = (t == 2 ? r % 6 : t == 1 ? r & 0xff : r) & mask(in.w);
                bool ok = true;
                for (Expr *p : S->pc)
                    if (p->vars && std::binary_search(p->vars->begin(), p->vars->end(), id) && !evalE(p, mm)) { ok = false; break; }
                if (ok) break;
                mm[id] = old;
            }
        }
        for (auto &v : S->trace) {
            u64 x = v.e ? evalE(v.e, mm) : v.c;
            if (v.e && v.e->vars) for (u32 q : *v.e->vars) if (vars[q].undef) und = true;
            h ^= x; h *= 1099511628211ull; h ^= h >> 32;
        }
        if (!und) {
            Sample s{inputsOf(*S, mm), h, {}};
            for (auto &i : S->inputs) s.names.push_back(i.e->op == VAR ? vars[i.e->k].name : "?");
            if (slot < samples.size()) samples[slot] = s; else samples.push_back(s);
        }
    }
    throw PathEnd();
}

static void doFree(u64 a, i64 size, u8 kind) { // size<0: unknown
    if (a == 0) {
        if (kind == 2) violation("memory", "deallocate(nullptr)");
        return;
    }
    int i = findObj(S, a);
    char buf[160];
    if (i < 0 || S->objs[i].p->base != a || S->objs[i].p->kind < 2) violation("memory", "free of a pointer that is not a live heap block (double free or wild pointer)");
    Obj *o = S->objs[i].p;
    if (o->kind != kind) { snprintf(buf, sizeof buf, "block obtained from %s released through %s", memKind(o->kind), memKind(kind)); violation("allocator-mismatch", buf); }
    if (size >= 0 && (u64)size != o->size) { snprintf(buf, sizeof buf, "block of %u bytes released with size %ld", o->size, (long)size); violation("allocator-size", buf); }
    auto lo = std::lower_bound(S->live.begin(), S->live.end(), a);
    if (lo != S->live.end() && *lo < a + o->size) violation("lifetime", "storage released while an element in it is still alive");
    if (S->apOn && kind == 2 && a >= S->apLo && a < S->apHi) violation("shared", "an operation on one container releases another's storage");
    if (a < S->roBelow && kind == 2) violation("read-only", "a reading operation releases storage of the container");
    S->blocks--;
    S->objs.erase(S->objs.begin() + i);
}

static void setDst(const Ins &x, Val v) { if (x.dst >= 0) S->fr.back().regs[x.dst] = v; }

// returns true if the builtin finished normally
static void copyBytes(u64 d, u64 s, u64 n) {
    int si = resolve(s, n, 1, false);
    int di = resolve(d, n, 1, true);
    Obj *so = S->objs[si].p;
    u64 so_ = s - so->base;
    std::vector<u8> data(so->data.begin() + so_, so->data.begin() + so_ + n), und;
    std::vector<Expr *> sym;
    if (!so->und.empty()) und.assign(so->und.begin() + so_, so->und.begin() + so_ + n);
    if (!so->sym.empty()) sym.assign(so->sym.begin() + so_, so->sym.begin() + so_ + n);
    Obj *o = writable(di);
    u64 off = d - o->base;
    memcpy(&o->data[off], data.data(), n);
    if (!und.empty()) { if (o->und.empty()) o->und.assign(o->size, 0); std::copy(und.begin(), und.end(), o->und.begin() + off); }
    else if (!o->und.empty()) std::fill_n(o->und.begin() + off, n, 0);
    if (!sym.empty()) { if (o->sym.empty()) o->sym.assign(o->size, nullptr); std::copy(sym.begin(), sym.end(), o->sym.begin() + off); }
    else if (!o->sym.empty()) std::fill_n(o->sym.begin() + off, n, nullptr);
}
// the copies of arguments passed by value live as long as the callee's frame
static void byvalArgs(const Ins &x, std::vector<Val> &args, std::vector<u64> &made) {
    for (size_t i = 0; i < x.byval.size(); i++) if (x.byval[i].first) {
        u64 s = concretise(args[i], 64), c = newObj(x.byval[i].first, x.byval[i].second, 1, true);
        copyBytes(c, s, x.byval[i].first);
        args[i] = C(c); made.push_back(c);
    }
}
static double fpIn(u64 b, u8 w) { if (w == 64) { double d; memcpy(&d, &b, 8); return d; } float f; u32 t = b; memcpy(&f, &t, 4); return f; }
static u64 fpOut(double d, u8 w) { if (w == 64) { u64 b; memcpy(&b, &d, 8); return b; } float f = (float)d; u32 b; memcpy(&b, &f, 4); return b; }
static void floating(const Ins &x) { // on concrete values; symbolic operands are split into their values
    using namespace llvm;
    u64 v[2] = {0, 0};
    for (size_t i = 0; i < x.o.size(); i++) { Val t = getw(x.o[i], x.ow[i]); v[i] = concretise(t, x.ow[i]); }
    u8 sw = x.ow[0];
    u64 r = 0;
    auto tooBig = [&]() { violation("arithmetic", "floating point value does not fit the integer type"); };
    switch (x.idx[0]) {
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        double a = fpIn(v[0], sw), b = fpIn(v[1], sw), q;
        if (sw == 32) { float fa = a, fb = b; q = x.idx[0] == Instruction::FAdd ? fa + fb : x.idx[0] == Instruction::FSub ? fa - fb : x.idx[0] == Instruction::FMul ? fa * fb : x.idx[0] == Instruction::FDiv ? fa / fb : fmodf(fa, fb); }
        else q = x.idx[0] == Instruction::FAdd ? a + b : x.idx[0] == Instruction::FSub ? a - b : x.idx[0] == Instruction::FMul ? a * b : x.idx[0] == Instruction::FDiv ? a / b : fmod(a, b);
        r = fpOut(q, sw); break;
    }
    case Instruction::FNeg: r = v[0] ^ (1ull << (sw - 1)); break;
    case Instruction::FPTrunc: case Instruction::FPExt: r = fpOut(fpIn(v[0], sw), x.w); break;
    case Instruction::SIToFP: { i64 a = sx(v[0], sw); r = x.w == 32 ? fpOut((float)a, 32) : fpOut((double)a, 64); break; }
    case Instruction::UIToFP: r = x.w == 32 ? fpOut((float)v[0], 32) : fpOut((double)v[0], 64); break;
    case Instruction::FPToSI: { double a = trunc(fpIn(v[0], sw)); if (!(a >= -ldexp(1, x.w - 1) && a < ldexp(1, x.w - 1))) tooBig(); r = (u64)(i64)a & mask(x.w); break; }
    case Instruction::FPToUI: { double a = trunc(fpIn(v[0], sw)); if (!(a >= 0 && a < ldexp(1, x.w))) tooBig(); r = (u64)a & mask(x.w); break; }
    case Instruction::FCmp: {
        double a = fpIn(v[0], sw), b = fpIn(v[1], sw);
        unsigned p = x.idx[1]; // bits: 1 equal, 2 greater, 4 less, 8 unordered
        r = (a == b ? p & 1 : a > b ? p & 2 : a < b ? p & 4 : p & 8) != 0;
        break;
    }
    }
    S->fr.back().regs[x.dst] = C(r);
}
static void builtin(const Ins &x) {
    auto arg = [&](int i) { return getw(x.o[i], x.ow[i]); };
    auto conc = [&](int i) { Val v = arg(i); return concretise(v, x.ow[i]); };
    auto symInput = [&](const std::string &name, u8 w) {
        u32 k = S->ord[name]++;
        Expr *e = mkVar(name + (k ? "#" + std::to_string(k) : ""), w, false);
        if (S->m.size() < vars.size()) S->m.resize(vars.size(), 0);
        S->inputs.push_back({e, w});
        return e;
    };
    switch (x.builtin) {
    case B_NOP: if (x.dst >= 0) setDst(x, C(0)); return;
    case B_SYM: setDst(x, Val{0, symInput(cstr(conc(0)), x.rw)}); return;
    case B_CHOICE: {
        u64 n = conc(1);
        Expr *e = symInput(cstr(conc(0)) + ":", 32); // own name space: the domain bound is per variable
        Expr *c = mkBin(ULT, 32, e, kon(n, 32));
        if (!evalE(c, S->m)) S->m[e->k] = 0;
        if (n == 0) violation("harness", "choice of 0");
        if (n < 65536) vars[e->k].bound = std::max<u32>(vars[e->k].bound, n);
        addPC(S, c);
        setDst(x, n == 1 ? C(0) : Val{0, e});
        return;
    }
    case B_ASSUME: {
        Val v = arg(0);
        if (!v.e) { if (!(v.c & 1)) { st.assumeKilled++; throw PathEnd(); } return; }
        Expr *c = v.e->w == 1 ? v.e : mkNot(mkBin(EQ, v.e->w, v.e, kon(0, v.e->w)));
        if (!feasible(S->pc, c, S->m)) { st.assumeKilled++; throw PathEnd(); }
        addPC(S, c);
        return;
    }
    case B_ASSERT: {
        st.asserts++;
        Val v = arg(0);
        std::string msg = cstr(arg(1).c);
        if (!v.e) { if (!(v.c & 1)) violation("assertion", msg); return; }
        st.assertQueries++;
        Expr *c = v.e->w == 1 ? v.e : mkNot(mkBin(EQ, v.e->w, v.e, kon(0, v.e->w)));
        Model m2 = S->m;
        if (feasible(S->pc, mkNot(c), m2)) violation("assertion", msg, &m2);
        return;
    }
    case B_STOPOK: { Val v = arg(0); if (v.e) throw Unsupported{"symbolic argument of vp_stop_ok"}; S->stopOk = v.c & 1; return; }
    case B_RDONLY: { Val v = arg(0); if (v.e) throw Unsupported{"symbolic argument of vp_readonly"}; S->roBelow = v.c & 1 ? S->nextAddr : 0; return; }
    case B_APART: {
        Val v = arg(0); if (v.e) throw Unsupported{"symbolic argument of vp_apart"};
        if (v.c == 1) S->apLo = S->nextAddr; else if (v.c == 2) S->apHi = S->nextAddr; else S->apOn = v.c == 3;
        return;
    }
    case B_RECRESET: S->recOn = true; S->recMax = 0; return;
    case B_RECMAX: setDst(x, C(S->recMax)); return;
    case B_FAIL: violation("assertion", cstr(arg(0).c));
    case B_REACH: reachLabels[cstr(arg(0).c)]++; return;
    case B_TRACE: S->trace.push_back(arg(0)); return;
    case B_VALLOC: case B_MALLOC: case B_NEW: {
        u64 n = conc(0);
        if (x.builtin == B_VALLOC) {
            i64 sn = sx(n, x.ow[0]);
            if (sn <= 0) violation("allocator-size", "allocate() called with a non-positive size");
            n = sn;
        }
        if (n > (64u << 20)) violation("allocator-size", "allocation of more than 64 MiB requested");
        u8 kind = x.builtin == B_VALLOC ? 2 : x.builtin == B_MALLOC ? 3 : 4;
        S->blocks++;
        if (kind == 3) S->mallocs++;
        setDst(x, C(newObj(n ? n : 1, 16, kind, true)));
        return;
    }
    case B_CALLOC: {
        u64 n = conc(0) * conc(1);
        S->blocks++;
        setDst(x, C(newObj(n ? n : 1, 16, 3, false)));
        return;
    }
    case B_VFREE: { u64 a = conc(0); i64 n = sx(conc(1), x.ow[1]); doFree(a, n < 0 ? 0 : n, 2); return; }
    case B_FREE: doFree(conc(0), -1, 3); return;
    case B_DEL: doFree(conc(0), -1, 4); return;
    case B_LIVEBLK: setDst(x, C(S->blocks)); return;
    case B_MALLOCS: setDst(x, C(S->mallocs)); return;
    case B_ISVALLOC: { u64 a = conc(0); int i = findObj(S, a); setDst(x, C(i >= 0 && a - S->objs[i].p->base < S->objs[i].p->size && S->objs[i].p->kind == 2)); return; }
    case B_OCTOR: {
        u64 a = conc(0);
        auto it = std::lower_bound(S->live.begin(), S->live.end(), a);
        if (it != S->live.end() && *it == a) violation("lifetime", "object constructed on top of a live object (the old one is never destroyed)");
        S->live.insert(it, a);
        return;
    }
    case B_ODTOR: {
        u64 a = conc(0);
        auto it = std::lower_bound(S->live.begin(), S->live.end(), a);
        if (it == S->live.end() || *it != a) violation("lifetime", "destructor run on something that is not a live object");
        S->live.erase(it);
        return;
    }
    case B_OUSE: {
        u64 a = conc(0);
        if (!std::binary_search(S->live.begin(), S->live.end(), a)) violation("lifetime", "use of something that is not a live object");
        return;
    }
    case B_LIVEOBJ: setDst(x, C(S->live.size())); return;
    case B_MEMCPY: case B_MEMMOVE: {
        u64 n = conc(2), d = conc(0), s = conc(1);
        if (x.dst >= 0) setDst(x, C(d));
        if (!n) return;
        if (x.builtin == B_MEMCPY && d != s && d < s + n && s < d + n) { resolve(s, n, 1, false); violation("memory", "memcpy between overlapping regions"); }
        copyBytes(d, s, n);
        return;
    }
    case B_MEMSET: {
        u64 n = conc(2), d = conc(0);
        Val v = arg(1);
        if (x.dst >= 0) setDst(x, C(d));
        if (!n) return;
        int di = resolve(d, n, 1, true);
        Obj *o = writable(di);
        u64 off = d - o->base;
        if (!v.e) {
            memset(&o->data[off], (int)v.c, n);
            if (!o->und.empty()) std::fill_n(o->und.begin() + off, n, 0);
            if (!o->sym.empty()) std::fill_n(o->sym.begin() + off, n, nullptr);
        } else for (u64 k = 0; k < n; k++) storeVal(di, off + k, 8, fromE(mkExtr(v.e, 0, 8)));
        return;
    }
    case B_LSTART: case B_LEND: {
        Val p = arg(x.o.size() - 1);
        if (p.e) return;
        int i = findObj(S, p.c);
        if (i < 0 || S->objs[i].p->base != p.c || S->objs[i].p->kind != 1) return;
        Obj *o = writable(i);
        o->dead = x.builtin == B_LEND;
        if (!o->dead) { o->und.assign(o->size, 1); o->sym.clear(); }
        return;
    }
    case B_ASSERTFAIL: violation("library-assert", "library assertion failed: " + cstr(arg(0).c));
    case B_ABORT: violation("abort", "abort/terminate reached");
    case B_EXPECT: setDst(x, arg(0)); return;
    case B_SMAX: case B_SMIN: case B_UMAX: case B_UMIN: {
        Val a = arg(0), b = arg(1);
        Op c = x.builtin == B_SMAX || x.builtin == B_SMIN ? SLT : ULT;
        bool mx = x.builtin == B_SMAX || x.builtin == B_UMAX;
        Val lt = bin(c, x.rw, a, b);
        if (!lt.e) setDst(x, (lt.c != 0) == mx ? b : a);
        else setDst(x, fromE(mkIte(lt.e, toE(mx ? b : a, x.rw), toE(mx ? a : b, x.rw))));
        return;
    }
    case B_ABS: {
        Val a = arg(0), neg = bin(SUB, x.rw, C(0), a), lt = bin(SLT, x.rw, a, C(0));
        if (!lt.e) setDst(x, lt.c ? neg : a);
        else setDst(x, fromE(mkIte(lt.e, toE(neg, x.rw), toE(a, x.rw))));
        return;
    }
    default: throw Unsupported{"builtin"};
    }
}

static void step() {
    Frame &f = S->fr.back();
    const Ins &x = f.f->bbs[f.bb][f.pc];
    curIns = &x;
    S->instr++; st.instr++;
    if (S->instr > opt.maxInstr) violation("hang", "path exceeds " + std::to_string(opt.maxInstr) + " instructions");
    switch (x.op) {
    case I_BIN: {
        Val a = getw(x.o[0], x.w), b = getw(x.o[1], x.w);
        if (x.bop == UDIV || x.bop == SDIV || x.bop == UREM || x.bop == SREM) {
            if (!b.e) { if (!b.c) violation("arithmetic", "division by zero"); }
            else checkCond(mkBin(EQ, x.w, b.e, kon(0, x.w)), "arithmetic", "division by zero");
        } else if (x.bop == SHL || x.bop == LSHR || x.bop == ASHR) {
            if (!b.e) { if (b.c >= x.w) violation("arithmetic", "shift amount out of range"); }
            else checkCond(mkNot(mkBin(ULT, x.w, b.e, kon(x.w, x.w))), "arithmetic", "shift amount out of range");
        }
        if (x.nsw && (x.bop == ADD || x.bop == SUB || x.bop == MUL)) {
            if (!a.e && !b.e) {
                __int128 p = sx(a.c, x.w), q = sx(b.c, x.w), r = x.bop == ADD ? p + q : x.bop == SUB ? p - q : p * q;
                if (r != (__int128)sx((u64)r & mask(x.w), x.w)) violation("arithmetic", "signed integer overflow");
            } else if (x.w <= 32) {
                Expr *ea = mkSext(toE(a, x.w), 64), *eb = mkSext(toE(b, x.w), 64);
                Expr *wide = mkBin(x.bop, 64, ea, eb);
                Expr *nar = mkSext(mkBin(x.bop, x.w, toE(a, x.w), toE(b, x.w)), 64);
                checkCond(mkNot(mkBin(EQ, 64, wide, nar)), "arithmetic", "signed integer overflow");
            }
        }
        f.regs[x.dst] = bin(x.bop, x.w, a, b);
        break;
    }
    case I_ICMP: {
        Val a = getw(x.o[0], x.w), b = getw(x.o[1], x.w);
        if (x.swp) std::swap(a, b);
        Val r = bin(x.bop, x.w, a, b);
        if (x.neg) r = r.e ? fromE(mkNot(r.e)) : C(!r.c);
        f.regs[x.dst] = r;
        break;
    }
    case I_SEL: {
        Val c = getw(x.o[0], 1);
        if (!c.e) f.regs[x.dst] = getw(x.o[c.c & 1 ? 1 : 2], x.w);
        else {
            Val t = getw(x.o[1], x.w), e = getw(x.o[2], x.w);
            f.regs[x.dst] = fromE(mkIte(c.e, toE(t, x.w), toE(e, x.w)));
        }
        break;
    }
    case I_CAST: {
        u8 sw = x.ow[0];
        Val a = getw(x.o[0], sw);
        if (!a.e) {
            u64 v = a.c;
            if (x.cast == C_S) v = (u64)sx(v, sw);
            f.regs[x.dst] = C(v & mask(x.w));
        } else f.regs[x.dst] = x.cast == C_Z ? fromE(mkZext(a.e, x.w)) : x.cast == C_S ? fromE(mkSext(a.e, x.w)) : x.cast == C_T ? fromE(mkExtr(a.e, 0, x.w)) : a;
        break;
    }
    case I_FREEZE: f.regs[x.dst] = getw(x.o[0], x.w); break;
    case I_LOAD: {
        Val a = getw(x.o[0], 64);
        u64 ad = concretise(a, 64);
        int i = resolve(ad, x.size, x.align, false);
        u64 off = ad - S->objs[i].p->base;
        if (x.w) f.regs[x.dst] = loadVal(i, off, x.w);
        else {
            Expr *e = new Expr{AGG, 0, 0, 0, 0, nullptr, nullptr, nullptr, nullptr, nullptr, new std::vector<Val>};
            for (auto &l : x.leaves) e->agg->push_back(loadVal(i, off + l.off, l.w));
            f.regs[x.dst] = Val{0, e};
        }
        break;
    }
    case I_STORE: {
        Val a = getw(x.o[0], 64);
        u64 ad = concretise(a, 64);
        int i = resolve(ad, x.size, x.align, true);
        u64 off = ad - S->objs[i].p->base;
        if (x.w) {
            if (x.o[1].undef) { Obj *o = writable(i); if (o->und.empty()) o->und.assign(o->size, 0); std::fill_n(o->und.begin() + off, x.size, 1); }
            else storeVal(i, off, x.w, get(x.o[1]));
        } else {
            Val v = get(x.o[1]);
            if (!v.e || v.e->op != AGG) throw Unsupported{"aggregate store"};
            for (size_t k = 0; k < x.leaves.size(); k++) storeVal(i, off + x.leaves[k].off, x.leaves[k].w, (*v.e->agg)[k]);
        }
        break;
    }
    case I_GEP: {
        Val a = getw(x.o[0], 64);
        a = bin(ADD, 64, a, C(x.size));
        for (size_t k = 1; k < x.o.size(); k++) {
            Val i = getw(x.o[k], x.ow[k - 1]);
            if (x.ow[k - 1] < 64) { if (i.e) i = fromE(mkSext(i.e, 64)); else i = C((u64)sx(i.c, x.ow[k - 1])); }
            a = bin(ADD, 64, a, bin(MUL, 64, i, C(x.scale[k - 1])));
        }
        f.regs[x.dst] = a;
        break;
    }
    case I_ALLOCA: {
        u64 sz = x.size;
        if (!x.o.empty()) { Val n = getw(x.o[0], x.ow[0]); sz *= concretise(n, x.ow[0]); if (sz > (64u << 20)) violation("stack-overflow", "stack array of more than 64 MiB"); }
        u64 a = newObj(sz ? sz : 1, x.align, 1, true);
        S->fr.back().allocas.push_back(a);
        f.regs[x.dst] = C(a);
        break;
    }
    case I_BR: goEdge(S, x.edges[0]); return;
    case I_CBR: {
        Val c = getw(x.o[0], 1);
        if (!c.e) { goEdge(S, x.edges[c.c & 1 ? 0 : 1]); return; }
        if (S->m.size() < vars.size()) S->m.resize(vars.size(), 0);
        bool v = evalE(c.e, S->m);
        Expr *mine = v ? c.e : mkNot(c.e), *other = v ? mkNot(c.e) : c.e;
        Model m2 = S->m;
        if (feasible(S->pc, other, m2)) {
            State *o = forkState();
            o->m = m2;
            addPC(o, other);
            goEdge(o, x.edges[v ? 1 : 0]);
            enqueue(o);
            addPC(S, mine);
        }
        goEdge(S, x.edges[v ? 0 : 1]);
        return;
    }
    case I_SWITCH: {
        Val c = getw(x.o[0], x.w);
        if (c.e) concretise(c, x.w);
        for (size_t i = 0; i < x.cases.size(); i++)
            if (x.cases[i] == c.c) { goEdge(S, x.edges[i + 1]); return; }
        goEdge(S, x.edges[0]);
        return;
    }
    case I_RET: {
        Val r = C(0);
        if (!x.o.empty()) { u8 w = widthOf(f.f->f->getReturnType()); r = getw(x.o[0], w); }
        for (u64 a : f.allocas) dropObj(a);
        int dst = f.dst;
        S->fr.pop_back();
        if (S->fr.empty()) pathDone();
        Frame &g = S->fr.back();
        if (dst >= 0) g.regs[dst] = r;
        const Ins &ci = g.f->bbs[g.bb][g.pc];
        if (!ci.edges.empty()) goEdge(S, ci.edges[0]); else g.pc++;
        return;
    }
    case I_CALL: {
        if (x.builtin) {
            builtin(x);
            if (!x.edges.empty()) { goEdge(S, x.edges[0]); return; }
            break;
        }
        Fn *cal = x.callee;
        size_t na = x.ow.size();
        if (!cal) {
            Val t = get(x.o.back());
            u64 a = concretise(t, 64);
            cal = resolveFn(a);
            if (!cal) violation("memory", a ? "call through a wild function pointer" : "call through a null function pointer");
            if (cal->decl) throw Unsupported{"indirect call to external " + cal->name};
        }
        std::vector<Val> args;
        args.reserve(cal->decoded ? cal->nregs : na);
        for (size_t i = 0; i < na; i++) args.push_back(getw(x.o[i], x.ow[i]));
        std::vector<u64> made;
        if (!x.byval.empty()) byvalArgs(x, args, made);
        enterFn(cal, std::move(args), x.dst);
        S->fr.back().allocas = std::move(made);
        return;
    }
    case I_UNREACH: violation("unreachable", "unreachable code reached (missing return?)");
    case I_EXV: {
        Val v = get(x.o[0]);
        if (!v.e || v.e->op != AGG) throw Unsupported{"extractvalue operand"};
        f.regs[x.dst] = (*v.e->agg)[x.idx[0]];
        break;
    }
    case I_INV: {
        Val v = get(x.o[0]);
        Expr *e = new Expr{AGG, 0, 0, 0, 0, nullptr, nullptr, nullptr, nullptr, nullptr, new std::vector<Val>};
        if (v.e && v.e->op == AGG) *e->agg = *v.e->agg; else e->agg->assign(x.nleaf, C(0));
        (*e->agg)[x.idx[0]] = get(x.o[1]);
        f.regs[x.dst] = Val{0, e};
        break;
    }
    case I_FP: floating(x); break;
    case I_BAD: throw Unsupported{x.why + " at " + locOf(x.src)};
    }
    S->fr.back().pc++;
}

static bool timeUp() { return now() - T0 > opt.deadline; }
// run s until its path ends (or, in bfs mode, until it forks)
static void runState(State *s) {
    S = s;
    yieldFlag = false;
    try {
        u64 n = 0;
        while (true) {
            step();
            if (yieldFlag) { work.push_back(s); return; }
            if ((++n & 0xffff) == 0 && timeUp()) { incompletes.insert("time budget exhausted"); break; }
        }
    } catch (PathEnd &) {
    } catch (Unsupported &u) {
        incompletes.insert(u.what);
    }
    delete s;
}

// ------------------------------------------------------------------ results
static void jstr(FILE *o, const std::string &s) {
    fputc('"', o);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') fprintf(o, "\\%c", c);
        else if (c < 32) fprintf(o, "\\u%04x", c);
        else fputc(c, o);
    }
    fputc('"', o);
}
// worker result: simple binary serialisation
struct Ser {
    std::string b; size_t p = 0;
    void u(u64 x) { b.append((char *)&x, 8); }
    void d(double x) { b.append((char *)&x, 8); }
    void s(const std::string &x) { u(x.size()); b += x; }
    u64 ru() { u64 x; memcpy(&x, &b[p], 8); p += 8; return x; }
    double rd() { double x; memcpy(&x, &b[p], 8); p += 8; return x; }
    std::string rs() { u64 n = ru(); std::string r = b.substr(p, n); p += n; return r; }
};
static void packResults(Ser &o) {
    u64 *f[] = {&st.paths, &st.forks, &st.instr, &st.queries, &st.cacheHits, &st.sat, &st.unsat, &st.unknown, &st.asserts, &st.assertQueries, &st.assumeKilled, &st.modelHits, &st.impliedHits, &st.safetyChecks, &st.concretised, &st.domain, &st.order, &st.maxInstrPath};
    for (auto *x : f) o.u(*x);
    o.d(st.solver);
    o.u(violations.size());
    for (auto &v : violations) {
        o.s(v.kind); o.s(v.msg); o.s(v.loc); o.s(v.stack);
        o.u(v.inputs.size()); for (u64 x : v.inputs) o.u(x);
        o.u(v.names.size()); for (auto &x : v.names) o.s(x);
    }
    o.u(samples.size());
    for (auto &s : samples) { o.u(s.inputs.size()); for (u64 x : s.inputs) o.u(x); for (auto &x : s.names) o.s(x); o.u(s.hash); }
    o.u(incompletes.size()); for (auto &x : incompletes) o.s(x);
    o.u(reachLabels.size()); for (auto &x : reachLabels) { o.s(x.first); o.u(x.second); }
    u64 nh = 0; for (auto &p : fnOf) if (p.second->hit) nh++;
    o.u(nh); for (auto &p : fnOf) if (p.second->hit) o.s(p.second->name);
}
static void unpackResults(Ser &o, std::set<std::string> &hits) {
    u64 *f[] = {&st.paths, &st.forks, &st.instr, &st.queries, &st.cacheHits, &st.sat, &st.unsat, &st.unknown, &st.asserts, &st.assertQueries, &st.assumeKilled, &st.modelHits, &st.impliedHits, &st.safetyChecks, &st.concretised, &st.domain, &st.order};
    for (auto *x : f) *x += o.ru();
    st.maxInstrPath = std::max(st.maxInstrPath, o.ru());
    st.solver += o.rd();
    for (u64 n = o.ru(); n--;) {
        Violation v; v.kind = o.rs(); v.msg = o.rs(); v.loc = o.rs(); v.stack = o.rs();
        for (u64 k = o.ru(); k--;) v.inputs.push_back(o.ru());
        for (u64 k = o.ru(); k--;) v.names.push_back(o.rs());
        violations.push_back(v);
    }
    for (u64 n = o.ru(); n--;) { Sample s; for (u64 k = o.ru(); k--;) s.inputs.push_back(o.ru()); for (size_t k = 0; k < s.inputs.size(); k++) s.names.push_back(o.rs()); s.hash = o.ru(); samples.push_back(s); }
    for (u64 n = o.ru(); n--;) incompletes.insert(o.rs());
    for (u64 n = o.ru(); n--;) { std::string l = o.rs(); reachLabels[l] += o.ru(); }
    for (u64 n = o.ru(); n--;) hits.insert(o.rs());
}

static void initMemory() {
    using namespace llvm;
    u64 fa = 0x10000;
    for (auto &f : *M) {
        Fn *F = new Fn; F->f = &f; F->name = f.getName().str(); F->dem = demangle(F->name); F->decl = f.isDeclaration(); F->addr = fa; fa += 16;
        fnOf[&f] = F; fnByAddr[F->addr] = F;
    }
    S->nextAddr = 0x100000;
    for (auto &g : M->globals()) {
        u64 sz = DL->getTypeAllocSize(g.getValueType());
        u32 al = std::max<u64>(16, g.getAlign().valueOrOne().value());
        gaddr[&g] = newObj(sz ? sz : 1, al, 0, false);
    }
    for (auto &g : M->globals()) {
        if (!g.hasInitializer()) continue;
        u64 base = gaddr[&g];
        std::function<void(const Constant *, u64)> init = [&](const Constant *c, u64 off) {
            if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
            if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
                u64 es = DL->getTypeAllocSize(d->getElementType());
                for (unsigned i = 0; i < d->getNumElements(); i++) init(d->getElementAsConstant(i), off + i * es);
                return;
            }
            if (auto *s = dyn_cast<ConstantStruct>(c)) {
                auto *l = DL->getStructLayout(s->getType());
                for (unsigned i = 0; i < s->getNumOperands(); i++) init(s->getOperand(i), off + l->getElementOffset(i));
                return;
            }
            if (auto *a = dyn_cast<ConstantArray>(c)) {
                u64 es = DL->getTypeAllocSize(a->getType()->getElementType());
                for (unsigned i = 0; i < a->getNumOperands(); i++) init(a->getOperand(i), off + i * es);
                return;
            }
            u8 w = widthOf(c->getType());
            if (!w) return; // floating point etc: left zero, any use is reported as unsupported
            bool u; Val v = constVal(c, u);
            storeVal(findObj(S, base), off, w, v);
        };
        try { init(g.getInitializer(), 0); } catch (Unsupported &) { }
    }
    for (auto &g : M->globals()) if (g.isConstant()) S->objs[findObj(S, gaddr[&g])].p->ro = true;
}

int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { if (i + 1 >= argc) fatal("missing value for %s", a.c_str()); return std::string(argv[++i]); };
        if (a == "--entry") opt.entry = nx();
        else if (a == "--jobs") opt.jobs = atoi(nx().c_str());
        else if (a == "--deadline") opt.deadline = atof(nx().c_str());
        else if (a == "--max-instr") opt.maxInstr = strtoull(nx().c_str(), 0, 10);
        else if (a == "--max-depth") opt.maxDepth = atoi(nx().c_str());
        else if (a == "--max-violations") opt.maxViolations = atoi(nx().c_str());
        else if (a == "--samples") opt.samples = atoi(nx().c_str());
        else if (a == "--seed") opt.seed = atoi(nx().c_str());
        else if (a == "--out") opt.out = nx();
        else if (a == "--dump-smt") opt.dumpSmt = nx();
        else opt.file = a;
    }
    T0 = now();
    rng ^= (u64)opt.seed * 0x9E3779B97F4A7C15ull;
    llvm::LLVMContext ctx;
    llvm::SMDiagnostic err;
    auto mod = llvm::parseIRFile(opt.file, err, ctx);
    if (!mod) { err.print("dsym", llvm::errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    solverInit();
    State *s0 = new State;
    S = s0;
    initMemory();
    auto *ef = M->getFunction(opt.entry);
    if (!ef || ef->isDeclaration()) fatal("no entry %s", opt.entry.c_str());
    enterFn(getFn(ef), {}, -1);
    // global constructors run before the entry
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
        if (auto *ca = llvm::dyn_cast<llvm::ConstantArray>(gc->getInitializer()))
            for (unsigned i = ca->getNumOperands(); i-- > 0;) {
                auto *cf = llvm::dyn_cast<llvm::Function>(llvm::cast<llvm::ConstantStruct>(ca->getOperand(i))->getOperand(1)->stripPointerCasts());
                if (!cf) continue;
                // run to completion now, in a state of its own frame stack
                std::vector<Frame> save; save.swap(S->fr);
                // a tiny driver: execute until only the dummy frame is left
                Frame dummy = save[0]; S->fr.push_back(dummy);
                int pc0 = S->fr[0].pc;
                enterFn(getFn(cf), {}, -1);
                try { while (S->fr.size() > 1) step(); } catch (PathEnd &) { fatal("violation in a global constructor"); } catch (Unsupported &u) { fatal("unsupported in global constructor: %s", u.what.c_str()); }
                S->fr.swap(save);
                (void)pc0;
            }
    work.push_back(s0);
    std::set<std::string> hits;
    // phase 1: breadth first until there are enough states to share out
    bfs = opt.jobs > 1;
    size_t target = opt.jobs > 1 ? (size_t)opt.jobs * 24 : 0;
    u64 rounds = 0;
    double bfsStart = now();
    while (!work.empty() && (opt.jobs <= 1 || (work.size() < target && rounds++ < 20000 && now() - bfsStart < 30))) {
        State *s;
        if (bfs) { s = work.front(); work.pop_front(); } else { s = work.back(); work.pop_back(); }
        runState(s);
        if ((int)violations.size() >= opt.maxViolations) break;
        if (timeUp()) { incompletes.insert("time budget exhausted"); break; }
    }
    bool stop = (int)violations.size() >= opt.maxViolations || timeUp();
    if (!stop && !work.empty()) {
        bfs = false;
        std::vector<State *> front(work.begin(), work.end());
        work.clear();
        std::map<pid_t, int> running; // pid -> fd
        std::map<int, std::string> bufs;
        size_t nexti = 0;
        signal(SIGPIPE, SIG_IGN);
        while ((nexti < front.size() || !running.empty()) ) {
            while (!stop && nexti < front.size() && (int)running.size() < opt.jobs) {
                int fd[2];
                if (pipe(fd)) fatal("pipe");
                pid_t p = fork();
                if (p < 0) fatal("fork");
                if (p == 0) {
                    close(fd[0]);
                    State *mine = front[nexti];
                    st = Stats(); violations.clear(); samples.clear(); incompletes.clear(); reachLabels.clear(); sampleSeen = 0;
                    for (auto &q : fnOf) q.second->hit = false;
                    rng ^= (nexti + 1) * 0xD1B54A32D192ED03ull;
                    opt.samples = nexti < 24 ? opt.samples : 0;
                    work.push_back(mine);
                    while (!work.empty()) {
                        State *s = work.back(); work.pop_back();
                        runState(s);
                        if ((int)violations.size() >= opt.maxViolations) break;
                        if (timeUp()) { incompletes.insert("time budget exhausted"); break; }
                    }
                    Ser o; packResults(o);
                    size_t w = 0;
                    while (w < o.b.size()) { ssize_t k = write(fd[1], o.b.data() + w, o.b.size() - w); if (k <= 0) _exit(4); w += k; }
                    _exit(0);
                }
                close(fd[1]);
                running[p] = fd[0];
                nexti++;
            }
            if (running.empty()) break;
            fd_set rs; FD_ZERO(&rs); int mx = 0;
            for (auto &r : running) { FD_SET(r.second, &rs); mx = std::max(mx, r.second); }
            struct timeval tv = {1, 0};
            int k = select(mx + 1, &rs, nullptr, nullptr, &tv);
            std::vector<pid_t> done;
            if (k > 0) for (auto &r : running) if (FD_ISSET(r.second, &rs)) {
                char buf[65536];
                ssize_t n = read(r.second, buf, sizeof buf);
                if (n > 0) bufs[r.second].append(buf, n); else done.push_back(r.first);
            }
            for (pid_t p : done) {
                int fd = running[p], status;
                close(fd);
                waitpid(p, &status, 0);
                if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { Ser o; o.b.swap(bufs[fd]); unpackResults(o, hits); }
                else incompletes.insert("worker died (out of memory?)");
                bufs.erase(fd);
                running.erase(p);
            }
            if ((int)violations.size() >= opt.maxViolations) {
                stop = true;
                for (auto &r : running) kill(r.first, SIGKILL);
                for (auto &r : running) { int status; waitpid(r.first, &status, 0); close(r.second); }
                running.clear();
            }
            if (now() - T0 > opt.deadline + 20) {
                incompletes.insert("time budget exhausted");
                for (auto &r : running) kill(r.first, SIGKILL);
                for (auto &r : running) { int status; waitpid(r.first, &status, 0); close(r.second); }
                break;
            }
            if (timeUp() && nexti < front.size()) { incompletes.insert("time budget exhausted"); stop = true; }
        }
    }
    for (auto &p : fnOf) if (p.second->hit) hits.insert(p.second->name);
    FILE *o = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
    if (!o) fatal("cannot write %s", opt.out.c_str());
    fprintf(o, "{\"entry\":"); jstr(o, opt.entry);
    fprintf(o, ",\"paths\":%lu,\"forks\":%lu,\"instructions\":%lu,\"queries\":%lu,\"cache_hits\":%lu,\"solver_calls\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"asserts\":%lu,\"assert_queries\":%lu,\"assume_killed\":%lu,\"model_hits\":%lu,\"implied_hits\":%lu,\"memory_checks\":%lu,\"concretised\":%lu,\"domain_decided\":%lu,\"integer_encoded\":%lu,\"max_path_instr\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f",
            st.paths, st.forks, st.instr, st.queries, st.cacheHits, st.sat + st.unsat + st.unknown, st.sat, st.unsat, st.unknown, st.asserts, st.assertQueries, st.assumeKilled, st.modelHits, st.impliedHits, st.safetyChecks, st.concretised, st.domain, st.order, st.maxInstrPath, st.solver, now() - T0);
    fprintf(o, ",\"complete\":%s,\"incomplete\":[", incompletes.empty() && !((int)violations.size() >= opt.maxViolations) ? "true" : "false");
    bool first = true;
    for (auto &x : incompletes) { if (!first) fputc(',', o); first = false; jstr(o, x); }
    fprintf(o, "],\"violations\":[");
    first = true;
    for (auto &v : violations) {
        if (!first) fputc(',', o); first = false;
        fprintf(o, "{\"kind\":"); jstr(o, v.kind); fprintf(o, ",\"msg\":"); jstr(o, v.msg); fprintf(o, ",\"loc\":"); jstr(o, v.loc);
        fprintf(o, ",\"stack\":"); jstr(o, v.stack); fprintf(o, ",\"inputs\":[");
        for (size_t i = 0; i < v.inputs.size(); i++) fprintf(o, "%s%lu", i ? "," : "", v.inputs[i]);
        fprintf(o, "],\"names\":[");
        for (size_t i = 0; i < v.names.size(); i++) { if (i) fputc(',', o); jstr(o, v.names[i]); }
        fprintf(o, "]}");
    }
    fprintf(o, "],\"samples\":[");
    first = true;
    for (auto &s : samples) {
        if (!first) fputc(',', o); first = false;
        fprintf(o, "{\"inputs\":[");
        for (size_t i = 0; i < s.inputs.size(); i++) fprintf(o, "%s%lu", i ? "," : "", s.inputs[i]);
        fprintf(o, "],\"names\":[");
        for (size_t i = 0; i < s.names.size(); i++) { if (i) fputc(',', o); jstr(o, s.names[i]); }
        fprintf(o, "],\"hash\":\"%016lx\"}", s.hash);
    }
    fprintf(o, "],\"reach\":{");
    first = true;
    for (auto &r : reachLabels) { if (!first) fputc(',', o); first = false; jstr(o, r.first); fprintf(o, ":%lu", r.second); }
    fprintf(o, "},\"functions\":[");
    first = true;
    for (auto &h : hits) {
        std::string d = llvm::demangle(h);
        if (d.find("dstruct::") == std::string::npos) continue;
        if (!first) fputc(',', o); first = false; jstr(o, d);
    }
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    fflush(nullptr);
    _exit(0);
}
