// Runtime of the symbolic execution engine (not instrumented).  See SymPass.cpp.
//
// One process executes one path.  At a branch whose condition is symbolic, z3 decides which sides are feasible under
// the path condition; when both are, fork(2) creates the process that takes the other side.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <initializer_list>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <z3.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef int64_t i64;

// ------------------------------------------------------------------ shared state
enum { MAXTAG = 256, MAXVIOL = 64 };
struct Shared {
    sem_t tokens;
    volatile u64 paths, infeasible, branches, forks, queries, sat, unsat, unknown, domq, pathq, concs, viol, truncated, exits;
    volatile u64 solver_us, maxdepth, asserts, asserts_sym, ldx, scanhits, cpu_us, steps, lock, knownviol;
    volatile u64 nviol, stop, tagn, nsamples, crashes, hangs, obsn;
    char tags[MAXTAG][64];
    volatile u64 tagc[MAXTAG];
    char violmsg[MAXVIOL][160];
    double deadline;
    u8 cov[1 << 20];
};
static Shared *sh;
static Shared bootsh;
static char covdummy[1 << 20];
static bool running = false; // the harness has started

extern "C" {
void *__sy_arg[64];
void *__sy_arg_fn;
void *__sy_ret[16];
void *__sy_ret_fn;
char __sy_dummy[64];
char *__sy_cov = covdummy;
extern void *__sy_reg[];
extern u64 __sy_nreg;
extern const u64 __sy_race; // the build reports its memory accesses to the race detector
extern char __libc_single_threaded;
extern char __sy_covnames[];
extern u64 __sy_ncov;
void sy_harness();
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
#define ADD(f, n) __sync_fetch_and_add(&sh->f, (u64)(n))

static const char *outdir = ".";
static int opt_tokens = 8;
static bool opt_nodom = false, opt_xcheck = false;
static u64 opt_rlimit = 40000000, opt_maxsamples = 24, opt_hang = 20;
static u64 seed = 1;

// ------------------------------------------------------------------ expressions
enum Op : u8 {
    CONST, VAR, ADDo, SUBo, MULo, UDIV, SDIV, UREM, SREM, ANDo, ORo, XORo, SHLo, LSHR, ASHR,
    EQo, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT
};
struct E {
    Op op;
    u8 w;
    bool dead; // known to be unsatisfiable together with the path condition
    int sv; // -2 constant, >=0 the only variable, -1 several variables
    u32 hash;
    u32 gen;
    E *a, *b, *c;
    u64 k;
    u64 ub; // unsigned upper bound
    u64 ev;
    Z3_ast z;
    E *next;
};
static E *arena, *arenaEnd;
enum { HB = 1 << 18 };
static E *htab[HB];

struct Var {
    char name[40];
    u64 val;
    u64 lo, hi;
    u8 w;
    bool multi;   // occurs in a constraint with another variable
    bool big;     // constrained by more than its domain keeps
    bool hasdom;  // domain of at most 256 values kept explicitly
    u64 dombase;  // dom bit i <=> value dombase + i
    u64 dom[4];
    bool isdec;   // created by a choice
};
enum { MAXVAR = 2048 };
static Var vars[MAXVAR];
static E *varE[MAXVAR];
static int nvars = 0;
static u32 curgen = 1;

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

static E *mk(Op op, unsigned w, E *a, E *b, E *c, u64 k)
{
    u64 h = op * 1000003ull + w;
    h = h * 1000003ull ^ ((u64)a >> 4);
    h = h * 1000003ull ^ ((u64)b >> 4);
    h = h * 1000003ull ^ ((u64)c >> 4);
    h = h * 1000003ull ^ k;
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 32;
    for (E *e = htab[h % HB]; e; e = e->next)
        if (e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->k == k) return e;
    if (!arena || arena + 1 > arenaEnd) {
        size_t sz = 1ull << 33;
        arena = (E *)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        arenaEnd = arena + sz / sizeof(E);
    }
    E *e = arena++;
    e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->k = k;
    e->gen = 0; e->z = 0; e->dead = false;
    int sv = -2;
    if (op == VAR) sv = (int)k;
    else
        for (E *x : {a, b, c})
            if (x && x->sv != -2) { if (sv == -2) sv = x->sv; else if (sv != x->sv) sv = -1; }
    e->sv = sv;
    u64 ub = mask(w);
    switch (op) {
    case CONST: ub = k; break;
    case VAR: ub = vars[k].hi; break;
    case ZEXT: ub = a->ub; break;
    case ANDo: ub = a->ub < b->ub ? a->ub : b->ub; break;
    case ITE: ub = b->ub > c->ub ? b->ub : c->ub; break;
    case UREM: if (b->op == CONST && b->k) ub = b->k - 1; break;
    case UDIV: if (b->op == CONST && b->k) ub = a->ub / b->k; break;
    case LSHR: if (b->op == CONST && b->k < w) ub = a->ub >> b->k; break;
    case EXTRACT: if (k == 0 && a->ub < ub) ub = a->ub; break;
    case ADDo: if (a->ub + b->ub >= a->ub && a->ub + b->ub < ub) ub = a->ub + b->ub; break;
    case CONCAT: if (a->op == CONST) ub = (a->k << b->w) | b->ub; break;
    default: break;
    }
    e->ub = ub;
    e->next = htab[h % HB];
    htab[h % HB] = e;
    return e;
}
static inline E *K(u64 v, unsigned w) { return mk(CONST, w, 0, 0, 0, v & mask(w)); }
static inline bool isK(E *e) { return e->op == CONST; }
static inline bool isKv(E *e, u64 v) { return e->op == CONST && e->k == v; }

static u64 fold(Op op, unsigned w, u64 a, u64 b)
{
    u64 m = mask(w);
    switch (op) {
    case ADDo: return (a + b) & m;
    case SUBo: return (a - b) & m;
    case MULo: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
    case SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case ANDo: return a & b;
    case ORo: return a | b;
    case XORo: return a ^ b;
    case SHLo: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case EQo: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sx(a, w) < sx(b, w);
    case SLE: return sx(a, w) <= sx(b, w);
    default: return 0;
    }
}

static E *bin(Op op, E *a, E *b);
static E *ite(E *c, E *a, E *b);
static E *extract(E *a, unsigned lo, unsigned w);
static E *zext(E *a, unsigned w);
static E *notE(E *a) { return bin(XORo, a, K(1, 1)); }

static E *zext(E *a, unsigned w)
{
    if (a->w == w) return a;
    if (isK(a)) return K(a->k, w);
    if (a->op == ZEXT) return zext(a->a, w);
    return mk(ZEXT, w, a, 0, 0, 0);
}
static E *sext(E *a, unsigned w)
{
    if (a->w == w) return a;
    if (isK(a)) return K((u64)sx(a->k, a->w), w);
    if (a->op == ZEXT) return zext(a->a, w);
    if (!(a->ub >> (a->w - 1))) return zext(a, w);
    if (a->op == SEXT) return sext(a->a, w);
    return mk(SEXT, w, a, 0, 0, 0);
}
static E *concat(E *hi, E *lo)
{
    unsigned w = hi->w + lo->w;
    if (isK(hi) && isK(lo)) return K((hi->k << lo->w) | lo->k, w);
    if (isKv(hi, 0)) return zext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w)
        return extract(hi->a, lo->k, w);
    if (hi->op == EXTRACT && hi->a == lo && hi->k == lo->w) return extract(hi->a, 0, w);
    return mk(CONCAT, w, hi, lo, 0, 0);
}
static E *extract(E *a, unsigned lo, unsigned w)
{
    if (lo == 0 && a->w == w) return a;
    if (isK(a)) return K(a->k >> lo, w);
    if (lo < 64 && (a->ub >> lo) == 0) return K(0, w);
    switch (a->op) {
    case EXTRACT: return extract(a->a, a->k + lo, w);
    case CONCAT:
        if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
        if (lo + w <= a->b->w) return extract(a->b, lo, w);
        return concat(extract(a->a, 0, lo + w - a->b->w), extract(a->b, lo, a->b->w - lo));
    case ZEXT:
        if (lo >= a->a->w) return K(0, w);
        if (lo + w <= a->a->w) return extract(a->a, lo, w);
        return zext(extract(a->a, lo, a->a->w - lo), w);
    case SEXT:
        if (lo + w <= a->a->w) return extract(a->a, lo, w);
        break;
    case ITE:
        if (isK(a->b) || isK(a->c)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
        break;
    case ANDo: case ORo: case XORo:
        if (isK(a->b)) return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
        break;
    case ADDo: case SUBo: case MULo:
        if (lo == 0) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
        break;
    default: break;
    }
    return mk(EXTRACT, w, a, 0, 0, lo);
}
static E *ite(E *c, E *a, E *b)
{
    if (isK(c)) return c->k ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (isK(a) && isK(b)) return a->k ? c : notE(c);
        if (isKv(a, 1)) return bin(ORo, c, b);
        if (isKv(a, 0)) return bin(ANDo, notE(c), b);
        if (isKv(b, 0)) return bin(ANDo, c, a);
        if (isKv(b, 1)) return bin(ORo, notE(c), a);
    }
    if (c->op == XORo && isKv(c->b, 1)) return ite(c->a, b, a);
    if (b->op == ITE && b->a == c) return ite(c, a, b->c);
    if (a->op == ITE && a->a == c) return ite(c, a->b, b);
    return mk(ITE, a->w, c, a, b, 0);
}
static bool iteK(E *e, int d = 0)
{
    if (isK(e)) return true;
    if (e->op != ITE || d > 300) return false;
    return isK(e->b) ? iteK(e->c, d + 1) : (isK(e->c) && iteK(e->b, d + 1));
}
static E *mapIteCmp(Op op, E *e, E *k, bool rev)
{
    if (isK(e)) return rev ? K(fold(op, k->w, k->k, e->k), 1) : K(fold(op, k->w, e->k, k->k), 1);
    return ite(e->a, mapIteCmp(op, e->b, k, rev), mapIteCmp(op, e->c, k, rev));
}
static E *bin(Op op, E *a, E *b)
{
    unsigned w = a->w;
    bool cmp = op >= EQo && op <= SLE;
    if (isK(a) && isK(b)) return K(fold(op, w, a->k, b->k), cmp ? 1 : w);
    bool comm = op == ADDo || op == MULo || op == ANDo || op == ORo || op == XORo || op == EQo;
    if (comm && isK(a)) { E *t = a; a = b; b = t; }
    else if (comm && !isK(b) && a > b) { E *t = a; a = b; b = t; }
    switch (op) {
    case ADDo:
        if (isKv(b, 0)) return a;
        if (isK(b) && a->op == ADDo && isK(a->b)) return bin(ADDo, a->a, K(a->b->k + b->k, w));
        break;
    case SUBo:
        if (isK(b)) return bin(ADDo, a, K(0 - b->k, w));
        if (a == b) return K(0, w);
        break;
    case MULo:
        if (isKv(b, 0)) return b;
        if (isKv(b, 1)) return a;
        break;
    case ANDo:
        if (isKv(b, 0)) return b;
        if (isKv(b, mask(w))) return a;
        if (a == b) return a;
        if (isK(b)) {
            // low mask
            u64 m = b->k;
            if ((m & (m + 1)) == 0) {
                unsigned n = __builtin_popcountll(m);
                if (a->ub <= m) return a;
                return zext(extract(a, 0, n), w);
            }
            if (a->op == ZEXT && a->a->w < w) return zext(bin(ANDo, a->a, K(m, a->a->w)), w);
            if (a->op == ANDo && isK(a->b)) return bin(ANDo, a->a, K(a->b->k & m, w));
            if (iteK(a)) return ite(a->a, bin(ANDo, a->b, b), bin(ANDo, a->c, b));
        }
        if (w == 1 && ((a->op == XORo && isKv(a->b, 1) && a->a == b) || (b->op == XORo && isKv(b->b, 1) && b->a == a))) return K(0, 1);
        break;
    case ORo:
        if (isKv(b, 0)) return a;
        if (isKv(b, mask(w))) return b;
        if (a == b) return a;
        if (w == 1 && ((a->op == XORo && isKv(a->b, 1) && a->a == b) || (b->op == XORo && isKv(b->b, 1) && b->a == a))) return K(1, 1);
        if (isK(b) && a->op == ZEXT && b->k <= mask(a->a->w)) return zext(bin(ORo, a->a, K(b->k, a->a->w)), w);
        break;
    case XORo:
        if (isKv(b, 0)) return a;
        if (a == b) return K(0, w);
        if (isK(b) && a->op == XORo && isK(a->b)) return bin(XORo, a->a, K(a->b->k ^ b->k, w));
        if (isK(b) && w == 1 && a->op == ULT) return bin(ULE, a->b, a->a);
        if (isK(b) && w == 1 && a->op == ULE) return bin(ULT, a->b, a->a);
        if (isK(b) && w == 1 && a->op == SLT) return bin(SLE, a->b, a->a);
        if (isK(b) && w == 1 && a->op == SLE) return bin(SLT, a->b, a->a);
        break;
    case SHLo: case LSHR: case ASHR:
        if (isKv(b, 0)) return a;
        if (isK(b) && b->k >= w && op != ASHR) return K(0, w);
        if (op == LSHR && isK(b)) return zext(extract(a, b->k, w - b->k), w);
        if (op == SHLo && isK(b)) return concat(extract(a, 0, w - b->k), K(0, b->k));
        break;
    case EQo:
        if (a == b) return K(1, 1);
        if (isK(b)) {
            if (b->k > a->ub) return K(0, 1);
            if (w == 1) return b->k ? a : notE(a);
            if (a->op == ZEXT) return bin(EQo, a->a, K(b->k, a->a->w));
            if (a->op == SEXT) {
                u64 t = b->k & mask(a->a->w);
                if (((u64)sx(t, a->a->w) & mask(w)) != b->k) return K(0, 1);
                return bin(EQo, a->a, K(t, a->a->w));
            }
            if (a->op == ADDo && isK(a->b)) return bin(EQo, a->a, K(b->k - a->b->k, w));
            if (a->op == XORo && isK(a->b)) return bin(EQo, a->a, K(b->k ^ a->b->k, w));
            if (a->op == CONCAT)
                return bin(ANDo, bin(EQo, a->a, K(b->k >> a->b->w, a->a->w)), bin(EQo, a->b, K(b->k, a->b->w)));
            if (a->op == ITE && (isK(a->b) || isK(a->c))) return ite(a->a, bin(EQo, a->b, b), bin(EQo, a->c, b));
            if (a->op == ITE && iteK(a)) return mapIteCmp(EQo, a, b, false);
        } else if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(EQo, a->a, b->a);
        break;
    case ULT: case ULE:
        if (a == b) return K(op == ULE, 1);
        if (isK(b)) {
            if (op == ULT && b->k == 0) return K(0, 1);
            if (op == ULT ? a->ub < b->k : a->ub <= b->k) return K(1, 1);
            if (op == ULE && b->k == mask(w)) return K(1, 1);
            if (op == ULT && b->k == 1) return bin(EQo, a, K(0, w));
            if (op == ULE && b->k == 0) return bin(EQo, a, K(0, w));
            if (a->op == ZEXT && b->k <= mask(a->a->w)) return bin(op, a->a, K(b->k, a->a->w));
            if (a->op == ITE && iteK(a)) return mapIteCmp(op, a, b, false);
        }
        if (isK(a)) {
            if (op == ULT ? a->k >= b->ub : a->k > b->ub) return K(0, 1);
            if (op == ULE && a->k == 0) return K(1, 1);
            if (op == ULT && a->k == 0) return notE(bin(EQo, b, K(0, w)));
            if (b->op == ZEXT && a->k <= mask(b->a->w)) return bin(op, K(a->k, b->a->w), b->a);
            if (b->op == ITE && iteK(b)) return mapIteCmp(op, b, a, true);
        }
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
        break;
    case SLT: case SLE:
        if (a == b) return K(op == SLE, 1);
        if (w > 1 && !(a->ub >> (w - 1)) && !(b->ub >> (w - 1))) return bin(op == SLT ? ULT : ULE, a, b);
        // non-negative against a negative constant
        if (isK(b) && (b->k >> (w - 1)) && !(a->ub >> (w - 1))) return K(0, 1);
        if (isK(a) && (a->k >> (w - 1)) && !(b->ub >> (w - 1))) return K(1, 1);
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
        if (a->op == SEXT && isK(b)) {
            i64 v = sx(b->k, w), lo = sx(1ull << (a->a->w - 1), a->a->w), hi = (i64)mask(a->a->w - 1);
            if (v >= lo && v <= hi) return bin(op, a->a, K((u64)v, a->a->w));
        }
        if (isK(b) && iteK(a) && a->op == ITE) return mapIteCmp(op, a, b, false);
        if (isK(a) && iteK(b) && b->op == ITE) return mapIteCmp(op, b, a, true);
        break;
    case UDIV: case UREM: case SDIV: case SREM:
        if (isKv(b, 1)) return (op == UDIV || op == SDIV) ? a : K(0, w);
        break;
    default: break;
    }
    return mk(op, cmp ? 1 : w, a, b, 0, 0);
}

// ------------------------------------------------------------------ evaluation under the model
static u64 evalE(E *e)
{
    if (e->op == CONST) return e->k;
    if (e->op == VAR) return vars[e->k].val;
    if (e->gen == curgen) return e->ev;
    u64 r;
    switch (e->op) {
    case ITE: r = evalE(e->a) ? evalE(e->b) : evalE(e->c); break;
    case ZEXT: r = evalE(e->a); break;
    case SEXT: r = (u64)sx(evalE(e->a), e->a->w) & mask(e->w); break;
    case EXTRACT: r = (evalE(e->a) >> e->k) & mask(e->w); break;
    case CONCAT: r = (evalE(e->a) << e->b->w) | evalE(e->b); break;
    default: r = fold(e->op, e->a->w, evalE(e->a), evalE(e->b));
    }
    e->gen = curgen;
    e->ev = r;
    return r;
}

// ------------------------------------------------------------------ z3
static Z3_context ctx;
static Z3_solver solver;
static void z3err(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static void z3init()
{
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, z3err);
    solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, solver);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)opt_rlimit);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), (unsigned)seed);
    Z3_solver_set_params(ctx, solver, p);
    // constants of every width, created once
}
static Z3_ast toBool(Z3_ast a) { return a; }
static Z3_ast tr(E *e)
{
    if (e->z) return e->z;
    Z3_ast r;
    switch (e->op) {
    case CONST:
        if (e->w == 1) r = e->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        else r = Z3_mk_unsigned_int64(ctx, e->k, bvs(e->w));
        break;
    case VAR: {
        char n[64];
        snprintf(n, sizeof n, "v%d", (int)e->k);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), e->w == 1 ? Z3_mk_bool_sort(ctx) : bvs(e->w));
        break;
    }
    case ITE: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
    case ZEXT: case SEXT: {
        Z3_ast x = tr(e->a);
        unsigned from = e->a->w;
        if (from == 1) {
            r = Z3_mk_ite(ctx, x, Z3_mk_unsigned_int64(ctx, e->op == ZEXT ? 1 : mask(e->w), bvs(e->w)),
                          Z3_mk_unsigned_int64(ctx, 0, bvs(e->w)));
        } else
            r = e->op == ZEXT ? Z3_mk_zero_ext(ctx, e->w - from, x) : Z3_mk_sign_ext(ctx, e->w - from, x);
        break;
    }
    case EXTRACT:
        r = Z3_mk_extract(ctx, e->k + e->w - 1, e->k, tr(e->a));
        if (e->w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, bvs(1)));
        break;
    case CONCAT: {
        auto bv = [&](E *x) {
            Z3_ast t = tr(x);
            if (x->w == 1)
                t = Z3_mk_ite(ctx, t, Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1)));
            return t;
        };
        r = Z3_mk_concat(ctx, bv(e->a), bv(e->b));
        break;
    }
    default: {
        Z3_ast a = tr(e->a), b = tr(e->b);
        if (e->a->w == 1) {
            Z3_ast ab[2] = {a, b};
            switch (e->op) {
            case ANDo: case MULo: r = Z3_mk_and(ctx, 2, ab); break;
            case ORo: r = Z3_mk_or(ctx, 2, ab); break;
            case XORo: case ADDo: case SUBo: r = Z3_mk_xor(ctx, a, b); break;
            case EQo: r = Z3_mk_iff(ctx, a, b); break;
            case ULT: case SLE: { // a<b unsigned: !a & b ; signed <=: 1 is -1
                if (e->op == ULT) { Z3_ast q[2] = {Z3_mk_not(ctx, a), b}; r = Z3_mk_and(ctx, 2, q); }
                else { Z3_ast q[2] = {a, Z3_mk_not(ctx, b)}; r = Z3_mk_or(ctx, 2, q); }
                break;
            }
            case ULE: { Z3_ast q[2] = {Z3_mk_not(ctx, a), b}; r = Z3_mk_or(ctx, 2, q); break; }
            case SLT: { Z3_ast q[2] = {a, Z3_mk_not(ctx, b)}; r = Z3_mk_and(ctx, 2, q); break; }
            case UDIV: case SDIV: r = a; break;
            case UREM: case SREM: r = Z3_mk_false(ctx); break;
            case SHLo: case LSHR: { Z3_ast q[2] = {a, Z3_mk_not(ctx, b)}; r = Z3_mk_and(ctx, 2, q); break; }
            default: r = a; break;
            }
            break;
        }
        switch (e->op) {
        case ADDo: r = Z3_mk_bvadd(ctx, a, b); break;
        case SUBo: r = Z3_mk_bvsub(ctx, a, b); break;
        case MULo: r = Z3_mk_bvmul(ctx, a, b); break;
        case UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
        case SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
        case UREM: r = Z3_mk_bvurem(ctx, a, b); break;
        case SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
        case ANDo: r = Z3_mk_bvand(ctx, a, b); break;
        case ORo: r = Z3_mk_bvor(ctx, a, b); break;
        case XORo: r = Z3_mk_bvxor(ctx, a, b); break;
        case SHLo: r = Z3_mk_bvshl(ctx, a, b); break;
        case LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
        case ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
        case EQo: r = Z3_mk_eq(ctx, a, b); break;
        case ULT: r = Z3_mk_bvult(ctx, a, b); break;
        case ULE: r = Z3_mk_bvule(ctx, a, b); break;
        case SLT: r = Z3_mk_bvslt(ctx, a, b); break;
        default: r = Z3_mk_bvsle(ctx, a, b); break;
        }
    }
    }
    e->z = r;
    return r;
}

// path condition
struct PcNode { E *e; };
static PcNode pc[100000];
static int npc = 0, npcAsserted = 0;
static u64 depth = 0, lsteps = 0;

static bool domSingle(E *c, u64 out[4])
{
    // out: the values of the only variable of c, within its current domain, that make c true
    Var &v = vars[c->sv];
    u64 save = v.val;
    for (int i = 0; i < 4; i++) out[i] = 0;
    for (int i = 0; i < 256; i++)
        if (v.dom[i / 64] >> (i % 64) & 1) {
            v.val = v.dombase + i;
            curgen++;
            if (evalE(c)) out[i / 64] |= 1ull << (i % 64);
        }
    v.val = save;
    curgen++;
    return true;
}
static void markMulti(E *e)
{
    // every variable of e occurs in a constraint with several variables
    if (e->sv == -2) return;
    if (e->sv >= 0) { vars[e->sv].multi = true; return; }
    static E *stk[100000];
    static u32 stamp = 0;
    (void)stamp;
    int n = 0;
    curgen++;
    stk[n++] = e;
    while (n) {
        E *x = stk[--n];
        if (x->gen == curgen) continue;
        x->gen = curgen;
        x->ev = 0;
        if (x->sv >= 0) { vars[x->sv].multi = true; continue; }
        for (E *y : {x->a, x->b, x->c})
            if (y && y->sv != -2 && n < 99990) stk[n++] = y;
    }
    curgen++;
}
// the variables of e, if there are at most max of them
static int varsOf(E *e, int *out, int max)
{
    static E *stk[100000];
    int n = 0, k = 0;
    curgen++;
    stk[n++] = e;
    while (n) {
        E *x = stk[--n];
        if (x->gen == curgen) continue;
        x->gen = curgen;
        x->ev = 0;
        if (x->sv >= 0) {
            bool f = false;
            for (int i = 0; i < k; i++) f |= out[i] == x->sv;
            if (!f) {
                if (k == max) { curgen++; return -1; }
                out[k++] = x->sv;
            }
            continue;
        }
        for (E *y : {x->a, x->b, x->c})
            if (y && y->sv != -2) {
                if (n >= 99990) { curgen++; return -1; }
                stk[n++] = y;
            }
    }
    curgen++;
    return k;
}
// constraints with several variables; those with more than four, or variables without a domain, are left to z3
struct MultiPc { E *e; int k; int v[4]; };
static MultiPc mpc[4096];
static int nmpc = 0;
static void assertPc(E *c)
{
    if (isK(c)) return;
    if (c->op == ANDo && c->w == 1) { assertPc(c->a); assertPc(c->b); return; }
    if (npc < 100000) pc[npc++].e = c;
    notE(c)->dead = true;
    if (c->sv >= 0 && vars[c->sv].hasdom) {
        u64 d[4];
        domSingle(c, d);
        memcpy(vars[c->sv].dom, d, sizeof d);
    } else if (c->sv == -1) {
        markMulti(c);
        if (nmpc < 4096) {
            mpc[nmpc].e = c;
            mpc[nmpc].k = varsOf(c, mpc[nmpc].v, 4);
        }
        nmpc++;
    } else if (c->sv >= 0)
        vars[c->sv].big = true;
    depth++;
}
static u64 tmpModel[MAXVAR];
// Decides c together with the constraints connected to it by enumerating the finite domains of their variables:
// 0 c cannot hold, 1 it can (tmpModel set), -1 not decided
static int domDecide(E *c)
{
    enum { MAXV = 8, MAXP = 1024 };
    int vs[MAXV], k;
    k = varsOf(c, vs, 4);
    if (k <= 0) return -1;
    static u8 val[MAXV][256];
    int cnt[MAXV];
    u64 prod = 1;
    auto count = [&](int i) {
        Var &v = vars[vs[i]];
        if (!v.hasdom) return false;
        cnt[i] = 0;
        for (int b = 0; b < 256; b++)
            if (v.dom[b / 64] >> (b % 64) & 1) val[i][cnt[i]++] = (u8)b;
        prod *= cnt[i];
        return prod <= MAXP;
    };
    for (int i = 0; i < k; i++)
        if (!count(i)) return -1;
    static E *cs[256];
    int ncs = 0;
    auto search = [&]() {
        int idx[MAXV] = {0};
        u64 save[MAXV];
        for (int i = 0; i < k; i++) save[i] = vars[vs[i]].val;
        bool any = false;
        for (;;) {
            for (int i = 0; i < k; i++) vars[vs[i]].val = vars[vs[i]].dombase + val[i][idx[i]];
            curgen++;
            any = evalE(c);
            for (int i = ncs; any && i-- > 0;) any = evalE(cs[i]);
            if (any) break;
            int i = 0;
            while (i < k && ++idx[i] == cnt[i]) idx[i++] = 0;
            if (i == k) break;
        }
        if (any) {
            u64 found[MAXV];
            for (int i = 0; i < k; i++) found[i] = vars[vs[i]].val;
            for (int i = 0; i < k; i++) vars[vs[i]].val = save[i];
            for (int i = 0; i < nvars; i++) tmpModel[i] = vars[i].val;
            for (int i = 0; i < k; i++) tmpModel[vs[i]] = found[i];
        }
        for (int i = 0; i < k; i++) vars[vs[i]].val = save[i];
        curgen++;
        return any;
    };
    if (!search()) return 0; // not even without the connected constraints
    // closure
    if (nmpc >= 4096) return -1;
    static bool in[4096];
    for (int i = 0; i < nmpc; i++) in[i] = false;
    bool ch = true;
    while (ch) {
        ch = false;
        for (int i = 0; i < nmpc; i++)
            if (!in[i]) {
                if (mpc[i].k < 0) return -1;
                bool touch = false;
                for (int a = 0; a < mpc[i].k; a++)
                    for (int b = 0; b < k; b++) touch |= mpc[i].v[a] == vs[b];
                if (!touch) continue;
                in[i] = ch = true;
                if (ncs == 256) return -1;
                cs[ncs++] = mpc[i].e;
                for (int a = 0; a < mpc[i].k; a++) {
                    bool f = false;
                    for (int b = 0; b < k; b++) f |= mpc[i].v[a] == vs[b];
                    if (f) continue;
                    if (k == MAXV) return -1;
                    vs[k++] = mpc[i].v[a];
                    if (!count(k - 1)) return -1;
                }
            }
    }
    for (int i = 0; i < k; i++)
        if (vars[vs[i]].big) return -1;
    return search() ? 1 : 0;
}
static void pushPending()
{
    while (npcAsserted < npc) {
        Z3_solver_assert(ctx, solver, tr(pc[npcAsserted].e));
        npcAsserted++;
    }
}
static void logUnknown(const char *what)
{
    ADD(unknown, 1);
    fprintf(stderr, "solver: unknown (%s)\n", what);
}
// is pc /\ c satisfiable?  fills tmpModel when it is
static bool feasible(E *c, bool useZ3 = false)
{
    if (isK(c)) {
        if (!c->k) return false;
        for (int i = 0; i < nvars; i++) tmpModel[i] = vars[i].val;
        return true;
    }
    if (c->dead) return false; // the path condition only grows
    if (!opt_nodom && !useZ3 && c->sv >= 0 && vars[c->sv].hasdom && !vars[c->sv].multi) {
        u64 d[4];
        domSingle(c, d);
        ADD(domq, 1);
        int pick = -1;
        for (int i = 0; i < 256 && pick < 0; i++)
            if (d[i / 64] >> (i % 64) & 1) pick = i;
        bool r = pick >= 0;
        if (opt_xcheck) {
            pushPending();
            Z3_solver_push(ctx, solver);
            Z3_solver_assert(ctx, solver, tr(c));
            Z3_lbool z = Z3_solver_check(ctx, solver);
            Z3_solver_pop(ctx, solver, 1);
            if ((z == Z3_L_TRUE) != r) { fprintf(stderr, "ENGINE: domain/z3 disagreement\n"); ADD(unknown, 1000000); }
        }
        if (!r) { c->dead = true; return false; }
        for (int i = 0; i < nvars; i++) tmpModel[i] = vars[i].val;
        tmpModel[c->sv] = vars[c->sv].dombase + pick;
        return true;
    }
    int dd = !opt_nodom && !useZ3 ? domDecide(c) : -1;
    if (dd >= 0) {
        // z3 confirms a sample of these decisions, and all of them in the thorough tier
        if (ADD(domq, 1) % 256 == 0 || opt_xcheck) {
            ADD(queries, 1);
            pushPending();
            Z3_solver_push(ctx, solver);
            Z3_solver_assert(ctx, solver, tr(c));
            if ((Z3_solver_check(ctx, solver) == Z3_L_TRUE) != (dd == 1)) { fprintf(stderr, "ENGINE: domain/z3 disagreement\n"); ADD(unknown, 1000000); }
            Z3_solver_pop(ctx, solver, 1);
        }
        if (!dd) c->dead = true;
        return dd == 1;
    }
    double t0 = now();
    pushPending();
    Z3_solver_push(ctx, solver);
    Z3_solver_assert(ctx, solver, tr(c));
    Z3_lbool z = Z3_solver_check(ctx, solver);
    ADD(queries, 1);
    bool r = false;
    if (z == Z3_L_TRUE) {
        ADD(sat, 1);
        r = true;
        Z3_model m = Z3_solver_get_model(ctx, solver);
        Z3_model_inc_ref(ctx, m);
        for (int i = 0; i < nvars; i++) {
            tmpModel[i] = vars[i].val;
            if (!varE[i]->z) continue;
            Z3_ast v;
            if (!Z3_model_eval(ctx, m, varE[i]->z, false, &v)) continue;
            if (vars[i].w == 1) {
                Z3_lbool b = Z3_get_bool_value(ctx, v);
                if (b != Z3_L_UNDEF) tmpModel[i] = b == Z3_L_TRUE;
            } else if (Z3_get_ast_kind(ctx, v) == Z3_NUMERAL_AST) {
                uint64_t q;
                if (Z3_get_numeral_uint64(ctx, v, &q)) tmpModel[i] = q;
            }
        }
        Z3_model_dec_ref(ctx, m);
    } else if (z == Z3_L_FALSE) {
        ADD(unsat, 1);
        c->dead = true;
    } else
        logUnknown(Z3_solver_get_reason_unknown(ctx, solver));
    Z3_solver_pop(ctx, solver, 1);
    ADD(solver_us, (now() - t0) * 1e6);
    if (r) {
        // the model must satisfy the condition in our own evaluator as well: a disagreement is an engine error
        u64 save[MAXVAR];
        for (int i = 0; i < nvars; i++) { save[i] = vars[i].val; vars[i].val = tmpModel[i]; }
        curgen++;
        bool ok = evalE(c);
        for (int i = 0; ok && i < npc; i++) ok = evalE(pc[i].e);
        for (int i = 0; i < nvars; i++) vars[i].val = save[i];
        curgen++;
        if (!ok) { fprintf(stderr, "ENGINE: z3 model does not satisfy the path condition\n"); ADD(unknown, 1000000); }
    }
    return r;
}
static void takeModel()
{
    for (int i = 0; i < nvars; i++) vars[i].val = tmpModel[i];
    curgen++;
}

// ------------------------------------------------------------------ path end
struct Obs { const char *tag; E *e; u64 v; };
static Obs obs[20000];
static int nobs = 0;
static bool haveToken = true; // this process owns a token
static const char *exitExpected = nullptr;
static int doneExit = 0;

static void scratchDrop();
static void scratchFork();
static char scratch[300];
static void finish()
{
    scratchDrop();
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    ADD(cpu_us, ru.ru_utime.tv_sec * 1000000ull + ru.ru_utime.tv_usec + ru.ru_stime.tv_sec * 1000000ull + ru.ru_stime.tv_usec);
    if (depth > sh->maxdepth) sh->maxdepth = depth;
    if (haveToken) sem_post(&sh->tokens);
    _exit(0);
}
static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static void dumpModel(FILE *f, const char *kind, const char *msg)
{
    fprintf(f, "{\"kind\":");
    jstr(f, kind);
    fprintf(f, ",\"message\":");
    jstr(f, msg);
    fprintf(f, ",\"vars\":[");
    for (int i = 0; i < nvars; i++) {
        fprintf(f, "%s[", i ? "," : "");
        jstr(f, vars[i].name);
        fprintf(f, ",%llu]", (unsigned long long)vars[i].val);
    }
    fprintf(f, "],\"obs\":[");
    for (int i = 0; i < nobs; i++) {
        fprintf(f, "%s[", i ? "," : "");
        jstr(f, obs[i].tag);
        fprintf(f, ",%llu]", (unsigned long long)(obs[i].e ? evalE(obs[i].e) : obs[i].v));
    }
    fprintf(f, "]}\n");
}
static char knownPat[64][160];
static int nKnown = 0;
static bool isKnown(const char *msg)
{
    for (int i = 0; i < nKnown; i++)
        if (strncmp(msg, knownPat[i], strlen(knownPat[i])) == 0) return true;
    return false;
}
static bool replaying = false;
static void violation(const char *kind, const char *msg)
{
    if (replaying) { printf("FAIL %s\n", msg); fflush(stdout); return; }
    bool known = isKnown(msg);
    if (known) ADD(knownviol, 1); else ADD(viol, 1);
    // one file per distinct message (first few)
    while (!__sync_bool_compare_and_swap(&sh->lock, 0, 1)) usleep(50);
    int same = 0;
    for (u64 i = 0; i < sh->nviol; i++)
        if (strncmp(sh->violmsg[i], msg, 150) == 0) same++;
    int slot = -1;
    if (same < 2 && sh->nviol < MAXVIOL) {
        slot = sh->nviol;
        strncpy(sh->violmsg[slot], msg, 150);
        sh->nviol++;
    }
    sh->lock = 0;
    if (slot >= 0) {
        char fn[512];
        snprintf(fn, sizeof fn, "%s/viol_%d.json", outdir, slot);
        FILE *f = fopen(fn, "w");
        if (f) { dumpModel(f, kind, msg); fclose(f); }
    }
    if (!known && sh->viol >= 6) sh->stop = 1;
}
static void endPath()
{
    if (replaying) {
        for (int i = 0; i < nobs; i++) printf("OBS %s %llu\n", obs[i].tag, (unsigned long long)obs[i].v);
        printf("DONE\n");
        fflush(stdout);
        finish();
    }
    if (npc && (sh->paths < 1500 || sh->paths % 32 == 0)) {
        // the whole condition of a path goes to the solver (each of the first 1500, then one in 32): it confirms the
        // byte-domain shortcuts taken on the way
        double t0 = now();
        pushPending();
        Z3_lbool z = Z3_solver_check(ctx, solver);
        ADD(queries, 1);
        ADD(pathq, 1);
        ADD(solver_us, (now() - t0) * 1e6);
        if (z == Z3_L_TRUE) ADD(sat, 1);
        else if (z == Z3_L_FALSE) { ADD(unsat, 1); fprintf(stderr, "ENGINE: completed path is infeasible\n"); ADD(unknown, 1000000); }
        else logUnknown("path condition");
    }
    u64 n = ADD(paths, 1);
    // reservoir sample of explored paths, replayed natively afterwards
    u64 h = seed * 0x9e3779b97f4a7c15ull;
    for (int i = 0; i < nvars; i++) h = (h ^ vars[i].val) * 0xbf58476d1ce4e5b9ull + 0x94d049bb133111ebull;
    h ^= h >> 31;
    u64 slot = n < opt_maxsamples ? n : h % (n + 1);
    if (slot < opt_maxsamples) {
        char fn[512], fn2[512];
        snprintf(fn, sizeof fn, "%s/sample_%llu.json.%d", outdir, (unsigned long long)slot, getpid());
        snprintf(fn2, sizeof fn2, "%s/sample_%llu.json", outdir, (unsigned long long)slot);
        FILE *f = fopen(fn, "w");
        if (f) { dumpModel(f, "path", ""); fclose(f); rename(fn, fn2); }
    }
    finish();
}

static void armTimer()
{
    itimerval it = {};
    it.it_value.tv_sec = opt_hang;
    setitimer(ITIMER_PROF, &it, 0);
}
static u64 forkDepth = 0;
static int opt_prof = 0;
#include <execinfo.h>
extern "C" char __executable_start;
// both sides feasible: returns true in the process that takes the other side (model in tmpModel)
static bool doFork()
{
    ADD(forks, 1);
    if (opt_prof) {
        // where forks come from: return addresses, resolved offline
        void *bt[24];
        int n = backtrace(bt, 24);
        char b[600];
        int k = 0;
        for (int i = 1; i < n; i++) k += snprintf(b + k, sizeof b - k, "%lx ", (long)bt[i] - (long)&__executable_start);
        b[k++] = '\n';
        (void)!syscall(SYS_write, opt_prof, b, k);
    }
    if (sh->stop || now() > sh->deadline) {
        ADD(truncated, 1);
        return false;
    }
    bool tok = sem_trywait(&sh->tokens) == 0;
    fflush(0);
    u64 keep[MAXVAR];
    (void)keep;
    pid_t p;
    int ready[2] = {-1, -1}; // the child says when it has its copy of the scratch directory
    if (scratch[0] && pipe(ready)) ready[0] = ready[1] = -1;
    for (int tries = 0;; tries++) {
        p = fork();
        if (p >= 0) break;
        if (tries > 200) { ADD(truncated, 1); if (ready[0] >= 0) { close(ready[0]); close(ready[1]); } if (tok) sem_post(&sh->tokens); return false; }
        usleep(20000);
    }
    if (p == 0) {
        haveToken = tok;
        forkDepth++;
        prctl(PR_SET_PDEATHSIG, 0);
        takeModel();
        armTimer();
        scratchFork();
        if (ready[0] >= 0) {
            close(ready[0]);
            close(ready[1]);
        }
        return true;
    }
    if (ready[0] >= 0) {
        close(ready[1]);
        char c;
        while (syscall(SYS_read, ready[0], &c, 1) < 0 && errno == EINTR) {}
        close(ready[0]);
    }
    if (!tok) {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) ADD(truncated, 1000);
    }
    return false;
}
static bool branchOn(E *c)
{
    ADD(branches, 1);
    bool cur = evalE(c) & 1;
    E *other = cur ? notE(c) : c;
    if (!feasible(other)) return cur;
    if (doFork()) {
        assertPc(other);
        return !cur;
    }
    assertPc(cur ? c : notE(c));
    return cur;
}
static u64 concretize(E *e)
{
    if (isK(e)) return e->k;
    ADD(concs, 1);
    for (;;) {
        u64 v = evalE(e);
        E *eq = bin(EQo, e, K(v, e->w));
        if (branchOn(eq)) return v;
    }
}

// ------------------------------------------------------------------ shadow memory
enum { FBITS = 20 };
static u8 filt[1 << FBITS];
struct Pg { u64 no; E **s; };
enum { PGN = 1 << 16 };
static Pg pgs[PGN];
static inline bool fl(u64 a) { return filt[(a >> 12) & ((1 << FBITS) - 1)]; }
static E **page(u64 a, bool create)
{
    u64 no = a >> 12;
    u64 h = (no * 0x9e3779b97f4a7c15ull) >> 48;
    for (u32 i = 0; i < PGN; i++) {
        Pg &p = pgs[(h + i) % PGN];
        if (p.no == no) return p.s;
        if (!p.no) {
            if (!create) return 0;
            p.no = no;
            p.s = (E **)mmap(0, 4096 * sizeof(E *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            filt[no & ((1 << FBITS) - 1)] = 1;
            return p.s;
        }
    }
    abort();
}
static inline E *getb(u64 a)
{
    if (!fl(a)) return 0;
    E **p = page(a, false);
    return p ? p[a & 4095] : 0;
}
static inline void setb(u64 a, E *e)
{
    if (!e) {
        if (!fl(a)) return;
        E **p = page(a, false);
        if (p && p[a & 4095]) p[a & 4095] = 0;
        return;
    }
    page(a, true)[a & 4095] = isK(e) ? 0 : e;
    if (isK(e)) *(u8 *)a = (u8)e->k;
}
extern "C" void __sy_clr(void *p, u64 n)
{
    u64 a = (u64)p, e = a + n;
    while (a < e) {
        u64 pe = (a | 4095) + 1;
        u64 q = pe < e ? pe : e;
        if (fl(a)) {
            E **s = page(a, false);
            if (s) memset(s + (a & 4095), 0, (q - a) * sizeof(E *));
        }
        a = q;
    }
}
static E *loadE(u64 a, unsigned n)
{
    bool any = false;
    E *b[8];
    for (unsigned i = 0; i < n; i++) {
        b[i] = getb(a + i);
        if (b[i]) any = true;
    }
    if (!any) return 0;
    E *r = 0;
    for (unsigned i = 0; i < n; i++) {
        E *x = b[i] ? b[i] : K(*(u8 *)(a + i), 8);
        r = r ? concat(x, r) : x;
    }
    return r;
}
extern "C" void *__sy_ld(void *p, u32 bits)
{
    u64 a = (u64)p;
    unsigned n = (bits + 7) / 8;
    if (!fl(a) && !fl(a + n - 1)) return 0;
    E *r = loadE(a, n);
    if (!r) return 0;
    if (bits & 7) r = extract(r, 0, bits);
    if (isK(r)) {
        // folded to a constant: make memory concrete again
        u64 v = r->k;
        memcpy(p, &v, n);
        for (unsigned i = 0; i < n; i++) setb(a + i, 0);
        return 0;
    }
    return r;
}
extern "C" void *__sy_ldx(void *p, void *accv, u32 bits)
{
    E *acc = (E *)accv;
    if (!acc) return __sy_ld(p, bits);
    ADD(ldx, 1);
    unsigned n = (bits + 7) / 8;
    // enumerate every feasible offset with the solver
    E *res = 0;
    E *excl = K(1, 1);
    int cnt = 0;
    u64 cur = evalE(acc);
    for (;;) {
        E *eq = bin(EQo, acc, K(cur, acc->w));
        u64 a = (u64)p + cur;
        E *v = loadE(a, n);
        if (!v) {
            u64 t = 0;
            memcpy(&t, (void *)a, n);
            v = K(t, n * 8);
        }
        res = res ? ite(eq, v, res) : v;
        excl = bin(ANDo, excl, notE(eq));
        if (++cnt > 600) { // too wide: fork over the values instead
            u64 off = concretize(acc);
            E *r = loadE((u64)p + off, n);
            if (!r) { u64 t = 0; memcpy(&t, (void *)((u64)p + off), n); r = K(t, n * 8); }
            return (bits & 7) ? extract(r, 0, bits) : r;
        }
        if (!feasible(excl)) break;
        u64 save[MAXVAR];
        for (int i = 0; i < nvars; i++) { save[i] = vars[i].val; vars[i].val = tmpModel[i]; }
        curgen++;
        cur = evalE(acc);
        for (int i = 0; i < nvars; i++) vars[i].val = save[i];
        curgen++;
    }
    if (bits & 7) res = extract(res, 0, bits);
    return res; // a constant expression is fine: every consumer folds it
}
extern "C" void __sy_st(void *p, void *ev, u32 bits)
{
    E *e = (E *)ev;
    unsigned n = (bits + 7) / 8;
    u64 a = (u64)p;
    if (!e) {
        if (!fl(a) && !fl(a + n - 1)) return;
        for (unsigned i = 0; i < n; i++) setb(a + i, 0);
        return;
    }
    if (e->w < n * 8) e = zext(e, n * 8);
    for (unsigned i = 0; i < n; i++) {
        E *x = extract(e, i * 8, 8);
        setb(a + i, x);
    }
}
extern "C" void __sy_concmem(void *p, u64 n)
{
    u64 a = (u64)p;
    for (u64 i = 0; i < n; i++) {
        if (!fl(a + i)) {
            u64 pe = ((a + i) | 4095) + 1;
            i = pe - a - 1;
            continue;
        }
        E *e = getb(a + i);
        if (e) {
            u64 v = concretize(e);
            *(u8 *)(a + i) = (u8)v;
            setb(a + i, 0);
        }
    }
}
extern "C" void __sy_scan(void *p)
{
    u64 a = (u64)p;
    if (a < 4096) return;
    for (u64 i = 0; i < 512; i++) {
        if (!fl(a + i)) {
            u64 pe = ((a + i) | 4095) + 1;
            i = pe - a - 1;
            continue;
        }
        if (getb(a + i)) {
            ADD(scanhits, 1);
            __sy_concmem((void *)(a + i), 1);
        }
    }
}
static void raceCopy(void *d, void *s, u64 n, u64 pc);
extern "C" void __sy_memmove(void *d, void *s, u64 n)
{
    if (__sy_race) raceCopy(d, s, n, (u64)__builtin_return_address(0));
    memmove(d, s, n);
    u64 da = (u64)d, sa = (u64)s;
    bool any = false;
    for (u64 a = sa & ~4095ull; a < sa + n; a += 4096)
        if (fl(a)) any = true;
    if (!any) { __sy_clr(d, n); return; }
    if (da <= sa)
        for (u64 i = 0; i < n; i++) setb(da + i, getb(sa + i));
    else
        for (u64 i = n; i-- > 0;) setb(da + i, getb(sa + i));
}
extern "C" void __sy_memset(void *d, u8 v, void *s, u64 n)
{
    if (__sy_race) raceCopy(d, 0, n, (u64)__builtin_return_address(0));
    memset(d, v, n);
    if (!s) { __sy_clr(d, n); return; }
    for (u64 i = 0; i < n; i++) setb((u64)d + i, (E *)s);
}

// ------------------------------------------------------------------ operations called by instrumented code
static inline E *opE(void *s, u64 v, unsigned w) { return s ? (E *)s : K(v, w); }
static inline void *ret(E *e) { return e; }
// LLVM opcodes
static Op mapOp(unsigned o)
{
    switch (o) {
    case 13: return ADDo; case 15: return SUBo; case 17: return MULo; case 19: return UDIV; case 20: return SDIV;
    case 22: return UREM; case 23: return SREM; case 25: return SHLo; case 26: return LSHR; case 27: return ASHR;
    case 28: return ANDo; case 29: return ORo; case 30: return XORo;
    }
    fprintf(stderr, "bad opcode %u\n", o);
    abort();
}
extern "C" void *__sy_bin(u32 code, u64 a, void *sa, u64 b, void *sb)
{
    if (!sa && !sb) return 0;
    unsigned w = code >> 8;
    return bin(mapOp(code & 255), opE(sa, a, w), opE(sb, b, w));
}
static E *cmpE(unsigned pred, E *x, E *y)
{
    switch (pred) {
    case 32: return bin(EQo, x, y);
    case 33: return notE(bin(EQo, x, y));
    case 34: return bin(ULT, y, x);
    case 35: return bin(ULE, y, x);
    case 36: return bin(ULT, x, y);
    case 37: return bin(ULE, x, y);
    case 38: return bin(SLT, y, x);
    case 39: return bin(SLE, y, x);
    case 40: return bin(SLT, x, y);
    default: return bin(SLE, x, y);
    }
}
extern "C" void *__sy_cmp(u32 code, u64 a, void *sa, u64 b, void *sb)
{
    if (!sa && !sb) return 0;
    unsigned w = code >> 8;
    return cmpE(code & 255, opE(sa, a, w), opE(sb, b, w));
}
extern "C" void *__sy_cast(u32 code, void *sa)
{
    if (!sa) return 0;
    unsigned w = code >> 8;
    E *e = (E *)sa;
    switch (code & 255) {
    case 0: return zext(e, w);
    case 1: return sext(e, w);
    default: return extract(e, 0, w);
    }
}
extern "C" void *__sy_sel(u32 w, bool c, void *sc, u64 a, void *sa, u64 b, void *sb)
{
    if (!sc) return c ? sa : sb;
    if (isK((E *)sc)) return ((E *)sc)->k ? opE(sa, a, w) : opE(sb, b, w);
    return ite((E *)sc, opE(sa, a, w), opE(sb, b, w));
}
extern "C" bool __sy_br(bool c, void *sc)
{
    if (!sc) return c;
    E *e = (E *)sc;
    if (isK(e)) return e->k;
    return branchOn(e);
}
extern "C" u64 __sy_sw(u64 v, void *s, u64 *cases, u32 n)
{
    if (!s) return v;
    E *e = (E *)s;
    if (isK(e)) return e->k;
    // decide case by case, starting with the one of the current model
    for (;;) {
        u64 cur = evalE(e);
        bool isCase = false;
        for (u32 i = 0; i < n; i++)
            if (cases[i] == cur) isCase = true;
        if (isCase) {
            if (branchOn(bin(EQo, e, K(cur, e->w)))) return cur;
        } else {
            E *none = K(1, 1);
            for (u32 i = 0; i < n; i++) none = bin(ANDo, none, notE(bin(EQo, e, K(cases[i], e->w))));
            if (isK(none) ? none->k : branchOn(none)) return cur;
        }
    }
}
extern "C" u64 __sy_conc(u64 v, void *s)
{
    if (!s) return v;
    return concretize((E *)s);
}
extern "C" void *__sy_gep(void *acc, void *s, u64 scale)
{
    if (!s) return acc;
    E *e = bin(MULo, sext((E *)s, 64), K(scale, 64));
    return acc ? bin(ADDo, (E *)acc, e) : e;
}
extern "C" u64 __sy_divguard(u64 v, void *s)
{
    if (!s) return v;
    E *z = bin(EQo, (E *)s, K(0, ((E *)s)->w));
    bool zero = isK(z) ? z->k : branchOn(z);
    return zero ? 0 : 1;
}
extern "C" void *__sy_un(u32 code, void *s)
{
    if (!s) return 0;
    E *e = (E *)s;
    unsigned w = code >> 8;
    switch (code & 255) {
    case 0: return ite(bin(SLT, e, K(0, w)), bin(SUBo, K(0, w), e), e);
    case 1: {
        E *r = K(0, w);
        for (unsigned i = 0; i < w; i++) r = bin(ADDo, r, zext(extract(e, i, 1), w));
        return r;
    }
    case 2: {
        E *r = 0;
        for (unsigned i = 0; i < w / 8; i++) { E *x = extract(e, i * 8, 8); r = r ? concat(r, x) : x; }
        return r;
    }
    case 3: {
        E *r = K(w, w);
        for (unsigned i = 0; i < w; i++) r = ite(bin(EQo, extract(e, i, 1), K(1, 1)), K(w - 1 - i, w), r);
        return r;
    }
    default: {
        E *r = K(w, w);
        for (unsigned i = w; i-- > 0;) r = ite(bin(EQo, extract(e, i, 1), K(1, 1)), K(i, w), r);
        return r;
    }
    }
}
extern "C" void *__sy_fsh(u32 code, u64 a, void *sa, u64 b, void *sb, u64 c, void *sc)
{
    if (!sa && !sb && !sc) return 0;
    unsigned w = code >> 8;
    E *x = opE(sa, a, w), *y = opE(sb, b, w);
    u64 sft = (sc ? concretize((E *)sc) : c) % w;
    if ((code & 255) == 0) { // fshl
        if (!sft) return x;
        return bin(ORo, bin(SHLo, x, K(sft, w)), bin(LSHR, y, K(w - sft, w)));
    }
    if (!sft) return y;
    return bin(ORo, bin(SHLo, x, K(w - sft, w)), bin(LSHR, y, K(sft, w)));
}
extern "C" void *__sy_ovf(u32 code, u64 a, void *sa, u64 b, void *sb)
{
    if (!sa && !sb) return 0;
    unsigned w = (code >> 8) & 255;
    bool sg = code >> 16;
    Op op = mapOp(code & 255);
    E *x = opE(sa, a, w), *y = opE(sb, b, w);
    E *r = bin(op, x, y);
    if (!sg) {
        if (op == ADDo) return bin(ULT, r, x);
        if (op == SUBo) return bin(ULT, x, y);
        if (w <= 32) {
            E *f = bin(MULo, zext(x, w * 2), zext(y, w * 2));
            return bin(ULT, K(mask(w), w * 2), f);
        }
        // 64-bit: y != 0 && r / y != x
        return bin(ANDo, notE(bin(EQo, y, K(0, w))), notE(bin(EQo, bin(UDIV, r, y), x)));
    }
    E *xs = bin(SLT, x, K(0, w)), *ys = bin(SLT, y, K(0, w)), *rs = bin(SLT, r, K(0, w));
    if (op == ADDo) return bin(ANDo, bin(EQo, xs, ys), notE(bin(EQo, xs, rs)));
    if (op == SUBo) return bin(ANDo, notE(bin(EQo, xs, ys)), notE(bin(EQo, xs, rs)));
    if (w <= 32) {
        E *f = bin(MULo, sext(x, w * 2), sext(y, w * 2));
        return notE(bin(EQo, f, sext(r, w * 2)));
    }
    u64 cx = concretize(x);
    i64 o;
    u64 cy = concretize(y);
    return K(__builtin_mul_overflow((i64)cx, (i64)cy, &o), 1);
}

// ------------------------------------------------------------------ indirect calls
static void **regtab;
static u64 regcap;
static bool icExt = false;
static bool isReg(void *p)
{
    u64 h = ((u64)p >> 4) * 0x9e3779b97f4a7c15ull >> 40;
    for (u64 i = 0;; i++) {
        void *q = regtab[(h + i) % regcap];
        if (q == p) return true;
        if (!q) return false;
    }
}
struct IMap { void *from, *to; };
static IMap imap[64];
static int nimap = 0;
extern "C" void *__sy_icall(void *p)
{
    if (regtab && isReg(p)) { icExt = false; return p; }
    for (int i = 0; i < nimap; i++)
        if (imap[i].from == p) { icExt = false; return imap[i].to; }
    icExt = true;
    return p;
}
extern "C" u64 __sy_iconc(u64 v, void *s)
{
    if (!s || !icExt) return v;
    return concretize((E *)s);
}
extern "C" void __sy_iscan(void *p)
{
    if (icExt) __sy_scan(p);
}

// ------------------------------------------------------------------ memory allocation: fresh and freed memory is concrete
static void raceForget(void *p, u64 n);
static void raceFree(void *p, u64 n, u64 pc);
static void raceCopy(void *d, void *s, u64 n, u64 pc);
extern "C" void *malloc(size_t n)
{
    void *p = __libc_malloc(n);
    if (p) __sy_clr(p, n);
    if (p) raceForget(p, malloc_usable_size(p));
    return p;
}
extern "C" void free(void *p)
{
    if (p) __sy_clr(p, malloc_usable_size(p));
    if (p) raceFree(p, malloc_usable_size(p), (u64)__builtin_return_address(0));
    __libc_free(p);
}
extern "C" void *calloc(size_t a, size_t b)
{
    void *p = __libc_calloc(a, b);
    if (p) __sy_clr(p, a * b);
    if (p) raceForget(p, malloc_usable_size(p));
    return p;
}
extern "C" void *realloc(void *p, size_t n)
{
    if (!p) return malloc(n);
    size_t o = malloc_usable_size(p);
    bool any = false;
    for (u64 a = (u64)p & ~4095ull; a < (u64)p + o; a += 4096)
        if (fl(a)) any = true;
    if (!any) {
        raceFree(p, o, (u64)__builtin_return_address(0));
        void *q = __libc_realloc(p, n);
        if (q) __sy_clr(q, n);
        if (q) raceForget(q, malloc_usable_size(q));
        return q;
    }
    void *q = malloc(n);
    __sy_memmove(q, p, o < n ? o : n);
    free(p);
    return q;
}

// ------------------------------------------------------------------ symbolic file content
static E *placeholder[256];
extern "C" ssize_t read(int fd, void *buf, size_t n)
{
    ssize_t r = syscall(SYS_read, fd, buf, n);
    if (running && r > 0) {
        __sy_clr(buf, r);
        for (ssize_t i = 0; i < r; i++) {
            u8 c = ((u8 *)buf)[i];
            if (c >= 0x80 && placeholder[c]) {
                if (isK(placeholder[c])) ((u8 *)buf)[i] = (u8)placeholder[c]->k;
                else setb((u64)buf + i, placeholder[c]);
            }
        }
    }
    return r;
}

// ------------------------------------------------------------------ scratch directory: a private copy for every path
#include <dirent.h>
#include <sys/stat.h>

static void dropTree(const char *path)
{
    DIR *d = opendir(path);
    if (d) {
        while (dirent *e = readdir(d))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
                char b[900];
                snprintf(b, sizeof b, "%s/%s", path, e->d_name);
                if (e->d_type == DT_DIR) dropTree(b);
                else unlink(b);
            }
        closedir(d);
    }
    rmdir(path);
}
static void scratchDrop()
{
    if (!scratch[0]) return;
    dropTree(scratch);
    scratch[0] = 0;
}
static void scratchNew()
{
    static char abs[256];
    if (!abs[0] && !realpath(outdir, abs)) abort();
    snprintf(scratch, sizeof scratch, "%s/fs%d", abs, getpid());
    mkdir(scratch, 0700);
}
static void copyTree(const char *from, const char *to)
{
    DIR *d = opendir(from);
    if (!d) return;
    while (dirent *e = readdir(d))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
            char a[900], b[900];
            snprintf(a, sizeof a, "%s/%s", from, e->d_name);
            snprintf(b, sizeof b, "%s/%s", to, e->d_name);
            if (e->d_type == DT_DIR) {
                mkdir(b, 0700);
                copyTree(a, b);
                continue;
            }
            int i = open(a, O_RDONLY), o = open(b, O_WRONLY | O_CREAT | O_TRUNC, 0600);
            char buf[4096];
            ssize_t n;
            while ((n = syscall(SYS_read, i, buf, sizeof buf)) > 0) (void)!syscall(SYS_write, o, buf, n);
            close(i);
            close(o);
        }
    closedir(d);
}
static void scratchFork()
{
    if (!scratch[0]) return;
    char old[300];
    memcpy(old, scratch, sizeof old);
    scratchNew();
    copyTree(old, scratch);
    for (int fd = 3; fd < 64; fd++) {
        char l[64], t[600];
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(l, t, sizeof t - 1);
        if (n <= 0) continue;
        t[n] = 0;
        size_t ol = strlen(old);
        if (strncmp(t, old, ol) || t[ol] != '/') continue;
        int fl = fcntl(fd, F_GETFL);
        off_t off = lseek(fd, 0, SEEK_CUR);
        char b[900];
        snprintf(b, sizeof b, "%s%s", scratch, t + ol);
        int nf = open(b, fl & (O_ACCMODE | O_APPEND));
        if (nf < 0) continue;
        lseek(nf, off, SEEK_SET);
        dup2(nf, fd);
        close(nf);
    }
    if (chdir(scratch)) abort();
}
extern "C" void sy_scratch()
{
    scratchNew();
    if (chdir(scratch)) abort();
    __sy_ret_fn = 0;
}
// writes a file of the scratch directory; symbolic bytes are represented by placeholders, which read() turns back
static u8 placeFor(E *e)
{
    static int next = 0x80;
    for (int i = 0x80; i < next; i++)
        if (placeholder[i] == e) return (u8)i;
    if (next > 0xfe) { fprintf(stderr, "too many symbolic file bytes\n"); abort(); }
    placeholder[next] = e;
    return (u8)next++;
}
static char *withPlaceholders(const void *data, u64 n)
{
    char *buf = (char *)__libc_malloc(n + 1);
    for (u64 i = 0; i < n; i++) {
        E *e = getb((u64)data + i);
        u8 c = ((const u8 *)data)[i];
        buf[i] = e && !isK(e) ? placeFor(e) : c >= 0x80 ? placeFor(K(c, 8)) : c;
    }
    return buf;
}
// what the program writes to its files
extern "C" ssize_t write(int fd, const void *data, size_t n)
{
    if (!running || fd <= 2 || !scratch[0]) return syscall(SYS_write, fd, data, n);
    char *b = withPlaceholders(data, n);
    ssize_t r = syscall(SYS_write, fd, b, n);
    __libc_free(b);
    return r;
}
#include <sys/uio.h>
extern "C" ssize_t writev(int fd, const iovec *v, int k)
{
    ssize_t all = 0;
    for (int i = 0; i < k; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return all ? all : r;
        all += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return all;
}
extern "C" void sy_write_file(const char *name, const char *data, u64 n)
{
    char *buf = withPlaceholders(data, n);
    int o = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    u64 k = 0;
    while (k < n) {
        ssize_t r = syscall(SYS_write, o, buf + k, n - k);
        if (r <= 0) abort();
        k += r;
    }
    close(o);
    __libc_free(buf);
    __sy_ret_fn = 0;
}

// ------------------------------------------------------------------ threads as coroutines
struct Co {
    ucontext_t uc;
    void (*fn)(void *);
    void *arg;
    bool done, used;
    void *eh[2];
    int waiting; // coroutine it joins, or -1
    bool fresh;  // has not run yet
    u64 spun;    // value of progress at its last unsuccessful wait
    bool idle;   // waited twice without anything having changed: running it again changes nothing
    bool parked; // was put to sleep until nothing else can usefully run
    char *stk;
    char *tls[4];
    bool (*ready)(void *); // it waits until this holds
    void *readyArg;
    void *cond; // the condition variable it waits on
    u64 since; // shared operations since it was last switched to
};
enum { MAXCO = 64 };
static Co cos[MAXCO];
static int nco = 0, curco = 0;
static u64 yields = 0;
static int tlive = 0;        // threads that have been started and not been joined
static int schedBudget = -1; // >=0: symbolic scheduling with that many free switches
static int schedDecisions = 0;
static int schedRotate = 0; // >0: no decisions, but the threads take turns after that many shared operations each
static u64 progress = 1; // counts changes of shared state: queue operations, atomic writes, ends of threads
static bool useful(int j) { return !(cos[j].idle && cos[j].spun == progress); }

// thread-local variables of the program and of the C++ library (among them the exceptions being handled)
#include <link.h>
struct TlsBlock { char *at; const char *init; size_t ninit, n; };
static TlsBlock tls[4];
static int ntls = -1;
static int findTls(dl_phdr_info *i, size_t, void *)
{
    if (*i->dlpi_name && !strstr(i->dlpi_name, "libstdc++")) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &p = i->dlpi_phdr[k];
        if (p.p_type != PT_TLS || !i->dlpi_tls_data || ntls == 4) continue;
        tls[ntls++] = {(char *)i->dlpi_tls_data, (const char *)(i->dlpi_addr + p.p_vaddr), p.p_filesz, p.p_memsz};
    }
    return 0;
}
static void switchTo(int j)
{
    if (j == curco) return;
    int i = curco;
    void **g = (void **)(void *)abi::__cxa_get_globals();
    if (ntls < 0) { ntls = 0; dl_iterate_phdr(findTls, 0); }
    for (int k = 0; k < ntls; k++) {
        TlsBlock &t = tls[k];
        if (!cos[i].tls[k]) cos[i].tls[k] = (char *)__libc_malloc(t.n);
        memcpy(cos[i].tls[k], t.at, t.n);
    }
    cos[i].eh[0] = g[0];
    cos[i].eh[1] = g[1];
    curco = j;
    for (int k = 0; k < ntls; k++) {
        TlsBlock &t = tls[k];
        if (cos[j].fresh) {
            memcpy(t.at, t.init, t.ninit);
            memset(t.at + t.ninit, 0, t.n - t.ninit);
        } else
            memcpy(t.at, cos[j].tls[k], t.n);
    }
    g[0] = cos[j].eh[0];
    g[1] = cos[j].eh[1];
    swapcontext(&cos[i].uc, &cos[j].uc);
}
static bool runnable(int j)
{
    Co &c = cos[j];
    return c.used && !c.done && (c.waiting < 0 || cos[c.waiting].done) && (!c.ready || c.ready(c.readyArg));
}
static int nextRunnable()
{
    for (int k = 1; k <= nco; k++) {
        int j = (curco + k) % nco;
        if (j != curco && runnable(j) && useful(j) && !cos[j].parked) return j;
    }
    for (int k = 1; k <= nco; k++) {
        int j = (curco + k) % nco;
        if (j != curco && runnable(j) && useful(j)) return j;
    }
    for (int k = 1; k <= nco; k++) {
        int j = (curco + k) % nco;
        if (j != curco && runnable(j)) return j;
    }
    return -1;
}
extern "C" u64 sy_choice(const char *name, u64 n);
static u64 choiceImpl(const char *name, u64 n);
static void yieldPoint(bool hint)
{
    if (nco <= 1) return;
    if (++cos[curco].since > 20000) hint = true; // it spins: let the others run
    if (hint) cos[curco].since = 0;
    if (schedBudget >= 0) {
        // symbolic scheduler: switching costs one unit of budget, except when the thread is only waiting (hint)
        if (hint) {
            Co &c = cos[curco];
            c.idle = c.spun == progress;
            c.spun = progress;
            int j = nextRunnable();
            if (j >= 0 && schedBudget > 0) {
                // or it is slow, and all the others go on without it
                char nm[32];
                snprintf(nm, sizeof nm, "sched%d", schedDecisions++);
                if (choiceImpl(nm, 2)) { schedBudget--; c.parked = true; }
            }
            if (j >= 0) switchTo(j);
            c.parked = false;
            return;
        }
        int cand[MAXCO], n = 0;
        for (int j = 0; j < nco; j++) {
            if (j == curco || !runnable(j) || !useful(j)) continue;
            // threads that run the same function and have not started are interchangeable
            bool twin = false;
            for (int k = 0; k < j && cos[j].fresh; k++)
                twin |= k != curco && cos[k].used && !cos[k].done && cos[k].fresh && *(void **)cos[k].arg == *(void **)cos[j].arg;
            if (!twin && !cos[j].parked) cand[n++] = j;
        }
        if (!n) return;
        if (schedRotate) {
            if (++yields % schedRotate == 0) switchTo(nextRunnable());
            return;
        }
        if (schedBudget > 0) {
            char nm[32];
            snprintf(nm, sizeof nm, "sched%d", schedDecisions++);
            u64 c = choiceImpl(nm, n + 2);
            if (c) {
                schedBudget--;
                cos[curco].parked = c == (u64)n + 1;
                switchTo(cos[curco].parked ? nextRunnable() : cand[c - 1]);
                cos[curco].parked = false;
            }
        }
        return;
    }
    if (hint || ++yields % 64 == 0) {
        int j = nextRunnable();
        if (j >= 0) switchTo(j);
    }
}
extern "C" void __sy_yield(unsigned write)
{
    yieldPoint(false);
    progress += write;
}
extern "C" void sy_progress() { progress++; }

// ---- happens-before: vector clocks of the threads and of everything they synchronise on.  Two accesses to the same bytes,
// one of them a write, that no synchronisation orders are a data race.  Every atomic operation is taken to acquire and
// release what its kind (load, store, both) can, whatever its memory order: what is reported is a race in any case.
static u32 vclk[MAXCO][MAXCO];
static bool raceOff = false;
static inline bool raceOn() { return tlive > 0 && schedBudget >= 0 && !raceOff; }
static void vcJoin(u32 *d, const u32 *s)
{
    for (int i = 0; i < MAXCO; i++)
        if (s[i] > d[i]) d[i] = s[i];
}
struct SyncObj { u64 a; u32 vc[MAXCO]; };
enum { NSYNC = 1 << 14 };
static SyncObj *syncs;
static u32 *syncOf(u64 a)
{
    if (!syncs) syncs = (SyncObj *)mmap(0, sizeof(SyncObj) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    u64 h = (a * 0x9e3779b97f4a7c15ull) >> 50;
    for (u32 i = 0; i < NSYNC; i++) {
        SyncObj &o = syncs[(h + i) % NSYNC];
        if (o.a == a) return o.vc;
        if (!o.a) { o.a = a; return o.vc; }
    }
    abort();
}
extern "C" void __sy_sync(void *p, u32 kind)
{
    if (tlive == 0 || schedBudget < 0) return;
    u32 *s = syncOf((u64)p), *c = vclk[curco];
    if (kind == 0 || kind == 2) vcJoin(c, s);
    if (kind == 1 || kind == 2) { vcJoin(s, c); c[curco]++; }
}
struct AccEnt { u32 clk; u8 tid, mask, w, set; u64 pc; };
struct AccPage { u64 no; AccEnt (*g)[8]; };
static AccPage *accp;
static AccEnt (*accPage(u64 no, bool create))[8]
{
    if (!accp) {
        if (!create) return 0;
        accp = (AccPage *)mmap(0, sizeof(AccPage) * PGN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    u64 h = (no * 0x9e3779b97f4a7c15ull) >> 48;
    for (u32 i = 0; i < PGN; i++) {
        AccPage &p = accp[(h + i) % PGN];
        if (p.no == no) return p.g;
        if (!p.no) {
            if (!create) return 0;
            p.no = no;
            p.g = (AccEnt (*)[8])mmap(0, 512 * sizeof(AccEnt) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            return p.g;
        }
    }
    abort();
}
static void raceForget(void *p, u64 n)
{
    if (!accp || tlive == 0) return;
    for (u64 a = (u64)p & ~7ull; a < (u64)p + n; a += 8) {
        AccEnt (*g)[8] = accPage(a >> 12, false);
        if (!g) { a |= 4095 & ~7ull; continue; }
        memset(g[(a & 4095) >> 3], 0, sizeof *g);
    }
}
static void raceReport(u64 a, AccEnt &e, u32 w, u64 pc)
{
    if (getenv("SY_RACE_DEBUG")) {
        extern char __executable_start;
        fprintf(stderr, "race at %lx: thread %d %s pc %lx, thread %d %s pc %lx\n", (long)a, e.tid, e.w ? "writes" : "reads",
                (long)(e.pc - (u64)&__executable_start), curco, w ? "writes" : "reads", (long)(pc - (u64)&__executable_start));
    }
    if (getenv("SY_RACE_DEBUG")) { Dl_info di; if (dladdr((void *)a, &di)) fprintf(stderr, "in %s %s\n", di.dli_fname, di.dli_sname); }
    violation("race", "a data race: two threads use the same object and nothing orders them");
    finish();
}
static void raceAccess(u64 a, u64 n, u32 w, u64 pc)
{
    u32 *c = vclk[curco];
    for (u64 g = a & ~7ull; g < a + n; g += 8) {
        u64 lo = g < a ? a - g : 0, hi = a + n - g < 8 ? a + n - g : 8;
        u8 m = (u8)((0xff << lo) & (0xff >> (8 - hi)));
        AccEnt *t = accPage(g >> 12, true)[(g & 4095) >> 3];
        int slot = -1, old = -1, fre = -1;
        for (int i = 0; i < 8; i++) {
            AccEnt &e = t[i];
            if (!e.set) { if (fre < 0) fre = i; continue; }
            if (e.tid == curco) {
                if ((e.w == w && e.mask == m) || (w && !(e.mask & ~m))) slot = i;
                continue;
            }
            bool ordered = e.clk <= c[e.tid];
            if (!ordered && (e.mask & m) && (w || e.w)) raceReport(g, e, w, pc);
            if (ordered && !(e.mask & ~m) && (w || !e.w)) old = i;
        }
        if (slot < 0) slot = old >= 0 ? old : fre >= 0 ? fre : (int)(pc & 7);
        AccEnt &e = t[slot];
        e.clk = c[curco]; e.tid = curco; e.mask = m; e.w = w; e.set = 1; e.pc = pc;
    }
}
// the memory of an object is given back: a write.  Only in builds that report their accesses.
static void raceFree(void *p, u64 n, u64 pc)
{
    if (!__sy_race || !raceOn()) return;
    raceAccess((u64)p, n, 1, pc);
    raceForget(p, n);
}
static void raceCopy(void *d, void *s, u64 n, u64 pc)
{
    if (!raceOn() || !n) return;
    if (s) raceAccess((u64)s, n, 0, pc);
    raceAccess((u64)d, n, 1, pc);
}
extern "C" void __sy_acc(void *p, u32 k)
{
    if (!raceOn()) return;
    raceAccess((u64)p, k >> 1, k & 1, (u64)__builtin_return_address(0));
}
// an operation of a queue: one atomic step that synchronises like the queue does
extern "C" void sy_race_off(void *p, u32 kind) { __sy_sync(p, kind); raceOff = true; }
extern "C" void sy_race_on() { raceOff = false; }
static void raceCreate(int id)
{
    tlive++;
    u32 own = vclk[id][id];
    vcJoin(vclk[id], vclk[curco]);
    vclk[id][id] = own + 1;
    vclk[curco][curco]++;
}
static void raceJoin(int id)
{
    tlive--;
    vcJoin(vclk[curco], vclk[id]);
}
extern "C" void sy_yield_hint() { yieldPoint(true); }
extern "C" void sy_yield() { yieldPoint(false); }
extern "C" void sy_sched(int budget) { schedBudget = budget; schedRotate = 0; }
extern "C" void sy_rotate(int every) { schedBudget = 0; schedRotate = every; yields = 0; }
static void coMain(int id)
{
    cos[id].fresh = false;
    cos[id].fn(cos[id].arg);
    cos[id].done = true;
    progress++;
    int j = nextRunnable();
    if (j < 0) { violation("deadlock", "deadlock: no runnable thread"); finish(); }
    switchTo(j);
    abort();
}
static char *newStack(size_t sz)
{
    return (char *)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static int coCreate(void (*fn)(void *), void *arg)
{
    if (nco == 0) { nco = 1; cos[0].used = true; cos[0].waiting = -1; }
    int id = -1;
    for (int j = 1; j < nco; j++)
        if (!cos[j].used) { id = j; break; }
    if (id < 0) {
        if (nco >= MAXCO) abort();
        id = nco++;
    }
    Co &c = cos[id];
    c.ready = 0; c.cond = 0; c.since = 0;
    c.fresh = true; c.spun = 0; c.idle = false; c.parked = false;
    c.used = true; c.done = false; c.waiting = -1; c.fn = fn; c.arg = arg; c.eh[0] = c.eh[1] = 0;
    size_t sz = 16 << 20;
    if (!c.stk) c.stk = newStack(sz);
    getcontext(&c.uc);
    c.uc.uc_stack.ss_sp = c.stk;
    c.uc.uc_stack.ss_size = sz;
    c.uc.uc_link = 0;
    makecontext(&c.uc, (void (*)())coMain, 1, id);
    raceCreate(id);
    return id;
}
static void coJoin(int id)
{
    while (!cos[id].done) {
        cos[curco].waiting = id;
        int j = nextRunnable();
        if (j < 0) { violation("deadlock", "deadlock: join never returns"); finish(); }
        switchTo(j);
        cos[curco].waiting = -1;
    }
    cos[curco].waiting = -1;
    cos[id].used = false;
    raceJoin(id);
}
// ---- what threads wait for: locks, condition variables, once flags and initialisation guards
#include <pthread.h>
#include <errno.h>
#include <chrono>
static void syncOp(void *p, u32 kind) { __sy_sync(p, kind); }
// the thread goes on when the condition holds
static void block(bool (*ready)(void *), void *arg, const char *what)
{
    while (!ready(arg)) {
        cos[curco].ready = ready;
        cos[curco].readyArg = arg;
        int j = tlive ? nextRunnable() : -1;
        if (j < 0) { violation("deadlock", what); finish(); }
        switchTo(j);
        cos[curco].ready = 0;
    }
    cos[curco].ready = 0;
}
static const char *const kNeverFree = "deadlock: a lock is never released";
static bool unlocked(void *m) { return !((pthread_mutex_t *)m)->__data.__lock; }
static bool again(pthread_mutex_t *m)
{
    if (m->__data.__lock != curco + 1 || (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE_NP) return false;
    m->__data.__count++;
    return true;
}
static void take(pthread_mutex_t *m)
{
    m->__data.__lock = curco + 1;
    syncOp(m, 0);
}
// the solver has locks of its own
static u64 z3lo, z3hi;
static int findZ3(dl_phdr_info *i, size_t, void *)
{
    if (!strstr(i->dlpi_name, "libz3")) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            if (!z3lo) z3lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            z3hi = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
        }
    return 0;
}
static inline bool solvers(void *ra)
{
    if (!z3hi) { z3hi = 1; dl_iterate_phdr(findZ3, 0); }
    return (u64)ra >= z3lo && (u64)ra < z3hi;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    if (solvers(__builtin_return_address(0))) return 0;
    if (tlive) yieldPoint(false);
    if (m->__data.__lock) return again(m) ? 0 : EBUSY;
    take(m);
    return 0;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    if (solvers(__builtin_return_address(0))) return 0;
    if (tlive) yieldPoint(false);
    if (again(m)) return 0;
    block(unlocked, m, kNeverFree);
    take(m);
    return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    if (solvers(__builtin_return_address(0))) return 0;
    if (m->__data.__count) { m->__data.__count--; return 0; }
    syncOp(m, 1);
    m->__data.__lock = 0;
    return 0;
}
// readers-writer locks: __readers counts readers, __cur_writer holds the writer
static bool noWriter(void *l) { return !((pthread_rwlock_t *)l)->__data.__cur_writer; }
static bool nobody(void *l) { return noWriter(l) && !((pthread_rwlock_t *)l)->__data.__readers; }
static int rw(pthread_rwlock_t *l, bool write, bool wait)
{
    if (tlive) yieldPoint(false);
    bool (*ready)(void *) = write ? nobody : noWriter;
    if (!wait && !ready(l)) return EBUSY;
    block(ready, l, kNeverFree);
    if (write) l->__data.__cur_writer = curco + 1;
    else l->__data.__readers++;
    syncOp(l, 0);
    return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { return rw(l, false, true); }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { return rw(l, true, true); }
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept { return rw(l, false, false); }
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept { return rw(l, true, false); }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept
{
    syncOp(l, 1);
    if (l->__data.__cur_writer) l->__data.__cur_writer = 0;
    else l->__data.__readers--;
    return 0;
}
// condition variables: a thread waits until it is woken; a wait with a time limit may end at any time
static bool woken(void *co) { return !((Co *)co)->cond; }
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    cos[curco].cond = c;
    pthread_mutex_unlock(m);
    block(woken, &cos[curco], "deadlock: a condition variable is never signalled");
    return pthread_mutex_lock(m);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *m, const timespec *)
{
    pthread_mutex_unlock(m);
    if (tlive) yieldPoint(true);
    pthread_mutex_lock(m);
    return ETIMEDOUT;
}
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *t) { return pthread_cond_timedwait(c, m, t); }
static int wake(pthread_cond_t *c, bool all)
{
    for (int j = 0; j < nco; j++)
        if (cos[j].used && cos[j].cond == c) {
            cos[j].cond = 0;
            if (!all) break;
        }
    progress++;
    return 0;
}
extern "C" int pthread_cond_signal(pthread_cond_t *c) noexcept { return wake(c, false); }
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) noexcept { return wake(c, true); }
// 0: not run, 1: running, 2: done
static bool onceIdle(void *o) { return *(volatile int *)o != 1; }
extern "C" int pthread_once(pthread_once_t *o, void (*f)())
{
    volatile int *s = (int *)o;
    block(onceIdle, o, "deadlock: a once routine waits for itself");
    if (*s == 0) {
        *s = 1;
        try { f(); } catch (...) { *s = 0; throw; }
        *s = 2;
        progress++;
        syncOp(o, 1);
    } else
        syncOp(o, 0);
    return 0;
}
// what std::future waits on: a word that changes
extern "C" bool futexWait(void *, u32 *a, u32 v, bool, std::chrono::seconds, std::chrono::nanoseconds) __asm__(
    "_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
struct FutexArg { volatile u32 *a; u32 v; };
static bool futexReady(void *x) { return *((FutexArg *)x)->a != ((FutexArg *)x)->v; }
extern "C" bool futexWait(void *, u32 *a, u32 v, bool, std::chrono::seconds, std::chrono::nanoseconds)
{
    FutexArg x = {a, v};
    block(futexReady, &x, "deadlock: a future never gets its value");
    return true;
}
extern "C" void futexWake(u32 *) __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
extern "C" void futexWake(u32 *) { progress++; }
extern "C" int sched_yield() noexcept { if (tlive) yieldPoint(true); return 0; }
extern "C" int nanosleep(const timespec *, timespec *) { if (tlive) yieldPoint(true); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const timespec *, timespec *) { if (tlive) yieldPoint(true); return 0; }
// the guard of a static object: byte 0 says that it is initialised, byte 1 that a thread is at it
static bool guardIdle(void *g) { return ((volatile u8 *)g)[0] || !((volatile u8 *)g)[1]; }
extern "C" int guardAcquire(u8 *g) __asm__("__cxa_guard_acquire");
extern "C" int guardAcquire(u8 *g)
{
    block(guardIdle, g, "deadlock: an initialisation waits for itself");
    if (g[0]) { syncOp(g, 0); return 0; }
    g[1] = 1;
    return 1;
}
extern "C" void guardRelease(u8 *g) __asm__("__cxa_guard_release");
extern "C" void guardRelease(u8 *g)
{ g[0] = 1; g[1] = 0; syncOp(g, 1); progress++; }
extern "C" void guardAbort(u8 *g) __asm__("__cxa_guard_abort");
extern "C" void guardAbort(u8 *g)
{ g[1] = 0; progress++; }
// std::thread
struct StateVt { virtual ~StateVt(); virtual void run() = 0; };
static void runState(void *p)
{
    // vtable: complete dtor, deleting dtor, _M_run
    void **vt = *(void ***)p;
    ((void (*)(void *))vt[2])(p);
    ((void (*)(void *))vt[1])(p);
}
extern "C" void _ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(u64 *self, void **st, void (*)())
{
    void *s = *st;
    *st = 0;
    int id = coCreate(runState, s);
    *self = (u64)id;
    if (schedBudget < 0) switchTo(id); // by default a new thread runs at once
}
extern "C" void _ZNSt6thread6detachEv(u64 *self)
{
    int id = (int)*self;
    if (id <= 0 || !cos[id].used) { violation("crash", "detach of a thread that is not joinable"); finish(); }
    *self = 0;
}
extern "C" void _ZNSt6thread4joinEv(u64 *self)
{
    int id = (int)*self;
    if (id <= 0 || !cos[id].used) { violation("crash", "join of a thread that is not joinable"); finish(); }
    coJoin(id);
    *self = 0;
}

// ------------------------------------------------------------------ harness interface
#define SHADOW(f, k) ((__sy_arg_fn == (void *)f) ? (E *)__sy_arg[k] : (E *)0)
static void retE(void *f, E *e)
{
    __sy_ret[0] = isK(e) ? 0 : e;
    __sy_ret_fn = f;
}
static FILE *replayF = nullptr; // --replay: every symbolic value is read from a file instead
static E *newVar(const char *name, unsigned w, u64 lo, u64 hi, bool dec)
{
    if (replayF) {
        char nm[200];
        unsigned long long v;
        if (fscanf(replayF, "%199s %llu", nm, &v) != 2 || strncmp(nm, name, 39) || v < lo || v > hi) {
            printf("DIVERGED %s\n", name);
            fflush(stdout);
            _exit(5);
        }
        return K(v, w);
    }
    if (nvars >= MAXVAR) { fprintf(stderr, "too many symbolic variables\n"); abort(); }
    int i = nvars++;
    Var &v = vars[i];
    memset(&v, 0, sizeof v);
    strncpy(v.name, name, sizeof v.name - 1);
    v.w = w; v.lo = lo; v.hi = hi; v.val = lo;
    v.isdec = dec;
    if (hi - lo < 256) {
        v.hasdom = true;
        v.dombase = lo;
        for (u64 x = 0; x <= hi - lo; x++) v.dom[x / 64] |= 1ull << (x % 64);
    }
    E *e = mk(VAR, w, 0, 0, 0, i);
    e->ub = hi;
    varE[i] = e;
    curgen++;
    if (lo > 0) { if (npc < 100000) pc[npc++].e = mk(ULE, 1, K(lo, w), e, 0, 0); }
    if (hi < mask(w)) { if (npc < 100000) pc[npc++].e = mk(ULE, 1, e, K(hi, w), 0, 0); }
    return e;
}
static u64 choiceImpl(const char *name, u64 n)
{
    if (n <= 1) { newVar(name, 8, 0, 0, true); return 0; }
    E *e = newVar(name, 32, 0, n - 1, true);
    return concretize(e);
}
extern "C" u64 sy_choice(const char *name, u64 n) { u64 r = choiceImpl(name, n); __sy_ret_fn = 0; return r; }
extern "C" u64 sy_u64(const char *name, u64 lo, u64 hi)
{
    E *e = newVar(name, 64, lo, hi, false);
    retE((void *)sy_u64, e);
    return isK(e) ? e->k : lo;
}
extern "C" u32 sy_u32(const char *name, u32 lo, u32 hi)
{
    E *e = newVar(name, 32, lo, hi, false);
    retE((void *)sy_u32, e);
    return isK(e) ? e->k : lo;
}
extern "C" u8 sy_u8(const char *name, u8 lo, u8 hi)
{
    E *e = newVar(name, 8, lo, hi, false);
    retE((void *)sy_u8, e);
    return isK(e) ? e->k : lo;
}
static E *amongE(const char *name, const char *set, u64 n)
{
    u8 lo = 255, hi = 0;
    for (u64 i = 0; i < n; i++) { u8 c = set[i]; if (c < lo) lo = c; if (c > hi) hi = c; }
    E *e = newVar(name, 8, lo, hi, false);
    if (isK(e)) return e;
    E *in = K(0, 1);
    for (u64 i = 0; i < n; i++) in = bin(ORo, in, bin(EQo, e, K((u8)set[i], 8)));
    vars[nvars - 1].val = (u8)set[0];
    curgen++;
    assertPc(in);
    return e;
}
extern "C" u8 sy_among(const char *name, const char *set, u64 n)
{
    E *e = amongE(name, set, n);
    retE((void *)sy_among, e);
    return isK(e) ? (u8)e->k : (u8)set[0];
}
extern "C" void sy_assume(bool c)
{
    E *e = SHADOW(sy_assume, 0);
    __sy_arg_fn = 0;
    bool ok;
    if (!e || isK(e)) ok = e ? e->k : c;
    else {
        ok = true;
        if (!evalE(e)) {
            if (feasible(e)) takeModel();
            else ok = false;
        }
        if (ok) assertPc(e);
    }
    if (!ok) { ADD(infeasible, 1); finish(); }
}
static void fetchStr(const char *s, char *out, int n)
{
    int i = 0;
    for (; i < n - 1; i++) {
        E *e = getb((u64)(s + i));
        u8 c = e ? evalE(e) : s[i];
        if (!c) break;
        out[i] = c;
    }
    out[i] = 0;
}
extern "C" void sy_fail(const char *msg)
{
    char b[400];
    fetchStr(msg, b, sizeof b);
    violation("assert", b);
    finish();
}
extern "C" void sy_check(bool c, const char *msg)
{
    E *e = SHADOW(sy_check, 0);
    __sy_arg_fn = 0;
    ADD(asserts, 1);
    if (e && !isK(e)) {
        ADD(asserts_sym, 1);
        E *bad = notE(e);
        if (feasible(bad, true)) {
            u64 save[MAXVAR];
            for (int i = 0; i < nvars; i++) save[i] = vars[i].val;
            takeModel();
            char b[400];
            fetchStr(msg, b, sizeof b);
            violation("assert", b);
            // go on with the values for which it holds
            for (int i = 0; i < nvars; i++) vars[i].val = save[i];
            curgen++;
            if (!evalE(e)) { if (!feasible(e)) finish(); takeModel(); }
            assertPc(e);
        }
        return;
    }
    if (e) c = e->k;
    if (!c) sy_fail(msg);
}
extern "C" void sy_reach(const char *tag)
{
    for (u64 i = 0; i < sh->tagn; i++)
        if (!strcmp(sh->tags[i], tag)) { __sync_fetch_and_add(&sh->tagc[i], 1); return; }
    while (!__sync_bool_compare_and_swap(&sh->lock, 0, 1)) usleep(20);
    for (u64 i = 0; i < sh->tagn; i++)
        if (!strcmp(sh->tags[i], tag)) { __sync_fetch_and_add(&sh->tagc[i], 1); sh->lock = 0; return; }
    if (sh->tagn < MAXTAG) {
        strncpy(sh->tags[sh->tagn], tag, 63);
        sh->tagc[sh->tagn] = 1;
        __sync_synchronize();
        sh->tagn++;
    }
    sh->lock = 0;
}
extern "C" void sy_obs(const char *tag, u64 v)
{
    E *e = SHADOW(sy_obs, 0);
    __sy_arg_fn = 0;
    if (nobs < 20000) obs[nobs++] = {tag, e, v};
}
extern "C" u64 sy_conc(u64 v)
{
    E *e = SHADOW(sy_conc, 0);
    __sy_arg_fn = 0;
    __sy_ret_fn = 0;
    return e ? concretize(e) : v;
}
extern "C" int sy_known(u64 v)
{
    E *e = SHADOW(sy_known, 0);
    __sy_arg_fn = 0;
    __sy_ret_fn = 0;
    return !e;
}
extern "C" void sy_done() { endPath(); }
extern "C" void sy_cut() { ADD(infeasible, 1); finish(); }
extern "C" void sy_exit_ok(const char *tag) { exitExpected = tag; }
extern "C" int sy_symbolic() { __sy_ret_fn = 0; return 1; }
// the code under test ended the process
extern "C" void sy_exit(int code)
{
    if (exitExpected && (code & 255)) {
        sy_reach(exitExpected);
        ADD(exits, 1);
        obs[nobs++] = {"exit", 0, (u64)(code & 255)};
        endPath();
    }
    char b[100];
    snprintf(b, sizeof b, "the program exits (status %d)", code);
    violation("exit", b);
    finish();
}

// ------------------------------------------------------------------ crashes
static void onCrash(int sig)
{
    static int n = 0;
    if (n++) _exit(3);
    char b[100];
    if (sig == SIGPROF) { ADD(hangs, 1); snprintf(b, sizeof b, "does not terminate"); }
    else { ADD(crashes, 1); snprintf(b, sizeof b, "crash: signal %d", sig); }
    violation(sig == SIGPROF ? "hang" : "crash", b);
    finish();
}
static void run()
{
    sy_harness();
    endPath();
}
extern "C" void *__sy_model_tolower, *__sy_model_toupper;
void *__sy_model_tolower __attribute__((weak));
void *__sy_model_toupper __attribute__((weak));

int main(int argc, char **argv)
{
    double budget = 600;
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--out")) outdir = argv[i + 1];
        else if (!strcmp(argv[i], "--jobs")) opt_tokens = atoi(argv[i + 1]);
        else if (!strcmp(argv[i], "--budget")) budget = atof(argv[i + 1]);
        else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--samples")) opt_maxsamples = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--hang")) opt_hang = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--xcheck")) opt_xcheck = atoi(argv[i + 1]);
        else if (!strcmp(argv[i], "--nodom")) opt_nodom = atoi(argv[i + 1]);
        else if (!strcmp(argv[i], "--replay")) { replayF = fopen(argv[i + 1], "r"); replaying = true; if (!replayF) { perror(argv[i + 1]); return 2; } }
        else if (!strcmp(argv[i], "--known")) {
            FILE *f = fopen(argv[i + 1], "r");
            char l[300];
            while (f && nKnown < 64 && fgets(l, sizeof l, f)) {
                l[strcspn(l, "\n")] = 0;
                if (*l) strncpy(knownPat[nKnown++], l, 159);
            }
            if (f) fclose(f);
        }
    }
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof *sh);
    sem_init(&sh->tokens, 1, opt_tokens - 1);
    double t0 = now();
    sh->deadline = t0 + budget;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        z3init();
        __sy_cov = (char *)sh->cov;
        regcap = 64;
        while (regcap < __sy_nreg * 3 + 16) regcap *= 2;
        regtab = (void **)calloc(regcap, sizeof(void *));
        for (u64 i = 0; i < __sy_nreg; i++) {
            u64 h = ((u64)__sy_reg[i] >> 4) * 0x9e3779b97f4a7c15ull >> 40;
            u64 j = 0;
            while (regtab[(h + j) % regcap]) j++;
            regtab[(h + j) % regcap] = __sy_reg[i];
        }
        if (__sy_race) __libc_single_threaded = 0; // reference counts are atomic
        if (__sy_model_tolower) {
            void *f = dlsym(RTLD_DEFAULT, "_ZNKSt5ctypeIcE10do_tolowerEc");
            if (f) imap[nimap++] = {f, __sy_model_tolower};
            f = dlsym(RTLD_DEFAULT, "_ZNKSt5ctypeIcE10do_toupperEc");
            if (f) imap[nimap++] = {f, __sy_model_toupper};
        }
        stack_t ss = {};
        ss.ss_sp = newStack(1 << 20);
        ss.ss_size = 1 << 20;
        sigaltstack(&ss, 0);
        struct sigaction sa = {};
        sa.sa_handler = onCrash;
        sa.sa_flags = SA_ONSTACK;
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGPROF}) sigaction(s, &sa, 0);
        armTimer();
        if (getenv("SY_PROF")) {
            char fn[512];
            snprintf(fn, sizeof fn, "%s/prof.txt", outdir);
            opt_prof = open(fn, O_WRONLY | O_CREAT | O_APPEND, 0600);
        }
        running = true;
        // the harness runs on a large stack of its own
        static ucontext_t a, b;
        getcontext(&b);
        b.uc_stack.ss_sp = newStack(512 << 20);
        b.uc_stack.ss_size = 512 << 20;
        b.uc_link = 0;
        makecontext(&b, (void (*)())run, 0);
        swapcontext(&a, &b);
        _exit(4);
    }
    // reap every path process
    u64 abnormal = 0;
    for (;;) {
        int st;
        pid_t q = waitpid(-1, &st, 0);
        if (q < 0) { if (errno == EINTR) continue; break; }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) abnormal++;
    }
    double wall = now() - t0;
    char fn[512];
    snprintf(fn, sizeof fn, "%s/summary.json", outdir);
    FILE *f = fopen(fn, "w");
    if (!f) { perror(fn); return 2; }
#define F(x) fprintf(f, "\"%s\":%llu,", #x, (unsigned long long)sh->x)
    fprintf(f, "{");
    F(paths); F(infeasible); F(branches); F(forks); F(queries); F(sat); F(unsat); F(unknown); F(domq); F(pathq); F(concs); F(viol);
    F(truncated); F(exits); F(solver_us); F(maxdepth); F(asserts); F(asserts_sym); F(ldx); F(scanhits); F(cpu_us);
    F(nviol); F(crashes); F(hangs); F(knownviol);
    fprintf(f, "\"abnormal\":%llu,\"wall\":%.3f,\"tags\":{", (unsigned long long)abnormal, wall);
    for (u64 i = 0; i < sh->tagn; i++) {
        fprintf(f, "%s", i ? "," : "");
        jstr(f, sh->tags[i]);
        fprintf(f, ":%llu", (unsigned long long)sh->tagc[i]);
    }
    fprintf(f, "},\"functions\":[");
    const char *s = __sy_covnames;
    bool first = true;
    for (u64 i = 0; i < __sy_ncov; i++) {
        const char *e = strchr(s, '\n');
        if (!e) break;
        if (sh->cov[i]) {
            char b[400];
            size_t n = e - s < 399 ? e - s : 399;
            memcpy(b, s, n);
            b[n] = 0;
            if (!first) fprintf(f, ",");
            first = false;
            jstr(f, b);
        }
        s = e + 1;
    }
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}
