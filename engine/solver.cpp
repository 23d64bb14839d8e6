#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <unordered_set>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <errno.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>

SolverStats SS;
unsigned solver_timeout_ms = 20000;
static double forever() { return 1e9; }
double (*solver_time_left)() = forever;

static Z3_context C;
static Z3_solver S_inc;
static Z3_tactic T_bv, T_fp;
static bool inited;
static std::vector<Z3_ast> zvars;
static Z3_sort s8;

static void on_err(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    _exit(70);
}

static void set_limits(Z3_solver s, unsigned rlimit, unsigned timeout_ms) {
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), rlimit);
    if (timeout_ms) Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeout_ms);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
}

static void init() {
    if (inited) return;
    inited = true;
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context(cfg); // not rc: asts live as long as the context
    Z3_del_config(cfg);
    Z3_set_error_handler(C, on_err);
    s8 = Z3_mk_bv_sort(C, 8);
    S_inc = Z3_mk_simple_solver(C);
    Z3_solver_inc_ref(C, S_inc);
    T_bv = Z3_mk_tactic(C, "qfbv");
    Z3_tactic_inc_ref(C, T_bv);
    T_fp = Z3_mk_tactic(C, "qffp");
    Z3_tactic_inc_ref(C, T_fp);
}
void solver_reset_after_fork() {}

static Z3_ast zvar(u32 i) {
    if (zvars.size() <= i) zvars.resize(X.vars.size(), nullptr);
    if (!zvars[i]) {
        char n[32];
        snprintf(n, sizeof n, "v%u", i);
        zvars[i] = Z3_mk_const(C, Z3_mk_string_symbol(C, n), s8);
    }
    return zvars[i];
}

static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C); }
static Z3_ast zconst(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, w));
    Z3_ast hi = Z3_mk_unsigned_int64(C, (u64)(v >> 64), Z3_mk_bv_sort(C, w - 64));
    return Z3_mk_concat(C, hi, Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, 64)));
}
static bool abs_mode; // translate hard operations as free variables
static Z3_ast tr(Expr* e);
static void*& zslot(Expr* e) { return abs_mode && e->hard ? e->za : e->z; }
static Z3_ast bv(Expr* e) { // as bit vector, also for width 1
    Z3_ast t = tr(e);
    if (e->width != 1) return t;
    return Z3_mk_ite(C, t, zconst(1, 1), zconst(0, 1));
}
static Z3_ast tobool(Z3_ast b) { return Z3_mk_eq(C, b, zconst(1, 1)); }
static Z3_ast fp(Expr* e) { return Z3_mk_fpa_to_fp_bv(C, bv(e), fps(e->width)); }
static Z3_ast rne() { return Z3_mk_fpa_rne(C); }
// all NaN results are canonical (fold() does the same)
static Z3_ast fpbv_w(Z3_ast f, unsigned w) {
    return Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, f),
        zconst(w == 64 ? (u128)0x7ff8000000000000ull : (u128)0x7fc00000u, w), Z3_mk_fpa_to_ieee_bv(C, f));
}
#define fpbv(f) fpbv_w((f), w)

static Z3_ast tr1(Expr* e) {
    unsigned w = e->width;
    switch (e->kind) {
    case K::Const:
        if (w == 1) return e->v ? Z3_mk_true(C) : Z3_mk_false(C);
        return zconst(e->v, w);
    case K::Var: return zvar((u32)e->v);
    case K::And:
    case K::Or:
    case K::Xor:
        if (w == 1) {
            Z3_ast a[2] = {tr(e->a), tr(e->b)};
            if (e->kind == K::And) return Z3_mk_and(C, 2, a);
            if (e->kind == K::Or) return Z3_mk_or(C, 2, a);
            return Z3_mk_xor(C, a[0], a[1]);
        }
        if (e->kind == K::And) return Z3_mk_bvand(C, tr(e->a), tr(e->b));
        if (e->kind == K::Or) return Z3_mk_bvor(C, tr(e->a), tr(e->b));
        return Z3_mk_bvxor(C, tr(e->a), tr(e->b));
    case K::Eq:
        if (e->a->kind == K::Const && e->a->width == 1)
            return e->a->v ? tr(e->b) : Z3_mk_not(C, tr(e->b));
        return Z3_mk_eq(C, tr(e->a), tr(e->b));
    case K::Ult: return Z3_mk_bvult(C, bv(e->a), bv(e->b));
    case K::Ule: return Z3_mk_bvule(C, bv(e->a), bv(e->b));
    case K::Slt: return Z3_mk_bvslt(C, bv(e->a), bv(e->b));
    case K::Sle: return Z3_mk_bvsle(C, bv(e->a), bv(e->b));
    case K::ZExt: return Z3_mk_zero_ext(C, w - e->a->width, bv(e->a));
    case K::SExt: return Z3_mk_sign_ext(C, w - e->a->width, bv(e->a));
    case K::Ite: return Z3_mk_ite(C, tr(e->a), tr(e->b), tr(e->c));
    case K::Concat: return Z3_mk_concat(C, bv(e->a), bv(e->b));
    case K::FOeq: return Z3_mk_fpa_eq(C, fp(e->a), fp(e->b));
    case K::FOlt: return Z3_mk_fpa_lt(C, fp(e->a), fp(e->b));
    case K::FOle: return Z3_mk_fpa_leq(C, fp(e->a), fp(e->b));
    case K::FUno: {
        Z3_ast a[2] = {Z3_mk_fpa_is_nan(C, fp(e->a)), Z3_mk_fpa_is_nan(C, fp(e->b))};
        return Z3_mk_or(C, 2, a);
    }
    case K::SMulOvf: {
        Z3_ast a[2] = {Z3_mk_not(C, Z3_mk_bvmul_no_overflow(C, bv(e->a), bv(e->b), true)),
            Z3_mk_not(C, Z3_mk_bvmul_no_underflow(C, bv(e->a), bv(e->b)))};
        return Z3_mk_or(C, 2, a);
    }
    case K::UMulOvf: return Z3_mk_not(C, Z3_mk_bvmul_no_overflow(C, bv(e->a), bv(e->b), false));
    default: break;
    }
    Z3_ast r;
    switch (e->kind) {
    case K::Add: r = Z3_mk_bvadd(C, bv(e->a), bv(e->b)); break;
    case K::Sub: r = Z3_mk_bvsub(C, bv(e->a), bv(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(C, bv(e->a), bv(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(C, bv(e->a), bv(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(C, bv(e->a), bv(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(C, bv(e->a), bv(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(C, bv(e->a), bv(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(C, bv(e->a), bv(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(C, bv(e->a), bv(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(C, bv(e->a), bv(e->b)); break;
    case K::Extract: r = Z3_mk_extract(C, (unsigned)e->v + w - 1, (unsigned)e->v, bv(e->a)); break;
    case K::FAdd: r = fpbv(Z3_mk_fpa_add(C, rne(), fp(e->a), fp(e->b))); break;
    case K::FSub: r = fpbv(Z3_mk_fpa_sub(C, rne(), fp(e->a), fp(e->b))); break;
    case K::FMul: r = fpbv(Z3_mk_fpa_mul(C, rne(), fp(e->a), fp(e->b))); break;
    case K::FDiv: r = fpbv(Z3_mk_fpa_div(C, rne(), fp(e->a), fp(e->b))); break;
    case K::FSqrt: r = fpbv(Z3_mk_fpa_sqrt(C, rne(), fp(e->a))); break;
    case K::FPToSI: {
        // out of range: x86 integer indefinite value
        Z3_ast f = fp(e->a);
        double lim = __builtin_ldexp(1.0, w - 1);
        Z3_ast lo = e->a->width == 64 ? Z3_mk_fpa_numeral_double(C, -lim, fps(64))
                                      : Z3_mk_fpa_numeral_float(C, (float)-lim, fps(32));
        Z3_ast hi = e->a->width == 64 ? Z3_mk_fpa_numeral_double(C, lim, fps(64))
                                      : Z3_mk_fpa_numeral_float(C, (float)lim, fps(32));
        Z3_ast in[2] = {Z3_mk_fpa_geq(C, f, lo), Z3_mk_fpa_lt(C, f, hi)};
        r = Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), f, w),
            zconst((u128)1 << (w - 1), w));
        break;
    }
    case K::FPToUI: {
        Z3_ast f = fp(e->a);
        double lim = __builtin_ldexp(1.0, w);
        Z3_ast lo = e->a->width == 64 ? Z3_mk_fpa_numeral_double(C, -1.0, fps(64))
                                      : Z3_mk_fpa_numeral_float(C, -1.0f, fps(32));
        Z3_ast hi = e->a->width == 64 ? Z3_mk_fpa_numeral_double(C, lim, fps(64))
                                      : Z3_mk_fpa_numeral_float(C, (float)lim, fps(32));
        Z3_ast in[2] = {Z3_mk_fpa_gt(C, f, lo), Z3_mk_fpa_lt(C, f, hi)};
        r = Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), f, w),
            zconst((u128)1 << (w - 1), w));
        break;
    }
    case K::SIToFP: r = fpbv(Z3_mk_fpa_to_fp_signed(C, rne(), bv(e->a), fps(w))); break;
    case K::UIToFP: r = fpbv(Z3_mk_fpa_to_fp_unsigned(C, rne(), bv(e->a), fps(w))); break;
    case K::FPExt:
    case K::FPTrunc: r = fpbv(Z3_mk_fpa_to_fp_float(C, rne(), fp(e->a), fps(w))); break;
    case K::FRound: {
        Z3_ast rm;
        switch ((int)e->v) {
        case 0: rm = Z3_mk_fpa_rtn(C); break;
        case 1: rm = Z3_mk_fpa_rtp(C); break;
        case 2: rm = Z3_mk_fpa_rtz(C); break;
        case 3: rm = Z3_mk_fpa_rna(C); break;
        default: rm = rne(); break;
        }
        r = fpbv(Z3_mk_fpa_round_to_integral(C, rm, fp(e->a)));
        break;
    }
    default: fprintf(stderr, "tr: bad kind %d\n", (int)e->kind); _exit(70);
    }
    return w == 1 ? tobool(r) : r;
}
static Z3_ast tr(Expr* e) {
    if (zslot(e)) return (Z3_ast)zslot(e);
    // avoid deep recursion on long chains: explicit stack of operands first
    std::vector<Expr*> st{e};
    while (!st.empty()) {
        Expr* t = st.back();
        if (zslot(t)) { st.pop_back(); continue; }
        if ((abs_mode && hard_op(t)) || t->kind == K::FFun) {
            char n[32];
            snprintf(n, sizeof n, "h%u", t->id);
            zslot(t) = Z3_mk_const(C, Z3_mk_string_symbol(C, n), t->width == 1 ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, t->width));
            st.pop_back();
            continue;
        }
        bool ready = true;
        for (Expr* o : {t->a, t->b, t->c})
            if (o && !zslot(o)) { st.push_back(o); ready = false; }
        if (ready) { zslot(t) = tr1(t); st.pop_back(); }
    }
    return (Z3_ast)zslot(e);
}

// Facts about multiplication, division and remainder that hold for all operands, for the abstracted query.
static void lemmas(const std::vector<Expr*>& sl) {
    std::vector<Expr*> st(sl.begin(), sl.end()), ops;
    std::unordered_set<Expr*> seen;
    while (!st.empty()) {
        Expr* t = st.back();
        st.pop_back();
        if (!t || !t->hard || !seen.insert(t).second) continue;
        if (hard_op(t)) { ops.push_back(t); continue; }
        st.push_back(t->a);
        st.push_back(t->b);
        st.push_back(t->c);
    }
    auto A = [&](Z3_ast x) { Z3_solver_assert(C, S_inc, x); };
    auto AND = [&](Z3_ast x, Z3_ast y) { Z3_ast v[2] = {x, y}; return Z3_mk_and(C, 2, v); };
    auto OR = [&](Z3_ast x, Z3_ast y) { Z3_ast v[2] = {x, y}; return Z3_mk_or(C, 2, v); };
    auto IMP = [&](Z3_ast x, Z3_ast y) { return Z3_mk_implies(C, x, y); };
    auto NOT = [&](Z3_ast x) { return Z3_mk_not(C, x); };
    for (Expr* t : ops) {
        if (t->kind == K::Mul || t->kind == K::SDiv || t->kind == K::SRem || t->kind == K::UDiv || t->kind == K::URem) {
            unsigned w = t->width;
            if (w < 34) continue;
            Z3_ast a = tr(t->a), b = tr(t->b), m = tr(t), z = zconst(0, w), one = zconst(1, w);
            auto neg = [&](Z3_ast x) { return Z3_mk_bvslt(C, x, z); };
            auto is0 = [&](Z3_ast x) { return Z3_mk_eq(C, x, z); };
            auto abs = [&](Z3_ast x) { return Z3_mk_ite(C, neg(x), Z3_mk_bvneg(C, x), x); };
            auto small = [&](Z3_ast x) { return Z3_mk_bvult(C, abs(x), zconst(1ull << 31, w)); };
            if (t->kind == K::Mul) {
                A(IMP(OR(is0(a), is0(b)), is0(m)));
                A(IMP(Z3_mk_eq(C, a, one), Z3_mk_eq(C, m, b)));
                A(IMP(Z3_mk_eq(C, b, one), Z3_mk_eq(C, m, a)));
                for (Expr* o : ops)
                    if (o->kind == K::SMulOvf && ((o->a == t->a && o->b == t->b) || (o->a == t->b && o->b == t->a))) {
                        Z3_ast no = NOT(tr(o)), nz = AND(NOT(is0(a)), NOT(is0(b)));
                        A(IMP(AND(no, nz), AND(NOT(is0(m)), Z3_mk_eq(C, neg(m), Z3_mk_xor(C, neg(a), neg(b))))));
                        A(IMP(AND(no, nz), AND(Z3_mk_bvuge(C, abs(m), abs(a)), Z3_mk_bvuge(C, abs(m), abs(b)))));
                        if (w == 64) A(IMP(AND(small(a), small(b)), no));
                    }
                if (w == 64) {
                    A(IMP(AND(small(a), small(b)), Z3_mk_bvult(C, abs(m), zconst(1ull << 62, 64))));
                    A(IMP(AND(AND(small(a), small(b)), AND(NOT(is0(a)), NOT(is0(b)))),
                        AND(NOT(is0(m)), Z3_mk_eq(C, neg(m), Z3_mk_xor(C, neg(a), neg(b))))));
                }
            } else if (t->kind == K::SDiv) {
                A(IMP(Z3_mk_eq(C, b, one), Z3_mk_eq(C, m, a)));
                A(IMP(NOT(is0(b)), Z3_mk_bvule(C, abs(m), abs(a))));
                A(IMP(NOT(is0(b)), Z3_mk_eq(C, is0(m), Z3_mk_bvult(C, abs(a), abs(b)))));
                A(IMP(AND(NOT(is0(b)), AND(NOT(is0(m)), NOT(Z3_mk_eq(C, b, zconst(wmask(w), w))))), Z3_mk_eq(C, neg(m), Z3_mk_xor(C, neg(a), neg(b)))));
            } else if (t->kind == K::SRem) {
                A(IMP(NOT(is0(b)), Z3_mk_bvult(C, abs(m), abs(b))));
                A(Z3_mk_bvule(C, abs(m), abs(a)));
                A(OR(is0(m), Z3_mk_eq(C, neg(m), neg(a))));
            } else if (t->kind == K::UDiv) {
                A(IMP(NOT(is0(b)), Z3_mk_bvule(C, m, a)));
            } else {
                A(IMP(NOT(is0(b)), Z3_mk_bvult(C, m, b)));
                A(Z3_mk_bvule(C, m, a));
            }
        }
    }
}

struct CacheEnt { SatRes r; ModelP m; u64 mask; };
static std::unordered_map<std::string, CacheEnt> cache;
static std::vector<ModelP> recent;

static void full_model(const Model& cur, const Model& part, u64 mask, ModelP& out) {
    out = std::make_shared<Model>(X.vars.size(), 0);
    for (size_t i = 0; i < out->size(); ++i) {
        if (mask >> (X.vars[i].array % 64) & 1) (*out)[i] = i < part.size() ? part[i] : 0;
        else (*out)[i] = i < cur.size() ? cur[i] : 0;
    }
}

static bool satisfies(const std::vector<Expr*>& q, const Model& m) {
    X.new_eval();
    for (Expr* e : q)
        if (!X.eval(e, m)) return false;
    return true;
}

static u64 grng = 88172645463325252ull;
static u64 rnd() { grng ^= grng << 13; grng ^= grng >> 7; grng ^= grng << 17; return grng; }
static bool guess_model(const std::vector<Expr*>& q, const Model& cur, u64 mask, Model& out) {
    static const u64 pool[] = {0, 1, ~0ull, 2, ~1ull, 3, 7, 10, 100, 1ull << 31, 1ull << 32, (1ull << 31) - 1, 1ull << 62, (1ull << 62) - 1,
        3ull << 62, (3ull << 62) - 1, 1ull << 63, (1ull << 63) - 1, 1ull << 53, 0x3ff0000000000000ull, 0xbff0000000000000ull,
        0x4000000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x8000000000000000ull, 0x3fe0000000000000ull,
        0x43e0000000000000ull, 0xc3e0000000000000ull, 0x7fefffffffffffffull, 0x3ff8000000000000ull, 0x4340000000000000ull};
    const unsigned np = sizeof pool / sizeof *pool;
    std::vector<u32> arrs;
    for (u32 i = 0; i < X.arrays.size(); ++i)
        if (mask >> (i % 64) & 1) arrs.push_back(i);
    if (arrs.size() > 24) return false;
    auto t0 = std::chrono::steady_clock::now();
    for (int k = 0; k < 2000; ++k) {
        if ((k & 31) == 31 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 0.1) break;
        out = cur;
        out.resize(X.vars.size(), 0);
        for (u32 ai : arrs) {
            if (arrs.size() > 1 && rnd() % 3 == 0) continue; // keep the current value
            ArrayInfo& a = X.arrays[ai];
            if (a.size > 16) continue;
            u64 v = pool[rnd() % np];
            switch (rnd() % 6) {
            case 0: v += rnd() % 5 - 2; break;
            case 1: v = rnd(); break;
            case 2: v = rnd() >> (rnd() % 64); break;
            case 3: { double d = (double)(i64)(rnd() % 201) - 100; d /= 1 << (rnd() % 3); memcpy(&v, &d, 8); break; }
            default: break;
            }
            for (u32 i = 0; i < a.size; ++i) out[a.first_var + i] = (u8)(v >> (8 * (i % 8)));
        }
        if (satisfies(q, out)) return true;
    }
    return false;
}

template<typename RM>
static SatRes solve_child(const std::vector<Expr*>& sl, bool anyfp, u64 mask, unsigned nv, RM&& read_model, ModelP& part) {
    double tl = solver_time_left();
    if (tl <= 0) throw Kill{};
    int limit_ms = (int)std::min<double>(solver_timeout_ms, tl * 1000 + 2000);
    int fd[2];
    if (pipe(fd)) return SatRes::Unknown;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); return SatRes::Unknown; }
    if (pid == 0) {
        close(fd[0]);
        rlimit rl{3ull << 30, 3ull << 30};
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Z3_solver s = Z3_mk_solver_from_tactic(C, anyfp ? T_fp : T_bv);
        Z3_solver_inc_ref(C, s);
        for (Expr* e : sl) Z3_solver_assert(C, s, tr(e));
        Z3_lbool r = Z3_solver_check(C, s);
        char c = r == Z3_L_FALSE ? 'U' : r == Z3_L_TRUE ? 'S' : '?';
        ssize_t ig = write(fd[1], &c, 1);
        if (c == 'S') {
            auto m = read_model(s);
            for (size_t o = 0; o < m->size();) {
                ssize_t w = write(fd[1], m->data() + o, m->size() - o);
                if (w <= 0) break;
                o += w;
            }
        }
        _exit(0);
    }
    close(fd[1]);
    std::vector<u8> buf;
    auto t0 = std::chrono::steady_clock::now();
    bool eof = false;
    while (!eof) {
        int left = limit_ms - (int)(1000 * std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
        if (left <= 0) break;
        pollfd p{fd[0], POLLIN, 0};
        int r = poll(&p, 1, left);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) break;
        u8 tmp[4096];
        ssize_t n = read(fd[0], tmp, sizeof tmp);
        if (n <= 0) eof = true;
        else buf.insert(buf.end(), tmp, tmp + n);
    }
    close(fd[0]);
    kill(pid, SIGKILL);
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!eof || buf.empty()) return SatRes::Unknown;
    if (buf[0] == 'U') return SatRes::Unsat;
    if (buf[0] != 'S' || buf.size() != nv + 1) return SatRes::Unknown;
    part = std::make_shared<Model>(buf.begin() + 1, buf.end());
    if (!satisfies(sl, *part)) return SatRes::Unknown;
    return SatRes::Sat;
}

void (*solver_prof)(double, Expr*);
SatRes solve(const std::vector<Expr*>& cs, Expr* q, const Model& cur, ModelP& out) {
    if (q->kind == K::Const) {
        if (!q->v) return SatRes::Unsat;
        out = std::make_shared<Model>(cur);
        return SatRes::Sat;
    }
    ++SS.queries;
    auto t0 = std::chrono::steady_clock::now();
    // independence slice
    u64 mask = q->mask;
    std::vector<char> in(cs.size(), 0);
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t i = 0; i < cs.size(); ++i)
            if (!in[i] && (cs[i]->mask & mask)) {
                in[i] = 1;
                if (cs[i]->mask & ~mask) { mask |= cs[i]->mask; ch = true; }
            }
    }
    std::vector<Expr*> sl;
    bool anyfp = q->fp;
    for (size_t i = 0; i < cs.size(); ++i)
        if (in[i]) { sl.push_back(cs[i]); anyfp |= cs[i]->fp; }
    sl.push_back(q);
    std::sort(sl.begin(), sl.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
    sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
    std::string key;
    key.resize(sl.size() * 4);
    for (size_t i = 0; i < sl.size(); ++i) memcpy(&key[i * 4], &sl[i]->id, 4);
    auto it = cache.find(key);
    if (it != cache.end()) {
        ++SS.cache_hits;
        if (it->second.r == SatRes::Sat) full_model(cur, *it->second.m, mask, out);
        return it->second.r;
    }
    for (size_t i = recent.size(); i-- > 0 && i + 12 > recent.size();) {
        if (satisfies(sl, *recent[i])) {
            ++SS.model_hits;
            full_model(cur, *recent[i], mask, out);
            return SatRes::Sat;
        }
    }
    init();
    SatRes res = SatRes::Unknown;
    ModelP part;
    bool hard = false;
    for (Expr* e : sl) hard |= e->hard;
    unsigned nv = X.vars.size();
    auto read_model = [&](Z3_solver s) {
        Z3_model m = Z3_solver_get_model(C, s);
        Z3_model_inc_ref(C, m);
        auto r = std::make_shared<Model>(nv, 0);
        for (u32 i = 0; i < nv; ++i) {
            if (!(mask >> (X.vars[i].array % 64) & 1) || i >= zvars.size() || !zvars[i]) continue;
            Z3_ast v = nullptr;
            if (Z3_model_eval(C, m, zvars[i], true, &v)) {
                uint64_t x = 0;
                if (Z3_get_ast_kind(C, v) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(C, v, &x);
                (*r)[i] = (u8)x;
            }
        }
        Z3_model_dec_ref(C, m);
        return r;
    };
    // 0. slices over one input byte (two, when Z3 would have to reason about non-linear or floating point
    //    arithmetic) are decided by evaluating the formula for every value
    {
        unsigned bytes = 0;
        u32 first = 0;
        for (u32 i = 0; i < X.arrays.size() && bytes <= 2; ++i)
            if (mask >> (i % 64) & 1) {
                if (!bytes) first = i;
                bytes += X.arrays[i].size;
            }
        if (bytes == 1 || (bytes == 2 && hard)) {
            std::vector<u32> vs;
            for (u32 i = first; i < X.arrays.size(); ++i)
                if (mask >> (i % 64) & 1)
                    for (u32 k = 0; k < X.arrays[i].size; ++k) vs.push_back(X.arrays[i].first_var + k);
            part = std::make_shared<Model>(nv, 0);
            res = SatRes::Unsat;
            for (unsigned v = 0; v < 1u << (8 * bytes); ++v) {
                (*part)[vs[0]] = (u8)v;
                if (bytes == 2) (*part)[vs[1]] = (u8)(v >> 8);
                if (satisfies(sl, *part)) { res = SatRes::Sat; break; }
            }
        }
    }
    // 1. in this process, with a deterministic resource limit; hard operations are free variables, so that
    //    only "unsat" (and models that evaluate to true) count
    if (res == SatRes::Unknown) {
        abs_mode = hard;
        set_limits(S_inc, 400000, 0);
        Z3_solver_push(C, S_inc);
        for (Expr* e : sl) Z3_solver_assert(C, S_inc, tr(e));
        if (hard) lemmas(sl);
        Z3_lbool r = Z3_solver_check(C, S_inc);
        if (r == Z3_L_FALSE) res = SatRes::Unsat;
        else if (r == Z3_L_TRUE) {
            part = read_model(S_inc);
            if (satisfies(sl, *part)) res = SatRes::Sat;
            else if (!hard) fprintf(stderr, "symx: model does not evaluate to true (fp=%d)\n", anyfp);
        }
        Z3_solver_pop(C, S_inc, 1);
        abs_mode = false;
    }
    // 2. likely models
    if (res == SatRes::Unknown && hard) {
        auto g = std::make_shared<Model>();
        if (guess_model(sl, cur, mask, *g)) { part = g; res = SatRes::Sat; }
    }
    // 3. the full problem, in a child process that is killed at the time limit
    if (res == SatRes::Unknown) res = solve_child(sl, anyfp, mask, nv, read_model, part);
    if (res == SatRes::Sat) {
        full_model(cur, *part, mask, out);
        recent.push_back(part);
        if (recent.size() > 64) recent.erase(recent.begin(), recent.begin() + 32);
    }
    if (res == SatRes::Sat) ++SS.sat;
    else if (res == SatRes::Unsat) ++SS.unsat;
    else ++SS.unknown;
    if (res != SatRes::Unknown) cache[key] = {res, part, mask};
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    SS.seconds += dt;
    if (solver_prof) solver_prof(dt, q);
    static const char* slow = getenv("SYMX_SLOW");
    if (slow && dt > (getenv("SYMX_SLOW_T") ? atof(getenv("SYMX_SLOW_T")) : 0.03)) {
        static int n;
        char path[512];
        snprintf(path, sizeof path, "%s/q%d-%d-%.1f-%d.smt2", slow, (int)getpid(), n++, dt, (int)res);
        sl.pop_back();
        std::vector<Expr*> s2;
        for (size_t i = 0; i < cs.size(); ++i) if (in[i]) s2.push_back(cs[i]);
        solver_dump_query(s2, q, path);
    }
    return res;
}

void solver_dump_query(const std::vector<Expr*>& cs, Expr* q, const char* path) {
    init();
    FILE* f = fopen(path, "w");
    if (!f) return;
    Z3_solver s = Z3_mk_simple_solver(C);
    Z3_solver_inc_ref(C, s);
    for (Expr* e : cs) Z3_solver_assert(C, s, tr(e));
    if (q) Z3_solver_assert(C, s, tr(q));
    fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(C, s));
    fclose(f);
    Z3_solver_dec_ref(C, s);
}
