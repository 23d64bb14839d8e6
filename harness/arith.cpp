// C01: integer arithmetic of compiled programs is exact, or panics exactly when the exact result is not
// representable (or the operation is undefined).
#include "tiroh.hpp"
using namespace th;

static const char* SRC = R"(
export func add(a, b) { return a + b; }
export func sub(a, b) { return a - b; }
export func mul(a, b) { return a * b; }
export func div(a, b) { return a / b; }
export func mod(a, b) { return a % b; }
export func pow(a, b) { return a ** b; }
export func pos(a) { return +a; }
export func neg(a) { return -a; }
export func bnot(a) { return ~a; }
export func addc(a, b) { var x = a; x += b; return x; }
export func subc(a, b) { var x = a; x -= b; return x; }
export func mulc(a, b) { var x = a; x *= b; return x; }
export func divc(a, b) { var x = a; x /= b; return x; }
export func modc(a, b) { var x = a; x %= b; return x; }
export func powc(a, b) { var x = a; x **= b; return x; }
)";
static const char* BIN[] = {"add", "sub", "mul", "div", "mod", "pow"};
static const char* BINC[] = {"addc", "subc", "mulc", "divc", "modc", "powc"};

struct Exact { bool ok; int64_t v; };
static Exact exact(int op, int64_t a, int64_t b) {
    Exact e{true, 0};
    switch (op) {
    case 0: e.ok = !__builtin_add_overflow(a, b, &e.v); break;
    case 1: e.ok = !__builtin_sub_overflow(a, b, &e.v); break;
    case 2: e.ok = !__builtin_mul_overflow(a, b, &e.v); break;
    case 3: e.ok = b != 0 && !(a == INT64_MIN && b == -1); if (e.ok) e.v = a / b; break;
    case 4: e.ok = b != 0 && !(a == INT64_MIN && b == -1); if (e.ok) e.v = a % b; break;
    }
    return e;
}

static void check(VM& v, const Call& c, Exact e, const char* what) {
    symx_observe(c.ok);
    if (!e.ok) {
        symx_assert(!c.ok, "an unrepresentable or undefined result did not panic");
        symx_assert(tiro_value_kind(v.vm, c.value) == TIRO_KIND_EXCEPTION, "panic value is not an exception");
        symx_cover("panic");
        return;
    }
    symx_assert(c.ok, "a representable result panicked");
    int64_t r = as_int(v, c.value);
    symx_observe(r);
    symx_assert(r == e.v, what);
}

#ifdef THOROUGH
#    define BASES 12
#    define ONEEXP 1024
#else
#    define BASES 3
#    define ONEEXP 64
#endif
int main() {
    VM v;
    v.load(SRC);
    unsigned op = symx_choose(12, "op");
    if (op < 5) { // + - * / %, all 64-bit operands
        int64_t a = sym_i64("a"), b = sym_i64("b");
        Exact e = exact(op, a, b);
        check(v, call(v, v.fn(BIN[op]), v.i(a), v.i(b)), e, "wrong result of a binary operator");
        symx_cover("binary");
    } else if (op == 5) { // compound assignment
        unsigned k = symx_choose(5, "cop");
        int64_t a = sym_range("a", -1000, 1000), b = sym_range("b", -1000, 1000);
        check(v, call(v, v.fn(BINC[k]), v.i(a), v.i(b)), exact(k, a, b), "wrong result of a compound assignment");
        symx_cover("compound");
    } else if (op == 6) { // a ** {0, 1, 2}, all 64-bit bases
        int64_t a = sym_i64("a"), b = sym_range("b", 0, 2);
        Exact e{true, 1};
        if (b == 1) e.v = a;
        if (b == 2) e.ok = !__builtin_mul_overflow(a, a, &e.v);
        check(v, call(v, v.fn("pow"), v.i(a), v.i(b)), e, "wrong power");
        symx_cover("pow2");
    } else if (op == 7) { // negative exponents: the exact result rounded towards zero
        int64_t a = sym_i64("a"), b = sym_i64("b");
        symx_assume(b < 0);
        Exact e{true, 0};
        if (a == 0) e.ok = false;
        else if (a == 1) e.v = 1;
        else if (a == -1) e.v = (b & 1) ? -1 : 1;
        check(v, call(v, v.fn("pow"), v.i(a), v.i(b)), e, "wrong power with a negative exponent");
        symx_cover("negpow");
    } else if (op == 8) { // small bases, all non-negative exponents
        int64_t a = (int64_t) symx_choose(2 * BASES + 1, "a") - BASES;
        int64_t b = sym_i64("b");
        symx_assume(b >= 0);
        if (a >= -1 && a <= 1) symx_assume(b < ONEEXP); // every bit of the exponent forks
        Call c = call(v, v.fn("pow"), v.i(a), v.i(b));
        Exact e{true, 1};
        if (a >= -1 && a <= 1) {
            e.v = a == 0 ? b == 0 : a == 1 ? 1 : (b & 1) ? -1 : 1;
        } else if (b > 63) {
            e.ok = false;
        } else {
            int64_t n = (int64_t) symx_concretize((uint64_t) b);
            for (int64_t k = 0; k < n && e.ok; ++k) e.ok = !__builtin_mul_overflow(e.v, a, &e.v);
        }
        check(v, c, e, "wrong power of a small base");
        symx_cover("powsmall");
    } else if (op == 9) {
        int64_t a = sym_i64("a");
        check(v, call(v, v.fn("neg"), v.i(a)), exact(1, 0, a), "wrong result of unary minus");
        symx_cover("neg");
    } else if (op == 10) {
        int64_t a = sym_i64("a");
        check(v, call(v, v.fn("pos"), v.i(a)), Exact{true, a}, "wrong result of unary plus");
        symx_cover("pos");
    } else {
        int64_t a = sym_i64("a");
        check(v, call(v, v.fn("bnot"), v.i(a)), Exact{true, ~a}, "wrong result of bitwise not");
        symx_cover("bnot");
    }
    return 0;
}
