// C02: float and mixed arithmetic of compiled programs follows IEEE 754; integers are converted to the nearest float;
// the math functions of std are those of the C library.
#include "tiroh.hpp"
#include <cmath>
using namespace th;

static const char* SRC = R"(
import std;
export func add(a, b) { return a + b; }
export func sub(a, b) { return a - b; }
export func mul(a, b) { return a * b; }
export func div(a, b) { return a / b; }
export func mod(a, b) { return a % b; }
export func pow(a, b) { return a ** b; }
export func pos(a) { return +a; }
export func neg(a) { return -a; }
export func addc(a, b) { var x = a; x += b; return x; }
export func subc(a, b) { var x = a; x -= b; return x; }
export func mulc(a, b) { var x = a; x *= b; return x; }
export func divc(a, b) { var x = a; x /= b; return x; }
export func modc(a, b) { var x = a; x %= b; return x; }
export func powc(a, b) { var x = a; x **= b; return x; }
export func abs(a) = std.abs(a);
export func sqrt(a) = std.sqrt(a);
export func round(a) = std.round(a);
export func ceil(a) = std.ceil(a);
export func floor(a) = std.floor(a);
export func log(a) = std.log(a);
export func sin(a) = std.sin(a);
export func cos(a) = std.cos(a);
export func tan(a) = std.tan(a);
export func asin(a) = std.asin(a);
export func acos(a) = std.acos(a);
export func atan(a) = std.atan(a);
export func spow(a, b) = std.pow(a, b);
)";
static const char* BIN[] = {"add", "sub", "mul", "div", "mod", "pow", "addc", "subc", "mulc", "divc", "modc", "powc", "spow"};
static const char* UN[] = {"neg", "pos", "abs", "sqrt", "round", "ceil", "floor", "log", "sin", "cos", "tan", "asin", "acos", "atan"};

static double bin(int op, double a, double b) {
    switch (op) {
    case 0: return a + b;
    case 1: return a - b;
    case 2: return a * b;
    case 3: return a / b;
    case 4: return std::fmod(a, b);
    default: return std::pow(a, b);
    }
}
static double un(int op, double a) {
    switch (op) {
    case 0: return -a;
    case 1: return a;
    case 2: return std::abs(a);
    case 3: return std::sqrt(a);
    case 4: return std::round(a);
    case 5: return std::ceil(a);
    case 6: return std::floor(a);
    case 7: return std::log(a);
    case 8: return std::sin(a);
    case 9: return std::cos(a);
    case 10: return std::tan(a);
    case 11: return std::asin(a);
    case 12: return std::acos(a);
    default: return std::atan(a);
    }
}
static uint64_t bits(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    if ((u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (u & 0xfffffffffffffull)) return 0x7ff8000000000000ull;
    return u;
}
static void check(VM& v, const Call& c, double e, const char* what) {
    symx_assert(c.ok, "float arithmetic panicked");
    symx_assert(tiro_value_kind(v.vm, c.value) == TIRO_KIND_FLOAT, "result is not a float");
    double r = tiro_float_value(v.vm, c.value);
    symx_assert(bits(r) == bits(e), what);
}

int main() {
    VM v(true);
    v.load(SRC);
    unsigned k = symx_choose(5, "k");
    if (k < 3) {
        // 0: float op float, 1: int op float, 2: float op int
        unsigned op = symx_choose(13, "op");
        double x, y;
        tiro_handle_t a, b;
        if (k == 1) { int64_t i = sym_i64("i"); a = v.i(i); x = (double) i; }
        else { x = sym_f64("x"); a = v.f(x); }
        if (k == 2) { int64_t i = sym_i64("j"); b = v.i(i); y = (double) i; }
        else { y = sym_f64("y"); b = v.f(y); }
        check(v, call(v, v.fn(BIN[op]), a, b), bin(op == 12 ? 5 : op % 6, x, y), "wrong result of float arithmetic");
        symx_cover("binary");
    } else if (k == 3) {
        unsigned op = symx_choose(14, "op");
        double x = sym_f64("x");
        check(v, call(v, v.fn(UN[op]), v.f(x)), un(op, x), "wrong result of a float function");
        symx_cover("unary");
    } else {
        // integers given to the math functions are converted
        unsigned op = 2 + symx_choose(12, "op");
        int64_t i = sym_i64("i");
        check(v, call(v, v.fn(UN[op]), v.i(i)), un(op, (double) i), "wrong result of a float function of an integer");
        symx_cover("intarg");
    }
    return 0;
}
