// C04: comparison operators and equality.
#include "tiroh.hpp"
using namespace th;

static const char* SRC = R"(
export func eq(a, b) { return a == b; }
export func ne(a, b) { return a != b; }
export func lt(a, b) { return a < b; }
export func le(a, b) { return a <= b; }
export func gt(a, b) { return a > b; }
export func ge(a, b) { return a >= b; }
export func cond(a, b) { if (a < b) { return 1; } if (a == b) { return 2; } if (a > b) { return 3; } return 4; }
)";
static const char* OPS[] = {"eq", "ne", "lt", "le", "gt", "ge"};

static bool as_bool(VM& v, const Call& c) {
    symx_assert(c.ok, "a defined comparison panicked");
    symx_assert(tiro_value_kind(v.vm, c.value) == TIRO_KIND_BOOLEAN, "comparison result is not a boolean");
    bool r = tiro_boolean_value(v.vm, c.value);
    symx_observe(r);
    return r;
}
// exact order of an integer and a finite float: -1, 0, 1
static int order(int64_t i, double d) {
    if (d >= 9223372036854775808.0) return -1;
    if (d < -9223372036854775808.0) return 1;
    int64_t t = (int64_t) d; // truncated, in range
    if (i != t) return i < t ? -1 : 1;
    double back = (double) t;
    return back < d ? -1 : back > d ? 1 : 0;
}
static bool expect(unsigned op, int ord) { // ord 2: unordered
    switch (op) {
    case 0: return ord == 0;
    case 1: return ord != 0;
    case 2: return ord == -1;
    case 3: return ord == -1 || ord == 0;
    case 4: return ord == 1;
    default: return ord == 1 || ord == 0;
    }
}
static bool nan(double d) { return d != d; }

int main() {
    VM v(true);
    v.load(SRC);
    unsigned mode = symx_choose(8, "mode");
    if (mode == 0) {
        unsigned op = symx_choose(6, "op");
        int64_t a = sym_i64("a"), b = sym_i64("b");
        bool r = as_bool(v, call(v, v.fn(OPS[op]), v.i(a), v.i(b)));
        symx_assert(r == expect(op, a < b ? -1 : a > b ? 1 : 0), "wrong comparison of integers");
        symx_cover("ints");
    } else if (mode == 1) {
        unsigned op = symx_choose(6, "op");
        double a = sym_f64("a"), b = sym_f64("b");
        bool r = as_bool(v, call(v, v.fn(OPS[op]), v.f(a), v.f(b)));
        if (nan(a) || nan(b)) symx_assert(r == expect(op, 2), "wrong comparison with NaN");
        else symx_assert(r == expect(op, a < b ? -1 : a > b ? 1 : 0), "wrong comparison of floats");
        symx_cover("floats");
    } else if (mode == 2) {
        unsigned op = symx_choose(6, "op");
        bool swap = symx_choose(2, "swap");
        int64_t i = sym_i64("i");
        double d = sym_f64("d");
        bool r = swap ? as_bool(v, call(v, v.fn(OPS[op]), v.f(d), v.i(i))) : as_bool(v, call(v, v.fn(OPS[op]), v.i(i), v.f(d)));
        if (nan(d)) symx_assert(r == expect(op, 2), "wrong comparison of an integer with NaN");
        else {
            int o = order(i, d);
            symx_assert(r == expect(op, swap ? -o : o), "wrong comparison of an integer with a float");
        }
        symx_cover("mixed");
    } else if (mode == 3) {
        // strings: equality is equality of contents, also between strings and slices
        unsigned op = symx_choose(2, "op");
        unsigned la = symx_choose(4, "la"), lb = symx_choose(4, "lb");
        unsigned kind = symx_choose(3, "kind");
        char a[4] = {}, b[4] = {};
        symx_make(a, 4, "sa");
        symx_make(b, 4, "sb");
        for (unsigned k = 0; k < 4; ++k) symx_assume((a[k] & 0x80) == 0 && (b[k] & 0x80) == 0);
        bool same = la == lb;
        for (unsigned k = 0; k < la && same; ++k) same = a[k] == b[k];
        tiro_handle_t ha = v.s({a, la}), hb = v.s({b, lb});
        VM& w = v;
        if (kind) {
            w.load("export func slice(s) { return s.slice_first(s.size()); }", "sl");
            hb = call(v, v.fn("slice", "sl"), hb).value;
            if (kind == 2) ha = call(v, v.fn("slice", "sl"), ha).value;
        }
        bool r = as_bool(v, call(v, v.fn(OPS[op]), ha, hb));
        symx_assert(r == (op == 0 ? same : !same), "wrong equality of strings");
        bool r2 = as_bool(v, call(v, v.fn(OPS[op]), hb, ha));
        symx_assert(r == r2, "string equality is not symmetric");
        symx_cover("strings");
    } else if (mode == 4) {
        // values of different kinds
        v.load("export func mk(k) { if (k == 0) { return null; } if (k == 1) { return true; } if (k == 2) { return false; } if (k == 3) { return #a; } "
               "if (k == 4) { return #b; } if (k == 5) { return [1]; } if (k == 6) { return (1, 2); } if (k == 7) { return map{}; } if (k == 8) { return set{}; } "
               "if (k == 9) { return mk; } if (k == 10) { return 7; } if (k == 11) { return \"7\"; } if (k == 12) { return 7.0; } return (x: 1); }", "mk");
        unsigned x = symx_choose(14, "x"), y = symx_choose(14, "y"), op = symx_choose(6, "op");
        tiro_handle_t f = v.fn("mk", "mk");
        tiro_handle_t a = call(v, f, v.i(x)).value, b = call(v, f, v.i(y)).value;
        bool ident = x == y && (x < 5 || (x >= 9 && x <= 12));
        if ((x == 10 && y == 12) || (x == 12 && y == 10)) ident = true;
        Call c = call(v, v.fn(OPS[op]), a, b);
        symx_observe(c.ok);
        if (op < 2) symx_assert(as_bool(v, c) == (op == 0 ? ident : !ident), "wrong equality of values of different kinds");
        else {
            bool nx = x == 0, ny = y == 0, num = (x == 10 || x == 12) && (y == 10 || y == 12);
            if (nx || ny) symx_assert(as_bool(v, c) == expect(op, nx && ny ? 0 : nx ? -1 : 1), "wrong order of null");
            else if (num) symx_assert(as_bool(v, c) == expect(op, 0), "wrong order of equal numbers");
            else symx_assert(!c.ok, "an undefined comparison did not panic");
        }
        // the same value equals itself
        bool self = as_bool(v, call(v, v.fn("eq"), a, a));
        symx_assert(self, "a value is not equal to itself");
        symx_cover("kinds");
    } else if (mode == 5) {
        // equality is an equivalence, order is total on numbers without NaN
        int64_t i = sym_i64("i");
        double d = sym_f64("d");
        int64_t j = sym_i64("j");
        symx_assume(!nan(d));
        bool e1 = as_bool(v, call(v, v.fn("eq"), v.i(i), v.f(d)));
        bool e2 = as_bool(v, call(v, v.fn("eq"), v.f(d), v.i(j)));
        if (e1 && e2) symx_assert(i == j, "equality of numbers is not transitive");
        symx_cover("transitive");
    } else if (mode == 6) {
        int64_t a = sym_i64("a"), b = sym_i64("b");
        int64_t r = as_int(v, call(v, v.fn("cond"), v.i(a), v.i(b)).value);
        symx_assert(r == (a < b ? 1 : a == b ? 2 : 3), "comparison in a condition is wrong");
        symx_cover("cond");
    } else {
        bool a = sym_bool("a"), b = sym_bool("b");
        unsigned op = symx_choose(2, "op");
        bool r = as_bool(v, call(v, v.fn(OPS[op]), v.b(a), v.b(b)));
        symx_assert(r == (op == 0 ? a == b : a != b), "wrong equality of booleans");
        symx_cover("bools");
    }
    return 0;
}
