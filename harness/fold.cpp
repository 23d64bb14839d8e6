// C03: what the compiler computes at compile time is what the program would compute at run time.
#include "tiroh.hpp"
#include "compiler/ir_gen/const_eval.hpp"
#include <cmath>
using namespace th;
namespace ir = tiro::ir;

static const char* SRC = R"(
export func add(a, b) = a + b;
export func sub(a, b) = a - b;
export func mul(a, b) = a * b;
export func div(a, b) = a / b;
export func mod(a, b) = a % b;
export func pow(a, b) = a ** b;
export func eq(a, b) = a == b;
export func ne(a, b) = a != b;
export func lt(a, b) = a < b;
export func le(a, b) = a <= b;
export func gt(a, b) = a > b;
export func ge(a, b) = a >= b;
export func pos(a) = +a;
export func neg(a) = -a;
export func bnot(a) = ~a;
export func not(a) = !a;
)";
static const char* OPS[] = {"add", "sub", "mul", "div", "mod", "pow", "eq", "ne", "lt", "le", "gt", "ge"};
static const ir::BinaryOpType BOP[] = {ir::BinaryOpType::Plus, ir::BinaryOpType::Minus, ir::BinaryOpType::Multiply, ir::BinaryOpType::Divide,
    ir::BinaryOpType::Modulus, ir::BinaryOpType::Power, ir::BinaryOpType::Equals, ir::BinaryOpType::NotEquals, ir::BinaryOpType::Less,
    ir::BinaryOpType::LessEquals, ir::BinaryOpType::Greater, ir::BinaryOpType::GreaterEquals};
static const char* UOPS[] = {"pos", "neg", "bnot", "not"};
static const ir::UnaryOpType UOP[] = {ir::UnaryOpType::Plus, ir::UnaryOpType::Minus, ir::UnaryOpType::BitwiseNot, ir::UnaryOpType::LogicalNot};

static uint64_t bits(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    if ((u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (u & 0xfffffffffffffull)) return 0x7ff8000000000000ull;
    return u;
}
struct Operand { ir::Constant c; tiro_handle_t h; };
static Operand mk(VM& v, unsigned kind, const char* name, bool small) {
    switch (kind) {
    case 0: { int64_t i = small ? sym_range(name, -4, 4) : sym_i64(name); return {ir::Constant::make_integer(i), v.i(i)}; }
    case 1: { double d = sym_f64(name); return {ir::Constant::make_float(d), v.f(d)}; }
    case 2: return {ir::Constant::make_true(), v.b(true)};
    case 3: return {ir::Constant::make_false(), v.b(false)};
    default: return {ir::Constant::make_null(), v.null()};
    }
}
static void compare(VM& v, const ir::EvalResult& e, const Call& c) {
    symx_observe(c.ok);
    symx_observe(e.is_value());
    if (!e) {
        // left to the run time, which must not succeed when the error is one of the operation
        if (e.type() == ir::EvalResultType::IntegerOverflow || e.type() == ir::EvalResultType::DivideByZero)
            symx_assert(!c.ok, "folding reports an arithmetic error that does not happen at run time");
        symx_cover("error");
        return;
    }
    symx_assert(c.ok, "a folded operation panics at run time");
    const ir::Constant& k = *e;
    switch (k.type()) {
    case ir::ConstantType::Integer:
        symx_assert(tiro_value_kind(v.vm, c.value) == TIRO_KIND_INTEGER, "folding and run time disagree about the type");
        symx_assert(tiro_integer_value(v.vm, c.value) == k.as_integer().value, "folding and run time disagree about an integer");
        symx_cover("int");
        break;
    case ir::ConstantType::Float:
        symx_assert(tiro_value_kind(v.vm, c.value) == TIRO_KIND_FLOAT, "folding and run time disagree about the type");
        symx_assert(bits(tiro_float_value(v.vm, c.value)) == bits(k.as_float().value), "folding and run time disagree about a float");
        symx_cover("float");
        break;
    case ir::ConstantType::True:
    case ir::ConstantType::False:
        symx_assert(tiro_value_kind(v.vm, c.value) == TIRO_KIND_BOOLEAN, "folding and run time disagree about the type");
        symx_assert(tiro_boolean_value(v.vm, c.value) == (k.type() == ir::ConstantType::True), "folding and run time disagree about a boolean");
        symx_cover("bool");
        break;
    case ir::ConstantType::Null:
        symx_assert(tiro_value_kind(v.vm, c.value) == TIRO_KIND_NULL, "folding and run time disagree about the type");
        break;
    default: symx_fail("unexpected constant");
    }
}
// a literal with symbolic digits, its value
static int64_t lit(std::string& s, const char* name, unsigned digits) {
    unsigned char d[4];
    symx_make(d, digits, name);
    int64_t r = 0;
    for (unsigned k = 0; k < digits; ++k) {
        symx_assume(d[k] >= '0' && d[k] <= '9');
        s += (char) d[k];
        r = r * 10 + (d[k] - '0');
    }
    return r;
}

int main() {
    VM v;
    v.load(SRC);
    unsigned mode = symx_choose(4, "mode");
    if (mode == 0) {
        unsigned op = symx_choose(12, "op");
        unsigned ka = symx_choose(5, "ka"), kb = symx_choose(5, "kb");
        bool small = op == 5 && ka == 0 && kb == 0;
        Operand a = mk(v, ka, "a", small), b = mk(v, kb, "b", small);
        Call c = call(v, v.fn(OPS[op]), a.h, b.h);
        compare(v, ir::eval_binary_operation(BOP[op], a.c, b.c), c);
        symx_cover("binary");
    } else if (mode == 1) {
        unsigned op = symx_choose(4, "op"), ka = symx_choose(5, "ka");
        Operand a = mk(v, ka, "a", false);
        Call c = call(v, v.fn(UOPS[op]), a.h);
        compare(v, ir::eval_unary_operation(UOP[op], a.c), c);
        symx_cover("unary");
    } else if (mode == 2) {
        // constants that compare equal stay apart where they behave differently
        v.load(R"(
            export func zero(a) { const p = 0.0; const n = -0.0; return (a / p, a / n); }
            export func kinds(a) { const i = 7; const f = 7.0; return (a / i, a / f); }
            export func nan(a) { const z = 0.0; const x = z / z; return (x == x, a == x, x != x, a < x, x <= x); }
            export func str(a) { const x = "ab"; const y = #ab; return (x == y, a == x); }
        )", "consts");
        unsigned k = symx_choose(3, "k");
        tiro_handle_t r = v.h(), s = v.h();
        if (k == 0) {
            double a = sym_f64("a");
            Call c = call(v, v.fn("zero", "consts"), v.f(a));
            symx_assert(c.ok, "panic");
            tiro_tuple_get(v.vm, c.value, 0, r, OK);
            tiro_tuple_get(v.vm, c.value, 1, s, OK);
            symx_assert(bits(tiro_float_value(v.vm, r)) == bits(a / 0.0), "the constant 0.0 is not positive zero");
            symx_assert(bits(tiro_float_value(v.vm, s)) == bits(a / -0.0), "the constant -0.0 is not negative zero");
        } else if (k == 1) {
            int64_t a = sym_i64("a");
            Call c = call(v, v.fn("kinds", "consts"), v.i(a));
            symx_assert(c.ok, "panic");
            tiro_tuple_get(v.vm, c.value, 0, r, OK);
            tiro_tuple_get(v.vm, c.value, 1, s, OK);
            symx_assert(as_int(v, r) == a / 7, "an integer constant became a float");
            symx_assert(tiro_value_kind(v.vm, s) == TIRO_KIND_FLOAT, "a float constant became an integer");
            symx_assert(bits(tiro_float_value(v.vm, s)) == bits((double) a / 7.0), "wrong float division by a constant");
        } else {
            double a = sym_f64("a");
            Call c = call(v, v.fn("nan", "consts"), v.f(a));
            symx_assert(c.ok, "panic");
            static const bool E[] = {false, false, true, false, false};
            for (unsigned j = 0; j < 5; ++j) {
                tiro_tuple_get(v.vm, c.value, j, r, OK);
                symx_assert(tiro_boolean_value(v.vm, r) == E[j], "wrong comparison with a NaN constant");
            }
        }
        symx_cover("consts");
    } else {
        // constants in every position of a compiled function: the folded program and the one with variables agree
        static const char* TXT[] = {"+", "-", "*", "/", "%", "**", "==", "!=", "<", "<=", ">", ">="};
        unsigned op = symx_choose(12, "op"), neg = symx_choose(4, "neg");
        std::string src = "export func f() = ";
        bool p = op == 5;
        if (neg & 1) src += "-";
        if (p) src += (neg & 1) ? "" : "";
        src += "(";
        int64_t x = lit(src, "x", p ? 1 : 2);
        src += std::string(") ") + TXT[op] + ((neg & 2) ? " -(" : " (");
        int64_t y = lit(src, "y", p ? 1 : 2);
        src += ");";
        tiro_module_t m = compile(src, nullptr, "folded");
        if (!m) symx_fail("a constant expression does not compile");
        tiro_vm_load_bytecode(v.vm, m, OK);
        tiro_module_free(m);
        Call c = call(v, v.fn("f", "folded"));
        int64_t sy = (neg & 2) ? -y : y, sx = (neg & 1) ? -x : x;
        Call d;
        if (p && (neg & 1)) { // -a ** b is -(a ** b) or (-a) ** b: decided by C16
            symx_kill();
        }
        d = call(v, v.fn(OPS[op]), v.i(sx), v.i(sy));
        symx_observe(c.ok);
        symx_assert(c.ok == d.ok, "a constant expression panics, or the same operation at run time");
        if (c.ok) {
            symx_assert(tiro_value_kind(v.vm, c.value) == tiro_value_kind(v.vm, d.value), "constant expression of another type");
            bool same = op < 6 ? tiro_integer_value(v.vm, c.value) == tiro_integer_value(v.vm, d.value)
                               : tiro_boolean_value(v.vm, c.value) == tiro_boolean_value(v.vm, d.value);
            symx_assert(same, "a constant expression differs from the operation at run time");
        }
        symx_cover("compiled");
    }
    return 0;
}
