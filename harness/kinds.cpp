// C21: every operation on every kind of values either succeeds or panics with a message, exactly as the table below says.
// Numbers are symbolic. -DBINARY: operations with two operands.
// COVERS: success panic
#include "tiroh.hpp"
#include <vector>
#include <set>
using namespace th;

enum K { NUL, BOOL, INT, HINT, FLT, STR, SLICE, SYM, TUP, REC, ARR, BUF, MAP, SET, FUN0, FUN1, CLOS, NAT, METH, MAGIC, TYPE, CORO, TOK, RESOK, RESERR, EXC, BUILDER, NATOBJ, SCHEMA, MODULE, KEYS, VALUES, NK };
static const char* NAME[] = {"Null", "Boolean", "Integer", "Integer", "Float", "String", "StringSlice", "Symbol", "Tuple", "Record", "Array", "Buffer", "Map", "Set", "Function", "Function", "Function", "Function", "Function", "Function", "Type", "Coroutine", "CoroutineToken", "Result", "Result", "Exception", "StringBuilder", "NativeObject", "RecordSchema", "Module", "MapKeyView", "MapValueView"};
typedef bool (*Pred)(K, K);
struct Op { const char* code; Pred ok; bool concrete = false; };
#define P [](K a, K b) -> bool
static bool num(K k) { return k == INT || k == HINT || k == FLT; }
static bool integer(K k) { return k == INT || k == HINT; }
static bool text(K k) { return k == STR || k == SLICE; }
static bool seq(K k) { return k == TUP || k == ARR || k == BUF; }
static bool iter(K k) { return k == ARR || k == TUP || k == MAP || k == SET || k == STR || k == SLICE || k == KEYS || k == VALUES; }
static bool is(K k, std::initializer_list<K> l) { for (K x : l) if (x == k) return true; return false; }

#define U [[maybe_unused]] 
static const Op UNARY[] = {
    {"-a", P { return num(a); }}, {"+a", P { return num(a); }}, {"~a", P { return integer(a); }}, {"!a", P { return true; }},
    {"if (a) { 1; } else { 2; }", P { return true; }}, {"a ?? 1", P { return true; }},
    {"a.p", P { return a == REC || a == MODULE; }}, {"a.q", P { return false; }}, {"a?.p", P { return is(a, {REC, MODULE, NUL}); }},
    {"{ a.p = 1; 1; }", P { return a == REC; }}, {"{ a.q = 1; 1; }", P { return false; }},
    {"a.0", P { return a == TUP; }}, {"a.7", P { return false; }}, {"a?.0", P { return a == TUP || a == NUL; }},
    {"{ a.0 = 1; 1; }", P { return a == TUP; }}, {"{ a.7 = 1; 1; }", P { return false; }},
    {"{ const (x, y) = a; y; }", P { return a == TUP; }},
    {"{ var x = 0; var y = 0; (x, y) = a; y; }", P { return a == TUP; }},
    {"{ for x in a { } 1; }", P { return iter(a); }},
    {"\"x${a}\"", P { return true; }, true},
    {"a()", P { return a == FUN0; }}, {"a(1)", P { return is(a, {FUN1, CLOS, NAT, MAGIC}); }}, {"a(1, 2)", P { return is(a, {NAT, METH, MAGIC}); }}, {"a?()", P { return a == FUN0 || a == NUL; }},
    {"a.size()", P { return is(a, {ARR, BUF, TUP, MAP, SET, STR, SLICE, BUILDER}); }}, {"a.size(1)", P { return is(a, {ARR, BUF, TUP, MAP, SET, STR, SLICE, BUILDER}); }},
    {"a.append(1)", P { return is(a, {ARR, BUILDER}); }}, {"a.append()", P { return a == BUILDER; }}, {"a.append_byte(1)", P { return a == BUILDER; }},
    {"a.clear()", P { return is(a, {ARR, MAP, SET, BUILDER}); }}, {"a.contains(\"x\")", P { return is(a, {MAP, SET, STR, SLICE, BUILDER}); }},
    {"a.insert(1)", P { return a == SET; }}, {"a.remove(1)", P { return is(a, {SET, MAP}); }}, {"a.keys()", P { return a == MAP; }}, {"a.values()", P { return a == MAP; }},
    {"a.slice(0, 1)", P { return text(a); }}, {"a.slice_first(1)", P { return text(a); }}, {"a.slice_last(1)", P { return text(a); }}, {"a.to_string()", P { return is(a, {SLICE, BUILDER}); }},
    {"a.name()", P { return a == CORO; }}, {"a.message()", P { return a == EXC; }}, {"a.trace()", P { return a == EXC; }},
    {"a.is_success()", P { return is(a, {RESOK, RESERR}); }}, {"a.is_error()", P { return is(a, {RESOK, RESERR}); }}, {"a.type()", P { return is(a, {RESOK, RESERR}); }},
    {"a.value()", P { return a == RESOK; }}, {"a.error()", P { return a == RESERR; }},
    {"a.coroutine()", P { return a == TOK; }}, {"a.valid()", P { return a == TOK; }}, {"a.resume()", P { return a == TOK; }},
    {"a.nope()", P { return false; }},
    {"map{a: 1}", P { return true; }, true}, {"set{a, 1, a}", P { return true; }, true}, {"[a, a]", P { return true; }}, {"(a, a)", P { return true; }}, {"(x: a)", P { return true; }},
    {"std.type_of(a)", P { return true; }}, {"std.schema_of(a)", P { return a == REC; }}, {"std.debug_repr(a)", P { return true; }, true}, {"std.debug_repr(a, true)", P { return true; }, true},
    {"std.print(a, a)", P { return true; }, true}, {"std.to_utf8(a)", P { return a == STR; }},
    {"std.abs(a)", P { return num(a); }}, {"std.sqrt(a)", P { return num(a); }}, {"std.log(a)", P { return num(a); }}, {"std.round(a)", P { return num(a); }}, {"std.floor(a)", P { return num(a); }},
    {"std.ceil(a)", P { return num(a); }}, {"std.sin(a)", P { return num(a); }}, {"std.cos(a)", P { return num(a); }}, {"std.tan(a)", P { return num(a); }}, {"std.asin(a)", P { return num(a); }},
    {"std.acos(a)", P { return num(a); }}, {"std.atan(a)", P { return num(a); }}, {"std.pow(a, 1)", P { return num(a); }}, {"std.pow(1, a)", P { return num(a); }},
    {"std.success(a)", P { return true; }}, {"std.error(a)", P { return true; }}, {"std.panic(a)", P { return false; }, true},
    {"std.catch_panic(a)", P { return true; }, true}, {"std.catch_panic(a, a)", P { return true; }, true}, {"std.launch(a)", P { return true; }, true}, {"std.new_buffer(a)", P { return a == INT; }},
    {"{ assert(a); 1; }", P { return a != NUL && a != BOOL; }}, {"{ assert(false, \"${a}\"); 1; }", P { return false; }, true}, {"{ assert(1 == 1, \"\"); 1; }", P { return true; }},
    {"a += 1", P { return num(a); }}, {"a **= 1", P { return num(a); }},
};
static const Op BIN[] = {
    {"a + b", P { return num(a) && num(b) && !(a == HINT && b == HINT); }}, {"a - b", P { return num(a) && num(b); }}, {"a * b", P { return num(a) && num(b) && !(a == HINT && b == HINT); }}, {"a / b", P { return num(a) && num(b); }}, {"a % b", P { return num(a) && num(b); }},
    {"a ** b", P { return num(a) && num(b) && !(a == HINT && b == HINT); }, true},
    {"a < b", P { return (num(a) && num(b)) || a == NUL || b == NUL; }}, {"a <= b", P { return (num(a) && num(b)) || a == NUL || b == NUL; }}, {"a > b", P { return (num(a) && num(b)) || a == NUL || b == NUL; }}, {"a >= b", P { return (num(a) && num(b)) || a == NUL || b == NUL; }},
    {"a == b", P { return true; }}, {"a != b", P { return true; }}, {"a && b", P { return true; }}, {"a || b", P { return true; }}, {"a ?? b", P { return true; }},
    {"a[b]", P { return a == MAP || (seq(a) && b == INT); }, true}, {"a?[b]", P { return a == MAP || a == NUL || (seq(a) && b == INT); }, true},
    {"{ a[b] = 1; 1; }", P { return a == MAP || (seq(a) && b == INT); }, true},
    {"{ b[1] = a; 1; }", P { return is(b, {MAP, TUP, ARR}) || (b == BUF && a == INT); }, true},
    {"a.contains(b)", P { return a == MAP || a == SET || (is(a, {STR, SLICE, BUILDER}) && text(b)); }, true},
    {"a.insert(b)", P { return a == SET; }, true}, {"a.remove(b)", P { return a == SET || a == MAP; }, true}, {"a.append(b)", P { return a == ARR || a == BUILDER; }, true},
    {"a.append_byte(b)", P { return a == BUILDER && b == INT; }},
    {"a.slice_first(b)", P { return text(a) && integer(b); }}, {"a.slice_last(b)", P { return text(a) && integer(b); }}, {"a.slice(0, b)", P { return text(a) && integer(b); }}, {"a.slice(b, 1)", P { return text(a) && integer(b); }},
    {"a(b)", P { return is(a, {FUN1, CLOS, NAT, MAGIC}); }, true}, {"(1, a, b).2", P { return true; }},
};
static const unsigned NU = sizeof(UNARY) / sizeof(Op), NB = sizeof(BIN) / sizeof(Op);

int main() {
    VM v(true);
#ifdef BINARY
    const Op* ops = BIN; unsigned n = NB;
#else
    const Op* ops = UNARY; unsigned n = NU;
#endif
    std::string src = R"(
        import std;
        export func caught(f, a, b) { const r = std.catch_panic(func() { return f(a, b); }); return r; }
        export func type_name(a) = std.type_of(a).name();
        func id(x) = x;
        export func make(native, object, std_module, coro) {
            const m = map{1: 2, "a": 3};
            const r = (p: 5, f: id);
            const arr = [1, 2, 3];
            const c = func(x) { return r; };
            const bad = std.catch_panic(func() { std.panic("x"); });
            const builder = std.new_string_builder();
            builder.append("abc");
            return (null, false, 1, 4611686018427387905, 1.5, "abc", "abc".slice(0, 2), #a, (1, 2), r, arr, std.new_buffer(3), m, set{1, 2},
                func() = 1, id, c, native, std.pow, std.catch_panic, std.Array, coro, std.coroutine_token(), std.success(1), bad, bad.error(), builder, object, std.schema_of(r), std_module, m.keys(), m.values());
        }
    )";
    for (unsigned k = 0; k < n; ++k)
        src += "export func f" + std::to_string(k) + "(a, b) { return " + ops[k].code + "; }\n";
    v.load(src);

    // operands, made before the program forks
    tiro_handle_t H[NK], null = v.null(), nat = v.h(), obj = v.h(), coro = v.h(), mod = v.h();
    tiro_make_sync_function(v.vm, v.s("nat"), [](tiro_vm_t, tiro_sync_frame_t) {}, 1, null, nat, OK);
    static tiro_native_type_t T{};
    T.name = str("native");
    T.alignment = 8;
    tiro_make_native(v.vm, &T, 8, obj, OK);
    tiro_make_coroutine(v.vm, nat, null, coro, OK);
    tiro_module_member_t m{str("p"), v.i(3)};
    tiro_make_module(v.vm, str("withp"), &m, 1, mod, OK);
    Call mk = call(v, v.fn("make"), nat, obj, mod, coro);
    symx_assert(mk.ok, "harness failed");
    for (int k = 0; k < NK; ++k) {
        H[k] = v.h();
        tiro_tuple_get(v.vm, mk.value, k, H[k], OK);
    }
    unsigned o = symx_choose(n, "operation");
    K a = (K) symx_choose(NK, "first"), b = NUL;
#ifdef BINARY
    b = (K) symx_choose(NK, "second");
#endif
    const Op& op = ops[o];
    if (a == HINT && !strcmp(op.code, "std.new_buffer(a)")) return 0; // the memory limit is another matter
    int64_t x = sym_range("x", 0, 1), y = 1;
    double d = sym_f64("d"), e = sym_f64("e");
    if (!op.concrete) {
        if (a == INT) tiro_make_integer(v.vm, x, H[INT], OK);
        if (a == FLT) tiro_make_float(v.vm, d, H[FLT], OK);
    }
    tiro_handle_t B = H[b];
    if (a == b || !op.concrete) {
        if (b == INT) B = v.i(op.concrete ? 1 : y);
        if (b == FLT) B = v.f(op.concrete ? 2.5 : e);
    }
    tiro_handle_t f = v.fn("f" + std::to_string(o));
    // directly
    Call c = call(v, f, H[a], B);
    bool expect = op.ok(a, b);
    if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "%s with %s, %s: %s\n", op.code, NAME[a], NAME[b], c.ok ? "ok" : "panic");
    symx_observe(c.ok);
    symx_assert(c.ok == expect, c.ok ? "the operation succeeds although it is not defined" : "the operation panics although it is defined");
    if (c.ok) { symx_cover("success"); return 0; }
    tiro_handle_t msg = v.h();
    symx_assert(tiro_value_kind(v.vm, c.value) == TIRO_KIND_EXCEPTION, "panic without an exception");
    tiro_exception_message(v.vm, c.value, msg, OK);
    tiro_string_t s;
    tiro_string_value(v.vm, msg, &s, OK);
    symx_assert(tiro_value_kind(v.vm, msg) == TIRO_KIND_STRING, "panic without a message");
    if (o != 0 && strncmp(op.code, "std.panic", 9)) symx_assert(s.length > 0, "panic without a message");
    symx_cover("panic");
    return 0;
}
