// C09: garbage collection is invisible. Programs that exercise every kind of object are executed with a collection before
// the k-th allocation, for a symbolic k (or before every allocation), and must produce what they produce without one.
// Free memory is overwritten by the hook: an object that was not kept alive cannot be used unnoticed.
// -DLOAD: the virtual machine is created, and modules are compiled and loaded, with collections. -DAPI: objects made by the host.
// COVERS: same collected
#define TH_TRACE
#include "tiroh.hpp"
#include <vector>
using namespace th;

static bool counting, active, every;
static unsigned block_, count_, at, collections;
extern "C" bool tiro_verify_collect() {
    if (!counting) return false;
    unsigned n = count_++;
    if (!active) return false;
    if (!every && collections) return false;   // (spares the solver the question)
    bool r = every || (n / 32 == block_ && n == at);
    collections += r;
    return r;
}
static const char* PROGRAMS[] = {
    // arrays, nested values, growth, iterators
    R"(export func main() { const a = []; for var i = 0; i < 20; i += 1 { a.append((i * 1.5, "x${i}", [i])); } var s = "";
        for t in a { const (f, x, b) = t; s = "${s}${f}${x}${b[0]};"; } a.clear(); a.append(1.25); return "${s}${a.size()}${a[0]}"; })",
    // maps: growth, removal, views
    R"(export func main() { const m = map{}; for var i = 0; i < 24; i += 1 { m["k${i}"] = (i * 0.5, "v${i}"); if i % 3 == 0 { m.remove("k${i / 2}"); } } var s = "";
        for e in m { const (k, v) = e; s = "${s}${k}${v.0}${v.1}"; } for k in m.keys() { s = "${s}${k}"; } for v in m.values() { s = "${s}${v.0}"; } return "${s}${m.size()}"; })",
    // sets, mixed keys
    R"(export func main() { const s = set{"a", 1.5, 2, #sym}; for var i = 0; i < 20; i += 1 { s.insert("b${i % 7}"); s.insert(i * 0.25); } s.remove("b3"); var r = "";
        for x in s { r = "${r}${x},"; } return "${r}${s.size()}${s.contains(0.75)}"; })",
    // closures and loops that capture variables
    R"(func make(n) { var c = n * 1.0; return (func() { c = c + 0.5; return c; }, func() = "${c}"); }
        export func main() { const fs = []; for var i = 0; i < 6; i += 1 { const x = "i${i}"; fs.append(func(y) = "${x}${y}"); } const (inc, get) = make(3); inc(); inc(); var r = get();
        for f in fs { r = "${r}${f(inc())}"; } return r; })",
    // strings, builders, slices
    R"(export func main() { const sb = std.new_string_builder(); for var i = 0; i < 12; i += 1 { sb.append("part${i}", i * 0.5, ","); } const s = sb.to_string();
        const sl = s.slice(3, 20); const r = sl.slice_first(9); const l = sl.slice_last(4); sb.clear(); sb.append(r, l, sl); return "${s}${r.size()}${l.to_string()}${sb.to_string()}${r == "t00,part1"}"; })",
    // panics, catch, defer, exceptions
    R"(func f(x, log) { defer log.append("d${x}"); if x > 3 { std.panic("boom${x * 0.5}"); } const r = f(x + 1, log); return "${r}!"; }
        export func main() { const log = []; const r = std.catch_panic(func() = f(0, log)); const e = r.error(); var s = "${r.is_error()}${e.message()}${e.trace().slice_last(58)}"; for x in log { s = "${s}${x}"; }
        const q = std.catch_panic(func() = 9223372036854775807 + log.size()); const p = std.catch_panic(func() = "a".foo()); return "${s}${q.error().message()}${p.error().message()}"; })",
    // records, tuples, members
    R"(export func main() { const o = []; for var i = 0; i < 8; i += 1 { const r = (name: "n${i}", pos: (x: i * 0.5, y: [i])); r.pos.x = r.pos.x + 0.25; r.name = "${r.name}!"; o.append(r); }
        var s = ""; for r in o { s = "${s}${r.name}${r.pos.x}${r.pos.y[0]}"; } const (a, b) = ("p${s}", (1.5, "q")); const (c, d) = b; return "${a}${c}${d}${std.debug_repr(o[1])}"; })",
    // coroutines, tokens, results
    R"(func work(id, out) { for var i = 0; i < 4; i += 1 { out.append("${id}:${i * 0.5}"); std.dispatch(); } return "done${id}"; }
        export func main() { const out = []; const cs = []; for var i = 0; i < 3; i += 1 { cs.append(std.launch(work, "c${i}", out)); } var tok = null;
        std.launch(func() { tok = std.coroutine_token(); std.yield_coroutine(); out.append("woken${1.5}"); }); for var i = 0; i < 6; i += 1 { std.dispatch(); } tok.resume(); std.dispatch(); std.dispatch();
        var s = ""; for x in out { s = "${s}${x} "; } return s; })",
    // deep recursion: the stack of the coroutine grows
    R"(func deep(n, a, b) { if n == 0 { return (a, b); } const x = "v${n}"; const (p, q) = deep(n - 1, x, b + 0.5); return (p, "${q}${n}"); }
        export func main() { const (p, q) = deep(60, "a", 1.5); return "${p}${q}"; })",
    // large objects
    R"(export func main() { const bs = []; for var i = 0; i < 3; i += 1 { const b = std.new_buffer(20000 + i); b[19999] = i + 7; bs.append(b); } var s = "";
        const a = []; for var i = 0; i < 2100; i += 1 { a.append(i); } for b in bs { s = "${s}${b.size()}:${b[19999]},"; } return "${s}${a.size()}${a[2099]}"; })",
    // bound methods, types, iterators, symbols, big integers
    R"(export func main() { const a = [1.5]; const ap = a.append; ap("x${2}"); const big = 4611686018427387904; const t = std.type_of(a); const u1 = std.type_of(1); const sym = #abc; var s = "${a.size()}${a[1]}${t == std.type_of([])}${u1 == t}${big + a.size()}${big * 1 - 5}${sym}";
        const r = std.success("ok${s}"); const e = std.error((1.5, "e")); const u = std.to_utf8("h${1}"); for c in "ab${1.5}" { s = "${s}${c}"; } for c in ("t${2}", 2.5) { s = "${s}${c}"; } const st = set{1.5, "e${3}"}; for c in st { s = "${s}${c}"; } return "${r.value()}${e.error().1}${s}${u.size()}${u[1]}"; })",
    // debug_repr of everything, optional chains, short circuits
    R"(export func main() { const m = map{"a": [1, 2.5, null], #b: (x: "q\n", y: set{1.5}), 3: (1, "z",)}; const f = m["a"]?[1] ?? "none"; const g = m["nope"]?.foo?.bar ?? "nil${1.5}";
        var i = 1.5; const l = [i, i += 1.5, "s${i}"]; return "${std.debug_repr(m)}${f}${g}${std.debug_repr(l)}${i && "t${i}"}"; })",
};
static const char* MODULE_A = "import std; export const base = [1.5, \"s${2.5}\"]; export func get(i) = base[i]; export const rec = (x: base, y: map{\"k\": base});";
static const char* MODULE_B = "import std; import a; const t = std.new_string_builder(); export func main() { t.append(a.get(0), a.get(1)); return \"${a.rec.y[\"k\"][1]}${t.to_string().size()}${std.debug_repr(a.rec)}\"; }";

static std::string text(VM& v, tiro_handle_t h) {
    tiro_string_t s{};
    Err e;
    tiro_string_value(v.vm, h, &s, e);
    return e.code() == TIRO_OK ? std::string(s.data, s.length) : "?";
}
static std::string run(VM& v, tiro_handle_t f) {
    Call c = call(v, f);
    if (!c.ok) { tiro_exception_message(v.vm, c.value, c.value, OK); if (symx_is_replay()) fprintf(stderr, "%s\n", text(v, c.value).c_str()); symx_fail("the program panics"); }
    std::string s = text(v, c.value);
    tiro_global_free(c.value);
    return s;
}
static unsigned base;
static void choose_k() {
    // k = 32 * block + low, with a symbolic low
    unsigned block = symx_choose(base / 32 + 1, "block");
    unsigned char low;
    symx_make(&low, 1, "low");
    symx_assume(low < 32);
    block_ = block;
    unsigned k = block * 32 + low;
    symx_assume(k <= base);
    every = k == base;
    at = k;      // stays symbolic
    if (every) at = ~0u;
    count_ = 0; collections = 0; active = counting = true;
}
static void done() { counting = active = false; symx_cover("collected"); }

#ifdef LOAD
static std::string life() {
    VM v(true);
    v.load(MODULE_A, "a");
    v.load(MODULE_B, "test");
    tiro_handle_t f = v.fn("main");
    std::string s = run(v, f);
    return s + run(v, f);
}
int main() {
    counting = true;
    std::string want = life();
    base = count_;
    choose_k();
    std::string got = life();
    done();
    symx_assert(got == want, "garbage collection changes what a program does");
    symx_observe(got.size());
    symx_cover("same");
    return 0;
}
#elif defined(API)
// values made by the host: everything is kept in handles, and in each other
static std::string api(VM& v, unsigned what) {
    tiro_vm_t vm = v.vm;
    tiro_handle_t a = v.h(), b = v.h(), c = v.h(), d = v.h(), r = v.h();
    std::string s;
    auto put = [&](tiro_handle_t h) { tiro_handle_t t = v.h(); tiro_value_to_string(vm, h, t, OK); s += text(v, t) + ";"; tiro_global_free(t); };
    switch (what) {
    case 0:
        tiro_make_array(vm, 0, a, OK);
        for (int k = 0; k < 10; ++k) { tiro_make_float(vm, k * 0.5, b, OK); tiro_array_push(vm, a, b, OK); tiro_make_string(vm, str("abc"), b, OK); tiro_array_push(vm, a, b, OK); }
        for (size_t k = 0; k < tiro_array_size(vm, a); ++k) { tiro_array_get(vm, a, k, b, OK); put(b); }
        break;
    case 1:
        tiro_make_array(vm, 2, a, OK);
        for (const char* n : {"x", "y", "z"}) { tiro_make_string(vm, str(n), b, OK); tiro_array_push(vm, a, b, OK); }
        tiro_make_record_schema(vm, a, c, OK);
        tiro_make_record(vm, c, d, OK);
        for (const char* n : {"x", "y", "z"}) { tiro_make_string(vm, str(n), b, OK); tiro_make_float(vm, n[0] * 0.5, r, OK); tiro_record_set(vm, d, b, r, OK); }
        tiro_record_keys(vm, d, a, OK);
        for (size_t k = 0; k < tiro_array_size(vm, a); ++k) { tiro_array_get(vm, a, k, b, OK); put(b); tiro_record_get(vm, d, b, r, OK); put(r); }
        break;
    case 2:
        tiro_make_tuple(vm, 3, a, OK);
        for (int k = 0; k < 3; ++k) { tiro_make_integer(vm, (int64_t(1) << 62) + k, b, OK); tiro_tuple_set(vm, a, k, b, OK); }
        tiro_make_success(vm, a, c, OK); tiro_make_error(vm, c, d, OK); tiro_result_error(vm, d, d, OK); tiro_result_value(vm, d, r, OK);
        for (int k = 0; k < 3; ++k) { tiro_tuple_get(vm, r, k, b, OK); put(b); }
        break;
    case 3:
        tiro_make_module(vm, str("m1"), nullptr, 0, a, OK);
        { tiro_make_string(vm, str("val"), b, OK); tiro_module_member_t m{str("member"), b}; tiro_make_module(vm, str("m2"), &m, 1, c, OK); tiro_vm_load_module(vm, c, OK); tiro_vm_get_export(vm, str("m2"), str("member"), r, OK); put(r); }
        break;
    case 4:
        tiro_value_type(vm, v.s("x"), a, OK); tiro_type_name(vm, a, b, OK); put(b);
        tiro_kind_type(vm, TIRO_KIND_ARRAY, a, OK); tiro_type_name(vm, a, b, OK); put(b);
        tiro_make_buffer(vm, 5, a, OK); memcpy(tiro_buffer_data(vm, a), "abcde", 5); tiro_make_float(vm, 1.5, b, OK); s += std::string((const char*) tiro_buffer_data(vm, a), 5);
        break;
    }
    for (auto h : {a, b, c, d, r}) tiro_global_free(h);
    return s;
}
int main() {
    unsigned what = symx_choose(5, "what");
    VM v(true);
    counting = true;
    std::string want;
    { VM w(true); count_ = 0; want = api(w, what); base = count_; counting = false; }
    choose_k();
    std::string got = api(v, what);
    done();
    if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "[%u: %u allocations] %s\n%s\n", what, base, want.c_str(), got.c_str());
    symx_assert(got == want, "garbage collection changes the values of the host");
    symx_assert(collections > 0, "no collection");
    symx_observe(got.size());
    symx_cover("same");
    return 0;
}
#else
int main() {
    unsigned p = symx_choose(sizeof(PROGRAMS) / sizeof(*PROGRAMS), "program");
    VM v(true);
    v.load(std::string("import std; ") + PROGRAMS[p]);
    tiro_handle_t f = v.fn("main");
    counting = true;
    std::string want = run(v, f);
    base = count_;
    choose_k();
    std::string got = run(v, f);
    done();
    if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "[%u: %u allocations] %s\n%s\n", p, base, want.c_str(), got.c_str());
    symx_assert(got == want, "garbage collection changes what a program does");
    symx_assert(collections > 0 || (!every && at + 8 >= base), "no collection");   // (the coroutine's stack may be smaller the second time)
    symx_assert(run(v, f) == want, "garbage collection changes what a program does afterwards");
    symx_observe(got.size());
    symx_cover("same");
    return 0;
}
#endif
