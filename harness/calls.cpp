// C23: calls. A program calls, through every kind of call (plain, member of a record, method, catch_panic, from native code),
// every kind of value with any number of arguments, in nested and consecutive calls and with panics at any point. A model
// of the call stack, checked from native functions while the program runs, predicts who runs next, with which arguments,
// which value or panic every call yields and every line of the stack traces.
// COVERS: entered returned caught uncaught missing
#define TH_TRACE
#include "tiroh.hpp"
#include <vector>
using namespace th;
#ifndef BUDGET
#define BUDGET 2
#endif
static VM* V;
static tiro_vm_t vm;
static int64_t base;
static int budget = BUDGET, marks, levels;

struct Val { enum T { NUL, INT, SUCCESS, ERROR } t = NUL; int64_t i = 0; bool null = false; std::string msg, trace; };
static Val integer(int64_t i) { Val v; v.t = Val::INT; v.i = i; return v; }
enum Kind { PLAIN, GO, LAMBDA, CATCH, RES };
struct Frame { Kind k; const char* name; int mark; Val expect; bool have; };
static std::vector<Frame> st;
static bool done, panicked;
static Val final_;
static void push(Kind k, const char* name, int mark = 0) { st.push_back({k, name, mark, {}, false}); }

static void deliver(Val v) {
    for (;;) {
        if (st.empty()) { done = true; final_ = v; return; }
        Frame& f = st.back();
        switch (f.k) {
        case LAMBDA: case PLAIN: st.pop_back(); continue;      // returns what it gets
        case CATCH: {
            Val r; r.t = Val::SUCCESS; r.null = v.t == Val::NUL; r.i = v.i;
            v = r;
            st.pop_back();
            continue;
        }
        case GO: case RES: f.expect = v; f.have = true; return;
        }
    }
}
static void raise(const std::string& msg) {
    Val v; v.t = Val::ERROR; v.msg = msg; v.trace = "Coroutine-3:";
    for (size_t k = st.size(); k-- > 0;) v.trace += std::string("\n  - ") + st[k].name;
    while (!st.empty() && st.back().k != CATCH) st.pop_back();
    if (st.empty()) { done = panicked = true; final_ = v; symx_cover("uncaught"); return; }
    st.pop_back();
    symx_cover("caught");
    deliver(v);
}
static std::string text(tiro_handle_t h) {
    tiro_string_t s;
    symx_assert(tiro_value_kind(vm, h) == TIRO_KIND_STRING, "not a string");
    tiro_string_value(vm, h, &s, OK);
    return std::string(s.data, s.length);
}
static void check_exception(tiro_handle_t h, const Val& v) {
    tiro_handle_t t = tiro_global_new(vm, OK);
    symx_assert(tiro_value_kind(vm, h) == TIRO_KIND_EXCEPTION, "not an exception");
    tiro_exception_message(vm, h, t, OK);
    symx_assert(text(t) == v.msg, "wrong message");
    tiro_exception_trace(vm, h, t, OK);
    if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "[trace] %s\n[want] %s\n", text(t).c_str(), v.trace.c_str());
    symx_assert(text(t) == v.trace, "wrong stack trace");
    tiro_global_free(t);
}
static void check(tiro_handle_t h, const Val& v) {
    switch (v.t) {
    case Val::NUL: symx_assert(tiro_value_kind(vm, h) == TIRO_KIND_NULL, "result must be null"); break;
    case Val::INT: symx_assert(as_int(*V, h) == v.i, "wrong result of a call"); break;
    case Val::SUCCESS: case Val::ERROR: {
        symx_assert(tiro_value_kind(vm, h) == TIRO_KIND_RESULT, "catch_panic must yield a result");
        symx_assert(tiro_result_is_error(vm, h) == (v.t == Val::ERROR), "wrong kind of result");
        tiro_handle_t t = tiro_global_new(vm, OK);
        if (v.t == Val::ERROR) { tiro_result_error(vm, h, t, OK); check_exception(t, v); }
        else {
            tiro_result_value(vm, h, t, OK);
            Val w = integer(v.i);
            if (v.null) w = Val();
            check(t, w);
        }
        tiro_global_free(t);
    }
    }
}

// ---- the call that is pending: who must be entered with which arguments ----
enum Callee { F0, F1, F2, F3, CLOSURE, SYNC, BOUND, RESUMABLE, NUMBER, NUL_, CALLEES };
static const char* NAMES[] = {"f0", "f1", "f2", "f3", "self", "sync", "", "resumable"};
static const int PARAMS[] = {0, 1, 2, 3, 1, 2, 1, 1};
static tiro_handle_t CALLEE[CALLEES], CATCHF, ARR;
static int pending = -1;
static int appended;                     // the argument that was appended to the array
static std::vector<int64_t> args;
static int64_t level_value() { return base + 1000 + levels++; }

// chooses the next call: predicts its effect, fills in (via, argc, callee, arguments...)
struct Pick { int via, argc, callee; int64_t a[4]; };
static Pick pick(bool native) {
    Pick p;
    --budget;
#ifdef FEW
    static const int SOME[] = {F0, F2, CLOSURE, BOUND, RESUMABLE, NUL_};
    p.callee = SOME[symx_choose(6, "callee")];
    p.argc = p.callee == NUL_ ? 1 : PARAMS[p.callee];
    if (p.callee == F2 && symx_choose(2, "too few")) --p.argc;
    if (p.callee == BOUND && symx_choose(2, "too few")) --p.argc;
    p.via = native ? 2 * symx_choose(2, "caught") : symx_choose(3, "via");
#else
    p.callee = symx_choose(CALLEES, "callee");
    p.argc = symx_choose(5, "arguments");
    p.via = native ? symx_choose(2, "caught") * 3 : symx_choose(5, "via");
#endif
    symx_assume(!native || p.via || p.callee < NUMBER);     // the API does not accept others, see C24
    for (int k = 0; k < p.argc; ++k) p.a[k] = base + 16 * levels++ + k;
    if (!native) push(GO, "go", ++marks);
    int argc = p.argc, callee = p.callee;
    switch (p.via) {
    case 2: push(CATCH, "<catch panic>"); if (!native) push(LAMBDA, "<UNNAMED>"); else argc = 0; break;
    case 3: push(CATCH, "<catch panic>"); argc = 0; break;
    case 4: callee = BOUND; break;
    }
    appended = -1;
    tiro_array_clear(vm, ARR, OK);
    pending = -1;
    if (callee >= NUMBER) {
        raise(callee == NUMBER ? "cannot call objects of type Integer as a function" : "cannot call objects of type Null as a function");
        return p;
    }
    bool exact = callee <= CLOSURE;
    if (exact ? argc != PARAMS[callee] : argc < PARAMS[callee]) {
        int self = callee == BOUND;
        raise("insufficient number of function arguments (need " + std::to_string(PARAMS[callee] + self) + ", but have " + std::to_string(argc + self) + ")");
        symx_cover("missing");
        return p;
    }
    args.assign(p.a, p.a + argc);
    if (callee == BOUND) { appended = 1; deliver(Val()); return p; }
    pending = callee;
    return p;
}

static void f_pick(tiro_vm_t, tiro_sync_frame_t f) {
    symx_assert(st.back().k == PLAIN && pending < 0, "a function runs that must not run now");
    Pick p = pick(false);
    tiro_handle_t t = tiro_global_new(vm, OK), h = tiro_global_new(vm, OK);
    tiro_make_tuple(vm, 9, t, OK);
    int64_t head[] = {p.via, p.argc, 0};
    for (int k = 0; k < 2; ++k) { tiro_make_integer(vm, head[k], h, OK); tiro_tuple_set(vm, t, k, h, OK); }
    tiro_tuple_set(vm, t, 2, CALLEE[p.callee], OK);
    for (int k = 0; k < p.argc; ++k) { tiro_make_integer(vm, p.a[k], h, OK); tiro_tuple_set(vm, t, 3 + k, h, OK); }
    tiro_make_integer(vm, marks, h, OK); tiro_tuple_set(vm, t, 7, h, OK);
    tiro_tuple_set(vm, t, 8, ARR, OK);
    tiro_sync_frame_return_value(f, t, OK);
    tiro_global_free(t); tiro_global_free(h);
}
// a callee starts: reports everything it got
static void check_array() {
    size_t n = tiro_array_size(vm, ARR);
    symx_assert(n == (appended > 0), "a method of another object, or with other arguments, was called");
    if (n) {
        tiro_handle_t h = tiro_global_new(vm, OK);
        tiro_array_get(vm, ARR, 0, h, OK);
        symx_assert(as_int(*V, h) == args[0], "a method got another argument");
        tiro_global_free(h);
    }
}
static void f_enter(tiro_vm_t, tiro_sync_frame_t f) {   // enter(callee, arguments...)
    tiro_handle_t h = tiro_global_new(vm, OK);
    tiro_sync_frame_arg(f, 0, h, OK);
    symx_assert(pending >= 0 && as_int(*V, h) == pending, "another function is called");
    size_t n = tiro_sync_frame_arg_count(f) - 1;
    symx_assert(n == args.size(), "wrong number of arguments");
    for (size_t k = 0; k < n; ++k) { tiro_sync_frame_arg(f, k + 1, h, OK); symx_assert(as_int(*V, h) == args[k], "wrong argument"); }
    push(PLAIN, NAMES[pending]);
    if (pending == CLOSURE) push(PLAIN, "self");
    push(PLAIN, "body");
    pending = -1;
    tiro_global_free(h);
    symx_cover("entered");
}
// what to do next in a function: 0 call something, 1 return, 2 panic
static int next_step() {
    if (budget > 0) return symx_choose(3, "step");
    return 1 + symx_choose(2, "step");
}
static void f_more(tiro_vm_t, tiro_sync_frame_t f) {
    symx_assert(st.back().k == PLAIN && pending < 0, "a function runs that must not run now");
    int s = next_step();
    tiro_handle_t h = tiro_global_new(vm, OK);
    tiro_make_integer(vm, s, h, OK);
    tiro_sync_frame_return_value(f, h, OK);
    tiro_global_free(h);
    if (s == 2) raise("mine");
}
static void f_again(tiro_vm_t, tiro_sync_frame_t f) {   // named functions call themselves once
    static bool again;
    again = !again;
    tiro_handle_t h = tiro_global_new(vm, OK);
    tiro_make_boolean(vm, again, h, OK);
    tiro_sync_frame_return_value(f, h, OK);
    tiro_global_free(h);
}
static void f_leave(tiro_vm_t, tiro_sync_frame_t f) {
    symx_assert(st.back().k == PLAIN && pending < 0, "a function runs that must not run now");
    Val v = integer(level_value());
    tiro_handle_t h = tiro_global_new(vm, OK);
    tiro_make_integer(vm, v.i, h, OK);
    tiro_sync_frame_return_value(f, h, OK);
    tiro_global_free(h);
    deliver(v);
    symx_cover("returned");
}
static void f_got(tiro_vm_t, tiro_sync_frame_t f) {   // got(mark, result, mark)
    symx_assert(!st.empty() && st.back().k == GO && st.back().have && pending < 0, "a call returns that must not return now");
    Frame& F = st.back();
    tiro_handle_t h = tiro_global_new(vm, OK);
    symx_assert(tiro_sync_frame_arg_count(f) == 3, "temporaries of the caller");
    for (int k = 0; k < 3; k += 2) {
        tiro_sync_frame_arg(f, k, h, OK);
        symx_assert(as_int(*V, h) == F.mark, "temporaries of the caller have changed");
    }
    tiro_sync_frame_arg(f, 1, h, OK);
    check(h, F.expect);
    check_array();
    tiro_global_free(h);
    st.pop_back();
}
static void f_sync(tiro_vm_t, tiro_sync_frame_t f) {
    symx_assert(pending == SYNC, "another function is called");
    size_t n = tiro_sync_frame_arg_count(f);
    symx_assert(n == args.size(), "wrong number of arguments");
    tiro_handle_t h = tiro_global_new(vm, OK);
    for (size_t k = 0; k < n; ++k) { tiro_sync_frame_arg(f, k, h, OK); symx_assert(as_int(*V, h) == args[k], "wrong argument"); }
    Err e; tiro_sync_frame_arg(f, n, h, e);
    symx_assert(e.code() == TIRO_ERROR_OUT_OF_BOUNDS, "argument out of bounds");
    pending = -1;
    if (symx_choose(2, "native panic")) {
        tiro_sync_frame_panic_msg(f, str("native"), OK);
        push(PLAIN, "sync");
        raise("native");
    } else {
        Val v = integer(level_value());
        tiro_make_integer(vm, v.i, h, OK);
        tiro_sync_frame_return_value(f, h, OK);
        deliver(v);
    }
    tiro_global_free(h);
}
static void f_res(tiro_vm_t, tiro_resumable_frame_t f) {
    tiro_handle_t h = tiro_global_new(vm, OK), t = tiro_global_new(vm, OK);
    int id;
    if (tiro_resumable_frame_state(f) == 0) {
        symx_assert(pending == RESUMABLE, "another function is called");
        pending = -1;
        size_t n = tiro_resumable_frame_arg_count(f);
        symx_assert(n == args.size(), "wrong number of arguments");
        for (size_t k = 0; k < n; ++k) { tiro_resumable_frame_arg(f, k, h, OK); symx_assert(as_int(*V, h) == args[k], "wrong argument"); }
        id = ++marks;
        push(RES, "resumable", id);
        tiro_make_integer(vm, id, h, OK);
        tiro_resumable_frame_set_local(f, 0, h, OK);
    } else {
        symx_assert(!st.empty() && st.back().k == RES && st.back().have && pending < 0, "a call returns that must not return now");
        tiro_resumable_frame_local(f, 0, h, OK);
        symx_assert(as_int(*V, h) == st.back().mark, "locals of the caller have changed");
        tiro_resumable_frame_invoke_return(f, h, OK);
        check(h, st.back().expect);
        check_array();
        st.back().have = false;
    }
    switch (next_step()) {
    case 0: {
        Pick p = pick(true);
        int off = p.via ? 1 : 0;
        tiro_make_tuple(vm, off + p.argc, t, OK);
        if (off) tiro_tuple_set(vm, t, 0, CALLEE[p.callee], OK);
        for (int k = 0; k < p.argc; ++k) { tiro_make_integer(vm, p.a[k], h, OK); tiro_tuple_set(vm, t, off + k, h, OK); }
        tiro_handle_t target = off ? CATCHF : CALLEE[p.callee];
        Err e;
        tiro_resumable_frame_invoke(f, 1, target, t, e);
        symx_assert(e.code() == TIRO_OK, "cannot invoke");
        break;
    }
    case 1: {
        Val v = integer(level_value());
        tiro_make_integer(vm, v.i, h, OK);
        tiro_resumable_frame_return_value(f, h, OK);
        st.pop_back();
        deliver(v);
        break;
    }
    case 2:
        tiro_resumable_frame_panic_msg(f, str("resumable"), OK);
        raise("resumable");
    }
    tiro_global_free(h); tiro_global_free(t);
}

static const char SRC[] = R"(
import std;
import nat;
func go() {
    const c = nat.pick(), via = c.0, n = c.1, f = c.2, x = c.3, y = c.4, z = c.5, w = c.6, l = c.7, arr = c.8;
    if via == 0 {
        if n == 0 { nat.got(l, f(), l); }
        else if n == 1 { nat.got(l, f(x), l); }
        else if n == 2 { nat.got(l, f(x, y), l); }
        else if n == 3 { nat.got(l, f(x, y, z), l); }
        else { nat.got(l, f(x, y, z, w), l); }
    } else if via == 1 {
        const r = (f: f);
        if n == 0 { nat.got(l, r.f(), l); }
        else if n == 1 { nat.got(l, r.f(x), l); }
        else if n == 2 { nat.got(l, r.f(x, y), l); }
        else if n == 3 { nat.got(l, r.f(x, y, z), l); }
        else { nat.got(l, r.f(x, y, z, w), l); }
    } else if via == 2 {
        if n == 0 { nat.got(l, std.catch_panic(func() = f()), l); }
        else if n == 1 { nat.got(l, std.catch_panic(func() = f(x)), l); }
        else if n == 2 { nat.got(l, std.catch_panic(func() = f(x, y)), l); }
        else if n == 3 { nat.got(l, std.catch_panic(func() = f(x, y, z)), l); }
        else { nat.got(l, std.catch_panic(func() = f(x, y, z, w)), l); }
    } else if via == 3 {
        if n == 0 { nat.got(l, std.catch_panic(f), l); }
        else if n == 1 { nat.got(l, std.catch_panic(f, x), l); }
        else if n == 2 { nat.got(l, std.catch_panic(f, x, y), l); }
        else if n == 3 { nat.got(l, std.catch_panic(f, x, y, z), l); }
        else { nat.got(l, std.catch_panic(f, x, y, z, w), l); }
    } else {
        if n == 0 { nat.got(l, arr.append(), l); }
        else if n == 1 { nat.got(l, arr.append(x), l); }
        else if n == 2 { nat.got(l, arr.append(x, y), l); }
        else if n == 3 { nat.got(l, arr.append(x, y, z), l); }
        else { nat.got(l, arr.append(x, y, z, w), l); }
    }
}
func body() {
    while true {
        const s = nat.more();
        if s == 0 { go(); }
        else if s == 1 { return nat.leave(); }
        else { std.panic("mine"); }
    }
}
export func f0() { nat.enter(0); return body(); }
export func f1(a) { nat.enter(1, a); return body(); }
export func f2(a, b) { nat.enter(2, a, b); return body(); }
export func f3(a, b, c) { nat.enter(3, a, b, c); return body(); }
export func make(k) { return func self(a) { if nat.again() { return self(a); } nat.enter(k, a); return body(); }; }
export func bound(a) = a.append;
func p1(a) = body();
func p2(a, b) = body();
func p3(a, b, c) = body();
func p4(a, b, c, d) = body();
func p5(a, b, c, d, e) = body();
func p6(a, b, c, d, e, f) = body();
func p7(a, b, c, d, e, f, g) = body();
func deep(n, e) {
    const a = n * 3, b = n * 7;
    const r = if n > 0 { deep(n - 1, e); }
        else if e == 1 { p1(a); }
        else if e == 2 { p2(a, b); }
        else if e == 3 { p3(a, b, a); }
        else if e == 4 { p4(a, b, a, b); }
        else if e == 5 { p5(a, b, a, b, a); }
        else if e == 6 { p6(a, b, a, b, a, b); }
        else if e == 7 { p7(a, b, a, b, a, b, a); }
        else { body(); };
    assert(a == n * 3, "local");
    assert(b == n * 7, "local");
    return r;
}
export func main(n, e) = deep(n, e);
)";

int main() {
    VM v(true);
    V = &v; vm = v.vm;
    struct { const char* name; tiro_sync_function_t f; size_t n; } nat[] = {{"pick", f_pick, 0}, {"enter", f_enter, 1}, {"more", f_more, 0}, {"leave", f_leave, 0}, {"got", f_got, 0}, {"again", f_again, 0}};
    tiro_module_member_t members[6];
    for (int k = 0; k < 6; ++k) {
        tiro_handle_t h = v.h();
        tiro_make_sync_function(vm, v.s(nat[k].name), nat[k].f, nat[k].n, v.null(), h, OK);
        members[k] = {str(nat[k].name), h};
    }
    tiro_handle_t mod = v.h();
    tiro_make_module(vm, str("nat"), members, 6, mod, OK);
    tiro_vm_load_module(vm, mod, OK);
    v.load(SRC);
    for (int k = 0; k < 4; ++k) CALLEE[F0 + k] = v.fn(NAMES[k]);
    CALLEE[CLOSURE] = call(v, v.fn("make"), v.i(CLOSURE)).value;
    tiro_make_sync_function(vm, v.s("sync"), f_sync, 2, v.null(), CALLEE[SYNC] = v.h(), OK);
    tiro_make_array(vm, 0, ARR = v.h(), OK);
    CALLEE[BOUND] = call(v, v.fn("bound"), ARR).value;
    tiro_resumable_frame_desc_t d{v.s("resumable"), 1, 1, v.null(), f_res};
    tiro_make_resumable_function(vm, &d, CALLEE[RESUMABLE] = v.h(), OK);
    CALLEE[NUMBER] = v.i(5);
    CALLEE[NUL_] = v.null();
    CATCHF = v.fn("catch_panic", "std");
    base = sym_range("base", -1000000, 1000000);
    int n = 0, e = 0;
#ifdef DEPTH
    n = symx_choose(DEPTH, "depth");
    e = symx_choose(8, "shift");
#endif
    // 2 coroutines have run before
    push(PLAIN, "main");
    for (int k = 0; k <= n; ++k) push(PLAIN, "deep");
    static const char* P[] = {"", "p1", "p2", "p3", "p4", "p5", "p6", "p7"};
    if (e) push(PLAIN, P[e]);
    push(PLAIN, "body");
    Call c = call(v, v.fn("main"), v.i(n), v.i(e));
    symx_assert(done, "the program ends too early");
    symx_assert(c.ok == !panicked, "wrong kind of result");
    if (c.ok) check(c.value, final_);
    else check_exception(c.value, final_);
    symx_observe(levels);
    return 0;
}
