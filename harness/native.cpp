// C26: native functions and native objects. Resumable native functions do arbitrary (symbolic) things with their frame:
// read and write locals, invoke functions of every kind with any number of arguments, change the state, return, panic.
// A reference with a stack of frames per coroutine predicts everything the next invocation sees. All values are native
// objects whose finalizers must run exactly once, and never while they are reachable.
#include "tiroh.hpp"
#include <vector>
using namespace th;
#ifndef BUDGET
#define BUDGET 3
#endif
#ifdef DEEP            // more invocations, fewer variants of each
#define PRE 3
#else
#define PRE 4
#endif
#ifndef ACTIONS
#define ACTIONS 1
#endif
static bool gc_now;
static int collections;
extern "C" bool tiro_verify_collect() { bool r = gc_now; gc_now = false; collections += r; return r; }

static VM* V;
static tiro_vm_t vm;
static const int MAXV = 64;
static int fin[MAXV], made;
static void finalizer(void* data, size_t size) {
    int n;
    memcpy(&n, data, 4);
    symx_assert(n >= 0 && n < made && size == 4 + (size_t) n % 3, "finalizer of something else");
    symx_assert(fin[n]++ == 0, "object is finalized twice");
}
static const tiro_native_type_t TYPES[] = {{{"one", 3}, 1, finalizer}, {{"four", 4}, 4, finalizer}, {{"sixteen", 7}, 16, finalizer}};
static int make(tiro_handle_t h) {
    int n = made++;
    tiro_make_native(vm, &TYPES[n % 3], 4 + n % 3, h, OK);
    symx_assert((uint64_t) tiro_native_data(vm, h) % TYPES[n % 3].alignment == 0, "native object is not aligned");
    memcpy(tiro_native_data(vm, h), &n, 4);
    return n;
}
enum { NUL = -1, CAUGHT = -2 };
static int value(tiro_handle_t h) {
    switch (tiro_value_kind(vm, h)) {
    case TIRO_KIND_NULL: return NUL;
    case TIRO_KIND_STRING: return CAUGHT;
    case TIRO_KIND_NATIVE: {
        int n;
        memcpy(&n, tiro_native_data(vm, h), 4);
        symx_assert(n >= 0 && n < made && fin[n] == 0, "an object has changed");
        symx_assert(tiro_native_type_descriptor(vm, h) == &TYPES[n % 3] && tiro_native_size(vm, h) == 4 + (size_t) n % 3, "a native object has another type");
        return n;
    }
    default: symx_fail("unexpected kind of value");
    }
}

// ---- reference ----
struct Frame { bool guard; int id; int nl; std::vector<int> args; int locals[3]; int state; int ret; };
struct Coro { std::vector<Frame> st; bool waiting = false, done = false, panicked = false; int result = NUL; const char* msg = nullptr; tiro_async_token_t token = nullptr; };
static Coro co[2];
static int ids, budget = BUDGET, closure_no;
static tiro_handle_t CLOSURE, PICK, BOOM, GUARD, ECHO, ASYNC, R[2];

static void deliver(Coro& c, int v);
static void panic(Coro& c, const char* msg) {
    while (!c.st.empty() && !c.st.back().guard) c.st.pop_back();
    if (c.st.empty()) { c.done = c.panicked = true; c.msg = msg; return; }
    c.st.pop_back();
    deliver(c, CAUGHT);
}
static void control(Coro& c) {
    if (!c.st.empty() && !c.st.back().guard && c.st.back().state == -1) { c.st.pop_back(); deliver(c, NUL); }
}
static void deliver(Coro& c, int v) {
    while (!c.st.empty() && c.st.back().guard) c.st.pop_back();
    if (c.st.empty()) { c.done = true; c.result = v; return; }
    c.st.back().ret = v;
    control(c);
}
static void push(Coro& c, int id, int nl, const std::vector<int>& args) { c.st.push_back({false, id, nl, args, {NUL, NUL, NUL}, 0, NUL}); }
static void reachable() {
    for (auto& c : co)
        for (auto& f : c.st) {
            for (int a : f.args) symx_assert(a < 0 || !fin[a], "argument is collected");
            for (int l : f.locals) symx_assert(l < 0 || !fin[l], "local is collected");
            symx_assert(f.ret < 0 || !fin[f.ret], "result is collected");
        }
    symx_assert(!fin[closure_no], "closure is collected");
}

static void f_echo(tiro_vm_t vm, tiro_sync_frame_t f) {   // returns its last argument
    tiro_handle_t h = tiro_global_new(vm, OK);
    size_t n = tiro_sync_frame_arg_count(f);
    symx_assert(n >= 1, "too few arguments");
    tiro_sync_frame_arg(f, n - 1, h, OK);
    tiro_sync_frame_return_value(f, h, OK);
    tiro_sync_frame_closure(f, h, OK);
    symx_assert(value(h) == closure_no, "wrong closure");
    tiro_global_free(h);
}
static Coro* current;
static void f_async(tiro_vm_t vm, tiro_async_frame_t f) {
    symx_assert(current->token == nullptr, "asynchronous function is called twice");
    current->token = tiro_async_frame_token(f, OK);
    tiro_async_frame_yield(f, OK);
    current->waiting = true;
}
static void f_res(tiro_vm_t vm, tiro_resumable_frame_t f, int nl);
static void f_r0(tiro_vm_t vm, tiro_resumable_frame_t f) { f_res(vm, f, 0); }
static void f_r3(tiro_vm_t vm, tiro_resumable_frame_t f) { f_res(vm, f, 3); }

static void f_res(tiro_vm_t, tiro_resumable_frame_t f, int nl) {
    tiro_handle_t h = tiro_global_new(vm, OK), t = tiro_global_new(vm, OK);
    size_t argc = tiro_resumable_frame_arg_count(f);
    symx_assert(argc >= 1, "too few arguments");
    tiro_resumable_frame_arg(f, 0, h, OK);
    symx_assert(tiro_value_kind(vm, h) == TIRO_KIND_INTEGER, "first argument");
    int id = (int) tiro_integer_value(vm, h);
    Coro* c = nullptr;
    for (auto& x : co) if (!x.st.empty() && x.st.back().id == id) c = &x;
    if (!c || c->done || c->waiting) symx_fail("a function runs that must not run now");
    Frame& F = c->st.back();
    symx_assert(F.nl == nl, "another function is called");
    symx_assert(argc == F.args.size() + 1, "wrong number of arguments");
    for (size_t k = 1; k < argc; ++k) { tiro_resumable_frame_arg(f, k, h, OK); symx_assert(value(h) == F.args[k - 1], "wrong argument"); }
    symx_assert(tiro_resumable_frame_local_count(f) == (size_t) nl, "wrong number of locals");
    for (int k = 0; k < nl; ++k) { tiro_resumable_frame_local(f, k, h, OK); symx_assert(value(h) == F.locals[k], "wrong local"); }
    symx_assert(tiro_resumable_frame_state(f) == F.state, "wrong state");
    tiro_resumable_frame_invoke_return(f, h, OK);
    symx_assert(value(h) == F.ret, "wrong result of the invoked function");
    if (F.ret >= 0) symx_cover("result");
    if (F.ret == CAUGHT) symx_cover("caught");
    tiro_resumable_frame_closure(f, h, OK);
    symx_assert(value(h) == closure_no, "wrong closure");

    enum { NONE, INVOKE, RETURN, PANIC } action = NONE;
    int rv = NUL, fn = 0;
    std::vector<int> av; int newid = -1; size_t n = 0;
    if (budget <= 0) {
        int v = make(h); tiro_resumable_frame_return_value(f, h, OK); action = RETURN; rv = v; F.state = -1;
    } else {
        --budget;
        unsigned char pre; symx_make(&pre, 1, "before"); symx_assume(pre < PRE);
        if (pre == 1) {            // a local
            uint64_t i; symx_make(&i, 8, "index");
#ifdef DEEP
            symx_assume(i == 1);
#endif
            int v = make(h);
            Err e; tiro_resumable_frame_set_local(f, i, h, e);
            symx_assert(e.code() == (i < (uint64_t) nl ? TIRO_OK : TIRO_ERROR_OUT_OF_BOUNDS), "local index is not checked");
            if (i < (uint64_t) nl) F.locals[symx_concretize(i)] = v, symx_cover("local");
            Err g; tiro_resumable_frame_local(f, i, t, g);
            symx_assert(g.code() == e.code(), "local index is not checked");
            if (e.code() == TIRO_OK) symx_assert(value(t) == v, "wrong local");
        } else if (pre == 2) {
            gc_now = true;
            tiro_make_float(vm, 1.5, h, OK);
            symx_assert(!gc_now, "garbage was not collected");
            reachable();
            symx_cover("collected");
        } else if (pre == 3) {     // bad arguments have no effect
            uint64_t i; symx_make(&i, 8, "argument");
            Err e; tiro_resumable_frame_arg(f, i, h, e);
            symx_assert(e.code() == (i < argc ? TIRO_OK : TIRO_ERROR_OUT_OF_BOUNDS), "argument index is not checked");
            Err b; tiro_resumable_frame_invoke(f, 77, CLOSURE, nullptr, b);
            symx_assert(b.code() == TIRO_ERROR_BAD_TYPE, "something is invoked that is no function");
            Err d; tiro_resumable_frame_invoke(f, 77, PICK, CLOSURE, d);
            symx_assert(d.code() == TIRO_ERROR_BAD_TYPE, "arguments that are no tuple");
        }
        for (int k = 0; k < ACTIONS; ++k) {
            unsigned char op; symx_make(&op, 1, "action"); symx_assume(op < 5);
            if (op == 0) {
                fn = symx_choose(7, "function");
                static const size_t REQUIRED[] = {2, 0, 2, 1, 1, 1, 1};
#ifdef DEEP
                unsigned mode = symx_choose(2, "arguments") * 2;
#else
                unsigned mode = symx_choose(REQUIRED[fn] ? 5 : 3, "arguments");
#endif
                n = mode == 0 ? REQUIRED[fn] : mode == 1 ? REQUIRED[fn] + 1 : mode == 2 ? 0 : mode == 3 ? 0 : REQUIRED[fn] - 1;
                int next; symx_make(&next, 4, "next state");
                av.clear(); newid = -1;
                if (mode != 2 && mode != 3) {
                    tiro_make_tuple(vm, n, t, OK);
                    for (size_t j = 0; j < n; ++j) {
                        bool idarg = (j == 0 && (fn == 3 || fn == 4)) || (j == 1 && fn == 2);
                        if (idarg) tiro_make_integer(vm, newid = ids++, h, OK);
                        else if (j == 0 && fn == 2) tiro_value_copy(vm, R[1], h, OK);
                        else av.push_back(make(h));
                        tiro_tuple_set(vm, t, j, h, OK);
                    }
                } else tiro_value_copy(vm, V->null(), t, OK);
                tiro_handle_t F_[] = {PICK, BOOM, GUARD, R[0], R[1], ECHO, ASYNC};
                tiro_resumable_frame_invoke(f, next, F_[fn], mode == 2 ? nullptr : t, OK);
                F.state = next;
                action = INVOKE;
            } else if (op == 1) {
                int next; symx_make(&next, 4, "state");
                tiro_resumable_frame_set_state(f, next, OK);
                F.state = next;
            } else if (op == 2) {
                rv = make(h);
                tiro_resumable_frame_return_value(f, h, OK);
                action = RETURN; F.state = -1;
            } else if (op == 3) {
                tiro_resumable_frame_panic_msg(f, str("mine"), OK);
                action = PANIC; F.state = -1;
            }                      // otherwise nothing: the function is called again
        }
    }
    tiro_global_free(h);
    tiro_global_free(t);
    F.ret = NUL;
    current = c;
    switch (action) {
    case NONE: symx_cover("called again"); control(*c); break;
    case RETURN: c->st.pop_back(); deliver(*c, rv); break;
    case PANIC: panic(*c, "mine"); break;
    case INVOKE:
        switch (fn) {
        case 0: if (n == 2) deliver(*c, av[1]); else panic(*c, nullptr); break;
        case 1: panic(*c, n == 0 ? "boom" : nullptr); break;
        case 2:
            if (n != 2) { panic(*c, nullptr); break; }
            c->st.push_back({true, -1, 0, {}, {NUL, NUL, NUL}, 0, NUL});
            push(*c, newid, 3, {});
            break;
        case 3: case 4: if (n >= 1) push(*c, newid, fn == 3 ? 0 : 3, av); else panic(*c, nullptr); break;
        case 5: if (n >= 1) deliver(*c, av.back()); else panic(*c, nullptr); break;
        case 6: if (n < 1) panic(*c, nullptr); break;      // otherwise it waits
        }
    }
}

int main() {
    {
        VM v(true);
        V = &v; vm = v.vm;
        CLOSURE = v.h(); closure_no = make(CLOSURE);
        for (int k = 0; k < 2; ++k) {
            tiro_resumable_frame_desc_t d{v.s(k ? "r3" : "r0"), 1, k ? 3u : 0u, CLOSURE, k ? f_r3 : f_r0};
            tiro_make_resumable_function(vm, &d, R[k] = v.h(), OK);
        }
        tiro_make_sync_function(vm, v.s("echo"), f_echo, 1, CLOSURE, ECHO = v.h(), OK);
        tiro_make_async_function(vm, v.s("wait"), f_async, 1, CLOSURE, ASYNC = v.h(), OK);
        v.load(R"(import std; export func pick(a, b) = b; export func boom() { std.panic("boom"); }
            export func guard(r, id) { const x = std.catch_panic(func() = r(id)); return if x.is_error() { "caught"; } else { x.value(); }; })");
        PICK = v.fn("pick"); BOOM = v.fn("boom"); GUARD = v.fn("guard");
        tiro_handle_t coro[2], tup = v.h(), h = v.h();
        int N = 1 + symx_choose(2, "coroutines");
        for (int k = 0; k < N; ++k) {
            int id = ids++;
            tiro_make_tuple(vm, 1, tup, OK);
            tiro_make_integer(vm, id, h, OK);
            tiro_tuple_set(vm, tup, 0, h, OK);
            push(co[k], id, k ? 0 : 3, {});
            tiro_make_coroutine(vm, R[k ? 0 : 1], tup, coro[k] = v.h(), OK);
            tiro_coroutine_start(vm, coro[k], OK);
        }
        for (;;) {
            tiro_vm_run_ready(vm, OK);
            std::vector<int> w;
            for (int k = 0; k < N; ++k) {
                symx_assert(tiro_coroutine_completed(vm, coro[k]) == co[k].done, "a coroutine is completed that must not be, or the other way round");
                symx_assert(co[k].done || co[k].waiting, "a coroutine does not continue");
                if (co[k].waiting) w.push_back(k);
            }
            if (w.empty()) break;
            Coro& c = co[w.size() > 1 ? w[symx_choose(2, "complete")] : w[0]];
            tiro_async_token_t t = c.token;
            c.token = nullptr; c.waiting = false;
            bool fails = symx_choose(2, "fails");
            if (fails) { tiro_async_token_panic_msg(t, str("woken"), OK); panic(c, "woken"); }
            else { int n = make(h); tiro_async_token_return_value(t, h, OK); tiro_value_copy(vm, v.null(), h, OK); deliver(c, n); }
            if (symx_choose(2, "collect")) { gc_now = true; tiro_make_float(vm, 1.5, h, OK); reachable(); }
            tiro_async_token_free(t);
            symx_cover(fails ? "woken by a panic" : "woken");
        }
        tiro_handle_t r = v.h();
        for (int k = 0; k < N; ++k) {
            tiro_coroutine_result(vm, coro[k], r, OK);
            symx_assert(tiro_result_is_error(vm, r) == co[k].panicked, "wrong kind of result");
            if (co[k].panicked) {
                tiro_result_error(vm, r, r, OK);
                tiro_exception_message(vm, r, r, OK);
                tiro_string_t s; tiro_string_value(vm, r, &s, OK);
                symx_assert(s.length && (!co[k].msg || std::string(s.data, s.length) == co[k].msg), "wrong message");
                symx_cover("panicked");
            } else {
                tiro_result_value(vm, r, r, OK);
                symx_assert(value(r) == co[k].result, "wrong result");
            }
        }
        symx_observe(made);
        // everything but the closure and the results is garbage now
#ifndef DEEP
        gc_now = true;
        tiro_make_float(vm, 1.5, h, OK);
#endif
        tiro_value_copy(vm, v.null(), tup, OK);
        symx_assert(!fin[closure_no], "the closure is collected");
        for (int k = 0; k < N; ++k) symx_assert(co[k].result < 0 || !fin[co[k].result], "a result is collected");
    }
    for (int k = 0; k < made; ++k) symx_assert(fin[k] == 1, "an object is not finalized");
    symx_cover("finalized");
    return 0;
}
