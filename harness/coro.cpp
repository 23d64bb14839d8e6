// C22: coroutines. Every coroutine asks the harness for its next operation, whose code is a symbolic byte; a reference
// scheduler replays the operations that were handed out and predicts every result.
#include "tiroh.hpp"
#include <vector>
#include <deque>
#include <map>
using namespace th;

#ifndef OPS
#define OPS 4
#endif
#ifndef OUTSIDE
#define OUTSIDE 2
#endif
enum Op { RET, DISPATCH, TOKEN, YIELD, RESUME, VALID, LAUNCH, PANIC, WAIT, DONE, WOF, QUICK, NOPS };
struct Req { int who; unsigned char op, arg; };
static std::vector<Req> reqs;
static std::vector<int64_t> out;                 // what the program logged
static int used;
static std::vector<unsigned char> prefix;      // the first operations are fixed
static size_t pre;
static const int MAXC = 4;
static tiro_handle_t CORO[MAXC];
static tiro_async_token_t pending[MAXC];         // newest token of an async call
static int callbacks[MAXC], cleanups[MAXC];
static tiro_vm_t VMH;

static int64_t arg(tiro_vm_t vm, tiro_sync_frame_t f, int k) {
    tiro_handle_t a = tiro_global_new(vm, OK);
    tiro_sync_frame_arg(f, k, a, OK);
    symx_assert(tiro_value_kind(vm, a) == TIRO_KIND_INTEGER, "an operand is no integer");
    int64_t v = tiro_integer_value(vm, a);
    tiro_global_free(a);
    return v;
}
static void ret(tiro_vm_t vm, tiro_sync_frame_t f, int64_t v) {
    tiro_handle_t a = tiro_global_new(vm, OK);
    tiro_make_integer(vm, v, a, OK);
    tiro_sync_frame_return_value(f, a, OK);
    tiro_global_free(a);
}
// next operation of coroutine `who`
static void f_op(tiro_vm_t vm, tiro_sync_frame_t f) {
    Req r{(int) arg(vm, f, 0), RET, 0};
    if (pre < prefix.size()) r.op = prefix[pre++];
    else if (used < OPS - (prefix.empty() ? 0 : 1)) {
        symx_make(&r.op, 1, ("op" + std::to_string(used)).c_str());
#ifdef CORE
        symx_assume(r.op < NOPS && ((1u << r.op) & (1u << RET | 1u << DISPATCH | 1u << TOKEN | 1u << YIELD | 1u << RESUME | 1u << LAUNCH)));
#else
        symx_assume(r.op < NOPS);
#endif
        ++used;
    }
    reqs.push_back(r);
    ret(vm, f, r.op);
}
static void f_arg(tiro_vm_t vm, tiro_sync_frame_t f) {
    Req& r = reqs.back();
    r.arg = symx_choose(2, "target");
    ret(vm, f, r.arg);
}
static void f_log(tiro_vm_t vm, tiro_sync_frame_t f) { for (int k = 0; k < 3; ++k) out.push_back(arg(vm, f, k)); }
static void f_reg(tiro_vm_t vm, tiro_sync_frame_t f) {
    int k = arg(vm, f, 0);
    tiro_sync_frame_arg(f, 1, CORO[k], OK);
    static int ID[MAXC] = {0, 1, 2, 3};
    tiro_coroutine_set_callback(vm, CORO[k], [](tiro_vm_t vm, tiro_handle_t c, void* u) {
        int k = *(int*) u;
        ++callbacks[k];
        symx_assert(tiro_coroutine_completed(vm, c), "callback of a coroutine that is not completed");
        symx_assert(tiro_value_same(vm, c, CORO[k]), "callback of another coroutine");
        out.push_back(k); out.push_back(90); out.push_back(0);
    }, [](void* u) { ++cleanups[*(int*) u]; }, &ID[k], OK);
}
static void f_wait(tiro_vm_t vm, tiro_async_frame_t f) {
    tiro_handle_t a = tiro_global_new(vm, OK);
    tiro_async_frame_arg(f, 0, a, OK);
    int k = (int) tiro_integer_value(vm, a);
    tiro_global_free(a);
    if (pending[k]) tiro_async_token_free(pending[k]);
    pending[k] = tiro_async_frame_token(f, OK);
    tiro_async_frame_yield(f, OK);
}
static void f_quick(tiro_vm_t vm, tiro_async_frame_t f) {   // has a token, but does not wait
    tiro_handle_t a = tiro_global_new(vm, OK);
    tiro_async_frame_arg(f, 0, a, OK);
    int k = (int) tiro_integer_value(vm, a);
    if (pending[k]) tiro_async_token_free(pending[k]);
    pending[k] = tiro_async_frame_token(f, OK);
    tiro_make_integer(vm, 300 + k, a, OK);
    tiro_async_frame_return_value(f, a, OK);
    tiro_global_free(a);
}
static bool complete(int k, int64_t v, bool panic) {
    if (!pending[k]) return false;
    tiro_handle_t a = tiro_global_new(VMH, OK);
    tiro_make_integer(VMH, v, a, OK);
    Err e;
    if (panic) tiro_async_token_panic_msg(pending[k], str("woken"), e);
    else tiro_async_token_return_value(pending[k], a, e);
    tiro_global_free(a);
    return e.code() == TIRO_OK;
}
static void f_done(tiro_vm_t vm, tiro_sync_frame_t f) { int64_t k = arg(vm, f, 0); ret(vm, f, complete(k, 500 + k, false)); }
static void f_fail(tiro_vm_t vm, tiro_sync_frame_t f) { int64_t k = arg(vm, f, 0); ret(vm, f, complete(k, 0, true)); }

static const char* SRC = R"(
import std; import n;
const tokens = [null, null, null, null];
const ids = [0];
func wait(id) {
    const r = std.catch_panic(func() { return n.wait(id); });
    n.log(id, 8, if (r.is_error()) { -1; } else if (r.value() == null) { -2; } else { r.value(); });
}
func step(id, op) {
    if op == 1 { std.dispatch(); n.log(id, 1, 0); }
    if op == 2 { tokens[id] = std.coroutine_token(); n.log(id, 2, if (tokens[id].coroutine() == std.current_coroutine()) { 1; } else { 0; }); }
    if op == 3 { std.yield_coroutine(); n.log(id, 3, 0); }
    if op == 4 { const t = tokens[n.arg()]; n.log(id, 4, if (t == null) { -1; } else if (t.resume()) { 1; } else { 0; }); }
    if op == 5 { const t = tokens[n.arg()]; n.log(id, 5, if (t == null) { -1; } else if (t.valid()) { 1; } else { 0; }); }
    if op == 6 && ids[0] < 4 { start(); n.log(id, 6, ids[0]); }
    if op == 7 { std.panic("stop"); }
    if op == 8 { wait(id); }
    if op == 9 { n.log(id, 9, n.done(n.arg())); }
    if op == 11 { n.log(id, 11, n.quick(id)); }
    if op == 10 { n.log(id, 10, n.fail(n.arg())); }
}
func worker(id, extra) {
    n.log(id, 100, extra);
    while true {
        const op = n.op(id);
        if op == 0 { return id + 1000; }
        step(id, op);
    }
}
export func names(a, b) = a.name() == b.name();
export func both() { start(); start(); }
export func start() {
    const id = ids[0];
    ids[0] += 1;
    const c = std.launch(worker, id, id + 7);
    n.reg(id, c);
    return c;
}
)";

// ---- the reference scheduler: coroutines as explicit state machines ----
enum State { NEW, READY, RUNNING, WAITING, DEAD };
struct Co { State s = NEW; int op = -1; bool started = false; int token = 0, std_token = 0, native_token = 0; int wake = -2; bool panic = false; int64_t result = 0; };
static Co co[MAXC];
static int count, tokens_made;
static std::deque<int> ready;
static std::vector<int64_t> want;
static size_t pos;
static void lg(int a, int b, int64_t c) { want.push_back(a); want.push_back(b); want.push_back(c); }
static void launch() { ready.push_back(count++); }
static int token_of(Co& c) { if (!c.token) c.token = ++tokens_made; return c.token; }
static void make_ready(int k) { co[k].token = 0; co[k].s = READY; ready.push_back(k); }
static bool resume(int k, int token) {
    if (!token || co[k].token != token || co[k].s != WAITING) return false;
    make_ready(k);
    return true;
}
static void die(int k, bool panic) {
    co[k].s = DEAD; co[k].token = 0; co[k].panic = panic; co[k].result = k + 1000;
    lg(k, 90, 0);
}
static void run_ready() {
    while (!ready.empty()) {
        int k = ready.front();
        ready.pop_front();
        Co& c = co[k];
        c.s = RUNNING;
        if (!c.started) { c.started = true; lg(k, 100, k + 7); }
        else if (c.op == DISPATCH) lg(k, 1, 0);
        else if (c.op == YIELD) lg(k, 3, 0);
        else lg(k, 8, c.wake);
        while (c.s == RUNNING) {
            if (pos >= reqs.size() || reqs[pos].who != k) symx_fail("the coroutines run in another order");
            Req r = reqs[pos++];
            int op = symx_concretize(r.op);
            c.op = op;
            int a = r.arg;
            switch (op) {
            case RET: die(k, false); break;
            case DISPATCH: make_ready(k); break;
            case TOKEN: c.std_token = token_of(c); lg(k, 2, 1); break;
            case YIELD: c.s = WAITING; break;
            case RESUME: lg(k, 4, !co[a].std_token ? -1 : resume(a, co[a].std_token)); break;
            case VALID: lg(k, 5, !co[a].std_token ? -1 : co[a].token == co[a].std_token); break;
            case LAUNCH: if (count < MAXC) { launch(); lg(k, 6, count); } break;
            case PANIC: die(k, true); break;
            case QUICK: c.native_token = token_of(c); lg(k, QUICK, 300 + k); break;
            case WAIT: c.native_token = token_of(c); c.wake = -2; c.s = WAITING; break;
            case DONE: case WOF: {
                bool ok = co[a].native_token && co[a].op == WAIT && resume(a, co[a].native_token);
                if (ok) co[a].wake = op == DONE ? 500 + a : -1;
                lg(k, op, ok);
                break;
            }
            }
        }
    }
}

int main() {
    VM v(true);
    VMH = v.vm;
    tiro_handle_t fn = v.h(), mod = v.h(), null = v.h();
    struct { const char* n; tiro_sync_function_t f; int argc; } FN[] = {{"op", f_op, 1}, {"arg", f_arg, 0}, {"log", f_log, 3}, {"reg", f_reg, 2}, {"done", f_done, 1}, {"fail", f_fail, 1}};
    tiro_module_member_t m[8];
    for (int k = 0; k < 8; ++k) {
        tiro_handle_t h = v.h();
        if (k < 6) tiro_make_sync_function(v.vm, v.s(FN[k].n), FN[k].f, FN[k].argc, null, h, OK);
        else tiro_make_async_function(v.vm, v.s(k == 6 ? "wait" : "quick"), k == 6 ? f_wait : f_quick, 1, null, h, OK);
        m[k] = {str(k < 6 ? FN[k].n : k == 6 ? "wait" : "quick"), h};
    }
    tiro_make_module(v.vm, str("n"), m, 8, mod, OK);
    tiro_vm_load_module(v.vm, mod, OK);
    v.load(SRC);
    for (auto& c : CORO) c = v.h();
#ifndef CORE
    static const std::vector<unsigned char> PREFIX[] = {{}, {TOKEN, YIELD}, {QUICK, YIELD}, {TOKEN, DISPATCH, TOKEN, DISPATCH}, {WAIT}, {TOKEN, WAIT, TOKEN, WAIT}, {LAUNCH, LAUNCH, DISPATCH, DISPATCH, DISPATCH, DISPATCH}, {TOKEN, YIELD, DISPATCH, WAIT}};
    prefix = PREFIX[symx_choose(sizeof(PREFIX) / sizeof(PREFIX[0]), "prefix")];
#endif
    tiro_handle_t start = v.fn("both");
    symx_assert(call(v, start).ok, "start failed");
    launch(); launch();

    run_ready();
    (void) fn;
    auto audit = [&] {
        symx_assert(pos == reqs.size(), "a coroutine ran although it was not ready");
        symx_assert(out == want, "the coroutines observed something else");
        symx_assert(!tiro_vm_has_ready(v.vm), "coroutines are ready after all ready coroutines have been run");
    };
    audit();
    // completions from outside of the virtual machine
    for (int k = 0; k < OUTSIDE; ++k) {
        std::vector<unsigned> cand;
        for (int j = 0; j < count; ++j)
            if (co[j].native_token) cand.push_back(j);
        if (cand.empty() || !symx_choose(2, "outside")) break;
        unsigned a = cand[cand.size() > 1 ? symx_choose(cand.size(), "outside target") : 0];
        bool panic = symx_choose(2, "outside panic");
        bool expect = co[a].native_token && co[a].op == WAIT && co[a].s == WAITING && co[a].token == co[a].native_token;
        bool ok = complete(a, 500 + a, panic);
        symx_assert(ok == expect, "an async call was resumed that must not be, or the other way round");
        if (ok) { resume(a, co[a].native_token); co[a].wake = panic ? -1 : 500 + a; }
        symx_assert(tiro_vm_has_ready(v.vm) == ok, "has_ready is wrong");
        tiro_vm_run_ready(v.vm, OK);
        run_ready();
        audit();
        symx_cover(ok ? "resumed from outside" : "old token");
    }
    tiro_handle_t r = v.h(), x = v.h();
    tiro_handle_t names = v.fn("names");
    Call same = call(v, names, CORO[0], CORO[count - 1]);
    symx_assert(same.ok && !tiro_boolean_value(v.vm, same.value), "two coroutines have the same name");
    for (int k = 0; k < count; ++k) {
        bool done = co[k].s == DEAD;
        symx_assert(tiro_coroutine_started(v.vm, CORO[k]), "a launched coroutine is not started");
        symx_assert(tiro_coroutine_completed(v.vm, CORO[k]) == done, "completed is wrong");
        symx_assert(callbacks[k] == done && cleanups[k] == done, "a completion callback was not called exactly once");
        if (done) {
            tiro_coroutine_result(v.vm, CORO[k], r, OK);
            symx_assert(tiro_result_is_success(v.vm, r) == !co[k].panic, "wrong kind of result");
            if (!co[k].panic) {
                tiro_result_value(v.vm, r, x, OK);
                symx_assert(as_int(v, x) == co[k].result, "wrong result");
            } else symx_cover("panicked");
        } else {
            Err e;
            tiro_coroutine_result(v.vm, CORO[k], r, e);
            symx_assert(e.code() == TIRO_ERROR_BAD_STATE, "result of a coroutine that is not completed");
            symx_cover("waiting");
        }
    }
    symx_observe(out.size());
    symx_cover("ran");
    return 0;
}
