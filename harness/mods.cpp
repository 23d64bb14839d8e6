// C25: modules. Any import graph, loaded and requested in any order; initializers may fail; a reference predicts which modules are
// initialized (exactly once, after everything they import), and what requests return.
#include "tiroh.hpp"
#include <vector>
using namespace th;
#ifndef NM
#define NM 3
#endif
#ifdef ALL
#define ALLREQ 1
#else
#define ALLREQ 0
#endif
#ifndef STEPS
#define STEPS 4
#endif
static const char* NAME[] = {"a", "b", "c", "d"};
static bool edge[NM][NM], loaded[NM], done[NM], active[NM], failing;
static int counter[NM];
static bool attempted[NM];
static int fails;

// native rt.log(k): the initializer of module k runs
static void log_func(tiro_vm_t vm, tiro_sync_frame_t frame) {
    tiro_handle_t a = tiro_global_new(vm, OK);
    tiro_sync_frame_arg(frame, 0, a, OK);
    int k = (int) tiro_integer_value(vm, a);
    symx_assert(k >= 0 && k < NM, "unknown module");
    symx_assert(!done[k], "module is initialized twice");
    symx_assert(loaded[k], "module is initialized that was not loaded");
    for (int j = 0; j < NM; ++j) symx_assert(!edge[k][j] || done[j], "module is initialized before a module it imports");
    attempted[k] = true;
#ifdef NESTED        // a request while something is running: initialized modules are available, others are not touched
    if (int j = symx_choose(NM + 1, "nested"); j-- > 0) {
        Err e;
        tiro_make_integer(vm, -1, a, OK);
        tiro_vm_get_export(vm, str(NAME[j]), str("v"), a, e);
        symx_assert((e.code() == TIRO_OK) == done[j], "nested request");
        symx_assert(tiro_integer_value(vm, a) == (done[j] ? 1000 + j : -1), "nested request");
        symx_cover(done[j] ? "nested" : "not nested");
    }
#endif
    if (fails > 0 && symx_choose(2, "fails")) {
        --fails;
        failing = true;
        tiro_make_string(vm, str("init failed"), a, OK);
        tiro_sync_frame_panic_msg(frame, str("init failed"), OK);
    } else {
        done[k] = true;
        tiro_make_integer(vm, 1000 + k, a, OK);
        tiro_sync_frame_return_value(frame, a, OK);
    }
    tiro_global_free(a);
}
// what stands in the way of initializing k: a missing module, or a cycle
static void obstacles(int k, std::vector<int>& path, bool& missing, bool& cycle) {
    for (int x : path) if (x == k) { cycle = true; return; }
    if (done[k]) return;
    path.push_back(k);
    for (int j = 0; j < NM; ++j)
        if (edge[k][j]) { if (!loaded[j]) missing = true; else obstacles(j, path, missing, cycle); }
    path.pop_back();
}
static bool needs(int k, int x, int depth = 0) {   // does k import x, directly or not?
    if (k == x) return true;
    if (depth > NM) return false;
    for (int j = 0; j < NM; ++j) if (edge[k][j] && needs(j, x, depth + 1)) return true;
    return false;
}

int main() {
    VM v;
    tiro_handle_t f = v.h(), m = v.h();
    tiro_make_sync_function(v.vm, v.s("log"), log_func, 1, nullptr, f, OK);
    tiro_module_member_t mem{str("log"), f};
    tiro_make_module(v.vm, str("rt"), &mem, 1, m, OK);
    tiro_vm_load_module(v.vm, m, OK);
    // all variants of the modules are compiled once, before anything is chosen
    static tiro_module_t compiled[NM][1 << NM];
    for (int k = 0; k < NM; ++k)
        for (int mask = 0; mask < 1 << NM; ++mask) {
            std::string src = "import rt;", use;
            for (int j = 0; j < NM; ++j) if (mask >> j & 1) { src += std::string(" import ") + NAME[j] + ";"; use += std::string(NAME[j]) + ".v, " + NAME[j] + ".inc(), "; }
            src += " export const v = rt.log(" + std::to_string(k) + "); var n = 0; export func inc() { n += 1; return n; } export func use() = (" + (use.empty() ? "0, " : use) + ");";
            compiled[k][mask] = compile(src, nullptr, NAME[k]);
            symx_assert(compiled[k][mask] != nullptr, "module does not compile");
        }
    fails = symx_choose(2, "failures");
#ifdef ALL          // all modules are there from the start
    for (int k = 0; k < NM; ++k) {
        unsigned mask = symx_choose(1 << NM, "imports");
        for (int j = 0; j < NM; ++j) edge[k][j] = mask >> j & 1;
        tiro_vm_load_bytecode(v.vm, compiled[k][mask], OK);
        loaded[k] = true;
    }
#endif
    for (int step = 0; step < STEPS; ++step) {
        int k = symx_choose(NM, "module");
        if (loaded[k] && ALLREQ ? true : symx_choose(2, "request")) {
            for (int j = 0; j < NM; ++j) attempted[j] = false;
            std::vector<int> path; bool missing = false, cycle = false;
            if (loaded[k]) obstacles(k, path, missing, cycle);
            failing = false;
            Err e;
            tiro_handle_t x = v.i(-1);
            tiro_vm_get_export(v.vm, str(NAME[k]), str("v"), x, e);
            tiro_errc_t c = e.code();
            symx_observe(c);
            if (!loaded[k]) { symx_assert(c == TIRO_ERROR_MODULE_NOT_FOUND, "wrong error for an unknown module"); symx_cover("unknown"); }
            else if (missing || cycle || failing) {
                symx_assert(c != TIRO_OK, "export of a module that could not be initialized");
                if (missing && !cycle && !failing) symx_assert(c == TIRO_ERROR_MODULE_NOT_FOUND, "wrong error for a missing import"), symx_cover("missing");
                if (cycle) symx_cover("cycle");
                if (failing) symx_cover("failed");
                symx_assert(!done[k], "initialized although requests fail");
            } else {
                symx_assert(c == TIRO_OK, "module cannot be initialized");
                symx_assert(done[k], "module is not initialized");
                symx_assert(tiro_integer_value(v.vm, x) == 1000 + k, "wrong export");
                Err n; tiro_vm_get_export(v.vm, str(NAME[k]), str("nope"), x, n);
                symx_assert(n.code() == TIRO_ERROR_EXPORT_NOT_FOUND, "unknown export");
                Err p; tiro_vm_get_export(v.vm, str(NAME[k]), str("n"), x, p);
                symx_assert(p.code() == TIRO_ERROR_EXPORT_NOT_FOUND, "private variable is exported");
                // the functions see the imported modules, and share their state
                tiro_handle_t u = v.h(); tiro_vm_get_export(v.vm, str(NAME[k]), str("use"), u, OK);
                Call r = call(v, u);
                symx_assert(r.ok, "imported modules cannot be used");
                unsigned at = 0;
                for (int j = 0; j < NM; ++j)
                    if (edge[k][j]) {
                        tiro_handle_t t = v.h();
                        tiro_tuple_get(v.vm, r.value, at++, t, OK); symx_assert(tiro_integer_value(v.vm, t) == 1000 + j, "wrong import");
                        tiro_tuple_get(v.vm, r.value, at++, t, OK); symx_assert(tiro_integer_value(v.vm, t) == ++counter[j], "state of a module is not shared");
                    }
                symx_cover("ok");
            }
            for (int j = 0; j < NM; ++j) symx_assert(!attempted[j] || needs(k, j), "unrelated module is initialized");
        } else {
            unsigned mask = 0;
            if (!loaded[k]) {
                mask = symx_choose(1 << NM, "imports");
                for (int j = 0; j < NM; ++j) edge[k][j] = mask >> j & 1;
            }
            tiro_module_t mod = compiled[k][mask];
            Err e;
            tiro_vm_load_bytecode(v.vm, mod, e);
            symx_assert(e.code() == (loaded[k] ? TIRO_ERROR_MODULE_EXISTS : TIRO_OK), loaded[k] ? "module loaded twice" : "module cannot be loaded");
            if (loaded[k]) symx_cover("twice");
            loaded[k] = true;
        }
    }
    return 0;
}
