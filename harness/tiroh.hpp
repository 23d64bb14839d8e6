// Helpers for harnesses: compile tiro source, load it, call exported functions through the C API.
#pragma once
#include "symx.h"
#include "tiro/api.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <string>
#include <string_view>

namespace th {

inline tiro_string_t str(std::string_view s) { return tiro_string_t{s.data(), s.size()}; }

// every API error is fatal for the harness unless it is asked for
struct Err {
    tiro_error_t e = nullptr;
    ~Err() { tiro_error_free(e); }
    operator tiro_error_t*() { return &e; }
    tiro_errc_t code() const { return e ? tiro_error_errc(e) : TIRO_OK; }
};
struct Ok {
    const char* what;
    tiro_error_t e = nullptr;
    Ok(const char* what) : what(what) {}
    ~Ok() noexcept(false) {
        if (e) symx_fail(what);
    }
    operator tiro_error_t*() { return &e; }
};
#define OK (th::Ok(__func__ + 0 ? "unexpected API error" : ""))

struct Diags { int errors = 0, warnings = 0; };
inline bool on_message(const tiro_compiler_message_t* m, void* u) {
    Diags* d = (Diags*) u;
    if (m->severity == TIRO_SEVERITY_ERROR) d->errors++;
    else d->warnings++;
#ifdef SYMX_NATIVE_LOG
#endif
    if (symx_is_replay() && getenv("SYMX_LOG"))
        fprintf(stderr, "[diag] %u:%u %.*s\n", m->line, m->column, (int) m->text.length, m->text.data);
    return true;
}
// compiled module, or null with diagnostics
inline tiro_module_t compile(std::string_view src, Diags* d = nullptr, const char* name = "test") {
    Diags local;
    if (!d) d = &local;
    tiro_compiler_t c = tiro_compiler_new(str(name), OK);
    tiro_compiler_set_message_callback(c, on_message, d, OK);
    tiro_compiler_add_file(c, str("file"), str(src), OK);
    Err err;
    tiro_compiler_run(c, err);
    tiro_module_t m = nullptr;
    if (err.code() == TIRO_OK) {
        symx_assert(d->errors == 0, "the compiler reported errors but succeeded");
        symx_assert(tiro_compiler_has_module(c), "successful compilation without a module");
        tiro_compiler_take_module(c, &m, OK);
    } else {
        symx_assert(err.code() == TIRO_ERROR_BAD_SOURCE, "compilation failed with an internal error");
        symx_assert(d->errors > 0, "compilation failed without an error message");
        symx_assert(!tiro_compiler_has_module(c), "failed compilation with a module");
    }
    tiro_compiler_free(c);
    return m;
}

struct VM {
    tiro_vm_t vm;
    explicit VM(bool std_ = false, size_t page = 1 << 16, size_t max_heap = 0) {
        tiro_vm_settings_t s;
        tiro_vm_settings_init(&s);
#ifdef TH_TRACE
        s.enable_panic_stack_trace = true;
#endif
        s.page_size = page;
        s.max_heap_size = max_heap;
        s.print_stdout = [](tiro_string_t, void*) {};
        vm = tiro_vm_new(&s, OK);
        if (std_) tiro_vm_load_std(vm, OK);
    }
    ~VM() { tiro_vm_free(vm); }
    void load(std::string_view src, const char* name = "test") {
        tiro_module_t m = compile(src, nullptr, name);
        if (!m) symx_fail("harness program does not compile");
        tiro_vm_load_bytecode(vm, m, OK);
        tiro_module_free(m);
    }
    tiro_handle_t h() { return tiro_global_new(vm, OK); }
    tiro_handle_t fn(std::string_view name, const char* mod = "test") {
        tiro_handle_t r = h();
        tiro_vm_get_export(vm, str(mod), str(name), r, OK);
        return r;
    }
    tiro_handle_t i(int64_t v) { auto r = h(); tiro_make_integer(vm, v, r, OK); return r; }
    tiro_handle_t f(double v) { auto r = h(); tiro_make_float(vm, v, r, OK); return r; }
    tiro_handle_t b(bool v) { auto r = h(); tiro_make_boolean(vm, v, r, OK); return r; }
    tiro_handle_t s(std::string_view v) { auto r = h(); tiro_make_string(vm, str(v), r, OK); return r; }
    tiro_handle_t null() { return h(); }
};

struct Call {
    bool ok;            // false: panicked
    tiro_handle_t value; // result value, or the exception
};

// runs func(args...) in a fresh coroutine until it completes
inline Call call_n(VM& v, tiro_handle_t func, const tiro_handle_t* args, size_t n) {
    tiro_handle_t tup = v.h(), coro = v.h(), res = v.h(), out = v.h();
    tiro_make_tuple(v.vm, n, tup, OK);
    for (size_t k = 0; k < n; ++k) tiro_tuple_set(v.vm, tup, k, args[k], OK);
    tiro_make_coroutine(v.vm, func, tup, coro, OK);
    tiro_coroutine_start(v.vm, coro, OK);
    while (tiro_vm_has_ready(v.vm)) tiro_vm_run_ready(v.vm, OK);
    if (!tiro_coroutine_completed(v.vm, coro)) symx_fail("coroutine did not complete");
    tiro_coroutine_result(v.vm, coro, res, OK);
    Call c;
    c.ok = tiro_result_is_success(v.vm, res);
    c.value = out;
    if (c.ok) tiro_result_value(v.vm, res, out, OK);
    else tiro_result_error(v.vm, res, out, OK);
    tiro_global_free(tup);
    tiro_global_free(coro);
    tiro_global_free(res);
    return c;
}
template<typename... H>
Call call(VM& v, tiro_handle_t func, H... args) {
    tiro_handle_t a[sizeof...(args) + 1] = {args...};
    return call_n(v, func, a, sizeof...(args));
}

inline int64_t sym_i64(const char* name) { int64_t v; symx_make(&v, 8, name); return v; }
inline double sym_f64(const char* name) { double v; symx_make(&v, 8, name); return v; }
inline int64_t sym_range(const char* name, int64_t lo, int64_t hi) {
    int64_t v = sym_i64(name);
    symx_assume(v >= lo && v <= hi);
    return v;
}
inline bool sym_bool(const char* name) { unsigned char c; symx_make(&c, 1, name); symx_assume(c <= 1); return c & 1; }

inline bool is_int(VM& v, tiro_handle_t h) { return tiro_value_kind(v.vm, h) == TIRO_KIND_INTEGER; }
inline int64_t as_int(VM& v, tiro_handle_t h) {
    symx_assert(tiro_value_kind(v.vm, h) == TIRO_KIND_INTEGER, "result is not an integer");
    return tiro_integer_value(v.vm, h);
}
} // namespace th
