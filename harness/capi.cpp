// C24: every function of the C API checks its arguments: bad ones are reported with the documented error code and
// change nothing, good ones have the documented effect. Handles may be missing or refer to any kind of value; numbers are symbolic.
// -DCOMPILER: the compiler object as a state machine; otherwise objects, functions and the virtual machine.
// COVERS: failed succeeded
#include "tiroh.hpp"
#include <climits>
#include <cmath>
using namespace th;

enum K { MISSING, NUL, BOOL, INT, FLT, STR, SLICE, SYM, BUF, TUP, REC, SCHEMA, ARR, EMPTY, STRS, SUCC, FAIL, EXC, NEW, DONE, MOD, TYPE, NAT, FUN, CODE, MAPV, NK };
static VM* V;
static tiro_vm_t vm;
static tiro_handle_t H[NK];
static tiro_handle_t sentinel;
static int draws;

struct A {
    K k;
    tiro_handle_t h;
    bool is(std::initializer_list<K> l) const { for (K x : l) if (x == k) return true; return false; }
    bool none() const { return k == MISSING; }
};
static A arg(const char* name) { ++draws; K k = (K) symx_choose(NK, name); return {k, k == MISSING ? nullptr : H[k]}; }
static A out(bool may_miss = true) {
    bool missing = may_miss && symx_choose(2, "missing");
    if (missing) return {MISSING, nullptr};
    tiro_handle_t h = V->h();
    tiro_value_copy(vm, sentinel, h, OK);
    return {NUL, h};
}
static bool untouched(const A& r) { return !r.h || tiro_value_same(vm, r.h, sentinel); }
static tiro_error_t E; static bool with_err;
static tiro_error_t* err() { return with_err ? &E : nullptr; }
static void want(tiro_errc_t code, const A& r) {
    if (with_err) {
        tiro_errc_t got = tiro_error_errc(E);
        if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "expected %d, got %d\n", code, got);
        symx_assert(code != TIRO_OK || got == TIRO_OK, "valid arguments are rejected");
        symx_assert(code == TIRO_OK || got != TIRO_OK, "invalid arguments are not reported");
        symx_assert(got == code, "wrong error code");
        symx_assert((E == nullptr) == (got == TIRO_OK), "error object without an error code");
        if (E) symx_assert(tiro_error_details(E) && tiro_error_message(E)[0] && tiro_error_name(E)[0], "error without a description");
    }
    if (code != TIRO_OK) symx_assert(untouched(r), "failed function changed its result");
    if (code == TIRO_OK) symx_cover("succeeded"); else symx_cover("failed");
}
static void want(tiro_errc_t code) { want(code, A{MISSING, nullptr}); }
static bool same(tiro_handle_t a, tiro_handle_t b) { return tiro_value_same(vm, a, b); }
static tiro_kind_t kind(tiro_handle_t h) { return tiro_value_kind(vm, h); }
static std::string text(tiro_handle_t h) { tiro_string_t s{}; Err e; tiro_string_value(vm, h, &s, e); return e.code() == TIRO_OK ? std::string(s.data, s.length) : "?"; }
static const tiro_kind_t KIND[] = {TIRO_KIND_INVALID, TIRO_KIND_NULL, TIRO_KIND_BOOLEAN, TIRO_KIND_INTEGER, TIRO_KIND_FLOAT, TIRO_KIND_STRING, TIRO_KIND_INTERNAL, TIRO_KIND_INTERNAL, TIRO_KIND_BUFFER, TIRO_KIND_TUPLE, TIRO_KIND_RECORD, TIRO_KIND_RECORD_SCHEMA, TIRO_KIND_ARRAY, TIRO_KIND_ARRAY, TIRO_KIND_ARRAY, TIRO_KIND_RESULT, TIRO_KIND_RESULT, TIRO_KIND_EXCEPTION, TIRO_KIND_COROUTINE, TIRO_KIND_COROUTINE, TIRO_KIND_MODULE, TIRO_KIND_TYPE, TIRO_KIND_NATIVE, TIRO_KIND_FUNCTION, TIRO_KIND_FUNCTION, TIRO_KIND_INTERNAL};
// small sizes, and sizes the heap cannot hold (no symbolic value: the size would be made concrete as soon as a block is made)
static size_t big_or_small(const char* name, size_t small) {
    static const size_t big[] = {size_t(1) << 25, (size_t(1) << 32) + 1, size_t(1) << 36, (size_t(1) << 60) + 1, size_t(1) << 61, size_t(1) << 63, SIZE_MAX - 7, SIZE_MAX};
    unsigned k = symx_choose(small + sizeof(big) / sizeof(*big), name);
    return k < small ? k : big[k - small];
}
static size_t index(const char* name) { uint64_t s; symx_make(&s, 8, name); return s; }
static tiro_string_t good_or_bad(const char* name, bool& good, std::string_view text) {
    switch (symx_choose(3, name)) {
    case 0: good = true; return str(text);
    case 1: good = false; return tiro_string_t{nullptr, 3};
    default: good = false; return tiro_string_t{"x", 0};
    }
}
static const tiro_errc_t BA = TIRO_ERROR_BAD_ARG, BT = TIRO_ERROR_BAD_TYPE, OB = TIRO_ERROR_OUT_OF_BOUNDS, NO = TIRO_OK;
static int calls, cleanups;
static void on_done(tiro_vm_t, tiro_handle_t, void*) { ++calls; }
static void on_cleanup(void*) { ++cleanups; }
static void nat1(tiro_vm_t, tiro_sync_frame_t f) { tiro_handle_t h = tiro_global_new(vm, OK); tiro_sync_frame_closure(f, h, OK); tiro_sync_frame_return_value(f, h, OK); tiro_global_free(h); }
static void nat2(tiro_vm_t, tiro_async_frame_t) {}
static void nat3(tiro_vm_t, tiro_resumable_frame_t f) { tiro_handle_t h = tiro_global_new(vm, OK); tiro_resumable_frame_closure(f, h, OK); tiro_resumable_frame_return_value(f, h, OK); tiro_global_free(h); }

static const unsigned OPS = 62;
static void run(unsigned op) {
    // the vm itself may be missing, too
    tiro_vm_t v = vm;
    auto novm = [&]() -> bool { if (!symx_choose(2, "without a vm")) return false; v = nullptr; return true; };
    switch (op) {
    case 0: { A a = arg("value"); symx_assert(kind(a.h) == KIND[a.k], "wrong kind"); symx_assert(tiro_value_kind(nullptr, a.h) == TIRO_KIND_INVALID, "kind without a vm"); return want(NO); }
    case 1: { A a = arg("a"), b = arg("b"); bool r = same(a.h, b.h); symx_assert(r == (a.k == b.k), "tiro_value_same is wrong"); return want(NO); }
    case 2: { A a = arg("value"), r = out(); bool n = novm(); tiro_value_to_string(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : NO, r); if (!bad) symx_assert(kind(r.h) == TIRO_KIND_STRING, "no string"); return; }
    case 3: { A a = arg("value"), r = out(); bool n = novm(); tiro_value_copy(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : NO, r); if (!bad) symx_assert(same(a.h, r.h), "not copied"); return; }
    case 4: { A a = arg("value"), r = out(); bool n = novm(); tiro_value_type(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : NO, r);
        if (!bad) { symx_assert(kind(r.h) == TIRO_KIND_TYPE, "no type"); if (kind(a.h) != TIRO_KIND_INTERNAL) { tiro_handle_t t = V->h(); tiro_kind_type(vm, kind(a.h), t, OK); symx_assert(same(t, r.h), "wrong type"); } } return; }
    case 5: { A r = out(); bool n = novm(); int k = (int) index("kind"); tiro_kind_type(v, (tiro_kind_t) k, r.h, err()); bool bad = n || !r.h || k < TIRO_KIND_NULL || k > TIRO_KIND_NATIVE; want(bad ? BA : NO, r); if (!bad) symx_assert(kind(r.h) == TIRO_KIND_TYPE, "no type"); return; }
    case 6: { A r = out(); bool n = novm(); tiro_make_null(v, r.h); if (r.h) symx_assert(n ? untouched(r) : kind(r.h) == TIRO_KIND_NULL, "not null"); return want(NO); }
    case 7: { A r = out(); bool n = novm(); bool b = sym_bool("value"); tiro_make_boolean(v, b, r.h, err()); bool bad = n || !r.h; want(bad ? BA : NO, r); if (!bad) symx_assert(kind(r.h) == TIRO_KIND_BOOLEAN && tiro_boolean_value(vm, r.h) == b, "wrong boolean"); return; }
    case 8: { A a = arg("value"); bool n = novm(); bool r = tiro_boolean_value(v, a.h); symx_assert(r == (!n && a.h && !a.is({NUL, BOOL})), "wrong boolean value"); return want(NO); }
    case 9: { A r = out(); bool n = novm(); int64_t i = sym_i64("value"); tiro_make_integer(v, i, r.h, err()); bool bad = n || !r.h; want(bad ? BA : NO, r); if (!bad) symx_assert(kind(r.h) == TIRO_KIND_INTEGER && tiro_integer_value(vm, r.h) == i && tiro_float_value(vm, r.h) == (double) i, "wrong integer"); return; }
    case 10: { A r = out(); bool n = novm(); double d = sym_f64("value"); tiro_make_float(v, d, r.h, err()); bool bad = n || !r.h; want(bad ? BA : NO, r);
        if (!bad) { double e = tiro_float_value(vm, r.h); symx_assert(kind(r.h) == TIRO_KIND_FLOAT && (e == d || (d != d && e != e)), "wrong float"); int64_t i = tiro_integer_value(vm, r.h);
            if (d != d) symx_assert(i == 0, "not a number is not 0"); else if (d >= 9223372036854775808.0) symx_assert(i == INT64_MAX, "large float"); else if (d < -9223372036854775808.0) symx_assert(i == INT64_MIN, "small float"); else symx_assert(i == (int64_t) d, "float is not truncated"); } return; }
    case 11: { A a = arg("value"); bool n = novm(); int64_t i = tiro_integer_value(v, a.h); symx_assert(i == (n ? 0 : a.k == INT ? 77 : a.k == FLT ? -2 : 0), "wrong integer value"); double d = tiro_float_value(v, a.h); symx_assert(d == (n ? 0 : a.k == INT ? 77 : a.k == FLT ? -2.5 : 0), "wrong float value"); return want(NO); }
    case 12: { A r = out(); bool n = novm(); unsigned m = symx_choose(3, "string"); char buf[3]; symx_make(buf, 3, "bytes"); tiro_string_t s = m == 0 ? tiro_string_t{buf, 3} : m == 1 ? tiro_string_t{nullptr, 0} : tiro_string_t{nullptr, 1}; tiro_make_string(v, s, r.h, err()); bool bad = n || !r.h || m == 2; want(bad ? BA : NO, r);
        if (!bad) { tiro_string_t t; tiro_string_value(vm, r.h, &t, OK); symx_assert(t.length == s.length && (m == 1 || (t.data[0] == buf[0] && t.data[1] == buf[1] && t.data[2] == buf[2])), "wrong string"); char* c = nullptr; tiro_string_cstr(vm, r.h, &c, OK); symx_assert(c && c[s.length] == 0 && (m == 1 || (c[0] == buf[0] && c[1] == buf[1] && c[2] == buf[2])), "wrong c string"); free(c); } return; }
    case 13: { A a = arg("value"); bool n = novm(); bool m = symx_choose(2, "missing"); tiro_string_t s{"q", 1}; tiro_string_value(v, a.h, m ? nullptr : &s, err()); bool bad = n || !a.h || m; want(bad ? BA : a.k == STR ? NO : BT); if (!m) symx_assert(s.length == (!bad && a.k == STR ? 3 : 1), "wrong string"); return; }
    case 14: { A a = arg("value"); bool n = novm(); bool m = symx_choose(2, "missing"); char* s = nullptr; tiro_string_cstr(v, a.h, m ? nullptr : &s, err()); bool bad = n || !a.h || m; want(bad ? BA : a.k == STR ? NO : BT); symx_assert((s != nullptr) == (!bad && a.k == STR), "wrong c string"); if (s) symx_assert(!strcmp(s, "abc"), "wrong c string"); free(s); return; }
    case 15: { A r = out(); bool n = novm(); size_t s = big_or_small("size", 3); tiro_make_buffer(v, s, r.h, err()); bool bad = n || !r.h; want(bad ? BA : s > 3 ? TIRO_ERROR_ALLOC : NO, r); if (!bad && s <= 3) { symx_assert(kind(r.h) == TIRO_KIND_BUFFER && tiro_buffer_size(vm, r.h) == s && tiro_buffer_is_pinned(vm, r.h), "wrong buffer"); for (size_t k = 0; k < s; ++k) symx_assert(tiro_buffer_data(vm, r.h)[k] == 0, "buffer is not zero"); } return; }
    case 16: { A a = arg("value"); bool n = novm(); bool ok = !n && a.k == BUF; symx_assert(tiro_buffer_size(v, a.h) == (ok ? 2 : 0), "wrong buffer size"); symx_assert((tiro_buffer_data(v, a.h) != nullptr) == ok, "wrong buffer data"); symx_assert(tiro_buffer_is_pinned(v, a.h) == ok, "wrong pin"); return want(NO); }
    case 17: { A r = out(); bool n = novm(); size_t s = big_or_small("size", 4); tiro_make_tuple(v, s, r.h, err()); bool bad = n || !r.h; want(bad ? BA : s > 4 ? TIRO_ERROR_ALLOC : NO, r); if (!bad && s <= 4) { symx_assert(kind(r.h) == TIRO_KIND_TUPLE && tiro_tuple_size(vm, r.h) == s, "wrong tuple"); tiro_handle_t e = V->h(); for (size_t k = 0; k < s; ++k) { tiro_value_copy(vm, sentinel, e, OK); tiro_tuple_get(vm, r.h, k, e, OK); symx_assert(kind(e) == TIRO_KIND_NULL, "tuple is not null"); } } return; }
    case 18: { A a = arg("value"); bool n = novm(); symx_assert(tiro_tuple_size(v, a.h) == (!n && a.k == TUP ? 3 : 0), "wrong tuple size"); symx_assert(tiro_array_size(v, a.h) == (n ? 0 : a.k == ARR ? 3 : a.k == STRS ? 2 : 0), "wrong array size"); symx_assert(tiro_native_size(v, a.h) == (!n && a.k == NAT ? 5 : 0), "wrong native size"); symx_assert((tiro_native_data(v, a.h) != nullptr) == (!n && a.k == NAT) && (tiro_native_type_descriptor(v, a.h) != nullptr) == (!n && a.k == NAT), "wrong native data"); return want(NO); }
    case 19: { A a = arg("value"), r = out(); bool n = novm(); size_t i = index("index"); tiro_tuple_get(v, a.h, i, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : a.k != TUP ? BT : i >= 3 ? OB : NO, r); if (!bad && a.k == TUP && i < 3) symx_assert(tiro_integer_value(vm, r.h) == 10 + (int64_t) i, "wrong element"); return; }
    case 20: { A a = arg("value"), e = arg("element"); bool n = novm(); size_t i = index("index"); tiro_tuple_set(v, a.h, i, e.h, err()); bool bad = n || !a.h || !e.h; want(bad ? BA : a.k != TUP ? BT : i >= 3 ? OB : NO); tiro_handle_t x = V->h(); for (size_t k = 0; k < 3; ++k) { tiro_tuple_get(vm, H[TUP], k, x, OK); if (!bad && a.k == TUP && i == k) symx_assert(same(x, e.h), "not stored"); else symx_assert(tiro_integer_value(vm, x) == 10 + (int64_t) k, "changed element"); } return; }
    case 21: { A a = arg("keys"), r = out(); bool n = novm(); tiro_make_record_schema(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; bool ok = a.is({EMPTY, STRS}); want(bad ? BA : ok ? NO : BT, r); if (!bad && ok) symx_assert(kind(r.h) == TIRO_KIND_RECORD_SCHEMA, "no schema"); return; }
    case 22: { A a = arg("schema"), r = out(); bool n = novm(); tiro_make_record(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : a.k == SCHEMA ? NO : BT, r); if (!bad && a.k == SCHEMA) { symx_assert(kind(r.h) == TIRO_KIND_RECORD, "no record"); for (const char* s : {"x", "y"}) { tiro_handle_t e = V->i(1); tiro_record_get(vm, r.h, V->s(s), e, OK); symx_assert(kind(e) == TIRO_KIND_NULL, "record is not null"); } } return; }
    case 23: { A a = arg("record"), r = out(); bool n = novm(); tiro_record_keys(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : a.k == REC ? NO : BT, r); if (!bad && a.k == REC) { symx_assert(tiro_array_size(vm, r.h) == 2, "wrong keys"); tiro_handle_t x = V->h(), y = V->h(); tiro_array_get(vm, r.h, 0, x, OK); tiro_array_get(vm, r.h, 1, y, OK); symx_assert((text(x) == "x" && text(y) == "y") || (text(x) == "y" && text(y) == "x"), "wrong keys"); } return; }
    case 24: { A a = arg("record"), k = arg("key"), r = out(); bool n = novm(); if (k.k == STR && symx_choose(2, "existing")) k.h = V->s("y"), k.k = INT, tiro_record_get(v, a.h, k.h, r.h, err()), k.k = STR; else { tiro_record_get(v, a.h, k.h, r.h, err()); bool bad = n || !a.h || !k.h || !r.h; return want(bad ? BA : a.k != REC || k.k != STR ? BT : TIRO_ERROR_BAD_KEY, r); } bool bad = n || !a.h || !r.h; want(bad ? BA : a.k != REC ? BT : NO, r); if (!bad && a.k == REC) symx_assert(tiro_integer_value(vm, r.h) == 21, "wrong value"); return; }
    case 25: { A a = arg("record"), k = arg("key"), e = symx_choose(2, "novalue") ? A{MISSING, nullptr} : A{EXC, H[EXC]}; bool n = novm(); bool exists = k.k == STR && symx_choose(2, "existing"); if (exists) k.h = V->s("y"); tiro_record_set(v, a.h, k.h, e.h, err()); bool bad = n || !a.h || !k.h || !e.h; bool ok = !bad && a.k == REC && exists; want(bad ? BA : a.k != REC || k.k != STR ? BT : exists ? NO : TIRO_ERROR_BAD_KEY); tiro_handle_t x = V->h(); tiro_record_get(vm, H[REC], V->s("x"), x, OK); symx_assert(tiro_integer_value(vm, x) == 20, "changed value"); tiro_record_get(vm, H[REC], V->s("y"), x, OK); symx_assert(ok ? same(x, e.h) : tiro_integer_value(vm, x) == 21, "wrong value"); return; }
    case 26: { A r = out(); bool n = novm(); size_t s = big_or_small("capacity", 4); tiro_make_array(v, s, r.h, err()); bool bad = n || !r.h; want(bad ? BA : s > 4 ? TIRO_ERROR_ALLOC : NO, r); if (!bad && s <= 4) symx_assert(kind(r.h) == TIRO_KIND_ARRAY && tiro_array_size(vm, r.h) == 0, "wrong array"); return; }
    case 27: { A a = arg("array"), r = out(); bool n = novm(); size_t i = index("index"); tiro_array_get(v, a.h, i, r.h, err()); bool bad = n || !a.h || !r.h; size_t s = a.k == ARR ? 3 : a.k == STRS ? 2 : 0; want(bad ? BA : !a.is({ARR, STRS, EMPTY}) ? BT : i >= s ? OB : NO, r); if (!bad && a.k == ARR && i < 3) symx_assert(tiro_integer_value(vm, r.h) == 30 + (int64_t) i, "wrong element"); return; }
    case 28: { A a = arg("array"), e = arg("element"); bool n = novm(); size_t i = index("index"); tiro_array_set(v, a.h, i, e.h, err()); bool bad = n || !a.h || !e.h; size_t s = a.k == ARR ? 3 : a.k == STRS ? 2 : 0; want(bad ? BA : !a.is({ARR, STRS, EMPTY}) ? BT : i >= s ? OB : NO); tiro_handle_t x = V->h(); symx_assert(tiro_array_size(vm, H[ARR]) == 3, "changed size"); for (size_t k = 0; k < 3; ++k) { tiro_array_get(vm, H[ARR], k, x, OK); if (!bad && a.k == ARR && i == k) symx_assert(same(x, e.h), "not stored"); else symx_assert(tiro_integer_value(vm, x) == 30 + (int64_t) k, "changed element"); } return; }
    case 29: { A a = arg("array"), e = arg("element"); bool n = novm(); unsigned times = 1 + symx_choose(3, "times"); for (unsigned k = 0; k < times; ++k) tiro_array_push(v, a.h, e.h, err()); bool bad = n || !a.h || !e.h; bool ok = !bad && a.is({ARR, STRS, EMPTY}); size_t s = a.k == ARR ? 3 : a.k == STRS ? 2 : 0; want(bad ? BA : ok ? NO : BT); symx_assert(tiro_array_size(vm, a.h) == s + (ok ? times : 0), "wrong size"); if (ok) { tiro_handle_t x = V->h(); for (unsigned k = 0; k < times; ++k) { tiro_array_get(vm, a.h, s + k, x, OK); symx_assert(same(x, e.h), "not appended"); } if (a.k == ARR) { tiro_array_get(vm, a.h, 2, x, OK); symx_assert(tiro_integer_value(vm, x) == 32, "changed element"); } } return; }
    case 30: { A a = arg("array"); bool n = novm(); tiro_array_pop(v, a.h, err()); bool bad = n || !a.h; bool ok = !bad && a.is({ARR, STRS}); size_t s = a.k == ARR ? 3 : a.k == STRS ? 2 : 0; want(bad ? BA : ok ? NO : a.k == EMPTY ? OB : BT); symx_assert(tiro_array_size(vm, a.h) == s - (ok ? 1 : 0), "wrong size"); return; }
    case 31: { A a = arg("array"); bool n = novm(); tiro_array_clear(v, a.h, err()); bool bad = n || !a.h; bool ok = !bad && a.is({ARR, STRS, EMPTY}); size_t s = a.k == ARR ? 3 : a.k == STRS ? 2 : 0; want(bad ? BA : ok ? NO : BT); symx_assert(tiro_array_size(vm, a.h) == (ok ? 0 : s), "wrong size"); return; }
    case 32: { A a = arg("value"), r = out(); bool n = novm(), good = symx_choose(2, "success"); (good ? tiro_make_success : tiro_make_error)(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : NO, r); if (!bad) { symx_assert(kind(r.h) == TIRO_KIND_RESULT && tiro_result_is_success(vm, r.h) == good && tiro_result_is_error(vm, r.h) == !good, "wrong result"); tiro_handle_t x = V->h(); (good ? tiro_result_value : tiro_result_error)(vm, r.h, x, OK); symx_assert(same(x, a.h), "wrong result"); } return; }
    case 33: { A a = arg("value"); bool n = novm(); symx_assert(tiro_result_is_success(v, a.h) == (!n && a.k == SUCC), "wrong is_success"); symx_assert(tiro_result_is_error(v, a.h) == (!n && a.k == FAIL), "wrong is_error"); return want(NO); }
    case 34: { A a = arg("value"), r = out(); bool n = novm(); tiro_result_value(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : a.k == SUCC ? NO : a.k == FAIL ? TIRO_ERROR_BAD_STATE : BT, r); if (!bad && a.k == SUCC) symx_assert(tiro_integer_value(vm, r.h) == 77, "wrong value"); return; }
    case 35: { A a = arg("value"), r = out(); bool n = novm(); tiro_result_error(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : a.k == FAIL ? NO : a.k == SUCC ? TIRO_ERROR_BAD_STATE : BT, r); if (!bad && a.k == FAIL) symx_assert(same(r.h, H[STR]), "wrong error"); return; }
    case 36: { A a = arg("value"), r = out(); bool n = novm(); tiro_exception_message(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : a.k == EXC ? NO : BT, r); if (!bad && a.k == EXC) symx_assert(text(r.h) == "boom", "wrong message"); return; }
    case 37: { A a = arg("value"), r = out(); bool n = novm(); tiro_exception_trace(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : a.k == EXC ? NO : BT, r); if (!bad && a.k == EXC) symx_assert(kind(r.h) == TIRO_KIND_NULL, "trace although disabled"); return; }
    case 38: { A f = arg("function"), a = arg("arguments"), r = out(); bool n = novm(); tiro_make_coroutine(v, f.h, a.h, r.h, err()); bool bad = n || !f.h || !r.h; bool ok = !bad && f.is({FUN, CODE}) && a.is({MISSING, NUL, TUP}); want(bad ? BA : ok ? NO : BT, r); if (ok) symx_assert(kind(r.h) == TIRO_KIND_COROUTINE && !tiro_coroutine_started(vm, r.h) && !tiro_coroutine_completed(vm, r.h) && !tiro_vm_has_ready(vm), "wrong coroutine"); return; }
    case 39: { A a = arg("value"); bool n = novm(); symx_assert(tiro_coroutine_started(v, a.h) == (!n && a.k == DONE), "wrong started"); symx_assert(tiro_coroutine_completed(v, a.h) == (!n && a.k == DONE), "wrong completed"); return want(NO); }
    case 40: { A a = arg("value"), r = out(); bool n = novm(); tiro_coroutine_result(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : a.k == DONE ? NO : a.k == NEW ? TIRO_ERROR_BAD_STATE : BT, r); if (!bad && a.k == DONE) symx_assert(tiro_result_is_success(vm, r.h), "wrong result"); return; }
    case 41: { A a = arg("value"); bool n = novm(); bool c = symx_choose(2, "callback"), f = symx_choose(2, "cleanup"); tiro_coroutine_set_callback(v, a.h, c ? on_done : nullptr, f ? on_cleanup : nullptr, nullptr, err()); bool bad = n || !a.h || !c; bool ok = !bad && a.is({NEW, DONE}); want(bad ? BA : ok ? NO : BT); symx_assert(calls == 0 && cleanups == (!ok && f ? 1 : 0), "wrong callbacks");
        if (ok && a.k == NEW) { tiro_coroutine_start(vm, a.h, OK); symx_assert(tiro_vm_has_ready(vm) && calls == 0, "callback too early"); tiro_vm_run_ready(vm, OK); symx_assert(calls == 1 && cleanups == (f ? 1 : 0), "wrong callbacks"); }
        bool called = ok && a.k == NEW; tiro_vm_free(vm); symx_assert(calls == (called ? 1 : 0) && cleanups == (f ? 1 : 0), "wrong callbacks at the end"); vm = nullptr; return; }
    case 42: { A a = arg("value"); bool n = novm(); tiro_coroutine_start(v, a.h, err()); bool bad = n || !a.h; want(bad ? BA : a.k == NEW ? NO : a.k == DONE ? TIRO_ERROR_BAD_STATE : BT); symx_assert(tiro_vm_has_ready(vm) == (!bad && a.k == NEW), "wrong ready state"); symx_assert(tiro_coroutine_started(vm, H[NEW]) == (!bad && a.k == NEW), "wrong started state"); return; }
    case 43: { bool good; tiro_string_t s = good_or_bad("name", good, "mod"); A a = arg("member"), r = out(); bool g2 = true; tiro_string_t ms = good_or_bad("member name", g2, "m"); unsigned len = symx_choose(3, "members"); tiro_module_member_t m[1] = {{ms, a.h}}; bool n = novm(); tiro_make_module(v, s, len == 1 ? m : nullptr, len ? 1 : 0, r.h, err()); bool bad = n || !good || !r.h || len == 2 || (len == 1 && (!g2 || !a.h)); want(bad ? BA : NO, r);
        if (!bad) { symx_assert(kind(r.h) == TIRO_KIND_MODULE, "no module"); tiro_handle_t x = V->h(); Err e; tiro_module_get_export(vm, r.h, str("m"), x, e); symx_assert(e.code() == (len ? TIRO_OK : TIRO_ERROR_EXPORT_NOT_FOUND), "wrong exports"); if (len) symx_assert(same(x, a.h), "wrong member"); } return; }
    case 44: { A a = arg("module"), r = out(); bool good; tiro_string_t s = good_or_bad("name", good, "p"); bool exists = true; if (good && symx_choose(2, "other")) s = str("q"), exists = false; bool n = novm(); tiro_module_get_export(v, a.h, s, r.h, err()); bool bad = n || !a.h || !good || !r.h; want(bad ? BA : a.k != MOD ? BT : exists ? NO : TIRO_ERROR_EXPORT_NOT_FOUND, r); if (!bad && a.k == MOD && exists) symx_assert(tiro_integer_value(vm, r.h) == 77, "wrong export"); return; }
    case 45: { A a = arg("type"), r = out(); bool n = novm(); tiro_type_name(v, a.h, r.h, err()); bool bad = n || !a.h || !r.h; want(bad ? BA : a.k == TYPE ? NO : BT, r); if (!bad && a.k == TYPE) symx_assert(text(r.h) == "Array", "wrong name"); return; }
    case 46: { static tiro_native_type_t T{}; bool notype = symx_choose(2, "without a type"), badname = symx_choose(2, "bad name"); T.name = badname ? tiro_string_t{nullptr, 4} : str("T"); T.alignment = index("alignment"); T.finalizer = nullptr; A r = out(); size_t s = big_or_small("size", 3); bool n = novm(); tiro_make_native(v, notype ? nullptr : &T, s, r.h, err()); size_t al = T.alignment; bool pow = al == 1 || al == 2 || al == 4 || al == 8 || al == 16, bigpow = al > 16 && !(al & (al - 1)); bool bad = n || notype || badname || !r.h || s == 0 || !(pow || bigpow); want(bad ? BA : bigpow || s > 3 ? TIRO_ERROR_ALLOC : NO, r);
        if (!bad && !bigpow && s <= 3) symx_assert(kind(r.h) == TIRO_KIND_NATIVE && tiro_native_size(vm, r.h) == s && tiro_native_type_descriptor(vm, r.h) == &T && ((uintptr_t) tiro_native_data(vm, r.h) & 15) == 0, "wrong native object"); return; }
    case 47: { A a = arg("name"), c = arg("closure"), r = out(); bool f = symx_choose(2, "function"); size_t argc = index("argc"); bool n = novm(); tiro_make_sync_function(v, a.h, f ? nat1 : nullptr, argc, c.h, r.h, err()); bool bad = n || !a.h || !f || !r.h || argc > 1024; want(bad ? BA : a.k == STR ? NO : BT, r); if (!bad && a.k == STR) { symx_assert(kind(r.h) == TIRO_KIND_FUNCTION, "no function"); if (argc == 0) { Call k = call(*V, r.h); symx_assert(k.ok && (c.h ? same(k.value, c.h) : kind(k.value) == TIRO_KIND_NULL), "wrong closure"); } } return; }
    case 48: { A a = arg("name"), r = out(); bool f = symx_choose(2, "function"); size_t argc = index("argc"); bool n = novm(); tiro_make_async_function(v, a.h, f ? nat2 : nullptr, argc, nullptr, r.h, err()); bool bad = n || !a.h || !f || !r.h || argc > 1024; want(bad ? BA : a.k == STR ? NO : BT, r); if (!bad && a.k == STR) symx_assert(kind(r.h) == TIRO_KIND_FUNCTION, "no function"); return; }
    case 49: { A a = arg("name"), c = arg("closure"), r = out(); bool f = symx_choose(2, "function"), nd = symx_choose(2, "without a description"); size_t argc = index("argc"), loc = index("locals"); bool n = novm(); tiro_resumable_frame_desc_t d{}; d.name = a.h; d.closure = c.h; d.func = f ? nat3 : nullptr; d.arg_count = argc; d.local_count = loc; if (loc > 4) symx_assume(loc > 16384); tiro_make_resumable_function(v, nd ? nullptr : &d, r.h, err()); bool bad = n || nd || !a.h || !f || !r.h || argc > 1024 || loc > 16384; want(bad ? BA : a.k == STR ? NO : BT, r); if (!bad && a.k == STR) { symx_assert(kind(r.h) == TIRO_KIND_FUNCTION, "no function"); if (argc == 0) { Call k = call(*V, r.h); symx_assert(k.ok && (c.h ? same(k.value, c.h) : kind(k.value) == TIRO_KIND_NULL), "wrong closure"); } } return; }
    case 50: { A a = arg("value"), r = out(); size_t i = index("index"); symx_assert(tiro_sync_frame_arg_count(nullptr) == 0, "arguments without a frame"); switch (symx_choose(5, "function")) { case 0: tiro_sync_frame_arg(nullptr, i, r.h, err()); break; case 1: tiro_sync_frame_closure(nullptr, r.h, err()); break; case 2: tiro_sync_frame_return_value(nullptr, a.h, err()); break; case 3: tiro_sync_frame_panic_msg(nullptr, str("x"), err()); break; default: { tiro_resumable_frame_desc_t d{}; d.func = nat3; tiro_make_resumable_function(vm, &d, r.h, err()); } } return want(BA, r); }
    case 51: { A a = arg("value"), r = out(); size_t i = index("index"); symx_assert(tiro_async_frame_arg_count(nullptr) == 0, "arguments without a frame"); switch (symx_choose(8, "function")) { case 0: tiro_async_frame_arg(nullptr, i, r.h, err()); break; case 1: tiro_async_frame_closure(nullptr, r.h, err()); break; case 2: tiro_async_frame_return_value(nullptr, a.h, err()); break; case 3: tiro_async_frame_panic_msg(nullptr, str("x"), err()); break; case 4: symx_assert(!tiro_async_frame_token(nullptr, err()), "token without a frame"); break; case 5: tiro_async_frame_yield(nullptr, err()); break; case 6: tiro_async_token_return_value(nullptr, a.h, err()); break; default: tiro_async_token_panic_msg(nullptr, str("x"), err()); } tiro_async_token_free(nullptr); return want(BA, r); }
    case 52: { A a = arg("value"), r = out(); size_t i = index("index"); symx_assert(tiro_resumable_frame_arg_count(nullptr) == 0 && tiro_resumable_frame_local_count(nullptr) == 0 && tiro_resumable_frame_state(nullptr) == 0, "arguments without a frame"); switch (symx_choose(9, "function")) { case 0: tiro_resumable_frame_arg(nullptr, i, r.h, err()); break; case 1: tiro_resumable_frame_closure(nullptr, r.h, err()); break; case 2: tiro_resumable_frame_return_value(nullptr, a.h, err()); break; case 3: tiro_resumable_frame_panic_msg(nullptr, str("x"), err()); break; case 4: tiro_resumable_frame_local(nullptr, i, r.h, err()); break; case 5: tiro_resumable_frame_set_local(nullptr, i, a.h, err()); break; case 6: tiro_resumable_frame_set_state(nullptr, (int) i, err()); break; case 7: tiro_resumable_frame_invoke(nullptr, 1, a.h, nullptr, err()); break; default: tiro_resumable_frame_invoke_return(nullptr, r.h, err()); } return want(BA, r); }
    case 53: { A a = arg("module"); bool n = novm(); tiro_vm_load_module(v, a.h, err()); bool bad = n || !a.h; want(bad ? BA : a.k == MOD ? NO : BT); if (!bad && a.k == MOD) { tiro_handle_t x = V->h(); tiro_vm_get_export(vm, str("withp"), str("p"), x, OK); symx_assert(tiro_integer_value(vm, x) == 77, "wrong export"); Err e; tiro_vm_load_module(vm, a.h, e); symx_assert(e.code() == TIRO_ERROR_MODULE_EXISTS, "module loaded twice"); } return; }
    case 54: { A r = out(); bool g1, g2; tiro_string_t m = good_or_bad("module", g1, "test"), x = good_or_bad("export", g2, "id"); unsigned which = symx_choose(3, "unknown"); if (which == 1 && g1) m = str("nope"); if (which == 2 && g2) x = str("nope"); bool n = novm(); tiro_vm_get_export(v, m, x, r.h, err()); bool bad = n || !g1 || !g2 || !r.h; want(bad ? BA : which == 1 ? TIRO_ERROR_MODULE_NOT_FOUND : which == 2 ? TIRO_ERROR_EXPORT_NOT_FOUND : NO, r); if (!bad && !which) symx_assert(kind(r.h) == TIRO_KIND_FUNCTION, "wrong export"); return; }
    case 55: { switch (symx_choose(6, "function")) { case 0: tiro_vm_run_ready(nullptr, err()); break; case 1: symx_assert(!tiro_global_new(nullptr, err()), "handle without a vm"); break; case 2: tiro_vm_load_std(nullptr, err()); break; case 3: tiro_vm_load_bytecode(vm, nullptr, err()); break; case 4: tiro_vm_load_bytecode(nullptr, nullptr, err()); break; default: { tiro_string_t s{}; tiro_string_value(vm, nullptr, &s, err()); } } tiro_global_free(nullptr); symx_assert(!tiro_global_get_vm(nullptr) && !tiro_vm_has_ready(nullptr) && !tiro_vm_userdata(nullptr) && !tiro_vm_page_size(nullptr) && !tiro_vm_max_heap_size(nullptr), "value without a vm"); tiro_vm_free(nullptr); tiro_error_free(nullptr); tiro_compiler_free(nullptr); tiro_module_free(nullptr); return want(BA); }
    case 56: { tiro_vm_load_std(vm, err()); return want(TIRO_ERROR_MODULE_EXISTS); }
    case 57: { size_t p = index("page size"); bool pow = p && !(p & (p - 1)); bool bad = p != 0 && (p < (1 << 16) || p > (1 << 24) || !pow); if (!bad) { static const size_t good[] = {0, 1 << 16, 1 << 18, 1 << 24}; size_t g = good[symx_choose(4, "valid page size")]; symx_assume(p == g); p = g; } tiro_vm_settings_t s; tiro_vm_settings_init(&s); s.page_size = p; s.userdata = &s; tiro_vm_t w = tiro_vm_new(&s, err()); want(bad ? BA : NO); symx_assert((w != nullptr) == !bad, "wrong vm"); if (w) symx_assert(tiro_vm_page_size(w) == (p ? p : size_t(1) << 20) && tiro_vm_userdata(w) == &s && !tiro_vm_has_ready(w), "wrong settings"); tiro_vm_free(w); return; }
    case 58: { int c = (int) index("code"); const char* n = tiro_errc_name((tiro_errc_t) c); const char* m = tiro_errc_message((tiro_errc_t) c); symx_assert(n && *n && m && *m, "error code without a description"); symx_assert(tiro_error_errc(nullptr) == TIRO_OK && tiro_error_name(nullptr) && tiro_error_message(nullptr) && tiro_error_details(nullptr), "missing error"); const char* k = tiro_kind_str((tiro_kind_t) c); symx_assert(k && *k, "kind without a name"); return want(NO); }
    case 59: { // existing errors are kept
        tiro_error_t first = nullptr; tiro_array_pop(vm, H[EMPTY], &first); tiro_error_t e = first; A a = arg("value"), r = out(); tiro_tuple_get(vm, a.h, index("index"), r.h, &e); symx_assert(e == first && tiro_error_errc(e) == OB, "error is overwritten"); tiro_make_tuple(vm, SIZE_MAX, H[NUL], &e); symx_assert(e == first && tiro_error_errc(e) == OB, "error is overwritten"); tiro_error_free(e); return want(NO); }
    case 60: { // handles are independent of each other
        A a = arg("first"), b = arg("second"); tiro_handle_t x = V->h(), y = V->h(), z = V->h(); symx_assert(x && y && z && x != y && y != z && kind(x) == TIRO_KIND_NULL, "handles are not new"); if (a.h) tiro_value_copy(vm, a.h, x, OK); if (b.h) tiro_value_copy(vm, b.h, z, OK); tiro_global_free(y); tiro_handle_t w = V->h(); symx_assert(w != x && w != z && kind(w) == TIRO_KIND_NULL, "handle is not new"); tiro_value_copy(vm, sentinel, w, OK); symx_assert((!a.h || same(x, a.h)) && (!b.h || same(z, b.h)) && tiro_global_get_vm(x) == vm, "handle changed"); return want(NO); }
    case 61: { // the memory limit
        tiro_vm_settings_t s; tiro_vm_settings_init(&s); s.page_size = 1 << 16; s.max_heap_size = 1 << (symx_choose(4, "limit") + 15); tiro_vm_t w = tiro_vm_new(&s, err()); size_t lim = s.max_heap_size; if (!w) { symx_assert(!with_err || tiro_error_errc(E) == TIRO_ERROR_ALLOC, "wrong error"); symx_cover("failed"); return; } symx_assert(tiro_vm_max_heap_size(w) == lim, "wrong limit"); tiro_handle_t h = tiro_global_new(w, OK); size_t n = lim + (size_t(1) << symx_choose(64, "bytes")) - 1; symx_assume(n >= lim); Err e; tiro_make_buffer(w, n, h, e); symx_assert(e.code() == TIRO_ERROR_ALLOC && tiro_value_kind(w, h) == TIRO_KIND_NULL, "memory limit is exceeded"); symx_cover("failed"); tiro_vm_free(w); return; }
    }
}

int main() {
#ifndef COMPILER
    V = new VM(true, 1 << 16, 1 << 23);
    vm = V->vm;
    sentinel = V->i(4242);
    V->load("import std; export func id(x) = x; export func make() { const s = \"abcd\"; return (s.slice(0, 2), #sym, std.Array, id, map{1: 2}, std.catch_panic(func() { std.panic(\"boom\"); }).error()); }");
    Call m = call(*V, V->fn("make"));
    for (int k = 0; k < NK; ++k) H[k] = V->h();
    auto el = [&](int i, K k) { tiro_tuple_get(vm, m.value, i, H[k], OK); };
    el(0, SLICE); el(1, SYM); el(2, TYPE); el(3, CODE); el(4, MAPV); el(5, EXC);
    tiro_make_boolean(vm, false, H[BOOL], OK);
    tiro_make_integer(vm, 77, H[INT], OK);
    tiro_make_float(vm, -2.5, H[FLT], OK);
    tiro_make_string(vm, str("abc"), H[STR], OK);
    tiro_make_buffer(vm, 2, H[BUF], OK);
    tiro_make_tuple(vm, 3, H[TUP], OK);
    tiro_make_array(vm, 0, H[ARR], OK); tiro_make_array(vm, 0, H[EMPTY], OK); tiro_make_array(vm, 0, H[STRS], OK);
    for (int k = 0; k < 3; ++k) { tiro_tuple_set(vm, H[TUP], k, V->i(10 + k), OK); tiro_array_push(vm, H[ARR], V->i(30 + k), OK); }
    tiro_array_push(vm, H[STRS], V->s("x"), OK); tiro_array_push(vm, H[STRS], V->s("y"), OK);
    tiro_make_record_schema(vm, H[STRS], H[SCHEMA], OK);
    tiro_make_record(vm, H[SCHEMA], H[REC], OK);
    tiro_record_set(vm, H[REC], V->s("x"), V->i(20), OK); tiro_record_set(vm, H[REC], V->s("y"), V->i(21), OK);
    tiro_make_success(vm, H[INT], H[SUCC], OK); tiro_make_error(vm, H[STR], H[FAIL], OK);
    tiro_make_sync_function(vm, V->s("nat"), nat1, 0, nullptr, H[FUN], OK);
    tiro_make_coroutine(vm, H[FUN], nullptr, H[NEW], OK); tiro_make_coroutine(vm, H[FUN], nullptr, H[DONE], OK);
    tiro_coroutine_start(vm, H[DONE], OK); tiro_vm_run_ready(vm, OK);
    tiro_module_member_t mm{str("p"), H[INT]};
    tiro_make_module(vm, str("withp"), &mm, 1, H[MOD], OK);
    static tiro_native_type_t T{}; T.name = str("native"); T.alignment = 4;
    tiro_make_native(vm, &T, 5, H[NAT], OK);
#ifdef ONLY
    unsigned op = ONLY;
#else
    unsigned op = symx_choose(OPS, "function");
#endif
    with_err = symx_choose(2, "with error");
    run(op);
    tiro_error_free(E);
#else
    // the compiler object
    with_err = true;
    bool good; tiro_string_t name = good_or_bad("module name", good, "mod");
    tiro_compiler_t c = tiro_compiler_new(name, &E);
    want(good ? NO : BA);
    symx_assert((c != nullptr) == good, "wrong compiler");
    if (!good) return 0;
    bool started = false, module = false, compiled = false, asked[4] = {};
    unsigned files = 0, bad_files = 0; static unsigned messages; bool abort_run = false;
    tiro_compiler_set_message_callback(c, [](const tiro_compiler_message_t*, void* u) { ++messages; return !*(bool*) u; }, &abort_run, OK);
    for (int step = 0; step < STEPS; ++step) {
        Err e; tiro_errc_t w = NO;
        bool missing = symx_choose(2, "missing");
        tiro_compiler_t cc = missing ? nullptr : c;
        switch (symx_choose(6, "step")) {
        case 0: { bool g1, bad = symx_choose(2, "bad source"); tiro_string_t n = good_or_bad("file name", g1, std::string_view("abcdef").substr(files, 1)); tiro_string_t src = bad ? str("func") : files > 1 ? str(std::string_view(";;;;")) : files ? str("export func g() = 2;") : str("export func f() = 1;"); bool none = symx_choose(2, "no content"); if (none) src = tiro_string_t{nullptr, 7};
            tiro_compiler_add_file(cc, n, src, e); if (missing || none || (!g1 && !n.data)) w = BA; else if (started) w = TIRO_ERROR_BAD_STATE; else if (!g1) w = BA; if (w == NO) files++, bad_files += bad; break; }
        case 1: { uint32_t a; symx_make(&a, 4, "attachment"); tiro_compiler_request_attachment(cc, (tiro_attachment_t) a, e); w = missing ? BA : started ? TIRO_ERROR_BAD_STATE : a >= 1 && a <= 4 ? NO : BA; if (w == NO) for (unsigned k = 1; k <= 4; ++k) if (a == k) asked[k - 1] = true; break; }
        case 2: { if (asked[0] || asked[1]) return 0; abort_run = symx_choose(2, "abort"); unsigned before = messages; tiro_compiler_run(cc, e); if (missing) w = BA; else if (started) w = TIRO_ERROR_BAD_STATE; else { started = true; compiled = true; w = bad_files ? abort_run ? TIRO_ERROR_BAD_STATE : TIRO_ERROR_BAD_SOURCE : NO; module = !bad_files; symx_assert((messages > before) == (bad_files > 0), "wrong messages"); } break; }
        case 3: { bool none = symx_choose(2, "no target"); tiro_module_t m = nullptr; symx_assert(tiro_compiler_has_module(cc) == (!missing && module), "wrong has_module"); tiro_compiler_take_module(cc, none ? nullptr : &m, e); w = missing || none ? BA : module ? NO : TIRO_ERROR_BAD_STATE; symx_assert((m != nullptr) == (w == NO), "wrong module"); if (m) { module = false;
                VM v; tiro_vm_load_bytecode(v.vm, m, OK); tiro_handle_t x = v.h(); Err f; tiro_vm_get_export(v.vm, str("mod"), str("f"), x, f); symx_assert(f.code() == (files > 0 ? NO : TIRO_ERROR_EXPORT_NOT_FOUND), "wrong module"); Err g; tiro_vm_get_export(v.vm, str("mod"), str("g"), x, g); symx_assert(g.code() == (files > 1 ? NO : TIRO_ERROR_EXPORT_NOT_FOUND), "wrong module"); Err twice; tiro_vm_load_bytecode(v.vm, m, twice); symx_assert(twice.code() == TIRO_ERROR_MODULE_EXISTS, "module loaded twice"); }
            tiro_module_free(m); break; }
        case 4: { bool none = symx_choose(2, "no target"); uint32_t a; symx_make(&a, 4, "attachment"); char* s = nullptr; tiro_compiler_get_attachment(cc, (tiro_attachment_t) a, none ? nullptr : &s, e); bool have = false; for (unsigned k = 1; k <= 4; ++k) if (a == k && asked[k - 1]) have = true;
            bool known = a >= 1 && a <= 4;
            if (missing || none) w = BA; else if (!compiled) w = TIRO_ERROR_BAD_STATE; else if (!known) w = BA; else if (!have) w = TIRO_ERROR_BAD_STATE; else if (bad_files) { symx_assert((s != nullptr) == (e.code() == NO), "wrong attachment"); free(s); continue; } symx_assert((s != nullptr) == (w == NO), "wrong attachment"); free(s); break; }
        case 5: { tiro_compiler_set_message_callback(cc, [](const tiro_compiler_message_t*, void* u) { ++messages; return !*(bool*) u; }, &abort_run, e); w = missing ? BA : NO; break; }
        }
        if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "expected %d, got %d\n", w, e.code());
        symx_assert(e.code() == w, w == NO ? "valid call is rejected" : e.code() == NO ? "invalid call is not reported" : "wrong error code");
        if (w == NO) symx_cover("succeeded"); else symx_cover("failed");
    }
    tiro_compiler_free(c);
#endif
    return 0;
}
