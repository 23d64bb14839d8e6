// C07: arrays, tuples and buffers are bounds checked sequences.
// COVERS: ops index badindex iterate buffer tuple capi destructure
#include "tiroh.hpp"
#include <vector>
using namespace th;

static const char* SRC = R"(
import std;
export func mk() { return []; }
export func fill(a, n) { for var i = 0; i < n; i += 1 { a.append(i * 3 + 1); } }
export func lit5() { return [10, 11, 12, 13, 14]; }
export func tup3() { return (10, 11, 12); }
export func tupn(n) { if n == 0 { return (); } if n == 1 { return (10,); } if n == 2 { return (10, 11); } return (10, 11, 12, 13); }
export func buf(n) { return std.new_buffer(n); }
export func get(a, i) { return a[i]; }
export func set(a, i, v) { a[i] = v; }
export func add(a, i, v) { a[i] += v; return a[i]; }
export func append(a, v) { a.append(v); }
export func size(a) { return a.size(); }
export func clear(a) { a.clear(); }
export func copy(a) { const r = []; for x in a { r.append(x); } return r; }
export func pairs(a) { const r = []; for x in a { for y in a { r.append((x, y)); } r.append(x); } return r; }
export func des(t) { const (a, b, c) = t; return [a, b, c]; }
export func des2(t) { var a = 0; var b = 0; (a, b) = t; return [a, b]; }
export func swap(a, b) { var x = a; var y = b; (x, y) = (y, x); return [x, y]; }
)";
static VM* vm;
static std::vector<int64_t> ref;
static tiro_handle_t A;

static Call run(const char* f, tiro_handle_t a, tiro_handle_t b = nullptr, tiro_handle_t c = nullptr) {
    return c ? call(*vm, vm->fn(f), a, b, c) : b ? call(*vm, vm->fn(f), a, b) : call(*vm, vm->fn(f), a);
}
static tiro_handle_t at(tiro_handle_t arr, size_t i) {
    tiro_handle_t h = vm->h();
    tiro_array_get(vm->vm, arr, i, h, OK);
    return h;
}
static void audit() {
    symx_assert(as_int(*vm, run("size", A).value) == (int64_t) ref.size(), "size() is wrong");
    Call c = run("copy", A);
    symx_assert(c.ok, "iteration panicked");
    symx_assert(tiro_array_size(vm->vm, c.value) == ref.size(), "iteration does not visit every element once");
    for (size_t i = 0; i < ref.size(); ++i) symx_assert(as_int(*vm, at(c.value, i)) == ref[i], "an element is wrong");
}
static void read(int64_t i) {
    Call c = run("get", A, vm->i(i));
    bool in = i >= 0 && i < (int64_t) ref.size();
    symx_assert(c.ok == in, in ? "an element inside the bounds is not accessible" : "an access outside the bounds did not panic");
    symx_observe(c.ok);
    if (c.ok) {
        int64_t e = 0;
        for (size_t k = 0; k < ref.size(); ++k)
            if ((int64_t) k == i) e = ref[k];
        symx_assert(as_int(*vm, c.value) == e, "wrong element");
    }
}

int main() {
    VM v(true);
    vm = &v;
    v.load(SRC);
    unsigned mode = symx_choose(8, "mode");
    if (mode == 0) {
        // growth and clear: n appends, a symbolic element written at a symbolic place, more appends
        static const int sizes[] = {0, 1, 7, 8, 9, 16, 17, 33};
        int n = sizes[symx_choose(8, "n")];
        A = call(v, v.fn("mk")).value;
        run("fill", A, v.i(n));
        for (int i = 0; i < n; ++i) ref.push_back(i * 3 + 1);
        if (symx_choose(2, "clear")) {
            run("clear", A);
            ref.clear();
            run("fill", A, v.i(2));
            ref = {1, 4};
        }
        int64_t i = sym_i64("i"), x = sym_i64("x");
        Call c = run("set", A, v.i(i), v.i(x));
        bool in = i >= 0 && i < (int64_t) ref.size();
        symx_assert(c.ok == in, in ? "a store inside the bounds panicked" : "a store outside the bounds did not panic");
        if (in) ref[symx_concretize(i)] = x;
        run("append", A, v.i(x));
        ref.push_back(x);
        audit();
        symx_cover("ops");
    } else if (mode == 1) {
        bool tuple = symx_choose(2, "tuple");
        A = tuple ? call(v, v.fn("tup3")).value : call(v, v.fn("lit5")).value;
        ref = {10, 11, 12};
        if (!tuple) { ref.push_back(13); ref.push_back(14); }
        bool wr = symx_choose(2, "write");
        int64_t i = sym_i64("i"), j = wr ? sym_range("j", -1, 6) : sym_i64("j");
        if (wr) {
            int64_t x = sym_range("x", -100, 100);
            Call c = run("add", A, v.i(i), v.i(x));
            bool in = i >= 0 && i < (int64_t) ref.size();
            symx_assert(c.ok == in, "compound assignment to an element is not bounds checked");
            if (in) {
                ref[symx_concretize(i)] += x;
                symx_assert(as_int(v, c.value) == ref[symx_concretize(i)], "compound assignment to an element is wrong");
            }
        }
        read(j);
        symx_cover("index");
    } else if (mode == 2) {
        // an index that is not an integer panics and changes nothing
        unsigned cont = symx_choose(3, "cont"), kind = symx_choose(5, "kind"), wr = symx_choose(2, "write");
        A = cont == 0 ? call(v, v.fn("lit5")).value : cont == 1 ? call(v, v.fn("tup3")).value : run("buf", v.i(3)).value;
        tiro_handle_t idx = kind == 0 ? v.f(sym_f64("d")) : kind == 1 ? v.null() : kind == 2 ? v.b(sym_bool("b")) : kind == 3 ? v.s("0") : A;
        Call c = wr ? run("set", A, idx, v.i(5)) : run("get", A, idx);
        symx_assert(!c.ok, "an index that is not an integer was accepted");
        if (cont == 2) ref = {0, 0, 0};
        else { ref = {10, 11, 12}; if (cont == 0) { ref.push_back(13); ref.push_back(14); } }
        for (int64_t k = 0; k < (int64_t) ref.size(); ++k) read(k);
        symx_cover("badindex");
    } else if (mode == 3) {
        // nested iteration over the same object
        A = call(v, v.fn("mk")).value;
        int64_t x[3];
        unsigned n = symx_choose(4, "n");
        for (unsigned i = 0; i < n; ++i) {
            char name[2] = {(char) ('a' + i), 0};
            x[i] = sym_i64(name);
            run("append", A, v.i(x[i]));
        }
        Call c = run("pairs", A);
        symx_assert(c.ok && tiro_array_size(v.vm, c.value) == n * (n + 1), "nested iteration visits too few or too many elements");
        tiro_handle_t h = v.h();
        for (unsigned i = 0, k = 0; i < n; ++i) {
            for (unsigned j = 0; j < n; ++j, ++k) {
                tiro_handle_t p = at(c.value, k);
                tiro_tuple_get(v.vm, p, 0, h, OK);
                symx_assert(as_int(v, h) == x[i], "nested iteration is wrong (outer)");
                tiro_tuple_get(v.vm, p, 1, h, OK);
                symx_assert(as_int(v, h) == x[j], "nested iteration is wrong (inner)");
            }
            symx_assert(as_int(v, at(c.value, k++)) == x[i], "the outer iteration is disturbed by the inner one");
        }
        symx_cover("iterate");
    } else if (mode == 4) {
        // buffers: n zero bytes, only integers 0..255 can be stored
        int64_t n = sym_range("n", -2, 4);
        Call b = run("buf", v.i(n));
        symx_assert(b.ok == (n >= 0), "a buffer with a negative size");
        if (!b.ok) return 0;
        n = (int64_t) symx_concretize((uint64_t) n);
        A = b.value;
        ref.assign((size_t) n, 0);
        unsigned wide = symx_choose(3, "wide");
        int64_t i = wide == 0 ? sym_i64("i") : sym_range("i", -1, 9), x = wide == 1 ? sym_i64("x") : sym_range("x", -1, 256), j = wide == 2 ? sym_i64("j") : sym_range("j", -1, 9);
        Call c = run("set", A, v.i(i), v.i(x));
        bool in = i >= 0 && i < n && x >= 0 && x <= 255;
        symx_assert(c.ok == in, "storing into a buffer is not checked");
        if (in) ref[symx_concretize(i)] = x;
        symx_assert(as_int(v, run("size", A).value) == n, "size() of a buffer is wrong");
        read(j);
        // the same memory through the C API
        symx_assert(tiro_buffer_size(v.vm, A) == (size_t) n, "tiro_buffer_size is wrong");
        unsigned char* d = tiro_buffer_data(v.vm, A);
        for (int64_t k = 0; k < n; ++k) symx_assert(d[k] == ref[k], "tiro_buffer_data shows something else");
        if (n > 0) {
            unsigned char w;
            symx_make(&w, 1, "w");
            d[n - 1] = w;
            ref[n - 1] = w;
            read(n - 1);
        }
        symx_cover("buffer");
    } else if (mode == 5) {
        unsigned n = symx_choose(4, "n");
        A = run("tupn", v.i(n)).value;
        ref.clear();
        for (unsigned k = 0; k < (n == 3 ? 4 : n); ++k) ref.push_back(10 + k);
        symx_assert(tiro_value_kind(v.vm, A) == TIRO_KIND_TUPLE && tiro_tuple_size(v.vm, A) == ref.size(), "a tuple has the wrong size");
        read(sym_i64("i"));
        audit();
        symx_cover("tuple");
    } else if (mode == 6) {
        // C API access with symbolic indices
        bool tuple = symx_choose(2, "tuple");
        A = tuple ? call(v, v.fn("tup3")).value : call(v, v.fn("lit5")).value;
        ref = {10, 11, 12};
        if (!tuple) { ref.push_back(13); ref.push_back(14); }
        uint64_t i = (uint64_t) sym_i64("i");
        int64_t x = sym_i64("x");
        bool wr = symx_choose(2, "write"), in = i < ref.size();
        tiro_handle_t h = v.h();
        Err e;
        if (wr) {
            if (tuple) tiro_tuple_set(v.vm, A, i, v.i(x), e);
            else tiro_array_set(v.vm, A, i, v.i(x), e);
            if (in) ref[symx_concretize(i)] = x;
        } else {
            if (tuple) tiro_tuple_get(v.vm, A, i, h, e);
            else tiro_array_get(v.vm, A, i, h, e);
            if (in) symx_assert(as_int(v, h) == ref[symx_concretize(i)], "wrong element through the C API");
        }
        symx_assert(e.code() == (in ? TIRO_OK : TIRO_ERROR_OUT_OF_BOUNDS), "C API access is not bounds checked");
        if (!tuple) {
            tiro_array_push(v.vm, A, v.i(x), OK);
            ref.push_back(x);
            tiro_array_pop(v.vm, A, OK);
            ref.pop_back();
            if (symx_choose(2, "drain")) {
                for (int k = 0; k < 5; ++k) tiro_array_pop(v.vm, A, OK);
                ref.clear();
                Err p;
                tiro_array_pop(v.vm, A, p);
                symx_assert(p.code() == TIRO_ERROR_OUT_OF_BOUNDS, "pop of an empty array");
            }
        }
        audit();
        symx_cover("capi");
    } else {
        // destructuring
        int64_t a = sym_i64("a"), b = sym_i64("b"), c = sym_i64("c");
        unsigned n = symx_choose(5, "n");
        tiro_handle_t t = v.h(), in[3] = {v.i(a), v.i(b), v.i(c)};
        tiro_make_tuple(v.vm, n, t, OK);
        for (unsigned k = 0; k < n && k < 3; ++k) tiro_tuple_set(v.vm, t, k, in[k], OK);
        Call r = run("des", t);
        symx_assert(n >= 3 ? r.ok : !r.ok, "destructuring a tuple of the wrong size");
        if (r.ok) for (int k = 0; k < 3; ++k) symx_assert(as_int(v, at(r.value, k)) == (k == 0 ? a : k == 1 ? b : c), "destructuring yields the wrong element");
        r = run("des2", t);
        symx_assert(n >= 2 ? r.ok : !r.ok, "tuple assignment with a tuple of the wrong size");
        if (r.ok) symx_assert(as_int(v, at(r.value, 0)) == a && as_int(v, at(r.value, 1)) == b, "tuple assignment assigns the wrong element");
        r = run("swap", v.i(a), v.i(b));
        symx_assert(r.ok && as_int(v, at(r.value, 0)) == b && as_int(v, at(r.value, 1)) == a, "swapping with a tuple assignment is wrong");
        symx_cover("destructure");
    }
    return 0;
}
