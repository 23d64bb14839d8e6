// C08: strings, string slices and string builders.
// COVERS: slice contains builder iterate key interpolate capi badarg
#include "tiroh.hpp"
#include <vector>
using namespace th;

static const char* SRC = R"(
import std;
export func slice(s, o, n) { return s.slice(o, n); }
export func first(s, n) { return s.slice_first(n); }
export func last(s, n) { return s.slice_last(n); }
export func size(s) { return s.size(); }
export func str(s) { return s.to_string(); }
export func contains(s, x) { return s.contains(x); }
export func builder() { return std.new_string_builder(); }
export func append(b, x) { b.append(x); }
export func append2(b, x, y) { b.append(x, y); }
export func append_byte(b, x) { b.append_byte(x); }
export func clear(b) { b.clear(); }
export func chars(s) { const r = []; for c in s { r.append(c); } return r; }
export func eq(a, b) { return a == b; }
export func store(k, v) { const m = map{}; m[k] = v; return m; }
export func load(m, k) { return m[k]; }
export func ip1(x) { return "<$x>"; }
export func ip2(x, y) { return "${x}-${y}"; }
export func ip3(x) { return "a${x}b$x"; }
export func sym() { return #foo; }
)";
static VM* vm;
template<typename... H>
static Call run(const char* f, H... a) { return call(*vm, vm->fn(f), a...); }

static std::string symstr(const char* name, unsigned n, int lo = 0, int hi = 127) {
    std::string s(n, 0);
    if (n) symx_make(&s[0], n, name);
    for (unsigned i = 0; i < n; ++i) symx_assume(((unsigned char) s[i] >= lo) & ((unsigned char) s[i] <= hi));
    return s;
}
static std::string content(tiro_handle_t h) {
    tiro_handle_t s = h;
    if (tiro_value_kind(vm->vm, h) != TIRO_KIND_STRING) {
        Call c = run("str", h);
        symx_assert(c.ok, "to_string() panicked");
        s = c.value;
    }
    symx_assert(tiro_value_kind(vm->vm, s) == TIRO_KIND_STRING, "not a string");
    tiro_string_t r;
    tiro_string_value(vm->vm, s, &r, OK);
    return std::string(r.data, r.length);
}
static void same(const std::string& a, const std::string& b, const char* msg) {
    symx_assert(a.size() == b.size(), msg);
    symx_assert(memcmp(a.data(), b.data(), a.size()) == 0, msg);
}
static int64_t clamp(int64_t x, int64_t max) { return x < 0 ? 0 : x > max ? max : x; }
static bool ref_contains(const std::string& s, const std::string& n) {
    bool r = n.empty();
    for (size_t i = 0; i + n.size() <= s.size(); ++i) {
        bool eq = true;
        for (size_t k = 0; k < n.size(); ++k) eq = eq & (s[i + k] == n[k]);
        r = r | eq;
    }
    return r;
}
// the string as one of: string, slice of a longer string, slice of a slice
static tiro_handle_t stringlike(const std::string& s, unsigned form) {
    if (form == 0) return vm->s(s);
    if (form >= 3) // at the start, at the end and all of the original string
        return run("slice", vm->s((form == 4 ? "x" : "") + s + (form == 3 ? "z" : "")), vm->i(form == 4), vm->i((int64_t) s.size())).value;
    tiro_handle_t h = vm->s("xy" + s + "z");
    if (form == 1) return run("slice", h, vm->i(2), vm->i((int64_t) s.size())).value;
    h = run("last", h, vm->i((int64_t) s.size() + 2)).value;
    h = run("slice", h, vm->i(1), vm->i((int64_t) s.size() + 1)).value;
    return run("first", h, vm->i((int64_t) s.size())).value;
}

int main() {
    VM v(true);
    vm = &v;
    v.load(SRC);
    unsigned mode = symx_choose(8, "mode");
    if (mode == 0) {
        // slicing clamps to the string
        unsigned n = symx_choose(5, "n"), form = symx_choose(3, "form"), op = symx_choose(3, "op");
        std::string s = symstr("s", n), e;
        tiro_handle_t h = stringlike(s, form);
        symx_assert(as_int(v, run("size", h).value) == (int64_t) n, "size() is wrong");
        same(content(h), s, "the content of a string is wrong");
        int64_t a = sym_i64("a"), b = op == 0 ? sym_i64("b") : 0;
        Call c = op == 0 ? run("slice", h, v.i(a), v.i(b)) : op == 1 ? run("first", h, v.i(a)) : run("last", h, v.i(a));
        symx_assert(c.ok && tiro_value_kind(v.vm, c.value) != TIRO_KIND_STRING, "slicing panicked");
        int64_t off = op == 0 ? clamp(a, n) : 0, len = op == 0 ? clamp(b, n - off) : clamp(a, n);
        if (op == 2) off = (int64_t) n - len;
        off = (int64_t) symx_concretize((uint64_t) off);
        len = (int64_t) symx_concretize((uint64_t) len);
        symx_observe(off * 10 + len);
        e = s.substr((size_t) off, (size_t) len);
        symx_assert(as_int(v, run("size", c.value).value) == len, "the size of a slice is wrong");
        same(content(c.value), e, "the content of a slice is wrong");
        symx_assert(tiro_value_kind(v.vm, run("eq", c.value, v.s(e)).value) == TIRO_KIND_BOOLEAN && tiro_boolean_value(v.vm, run("eq", c.value, v.s(e)).value), "a slice differs from a string of its content");
        same(content(h), s, "slicing changed the string");
        symx_cover("slice");
    } else if (mode == 1) {
        unsigned n = symx_choose(5, "n"), m = symx_choose(4, "m"), form = symx_choose(3, "form"), nf = symx_choose(2, "nform");
        std::string s = symstr("s", n), t = symstr("t", m);
        tiro_handle_t h = form == 2 ? run("builder").value : stringlike(s, form);
        if (form == 2) run("append", h, v.s(s));
        Call c = run("contains", h, stringlike(t, nf));
        symx_assert(c.ok && tiro_value_kind(v.vm, c.value) == TIRO_KIND_BOOLEAN, "contains() panicked");
        symx_assert(tiro_boolean_value(v.vm, c.value) == ref_contains(s, t), "contains() is wrong");
        symx_cover("contains");
    } else if (mode == 2) {
        // builders: prefill around the growth steps, then symbolic appends
        static const int sizes[] = {0, 1, 62, 63, 64, 65, 127, 128, 129};
        int n = sizes[symx_choose(9, "n")];
        tiro_handle_t b = run("builder").value;
        std::string e;
        for (int i = 0; i < n; ++i) e += (char) ('a' + i % 26);
        if (n) run("append", b, v.s(e));
        for (int k = 0; k < 2; ++k) {
            unsigned op = symx_choose(8, "op");
            Call c;
            if (op == 0) { std::string s = symstr("s", 2); c = run("append", b, stringlike(s, symx_choose(3, "form"))); e += s; }
            else if (op == 1) { int64_t i = sym_range("i", -99, 999); c = run("append", b, v.i(i)); e += std::to_string(i); }
            else if (op == 2) {
                int64_t x = sym_i64("x");
                c = run("append_byte", b, v.i(x));
                symx_assert(c.ok == (x >= 0 && x <= 255), "append_byte is not checked");
                if (c.ok) e += (char) x;
                c.ok = true;
            } else if (op == 3) { c = run("append", b, v.b(symx_choose(2, "b"))); e += tiro_boolean_value(v.vm, v.b(true)) ? "" : ""; symx_assert(c.ok, "append panicked"); std::string t = content(b); symx_assert(t == e + "true" || t == e + "false", "append of a boolean"); e = t; }
            else if (op == 4) { c = run("append2", b, v.null(), run("sym").value); e += "null#foo"; }
            else if (op == 5) { c = run("clear", b); e.clear(); }
            else if (op == 6) { std::string s(70, 'q'); c = run("append", b, v.s(s)); e += s; }
            else { c = run("append", b, run("str", b).value); e += e; }
            symx_assert(c.ok, "a string builder method panicked");
            symx_assert(as_int(v, run("size", b).value) == (int64_t) e.size(), "the size of a builder is wrong");
            same(content(b), e, "the content of a builder is wrong");
        }
        symx_cover("builder");
    } else if (mode == 3) {
        unsigned n = symx_choose(5, "n"), form = symx_choose(3, "form");
        std::string s = symstr("s", n);
        Call c = run("chars", stringlike(s, form));
        symx_assert(c.ok && tiro_array_size(v.vm, c.value) == n, "iterating over a string yields the wrong number of characters");
        tiro_handle_t h = v.h();
        for (unsigned i = 0; i < n; ++i) {
            tiro_array_get(v.vm, c.value, i, h, OK);
            same(content(h), s.substr(i, 1), "iterating over a string yields the wrong character");
        }
        symx_cover("iterate");
    } else if (mode == 4) {
        // as map keys strings and slices with equal content are the same
        unsigned n = symx_choose(4, "n"), f1 = symx_choose(5, "f1"), f2 = symx_choose(2, "f2");
        if (f1 >= 2) ++f1;
        std::string s = symstr("s", n, 'a', 'd'), t = symstr("t", n, 'a', 'd');
        Call m = run("store", stringlike(s, f1), v.i(7));
        Call c = run("load", m.value, stringlike(t, f2));
        symx_assert(m.ok && c.ok, "a string as a map key panicked");
        symx_assert((tiro_value_kind(v.vm, c.value) == TIRO_KIND_INTEGER) == (memcmp(s.data(), t.data(), n) == 0), "strings as map keys");
        symx_cover("key");
    } else if (mode == 5) {
        unsigned kind = symx_choose(7, "kind"), f = symx_choose(3, "f");
        std::string e;
        tiro_handle_t h;
        if (kind == 0) { if (f) symx_kill(); int64_t i = sym_i64("i"); h = v.i(i); e = std::to_string(i); }
        else if (kind == 1) { e = symstr("s", symx_choose(4, "n")); h = stringlike(e, symx_choose(3, "form")); }
        else if (kind == 2) { h = v.null(); e = "null"; }
        else if (kind == 3) { h = v.b(true); e = "true"; }
        else if (kind == 4) { h = v.b(false); e = "false"; }
        else if (kind == 5) { h = run("sym").value; e = "#foo"; }
        else { int64_t d = sym_range("d", -1000, 1000); h = v.i(d); e = std::to_string(d); }
        Call c = f == 0 ? run("ip1", h) : f == 1 ? run("ip2", h, v.i(5)) : run("ip3", h);
        symx_assert(c.ok, "string interpolation panicked");
        same(content(c.value), f == 0 ? "<" + e + ">" : f == 1 ? e + "-5" : "a" + e + "b" + e, "string interpolation is wrong");
        symx_cover("interpolate");
    } else if (mode == 6) {
        // the C API returns exactly the bytes that were given
        unsigned n = symx_choose(7, "n");
        std::string s = symstr("s", n, 1, 255);
        tiro_handle_t h = v.h();
        tiro_make_string(v.vm, str(s), h, OK);
        same(content(h), s, "tiro_string_value is wrong");
        char* c = nullptr;
        tiro_string_cstr(v.vm, h, &c, OK);
        symx_assert(c && strlen(c) == n && memcmp(c, s.data(), n) == 0, "tiro_string_cstr is wrong");
        free(c);
        symx_cover("capi");
    } else {
        // wrong argument kinds panic
        unsigned kind = symx_choose(4, "kind"), op = symx_choose(5, "op"), form = symx_choose(2, "form");
        tiro_handle_t bad = kind == 0 ? v.f(sym_f64("d")) : kind == 1 ? v.null() : kind == 2 ? v.b(true) : run("builder").value;
        tiro_handle_t h = stringlike("abc", form);
        Call c = op == 0 ? run("slice", h, bad, v.i(1)) : op == 1 ? run("slice", h, v.i(1), bad) : op == 2 ? run("first", h, bad) : op == 3 ? run("last", h, bad) : run("contains", h, bad);
        symx_assert(!c.ok, "a string method accepted an argument of the wrong type");
        tiro_handle_t b = run("builder").value;
        symx_assert(!run("append_byte", b, bad).ok, "append_byte accepted something that is not an integer");
        symx_cover("badarg");
    }
    return 0;
}
