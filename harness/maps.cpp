// C05 / C06 (-DSET): maps and sets are insertion ordered finite maps/sets keyed by ==.
// COVERS: ops literal big
#include "tiroh.hpp"
#include <vector>
using namespace th;

#ifndef SET
static const char* SRC = R"(
export func mk() { return map{}; }
export func lit(a, b, c) { return map{a: 1, b: 2, c: 3}; }
export func fill(m, from, to) { for var i = from; i < to; i += 1 { m[i] = i + 1000; } }
export func drain(m, from, to, step) { for var i = from; i < to; i += step { m.remove(i); } }
export func put(m, k, v) { m[k] = v; }
export func get(m, k) { return m[k]; }
export func has(m, k) { return m.contains(k); }
export func hasall(m, n) { var r = 0; for var i = 0; i < n; i += 1 { if m.contains(i) { r += i * i + 7; } } return r; }
export func size(m) { return m.size(); }
export func remove(m, k) { m.remove(k); }
export func clear(m) { m.clear(); }
export func list(m) { const r = []; for p in m { r.append(p[0]); r.append(p[1]); } return r; }
export func keys(m) { const r = []; for p in m.keys() { r.append(p); } return r; }
export func values(m) { const r = []; for p in m.values() { r.append(p); } return r; }
)";
#else
static const char* SRC = R"(
export func mk() { return set{}; }
export func lit(a, b, c) { return set{a, b, c}; }
export func fill(m, from, to) { for var i = from; i < to; i += 1 { m.insert(i); } }
export func drain(m, from, to, step) { for var i = from; i < to; i += step { m.remove(i); } }
export func put(m, k, v) { return m.insert(k); }
export func has(m, k) { return m.contains(k); }
export func hasall(m, n) { var r = 0; for var i = 0; i < n; i += 1 { if m.contains(i) { r += i * i + 7; } } return r; }
export func size(m) { return m.size(); }
export func remove(m, k) { m.remove(k); }
export func clear(m) { m.clear(); }
export func list(m) { const r = []; for p in m { r.append(p); } return r; }
)";
#endif

struct Key { int kind; int64_t v; }; // 0 int, 1 float, 2 string (one character), 3 boolean, 4 symbol, 5 null, 6 the object obj[v]
struct Entry { Key k; int64_t v; };

static VM* vm;
static tiro_handle_t obj[2], sym[2], M;
static std::vector<Entry> ref; // the specification: insertion order

static tiro_handle_t mkkey(Key k) {
    switch (k.kind) {
    case 0: return vm->i(k.v);
    case 1: return vm->f((double) k.v);
    case 2: { char c = (char) k.v; return vm->s({&c, 1}); }
    case 3: return vm->b(k.v);
    case 4: return sym[k.v];
    case 5: return vm->null();
    default: return obj[k.v];
    }
}
static bool keq(Key a, Key b) {
    bool na = a.kind <= 1, nb = b.kind <= 1;
    if (na && nb) return a.v == b.v;
    return a.kind == b.kind && a.v == b.v;
}
static int find(Key k) {
    for (size_t i = 0; i < ref.size(); ++i)
        if (keq(ref[i].k, k)) return (int) i;
    return -1;
}
static Call run(const char* f, tiro_handle_t a, tiro_handle_t b = nullptr, tiro_handle_t c = nullptr) {
    Call r = c ? call(*vm, vm->fn(f), a, b, c) : b ? call(*vm, vm->fn(f), a, b) : call(*vm, vm->fn(f), a);
    symx_assert(r.ok, "a map or set operation panicked");
    return r;
}
static bool truth(const Call& c) {
    symx_assert(tiro_value_kind(vm->vm, c.value) == TIRO_KIND_BOOLEAN, "not a boolean");
    return tiro_boolean_value(vm->vm, c.value);
}
static void put(Key k, int64_t v) {
    int i = find(k);
    Call r = run("put", M, mkkey(k), vm->i(v));
#ifdef SET
    symx_assert(truth(r) == (i < 0), "insert returns whether the element is new");
#endif
    (void) r;
    if (i >= 0) ref[i].v = v;
    else ref.push_back({k, v});
}
static void rem(Key k) {
    int i = find(k);
    run("remove", M, mkkey(k));
    if (i >= 0) ref.erase(ref.begin() + i);
}
static void probe(Key k) {
    int i = find(k);
    symx_assert(truth(run("has", M, mkkey(k))) == (i >= 0), "contains() disagrees with the history");
#ifndef SET
    tiro_handle_t r = run("get", M, mkkey(k)).value;
    if (i < 0) symx_assert(tiro_value_kind(vm->vm, r) == TIRO_KIND_NULL, "a missing key has a value");
    else symx_assert(as_int(*vm, r) == ref[i].v, "a key has the wrong value");
#endif
    symx_observe(i >= 0);
}
static tiro_handle_t at(tiro_handle_t arr, size_t i) {
    tiro_handle_t h = vm->h();
    tiro_array_get(vm->vm, arr, i, h, OK);
    return h;
}
static void is_key(tiro_handle_t h, Key k) {
    if (k.kind <= 1) {
        auto kind = tiro_value_kind(vm->vm, h);
        symx_assert(kind == (k.kind == 0 ? TIRO_KIND_INTEGER : TIRO_KIND_FLOAT), "a stored key changed its kind");
        if (k.kind == 0) symx_assert(tiro_integer_value(vm->vm, h) == k.v, "wrong order or wrong key");
        else symx_assert(tiro_float_value(vm->vm, h) == (double) k.v, "wrong order or wrong key");
    } else if (k.kind == 2) {
        const char* d; size_t n;
        tiro_string_t s;
        symx_assert(tiro_value_kind(vm->vm, h) == TIRO_KIND_STRING, "a stored key changed its kind");
        tiro_string_value(vm->vm, h, &s, OK);
        d = s.data; n = s.length;
        symx_assert(n == 1 && d[0] == (char) k.v, "wrong order or wrong key");
    } else if (k.kind == 3) {
        symx_assert(tiro_value_kind(vm->vm, h) == TIRO_KIND_BOOLEAN && tiro_boolean_value(vm->vm, h) == (bool) k.v, "wrong order or wrong key");
    } else if (k.kind == 5) {
        symx_assert(tiro_value_kind(vm->vm, h) == TIRO_KIND_NULL, "wrong order or wrong key");
    } else {
        symx_assert(tiro_value_same(vm->vm, h, mkkey(k)), "wrong order or wrong key");
    }
}
static void audit() {
    symx_assert(as_int(*vm, run("size", M).value) == (int64_t) ref.size(), "size() is not the number of entries");
    tiro_handle_t l = run("list", M).value;
#ifdef SET
    symx_assert(tiro_array_size(vm->vm, l) == ref.size(), "iteration does not visit every element once");
    for (size_t i = 0; i < ref.size(); ++i) is_key(at(l, i), ref[i].k);
#else
    symx_assert(tiro_array_size(vm->vm, l) == 2 * ref.size(), "iteration does not visit every entry once");
    for (size_t i = 0; i < ref.size(); ++i) {
        is_key(at(l, 2 * i), ref[i].k);
        symx_assert(as_int(*vm, at(l, 2 * i + 1)) == ref[i].v, "iteration shows a wrong value");
    }
    l = run("keys", M).value;
    symx_assert(tiro_array_size(vm->vm, l) == ref.size(), "keys() does not have every key once");
    for (size_t i = 0; i < ref.size(); ++i) is_key(at(l, i), ref[i].k);
    l = run("values", M).value;
    symx_assert(tiro_array_size(vm->vm, l) == ref.size(), "values() does not have every value once");
    for (size_t i = 0; i < ref.size(); ++i) symx_assert(as_int(*vm, at(l, i)) == ref[i].v, "values() shows a wrong value");
#endif
    for (size_t i = 0; i < ref.size(); ++i) symx_assert(truth(run("has", M, mkkey(ref[i].k))), "a stored key is not found");
}
// contains() of every integer below n
static void hasall(int64_t n) {
    int64_t e = 0;
    for (int64_t i = 0; i < n; ++i)
        if (find({0, i}) >= 0) e += i * i + 7;
    symx_assert(as_int(*vm, run("hasall", M, vm->i(n)).value) == e, "contains() disagrees with the history");
}
static void fill(int64_t from, int64_t to) {
    run("fill", M, vm->i(from), vm->i(to));
    for (int64_t i = from; i < to; ++i) {
        int j = find({0, i});
        if (j >= 0) ref[j].v = i + 1000;
        else ref.push_back({{0, i}, i + 1000});
    }
}
static void drain(int64_t from, int64_t to, int64_t step) {
    Call c = call(*vm, vm->fn("drain"), M, vm->i(from), vm->i(to), vm->i(step));
    symx_assert(c.ok, "remove panicked");
    for (int64_t i = from; i < to; i += step) {
        int j = find({0, i});
        if (j >= 0) ref.erase(ref.begin() + j);
    }
}
static Key symkey(const char* name, int64_t max, int kinds) {
    Key k;
    k.kind = kinds > 1 ? (int) symx_choose(kinds, "kind") : 0;
    unsigned char c;
    symx_make(&c, 1, name);
    if (k.kind >= 3) symx_assume(c < (k.kind == 5 ? 1 : 2));
    else symx_assume(c <= max);
    k.v = c;
    if (k.kind == 2) symx_assume(c < 128);
    if (k.kind >= 3 || k.kind == 1) k.v = (int64_t) symx_concretize((uint64_t) k.v);
    return k;
}
#ifndef STEPS
#define STEPS 2
#endif
#ifndef KEYS
#define KEYS 7
#endif

int main() {
    VM v(false);
    vm = &v;
    v.load(SRC);
    v.load("export const a = #a; export const b = #b; export const x = [1]; export const y = [1];", "o");
    sym[0] = v.fn("a", "o"); sym[1] = v.fn("b", "o");
    obj[0] = v.fn("x", "o"); obj[1] = v.fn("y", "o");
    M = call(v, v.fn("mk")).value;
    unsigned mode = symx_choose(3, "mode");
    if (mode == 0) {
        // a starting state, with and without holes and just before growing or compacting, then symbolic operations
        unsigned s = symx_choose(6, "start");
        if (s == 1) fill(0, 3);
        if (s == 2) { fill(0, 5); drain(1, 4, 1); }
        if (s == 3) fill(0, 6);
        if (s == 4) { fill(0, 12); drain(0, 12, 2); }
        if (s == 5) { fill(0, 6); run("clear", M); ref.clear(); fill(4, 8); }
        for (int i = 0; i < STEPS; ++i) {
            char name[3] = {'k', (char) ('0' + i), 0};
            unsigned op = symx_choose(2, "op");
            Key k = symkey(name, KEYS, i == 0 ? 2 : 1);
            if (op == 0) put(k, 100 + i);
            else rem(k);
        }
        audit();
        hasall(16);
        symx_cover("ops");
    } else if (mode == 1) {
        // keys of all kinds
        Key a = symkey("a", KEYS / 2, 7), b = symkey("b", KEYS / 2, 7), c = {0, 2}, d = symkey("d", KEYS / 2, 7);
        tiro_handle_t args[3] = {mkkey(a), mkkey(b), mkkey(c)};
        Call r = call_n(v, v.fn("lit"), args, 3);
        symx_assert(r.ok, "a literal panicked");
        M = r.value;
        Key ks[3] = {a, b, c};
        for (int i = 0; i < 3; ++i) {
            int j = find(ks[i]);
            if (j >= 0) ref[j].v = i + 1;
            else ref.push_back({ks[i], i + 1});
        }
        audit();
        probe(d);
        rem(d);
        audit();
        symx_cover("literal");
    } else {
#ifndef THOROUGH
        static const int sizes[] = {30, 96, 193};
#else
        static const int sizes[] = {12, 24, 30, 48, 96, 150, 192, 193, 300};
#endif
        int n = sizes[symx_choose(sizeof(sizes) / sizeof(*sizes), "n")];
        bool holes = symx_choose(2, "holes");
        fill(0, n);
        if (holes) drain(0, n, 3);
        unsigned char c;
        symx_make(&c, 1, "k");
        symx_assume(c <= n);
        Key k = {0, (int64_t) symx_concretize(c)};
        unsigned op = symx_choose(2, "op");
        if (op == 1) rem(k);
        else if (holes) put(k, 7);
        else symx_kill();
        hasall(n + 1);
        symx_assert(as_int(v, run("size", M).value) == (int64_t) ref.size(), "size() is not the number of entries");
        symx_cover("big");
    }
    return 0;
}
