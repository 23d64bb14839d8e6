// C20: evaluation order, assignments and destructuring: every generated expression logs what it evaluates, the trace,
// the values of all variables and elements, and the result are compared with a reference interpreter.
#include "tiroh.hpp"
#include <vector>
using namespace th;

#ifndef BUDGET
#define BUDGET 2
#endif
#ifndef PLAINLEAF
#define PLAINLEAF 2
#endif
typedef int64_t I;
// leaves, then operators
enum Kind { LEAF, X, Y, INC, BIN, CALL2, METH, SETX, SETY, ADDX, ADDY, READA, SETA, ADDA, READF, SETF, ADDF, TUPXY, TUPAF, TUPT, DECL, DECLT, TUPLIT, ARRLIT, MAPLIT, RECLIT, SETLIT, STRING, BLOCK, DECLS, RET, NKINDS };
struct Node { Kind k; int id = 0; Node *a = nullptr, *b = nullptr, *c = nullptr; };
static int ids, special = PLAINLEAF;
static Node* gen(int& budget) {
    Node* n = new Node;
    if (budget == 0) {
        n->k = special > 0 ? (Kind) symx_choose(4, "leaf") : LEAF;
        if (n->k != LEAF) --special;
        n->id = ids++;
        return n;
    }
#ifdef NEST
    static const Kind SOME[] = {LEAF, BIN, CALL2, SETX, ADDX, ADDY, SETA, ADDA, ADDF, TUPXY, TUPAF, METH};
    unsigned k = symx_choose(sizeof(SOME) / sizeof(SOME[0]), "kind");
    if (k) k = SOME[k] - 3;
#else
    unsigned k = symx_choose(NKINDS - 3, "kind");
#endif
    if (k == 0) {
        n->k = special > 0 ? (Kind) symx_choose(4, "leaf") : LEAF;
        if (n->k != LEAF) --special;
        n->id = ids++;
        return n;
    }
    n->k = (Kind) (k + 3);
    n->id = ids; ids += 3;
    --budget;
    switch (n->k) {
    case BIN: case CALL2: case METH: case TUPXY: case TUPAF: case TUPT: case DECL: case DECLT: case ARRLIT: case RECLIT: case STRING: case BLOCK: case DECLS: case SETLIT: n->a = gen(budget); n->b = gen(budget); break;
    case SETX: case SETY: case ADDX: case ADDY: case SETA: case ADDA: case SETF: case ADDF: case RET: n->a = gen(budget); break;
    case TUPLIT: case MAPLIT: n->a = gen(budget); n->b = gen(budget); n->c = gen(budget); break;
    default: break;
    }
    return n;
}
static std::string text(Node* n) {
    auto S = [](int k) { return std::to_string(k); };
    std::string id = S(n->id), arr = "n.a(" + id + ")[n.i(" + S(n->id + 1) + ")]", rec = "n.r(" + id + ").p", fld = "n.r(" + S(n->id + 2) + ").p";
    std::string A = n->a ? text(n->a) : "", B = n->b ? text(n->b) : "", C = n->c ? text(n->c) : "";
    switch (n->k) {
    case LEAF: return "n.t(" + id + ")";
    case X: return "x";
    case Y: return "y";
    case INC: return "g()";
    case BIN: return "(" + A + " + " + B + ")";
    case CALL2: return "n.h(" + A + ", " + B + ")";
    case METH: return "n.r(" + id + ").m(" + A + ", " + B + ")";
    case SETX: return "(x = " + A + ")";
    case SETY: return "(y = " + A + ")";
    case ADDX: return "(x += " + A + ")";
    case ADDY: return "(y += " + A + ")";
    case READA: return arr;
    case SETA: return "(" + arr + " = " + A + ")";
    case ADDA: return "(" + arr + " += " + A + ")";
    case READF: return rec;
    case SETF: return "(" + rec + " = " + A + ")";
    case ADDF: return "(" + rec + " += " + A + ")";
    case TUPXY: return "((x, y) = (" + A + ", " + B + ")).0";
    case TUPAF: return "((" + arr + ", " + fld + ") = (" + A + ", " + B + ")).1";
    case TUPT: return "((y, " + rec + ", x) = n.u(" + A + ", " + B + ")).2";
    case DECL: return "{ var (p, q) = (" + A + ", " + B + "); n.h(q, p); }";
    case DECLT: return "{ const (p, q, o) = n.u(" + A + ", " + B + "); n.h(q, o); }";
    case DECLS: return "{ const p = " + A + ", q = " + B + "; n.h(p, q); }";
    case TUPLIT: return "(" + A + ", " + B + ", " + C + ").1";
    case ARRLIT: return "[" + A + ", " + B + "][1]";
    case MAPLIT: return "map{n.q(" + A + "): 1, 0: " + B + ", 1: " + C + "}[1]";
    case RECLIT: return "(e: " + A + ", d: " + B + ").e";
    case SETLIT: return "n.z(set{n.q(" + A + "), n.q(" + B + ")}.size(), 1)";
    case STRING: return "n.z(\"${n.q(" + A + ")}-${n.q(" + B + ")}\".size(), 2)";
    case BLOCK: return "{ " + A + "; " + B + "; }";
    case RET: return "(return " + A + ")";
    default: return "";
    }
}
// ---- reference ----
static std::vector<I> ref, log_;
static std::vector<I> vals, idx;
static I rx, ry, ra[2], rp;
enum How { OKAY, PANIC, RETURN };
static How how;
#define EV(n, v) I v = eval(n); if (how != OKAY) return v
static void lg(std::vector<I>& t, I a, I b = 0, I c = 0) { t.push_back(a); t.push_back(b); t.push_back(c); }
static I add(I a, I b) { return (I) ((uint64_t) a + (uint64_t) b); }
static I index_of(int id) { return idx[id]; }
static I leaf_h(I a, I b) { lg(ref, 3, a, b); return a; }
static I panic() { how = PANIC; return 0; }
static I eval(Node* n) {
    switch (n->k) {
    case LEAF: lg(ref, 1, n->id); return vals[n->id];
    case X: return rx;
    case Y: return ry;
    case INC: ry = add(ry, 100); lg(ref, 2, ry); return ry;
    case BIN: { EV(n->a, a); EV(n->b, b); return add(a, b); }
    case CALL2: { EV(n->a, a); EV(n->b, b); return leaf_h(a, b); }
    case METH: { lg(ref, 5, n->id); EV(n->a, a); EV(n->b, b); return leaf_h(a, b); }
    case SETX: { EV(n->a, a); return rx = a; }
    case SETY: { EV(n->a, a); return ry = a; }
    case ADDX: { I o = rx; EV(n->a, a); return rx = add(o, a); }
    case ADDY: { I o = ry; EV(n->a, a); return ry = add(o, a); }
    case READA: { lg(ref, 4, n->id); lg(ref, 6, n->id + 1); I i = index_of(n->id + 1); if (i < 0 || i > 1) return panic(); return ra[i]; }
    case SETA: {
        lg(ref, 4, n->id); lg(ref, 6, n->id + 1);
        EV(n->a, a);
        I i = index_of(n->id + 1);
        if (i < 0 || i > 1) return panic();
        return ra[i] = a;
    }
    case ADDA: {
        lg(ref, 4, n->id); lg(ref, 6, n->id + 1);
        I i = index_of(n->id + 1);
        if (i < 0 || i > 1) return panic();
        I o = ra[i];
        EV(n->a, a);
        return ra[i] = add(o, a);
    }
    case READF: lg(ref, 5, n->id); return rp;
    case SETF: { lg(ref, 5, n->id); EV(n->a, a); return rp = a; }
    case ADDF: { lg(ref, 5, n->id); I o = rp; EV(n->a, a); return rp = add(o, a); }
    case TUPXY: { EV(n->a, a); EV(n->b, b); rx = a; ry = b; return a; }
    case TUPAF: {
        lg(ref, 4, n->id); lg(ref, 6, n->id + 1); lg(ref, 5, n->id + 2);
        EV(n->a, a); EV(n->b, b);
        I i = index_of(n->id + 1);
        if (i < 0 || i > 1) return panic();
        ra[i] = a; rp = b;
        return b;
    }
    case TUPT: { lg(ref, 5, n->id); EV(n->a, a); EV(n->b, b); ry = a; rp = b; rx = 77; return 77; }
    case DECL: { EV(n->a, a); EV(n->b, b); return leaf_h(b, a); }
    case DECLT: { EV(n->a, a); EV(n->b, b); return leaf_h(b, 77); }
    case DECLS: { EV(n->a, a); EV(n->b, b); return leaf_h(a, b); }
    case TUPLIT: { EV(n->a, a); EV(n->b, b); EV(n->c, c); return b; }
    case ARRLIT: { EV(n->a, a); EV(n->b, b); return b; }
    case MAPLIT: { EV(n->a, a); lg(ref, 7, a); EV(n->b, b); EV(n->c, c); return c; }
    case RECLIT: { EV(n->a, a); EV(n->b, b); return a; }
    case SETLIT: { EV(n->a, a); lg(ref, 7, a); EV(n->b, b); lg(ref, 7, b); return 1; }
    case STRING: { EV(n->a, a); lg(ref, 7, a); EV(n->b, b); lg(ref, 7, b); return 2; }
    case BLOCK: { EV(n->a, a); EV(n->b, b); return b; }
    case RET: { EV(n->a, a); how = RETURN; return a; }
    default: symx_kill();
    }
}

// ---- native functions ----
static tiro_handle_t A, R, Q;
static I arg(tiro_vm_t vm, tiro_sync_frame_t f, int k) {
    tiro_handle_t a = tiro_global_new(vm, OK);
    tiro_sync_frame_arg(f, k, a, OK);
    symx_assert(tiro_value_kind(vm, a) == TIRO_KIND_INTEGER, "an operand is no integer");
    I v = tiro_integer_value(vm, a);
    tiro_global_free(a);
    return v;
}
static void ret(tiro_vm_t vm, tiro_sync_frame_t f, I v) {
    tiro_handle_t a = tiro_global_new(vm, OK);
    tiro_make_integer(vm, v, a, OK);
    tiro_sync_frame_return_value(f, a, OK);
    tiro_global_free(a);
}
static void f_t(tiro_vm_t vm, tiro_sync_frame_t f) { I k = arg(vm, f, 0); lg(log_, 1, k); ret(vm, f, vals[k]); }
static void f_l(tiro_vm_t vm, tiro_sync_frame_t f) { lg(log_, 2, arg(vm, f, 0)); }
static void f_h(tiro_vm_t vm, tiro_sync_frame_t f) { I a = arg(vm, f, 0), b = arg(vm, f, 1); lg(log_, 3, a, b); ret(vm, f, a); }
static void f_a(tiro_vm_t vm, tiro_sync_frame_t f) { lg(log_, 4, arg(vm, f, 0)); tiro_sync_frame_return_value(f, A, OK); }
static void f_r(tiro_vm_t vm, tiro_sync_frame_t f) { lg(log_, 5, arg(vm, f, 0)); tiro_sync_frame_return_value(f, R, OK); }
static void f_i(tiro_vm_t vm, tiro_sync_frame_t f) { I k = arg(vm, f, 0); lg(log_, 6, k); ret(vm, f, idx[k]); }
static void f_q(tiro_vm_t vm, tiro_sync_frame_t f) { lg(log_, 7, arg(vm, f, 0)); tiro_sync_frame_return_value(f, Q, OK); }


static void set_index(Node* n) {
    if (!n) return;
    if (n->k == READA || n->k == SETA || n->k == ADDA || n->k == TUPAF) idx[n->id + 1] = (I) symx_choose(3, "index");
    set_index(n->a); set_index(n->b); set_index(n->c);
}

int main() {
    VM v;
    v.load("export func u(a, b) { return (a, b, 77); } export func z(s, k) = k; export func rec(p, h) = (p: p, m: h);", "values");
    struct { const char* n; tiro_sync_function_t f; int argc; } FN[] = {{"t", f_t, 1}, {"l", f_l, 1}, {"h", f_h, 2}, {"a", f_a, 1}, {"r", f_r, 1}, {"i", f_i, 1}, {"q", f_q, 1}};
    tiro_handle_t fh[7], mod = v.h();
    tiro_module_member_t members[9];
    for (int k = 0; k < 7; ++k) {
        fh[k] = v.h();
        tiro_make_sync_function(v.vm, v.s(FN[k].n), FN[k].f, FN[k].argc, v.null(), fh[k], OK);
        members[k] = {str(FN[k].n), fh[k]};
    }
    members[7] = {str("u"), v.fn("u", "values")};
    members[8] = {str("z"), v.fn("z", "values")};
    tiro_make_module(v.vm, str("n"), members, 9, mod, OK);
    tiro_vm_load_module(v.vm, mod, OK);
    Q = v.s("ab");
    tiro_handle_t recf = v.fn("rec", "values");

    int budget = BUDGET;
    Node* root = gen(budget);
    if (budget > 0 && BUDGET > 1) symx_kill();
#ifdef NEST
    unsigned where = 0;
#else
    unsigned where = symx_choose(2, "where");
#endif
    vals.assign(ids + 3, 0);
    idx.assign(ids + 3, 0);
    set_index(root);
    for (int k = 0; k < ids; ++k) {
        uint16_t b;
        symx_make(&b, 2, ("v" + std::to_string(k)).c_str());
        vals[k] = b;
    }
    uint16_t init[4];
    for (int k = 0; k < 4; ++k) symx_make(&init[k], 2, ("init" + std::to_string(k)).c_str());
    rx = init[0], ry = init[1], ra[0] = init[2], ra[1] = init[3], rp = 5;
    std::string e = text(root);
    bool g = e.find("g()") != e.npos, cap = g || symx_choose(2, "captured");
    std::string src = "import n; export func f(x, y, o) { ";
    if (g) src += "const g = func() { y += 100; n.l(y); return y; }; ";
    if (cap) src += "const res = func() { return y; };";
    std::string y = cap ? "res()" : "y";
    if (where == 0) src += "const e = " + e + "; o[0] = x; o[1] = " + y + "; return e; }";
    else src += e + "; o[0] = x; o[1] = " + y + "; return 3; }";
    if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "%s\n", src.c_str());
    v.load(src);
    A = v.h();
    tiro_make_array(v.vm, 2, A, OK);
    tiro_array_push(v.vm, A, v.i(ra[0]), OK);
    tiro_array_push(v.vm, A, v.i(ra[1]), OK);
    Call rc = call(v, recf, v.i(5), fh[2]);
    R = rc.value;
    tiro_handle_t O = v.h(), hnd = v.h();
    tiro_make_array(v.vm, 2, O, OK);
    tiro_array_push(v.vm, O, hnd, OK);
    tiro_array_push(v.vm, O, hnd, OK);

    Call c = call(v, v.fn("f"), v.i(rx), v.i(ry), O);
    I want = eval(root);
    if (how == OKAY && where == 1) want = 3;
    symx_observe(c.ok);
    symx_observe(log_.size());
    symx_assert(log_.size() == ref.size(), "another number of operands is evaluated");
    for (size_t k = 0; k < ref.size(); ++k) symx_assert(log_[k] == ref[k], k % 3 ? "an operand has another value" : "operands are evaluated in another order");
    symx_assert(c.ok == (how != PANIC), "panics, or should panic");
    for (int k = 0; k < 2; ++k) {
        tiro_array_get(v.vm, A, k, hnd, OK);
        symx_assert(as_int(v, hnd) == ra[k], "an element has another value");
    }
    tiro_record_get(v.vm, R, v.s("p"), hnd, OK);
    symx_assert(as_int(v, hnd) == rp, "a member has another value");
    if (!c.ok) { symx_cover("panic"); return 0; }
    symx_assert(as_int(v, c.value) == want, "the result is another value");
    if (how == RETURN) { symx_cover("return"); return 0; }
    tiro_array_get(v.vm, O, 0, hnd, OK);
    symx_assert(as_int(v, hnd) == rx, "a variable has another value");
    tiro_array_get(v.vm, O, 1, hnd, OK);
    symx_assert(as_int(v, hnd) == ry, "a captured variable has another value");
    symx_cover(where ? "statement" : "value");
    return 0;
}
