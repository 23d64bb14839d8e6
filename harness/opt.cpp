// C17: && || ?? ! if-expressions, optional access chains: which operands are evaluated, in which order, and the value.
#include "tiroh.hpp"
#include <vector>
using namespace th;

#ifndef BUDGET
#define BUDGET 2
#endif
// values: records R1 (p: null, g: F), R2 (p: R1, g: null); map M {true: M1, null: 0, false: null}; M1 {true: null}; F returns its argument
enum Val { NUL, FAL, TRU, INT, R1, R2, M, M1, F, NVAL, ANY = NVAL };  // ANY: true, any integer or any float
static bool truthy(Val v) { return v != NUL && v != FAL; }
enum Kind { LEAF, AND, OR, COAL, NOT, MEMBER, INDEX, CALL, METHOD, IFE, RET, BLOCK, LASTKIND };
enum Role { VALUE, INSTANCE, CONTAINER, CALLEE, METHINST, KEY, KEYPART };
struct Node { Kind k; bool opt = false, par = false; int id = 0; Role role = VALUE; Node *a = nullptr, *b = nullptr, *c = nullptr; };

static int leaves, in_key;
static std::vector<int> val;         // value of leaf k, -1 not evaluated yet
static std::vector<Role> roles;
static std::vector<int> trace;
static tiro_handle_t H[NVAL + 1];
static tiro_kind_t any_kind;
static int64_t any_i;
static double any_d;

static bool chain(Kind k) { return k == MEMBER || k == INDEX || k == CALL || k == METHOD; }
static Node* gen(int& budget, Role role, bool tail) {
    Node* n = new Node;
    n->role = role;
    static const Kind OP[] = {LEAF, AND, OR, COAL, NOT, MEMBER, INDEX, CALL, METHOD, IFE, RET, BLOCK};
    unsigned count = budget > 0 ? sizeof(OP) / sizeof(OP[0]) : 1;
    n->k = OP[symx_choose(count, "kind")];
    if (n->k != LEAF) --budget;
    switch (n->k) {
    case LEAF: n->id = leaves++; roles.push_back(in_key && role == VALUE ? KEYPART : role); break;
    case AND: case OR: case COAL: n->a = gen(budget, VALUE, false); n->b = gen(budget, role, false); break;
    case NOT: n->a = gen(budget, VALUE, false); break;
    case MEMBER: case METHOD:
        n->a = gen(budget, n->k == METHOD ? METHINST : INSTANCE, false);
        n->opt = symx_choose(2, "opt");
        if (n->k == METHOD) n->b = gen(budget, VALUE, false), n->id = symx_choose(2, "optcall");
        break;
    case INDEX: n->a = gen(budget, CONTAINER, false); n->opt = symx_choose(2, "opt"); ++in_key; n->b = gen(budget, KEY, false); --in_key; break;
    case CALL: n->a = gen(budget, CALLEE, false); n->opt = symx_choose(2, "opt"); n->b = gen(budget, VALUE, false); break;
    case IFE: n->a = gen(budget, VALUE, false); n->b = gen(budget, role, false); n->c = gen(budget, role, false); break;
    case RET: n->a = gen(budget, VALUE, false); break;
    case BLOCK: n->a = gen(budget, VALUE, false); n->b = gen(budget, role, false); break;
    default: break;
    }
    // parentheses around a part of a chain are not specified: not generated

    return n;
}
static std::string text(Node* n) {
    auto P = [](Node* x) { return x->k == LEAF || (chain(x->k) && !x->par) ? text(x) : "(" + text(x) + ")"; };
    switch (n->k) {
    case LEAF: return "t(" + std::to_string(n->id) + ")";
    case AND: return P(n->a) + " && " + P(n->b);
    case OR: return P(n->a) + " || " + P(n->b);
    case COAL: return P(n->a) + " ?? " + P(n->b);
    case NOT: return "!" + P(n->a);
    case MEMBER: return P(n->a) + (n->opt ? "?." : ".") + "p";
    case METHOD: return P(n->a) + (n->opt ? "?." : ".") + "g" + (n->id ? "?(" : "(") + text(n->b) + ")";
    case INDEX: return P(n->a) + (n->opt ? "?[" : "[") + text(n->b) + "]";
    case CALL: return P(n->a) + (n->opt ? "?(" : "(") + text(n->b) + ")";
    case IFE: return "if (" + text(n->a) + ") { " + text(n->b) + "; } else { " + text(n->c) + "; }";
    case RET: return "return " + P(n->a);
    case BLOCK: return "{ " + text(n->a) + "; " + text(n->b) + "; }";
    default: return "";
    }
}

// ---- reference ----
struct Out { enum { VALUE_, PANIC, RETURN } how = VALUE_; Val v = NUL; bool cut = false; };
static std::vector<int> ref;
static Out eval(Node* n);
// a chain: cut means that an optional access met null, the rest of the chain is skipped
static Out link(Node* n) {
    if (!chain(n->k)) return eval(n);
    Out o = n->a->par ? eval(n->a) : link(n->a);
    if (o.how != Out::VALUE_ || o.cut) return o;
    if (n->opt && o.v == NUL) return {Out::VALUE_, NUL, true};
    Val x = o.v;
    switch (n->k) {
    case MEMBER:
        if (x == R1) return {Out::VALUE_, NUL};
        if (x == R2) return {Out::VALUE_, R1};
        return {Out::PANIC};
    case METHOD: {
        if (x != R1 && x != R2) return {Out::PANIC};
        Val f = x == R1 ? F : NUL;
        if (n->id && f == NUL) return {Out::VALUE_, NUL, true};
        Out a = eval(n->b);
        if (a.how != Out::VALUE_) return a;
        if (f == NUL) return {Out::PANIC};
        return {Out::VALUE_, a.v};
    }
    case INDEX: {
        Out i = eval(n->b);
        if (i.how != Out::VALUE_) return i;
        if (x == M) return {Out::VALUE_, i.v == TRU ? M1 : i.v == NUL ? INT : NUL};
        if (x == M1) return {Out::VALUE_, NUL};
        return {Out::PANIC};
    }
    default: {
        Out a = eval(n->b);
        if (a.how != Out::VALUE_) return a;
        if (x != F) return {Out::PANIC};
        return {Out::VALUE_, a.v};
    }
    }
}
static Out eval(Node* n) {
    if (chain(n->k)) { Out o = link(n); o.cut = false; return o; }
    switch (n->k) {
    case LEAF:
        ref.push_back(n->id);
        if (val[n->id] < 0) symx_fail("an operand that must be evaluated was not");
        return {Out::VALUE_, (Val) val[n->id]};
    case AND: case OR: case COAL: {
        Out o = eval(n->a);
        if (o.how != Out::VALUE_) return o;
        bool more = n->k == AND ? truthy(o.v) : n->k == OR ? !truthy(o.v) : o.v == NUL;
        return more ? eval(n->b) : o;
    }
    case NOT: {
        Out o = eval(n->a);
        if (o.how == Out::VALUE_) o.v = truthy(o.v) ? FAL : TRU;
        return o;
    }
    case IFE: {
        Out o = eval(n->a);
        if (o.how != Out::VALUE_) return o;
        return eval(truthy(o.v) ? n->b : n->c);
    }
    case RET: {
        Out o = eval(n->a);
        if (o.how == Out::VALUE_) o.how = Out::RETURN;
        return o;
    }
    case BLOCK: {
        Out o = eval(n->a);
        return o.how != Out::VALUE_ ? o : eval(n->b);
    }
    default: symx_kill();
    }
}

static void t_func(tiro_vm_t vm, tiro_sync_frame_t frame) {
    tiro_handle_t a = tiro_global_new(vm, OK);
    tiro_sync_frame_arg(frame, 0, a, OK);
    int64_t k = tiro_integer_value(vm, a);
    trace.push_back((int) k);
    static const std::vector<Val> D[] = {{NUL, FAL, ANY}, {NUL, R1, R2}, {NUL, M}, {NUL, F}, {NUL, R1, R2}, {NUL, TRU}, {NUL, FAL, TRU}};
    const auto& d = D[roles[k]];
    if (val[k] < 0) val[k] = d[symx_choose(d.size(), "value")];
    if (val[k] == ANY && !H[ANY]) {
        H[ANY] = tiro_global_new(vm, OK);
        switch (symx_choose(3, "truthy value")) {
        case 0: any_kind = TIRO_KIND_BOOLEAN; tiro_make_boolean(vm, true, H[ANY], OK); break;
        case 1: any_kind = TIRO_KIND_INTEGER; any_i = sym_i64("integer"); tiro_make_integer(vm, any_i, H[ANY], OK); break;
        default: any_kind = TIRO_KIND_FLOAT; any_d = sym_f64("float"); tiro_make_float(vm, any_d, H[ANY], OK); break;
        }
    }
    tiro_sync_frame_return_value(frame, H[val[k]], OK);
    tiro_global_free(a);
}

int main() {
    VM v;
    v.load(R"(
        export func id(x) = x;
        export func make() {
            const r1 = (p: null, g: id);
            const r2 = (p: r1, g: null);
            const m1 = map{true: null};
            const m = map{true: m1, null: 7, false: null};
            return (null, false, true, 7, r1, r2, m, m1, id);
        }
    )", "values");
    Call mk = call(v, v.fn("make", "values"));
    for (int k = 0; k < NVAL; ++k) {
        H[k] = v.h();
        tiro_tuple_get(v.vm, mk.value, k, H[k], OK);
    }
    tiro_handle_t t = v.h();
    tiro_make_sync_function(v.vm, v.s("t"), t_func, 1, v.null(), t, OK);

    int budget = BUDGET;
    Node* root = gen(budget, VALUE, true);
    if (budget > 0 && BUDGET > 1) symx_kill();           // smaller expressions are covered by smaller budgets
    unsigned where = symx_choose(BUDGET > 1 ? 2 : 3, "where");
    val.assign(leaves, -1);
    std::string e = text(root);
    std::string src = "export func f(t) { ";
    if (where == 0) src += "return " + (root->k == RET ? "(" + e + ")" : e) + ";";
    else if (where == 1) src += "if (" + e + ") { return 7; } return false;";
    else src += e + "; return 7;";
    src += " }";
    v.load(src);
    if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "%s\n", src.c_str());
    Call c = call(v, v.fn("f"), t);
    Out o = eval(root);
    symx_observe(c.ok);
    symx_observe(trace.size());
    symx_assert(trace == ref, "operands are evaluated in another order or number");
    symx_assert(c.ok == (o.how != Out::PANIC), "panics, or should panic");
    if (!c.ok) { symx_cover("panic"); return 0; }
    Val want = o.how == Out::RETURN || where == 0 ? o.v : where == 1 ? (truthy(o.v) ? INT : FAL) : INT;
    tiro_kind_t kind = tiro_value_kind(v.vm, c.value);
    if (symx_is_replay() && getenv("SYMX_LOG")) { for (int x : val) fprintf(stderr, "val %d ", x); fprintf(stderr, "want %d how %d kind %d\n", want, o.how, kind); }
    symx_observe(kind);
    if (want == NUL) symx_assert(kind == TIRO_KIND_NULL, "result should be null");
    else if (want == TRU || want == FAL) symx_assert(kind == TIRO_KIND_BOOLEAN && tiro_boolean_value(v.vm, c.value) == (want == TRU), "wrong boolean result");
    else if (want == ANY) {
        symx_assert(kind == any_kind, "result of another kind");
        if (kind == TIRO_KIND_INTEGER) symx_assert(tiro_integer_value(v.vm, c.value) == any_i, "another integer");
        if (kind == TIRO_KIND_FLOAT) { double d = tiro_float_value(v.vm, c.value); uint64_t x, y; memcpy(&x, &d, 8); memcpy(&y, &any_d, 8); symx_assert(x == y, "another float"); }
    }
    else if (want == INT) symx_assert(kind == TIRO_KIND_INTEGER, "wrong result");
    else symx_assert(tiro_value_same(v.vm, c.value, H[want]), "the result is another object");
    symx_cover(o.how == Out::RETURN ? "return" : where == 0 ? "value" : where == 1 ? "branch" : "opt:statement");
    return 0;
}
