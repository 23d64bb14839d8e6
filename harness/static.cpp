// C32: static rules. All programs from a grammar of declarations, assignments, loops, jumps, nested functions and blocks
// that are used as values; a reference decides which rule each one violates, and where.
// COVERS: accepted rejected twice undeclared inactive constant jump value
#include "tiroh.hpp"
#include <vector>
using namespace th;
#ifndef BUDGET
#define BUDGET 2
#endif
enum Kind { VAR, CONST, SET, ADD, USE, BLOCK, WHILE, FOR, EACH, BREAK, CONTINUE, FUNC, LAMBDA, RETURN, DEFER, IF, PAIR, NOINIT, ASSERT, SWAP, REC, CALLSET, LITSET, OPTSET, FIELDSET, INDEXSET,
            VBLOCK, VIF, VIFELSE, OFUNC, SUM, ADDPAIR, IFELSE, NKINDS };
static const char* COMPOUND[] = {" += ", " -= ", " *= ", " /= ", " %= ", " **= "};
struct Stmt { Kind k; int name = 0, name2 = 0, expr = 0, line = 0, op = 0; std::vector<Stmt*> body, body2; };
static const char* NAME[] = {"n", "a", "c", "p", "v", "m", "g", "late", "z", "u"};
#ifdef NAMES
static const int names = NAMES;
#else
static const int names = 10;
#endif
static int budget = BUDGET;
static bool has_body(Kind k) { switch (k) { case BLOCK: case WHILE: case FOR: case EACH: case FUNC: case LAMBDA: case DEFER: case IF: case VBLOCK: case VIF: case VIFELSE: case OFUNC: case IFELSE: return true; default: return false; } }
static void list(std::vector<Stmt*>& out);
static Stmt* stmt() {
    Stmt* s = new Stmt;
    --budget;
#ifdef CORE
    static const Kind SOME[] = {VAR, CONST, SET, USE, WHILE, EACH, BREAK, FUNC, LAMBDA, BLOCK, VIFELSE, RETURN};
    s->k = SOME[symx_choose(sizeof(SOME) / sizeof(SOME[0]), "kind")];
#else
    s->k = (Kind) symx_choose(NKINDS, "kind");
#endif
    switch (s->k) {
    case BREAK: case CONTINUE: case DEFER: case BLOCK: case LITSET: case RETURN: break;
    default: s->name = symx_choose(names, "name");
    }
    switch (s->k) {
    case VAR: case CONST: case SET: case EACH: case IF: case WHILE: case SUM: s->expr = symx_choose(names + 1, "expression"); break;
    case PAIR: case SWAP: case REC: case ADDPAIR: s->name2 = symx_choose(names < 3 ? names : 3, "name"); break;
    default: break;
    }
#if BUDGET == 1
    if (s->k == ADD || s->k == ADDPAIR) s->op = symx_choose(6, "operator");
#endif
    if (has_body(s->k)) list(s->body);
    if (s->k == VIFELSE || s->k == IFELSE) list(s->body2);
    return s;
}
static void list(std::vector<Stmt*>& out) { while (budget > 0 && symx_choose(2, "more")) out.push_back(stmt()); }

// ---- source ----
static std::string src;
static int line_ = 1;
static void put(const std::string& s) { src += s; for (char c : s) line_ += c == '\n'; }
static std::string expr(int e) { return e == 0 ? "1" : NAME[e - 1]; }
static void print(const std::vector<Stmt*>& l);
static void print(Stmt* s) {
    s->line = line_;
    std::string N = NAME[s->name], M = NAME[s->name2], E = expr(s->expr);
    auto body = [&](const std::string& head, const std::vector<Stmt*>& b, const std::string& tail) { put(head + " {\n"); print(b); put("}" + tail); };
    switch (s->k) {
    case VAR: put("var " + N + " = " + E + ";\n"); break;
    case CONST: put("const " + N + " = " + E + ";\n"); break;
    case NOINIT: put("const " + N + ";\n"); break;
    case SET: put(N + " = " + E + ";\n"); break;
    case ADD: put(N + COMPOUND[s->op] + "1;\n"); break;
    case SUM: put("1 + " + N + " + " + E + ";\n"); break;
    case USE: put(N + ";\n"); break;
    case BLOCK: body("", s->body, ";\n"); break;
    case WHILE: body("while " + E, s->body, "\n"); break;
    case FOR: body("for var " + N + " = 0; " + N + " < 3; " + N + " += 1", s->body, "\n"); break;
    case EACH: body("for " + N + " in [" + E + "]", s->body, "\n"); break;
    case BREAK: put("break;\n"); break;
    case CONTINUE: put("continue;\n"); break;
    case FUNC: body("func " + N + "(q)", s->body, ";\n"); break;
    case OFUNC: body("const " + N + " = func n(n)", s->body, ";\n"); break;
    case LAMBDA: body("const " + N + " = func(n)", s->body, ";\n"); break;
    case RETURN: put("return;\n"); break;
    case DEFER: body("defer", s->body, ";\n"); break;
    case IF: body("if " + E, s->body, ";\n"); break;
    case IFELSE: body("if " + N, s->body, " else {\n"); print(s->body2); put("};\n"); break;
    case PAIR: put("const (" + N + ", " + M + ") = (1, 2);\n"); break;
    case ASSERT: put("assert(" + N + ");\n"); break;
    case SWAP: put("(" + N + ", " + M + ") = (1, 2);\n"); break;
    case ADDPAIR: put("(" + N + ", " + M + ")" + COMPOUND[s->op] + "(1, 2);\n"); break;
    case REC: put("(" + N + ": 1, " + M + ": 2);\n"); break;
    case CALLSET: put(N + "() = 1;\n"); break;
    case LITSET: put("1 = 2;\n"); break;
    case OPTSET: put(N + "?.f = 1;\n"); break;
    case FIELDSET: put(N + ".f = 1;\n"); break;
    case INDEXSET: put(N + "[0] = 1;\n"); break;
    case VBLOCK: body("const " + N + " =", s->body, ";\n"); break;
    case VIF: body("const " + N + " = if 1", s->body, ";\n"); break;
    case VIFELSE: body("const " + N + " = if 1", s->body, " else {\n"); print(s->body2); put("};\n"); break;
    default: break;
    }
}
static int else_line;
static void print(const std::vector<Stmt*>& l) { for (Stmt* s : l) print(s); }

// ---- reference ----
struct Sym { int name; bool assignable, active; };
struct Scope { std::vector<Sym> syms; };
static std::vector<Scope> scopes;
static std::vector<int> bad;         // lines of violations
static int loops;
static void violation(int line, const char* what) { bad.push_back(line); symx_cover(what); }
static void declare(Scope& sc, int name, bool assignable, int line) {
    for (Sym& s : sc.syms) if (s.name == name) { violation(line, "twice"); sc.syms.push_back({-1, assignable, false}); return; }
    sc.syms.push_back({name, assignable, false});
}
static Sym* find(int name, int line) {
    for (size_t k = scopes.size(); k-- > 0;)
        for (Sym& s : scopes[k].syms)
            if (s.name == name) {
                if (s.active) return &s;
                violation(line, "inactive");
                return nullptr;
            }
    violation(line, "undeclared");
    return nullptr;
}
static void activate(int name) { for (Sym& s : scopes.back().syms) if (s.name == name) s.active = true; }
static void use_expr(int e, int line) { if (e) find(e - 1, line); }
static void assign(int name, int line) { Sym* s = find(name, line); if (s && !s->assignable) violation(line, "constant"); }
static void enter(const std::vector<Stmt*>& l);
static void check(Stmt* s) {
    int L = s->line;
    auto body = [&](const std::vector<Stmt*>& b) { enter(b); };
    auto function = [&](int param) {
        int saved = loops; loops = 0;
        scopes.push_back({});
        scopes.back().syms.push_back({param, true, true});
        body(s->body);
        scopes.pop_back();
        loops = saved;
    };
    switch (s->k) {
    case VAR: case CONST: use_expr(s->expr, L); activate(s->name); break;
    case NOINIT: violation(L, "constant"); activate(s->name); break;
    case SET: assign(s->name, L); use_expr(s->expr, L); break;
    case ADD: assign(s->name, L); break;
    case SUM: find(s->name, L); use_expr(s->expr, L); break;
    case USE: case ASSERT: find(s->name, L); break;
    case BLOCK: case DEFER: body(s->body); break;
    case WHILE: use_expr(s->expr, L); ++loops; body(s->body); --loops; break;
    case FOR:
        scopes.push_back({}); scopes.back().syms.push_back({s->name, true, true});
        ++loops; body(s->body); --loops;
        scopes.pop_back(); break;
    case EACH:
        use_expr(s->expr, L);
        scopes.push_back({}); scopes.back().syms.push_back({s->name, false, true});
        ++loops; body(s->body); --loops;
        scopes.pop_back(); break;
    case BREAK: case CONTINUE: if (!loops) violation(L, "jump"); break;
    case FUNC: activate(s->name); function(100); break;
    case OFUNC: function(0); activate(s->name); break;
    case LAMBDA: function(0); activate(s->name); break;
    case RETURN: break;
    case IF: use_expr(s->expr, L); body(s->body); break;
    case IFELSE: find(s->name, L); body(s->body); body(s->body2); break;
    case PAIR: activate(s->name); activate(s->name2); break;
    case SWAP: assign(s->name, L); assign(s->name2, L); break;
    case ADDPAIR: violation(L, "constant"); find(s->name, L); find(s->name2, L); break;
    case REC: if (s->name == s->name2) violation(L, "twice"); break;
    case CALLSET: violation(L, "constant"); find(s->name, L); break;
    case LITSET: violation(L, "constant"); break;
    case OPTSET: violation(L, "constant"); find(s->name, L); break;
    case FIELDSET: case INDEXSET: find(s->name, L); break;
    case VBLOCK: case VIF: body(s->body); activate(s->name); break;
    case VIFELSE: body(s->body); body(s->body2); activate(s->name); break;
    default: break;
    }
}
static void enter(const std::vector<Stmt*>& l) {
    scopes.push_back({});
    Scope& sc = scopes.back();
    for (Stmt* s : l)
        switch (s->k) {
        case VAR: declare(sc, s->name, true, s->line); break;
        case CONST: case FUNC: case LAMBDA: case OFUNC: case NOINIT: case VBLOCK: case VIF: case VIFELSE:
            declare(sc, s->name, false, s->line);
            if (s->k == OFUNC) declare(sc, 0, false, s->line);     // the function's own name belongs to the surrounding scope
            break;
        case PAIR: declare(sc, s->name, false, s->line); declare(sc, s->name2, false, s->line); break;
        default: break;
        }
    for (Stmt* s : l) {
        if (s->k == OFUNC) activate(0);
        check(s);
    }
    scopes.pop_back();
}
// values of blocks: every block that must yield a value and does not is a violation in the line it starts in
enum Type { NONE, VALUE, NEVER };
static Type block_type(const std::vector<Stmt*>& l, int line, bool required);
static Type expr_type(Stmt* s, bool required) {
    switch (s->k) {
    case SET: case ADD: case SUM: case USE: case FUNC: case SWAP: case ADDPAIR: case REC: case CALLSET: case LITSET: case OPTSET: case FIELDSET: case INDEXSET: return VALUE;
    case BREAK: case CONTINUE: case RETURN: return NEVER;
    case BLOCK: return block_type(s->body, s->line, required);
    case IF: case IFELSE: {
        int other = s->line + 1;
        Type t = block_type(s->body, s->line, required);
        if (s->k == IF) {
            if (required) { violation(s->line, "value"); return VALUE; }
            return NONE;
        }
        Type e = block_type(s->body2, else_line = s->body2.empty() ? 0 : s->body2[0]->line - 1, required);
        (void) other;
        if (t == NONE || e == NONE) return required ? VALUE : NONE;
        return t == VALUE || e == VALUE ? VALUE : NEVER;
    }
    default: return NONE;        // not an expression
    }
}
static void types_inside(Stmt* s) {
    auto plain = [&](const std::vector<Stmt*>& b) { block_type(b, s->line, false); };
    switch (s->k) {
    case WHILE: case FOR: case EACH: case FUNC: case LAMBDA: case OFUNC: case DEFER: plain(s->body); break;
    case VBLOCK: block_type(s->body, s->line, true); break;
    case VIF: block_type(s->body, s->line, true); violation(s->line, "value"); break;
    case VIFELSE: block_type(s->body, s->line, true); block_type(s->body2, s->body2.empty() ? 0 : s->body2[0]->line - 1, true); break;
    default: break;
    }
}
static Type block_type(const std::vector<Stmt*>& l, int line, bool required) {
    Type t = NONE;
    for (size_t k = 0; k < l.size(); ++k) {
        bool last = k + 1 == l.size();
        types_inside(l[k]);
        Type x = expr_type(l[k], last && required);
        if (last) t = x;
    }
    if (required && t == NONE) { violation(line, "value"); t = VALUE; }
    return t;
}

struct Got { std::vector<unsigned> lines; int warnings = 0; };
static bool on_msg(const tiro_compiler_message_t* m, void* u) {
    Got* g = (Got*) u;
    if (m->severity == TIRO_SEVERITY_ERROR) g->lines.push_back(m->line);
    else g->warnings++;
    symx_assert(m->text.length > 0, "a message without a text");
    if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "[diag] %u:%u %.*s\n", m->line, m->column, (int) m->text.length, m->text.data);
    return true;
}

int main() {
    std::vector<Stmt*> body;
    body.push_back(stmt());
    list(body);
    put("const m = 1; var v = 2; func g() {}\n");
#ifdef TWOFUNCS
    put("func other() { var n = 1; while n { n += 1; break; } }\n");
#endif
    put("export func test(p) { var a = 1; const c = 2;\n");
    print(body);
    put("}\nfunc late() {} const z = 3;\n");
    if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "%s", src.c_str());

    // module: functions are always active, z is not yet
    scopes.push_back({{{4, true, true}, {5, false, true}, {6, false, true}, {7, false, true}, {8, false, false}}});
    scopes.push_back({{{3, true, true}}});
    {   // the function body declares a and c itself: they are in the same scope as the generated statements
        Stmt A{VAR}, C{CONST};
        A.name = 1; C.name = 2;
        A.line = C.line = 0;
        std::vector<Stmt*> all{&A, &C};
        all.insert(all.end(), body.begin(), body.end());
        enter(all);
    }
    block_type(body, 0, false);

    tiro_compiler_t c = tiro_compiler_new(str("test"), OK);
    Got got;
    tiro_compiler_set_message_callback(c, on_msg, &got, OK);
    tiro_compiler_add_file(c, str("file"), str(src), OK);
    Err e;
    tiro_compiler_run(c, e);
    symx_observe(got.lines.size());
    if (bad.empty()) {
        symx_assert(e.code() == TIRO_OK && got.lines.empty(), "a valid program is rejected");
        symx_assert(tiro_compiler_has_module(c), "no module");
        symx_cover("accepted");
    } else {
        symx_assert(e.code() == TIRO_ERROR_BAD_SOURCE && !tiro_compiler_has_module(c), "an invalid program is not rejected");
        symx_assert(got.lines.size() >= 1 && got.lines.size() <= bad.size(), "wrong number of errors");
        for (unsigned l : got.lines) {
            bool known = false;
            for (int b : bad) known |= b == (int) l || b == 0;
            symx_assert(known, "an error is reported for a line that has none");
        }
        symx_cover("rejected");
    }
    tiro_compiler_free(c);
    return 0;
}
