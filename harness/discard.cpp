// C03: an operation that fails at run time fails no matter whether its operands are constants and whether its result is used.
// COVERS: value panic
#include "tiroh.hpp"
using namespace th;
static const char* BIN[] = {"+", "-", "*", "/", "%", "**", "==", "!=", "<", "<=", ">", ">="};
static const char* UN[] = {"-", "+", "~", "!"};
static const char* LIT[] = {"0", "2", "9223372036854775807", "2.5", "\"a\"", "null", "true", "(-1)", "#s", "(1, 2,)", "[7]"};
enum { NLIT = 11 };
#ifndef FEW
#define FEW 7            // operands of the binary operators
#endif
#ifndef CONTEXTS
#define CONTEXTS 3
#endif
#ifdef NESTED
enum { A_LITS = 6 };
static const int PICK[] = {0, 1, 2, 3, 4, 5};
#endif
static std::string text(tiro_vm_t vm, tiro_handle_t h, VM& v) {
    tiro_handle_t s = v.h();
    tiro_value_to_string(vm, h, s, OK);
    tiro_string_t t;
    tiro_string_value(vm, s, &t, OK);
    return std::string(t.data, t.length);
}
int main() {
    VM v;
    v.load("export func g(x) = x; export func t() = true; export func lits() = [0, 2, 9223372036854775807, 2.5, \"a\", null, true, -1, #s, (1, 2,), [7],];", "helper");
    std::string e;                       // operands are written $a $b $c
    int ops[3], n = 0, k = 0;
    auto lit = [&](const char* name) {
#ifdef NESTED
        return PICK[symx_choose(A_LITS, name)];
#else
        return (int) symx_choose(k == 0 ? FEW : NLIT, name);
#endif
    };
#ifdef NESTED
    // two nested operations
    k = symx_choose(3, "form");
    if (k == 0) { e = std::string("($a ") + BIN[symx_choose(12, "op")] + " $b) " + BIN[symx_choose(7, "op2")] + " $c"; n = 3; }
    else if (k == 1) { e = std::string(UN[symx_choose(4, "un")]) + "($a " + BIN[symx_choose(12, "op")] + " $b)"; n = 2; }
    else { e = std::string("$a ") + BIN[symx_choose(12, "op")] + " (" + UN[symx_choose(4, "un")] + " $b)"; n = 2; }
#else
    k = symx_choose(10, "form");
    n = 1;
    switch (k) {
    case 0: e = std::string("$a ") + BIN[symx_choose(12, "op")] + " $b"; n = 2; break;
    case 1: e = std::string(UN[symx_choose(4, "un")]) + "$a"; break;
    case 2: e = "$a.x"; break;
    case 3: e = "$a[$b]"; n = 2; break;
    case 4: e = "$a($b)"; n = 2; break;
    case 5: e = "$a.m($b)"; n = 2; break;
    case 6: e = "$a.1"; break;
    case 7: e = "\"x${$a}y\""; break;
    case 8: e = "$a.x = $b"; n = 2; break;
    case 9: e = "$a[$b] = 1"; n = 2; break;
    }
#endif
    for (int i = 0; i < n; ++i) ops[i] = lit("operand");
    static const int CTX[] = {0, 4, 2, 3, 1};
    int ctx = CTX[symx_choose(CONTEXTS, "context")];
    auto expr = [&](int mode) {          // 0: literals, 1: constants, 2: parameters
        std::string r;
        for (size_t i = 0; i < e.size(); ++i)
            if (e[i] == '$' && i + 1 < e.size() && e[i + 1] >= 'a' && e[i + 1] <= 'c') {
                int o = e[++i] - 'a';
                if (mode == 0) r += std::string("(") + LIT[ops[o]] + ")";
                else r += e[i];
            } else r += e[i];
        return r;
    };
    std::string src;
    for (int mode = 0; mode < 3; ++mode)
        for (int used = 0; used < 2; ++used) {
            if (mode == 1 && used) continue;
            std::string f;
            for (int o = 0; o < n; ++o) if (mode == 1) f += std::string(ctx == 4 ? "var " : "const ") + char('a' + o) + " = " + LIT[ops[o]] + ";";
            std::string x = expr(mode);
            if (used) f += "const q = " + x + "; g(q); return 5;";
            else switch (ctx) {
            case 0: case 4: f += x + "; return 5;"; break;
            case 1: f += "const q = " + x + "; return 5;"; break;
            case 2: f += "if t() { " + x + "; } return 5;"; break;
            case 3: f += "var q = 0; while t() { q = " + x + "; break; } return 5;"; break;
            }
            src += "export func f" + std::to_string(mode) + std::to_string(used) + "(a, b, c, g, t) { " + (mode == 1 ? "{ " + f + " };" : f) + " }\n";
        }
    if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "%s", src.c_str());
    v.load(src);
    tiro_handle_t lits = call(v, v.fn("lits", "helper")).value;
    tiro_handle_t args[5];
    for (int o = 0; o < 3; ++o) {
        args[o] = v.h();
        if (o < n) tiro_array_get(v.vm, lits, ops[o], args[o], OK);
    }
    args[3] = v.fn("g", "helper");
    args[4] = v.fn("t", "helper");
    bool ok = false;
    std::string want;
    for (int mode = 2; mode >= 0; --mode)
        for (int used = 1; used >= 0; --used) {
            if (mode == 1 && used) continue;
            // arrays are changed by the assignment: fresh operands for every run
            Call c = call_n(v, v.fn("f" + std::to_string(mode) + std::to_string(used)), args, 5);
            std::string got = c.ok ? "" : text(v.vm, c.value, v);
            if (mode == 2 && used == 1) { ok = c.ok; want = got; continue; }
            symx_assert(c.ok == ok, "an operation fails or not depending on whether its operands are constants or its result is used");
            symx_assert(got == want, "another error depending on whether operands are constants or the result is used");
        }
    symx_cover(ok ? "value" : "panic");
    return 0;
}
