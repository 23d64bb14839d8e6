// C32: a variable without initial value can be used exactly where every path from its declaration assigns it.
// COVERS: accepted rejected
#include "tiroh.hpp"
#include <vector>
using namespace th;
#ifndef BUDGET
#define BUDGET 3
#endif
enum Kind { SET, READ, IF, IFELSE, WHILE, RETURN, BREAK, CONTINUE, AND, BLOCK, FOR, ADDX, DEFER_, NKINDS };
struct Stmt { Kind k; std::vector<Stmt*> a, b; };
static int budget = BUDGET;
static int loops;
static void list(std::vector<Stmt*>& out);
static Stmt* stmt() {
    Stmt* s = new Stmt;
    --budget;
    for (;;) {
        s->k = (Kind) symx_choose(NKINDS - 1, "kind");
        symx_assume(loops || (s->k != BREAK && s->k != CONTINUE));
        break;
    }
    switch (s->k) {
    case IF: case BLOCK: list(s->a); break;
    case IFELSE: list(s->a); list(s->b); break;
    case WHILE: case FOR: ++loops; list(s->a); --loops; break;
    default: break;
    }
    return s;
}
static void list(std::vector<Stmt*>& out) { while (budget > 0 && symx_choose(2, "more")) out.push_back(stmt()); }
static std::string src;
static void print(const std::vector<Stmt*>& l);
static void print(Stmt* s) {
    switch (s->k) {
    case SET: src += "x = 1;"; break;
    case READ: src += "g(x);"; break;
    case ADDX: src += "x += 1;"; break;
    case IF: src += "if p() {"; print(s->a); src += "};"; break;
    case IFELSE: src += "if p() {"; print(s->a); src += "} else {"; print(s->b); src += "};"; break;
    case WHILE: src += "while p() {"; print(s->a); src += "}"; break;
    case FOR: src += "for var i = 0; p(); i += 1 {"; print(s->a); src += "}"; break;
    case RETURN: src += "return;"; break;
    case BREAK: src += "break;"; break;
    case CONTINUE: src += "continue;"; break;
    case AND: src += "p() && (x = 1);"; break;
    case BLOCK: src += "{"; print(s->a); src += "};"; break;
    default: break;
    }
    src += "\n";
}
static void print(const std::vector<Stmt*>& l) { for (Stmt* s : l) print(s); }

// state before a statement: not reachable, or can x be unassigned?
struct State { bool reach, unset; };
static State join(State a, State b) { return {a.reach || b.reach, (a.reach && a.unset) || (b.reach && b.unset)}; }
static bool bad;
static State brks, conts;
static State flow(const std::vector<Stmt*>& l, State s);
static State flow(Stmt* n, State s) {
    if (!s.reach) return s;              // not compiled at all
    switch (n->k) {
    case SET: return {true, false};
    case READ: if (s.unset) bad = true; return s;
    case ADDX: if (s.unset) bad = true; return {true, false};
    case IF: return join(flow(n->a, s), s);
    case IFELSE: return join(flow(n->a, s), flow(n->b, s));
    case WHILE: case FOR: {
        State b0 = brks, c0 = conts, head = s, out;
        for (int k = 0; k < 3; ++k) {
            brks = conts = {false, false};
            State end = flow(n->a, head);
            out = join(head, brks);
            head = join(head, join(end, conts));
        }
        brks = b0; conts = c0;
        return out;
    }
    case RETURN: return {false, false};
    case BREAK: brks = join(brks, s); return {false, false};
    case CONTINUE: conts = join(conts, s); return {false, false};
    case AND: return s;
    case BLOCK: return flow(n->a, s);
    default: return s;
    }
}
static State flow(const std::vector<Stmt*>& l, State s) { for (Stmt* n : l) s = flow(n, s); return s; }

int main() {
    std::vector<Stmt*> body;
    list(body);
    symx_assume(!body.empty());
    src = "func p() = 1; func g(a) {}\nexport func test() { var x;\n";
    print(body);
    src += "g(2);\n}\n";
    if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "%s", src.c_str());
    flow(body, {true, true});
    Diags d;
    tiro_module_t m = compile(src, &d);
    symx_assert((m == nullptr) == bad, bad ? "a variable is used that may not have a value" : "a variable that is always assigned is rejected");
    symx_observe(d.errors);
    symx_cover(bad ? "rejected" : "accepted");
    if (m) tiro_module_free(m);
    return 0;
}
