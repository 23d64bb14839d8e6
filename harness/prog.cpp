// Generated programs, compared with a reference interpreter.
//   -DFLOW  C16: control flow and local variables (default)
//   -DCLOS  C18: scopes, shadowing and closures
//   -DDEFR  C19: deferred statements, panics and jumps out of scopes
// Every program of BUDGET statements from the grammar is built (the choices fork); its conditions are a script of
// symbolic booleans and its variables symbolic 64-bit integers.
// COVERS: ran
#include "tiroh.hpp"
#include <memory>
#include <vector>
using namespace th;

#ifndef BUDGET
#    define BUDGET 3
#endif
#ifndef SCRIPT
#    define SCRIPT 4
#endif

enum Kind { END, IF, IFELSE, WHILE, FOR, FOREACH, INF, BREAK, CONT, RET, SETXY, SETK, SWAP, TMP, SETW, ROT, BLOCK, DEFER, DEFBLK, PANIC, SHADOW, EACHY, CAPTURE, LAMBDA, NKINDS };
#if defined(CLOS) && defined(FULL)
static const Kind KINDS[] = {END, BLOCK, WHILE, IF, FOREACH, EACHY, SHADOW, CAPTURE, LAMBDA, SETXY, SETK};
#elif defined(CLOS)
static const Kind KINDS[] = {END, WHILE, EACHY, SHADOW, CAPTURE, LAMBDA, SETXY};
#elif defined(DEFR) && defined(FULL)
static const Kind KINDS[] = {END, DEFER, DEFBLK, PANIC, BLOCK, IF, WHILE, FOREACH, RET, BREAK, CONT, SETXY};
#elif defined(DEFR)
static const Kind KINDS[] = {END, DEFER, DEFBLK, PANIC, IF, WHILE, RET, BREAK, CONT, SETXY};
#elif defined(FULL)
static const Kind KINDS[] = {END, IF, IFELSE, WHILE, FOR, FOREACH, INF, BREAK, CONT, RET, SETXY, SETK, SWAP, TMP, SETW, ROT};
#else
static const Kind KINDS[] = {END, IFELSE, WHILE, BREAK, CONT, RET, TMP, SETW};
#endif
static const unsigned NK = sizeof(KINDS) / sizeof(*KINDS);

struct Block;
struct Stmt { Kind k; int id; std::unique_ptr<Block> a, b; };
struct Block { int id; std::vector<Stmt> s; };

static int budget = BUDGET, ids = 0;
static std::unique_ptr<Block> gen(bool loop) {
    auto b = std::make_unique<Block>();
    b->id = ++ids;
    bool jumped = false;
    while (budget > 0 && !jumped) {
        Kind k = KINDS[symx_choose(NK, "stmt")];
        if (k == END) break;
        if ((k == BREAK || k == CONT) && !loop) symx_kill();
        --budget;
        Stmt s{k, ++ids, nullptr, nullptr};
        bool l = loop || k == WHILE || k == FOR || k == FOREACH || k == INF || k == EACHY;
        if (k == IF || k == IFELSE || k == WHILE || k == FOR || k == FOREACH || k == INF || k == EACHY || k == BLOCK || k == SHADOW || k == DEFBLK) s.a = gen(l);
        if (k == IFELSE) s.b = gen(l);
        if (k == BREAK || k == CONT || k == RET) jumped = true;
        b->s.push_back(std::move(s));
    }
    return b;
}

static std::string num(int k) { return std::to_string(k); }
static std::string print(const Block& b) {
    std::string r = "{ l(t, " + num(b.id) + ", x, y); ";
    for (auto& s : b.s) {
        std::string id = num(s.id);
        switch (s.k) {
        case IF: r += "if c(k) " + print(*s.a); break;
        case IFELSE: r += "if c(k) " + print(*s.a) + " else " + print(*s.b); break;
        case WHILE: r += "while c(k) " + print(*s.a); break;
        case FOR: r += "for var i = 0; i < 2; i += 1 " + print(*s.a); break;
        case FOREACH: r += "for z in [x, y] { l(t, " + id + ", z, x); x = z; " + print(*s.a) + "}"; break;
        case INF: r += "for ;; n(k) " + print(*s.a); break;
        case EACHY: r += "for z in [x, y] { var y = z; " + print(*s.a) + " l(t, " + id + ", z, y); }"; break;
        case BREAK: r += "break;"; break;
        case CONT: r += "continue;"; break;
        case RET: r += "return x;"; break;
        case SETXY: r += "x = y;"; break;
        case SETK: r += "y = " + id + ";"; break;
        case SWAP: r += "(x, y) = (y, x);"; break;
        case TMP: r += "const z" + id + " = x; x = y; y = z" + id + ";"; break;
        case SETW: r += "l(t, " + id + ", w, x); w = x;"; break;
        case ROT: r += "const z" + id + " = x; x = y; y = w; w = z" + id + ";"; break;
        case BLOCK: r += print(*s.a); break;
        case DEFER: r += "defer l(t, " + id + ", x, y);"; break;
        case DEFBLK: r += "defer " + print(*s.a) + ";"; break;
        case PANIC: r += "p(c(k)); "; break;
        case SHADOW: r += "{ var x = " + id + "; " + print(*s.a) + "}"; break;
        case CAPTURE: r += "fs.append(func() { l(t, " + id + ", x, y); y = x; });"; break;
        case LAMBDA: r += "(func() { l(t, " + id + ", x, y); x = y; })();"; break;
        default: break;
        }
        if (s.a && s.k != DEFBLK) r += " l(t, " + id + ", x, y);";
        r += " ";
    }
    return r + "}";
}

// reference interpreter
enum Code { NORMAL, BRK, CNT, RTN, PNC };
struct Cell { int64_t v; };
typedef std::shared_ptr<Cell> Ref;
struct Env { Ref x, y, w; };
struct Closure { int id; Env e; };
static std::vector<int64_t> out;
static std::vector<Closure> closures;
static int64_t ret;
static bool script[SCRIPT];
static int spos, steps;

static bool cond() { return spos < SCRIPT ? script[spos++] : (++spos, false); }
static void lg(int id, const Env& e) { out.push_back(id); out.push_back(e.x->v); out.push_back(e.y->v); }
static Code run(const Block& b, Env e) {
    std::vector<const Stmt*> defers;
    Code c = NORMAL;
    lg(b.id, e);
    for (auto& s : b.s) {
        switch (s.k) {
        case IF: if (cond()) c = run(*s.a, e); break;
        case IFELSE: c = cond() ? run(*s.a, e) : run(*s.b, e); break;
        case WHILE:
            while (cond()) {
                c = run(*s.a, e);
                if (c == BRK) { c = NORMAL; break; }
                if (c == CNT) c = NORMAL;
                if (c != NORMAL) break;
            }
            break;
        case FOR:
            for (int i = 0; i < 2; ++i) {
                c = run(*s.a, e);
                if (c == BRK) { c = NORMAL; break; }
                if (c == CNT) c = NORMAL;
                if (c != NORMAL) break;
            }
            break;
        case FOREACH: {
            int64_t z[2] = {e.x->v, e.y->v};
            for (int i = 0; i < 2; ++i) {
                out.push_back(s.id); out.push_back(z[i]); out.push_back(e.x->v);
                e.x->v = z[i];
                c = run(*s.a, e);
                if (c == BRK) { c = NORMAL; break; }
                if (c == CNT) c = NORMAL;
                if (c != NORMAL) break;
            }
            break;
        }
        case INF:
            for (;;) {
                c = run(*s.a, e);
                if (c == BRK) { c = NORMAL; break; }
                if (c == CNT) c = NORMAL;
                if (c == NORMAL && ++steps > 2) c = PNC;
                if (c != NORMAL) break;
            }
            break;
        case EACHY: {
            int64_t z[2] = {e.x->v, e.y->v};
            for (int i = 0; i < 2; ++i) {
                Env ne{e.x, std::make_shared<Cell>(Cell{z[i]}), e.w};
                c = run(*s.a, ne);
                if (c == NORMAL) { out.push_back(s.id); out.push_back(z[i]); out.push_back(ne.y->v); }
                if (c == BRK) { c = NORMAL; break; }
                if (c == CNT) c = NORMAL;
                if (c != NORMAL) break;
            }
            break;
        }
        case BREAK: c = BRK; break;
        case CONT: c = CNT; break;
        case RET: ret = e.x->v; c = RTN; break;
        case SETXY: e.x->v = e.y->v; break;
        case SETK: e.y->v = s.id; break;
        case SWAP: case TMP: std::swap(e.x->v, e.y->v); break;
        case SETW: out.push_back(s.id); out.push_back(e.w->v); out.push_back(e.x->v); e.w->v = e.x->v; break;
        case ROT: { int64_t o = e.x->v; e.x->v = e.y->v; e.y->v = e.w->v; e.w->v = o; break; }
        case BLOCK: c = run(*s.a, e); break;
        case DEFER: case DEFBLK: defers.push_back(&s); break;
        case PANIC: if (cond()) c = PNC; break;
        case SHADOW: c = run(*s.a, Env{std::make_shared<Cell>(Cell{s.id}), e.y, e.w}); break;
        case CAPTURE: closures.push_back({s.id, e}); break;
        case LAMBDA: lg(s.id, e); e.x->v = e.y->v; break;
        default: break;
        }
        if (c != NORMAL) break;
        if (s.a && s.k != DEFBLK) lg(s.id, e);
    }
    for (size_t i = defers.size(); i-- > 0;) {
        if (defers[i]->k == DEFER) { lg(defers[i]->id, e); continue; }
        Code d = run(*defers[i]->a, e);
        if (d != NORMAL) c = d; // jumps and panics replace whatever left the scope
    }
    return c;
}

int main() {
    VM v(true);
    auto top = gen(false);
    std::string body = print(*top);
    std::string src = "import std;\n"
                      "func c(k) { const i = k[0]; k[0] = i + 1; if i >= " + num(SCRIPT) + " { return false; } return k[1][i]; }\n"
                      "func l(t, id, x, y) { t.append(id); t.append(x); t.append(y); }\n"
                      "func n(k) { k[2] += 1; if k[2] > 2 { std.panic(\"n\"); } }\n"
                      "func p(b) { if b { std.panic(\"p\"); } }\n"
                      "export func main(k, t, fs, a, b) { var x = a; var y = b; var w = 7; " + body + " l(t, 1000, x, w); return y; }\n"
                      "export func calls(fs) { for f in fs { f(); } }\n";
    if (symx_is_replay() && getenv("SYMX_LOG")) fprintf(stderr, "%s\n", src.c_str());
    v.load(src);

    int64_t a = sym_i64("a"), b = sym_i64("b");
    tiro_handle_t k = v.h(), s = v.h(), t = v.h(), fs = v.h(), h = v.h();
    tiro_make_array(v.vm, 0, k, OK);
    tiro_make_array(v.vm, 0, s, OK);
    tiro_make_array(v.vm, 0, t, OK);
    tiro_make_array(v.vm, 0, fs, OK);
    for (int i = 0; i < SCRIPT; ++i) {
        char nm[3] = {'s', (char) ('0' + i), 0};
        script[i] = sym_bool(nm);
    }
    // the reference run decides how much of the script matters
    Env e{std::make_shared<Cell>(Cell{a}), std::make_shared<Cell>(Cell{b}), std::make_shared<Cell>(Cell{7})};
    Env top_env = e;
    Code c = run(*top, e);
    if (c == NORMAL) { out.push_back(1000); out.push_back(top_env.x->v); out.push_back(top_env.w->v); ret = top_env.y->v; }
    size_t main_out = out.size();

    tiro_array_push(v.vm, k, v.i(0), OK);
    for (int i = 0; i < SCRIPT; ++i) tiro_array_push(v.vm, s, v.b(i < spos ? script[i] : false), OK);
    tiro_array_push(v.vm, k, s, OK);
    tiro_array_push(v.vm, k, v.i(0), OK);
    Call r = call(v, v.fn("main"), k, t, fs, v.i(a), v.i(b));
    symx_assert(r.ok == (c != PNC), r.ok ? "the panic is lost" : "the program panicked");
    auto audit = [&](size_t n) {
        symx_assert(tiro_array_size(v.vm, t) == n, "the program executed too few or too many statements");
        for (size_t i = 0; i < n; ++i) {
            tiro_array_get(v.vm, t, i, h, OK);
            symx_assert(as_int(v, h) == out[i], i % 3 == 0 ? "the program executed the wrong statement" : "a variable has the wrong value");
        }
    };
    audit(main_out);
    if (r.ok) symx_assert(as_int(v, r.value) == ret, "the program returned the wrong value");
    else symx_cover("panicked");
    if (!closures.empty()) {
        for (auto& f : closures) { lg(f.id, f.e); f.e.y->v = f.e.x->v; }
        for (auto& f : closures) { lg(f.id, f.e); f.e.y->v = f.e.x->v; }
        symx_assert(call(v, v.fn("calls"), fs).ok && call(v, v.fn("calls"), fs).ok, "a closure panicked");
        audit(out.size());
        symx_cover("closures");
    }
    symx_observe(out.size());
    symx_cover("ran");
    return 0;
}
