#pragma once
#include "expr.h"
#include "solver.h"
#include "mem.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <set>
#include <map>
#include <string>

struct Val {
    u64 c;
    Expr* e;
};
inline Val cv(u64 c) { return Val{c, nullptr}; }
// What the path condition says about single expressions: e == constant (for conditions: true, false).
struct Facts {
    std::vector<std::pair<Expr*, u64>> t;
    size_t n = 0;
    const u64* find(Expr* e) const {
        if (!n) return nullptr;
        size_t m = t.size() - 1;
        for (size_t i = (e->id * 0x9E3779B1u) & m; t[i].first; i = (i + 1) & m)
            if (t[i].first == e) return &t[i].second;
        return nullptr;
    }
    void put(Expr* e, u64 v) {
        if (e->kind == K::Const || e->width > 64 || find(e)) return;
        if ((n + 1) * 2 > t.size()) {
            std::vector<std::pair<Expr*, u64>> o;
            o.swap(t);
            t.resize(o.empty() ? 16 : o.size() * 2);
            n = 0;
            for (auto& p : o) if (p.first) put(p.first, p.second);
        }
        size_t m = t.size() - 1, i = (e->id * 0x9E3779B1u) & m;
        while (t[i].first) i = (i + 1) & m;
        t[i] = {e, v};
        ++n;
    }
};
extern Facts* facts; // of the current path
inline Expr* subst(Expr* e) {
    while (facts->n) {
        if (const u64* v = facts->find(e)) return X.cst(*v, e->width);
        if (e->kind != K::Ite) break;
        const u64* c = facts->find(e->a);
        if (!c) break;
        e = *c ? e->b : e->c;
    }
    return e;
}
inline Val mkval(Expr* e) {
    if (e->kind != K::Const) e = subst(e);
    if (e->kind == K::Const && e->width <= 64) return Val{(u64)e->v, nullptr};
    return Val{0, e};
}
inline Expr* ex(const Val& v, unsigned w) { return v.e ? subst(v.e) : X.cst(v.c, w); }

enum Op : u16 {
    O_NOP, O_MOV,
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG,
    O_EQ, O_NE, O_UGT, O_UGE, O_ULT, O_ULE, O_SGT, O_SGE, O_SLT, O_SLE, O_FCMP,
    O_SELECT, O_ZEXT, O_SEXT, O_TRUNC, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPEXT, O_FPTRUNC,
    O_BITCASTV,
    O_ALLOCA, O_LOAD, O_STORE, O_ADDC, O_ADDV,
    O_BR, O_CONDBR, O_SWITCH, O_RET, O_CALL, O_LANDINGPAD, O_RESUME, O_UNREACHABLE,
    O_CMPXCHG, O_ATOMICRMW, O_UNSUPPORTED, O_EXTRACTDYN, O_INSERTDYN
};

struct Edge {
    u32 pc = 0;
    std::vector<std::pair<i32, i32>> moves;
    const llvm::BasicBlock* to = nullptr;
};

struct Func;
struct CallInfo;
struct State;
enum BRes { B_OK, B_CTRL };
typedef BRes (*Builtin)(State& s, CallInfo& ci, const Val* a, Val* r);

struct Clause { bool filter; u64 ti; std::vector<u64> tis; };
struct LPad { bool cleanup; std::vector<Clause> cl; };

struct CallInfo {
    Func* f = nullptr;
    i32 fop = 0; // operand holding the callee when f == nullptr
    std::vector<i32> args;
    std::vector<u8> argw;
    u32 nret = 0;
    u8 retw = 0;
    bool invoke = false;
    Edge normal, unwind;
    LPad* lp = nullptr;
    std::vector<std::pair<u32, u32>> byval; // arg slot, size
    const llvm::CallBase* cb = nullptr;
    Builtin intrinsic = nullptr;
    u64 imm = 0;
};

struct Inst {
    u16 op;
    u8 w, w2;
    i32 dst, a, b, c;
    u64 imm;
    void* p;
};

struct SwitchInfo {
    std::unordered_map<u64, u32> m; // value -> edge
    std::vector<Edge> edges;        // 0 is the default
    std::vector<std::vector<u64>> vals;
};
struct BrInfo { Edge t, f; };

struct Func {
    llvm::Function* F = nullptr;
    std::string name;
    u32 idx = 0;
    bool decoded = false;
    Builtin bi = nullptr;
    std::vector<Inst> code;
    std::vector<Val> K;
    u32 nregs = 0, nargs = 0;
    bool ran = false, ran_sym = false;
    bool conc = false; // symbolic arguments fork into their values (sizes of allocations)
    u64 prof = 0;
};

struct Frame {
    Func* f;
    u32 pc, base, allocas;
};

struct Exc {
    u64 ptr, ti, dtor, adj;
    int handlers, refs;
    bool rethrown;
};

struct State {
    std::vector<Frame> fr;
    std::vector<Val> regs;
    std::vector<u32> allocas;
    Node* root = nullptr;
    u32 next_id = 0;
    std::vector<Expr*> cs; // path condition
    Facts facts;           // single facts that follow from it
    ModelP model;
    std::vector<Exc> excs;
    std::vector<u64> caught;
    int uncaught = 0;
    u64 lp_ptr = 0, lp_sel = 0;
    std::vector<u32> inputs; // arrays, in creation order
    std::vector<Val> obs;
    std::map<std::string, u32> seq; // name -> instances so far
    u64 icount = 0, depth = 0;
    u32 enum_depth = 0;
    u32 next_entry = 0;
    u64 clock = 0;
    u32 bopos = 0;
    std::vector<std::string> trace;
    u64 heap_bytes = 0;
};

struct Violation {
    std::string kind, msg;
    std::vector<std::string> stack;
    std::string inputs;
    std::vector<std::string> notes;
};
