// Symbolic expressions: hash-consed bit-vector DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <unordered_map>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef int32_t i32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : u8 {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    ZExt, SExt, Extract, Concat, Ite,
    // floating point, operands are IEEE bit patterns
    FAdd, FSub, FMul, FDiv, FSqrt, FNegUnused,
    FOeq, FOlt, FOle, FUno,
    FPToSI, FPToUI, SIToFP, UIToFP, FPExt, FPTrunc,
    FFun,  // imm: libm function, opaque to the solver
    SMulOvf, UMulOvf, // multiplication overflows (width 1)
    FRound // imm: 0 floor 1 ceil 2 trunc 3 round-half-away 4 rint
};

struct Expr {
    K kind;
    bool fp;       // contains fp operations
    bool hard;     // contains non-linear or fp arithmetic
    u16 width;
    u32 id;
    Expr *a, *b, *c;
    u128 v;        // const value / extract offset / var index / fround mode
    u64 mask;      // set of symbolic arrays (mod 64) this expression depends on
    void* z;       // cached Z3_ast (Bool when width == 1, bit-vector otherwise)
    void* za;      // the same with hard operations as free variables
    u64 stamp;     // evaluation memo
    u128 ev;
};

struct VarInfo { u32 array; u32 off; };
struct ArrayInfo { std::string name; u32 size; u32 first_var; };

inline u128 wmask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 wmask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sext64(u64 v, unsigned w) {
    if (w >= 64) return (i64)v;
    unsigned s = 64 - w;
    return (i64)(v << s) >> s;
}
inline i128 sext128(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    unsigned s = 128 - w;
    return (i128)(v << s) >> s;
}

struct ExprCtx {
    std::vector<Expr*> table; // open addressing
    size_t count = 0;
    std::vector<VarInfo> vars;
    std::vector<ArrayInfo> arrays;
    std::vector<char*> slabs;
    size_t slab_used = 0;
    u64 eval_stamp = 1;

    ExprCtx();
    Expr* mk(K k, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u128 v = 0);
    Expr* cst(u128 v, unsigned w);
    Expr* var(u32 idx);
    u32 new_array(const std::string& name, u32 size);

    Expr* bin(K k, Expr* a, Expr* b);
    Expr* cmp(K k, Expr* a, Expr* b);
    Expr* zext(Expr* a, unsigned w);
    Expr* sext(Expr* a, unsigned w);
    Expr* extract(Expr* a, unsigned off, unsigned w);
    Expr* concat(Expr* hi, Expr* lo);
    Expr* ite(Expr* c, Expr* t, Expr* f);
    Expr* lnot(Expr* a);
    Expr* neg(Expr* a) { return bin(K::Sub, cst(0, a->width), a); }
    Expr* fpop(K k, unsigned w, Expr* a, Expr* b = nullptr, u128 v = 0);

    u128 eval(Expr* e, const std::vector<u8>& model);
    void new_eval() { ++eval_stamp; }

private:
    u128 eval_rec(Expr* e, const std::vector<u8>& model);
    void grow();
};

extern ExprCtx X;
bool fold(K k, unsigned w, unsigned wa, unsigned wb, u128 a, u128 b, u128 c, u128 imm, u128& out);
u128 umaxval(Expr* e);
double ffun(int id, double a, double b);
bool hard_op(Expr* e);
