// C15: operators group by precedence and associativity: a program without parentheses is compiled to the same code
// as the program with the parentheses the table below demands.
#include "tiroh.hpp"
#include "api/internal.hpp"
#include <vector>
using namespace th;
using namespace tiro;

struct Op { const char* s; int prec; };
static const Op OPS[] = {{"=", 0}, {"+=", 0}, {"-=", 0}, {"*=", 0}, {"**=", 0}, {"/=", 0}, {"%=", 0}, {"||", 1}, {"&&", 2}, {"??", 3}, {"|", 4}, {"^", 5}, {"&", 6}, {"==", 7}, {"!=", 7},
    {"<", 8}, {"<=", 8}, {">", 8}, {">=", 8}, {"<<", 9}, {">>", 9}, {"+", 10}, {"-", 10}, {"*", 11}, {"/", 11}, {"%", 11}, {"**", 12}};
static const unsigned NOPS = sizeof(OPS) / sizeof(OPS[0]);
static bool right(int prec) { return prec == 0 || prec == 12; }

static bool one(uint64_t c) { return symx_concretize(c & 1); }
// three symbolic characters that are one of the operators, padded with blanks
static std::string sym_op(const std::string& name) {
    char c[3];
    for (int k = 0; k < 3; ++k) symx_make(&c[k], 1, (name + std::to_string(k)).c_str());
    uint64_t any = 0;
    for (const Op& o : OPS) {
        std::string t = o.s;
        while (t.size() < 3) t += ' ';
        any |= (c[0] == t[0]) & (c[1] == t[1]) & (c[2] == t[2]);
    }
    symx_assume(any & 1);
    return std::string(c, 3);
}
static const Op& find(const std::string& h) {
    for (const Op& o : OPS) {
        std::string t = o.s;
        while (t.size() < 3) t += ' ';
        if (one((h[0] == t[0]) & (h[1] == t[1]) & (h[2] == t[2]))) return o;
    }
    symx_kill();
}
// the reference: split at the loosest operator, the first or last of them
static std::string group(const std::vector<std::string>& v, const std::vector<const Op*>& ops, size_t b, size_t e) {
    if (b == e) return v[b];
    size_t at = b;
    for (size_t k = b; k < e; ++k)
        if (ops[k]->prec < ops[at]->prec || (ops[k]->prec == ops[at]->prec && !right(ops[k]->prec))) at = k;
    return "(" + group(v, ops, b, at) + " " + ops[at]->s + " " + group(v, ops, at + 1, e) + ")";
}
static std::string unit(unsigned k, const char* var, bool par) {
    static const char* PRE[] = {"", "-", "!", "~", "+", "- !"};
    static const char* POST[] = {"", ".p", "[0]", "(1)", "?.p", "?[0]", "?(1)", ".0", ".m(2)"};
    std::string p = PRE[k % 6], q = POST[k / 6], r = var + q;
    if (!par) return p + r;
    if (!q.empty()) r = "(" + r + ")";
    if (p == "- !") return "(-(!" + r + "))";
    return p.empty() ? r : "(" + p + r + ")";
}
static std::string prog(const std::string& e) { return "export func f(a, b, c, d) { var x = a; var y = b; var z = c; var w = d; return [" + e + ", x, y, z, w]; }"; }

static bool same(const BytecodeModule& a, const BytecodeModule& b) {
    if (a.member_count() != b.member_count() || a.function_count() != b.function_count()) return false;
    for (auto id : a.function_ids()) {
        Span<const byte> x = a[id].code(), y = b[id].code();
        if (x.size() != y.size() || a[id].locals() != b[id].locals() || memcmp(x.data(), y.data(), x.size())) return false;
    }
    for (auto id : a.member_ids()) {
        if (a[id].type() != b[id].type()) return false;
        if (a[id].type() == BytecodeMemberType::String && a.strings().value(a[id].as_string().value) != b.strings().value(b[id].as_string().value)) return false;
        if (a[id].type() == BytecodeMemberType::Integer && a[id].as_integer().value != b[id].as_integer().value) return false;
    }
    return true;
}

#ifndef OPERATORS
#define OPERATORS 2
#endif
int main() {
    static const char* VAR[] = {"x", "y", "z", "w"};
    std::vector<std::string> plain, units, holes;
    bool with_units = symx_choose(2, "mode");
    unsigned n = with_units ? 1 : OPERATORS;
    for (unsigned k = 0; k < n; ++k) holes.push_back(sym_op("op" + std::to_string(k)));
    for (unsigned k = 0; k <= n; ++k) {
        unsigned u = with_units ? symx_choose(k == 0 ? 54 : 3, "unit") * (k ? 20 : 1) % 54 : 0;
        plain.push_back(unit(u, VAR[k], false));
        units.push_back(unit(u, VAR[k], true));
    }
    std::string src = plain[0];
    for (unsigned k = 0; k < n; ++k) src += " " + holes[k] + " " + plain[k + 1];
    tiro_module_t m = compile(prog(src));
    std::vector<const Op*> ops;
    for (auto& h : holes) ops.push_back(&find(h));
    std::string ref = group(units, ops, 0, n);
    tiro_module_t r = compile(prog(ref));
    symx_observe(m != nullptr);
    symx_assert((m != nullptr) == (r != nullptr), "accepted without parentheses, rejected with them (or the reverse)");
    if (m) {
        symx_assert(same(*m->mod, *r->mod), "operators are grouped differently");
        // parentheses in the other place are another program (so that the comparison means something)
        if (!with_units && n == 2) {
            std::string other = ops[0]->prec > ops[1]->prec || (ops[0]->prec == ops[1]->prec && !right(ops[0]->prec)) ? "(x " + std::string(ops[0]->s) + " (y " + ops[1]->s + " z))"
                                                                                                                       : "((x " + std::string(ops[0]->s) + " y) " + ops[1]->s + " z)";
            tiro_module_t o = compile(prog(other));
            if (o && !same(*o->mod, *r->mod)) symx_cover("distinct");
            tiro_module_free(o);
        }
        symx_cover(with_units ? "units" : "operators");
    } else symx_cover("rejected");
    tiro_module_free(m);
    tiro_module_free(r);
    return 0;
}
