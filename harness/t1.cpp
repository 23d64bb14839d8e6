#include "tiroh.hpp"
using namespace th;
int main() {
    VM v;
    v.load("export func add(a, b) { return a + b; } export func div(a, b) { return a / b; }");
    int64_t a = sym_i64("a"), b = sym_i64("b");
    Call c = call(v, v.fn("add"), v.i(a), v.i(b));
    int64_t r;
    bool ov = __builtin_add_overflow(a, b, &r);
    symx_assert(c.ok == !ov, "panic iff overflow");
    if (c.ok) { symx_cover("ok"); symx_assert(as_int(v, c.value) == r, "sum"); }
    else symx_cover("overflow");
    return 0;
}
