#include "symx.h"
#include "tiro/api.h"
#include "tiro/compiler.h"
#include "tiro/vm.h"
int main() {
    int a;
    symx_make(&a, 4, "a");
    symx_assert(a != 77, "a is 77");
    if (a == 5) symx_cover("five");
    return 0;
}
