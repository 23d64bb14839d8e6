#include "tiroh.hpp"
#include <fmt/format.h>
int main(){ int64_t i=th::sym_i64("i"); char b[64]; auto r=fmt::format_to_n(b,64,"a {} bcdef {} z",i,7); symx_observe(r.size); symx_observe(b[3]); symx_cover("x"); return 0;}
