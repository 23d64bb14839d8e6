// Harness interface of the symbolic execution engine; the replay runtime implements the same
// interface natively.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void symx_make(void* p, uint64_t n, const char* name);    // n fresh symbolic bytes
void symx_assume(uint32_t cond);                          // drop the path unless cond
void symx_assert(uint32_t cond, const char* msg);         // violation if cond can be false
[[noreturn]] void symx_fail(const char* msg);             // violation if reachable
[[noreturn]] void symx_kill(void);                        // path is outside the harness
uint32_t symx_choose(uint32_t n, const char* name);       // forks: every value < n
uint64_t symx_concretize(uint64_t v);                     // forks: every feasible value
void symx_cover(const char* label);                       // reachability witness
void symx_observe(uint64_t v);                            // compared with the native run
uint32_t symx_is_replay(void);
uint32_t symx_is_symbolic(uint64_t v);
uint64_t symx_ite(uint32_t c, uint64_t a, uint64_t b);
void symx_log(const char* msg, uint64_t v);
void symx_digits(char* out, unsigned long v, unsigned n);  // the n last decimal digits of v
uint64_t symx_live(const void* p);                        // accessible bytes at p (replay: 1)
#ifdef __cplusplus
}
#endif
