// Native implementation of symx.h: inputs come from a file (argv[1] / SYMX_INPUTS).
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>

struct In { std::string name; std::vector<unsigned char> v; };
static std::vector<In>& ins() {
    static std::vector<In>* p = [] {
        auto* r = new std::vector<In>;
        const char* f = getenv("SYMX_INPUTS");
        if (FILE* h = f ? fopen(f, "r") : nullptr) {
            // a line: name (which may contain spaces), size, bytes in hexadecimal
            std::string line;
            for (int c; (c = fgetc(h)) != EOF || !line.empty();) {
                if (c != EOF && c != '\n') { line += (char) c; continue; }
                size_t y = line.rfind(' '), x = y == std::string::npos || !y ? y : line.rfind(' ', y - 1);
                if (x != std::string::npos && x != y) {
                    In i;
                    i.name = line.substr(0, x);
                    unsigned n = (unsigned) atoi(line.c_str() + x);
                    for (unsigned k = 0; k < n; ++k) { unsigned b = 0; if (y + 1 + 2 * k + 2 <= line.size()) sscanf(line.c_str() + y + 1 + 2 * k, "%2x", &b); i.v.push_back((unsigned char) b); }
                    r->push_back(i);
                }
                line.clear();
                if (c == EOF) break;
            }
            fclose(h);
        }
        return r;
    }();
    return *p;
}
static size_t pos;
static FILE* out() {
    static FILE* f = [] { const char* n = getenv("SYMX_OBS"); return n ? fopen(n, "w") : stderr; }();
    return f;
}
static void finish(int code, const char* what, const char* msg) {
    fprintf(stderr, "SYMX-%s: %s\n", what, msg);
    if (out()) { fprintf(out(), "\n%s\n", what); fflush(out()); }
    _exit(code);
}
extern "C" {
void symx_make(void* p, uint64_t n, const char* name) {
    auto& v = ins();
    // inputs the counterexample does not constrain are absent: zero
    if (pos < v.size() && v[pos].v.size() == n && v[pos].name == name) memcpy(p, v[pos].v.data(), n);
    else { if (pos < v.size()) finish(44, "MISMATCH", name); memset(p, 0, n); }
    ++pos;
}
uint32_t symx_choose(uint32_t n, const char* name) {
    unsigned char b = 0;
    symx_make(&b, 1, name);
    if (b >= n) finish(43, "ASSUME", name);
    return b;
}
void symx_assume(uint32_t c) { if (!c) finish(43, "ASSUME", "assumption does not hold"); }
void symx_assert(uint32_t c, const char* m) { if (!c) finish(42, "VIOLATION", m); }
void symx_fail(const char* m) { finish(42, "VIOLATION", m); abort(); }
void symx_kill(void) { finish(43, "ASSUME", "killed"); abort(); }
uint64_t symx_concretize(uint64_t v) { return v; }
void symx_cover(const char*) {}
void symx_observe(uint64_t v) { if (out()) fprintf(out(), "%llu ", (unsigned long long) v); }
uint32_t symx_is_replay(void) { return 1; }
uint32_t symx_is_symbolic(uint64_t) { return 0; }
uint64_t symx_ite(uint32_t c, uint64_t a, uint64_t b) { return c ? a : b; }
void symx_log(const char* m, uint64_t v) { if (getenv("SYMX_LOG")) fprintf(stderr, "[log] %s %lld\n", m, (long long) v); }
void symx_digits(char* out, unsigned long v, unsigned n) { while (n--) { out[n] = (char) ('0' + v % 10); v /= 10; } }
uint64_t symx_live(const void*) { return 1; }
}
