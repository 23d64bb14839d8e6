// Symbolic build only: the parts of libstdc++ and libc that are not header code.
#include <exception>
#include <locale.h>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <functional>
#include <memory>
#include <optional>
#include <variant>
#include "symx.h"

template class std::basic_string<char>;

namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }

struct symx_std_error : exception {
    const char* w;
    symx_std_error(const char* w) : w(w) {}
    const char* what() const noexcept override { return w; }
};
void __throw_length_error(const char* s) { throw symx_std_error(s); }
void __throw_logic_error(const char* s) { throw symx_std_error(s); }
void __throw_out_of_range(const char* s) { throw symx_std_error(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw symx_std_error(s); }
void __throw_invalid_argument(const char* s) { throw symx_std_error(s); }
void __throw_runtime_error(const char* s) { throw symx_std_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_function_call() { throw symx_std_error("bad_function_call"); }
void __throw_system_error(int) { throw symx_std_error("system_error"); }
void __throw_bad_cast() { throw symx_std_error("bad_cast"); }
void __glibcxx_assert_fail(const char*, int, const char*, const char* cond) noexcept { symx_fail(cond ? cond : "libstdc++ assertion"); }

size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
    const unsigned char* d = (const unsigned char*) p;
    size_t h = seed;
    for (size_t i = 0; i < n; ++i) h = (h << 5) - h + d[i];
    return h;
}
bool _Sp_make_shared_tag::_S_eq(const type_info&) noexcept { return false; }

// runtime_error & co: message kept as a plain pointer to a heap copy
__cow_string::__cow_string() { new (&_M_p) const char*(""); }
__cow_string::__cow_string(const std::string& s) { char* c = new char[s.size() + 1]; __builtin_memcpy(c, s.c_str(), s.size() + 1); _M_p = c; }
__cow_string::__cow_string(const char* s, size_t n) { char* c = new char[n + 1]; __builtin_memcpy(c, s, n); c[n] = 0; _M_p = c; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
}

extern "C" {
struct lconv* localeconv(void) noexcept {
    static struct lconv l;
    l.decimal_point = (char*) ".";
    l.thousands_sep = (char*) "";
    return &l;
}
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
void* symx_memchr(const void* p, int c, size_t n) __asm__("memchr");
void* symx_memchr(const void* p, int c, size_t n) {
    const unsigned char* d = (const unsigned char*) p;
    for (size_t i = 0; i < n; ++i) if (d[i] == (unsigned char) c) return (void*) (d + i);
    return nullptr;
}
int strcmp(const char* a, const char* b) {
    while (*a && *a == *b) ++a, ++b;
    return (unsigned char) *a - (unsigned char) *b;
}
int strncmp(const char* a, const char* b, size_t n) {
    for (; n; --n, ++a, ++b) {
        if (*a != *b) return (unsigned char) *a - (unsigned char) *b;
        if (!*a) return 0;
    }
    return 0;
}
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
}
