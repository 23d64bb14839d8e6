// C12/C13: literals against a reference.
#include "tiroh.hpp"
#include "api/internal.hpp"
#include "compiler/syntax/grammar/literals.hpp"
#include "compiler/syntax/lexer.hpp"
using namespace th;
using namespace tiro;
typedef unsigned char uc;
typedef unsigned __int128 u128;

#ifndef LEN
#define LEN 3
#define FLEN 2
#endif
static char sym1(const std::string& name) { char c; symx_make(&c, 1, name.c_str()); return c; }
static std::string sym(unsigned n, const char* name = "c") {
    std::string s;
    for (unsigned k = 0; k < n; ++k) s += sym1(name + std::to_string(k));
    return s;
}
static bool one(uint64_t c) { return symx_concretize(c & 1); }
static uint64_t fbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

// value of a digit in the base, or -1; a single term so that it does not fork by itself
static int dig(uc c, unsigned base) {
    uint64_t dec = c >= '0' && c <= '9', lo = base == 16 && c >= 'a' && c <= 'f', up = base == 16 && c >= 'A' && c <= 'F';
    uint64_t v = symx_ite(dec, c - '0', symx_ite(lo, c - 'a' + 10, symx_ite(up, c - 'A' + 10, 99)));
    return (int) symx_ite(v < base, v, (uint64_t) -1);
}

#ifndef STRINGS
struct Int { bool ok, explicit_base, leading; u128 v; bool overflow; };
static Int ref_int(const std::string& s) {
    unsigned base = 10;
    size_t p = 0;
    if (s.size() >= 2 && one(s[0] == '0') ) {
        if (one(s[1] == 'x')) base = 16, p = 2;
        else if (one(s[1] == 'o')) base = 8, p = 2;
        else if (one(s[1] == 'b')) base = 2, p = 2;
    }
    Int r{true, p != 0, false, 0, false};
    unsigned digits = 0;
    bool first0 = false;
    for (; p < s.size(); ++p) {
        if (one(s[p] == '_')) continue;
        int d = dig(s[p], base);
        if (one(d < 0)) { r.ok = false; return r; }
        if (digits == 0) first0 = one(d == 0);
        r.v = r.v * base + d;
        r.overflow |= one(r.v > 0x7fffffffffffffffull);
        if (r.overflow) { r.ok = false; return r; }
        ++digits;
    }
    r.ok = digits > 0;
    r.leading = first0 && digits > 1;
    return r;
}
static void check_int(const std::string& s) {
    Int r = ref_int(s);
    unsigned errors = 0;
    auto v = parse_integer_value(s, [&](std::string_view m) { ++errors; symx_assert(!m.empty(), "empty message"); });
    symx_observe(v.has_value());
    symx_assert(v.has_value() == r.ok, "integer literal accepted or rejected wrongly");
    symx_assert(errors == (r.ok ? 0u : 1u), "a rejected literal needs one message");
    if (r.ok) symx_assert(*v == (int64_t) r.v, "wrong value of an integer literal");
    symx_cover(r.ok ? "int" : r.overflow ? "overflow" : "bad-int");
    errors = 0;
    auto t = parse_tuple_field(s, [&](std::string_view) { ++errors; });
    bool tok = r.ok && !r.explicit_base && !r.leading && one(r.v <= 0xffffffffull);
    symx_assert(t.has_value() == tok, "tuple field accepted or rejected wrongly");
    symx_assert(errors == (tok ? 0u : 1u), "a rejected tuple field needs one message");
    if (tok) symx_assert(*t == (uint32_t) r.v, "wrong tuple field");
}
static void check_float(const std::string& s) {
    unsigned base = 10;
    size_t p = 0;
    if (s.size() >= 2 && one(s[0] == '0')) {
        if (one(s[1] == 'x')) base = 16, p = 2;
        else if (one(s[1] == 'o')) base = 8, p = 2;
        else if (one(s[1] == 'b')) base = 2, p = 2;
    }
    // every digit as part of one exact integer, divided once by an exact power of the base
    uint64_t m = 0, scale = 1;
    unsigned digits = 0;
    bool dot = false, ok = true;
    for (; ok && p < s.size(); ++p) {
        if (one(s[p] == '_')) continue;
        if (!dot && one(s[p] == '.')) { dot = true; continue; }
        int d = dig(s[p], base);
        if (one(d < 0)) { ok = false; break; }
        d = (int) symx_concretize((unsigned) d);
        m = m * base + d;
        if (dot) scale *= base;
        ++digits;
    }
    ok = ok && digits;
    unsigned errors = 0;
    auto v = parse_float_value(s, [&](std::string_view) { ++errors; });
    symx_observe(v.has_value());
    symx_assert(v.has_value() == ok, "float literal accepted or rejected wrongly");
    symx_assert(errors == (ok ? 0u : 1u), "a rejected literal needs one message");
    // both operands are exact: the quotient is the double nearest to the literal
    if (ok) symx_assert(fbits(*v) == fbits((double) m / (double) scale), "float literal is not the nearest value");
    symx_cover(ok ? "float" : "bad-float");
}
int main() {
    switch (symx_choose(4, "mode")) {
    case 0: {
        static const char* P[] = {"", "0", "0x", "0o", "0b", "7_", "0x_"};
        check_int(P[symx_choose(7, "prefix")] + sym(symx_choose(LEN + 1, "len")));
        break;
    }
    case 1: {                      // around the largest integer and the largest tuple field
        static const char* P[] = {"92233720368547758", "092233720368547758", "9_223_372_036_854_775_8", "0x7fffffffffffff", "0o7777777777777777777", "0b1111111111111111111111111111111111111111111111111111111111111",
            "42949672", "429496729", "00000000000000000000000", "0x0000000000000000000", "1844674407370955161"};
        check_int(P[symx_choose(11, "prefix")] + sym(LEN));
        break;
    }
    case 2: {
        static const char* P[][2] = {{"", ""}, {"", "."}, {"0.", ""}, {"1.5", ""}, {"0x1.", ""}, {"0b1.0", "1"}, {"0o.", "7"}, {"123456789", ".25"}, {"3.14159265", "97"}, {".", "_1"}};
        unsigned k = symx_choose(10, "t");
        check_float(P[k][0] + sym(symx_choose(FLEN, "len") + 1) + P[k][1]);
        break;
    }
    case 3: {                      // the whole way: source to value
        static const char* P[] = {"", "0x", "0b", "0o"};
        static const unsigned B[] = {10, 16, 2, 8};
        VM v;
        unsigned k = symx_choose(4, "base"), frac = symx_choose(2, "frac"), n = frac ? 1 : symx_choose(3, "n") + 1;
        std::string d = sym(n), f = sym(frac, "f");
        uint64_t m = 0, scale = 1;
        for (char c : d) { int x = dig(c, B[k]); symx_assume(x >= 0); if (frac) x = (int) symx_concretize(x); m = m * B[k] + x; }
        for (char c : f) { int x = dig(c, B[k]); symx_assume(x >= 0); m = m * B[k] + (int) symx_concretize(x); scale *= B[k]; }
        std::string src = std::string("export func f() = ") + P[k] + d + (frac ? "." + f : "") + ";";
        v.load(src);
        Call c = call(v, v.fn("f"));
        symx_assert(c.ok, "panic");
        if (frac) {
            symx_assert(tiro_value_kind(v.vm, c.value) == TIRO_KIND_FLOAT, "a float literal of another type");
            symx_assert(fbits(tiro_float_value(v.vm, c.value)) == fbits((double) m / (double) scale), "wrong float literal");
            symx_cover("run-float");
        } else {
            symx_assert(as_int(v, c.value) == (int64_t) m, "wrong integer literal");
            symx_cover("run-int");
        }
        break;
    }
    }
    return 0;
}
#else
// ---- strings ----
static void enc(std::string& r, uint32_t cp) {
    if (cp < 0x80) r += (char) cp;
    else if (cp < 0x800) { r += (char) (0xc0 | cp >> 6); r += (char) (0x80 | (cp & 63)); }
    else if (cp < 0x10000) { r += (char) (0xe0 | cp >> 12); r += (char) (0x80 | (cp >> 6 & 63)); r += (char) (0x80 | (cp & 63)); }
    else { r += (char) (0xf0 | cp >> 18); r += (char) (0x80 | (cp >> 12 & 63)); r += (char) (0x80 | (cp >> 6 & 63)); r += (char) (0x80 | (cp & 63)); }
}
// content of a literal, false: not a valid one
static bool ref_string(const std::string& s, std::string& out) {
    for (size_t p = 0; p < s.size();) {
        if (!one(s[p] == '\\')) { out += s[p++]; continue; }
        if (++p == s.size()) return false;
        uc c = s[p++];
        if (one(c == 'n')) out += '\n';
        else if (one(c == 't')) out += '\t';
        else if (one(c == 'r')) out += '\r';
        else if (one((c == '"') | (c == '\'') | (c == '\\') | (c == '$'))) out += (char) c;
        else if (one(c == 'x')) {
            uint32_t v = 0;
            for (int k = 0; k < 2; ++k) {
                if (p == s.size()) return false;
                int d = dig(s[p++], 16);
                if (one(d < 0)) return false;
                v = v * 16 + d;
            }
            enc(out, v);
        } else if (one(c == 'u')) {
            if (p == s.size() || !one(s[p++] == '{')) return false;
            uint64_t v = 0;
            unsigned n = 0;
            while (1) {
                if (p == s.size()) return false;
                if (one(s[p] == '}')) { ++p; break; }
                int d = dig(s[p++], 16);
                if (one(d < 0)) return false;
                v = v * 16 + d;
                ++n;
            }
            if (!n || one(v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff))) return false;
            enc(out, (uint32_t) v);
        } else return false;
    }
    return true;
}
static bool same(std::string_view a, std::string_view b) {
    if (a.size() != b.size()) return false;
    uint64_t eq = 1;
    for (size_t k = 0; k < a.size(); ++k) eq &= a[k] == b[k];
    return eq;
}
static std::string ascii(unsigned n, const char* name = "c") {
    std::string s = sym(n, name);
    for (char c : s) symx_assume((uc) c < 128);
    return s;
}
int main() {
    static const char* P[][2] = {{"", ""}, {"a", "b"}, {"\\", ""}, {"\\", "b"}, {"x\\x", ""}, {"\\x4", "y"}, {"\\u", "}"}, {"\\u{", "}"}, {"\\u{D", "}"}, {"\\u{10", "}z"},
        {"\\u{10ff", "}"}, {"\\u{d7", "}"}, {"\\u{0000000", "}"}, {"\\u{8", "0}"}, {"\\\\", "\\\\"}, {"\\u{ffffffff", "}"}};
    const unsigned NP = sizeof(P) / sizeof(P[0]);
    switch (symx_choose(3, "mode")) {
    case 0: {                      // the function that interprets escapes
        unsigned k = symx_choose(NP, "template");
        std::string s = P[k][0] + ascii(symx_choose(LEN, "len") + 1);
        if (symx_choose(2, "rest")) s += P[k][1];
        std::string out = "<", expect = "<";
        unsigned errors = 0;
        bool ok = parse_string_literal(s, out, [&](std::string_view m) { ++errors; symx_assert(!m.empty(), "empty message"); });
        symx_observe(ok);
        bool rok = ref_string(s, expect);
        symx_assert(ok == rok, "string literal accepted or rejected wrongly");
        symx_assert((errors == 0) == rok, "rejected string literal without a message");
        if (ok) symx_assert(same(out, expect), "wrong content of a string literal");
        symx_cover(ok ? "literal" : "bad-literal");
        break;
    }
    case 1: {                      // through the compiler, with both delimiters: the constants of the module
        bool dq = symx_choose(2, "quote");
        unsigned k = symx_choose(6, "template");
        std::string s = P[k][0] + ascii(symx_choose(2, "len") + 1) + P[k][1];
        // a literal without interpolation: the delimiter and $ are always escaped
        for (size_t p = 0; p < s.size(); ++p) {
            if (one(s[p] == '\\')) { ++p; continue; }
            symx_assume(s[p] != (dq ? '"' : '\'') && s[p] != '$');
        }
        size_t bs = 0;
        while (bs < s.size() && one(s[s.size() - 1 - bs] == '\\')) ++bs;
        symx_assume(bs % 2 == 0);
        std::string expect;
        bool rok = ref_string(s, expect);
        char q = dq ? '"' : '\'';
        tiro_module_t m = compile(std::string("export func f() = ") + q + s + q + ";");
        symx_assert((m != nullptr) == rok, "string literal accepted or rejected wrongly by the compiler");
        if (!m) { symx_cover("bad-string"); break; }
        unsigned found = 0;
        const BytecodeModule& b = *m->mod;
        for (auto id : b.member_ids()) {
            const BytecodeMember& mem = b[id];
            if (mem.type() == BytecodeMemberType::String) found += same(b.strings().value(mem.as_string().value), expect);
        }
        symx_assert(found == 1, "the literal's content is not a constant of the module");
        tiro_module_free(m);
        symx_cover("string");
        break;
    }
    case 2: {                      // interpolation: pieces and values in order
        VM v;
        unsigned k = symx_choose(10, "template");
        char c = 'p', d = ' ';
        (symx_choose(2, "which") ? c : d) = sym1("c");
        for (uc x : {(uc) c, (uc) d}) symx_assume(x < 128 && x != '"' && x != '\'' && x != '$' && x != '\\' && x != '{' && x != '}');
        static const char* T[] = {"\"@$a%\"", "'@${a}%'", "\"@${b}${a}%\"", "\"@${\"<$a>\"}%$b\"", "'$a$b'", "\"@${a}${ { \"}%\"; } }\"", "\"@\\$a%\"", "\"@${map{1: b}[1]}%\"", "\"${a + 1}@\" ", "\"${a}\""};
        std::string t = T[k];
        std::string src = "export func f(a, b) = ";
        for (char x : t) src += x == '@' ? c : x == '%' ? d : x;
        src += ";";
        // right after $name or inside of ${}, a character may continue the expression
        if (k == 0 || k == 3 || k == 5) symx_assume(!is_identifier_continue(d) );
        v.load(src);
        int64_t a = (int64_t) symx_choose(3, "a") - 1;
        std::string bs = symx_choose(2, "b") ? "" : "zz";
        Call r = call(v, v.fn("f"), v.i(a), v.s(bs));
        symx_assert(r.ok, "interpolation panics");
        tiro_string_t o;
        tiro_string_value(v.vm, r.value, &o, OK);
        std::string A = std::to_string(a), e, cs(1, c), ds(1, d);
        switch (k) {
        case 0: case 1: e = cs + A + ds; break;
        case 2: e = cs + bs + A + ds; break;
        case 3: e = cs + "<" + A + ">" + ds + bs; break;
        case 4: e = A + bs; break;
        case 5: e = cs + A + "}" + ds; break;
        case 6: e = cs + "$a" + ds; break;
        case 7: e = cs + bs + ds; break;
        case 8: e = std::to_string(a + 1) + cs; break;
        default: e = A;
        }
        symx_assert(same(std::string_view(o.data, o.length), e), "wrong interpolated string");
        symx_cover("interpolation");
        break;
    }
    }
    return 0;
}
#endif
