// C31: utf8 validation, decoding and encoding against RFC 3629; escaped representations of strings.
#include "tiroh.hpp"
#include "common/text/unicode.hpp"
#include "common/text/code_point_range.hpp"
#include "compiler/syntax/grammar/literals.hpp"
#include "compiler/syntax/lexer.hpp"
#include <vector>
using namespace th;
using namespace tiro;
typedef unsigned char uc;

// the code point at s[p], its length; 0 if there is none
static unsigned ref(const std::string& s, size_t p, uint32_t& cp) {
    auto at = [&](size_t k) -> unsigned { return (uc) s[k]; };
    size_t left = s.size() - p;
    unsigned a = at(p);
    auto cont = [&](size_t k) { return k < left && symx_concretize((at(p + k) & 0xc0) == 0x80); };
    if (a < 0x80) { cp = a; return 1; }
    if (a < 0xc2 || a > 0xf4) return 0;
    if (a < 0xe0) {
        if (!cont(1)) return 0;
        cp = (a & 31) << 6 | (at(p + 1) & 63);
        return 2;
    }
    if (a < 0xf0) {
        if (!cont(1) || !cont(2)) return 0;
        cp = (a & 15) << 12 | (at(p + 1) & 63) << 6 | (at(p + 2) & 63);
        return cp >= 0x800 && !(cp >= 0xd800 && cp <= 0xdfff) ? 3 : 0;
    }
    if (!cont(1) || !cont(2) || !cont(3)) return 0;
    cp = (a & 7) << 18 | (at(p + 1) & 63) << 12 | (at(p + 2) & 63) << 6 | (at(p + 3) & 63);
    return cp >= 0x10000 && cp <= 0x10ffff ? 4 : 0;
}
static std::string enc(uint32_t cp) {
    std::string r;
    if (cp < 0x80) r += (char) cp;
    else if (cp < 0x800) { r += (char) (0xc0 | cp >> 6); r += (char) (0x80 | (cp & 63)); }
    else if (cp < 0x10000) { r += (char) (0xe0 | cp >> 12); r += (char) (0x80 | (cp >> 6 & 63)); r += (char) (0x80 | (cp & 63)); }
    else { r += (char) (0xf0 | cp >> 18); r += (char) (0x80 | (cp >> 12 & 63)); r += (char) (0x80 | (cp >> 6 & 63)); r += (char) (0x80 | (cp & 63)); }
    return r;
}
static bool same(const std::string& a, const std::string& b) {
    if (a.size() != b.size()) return false;
    uint64_t eq = 1;
    for (size_t k = 0; k < a.size(); ++k) eq &= a[k] == b[k];
    return eq;
}
static std::string sym(unsigned n) {
    std::string s;
    for (unsigned k = 0; k < n; ++k) {
        char c;
        symx_make(&c, 1, ("b" + std::to_string(k)).c_str());
        s += c;
    }
    return s;
}
static uint32_t sym_cp() { uint32_t c; symx_make(&c, 4, "cp"); return c; }

#ifndef LEN
#define LEN 4
#endif
int main() {
    switch (symx_choose(5, "mode")) {
    case 0: {
        // validation and decoding of every byte string
        std::string s = sym(symx_choose(LEN + 1, "len"));
        size_t p = 0;
        std::vector<std::pair<uint32_t, unsigned>> cps;
        while (p < s.size()) {
            uint32_t cp;
            unsigned n = ref(s, p, cp);
            if (!n) break;
            cps.push_back({cp, n});
            p += n;
        }
        Utf8ValidationResult r = validate_utf8(s);
        symx_observe(r.ok);
        symx_assert(r.ok == (p == s.size()), "validation of utf8 is wrong");
        if (!r.ok) {
            symx_assert(r.error_offset == p, "wrong position of the first invalid byte");
            symx_cover("invalid");
            break;
        }
        CodePointRange range(s);
        size_t pos = 0;
        for (auto& c : cps) {
            symx_assert(!range.at_end(), "decoding ends early");
            symx_assert(range.pos() == pos && range.next_pos() == pos + c.second && range.code_point_width() == c.second, "decoding is out of step");
            symx_assert(range.get() == c.first, "wrong code point");
            pos += c.second;
            auto ahead = range.peek();
            symx_assert(ahead.has_value() == (pos < s.size()), "wrong lookahead");
            range.advance();
        }
        symx_assert(range.at_end() && range.pos() == s.size(), "decoding does not end");
        symx_cover("valid");
        break;
    }
    case 1: {
        // encoding of every code point
        uint32_t cp = sym_cp();
        bool valid = symx_concretize(cp <= 0x10ffff && !(cp >= 0xd800 && cp <= 0xdfff));
        std::string out = "x";
        bool ok = try_append_utf8(out, cp);
        symx_assert(ok == valid, "wrong set of code points");
        symx_assert(same(out, valid ? "x" + enc(cp) : "x"), "wrong encoding");
        if (valid) {
            std::string t = to_string_utf8(cp);
            auto d = decode_utf8(t.data(), t.data() + t.size());
            symx_assert(std::get<0>(d) == cp && std::get<1>(d) == t.data() + t.size(), "encoding and decoding are not inverse");
            symx_cover("encode");
        }
        break;
    }
    case 2: {
        // identifier and whitespace classes: start implies continue; whitespace is never part of an identifier
        uint32_t cp = sym_cp();
        symx_assume(cp <= 0x10ffff);
#ifndef THOROUGH
        symx_assume(cp < 0x600);
#endif
        bool st = is_identifier_start(cp), co = is_identifier_continue(cp), ws = is_whitespace(cp);
        symx_assert(!st || co, "an identifier start that may not continue one");
        symx_assert(!(ws && co), "whitespace inside of identifiers");
        if (symx_concretize(cp < 128)) {
            bool al = (cp >= 'a' && cp <= 'z') || (cp >= 'A' && cp <= 'Z') || cp == '_', dg = cp >= '0' && cp <= '9';
            symx_assert(st == al && co == (al || dg), "wrong class of an ascii character");
            symx_assert(ws == (cp == 32 || (cp >= 9 && cp <= 13)), "wrong ascii whitespace");
        }
        symx_cover("class");
        break;
    }
    case 3: {
        // the lexer never splits a code point
        uint32_t cp = sym_cp();
        symx_assume(cp >= 0x80 && cp <= 0x10ffff && !(cp >= 0xd800 && cp <= 0xdfff));
#ifndef THOROUGH
        symx_assume(cp < 0x250 || cp >= 0x1ff00);
#endif
        std::string s = symx_choose(2, "pre") ? "a" : "";
        size_t b = s.size();
        s += enc(cp);
        size_t e = s.size();
        s += "1+";
        Lexer lexer(s);
        bool plus = false;
        while (1) {
            Token t = lexer.next();
            if (t.type() == TokenType::Eof) break;
            size_t tb = t.range().begin(), te = t.range().end();
            symx_assert((tb <= b || tb >= e) && (te <= b || te >= e), "token boundary inside of a code point");
            plus |= t.type() == TokenType::Plus && te == s.size();
        }
        symx_assert(plus, "the rest of the source was not read");
        symx_cover("lexer");
        break;
    }
    case 4: {
        // std.debug_repr of strings: every byte sequence has a representation, and as a literal it is the string again
        VM v(true);
        v.load("import std; export func repr(a) = std.debug_repr(a, false);");
        std::string s = sym(symx_choose(LEN, "len"));
        Call c = call(v, v.fn("repr"), v.s(s));
        symx_assert(c.ok, "debug_repr panics");
        tiro_string_t r;
        tiro_string_value(v.vm, c.value, &r, OK);
        std::string_view rep(r.data, r.length);
        symx_assert(rep.size() >= 2 && rep.front() == '"' && rep.back() == '"', "debug_repr of a string is not quoted");
        rep = rep.substr(1, rep.size() - 2);
        std::string expect;
        bool clean = true;
        static const char HEX[] = "0123456789ABCDEF";
        for (size_t p = 0; p < s.size();) {
            uint32_t cp;
            unsigned n = ref(s, p, cp);
            if (!n) { clean = false; ++p; }
            else p += n;
        }
        symx_observe(rep.size());
        for (char ch : rep) symx_assert(ch >= 0x20 && ch <= 0x7e, "debug_repr is not printable");
        if (clean) {
            bool bad = false;
            std::string back;
            bool ok = parse_string_literal(rep, back, [&](std::string_view) { bad = true; });
            symx_assert(ok && !bad, "debug_repr of a string is not a valid literal");
            symx_assert(same(back, s), "debug_repr of a string is another string as a literal");
            symx_cover("repr");
        } else symx_cover("repr-bytes");
        break;
    }
    }
    return 0;
}
