// C27: every error message of the compiler names the file and the line and column (in code points) of the offending construct.
#include "tiroh.hpp"
#include "compiler/source_map.hpp"
#include <vector>
using namespace th;
typedef unsigned char uc;
#ifndef LEN
#define LEN 3
#endif

// a code point at s[p]: its length, 0 if it is not valid (RFC 3629)
static unsigned cp_len(const std::string& s, size_t p) {
    auto at = [&](size_t k) -> unsigned { return k < s.size() ? (uc) s[k] : 0; };
    auto in = [&](size_t k, unsigned lo, unsigned hi) { unsigned c = at(k); return symx_concretize(uint64_t(c >= lo) & uint64_t(c <= hi)); };
    if (in(p, 0, 0x7f)) return 1;
    if (in(p, 0xc2, 0xdf)) return in(p + 1, 0x80, 0xbf) ? 2 : 0;
    if (in(p, 0xe0, 0xef)) {
        if (!in(p + 1, 0x80, 0xbf) || !in(p + 2, 0x80, 0xbf)) return 0;
        uint64_t bad = (uint64_t(at(p) == 0xe0) & uint64_t(at(p + 1) < 0xa0)) | (uint64_t(at(p) == 0xed) & uint64_t(at(p + 1) >= 0xa0));
        return symx_concretize(bad) ? 0 : 3;
    }
    if (in(p, 0xf0, 0xf4)) {
        if (!in(p + 1, 0x80, 0xbf) || !in(p + 2, 0x80, 0xbf) || !in(p + 3, 0x80, 0xbf)) return 0;
        uint64_t bad = (uint64_t(at(p) == 0xf0) & uint64_t(at(p + 1) < 0x90)) | (uint64_t(at(p) == 0xf4) & uint64_t(at(p + 1) >= 0x90));
        return symx_concretize(bad) ? 0 : 4;
    }
    return 0;
}
struct Pos { unsigned line, col; };
// position of s[offset]; if the text is not valid up to there, offset is set to the first invalid byte
static Pos where(const std::string& s, size_t& offset, bool& valid) {
    Pos r{1, 1};
    size_t p = 0;
    while (p < offset) {
        unsigned n = cp_len(s, p);
        if (!n) { offset = p; valid = false; return r; }
        if (symx_concretize((uc) s[p] == '\n')) r.line++, r.col = 1;
        else r.col++;
        p += n;
    }
    return r;
}
static std::string sym(unsigned n, const char* name) {
    std::string s;
    for (unsigned k = 0; k < n; ++k) {
        char c;
        symx_make(&c, 1, (name + std::to_string(k)).c_str());
        s += c;
    }
    return s;
}

// constructs with an error, where it is, and the phase that reports it
struct Case { const char* src; unsigned at; int phase; };
static const Case CASES[] = {
    {"bad;", 0, 1}, {"break;", 0, 1}, {"{const c;}", 7, 1}, {"f = 1;", 0, 1}, {"1 +;", 3, 0}, {"\"\\q\";", 1, 0},
    {"{ var a = 1; var a = 2; }", 17, 1}, {"map{a};", 5, 0}, {"{ var x; x; }", 6, 2}, {"9999999999999999999;", 0, 0},
    {"1.2.x.;", 6, 0}, {"{var r = (a: 1, a: 2);}", 16, 1}, {"1 = 2;", 0, 1}, {"{var v = {};}", 9, 1}, {"return {};", 7, 1},
    {"\"${bad}\";", 3, 1}, {"func() { continue; };", 9, 1}, {"{const y = \"a\\u{110000}\";}", 12, 0}, {"1 + 2 * bad;", 8, 1},
    {"assert();", 0, 0}, {"{ const k = 1; k += 1; }", 15, 1}, {"f() = 2;", 0, 1}, {"if (bad) {}", 4, 1}, {"f(1, (2, bad));", 9, 1},
    {"(f, f) += 1;", 0, 1},
    {"(f, 1) = 2;", 1, 1},
    {"f?.x = 1;", 0, 1},
    {"f?[0] = 1;", 0, 1},
    {"{var z = z;}", 9, 1},
    {"func(p, p) { };", 8, 1},
    {"for x in [] { x = 2; }", 14, 1},
    {"{var (p, p) = (1, 2);}", 9, 1},
    {"{func h() {} func h() {}}", 13, 1},
    {"assert?(1);", 0, 0},
    {"for x 1 {}", 5, 0},
    {"var;", 3, 0},
    {"1 + {};", 4, 1},
    {"f({});", 2, 1},
    {"{const (a, b);}", 7, 1},
    {"f.;", 2, 0},
    {"defer;", 5, 0},
    {"{var y = (if f { 1; } else {});}", 27, 1},
    {"[bad];", 1, 1},
    {"map{1: bad};", 7, 1},
    {"set{bad};", 4, 1},
    {"(x: bad);", 4, 1},
    {"-bad;", 1, 1},
    {"f.x[bad];", 4, 1},
    {"f(f(bad));", 4, 1},
    {"func() = bad;", 9, 1},
    {"func() { bad; };", 9, 1},
    {"for x in bad {}", 9, 1},
    {"while bad {}", 6, 1},
    {"bad.x = 1;", 0, 1},
    {"bad += 1;", 0, 1},
    {"assert(bad);", 7, 1},
    {"defer bad;", 6, 1},
    {"return bad;", 7, 1},
    {"f ?? bad;", 5, 1},
    {"f && (bad || 1);", 6, 1},
    {"if f { bad; } else { }", 7, 1},
    {"if f { } else { bad; }", 16, 1},
    {"{var y = 1, z = bad;}", 16, 1},
    {"\"a${1}b${bad}c\";", 9, 1},
    {"f.x.y(bad);", 6, 1},
    {"(1, bad).0;", 4, 1},
    {"[1,\n bad];", 5, 1},
    {"f\n.x\n(bad);", 6, 1},
    {"\"\n${bad}\";", 4, 1},
    {"(f.x, bad) = 1;", 6, 1},
    {"f.x = bad;", 6, 1},
    {"f?.x?(bad);", 6, 1},
    {"for var i = bad; f; f() {}", 12, 1},
    {"for var i = 1; bad; f() {}", 15, 1},
    {"for var i = 1; f; i = bad {}", 22, 1},
    {"for (a, b) in bad {}", 14, 1},
};
// items of a file
static const Case ITEMS[] = {
    {"export var v = 1;", 11, 1},
    {"export export const v = 1;", 7, 0},
    {"import a; import a;", 10, 1},
    {"const t = return 1;", 10, 1},
    {"const c;", 6, 1},
    {"func f() {}", 0, 1},
    {"const z = bad;", 10, 1},
    {"const x = 0b2;", 10, 0},
    {"var (a, a) = (1, 2);", 8, 1},
    {"export const e = break;", 17, 1},
    {"const d1 = d2; const d2 = 1;", 11, 1},
    {"func r(a) { return bad; }", 19, 1},
    {"import x; import x.x;", 10, 1},
    {"export import a;", 6, 0},
    {"const k = 1; func r() { k = 2; }", 24, 1},
    {"import m; func r() { m = 2; }", 21, 1},
    {"// \xc3\xa4 \xe2\x82\n", 6, 0}, // not valid utf8
};
static const unsigned NI = sizeof ITEMS / sizeof *ITEMS;
static const unsigned NC = sizeof CASES / sizeof *CASES;

// ended by a semicolon: a block followed by ( or [ would be called or indexed
static std::string code(const Case& c) {
    std::string s = c.src;
    return s.back() == '}' ? s + ";" : s;
}
struct Msg { std::string file, text; unsigned line, col; };
static bool on_msg(const tiro_compiler_message_t* m, void* u) {
    if (m->severity == TIRO_SEVERITY_ERROR)
        ((std::vector<Msg>*) u)->push_back({std::string(m->file.data, m->file.length), std::string(m->text.data, m->text.length), m->line, m->column});
    if (symx_is_replay() && getenv("SYMX_LOG"))
        fprintf(stderr, "[diag] %.*s:%u:%u %.*s\n", (int) m->file.length, m->file.data, m->line, m->column, (int) m->text.length, m->text.data);
    return true;
}

int main() {
#ifdef MAP
    std::string s = sym(LEN, "b");
    size_t at = sym_range("offset", 0, LEN);
    at = symx_concretize(at);
    size_t p = at;
    bool valid = true;
    Pos want = where(s, p, valid);
    symx_assume(valid && p == at);
    for (size_t k = 0; k < at;) k += cp_len(s, k), symx_assume(k <= at); // between two code points
    tiro::SourceMap map(s);
    tiro::CursorPosition pos = map.cursor_pos((tiro::u32) at);
    symx_assert(pos.line() == want.line, "wrong line");
    symx_assert(pos.column() == want.col, "wrong column");
    symx_cover("checked");
    return 0;
#else
    struct File { std::string name, text; size_t at; int phase; Pos pos; bool valid; };
    std::vector<File> files;
#ifdef WITH_ITEMS
    // an item and a construct in a function, in one file or in two
    unsigned a = symx_concretize(sym_range("item", 0, NI - 1)), b = symx_concretize(sym_range("construct", 0, NC - 1));
    bool two = symx_concretize(sym_bool("two files"));
    std::string t = "\n /* \xc3\xa4 */ ";
    size_t at1 = t.size() + ITEMS[a].at;
    t += ITEMS[a].src;
    std::string u = "\n  export func f() { ";
    bool valid = a != NI - 1;
    if (two) {
        // f is declared in the first file: a second declaration is reported in the second one
        files.push_back({"first", u + code(CASES[b]) + " }", u.size() + CASES[b].at, CASES[b].phase, {}, true});
        files.push_back({"second", t, at1, ITEMS[a].phase, {}, true});
    } else {
        symx_assume(a != 5);
        files.push_back({"first", t + u + code(CASES[b]) + " }", at1, ITEMS[a].phase, {}, true});
        if (valid) files.push_back({"", t + u + code(CASES[b]) + " }", t.size() + u.size() + CASES[b].at, CASES[b].phase, {}, true});
    }
#elif defined PAIRS
    // two constructs one after the other, in one file or in two
    unsigned a = symx_concretize(sym_range("first", 0, NC - 1)), b = symx_concretize(sym_range("second", 0, NC - 1));
    int how = symx_concretize(sym_range("layout", 0, 3));
    const char* sep = how == 0 ? " " : how == 1 ? "\n  " : how == 2 ? " /*\n\xc3\xa4*/ " : "";
    std::string t = "export func f() {\n";
    size_t at1 = t.size() + CASES[a].at;
    t += code(CASES[a]);
    if (how == 3) {
        files.push_back({"first", t + "\n}\n", at1, CASES[a].phase, {}, true});
        t = "\n\nfunc g() { \"\xc3\xa4\xe2\x82\xac\";";
        size_t at2 = t.size() + CASES[b].at;
        files.push_back({"second", t + code(CASES[b]) + "\n}\n", at2, CASES[b].phase, {}, true});
    } else {
        t += sep;
        size_t at2 = t.size() + CASES[b].at;
        t += code(CASES[b]);
        t += "\n}\n";
        files.push_back({"first", t, at1, CASES[a].phase, {}, true});
        files.push_back({"", t, at2, CASES[b].phase, {}, true});
    }
#else
    // symbolic text in front of a construct: in a comment or in a string
    static const unsigned USE[] = {0, 4, 5, 8};
    unsigned c = USE[symx_concretize(sym_range("construct", 0, sizeof USE / sizeof *USE - 1))];
    bool in_string = symx_concretize(sym_bool("in a string"));
    unsigned n = symx_concretize(sym_range("length", 0, LEN));
    std::string s = sym(n, "b");
    uint64_t special = 0;
    for (char ch : s) special |= in_string ? uint64_t(ch == '"') | uint64_t(ch == '$') | uint64_t(ch == '\\') : uint64_t(ch == '*') | uint64_t(ch == '/');
    symx_assume(!special);
    std::string t = std::string("export func f() {") + (in_string ? "\"" : "/*") + s + (in_string ? "\"; " : "*/");
    size_t at = t.size() + CASES[c].at;
    t += code(CASES[c]);
    files.push_back({"first", t + "\n}\n", at, CASES[c].phase, {}, true});
#endif
    std::vector<Msg> got;
    tiro_compiler_t comp = tiro_compiler_new(str("test"), OK);
    tiro_compiler_set_message_callback(comp, on_msg, &got, OK);
    int phase = 9;
    for (File& f : files) {
        f.pos = where(f.text, f.at, f.valid);
        if (!f.valid) f.phase = 0;
        if (f.phase < phase) phase = f.phase;
        if (!f.name.empty()) tiro_compiler_add_file(comp, str(f.name), str(f.text), OK);
        else f.name = "first";
    }
    Err err;
    tiro_compiler_run(comp, err);
    symx_assert(err.code() == TIRO_ERROR_BAD_SOURCE, "the program is rejected");
    symx_assert(!got.empty(), "no error message");
    for (Msg& m : got) {
        bool found = false;
        for (File& f : files)
            if (f.phase == phase && f.name == m.file && f.pos.line == m.line && f.pos.col == m.col) found = true;
        symx_assert(found, "an error message with the wrong position");
    }
    if (phase == 0) { // the parser goes on after an error
        for (File& f : files) {
            bool found = f.phase != 0;
            for (Msg& m : got) found |= f.name == m.file && f.pos.line == m.line && f.pos.col == m.col;
            symx_assert(found, "an error without a message");
        }
    }
    tiro_compiler_free(comp);
    if (!files[0].valid) symx_cover("invalid");
    else symx_cover(phase == 0 ? "syntax" : phase == 1 ? "analysis" : "generation");
    return 0;
#endif
}
