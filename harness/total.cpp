// C14: the compiler answers every source text with a module or with diagnostics.
#include "tiroh.hpp"
#include "api/internal.hpp"
#include "vm/modules/verify.hpp"
using namespace th;

#ifndef HOLE
#define HOLE 1
#endif
static const char* T[][2] = {
    {"", ""}, {"", "export func f() {}"}, {"export func f() {} ", ""},
    {"import ", ";"}, {"import a", ";"}, {"import std", " x; func g() {}"},
    {"export ", "func f() {}"}, {"export const ", " = 1;"}, {"var (a, ", ") = (1, 2);"}, {"const x", "= f(); func f() = 1;"},
    {"func ", "(a) {}"}, {"func f(a,", ") {}"}, {"func f(a)", "a;"}, {"func f(a) = a", "a;"}, {"func f(a) {", "}"}, {"func f(a) { a", "; }"},
    {"func f(a) { return", "; }"}, {"func f(a) { var x", "; x = a; }"}, {"func f(a) { var x = a", "a; x }"}, {"func f(a) { var (x,", ") = a; }"},
    {"func f(a) { if (a) {", "} else { 1; } }"}, {"func f(a) { if", "{ } }"}, {"func f(a) { if a {}", " else {} }"}, {"func f(a) { const x = if (a) { a", "} else { 2 }; }"},
    {"func f(a) { for var i =", "; i < 1; i += 1 {} }"}, {"func f(a) { for ", " in a {} }"}, {"func f(a) { for ;", "; { break; } }"}, {"func f(a) { for (k, v) in", " { k; } }"},
    {"func f(a) { while", "{ break; } }"}, {"func f(a) { while a { ", "; } }"}, {"func f(a) { defer", "; }"}, {"func f(a) { assert(a", "); }"},
    {"func f(a) = \"x", "y\";"}, {"func f(a) = \"$", "a\";"}, {"func f(a) = \"${", "a}\";"}, {"func f(a) = 'x\\", "1';"}, {"func f(a) = \"\\u{", "}\";"}, {"func f(a) = '\\x4", "';"},
    {"func f(a) = (a,", ");"}, {"func f(a) = (x: 1,", ");"}, {"func f(a) = map{", "a: 1};"}, {"func f(a) = set{a", "};"}, {"func f(a) = [a", ", 1];"},
    {"func f(a) = a.", ";"}, {"func f(a) = a?.b", ";"}, {"func f(a) = a[", "];"}, {"func f(a) = a(", ", 1);"}, {"func f(a) = #", ";"}, {"func f(a) = func(", ") = a;"},
    {"func f(a) { a.0", "= a; }"}, {"func f(a) { (a, a[0]) =", "a; }"}, {"func f(a) { a[a].x", "a; }"}, {"func f(a) { {", "} a; }"},
    {"func f(a) = 0x", ";"}, {"func f(a) = 1", "2;"}, {"func f(a) = 1.", "3;"}, {"func f(a) = 9223372036854775", "07;"}, {"func f(a) = a.4294967", "95;"},
    {"func f(a) = 1 +", "1;"}, {"func f(a) =", "a;"}, {"func f(a) =", "1.5;"}, {"func f(a) = a ?? ", "1;"}, {"func f(a) { func g", "() { a }; g() }"}, {"func f(a) { const g = func() { a", "= 1; } ; }"},
    {"func f(a) { var b = 1", "(1); }"}, {"func f(a) = /* ", " */ a;"}, {"func f(a) = // ", " \n a;"}, {"func f(a) = a", "(1)[2].x;"}, {"func f(a) = { a", "};"}, {"const g = func(a) {", "};"}};
static const unsigned NT = sizeof(T) / sizeof(T[0]);

struct Seen { int errors = 0, warnings = 0; std::string_view src; };
static uint32_t lines(std::string_view s) { uint32_t n = 1; for (char c : s) n += c == '\n'; return n; }

static void run(const std::string& src) {
    Seen seen;
    seen.src = src;
    tiro_compiler_t c = tiro_compiler_new(str("m"), OK);
    tiro_compiler_set_message_callback(c, [](const tiro_compiler_message_t* m, void* u) {
        Seen* s = (Seen*) u;
        (m->severity == TIRO_SEVERITY_ERROR ? s->errors : s->warnings)++;
        symx_assert(m->text.length > 0, "empty message");
        if (m->severity == TIRO_SEVERITY_ERROR || m->line)   // warnings may have no position
            symx_assert(std::string_view(m->file.data, m->file.length) == "file" && m->line && m->column, "message without a position");
        // 0 means "no position"
        symx_assert(m->line <= lines(s->src), "message outside of the file");
        symx_assert(m->column <= s->src.size() + 1, "message outside of the line");
        return true;
    }, &seen, OK);
    tiro_compiler_add_file(c, str("file"), str(src), OK);
    Err err;
    tiro_compiler_run(c, err);
    symx_observe(err.code());
    symx_observe(seen.errors);
    if (err.code() == TIRO_OK) {
        symx_assert(seen.errors == 0, "the compiler reported errors but succeeded");
        symx_assert(tiro_compiler_has_module(c), "successful compilation without a module");
        tiro_module_t m = nullptr;
        tiro_compiler_take_module(c, &m, OK);
        try {
            tiro::vm::verify_module(*m->mod);
        } catch (...) {
            symx_fail("the compiled module is not valid");
        }
        tiro_module_free(m);
        symx_cover("module");
    } else {
        symx_assert(err.code() == TIRO_ERROR_BAD_SOURCE, "compilation failed with an internal error");
        symx_assert(seen.errors > 0, "compilation failed without an error message");
        symx_assert(!tiro_compiler_has_module(c), "failed compilation with a module");
        symx_cover("errors");
    }
    tiro_compiler_free(c);
}

static void sym(std::string& s, unsigned n, bool ascii) {
    for (unsigned k = 0; k < n; ++k) {
        char c;
        symx_make(&c, 1, ("c" + std::to_string(k)).c_str());
        if (ascii) symx_assume((unsigned char) c < 128);
        else if (k == 0) symx_assume((unsigned char) c >= 128);
        s += c;
    }
}

#ifdef TOKENS
static const char* TOK[] = {"a", "b", "f", "1", "1.5", "#a", "'s'", "\"$a\"", "assert", "break", "const", "continue", "defer", "else", "export", "true", "for", "func", "if", "import",
    "in", "null", "return", "var", "while", "map", "set", "is", "(", ")", "[", "]", "{", "}", ".", "0", ",", ":", ";", "?", "?.", "?(", "?[", "??", "+", "-", "*", "**", "+=", "**=", "~", "!", "&&", "||", "=", "==", "<", "^"};
static const char* TT[][2] = {{"", ""}, {"", "func f() {}"}, {"export", ";"}, {"func f(a,", ") {}"}, {"func f(a)", "{}"}, {"func f(a) {", "}"}, {"func f(a) {", "a }"}, {"func f(a) { a", "; }"},
    {"func f(a) { a", "b; }"}, {"func f(a) { return", "; }"}, {"func f(a) { var", "a; }"}, {"func f(a) { var b", "a }"}, {"func f(a) { (", ") = a }"}, {"func f(a) { if", "{ a } else { 1 } }"},
    {"func f(a) { const x = if a {", "} else {", }, {"func f(a) { for", "{} }"}, {"func f(a) { for var i = 0;", "; i += 1 { } }"}, {"func f(a) { while a {", "} }"},
    {"func f(a) { defer", "}"}, {"func f(a) { const x = a", "; x }"}, {"func f(a) = \"x${", "}y\";"}, {"func f(a) = map{", "}"}, {"func f(a) = set{a", "}"}, {"func f(a) = [", "a]"}, {"func f(a) = (a,", ")"},
    {"func f(a) = (b:", ")"}, {"func f(a) = a(", ")"}, {"func f(a) = a[", "]"}, {"func f(a) = a ?", "1"}, {"func f(a) = a .", "(1)"}};
static const unsigned NTT = sizeof(TT) / sizeof(TT[0]), NTOK = sizeof(TOK) / sizeof(TOK[0]);
int main() {
    unsigned k = symx_choose(NTT, "template");
    std::string s = TT[k][0];
    for (unsigned j = 0; j < HOLE; ++j) s += std::string(" ") + TOK[symx_choose(NTOK, "token")];
    if (symx_choose(2, "rest")) s += std::string(" ") + TT[k][1];
    else symx_cover("cut");
    run(s);
    return 0;
}
#else
int main() {
    unsigned k = symx_choose(NT, "template");
    std::string s = T[k][0];
#ifdef UTF8
    sym(s, symx_choose(HOLE, "len") + 1, false);
#else
    sym(s, symx_choose(HOLE, "len") + 1, true);
#endif
    if (symx_choose(2, "rest")) s += T[k][1];
    else symx_cover("cut");
    run(s);
    return 0;
}
#endif
