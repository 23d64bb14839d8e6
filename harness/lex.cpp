// C11: the tokens of a source text against an independent longest-match reference.
#include "tiroh.hpp"
#include "compiler/syntax/lexer.hpp"
#include <vector>
using tiro::TokenType;

namespace {
struct Tok { TokenType t; unsigned b, e; };
struct Op { const char* s; TokenType t; };
const Op OPS[] = {
    {"(", TokenType::LeftParen}, {")", TokenType::RightParen}, {"[", TokenType::LeftBracket}, {"]", TokenType::RightBracket},
    {"{", TokenType::LeftBrace}, {"}", TokenType::RightBrace}, {".", TokenType::Dot}, {",", TokenType::Comma}, {":", TokenType::Colon},
    {";", TokenType::Semicolon}, {"?", TokenType::Question}, {"?.", TokenType::QuestionDot}, {"?(", TokenType::QuestionLeftParen},
    {"?[", TokenType::QuestionLeftBracket}, {"??", TokenType::QuestionQuestion}, {"+", TokenType::Plus}, {"++", TokenType::PlusPlus},
    {"+=", TokenType::PlusEquals}, {"-", TokenType::Minus}, {"--", TokenType::MinusMinus}, {"-=", TokenType::MinusEquals},
    {"*", TokenType::Star}, {"**", TokenType::StarStar}, {"*=", TokenType::StarEquals}, {"**=", TokenType::StarStarEquals},
    {"/", TokenType::Slash}, {"/=", TokenType::SlashEquals}, {"%", TokenType::Percent}, {"%=", TokenType::PercentEquals},
    {"~", TokenType::BitwiseNot}, {"|", TokenType::BitwiseOr}, {"^", TokenType::BitwiseXor}, {"&", TokenType::BitwiseAnd},
    {"<<", TokenType::LeftShift}, {">>", TokenType::RightShift}, {"!", TokenType::LogicalNot}, {"||", TokenType::LogicalOr},
    {"&&", TokenType::LogicalAnd}, {"=", TokenType::Equals}, {"==", TokenType::EqualsEquals}, {"!=", TokenType::NotEquals},
    {"<", TokenType::Less}, {">", TokenType::Greater}, {"<=", TokenType::LessEquals}, {">=", TokenType::GreaterEquals}};
const Op KW[] = {{"as", TokenType::KwAs}, {"assert", TokenType::KwAssert}, {"break", TokenType::KwBreak}, {"catch", TokenType::KwCatch},
    {"class", TokenType::KwClass}, {"const", TokenType::KwConst}, {"continue", TokenType::KwContinue}, {"defer", TokenType::KwDefer},
    {"else", TokenType::KwElse}, {"export", TokenType::KwExport}, {"false", TokenType::KwFalse}, {"for", TokenType::KwFor},
    {"func", TokenType::KwFunc}, {"if", TokenType::KwIf}, {"import", TokenType::KwImport}, {"in", TokenType::KwIn},
    {"interface", TokenType::KwInterface}, {"is", TokenType::KwIs}, {"null", TokenType::KwNull}, {"package", TokenType::KwPackage},
    {"protocol", TokenType::KwProtocol}, {"return", TokenType::KwReturn}, {"scope", TokenType::KwScope}, {"struct", TokenType::KwStruct},
    {"switch", TokenType::KwSwitch}, {"throw", TokenType::KwThrow}, {"true", TokenType::KwTrue}, {"try", TokenType::KwTry},
    {"var", TokenType::KwVar}, {"while", TokenType::KwWhile}, {"yield", TokenType::KwYield}};
const unsigned NKW = sizeof(KW) / sizeof(KW[0]);

bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
bool ident1(unsigned char c) { return c == '_' || ((c | 32) >= 'a' && (c | 32) <= 'z') || c >= 128; }
bool ident(unsigned char c) { return ident1(c) || digit(c); }
bool space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }

// every construct as "the longest text that matches", over a stack of contexts
struct Ref {
    std::string_view s;
    std::vector<Tok> out;
    struct Ctx { char delim; unsigned braces; };   // delim 0: code
    std::vector<Ctx> st{{0, 0}};
    unsigned p = 0;
    TokenType last = TokenType::Eof;

    void emit(TokenType t, unsigned e) {
        out.push_back({t, p, e});
        p = e;
        last = t;
    }
    unsigned char at(unsigned k) { return k < s.size() ? (unsigned char) s[k] : 0; }
    bool is(unsigned k, unsigned char c) { return k < s.size() && (unsigned char) s[k] == c; }
    bool isid(unsigned k) { return k < s.size() && ident(at(k)); }
    bool isdig(unsigned k) { return k < s.size() && digit(at(k)); }
    unsigned word(unsigned k) { while (isid(k)) ++k; return k; }
    TokenType kw(unsigned b, unsigned e) {
        for (const Op& k : KW) {
            if (strlen(k.s) != e - b) continue;
            uint64_t eq = 1;
            for (unsigned j = 0; j < e - b; ++j) eq &= s[b + j] == k.s[j];
            if (eq) return k.t;
        }
        return TokenType::Identifier;
    }
    // end of a comment at k, or k
    unsigned comment(unsigned k) {
        if (is(k, '/') && is(k + 1, '/')) {
            while (k < s.size() && !is(k, '\n')) ++k;
            return k;
        }
        if (!(is(k, '/') && is(k + 1, '*'))) return k;
        unsigned depth = 0;
        while (k < s.size()) {
            if (is(k, '/') && is(k + 1, '*')) depth++, k += 2;
            else if (is(k, '*') && is(k + 1, '/')) {
                k += 2;
                if (--depth == 0) return k;
            } else ++k;
        }
        return k;
    }
    void run() {
        while (1) {
            Ctx& c = st.back();
            if (c.delim) {
                if (p >= s.size()) break;
                if (is(p, c.delim)) { st.pop_back(); emit(TokenType::StringEnd, p + 1); continue; }
                if (last == TokenType::StringVar && ident1(at(p))) {
                    unsigned e = word(p);
                    emit(kw(p, e), e);
                    continue;
                }
                if (is(p, '$')) {
                    if (is(p + 1, '{')) { st.push_back({0, 0}); emit(TokenType::StringBlockStart, p + 2); }
                    else emit(TokenType::StringVar, p + 1);
                    continue;
                }
                unsigned e = p;
                while (e < s.size() && !is(e, c.delim) && !is(e, '$')) e += is(e, '\\') ? 2 : 1;
                emit(TokenType::StringContent, e > s.size() ? (unsigned) s.size() : e);
                continue;
            }
            while (p < s.size() && space(at(p))) ++p;
            if (p >= s.size()) break;
            unsigned e = comment(p);
            if (e != p) { p = e; continue; }
            unsigned char ch = at(p);
            if (ch == '"' || ch == '\'') { st.push_back({(char) ch, 0}); emit(TokenType::StringStart, p + 1); continue; }
            if (digit(ch)) {
                e = p;
                if (last == TokenType::Dot || last == TokenType::QuestionDot) {
                    while (isdig(e)) ++e;
                    emit(TokenType::TupleField, e);
                    continue;
                }
                bool hex = false;
                if (is(p, '0') && (is(p + 1, 'x') || is(p + 1, 'o') || is(p + 1, 'b'))) { hex = is(p + 1, 'x'); e += 2; }
                auto digits = [&] { while (isdig(e) || is(e, '_') || (hex && e < s.size() && (at(e) | 32) >= 'a' && (at(e) | 32) <= 'f')) ++e; };
                digits();
                bool fl = is(e, '.');
                if (fl) { ++e; digits(); }
                emit(fl ? TokenType::Float : TokenType::Integer, e);
                continue;
            }
            if (ch == '#') { emit(TokenType::Symbol, word(p + 1)); continue; }
            if (ident1(ch)) { e = word(p); emit(kw(p, e), e); continue; }
            const Op* best = nullptr;
            unsigned bl = 0;
            for (const Op& o : OPS) {
                unsigned n = strlen(o.s);
                if (n <= bl || p + n > s.size()) continue;
                bool m = true;
                for (unsigned j = 0; m && j < n; ++j) m = is(p + j, o.s[j]);
                if (m) best = &o, bl = n;
            }
            if (!best) { emit(TokenType::Unexpected, p + 1); continue; }
            TokenType t = best->t;
            if (t == TokenType::LeftBrace) c.braces++;
            if (t == TokenType::RightBrace) {
                if (c.braces) c.braces--;
                else if (st.size() > 1) { st.pop_back(); t = TokenType::StringBlockEnd; }
            }
            emit(t, p + bl);
        }
    }
};

// the lexer's own tokens; every one ends after it starts, they are in order and within the text
std::vector<Tok> lex(std::string_view s, bool comments) {
    std::vector<Tok> out;
    tiro::Lexer l(s);
    l.ignore_comments(!comments);
    unsigned end = 0;
    while (1) {
        tiro::Token t = l.next();
        unsigned b = t.range().begin(), e = t.range().end();
        symx_assert(b >= end && e >= b && e <= s.size(), "token outside of the source or out of order");
        if (t.type() == TokenType::Eof) {
            symx_assert(e == s.size(), "end of file token before the end of the source");
            break;
        }
        symx_assert(e > b, "empty token");
        if (comments && t.type() == TokenType::Comment) {
            symx_assert(e >= b + 2 && s[b] == '/' && (s[b + 1] == '/' || s[b + 1] == '*'), "not a comment");
            end = e;
            continue;
        }
        out.push_back({t.type(), b, e});
        end = e;
    }
    return out;
}

void check(const std::string& text) {
    std::vector<Tok> a = lex(text, symx_choose(2, "comments"));
    Ref r;
    r.s = text;
    r.run();
    symx_observe(a.size());
    for (size_t k = 0; k < a.size() && k < r.out.size(); ++k) {
        symx_observe((unsigned) a[k].t);
        symx_assert(a[k].t == r.out[k].t, "token of the wrong type");
        symx_assert(a[k].b == r.out[k].b, "token starts at the wrong position");
        symx_assert(a[k].e == r.out[k].e, "token is not the longest match");
    }
    symx_assert(a.size() == r.out.size(), "wrong number of tokens");
}
void sym(std::string& s, unsigned n, const char* name) {
    for (unsigned k = 0; k < n; ++k) {
        char c;
        symx_make(&c, 1, (name + std::to_string(k)).c_str());
        symx_assume((unsigned char) c < 128);
        s += c;
    }
}
} // namespace

#ifndef LEN
#define LEN 2
#define TLEN 1
#endif
int main() {
    std::string s;
    switch (symx_choose(3, "mode")) {
    case 0: {                       // every text of N characters
        sym(s, LEN, "text");
        check(s);
        symx_cover("text");
        break;
    }
    case 1: {                       // a symbolic character in the middle of something longer
        static const char* T[][2] = {{"a /*", "*/ b"}, {"/*/* ", "*/ 1 */x"}, {"//", "\nx"}, {"\"", "\" x"}, {"'a$", "b' y"}, {"'a${", "} b' y"},
            {"\"${ {", "} }\" z"}, {"\"${'a", "'}\" z"}, {"\"\\", "\" z"}, {"a.", "1.2"}, {"a?.", "3 4"}, {"0x", "Fg"}, {"0b", "19"}, {"1", "5.7e"}, {"#", "a9"}, {"x", "= 3"},
            {"\"$x", "\" 1"}, {"'\"", "'1"}, {"*", "="}, {"{ \"${", "}$a\" }"}, {"a. /*", "*/ 3"}, {"\"$", "1.5$"}, {"1.", "."}, {"0", "_1"}};
        unsigned k = symx_choose(sizeof(T) / sizeof(T[0]), "template");
        s = T[k][0];
        sym(s, symx_choose(TLEN, "len") + 1, "char");
        if (symx_choose(2, "cut")) s += T[k][1];
        check(s);
        symx_cover("template");
        break;
    }
    case 2: {                       // keywords with one character replaced or appended
        unsigned k = symx_choose(NKW, "kw"), n = strlen(KW[k].s), pos = symx_choose(n + 1, "pos");
        s = KW[k].s;
        std::string c;
        sym(c, 1, "char");
        if (pos == n) s += c;
        else s[pos] = c[0];
        check(s);
        symx_cover("keyword");
        break;
    }
    }
    return 0;
}
