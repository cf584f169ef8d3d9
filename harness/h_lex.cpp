// C11: the SPARQL lexer against token sequences generated together with their texts.
#include "common.h"
#include "cts/parser/SPARQLLexer.hpp"
using namespace vf; using std::string; using std::vector;
typedef SPARQLLexer L; typedef L::Token T;
struct Tok { T t; string text, val, unesc; bool hasVal; };
static const char *name(T t) { static const char *n[] = {"None", "Error", "Eof", "IRI", "String", "Variable", "Identifier", "Colon", "Semicolon", "Comma", "Dot", "Underscore", "LCurly", "RCurly", "LParen", "RParen", "LBracket", "RBracket", "Anon", "Equal", "NotEqual", "Less", "LessOrEqual", "Greater", "GreaterOrEqual", "At", "Type", "Not", "Or", "And", "Plus", "Minus", "Mul", "Div", "Integer", "Decimal", "Double"}; return t >= 0 && t <= L::Double ? n[t] : "?"; }
static string pickc(Rng &r, const char *al, int n) { string s; size_t l = strlen(al); for (int i = 0; i < n; ++i) s += al[r.below(l)]; return s; }
static string utf(Rng &r) { static const char *u[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xce\xb1"}; return u[r.below(4)]; }
static const char *ALNUM = "abcxyzABCXYZ0189_";
static string blank(Rng &r) { static const char *w[] = {" ", "\t", "\n", "\r\n", "\f", "  ", " # comment ?x <a> \"\n", "#\n", "#c\r\n", "\n#a#b\r"}; return w[r.below(10)]; }
static Tok gen(Rng &r) {
    Tok k; k.hasVal = false;
    int c = r.below(40);
    struct S { T t; const char *s; };
    static const S simple[] = {{L::Colon, ":"}, {L::Semicolon, ";"}, {L::Comma, ","}, {L::Dot, "."}, {L::Underscore, "_"}, {L::LCurly, "{"}, {L::RCurly, "}"}, {L::LParen, "("}, {L::RParen, ")"}, {L::LBracket, "["}, {L::RBracket, "]"}, {L::Equal, "="}, {L::NotEqual, "!="}, {L::Less, "<"}, {L::LessOrEqual, "<="}, {L::Greater, ">"}, {L::GreaterOrEqual, ">="}, {L::At, "@"}, {L::Type, "^^"}, {L::Not, "!"}, {L::Or, "||"}, {L::And, "&&"}, {L::Plus, "+"}, {L::Minus, "-"}, {L::Mul, "*"}, {L::Div, "/"}};
    if (c < 15) { const S &s = simple[r.below(26)]; k.t = s.t; k.text = s.s; k.val = s.s; return k; }
    k.hasVal = true;
    int n = r.chance(10) ? 1 + r.below(200) : 1 + r.below(8);
    if (c < 20) { // IRI
        k.t = L::IRI; for (int i = 0; i < n; ++i) { if (r.chance(8)) { string e = pickc(r, r.chance(80) ? "\\><\"{}|^`abn " : "019crtuxyzABNU._-#?$%&()", 1); k.val += "\\" + e; k.unesc += e; } else { string x = r.chance(6) ? utf(r) : pickc(r, "abzAZ019:/#?=&.;,%~_-+@!$*'()[]\x7f", 1); k.val += x; k.unesc += x; } }
        k.text = "<" + k.val + ">"; return k;
    }
    if (c < 26) { // string
        k.t = L::String; char q = r.chance(50) ? '"' : '\'';
        for (int i = 0; i < n && !r.chance(6); ++i) { if (r.chance(12)) { string e = pickc(r, r.chance(80) ? "\\\"'abfnrt>" : "019acdeghijklmopqsuvwxyzABNRTUX._-#?$%&() ", 1); k.val += "\\" + e; k.unesc += e == "n" ? "\n" : e == "t" ? "\t" : e == "r" ? "\r" : e == "b" ? "\b" : e == "f" ? "\f" : e; } else { string x = r.chance(6) ? utf(r) : string(1, "ab Z09#<>?{}[].,;:|&!=\t\n\"'@^_"[r.below(30)]); if (x[0] == q) continue; k.val += x; k.unesc += x; } }
        k.text = string(1, q) + k.val + q; return k;
    }
    if (c < 30) { k.t = L::Variable; k.val = pickc(r, ALNUM, n); k.text = (r.chance(70) ? "?" : "$") + k.val; k.unesc = k.val; return k; }
    if (c < 33) { k.t = L::Integer; k.text = k.val = k.unesc = pickc(r, "0123456789", n); return k; }
    if (c < 35) { k.t = L::Decimal; k.text = k.val = k.unesc = pickc(r, "0123456789", 1 + r.below(5)) + "." + pickc(r, "0123456789", r.below(5)); return k; }
    if (c == 35) { k.t = L::Anon; k.hasVal = false; string b; while (r.chance(50)) b += pickc(r, " \t\n\r\f", 1); k.text = k.val = "[" + b + "]"; return k; }
    static const char *kw[] = {"SELECT", "select", "SeLeCt", "WHERE", "FILTER", "OPTIONAL", "a", "A", "distinct", "union", "prefix", "Base"};
    k.t = L::Identifier;
    if (r.chance(40)) k.val = kw[r.below(12)];
    else { k.val = pickc(r, "abcxyzABCXYZ", 1); for (int i = 0; i < n; ++i) k.val += pickc(r, "abcXYZ019_-.", 1); while (k.val.back() == '.') k.val.pop_back(); }
    k.text = k.unesc = k.val; return k;
}
// may b follow a without a separator?
static bool joinable(const Tok &a, const Tok &b) {
    auto word = [](char c) { return isalnum((unsigned char) c) || c == '_' || c == '.' || c == '-'; };
    if (a.t == L::Variable) return !(isalnum((unsigned char) b.text[0]) || b.text[0] == '_');
    if (a.t == L::Identifier) return !word(b.text[0]) || (b.t == L::Dot);
    if (a.t == L::Integer || a.t == L::Decimal) return !isdigit((unsigned char) b.text[0]) && b.text[0] != '.';
    if (a.t == L::Not || a.t == L::Greater) return b.text[0] != '=';
    if (a.t == L::Less || a.t == L::LessOrEqual) return false; // could become an IRI
    if (a.t == L::LBracket) return b.text[0] != ']';
    return true;
}
static void sequence(Rng &r) {
    vector<Tok> toks; int n = r.below(r.chance(10) ? 200 : 25); string in; vector<size_t> ends;
    if (r.chance(40)) in += blank(r);
    bool lastDot = false;
    for (int i = 0; i < n; ++i) {
        Tok k = gen(r);
        if (!toks.empty()) {
            const Tok &p = toks.back(); bool need = !joinable(p, k) || (lastDot && p.t == L::Dot);
            // "<" must not reach a later ">": a blank right behind it ends the attempt
            if (p.t == L::LBracket && k.t == L::RBracket) k = gen(r), need = true;
            if (p.t == L::LBracket && k.text[0] == ']') { k.t = L::Comma; k.text = k.val = ","; k.hasVal = false; }
            lastDot = false;
            if (need) { string b = blank(r); if (p.t == L::Less || p.t == L::LessOrEqual) b = " " + b; in += b; }
            else if (r.chance(50)) in += blank(r);
            else if (p.t == L::Identifier && k.t == L::Dot) lastDot = true; // "abc.": the dot is a token of its own, "abc.." would not be
        }
        in += k.text; ends.push_back(in.size()); toks.push_back(k);
    }
    // "abc." directly followed by a word character would extend the identifier
    // (identifiers contain dots), so separate it
    if (r.chance(50)) in += blank(r);
    string check = in;
    for (size_t i = 0; i + 1 < toks.size(); ++i) if (toks[i].t == L::Dot && i > 0 && toks[i - 1].t == L::Identifier && ends[i - 1] + 1 == ends[i]) {
        char nx = ends[i] < in.size() ? in[ends[i]] : ' ';
        if (isalnum((unsigned char) nx) || nx == '_' || nx == '.' || nx == '-') { add("skipped-ambiguous"); return; }
    }
    SPARQLLexer lx(in);
    for (size_t i = 0; i < toks.size(); ++i) {
        const Tok &k = toks[i];
        // peek before reading
        int peeks = r.chance(30) ? 1 + r.below(2) : 0;
        for (int j = 0; j < peeks; ++j) {
            bool right = r.chance(50); T want = right ? k.t : (T) (1 + r.below(36)); if (!right && want == k.t) continue;
            bool g = lx.hasNext(want);
            if (g != right) { violation("lexer:peek", fmt("hasNext(%s) is %d before a %s token '%s' (token %zu)", name(want), g, name(k.t), k.text.c_str(), i)); return; }
        }
        T t = lx.getNext();
        if (t != k.t) { violation(fmt("lexer:type:%s", name(k.t)), fmt("token %zu '%s' is %s, expected %s, in: %.400s", i, k.text.c_str(), name(t), name(k.t), in.c_str())); return; }
        int rep = 1 + r.below(2);
        for (int j = 0; j < rep; ++j) {
            string v = lx.getTokenValue();
            if (k.hasVal && v != k.val) { violation(fmt("lexer:value:%s", name(k.t)), fmt("the value of '%s' is '%s', expected '%s'", k.text.c_str(), v.c_str(), k.val.c_str())); return; }
            if (k.hasVal) {
                if (k.t == L::IRI) VF_CHECK(lx.getIRIValue() == k.unesc, "lexer:iri-value", "the IRI value of '%s' is '%s', expected '%s'", k.text.c_str(), lx.getIRIValue().c_str(), k.unesc.c_str());
                if (k.t == L::String) VF_CHECK(lx.getLiteralValue() == k.unesc, "lexer:literal-value", "the literal value of '%s' is '%s', expected '%s'", k.text.c_str(), lx.getLiteralValue().c_str(), k.unesc.c_str());
            }
            if (j + 1 < rep || r.chance(20)) {
                lx.unget(t); T t2 = lx.getNext();
                if (t2 != t) { violation("lexer:unget", fmt("%s put back, %s read", name(t), name(t2))); return; }
            }
        }
        if (k.t == L::Identifier || (k.hasVal && r.chance(10))) {
            string u = k.val; for (auto &c : u) if (r.chance(50)) c = isupper((unsigned char) c) ? tolower(c) : isalpha((unsigned char) c) ? toupper(c) : c;
            for (auto &c : u) if (c == 0) return;
            VF_CHECK(lx.isKeyword(u.c_str()), "lexer:keyword", "isKeyword('%s') is false for '%s'", u.c_str(), k.val.c_str());
            string w = k.val + "x"; VF_CHECK(!lx.isKeyword(w.c_str()), "lexer:keyword-longer", "isKeyword('%s') is true for '%s'", w.c_str(), k.val.c_str());
            if (!k.val.empty()) { w = k.val.substr(0, k.val.size() - 1); VF_CHECK(!lx.isKeyword(w.c_str()), "lexer:keyword-shorter", "isKeyword('%s') is true for '%s'", w.c_str(), k.val.c_str()); w = k.val; w[r.below(w.size())] ^= 1; if (w.find('\0') == string::npos && strcasecmp(w.c_str(), k.val.c_str()) != 0) VF_CHECK(!lx.isKeyword(w.c_str()), "lexer:keyword-other", "isKeyword('%s') is true for '%s'", w.c_str(), k.val.c_str()); }
        }
        std::string::const_iterator rd = lx.getReader(); (void) rd;
    }
    for (int i = 0; i < 3; ++i) { T t = lx.getNext(); if (t != L::Eof) { violation("lexer:eof", fmt("%s after the last token of: %.400s", name(t), in.c_str())); return; } }
    add("tokens", toks.size()); distinct(hashStr(in)); sample(in.substr(0, 300));
}
// the tokens of any text, written from the token grammar; an Error ends the comparison
struct RT { T t; size_t b, e, end; };
static RT refNext(const string &s, size_t p) {
    for (;;) { // blanks and comments
        if (p < s.size() && s[p] != 0 && strchr(" \t\n\r\f", s[p])) ++p;
        else if (p < s.size() && s[p] == '#') { size_t q = s.find_first_of("\n\r", p); p = q == string::npos ? s.size() : q + 1; }
        else break;
    }
    RT k; k.b = p; k.t = L::Eof; k.e = k.end = p; if (p == s.size()) return k;
    char c = s[p]; char d = p + 1 < s.size() ? s[p + 1] : 0; bool d0 = p + 1 < s.size();
    auto is = [&](T t, size_t n) { k.t = t; k.e = k.end = p + n; return k; };
    auto digit = [](char x) { return x >= '0' && x <= '9'; }; auto wordc = [&](char x) { return digit(x) || (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || x == '_'; };
    static const struct { char c; T t; } one[] = {{':', L::Colon}, {';', L::Semicolon}, {',', L::Comma}, {'.', L::Dot}, {'_', L::Underscore}, {'{', L::LCurly}, {'}', L::RCurly}, {'(', L::LParen}, {')', L::RParen}, {']', L::RBracket}, {'@', L::At}, {'+', L::Plus}, {'-', L::Minus}, {'*', L::Mul}, {'/', L::Div}, {'=', L::Equal}};
    for (auto &o : one) if (o.c == c) return is(o.t, 1);
    if (c == '!') return d0 && d == '=' ? is(L::NotEqual, 2) : is(L::Not, 1);
    if (c == '>') return d0 && d == '=' ? is(L::GreaterOrEqual, 2) : is(L::Greater, 1);
    if (c == '^') return d0 && d == '^' ? is(L::Type, 2) : is(L::Error, 1);
    if (c == '|') return d0 && d == '|' ? is(L::Or, 2) : is(L::Error, 1);
    if (c == '&') return d0 && d == '&' ? is(L::And, 2) : is(L::Error, 1);
    if (c == '[') { size_t q = p + 1; while (q < s.size() && s[q] && strchr(" \t\n\r\f", s[q])) ++q; if (q < s.size() && s[q] == ']') return is(L::Anon, q + 1 - p); is(L::LBracket, q - p); k.e = p + 1; return k; }
    if (c == '<') {
        size_t q = p + 1; bool ok = false; // up to the first unescaped character that cannot stand in an IRI
        for (; q < s.size(); ++q) { if (s[q] == '\\') { ++q; continue; } unsigned char u = s[q]; if (u == '>') { ok = true; break; } if (u <= 0x20 || strchr("<\"{}^|`", u)) break; }
        if (ok && q < s.size()) { k.t = L::IRI; k.b = p + 1; k.e = q; k.end = q + 1; return k; }
        return d0 && d == '=' ? is(L::LessOrEqual, 2) : is(L::Less, 1);
    }
    if (c == '"' || c == '\'') { size_t q = p + 1; while (q < s.size() && s[q] != c) q += s[q] == '\\' ? 2 : 1; if (q > s.size()) q = s.size(); k.t = L::String; k.b = p + 1; k.e = q; k.end = q < s.size() ? q + 1 : q; return k; }
    if (c == '?' || c == '$') { size_t q = p + 1; while (q < s.size() && wordc(s[q])) ++q; k.t = L::Variable; k.b = p + 1; k.e = k.end = q; return k; }
    if (digit(c)) { size_t q = p; bool dot = false; while (q < s.size() && (digit(s[q]) || (s[q] == '.' && !dot))) { if (s[q] == '.') dot = true; ++q; } return is(dot ? L::Decimal : L::Integer, q - p); }
    if (wordc(c)) { size_t q = p; while (q < s.size() && (wordc(s[q]) || s[q] == '.' || s[q] == '-')) ++q; if (s[q - 1] == '.') --q; return is(L::Identifier, q - p); }
    return is(L::Error, 0);
}
// any bytes: the tokens are those of the grammar; the lexer ends, every token lies behind the previous one, and only blanks and comments are skipped
static void bytes(Rng &r) {
    string in; int n = r.below(60);
    static const string al = "<>\"'\\[](){},;.:@^#|&!=?$_+-*/ \n\r\ta1.Z" + string("\0\x80\xff\x0b", 4);
    for (int i = 0; i < n; ++i) { if (r.chance(20)) in += gen(r).text; else in += al[r.below(al.size())]; if (r.chance(4)) in += (char) r.below(256); if (r.chance(4)) in += "<" + pickc(r, "abzAZ:/.", r.below(4)) + pickc(r, "<>\"{}^|`\\ \n=\x1f\x21", r.below(2)) + pickc(r, "azAZ", r.below(3)) + (r.chance(70) ? ">" : ""); if (r.chance(2)) in += string("?x<3 y<") + (char) r.below(256) + "z>"; }
    SPARQLLexer lx(in); std::string::const_iterator first = lx.getReader(); size_t prev = 0; int errs = 0; bool cmp = true;
    for (size_t i = 0;; ++i) {
        if (i > in.size() + 2) { violation("lexer:endless", "more tokens than characters"); return; }
        T t = lx.getNext(); size_t now = lx.getReader() - first;
        if (now < prev || now > in.size()) { violation("lexer:reader", fmt("the reader moved from %zu to %zu of %zu", prev, now, in.size())); return; }
        string v = lx.getTokenValue();
        if (cmp) {
            RT k = refNext(in, prev); cmp = k.t != L::Error; string want = in.substr(k.b, k.e - k.b), ctx = oneline(in.substr(prev, 40));
            if (t != k.t) { violation(fmt("lexer:any-type:%s", name(k.t)), fmt("token is %s, expected %s before '%s'", name(t), name(k.t), ctx.c_str())); return; }
            if (cmp && t != L::Eof && t != L::LBracket) {
                if ((t == L::IRI || t == L::String || t == L::Variable || t == L::Identifier || t == L::Integer || t == L::Decimal) && v != want) { violation(fmt("lexer:any-value:%s", name(k.t)), fmt("value '%s', expected '%s' before '%s'", v.c_str(), want.c_str(), ctx.c_str())); return; }
                if (now != k.end) { violation(fmt("lexer:any-end:%s", name(k.t)), fmt("the token ends at %zu, expected %zu; '%s'", now - prev, k.end - prev, ctx.c_str())); return; }
            }
            add("tokens of any text");
        }
        if (t == L::Eof) { // whatever was skipped is blank or comment
            bool com = false; for (size_t p = prev; p < in.size(); ++p) { char c = in[p]; if (com) { if (c == '\n' || c == '\r') com = false; } else if (c == '#') com = true; else if (!strchr(" \t\n\r\f", c) || c == 0) { violation("lexer:skipped", fmt("the end was reported before '%c' at %zu", c, p)); return; } }
            break;
        }
        if (t == L::Error && now == prev) { if (++errs > 2) break; } else errs = 0; // an illegal character is not consumed
        string raw = in.substr(prev, now - prev);
        if (t != L::Error && raw.find(v) == string::npos) { violation("lexer:foreign-value", fmt("token %s has value '%s', read text '%s'", name(t), v.c_str(), raw.c_str())); return; }
        if (t != L::Error && now == prev) { violation("lexer:stuck", fmt("a %s token consumed nothing", name(t))); return; }
        lx.getIRIValue(); lx.getLiteralValue(); lx.isKeyword("select");
        if (r.chance(20)) { lx.unget(t); lx.hasNext(L::Dot); if (lx.getNext() != t) { violation("lexer:unget", "another token after unget"); return; } }
        prev = now;
    }
    add("byte-strings"); distinct(hashStr(in));
}
static void oneCase(Rng &r, uint64_t) { for (int i = 0; i < 6; ++i) if (r.chance(65)) sequence(r); else bytes(r); }
int main(int argc, char **argv) { return run(argc, argv, oneCase); }
