// C12: the Turtle parser against documents generated together with the triples they denote.
#include "common.h"
#include "cts/parser/TurtleParser.hpp"
#include <memory>
using namespace vf; using std::string; using std::vector; using std::map;
typedef Type::ID TI;
struct Node { bool gen; string v; TI t; string sub; Node() : gen(false), t(Type::URI) {} };
struct Tr { Node s; string p; Node o; };
static const char *RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
struct Doc {
    Rng &r; string out; vector<Tr> tr; string base; map<string, string> prefixes; unsigned genc = 0; bool glue; int lines = 1;
    Doc(Rng &r) : r(r) { glue = r.chance(40); }
    // separators; hard = at least one blank
    void ws(bool hard) {
        bool did = false;
        for (int k = 0; k < 4 && r.chance(hard && !did ? 100 : glue ? 12 : 55); ++k) {
            switch (r.below(8)) {
                case 0: out += "\n"; break; case 1: out += "\t"; break; case 2: out += "\r\n"; break;
                case 3: if (r.chance(30)) { out += " # a comment . \" < [ " + string(r.below(r.chance(10) ? 1500 : 30), 'x') + (r.chance(80) ? "\n" : r.chance(50) ? "\r\n" : "\r"); break; }
                case 4: if (r.chance(8)) { out += string(900 + r.below(300), ' '); break; }
                default: out += " ";
            }
            did = true;
        }
    }
    string uchars(int n, bool uri) { string s; for (int i = 0; i < n; ++i) s += uri ? "abcdefgXYZ012/#?=&._~-%"[r.below(23)] : "abc XYZ09.,;:'<>[](){}#@^_-+?"[r.below(29)]; return s; }
    static string u8(unsigned c) { string o; if (c < 0x80) o += (char) c; else if (c < 0x800) { o += (char) (0xc0 | c >> 6); o += (char) (0x80 | (c & 63)); } else if (c < 0x10000) { o += (char) (0xe0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); } else { o += (char) (0xf0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); } return o; }
    // one character, possibly escaped: appended to text and to the value
    void chr(string &text, string &val, char q, bool lng) {
        int k = r.below(30);
        if (k < 6) { static const char *e[] = {"\\t", "\\n", "\\r", "\\\"", "\\\\", "\\>"}; static const char v[] = "\t\n\r\"\\>"; int i = r.below(6); if (q == '>' && i < 3) i = 4; text += e[i]; val += v[i]; return; }
        if (k < 8) { unsigned c = r.chance(40) ? 0x20 + r.below(0x5f) : r.chance(50) ? 0x80 + r.below(0x780) : 0x800 + r.below(0xd000 - 0x800); text += fmt(r.chance(50) ? "\\u%04X" : "\\u%04x", c); val += u8(c); return; }
        if (k < 10 && r.chance(20)) { static const unsigned edge[] = {1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10ffff}; unsigned c = edge[r.below(17)]; text += c < 0x10000 && r.chance(50) ? fmt("\\u%04X", c) : fmt("\\U%08X", c); val += u8(c); return; }
        if (k < 10) { unsigned c = r.chance(50) ? 0x10000 + r.below(0x10ffff - 0x10000) : 0x41 + r.below(0x700); text += fmt(r.chance(50) ? "\\U%08X" : "\\U%08x", c); val += u8(c); return; }
        if (k < 12) { string c = u8(0xa1 + r.below(0x3000)); text += c; val += c; return; }
        if (q == '"' && k < 13) { text += "\n"; val += "\n"; return; }
        string c = uchars(1, q == '>');
        text += c; val += c; (void) lng;
    }
    string mkuri(string &val) { // <...>
        string text, v; int n = 1 + r.below(r.chance(5) ? 1200 : 14);
        bool rel = !base.empty() && r.chance(40);
        static const char *rels[] = {"#f", "5:x", "_a:b", "-x:y", "/a:b", "[:x", "^:", "@:y", "a b:", "x/y:z", "?q:", "\xc3\xa9:x"}; if (rel) { text = v = r.chance(40) ? rels[r.below(12)] : "rel/"; if (r.chance(20)) { text += "/a:b"; v += "/a:b"; } }
        else if (r.chance(20)) { text = v = r.chance(50) ? "urn:isbn:" : "mailto:"; }
        else text = v = r.chance(10) ? "verylongscheme+x://h/" : "http://h/";
        for (int i = 0; i < n; ++i) chr(text, v, '>', false);
        val = rel ? base + v : v;
        return "<" + text + ">";
    }
    // returns text of an IRI in some notation
    string iri(string &val, bool pred) {
        int k = r.below(10);
        if (k < 4 && !prefixes.empty()) {
            auto it = prefixes.begin(); std::advance(it, r.below(prefixes.size()));
            string l = localName(); val = it->second + l; return it->first + ":" + l;
        }
        if (k < 5 && pred) { val = string(RDF) + "type"; return "a "; }
        return mkuri(val);
    }
    string localName() { static const char *w[] = {"a", "true", "false", "prefix", "base", "x", "Name", "name-with_1", "e5", "_"}; return r.chance(30) ? w[r.below(9)] : string(1, "abcXYZ_"[r.below(7)]) + fmt("%u", (unsigned) r.below(50)); }
    string blankLabel() { static const char *w[] = {"b", "x1", "node", "a", "true"}; return w[r.below(5)]; }
    string literal(Node &n) {
        string text, v; bool lng = r.chance(25);
        int len = r.chance(10) ? 0 : r.chance(4) ? 1000 + r.below(100) : r.below(12);
        if (lng) {
            text = "\"\"\"";
            for (int i = 0; i < len; ++i) { if (r.chance(25) && i + 1 < len) { int q = 1 + r.below(2); string c = uchars(1, true); if (r.chance(25)) { text += string(q, '"') + "\\\\"; v += string(q, '"') + "\\"; } else if (r.chance(30)) { text += string(q, '"') + "\n"; v += string(q, '"') + "\n"; } else { text += string(q, '"') + c; v += string(q, '"') + c; } } else chr(text, v, '"', true); }
            text += "\"\"\"";
        } else { text = "\""; for (int i = 0; i < len; ++i) chr(text, v, '"', false); text += "\""; }
        n.v = v; n.t = Type::Literal;
        int k = r.below(10);
        if (k < 2) { n.t = Type::CustomLanguage; static const char *l[] = {"en", "en-US", "de", "x-y-z1"}; n.sub = l[r.below(4)]; text += "@" + n.sub; }
        else if (k < 5) {
            static const char *xs[] = {"string", "integer", "decimal", "double", "boolean", "date", "int"}; static const TI tt[] = {Type::String, Type::Integer, Type::Decimal, Type::Double, Type::Boolean, Type::CustomType, Type::CustomType};
            string dt, txt;
            if (r.chance(60)) { int i = r.below(7); dt = string("http://www.w3.org/2001/XMLSchema#") + xs[i]; n.t = tt[i]; if (i >= 5) n.sub = dt; 
                string px; for (auto &p : prefixes) if (p.second == "http://www.w3.org/2001/XMLSchema#") px = p.first + ":";
                if (!px.empty() && r.chance(60)) txt = px + xs[i]; else txt = "<" + dt + ">"; }
            else { if (r.chance(50) || prefixes.empty()) { dt = "http://types/" + uchars(3, true); txt = "<" + dt + ">"; } else { auto it = prefixes.begin(); std::advance(it, r.below(prefixes.size())); string l = "T" + fmt("%u", (unsigned) r.below(9)); dt = it->second + l; txt = it->first + ":" + l; if (dt.compare(0, 33, "http://www.w3.org/2001/XMLSchema#") != 0) {} }
                n.t = Type::CustomType; n.sub = dt; }
            text += "^^" + txt;
        }
        return text;
    }
    string number(Node &n) {
        string s; if (r.chance(30)) s = r.chance(50) ? "-" : "+";
        auto digs = [&]() { string d; int c = 1 + r.below(4); for (int i = 0; i < c; ++i) d += '0' + r.below(10); return d; };
        int k = r.below(6);
        auto ex = [&]() { return string(1, "eE"[r.below(2)]) + (r.chance(50) ? "" : r.chance(50) ? "-" : "+") + digs(); };
        if (k < 2) { s += digs(); n.t = Type::Integer; }
        else if (k == 2) { s += digs() + "." + digs(); n.t = Type::Decimal; }
        else if (k == 3) { s += "." + digs(); n.t = Type::Decimal; }
        else if (k == 4) { s += digs() + ex(); n.t = Type::Double; }
        else { s += (r.chance(70) ? digs() : string()) + "." + digs() + ex(); n.t = Type::Double; }
        n.v = s; return s;
    }
    Node newGen() { Node n; n.gen = true; n.v = fmt("g%u", genc++); return n; }
    bool lastSep; // whether the text emitted last needs no separator
    void emit(const string &s) { out += s; }
    Node object(int depth) {
        Node n; int k = r.below(20);
        if (k < 7) { emit(iri(n.v, true)); }
        else if (k < 12) emit(literal(n));
        else if (k < 15) { emit(number(n)); if (r.chance(70) || true) ws(r.chance(50)); }
        else if (k == 15) { n.v = r.chance(50) ? "true" : "false"; n.t = Type::Boolean; emit(n.v); }
        else if (k < 18 || depth <= 0) { string l = blankLabel(); n.v = "_:" + l; emit("_:" + l); }
        else if (k == 18) n = bracket(depth);
        else n = collection(depth);
        return n;
    }
    Node bracket(int depth) { Node n = newGen(); emit("["); ws(false); if (r.chance(70)) { pol(n, depth - 1); ws(false); } emit("]"); return n; }
    Node collection(int depth) {
        emit("("); ws(false); vector<Node> e; int c = r.below(4);
        for (int i = 0; i < c; ++i) { e.push_back(object(depth - 1)); ws(true); }
        emit(")");
        Node nil; nil.v = string(RDF) + "nil"; Node prev = nil;
        for (int i = (int) e.size() - 1; i >= 0; --i) { Node n = newGen(); tr.push_back({n, string(RDF) + "first", e[i]}); tr.push_back({n, string(RDF) + "rest", prev}); prev = n; }
        return prev;
    }
    void pol(Node s, int depth) {
        int np = 1 + r.below(3);
        for (int i = 0; i < np; ++i) {
            string p; emit(iri(p, true)); ws(true);
            int no = 1 + (r.chance(30) ? r.below(3) : 0);
            for (int j = 0; j < no; ++j) { Node o = object(depth); tr.push_back({s, p, o}); ws(false); if (j + 1 < no) { emit(","); ws(false); } }
            if (i + 1 < np || r.chance(10)) { emit(";"); ws(false); }
        }
    }
    void directive() {
        if (r.chance(25)) { base = r.chance(50) ? "http://base/" : "http://b2.org/x/"; emit("@base"); ws(true); emit("<" + base + ">"); }
        else {
            static const char *names[] = {"", "p", "ex", "xsd", "rdf_x", "P2"}; string n = names[r.below(6)], u;
            emit("@prefix"); ws(true); emit(n); emit(":"); ws(false);
            if (n == "xsd" || r.chance(10)) { u = "http://www.w3.org/2001/XMLSchema#"; emit("<" + u + ">"); } else { emit(mkuri(u)); }
            prefixes[n] = u;
        }
        ws(false); emit("."); ws(false);
    }
    void statement() {
        if (r.chance(prefixes.size() < 2 ? 50 : 12)) { directive(); return; }
        Node s; int k = r.below(12);
        if (k < 7) emit(iri(s.v, false)); else if (k < 9) { string l = blankLabel(); s.v = "_:" + l; emit(s.v); } else if (k < 11) s = bracket(2); else s = collection(2);
        ws(true); pol(s, 2); ws(false); emit("."); ws(false);
    }
};
struct Canon {
    map<string, vector<const Tr *>> by; map<string, string> memo;
    string c(const Node &n) {
        if (!n.gen) return n.v + "\x01" + fmt("%d", (int) n.t) + "\x01" + n.sub;
        auto it = memo.find(n.v); if (it != memo.end()) return it->second;
        memo[n.v] = "cycle"; vector<string> l;
        for (auto t : by[n.v]) l.push_back(t->p + "\x02" + c(t->o));
        std::sort(l.begin(), l.end()); string o = "["; for (auto &x : l) o += x + "\x03"; return memo[n.v] = o + "]";
    }
};
static std::multiset<string> canon(const vector<Tr> &t) {
    Canon k; for (auto &x : t) if (x.s.gen) k.by[x.s.v].push_back(&x);
    std::multiset<string> o; for (auto &x : t) o.insert(k.c(x.s) + "\x04" + x.p + "\x04" + k.c(x.o)); return o;
}
static bool isGen(const string &s) { static const std::set<string> lab = {"_:b", "_:x1", "_:node", "_:a", "_:true"}; return s.compare(0, 2, "_:") == 0 && !lab.count(s); }
// an input stream that hands out small pieces
struct Piece : std::streambuf { string s; size_t p = 0, n; char b[64]; Piece(const string &s, size_t n) : s(s), n(n) {} int_type underflow() override { if (p >= s.size()) return traits_type::eof(); size_t c = std::min(n, s.size() - p); memcpy(b, s.data() + p, c); p += c; setg(b, b, b + c); return (unsigned char) b[0]; } };
static bool parseAll(const string &text, vector<Tr> &out, string &err, Rng &r, size_t limit) {
    std::istringstream is(text); Piece pb(text, 1 + r.below(63)); std::istream ps(&pb); bool piece = r.chance(40);
    std::unique_ptr<TurtleParser> p(new TurtleParser(piece ? ps : (std::istream &) is));
    string s, pr, o, sub; TI t = Type::URI;
    try {
        while (p->parse(s, pr, o, t, sub)) {
            Tr x; x.s.v = s; x.s.gen = isGen(s); x.p = pr; x.o.v = o; x.o.t = t; x.o.sub = sub; x.o.gen = t == Type::URI && isGen(o);
            out.push_back(x); if (out.size() > limit) { violation("turtle:endless", fmt("more than %zu triples out of %zu bytes", limit, text.size())); return false; }
        }
        for (int i = 0; i < 2; ++i) if (p->parse(s, pr, o, t, sub)) { violation("turtle:after-end", "parse returns a triple after the end"); return false; }
        return true;
    } catch (TurtleParser::Exception &e) { err = e.message; return false; }
}
static void compare(const char *what, const vector<Tr> &got, const vector<Tr> &want, const string &text) {
    auto g = canon(got), w = canon(want);
    if (g == w) return;
    string miss, extra; for (auto &x : w) if (!g.count(x)) { miss = x; break; } for (auto &x : g) if (!w.count(x)) { extra = x; break; }
    violation(string("turtle:") + what, fmt("%zu triples, expected %zu; missing '%.300s' extra '%.300s' in: %.600s", got.size(), want.size(), miss.c_str(), extra.c_str(), text.c_str()));
}
static unsigned lineOf(const string &t, size_t pos) { return 1 + std::count(t.begin(), t.begin() + pos, '\n'); }
static void oneCase(Rng &r, uint64_t) {
    Doc d(r); int n = r.below(r.chance(20) ? 40 : 8); d.ws(false);
    for (int i = 0; i < n; ++i) d.statement();
    if (r.chance(25)) { size_t want = (d.out.size() / 1024 + 1) * 1024; string pad(want - d.out.size(), ' '); if (r.chance(50)) { d.out = pad + d.out; } else { if (pad.size() > 1) { pad[0] = '#'; } d.out += pad; if (pad.size() == 1) d.out.back() = '\n'; } }
    vector<Tr> got; string err;
    bool ok = parseAll(d.out, got, err, r, d.tr.size() + 50);
    if (!ok) violation("turtle:valid-rejected", fmt("%s: document %.700s", err.c_str(), d.out.c_str()));
    else compare("triples", got, d.tr, d.out);
    add("valid-documents"); add("triples", d.tr.size()); distinct(hashStr(d.out)); sample(d.out.substr(0, 400));
    // an invalid statement at the end
    string doc = d.out + "\n "; size_t at = doc.size();
    static const char *bad[] = {", .", "<http://s> <http://p> .", "<http://s> <http://p> <http://o> ; , <http://x> .", "<http://s> <http://p> <http://o> <http://x> .", "nosuchprefix:x <http://p> 1 .", "<http://s> nosuchprefix:x 1 .", "<http://s> <http://p> \"open .", "<http://s> <http://p> \"\"\"open\"\" .", "<http://s <http://p> ", "<http://s> <http://p> 1x .", "<http://s> <http://p> 1e .", "<http://s> <http://p> \"\\q\" .", "<http://s> <http://p> \"\\u12G4\" .", "<http://s> _:b 1 .", "_:b .", "<http://s> <http://p> [ <http://q> 1 .", "<http://s> <http://p> ( 1 2 .", "<http://s> <http://p> \"x\"@ .", "<http://s> <http://p> \"x\"^<http://t> .", "<http://s> <http://p> 5", "@prefix p <http://x> .", "@base 5 .", "@nonsense x .", "\"lit\" <http://p> 1 .", "5 <http://p> 1 .", "<http://s> 5 1 .", "<http://s> \"p\" 1 .", "<http://s> <http://p> ] .", "\x01", "<http://s> <http://p> \"x\"^^\"y\" .",
        "@prefix p , <http://x> .", "@prefix p p <http://x> .", "@prefix . <http://x> .", "@\"base\" <http://x/> .", "@<base> <http://x/> .", "@5 <http://x/> .", "@prefix zz: <http://z/> ; <http://s> <http://p> 1 .", "@base <http://z/> , <http://s> <http://p> 1 .", "@prefix zz: 5 .", "@prefix zz: zz .", "@base zz .",
        "<http://s> <http://p> [ <http://q> 1 ) .", "<http://s> <http://p> [ <http://q> 1 , ] .", "<http://s> <http://p> [ <http://q> 1 . ] .", "<http://s> <http://p> ( 1 ] .", "<http://s> <http://p> ( 1 , 2 ) .", "a,x <http://p> 1 .", "_,b <http://p> 1 .", "_:5 <http://p> 1 .", "_:~b <http://p> 1 .", "_:$b <http://p> 1 .", "_:\"b\" <http://p> 1 .", "<http://s> <http://p> 1x3 .", "<http://s> <http://p> 1.5x3 .", "<http://s> <http://p> 1f2 .", "<http://s> <http://p> - .", "<http://s> <http://p> +e5 .", "<http://s> <http://p> 1e+ .", "<http://s> <http://p> 1.2.3 .",
        "<http://s> <http://p> \"x\"@5 .", "<http://s> <http://p> \"x\"@\"en\" .", "<http://s> <http://p> \"x\"^^5 .", "<http://s> <http://p> \"x\"^^_:b .", "<http://s> <http://p> \"x\"^^ .", "<http://s> <http://p> \"\\", "<http://s> <http://p> \"\\u1", "<http://s> <http://p> \"\\U0001F60", "<http://s", "<http://s\\", "<http://s> <http://p> \"\"\"x", "<http://s> <http://p> \"\"\"x\"\"", "<http://s>", "<http://s> <http://p>", "<http://s> <http://p> 1", "<http://s> <http://p> 1 ;", "<http://s> <http://p> 1 ,", "<http://s> <http://p> 1 , .", "@", "@prefix", "@prefix q", "@prefix q:", "@prefix q: <http://x>", "@base", "@base <http://x/>", "true <http://p> 1 .", "<http://s> true 1 .", "[ <http://p> 1", "[ <http://p>", "[", "(", "( 1", "( 1 ) .", "<http://s> [ <http://q> 1 ] 1 .", "<http://s> ( 1 ) 1 .", "<http://s> <http://p> 1 2 .", "<http://s> <http://p> ; .", "; .", "@a <http://x/> .", "^^ .", "<http://s> <http://p> ^^<http://t> ."};
    int bi = r.below(sizeof(bad) / sizeof(*bad)); doc += bad[bi];
    got.clear(); err.clear();
    if (parseAll(doc, got, err, r, d.tr.size() + 50)) violation(fmt("turtle:invalid-accepted:%d", bi), fmt("accepted: %s", bad[bi]));
    else {
        vector<Tr> pre; for (auto &x : got) pre.push_back(x);
        auto g = canon(got), w = canon(d.tr);
        if (g != w) violation("turtle:prefix-of-invalid", fmt("%zu triples before the error, expected %zu; error %s; bad statement %s", got.size(), d.tr.size(), err.c_str(), bad[bi]));
        size_t p = err.find("line ");
        if (p == string::npos) violation("turtle:no-line", "error without a line: " + err);
        else { unsigned l = atoi(err.c_str() + p + 5); unsigned lo = lineOf(doc, at), hi = lineOf(doc, doc.size()); VF_CHECK(l >= lo && l <= hi, "turtle:line", "error reported in line %u, the statement is in lines %u-%u: %s", l, lo, hi, err.c_str()); }
    }
    add("invalid-documents");
    // arbitrary damage: triples or an exception
    for (int k = 0; k < 3; ++k) {
        string m = d.out; int e = 1 + r.below(4);
        for (int i = 0; i < e; ++i) { size_t p = r.below(m.size() + 1); int o = r.below(4); static const string al = "<>\"\\[](),;.:@^#_a5-+eE \n\xc3" + string(1, '\0'); if (o == 0 && p < m.size()) m.erase(p, 1 + r.below(3)); else if (o == 1) m.insert(p, 1, al[r.below(al.size())]); else if (o == 2 && p < m.size()) m[p] = al[r.below(al.size())]; else m.resize(p); }
        vector<Tr> g2; string e2; parseAll(m, g2, e2, r, m.size() + 50);
        add("damaged-documents");
    }
}
int main(int argc, char **argv) { return run(argc, argv, oneCase); }
