// SPARQL text in, bindings out: parser, analysis, planner, operators and printer against a naive evaluation.
#include "kbutil.h"
#include <trident/sparql/sparql.h>
#include <layers/TridentLayer.hpp>
#include <trident/utils/json.h>
#include <iostream>
#include <sstream>
using vf::Rng; using namespace kbu;
typedef std::string Str;
static const Str XSD = "http://www.w3.org/2001/XMLSchema#", RDFT = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>";

struct SRow : public std::map<Str, Str> {}; struct SRowLess { bool operator()(const SRow &a, const SRow &b) const { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](const std::pair<const Str, Str> &x, const std::pair<const Str, Str> &y) { int c = x.first.compare(y.first); return c < 0 || (c == 0 && x.second.compare(y.second) < 0); }); } }; // variable -> term; unbound variables are absent
typedef std::vector<SRow> Bag;
struct TP { Str t[3]; }; // "?x", "_:b" or a term
struct Expr { Str op; std::vector<Expr> a; Str v; };
struct Grp; typedef std::shared_ptr<Grp> GP;
struct Sub { bool distinct = false; std::vector<Str> vars; GP g; };
struct Vals { std::vector<Str> vars; std::vector<std::vector<Str>> rows; };
struct Grp { std::vector<TP> pats; std::vector<GP> opts, minus, notex; std::vector<std::vector<GP>> unions; std::vector<Expr> filters; std::vector<Vals> vals; std::vector<Sub> subs; };
static bool isVar(const Str &s) { return s[0] == '?' || s[0] == '_'; }
// ---- reference ----
static const StrSet *DB;
static bool extend(SRow &r, const Str &e, const Str &v) {
    if (!isVar(e)) return e == v;
    auto it = r.find(e); if (it != r.end()) return it->second == v;
    r[e] = v; return true;
}
static void bgp(const std::vector<TP> &p, size_t i, const SRow &r, Bag &out) {
    if (out.size() > 200000) return;
    if (i == p.size()) { out.push_back(r); return; }
    for (auto &t : *DB) { SRow q = r; if (extend(q, p[i].t[0], t.s) && extend(q, p[i].t[1], t.p) && extend(q, p[i].t[2], t.o)) bgp(p, i + 1, q, out); }
}
static bool compatible(const SRow &a, const SRow &b, bool *share = NULL) { for (auto &x : a) { auto it = b.find(x.first); if (it != b.end()) { if (share) *share = true; if (it->second != x.second) return false; } } return true; }
static SRow merged(const SRow &a, const SRow &b) { SRow r = a; r.insert(b.begin(), b.end()); return r; }
static Bag join(const Bag &a, const Bag &b) { Bag o; for (auto &x : a) for (auto &y : b) if (compatible(x, y)) { o.push_back(merged(x, y)); if (o.size() > 200000) return o; } return o; }
static long num(const Str &t) { return atol(t.c_str() + 1); }
static Str val(const Expr &e, const SRow &r) { if (e.op != "var") return e.v; auto it = r.find(e.v); return it == r.end() ? Str() : it->second; }
static bool holds(const Expr &e, const SRow &r) {
    if (e.op == "&&") return holds(e.a[0], r) && holds(e.a[1], r);
    if (e.op == "||") return holds(e.a[0], r) || holds(e.a[1], r);
    if (e.op == "!") return !holds(e.a[0], r);
    if (e.op == "bound") return r.count(e.a[0].v);
    Str x = val(e.a[0], r), y = e.a.size() > 1 ? val(e.a[1], r) : Str();
    if (e.op == "=" || e.op == "sameTerm") return x == y;
    if (e.op == "!=") return x != y;
    if (e.op == "<") return num(x) < num(y);
    if (e.op == "<=") return num(x) <= num(y);
    if (e.op == ">") return num(x) > num(y);
    if (e.op == ">=") return num(x) >= num(y);
    if (e.op == "isIRI") return x[0] == '<';
    if (e.op == "isLITERAL") return x[0] == '"';
    if (e.op == "contains" || e.op == "regex") return x.find(y.substr(1, y.size() - 2)) != Str::npos;
    abort();
}
static void proj(SRow &r, const std::vector<Str> &vars) { SRow q; for (auto &v : vars) { auto it = r.find(v); if (it != r.end()) q[v] = it->second; } r = q; }
static Bag eval(const Grp &g) {
    Bag b; bgp(g.pats, 0, SRow(), b);
    for (auto &u : g.unions) { Bag x; for (auto &p : u) { Bag y = eval(*p); x.insert(x.end(), y.begin(), y.end()); } b = join(b, x); }
    for (auto &v : g.vals) { Bag x; for (auto &row : v.rows) { SRow r; for (size_t i = 0; i < row.size(); ++i) r[v.vars[i]] = row[i]; x.push_back(r); } b = join(b, x); }
    for (auto &s : g.subs) { Bag x = eval(*s.g); for (auto &r : x) proj(r, s.vars); if (s.distinct) { std::set<SRow, SRowLess> d(x.begin(), x.end()); x.assign(d.begin(), d.end()); } b = join(b, x); }
    for (auto &o : g.opts) {
        Grp og = *o; std::vector<Expr> f; f.swap(og.filters); Bag x = eval(og), res;
        for (auto &l : b) { bool any = false; for (auto &r : x) if (compatible(l, r)) { SRow m = merged(l, r); bool ok = true; for (auto &e : f) ok = ok && holds(e, m); if (ok) { any = true; res.push_back(m); } } if (!any) res.push_back(l); }
        b.swap(res);
    }
    for (auto &m : g.minus) { Bag x = eval(*m), res; for (auto &l : b) { bool gone = false; for (auto &r : x) { bool sh = false; if (compatible(l, r, &sh) && sh) gone = true; } if (!gone) res.push_back(l); } b.swap(res); }
    for (auto &m : g.notex) { Bag x = eval(*m), res; for (auto &l : b) { bool gone = false; for (auto &r : x) if (compatible(l, r)) gone = true; if (!gone) res.push_back(l); } b.swap(res); }
    for (auto &e : g.filters) { Bag res; for (auto &l : b) if (holds(e, l)) res.push_back(l); b.swap(res); }
    return b;
}
// ---- generation ----
struct Gen {
    Rng &r; std::vector<Str> nodes, props, ints, names, classes; int nv = 0; bool ask(const char *f, int pc) { return !off(f) && r.chance(pc); }
    static bool off(const char *f) { auto &o = vf::st().opts; auto it = o.find("no"); return it != o.end() && ("," + it->second + ",").find(Str(",") + f + ",") != Str::npos; }
    Gen(Rng &r) : r(r) {}
    std::map<Str, char> kind; // n node, i integer, s name, c class, p property
    Str fresh(char k) { static const char *nm[] = { "x", "y", "z", "person", "a1", "B", "_v", "limitx", "s", "where1" }; Str v = Str("?") + nm[nv % 10] + (nv >= 10 ? std::to_string(nv) : ""); ++nv; kind[v] = k; return v; }
    Str term(char k) { return k == 'n' ? (r.chance(3) ? Str("<http://ex.org/unknown>") : r.pick(nodes)) : k == 'i' ? r.pick(ints) : k == 's' ? r.pick(names) : k == 'c' ? r.pick(classes) : r.pick(props); }
    // a variable of a kind: an existing one of `vis` or a new one, which is added
    Str var(char k, std::vector<Str> &vis, int pFresh) { std::vector<Str> c; for (auto &v : vis) if (kind[v] == k) c.push_back(v); if (!c.empty() && !r.chance(pFresh)) return r.pick(c); Str v = fresh(k); vis.push_back(v); return v; }
    Str obj(char k, std::vector<Str> &vis, int pFresh) { return r.chance(25) ? term(k) : var(k, vis, pFresh); }
    TP pat(std::vector<Str> &vis, bool connected) {
        TP p; Str s;
        std::vector<Str> ns; for (auto &v : vis) if (kind[v] == 'n') ns.push_back(v);
        bool viaObj = false;
        if (connected && !ns.empty()) { if (r.chance(70)) s = r.pick(ns); else viaObj = true; }
        else s = r.chance(20) ? term('n') : var('n', vis, 60);
        int w = viaObj ? 0 : r.below(10);
        if (w < 5) { p.t[1] = r.chance(6) ? Str("<http://ex.org/nop>") : r.pick(props); p.t[2] = viaObj ? r.pick(ns) : obj('n', vis, 60); }
        else if (w < 7) { p.t[1] = "<http://ex.org/age>"; p.t[2] = obj('i', vis, 70); }
        else if (w < 8) { p.t[1] = "<http://ex.org/name>"; p.t[2] = obj('s', vis, 70); }
        else if (w < 9) { p.t[1] = RDFT; p.t[2] = obj('c', vis, 70); }
        else { p.t[1] = var('p', vis, 80); p.t[2] = r.chance(50) ? term('n') : var('n', vis, 60); }
        if (viaObj) s = r.chance(20) ? term('n') : var('n', vis, 60);
        p.t[0] = s;
        return p;
    }
    Expr leaf(const Str &v) { Expr e; e.op = isVar(v) ? "var" : "const"; e.v = v; return e; }
    Expr atom(const std::vector<Str> &vis, const std::vector<Str> &maybe) {
        Expr e;
        if (!maybe.empty() && ask("bound", 25)) { e.op = "bound"; e.a = { leaf(r.pick(maybe)) }; return e; }
        Str v = r.pick(vis); char k = kind[v]; std::vector<Str> same; for (auto &x : vis) if (kind[x] == k) same.push_back(x);
        Str o = r.chance(50) ? r.pick(same) : term(k);
        if (k == 'i' && r.chance(70)) { static const char *c[] = { "<", "<=", ">", ">=" }; e.op = c[r.below(4)]; if (r.chance(30)) std::swap(v, o); }
        else if (ask("is", 15)) { e.op = r.chance(50) ? "isIRI" : "isLITERAL"; e.a = { leaf(v) }; return e; }
        else if (k == 's' && ask("text", 50)) { e.op = "contains"; Str n = r.pick(names); n = n.substr(1, n.size() - 2); e.a = { leaf(v), leaf("\"" + n.substr(r.below(n.size()), 1 + r.below(3)) + "\"") }; return e; }
        else e.op = r.chance(50) ? "=" : r.chance(80) ? "!=" : "sameTerm";
        e.a = { leaf(v), leaf(o) };
        return e;
    }
    Expr expr(const std::vector<Str> &vis, const std::vector<Str> &maybe, int d) {
        if (d > 0 && r.chance(40)) { Expr e; int w = r.below(3); e.op = w == 0 ? "&&" : w == 1 ? "||" : "!"; e.a.push_back(expr(vis, maybe, d - 1)); if (w < 2) e.a.push_back(expr(vis, maybe, d - 1)); return e; }
        return atom(vis, maybe);
    }
    // vis: variables certainly bound after the group; maybe: bound in optional parts
    GP group(std::vector<Str> &vis, std::vector<Str> &maybe, int depth, int npat) {
        GP g(new Grp);
        for (int i = 0; i < npat; ++i) g->pats.push_back(pat(vis, i > 0 || !vis.empty()));
        if (depth > 0 && ask("union", 15)) { // all branches bind the same new variables
            std::vector<Str> ns; for (auto &v : vis) if (kind[v] == 'n') ns.push_back(v);
            if (!ns.empty()) { Str s = r.pick(ns), o = r.chance(60) ? fresh('n') : r.pick(ns); std::vector<GP> u; int n = 2 + r.below(2); for (int i = 0; i < n; ++i) { GP b(new Grp); TP p; bool rev = r.chance(30); p.t[0] = rev ? o : s; p.t[1] = r.pick(props); p.t[2] = rev ? s : o; b->pats.push_back(p); if (r.chance(25)) { TP q; q.t[0] = s; q.t[1] = RDFT; q.t[2] = r.pick(classes); b->pats.push_back(q); } u.push_back(b); }
                g->unions.push_back(u); if (std::find(vis.begin(), vis.end(), o) == vis.end()) vis.push_back(o); }
        }
        if (depth > 0 && !vis.empty() && ask("values", 12)) {
            Vals w; w.vars = { r.pick(vis) }; Str v2 = r.pick(vis); if (v2 != w.vars[0] && r.chance(40)) w.vars.push_back(v2);
            std::set<Str> in; int n = 1 + r.below(4); for (int i = 0; i < n; ++i) { std::vector<Str> row; Str k; for (auto &v : w.vars) { row.push_back(term(kind[v])); k += row.back() + " "; } if (in.insert(k).second) w.rows.push_back(row); }
            g->vals.push_back(w); }
        if (depth > 0 && ask("sub", 12)) {
            Sub s; std::vector<Str> sv, m; std::vector<Str> ns; for (auto &v : vis) if (kind[v] == 'n') ns.push_back(v);
            if (!ns.empty()) { Str x = r.pick(ns); sv = { x }; std::vector<Str> m2; s.g = group(sv, m2, 0, 1 + r.below(2)); bool has = false; for (auto &p : s.g->pats) for (auto &t : p.t) if (t == x) has = true;
                if (has) { s.vars = { x }; for (auto &v : sv) if (v != x && r.chance(50)) { s.vars.push_back(v); vis.push_back(v); } s.distinct = r.chance(40); g->subs.push_back(s); } }
        }
        std::vector<Str> before = vis;
        if (depth > 0) for (int i = 0; i < 2; ++i) if (ask("optional", 18)) {
            std::vector<Str> ov = before, om; size_t n0 = ov.size(); GP o = group(ov, om, depth > 1 && ask("nestopt", 20) ? 1 : 0, 1 + r.below(2));
            o->vals.clear(); o->subs.clear(); o->minus.clear(); o->notex.clear();
            { // well-designed patterns only: a variable of a nested OPTIONAL that also occurs outside has to occur in the group around it
                std::set<Str> own; for (auto &p : o->pats) for (auto &t : p.t) own.insert(t); for (auto &u : o->unions) for (auto &b : u) for (auto &p : b->pats) for (auto &t : p.t) own.insert(t);
                std::vector<GP> keep; for (auto &n : o->opts) { bool ok = true; auto see = [&](const Str &t) { if (!own.count(t) && std::find(before.begin(), before.end(), t) != before.end()) ok = false; };
                    for (auto &p : n->pats) for (auto &t : p.t) see(t); if (ok) keep.push_back(n); } o->opts = keep; }
            if (ask("optfilter", 20)) { std::vector<Str> inner; for (auto &p : o->pats) for (auto &t : p.t) if (t[0] == '?') inner.push_back(t); if (!inner.empty()) o->filters.push_back(expr(inner, {}, 1)); }
            g->opts.push_back(o); maybe.insert(maybe.end(), ov.begin() + n0, ov.end()); maybe.insert(maybe.end(), om.begin(), om.end());
        }
        if (depth > 0 && ask("minus", 10)) { std::vector<Str> mv = vis, m; GP x = group(mv, m, 0, 1 + r.below(2)); bool sh = false; for (auto &p : x->pats) for (auto &t : p.t) if (std::find(vis.begin(), vis.end(), t) != vis.end()) sh = true; if (sh) g->minus.push_back(x); }
        if (depth > 0 && ask("notexists", 10)) { std::vector<Str> mv = vis, m; GP x = group(mv, m, 0, 1 + r.below(2)); bool sh = false; for (auto &p : x->pats) for (auto &t : p.t) if (std::find(vis.begin(), vis.end(), t) != vis.end()) sh = true; if (sh) g->notex.push_back(x); }
        if (!vis.empty() && ask("filter", depth > 0 ? 40 : 15)) { std::vector<Str> fv; if (depth > 1) fv = vis; else { for (auto &p : g->pats) for (auto &t : p.t) if (t[0] == '?') fv.push_back(t); } if (!fv.empty()) g->filters.push_back(expr(fv, depth > 1 ? maybe : std::vector<Str>(), 2)); }
        return g;
    }
    // ---- text ----
    bool pfx, base;
    Str sp() { return r.chance(6) ? "\n" : r.chance(3) ? " # comment { ?x\n " : r.chance(5) ? "  " : " "; }
    Str T(const Str &t, int place) {
        if (t[0] == '?') return r.chance(15) ? "$" + t.substr(1) : t;
        if (t == RDFT && place == 1 && r.chance(60)) return "a";
        if (t[0] == '<' && pfx && t.compare(0, 15, "<http://ex.org/") == 0 && r.chance(70)) return "ex:" + t.substr(15, t.size() - 16);
        size_t k = t.find("\"^^<");
        if (k != Str::npos && xsd && r.chance(50)) return t.substr(0, k + 1) + "^^xsd:integer";
        return t;
    }
    bool xsd = false;
    Str E(const Expr &e) {
        if (e.op == "var") return e.v;
        if (e.op == "const") { size_t k = e.v.find("\"^^<"); if (k != Str::npos && r.chance(60) && e.v[1] != '-') return e.v.substr(1, k - 1); return T(e.v, 3); }
        if (e.op == "!") return "!(" + E(e.a[0]) + ")";
        if (e.op == "bound") return (r.chance(50) ? "BOUND(" : "bound(") + e.a[0].v + ")";
        if (e.op == "isIRI" || e.op == "isLITERAL") return e.op + "(" + E(e.a[0]) + ")";
        if (e.op == "contains" || e.op == "regex" || e.op == "sameTerm") return e.op + "(" + E(e.a[0]) + sp() + "," + sp() + E(e.a[1]) + ")";
        if (e.op == "&&" || e.op == "||") return "(" + E(e.a[0]) + ")" + sp() + e.op + sp() + "(" + E(e.a[1]) + ")";
        return E(e.a[0]) + sp() + e.op + sp() + E(e.a[1]);
    }
    Str F(const Expr &e) { return Str(r.chance(50) ? "FILTER" : "filter") + sp() + "(" + E(e) + ")"; }
    Str G(const Grp &g) {
        Str o = "{" + sp(); std::vector<Str> early; std::vector<Str> late;
        for (size_t i = 0; i < g.pats.size(); ++i) {
            auto &p = g.pats[i];
            o += T(p.t[0], 0) + sp() + T(p.t[1], 1) + sp() + T(p.t[2], 2);
            while (i + 1 < g.pats.size() && g.pats[i + 1].t[0] == g.pats[i].t[0] && r.chance(50)) { ++i; if (g.pats[i].t[1] == g.pats[i - 1].t[1]) o += " ," + sp() + T(g.pats[i].t[2], 2); else o += " ;" + sp() + T(g.pats[i].t[1], 1) + sp() + T(g.pats[i].t[2], 2); }
            o += i + 1 < g.pats.size() || r.chance(40) ? " ." + sp() : sp();
        }
        for (auto &v : g.vals) {
            o += "VALUES" + sp(); bool par = v.vars.size() > 1 || r.chance(50); Str vs; for (auto &x : v.vars) vs += (vs.empty() ? "" : " ") + x; o += par ? "(" + vs + ")" : vs; o += " {";
            for (auto &x : v.rows) { Str t; for (auto &y : x) t += (t.empty() ? "" : " ") + T(y, 3); o += par ? " (" + t + ")" : " " + t; } o += " }" + sp(); }
        for (auto &u : g.unions) { for (size_t i = 0; i < u.size(); ++i) o += (i ? Str(r.chance(50) ? " UNION" : " union") + sp() : Str()) + G(*u[i]); o += r.chance(40) ? " ." + sp() : sp(); }
        for (auto &s : g.subs) { o += "{ SELECT" + sp() + (s.distinct ? "DISTINCT " : ""); for (auto &v : s.vars) o += v + " "; o += (r.chance(50) ? "WHERE " : "") + G(*s.g) + " }" + sp(); }
        bool ff = r.chance(50); if (ff) for (auto &e : g.filters) o += F(e) + sp();
        for (auto &x : g.opts) o += Str(r.chance(50) ? "OPTIONAL" : "optional") + sp() + G(*x) + sp();
        for (auto &x : g.minus) o += "MINUS" + sp() + G(*x) + sp();
        for (auto &x : g.notex) o += "FILTER" + sp() + "NOT" + sp() + "EXISTS" + sp() + G(*x) + sp();
        if (!ff) for (auto &e : g.filters) o += F(e) + sp();
        return o + "}";
    }
};
static Str key(const SRow &r, const std::vector<Str> &vars) { Str k; for (auto &v : vars) { auto it = r.find(v); k += (it == r.end() ? Str("-") : it->second) + "|"; } return k; }
static void runQuery(TridentLayer &layer, KB &kb, const Str &q, JSON &vars, JSON &rows, JSON &stats) {
    std::ostringstream so, se; auto *o = std::cout.rdbuf(so.rdbuf()); auto *e = std::cerr.rdbuf(se.rdbuf());
    struct Back { std::streambuf *o, *e; ~Back() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } } back{ o, e };
    SPARQLUtils::execSPARQLQuery(q, false, kb.getNTerms(), layer, false, true, &vars, &rows, &stats);
    if (se.str().find("error") != Str::npos) throw std::runtime_error(se.str());
}
static void oneCase(Rng &r) {
    Str in = vf::freshDir("in"), kbd = vf::freshDir("kb") + "/kb";
    Gen gen(r); int nn = 3 + r.below(12), np = 1 + r.below(4);
    for (int i = 0; i < nn; ++i) gen.nodes.push_back(vf::fmt("<http://ex.org/n%d>", i));
    for (int i = 0; i < np; ++i) gen.props.push_back(vf::fmt("<http://ex.org/p%d>", i));
    for (int i = 0; i < 3; ++i) gen.classes.push_back(vf::fmt("<http://ex.org/C%d>", i));
    for (int i = 0; i < 6; ++i) gen.ints.push_back(vf::fmt("\"%d\"^^<%sinteger>", i < 4 ? (int) r.below(20) : (int) r.below(2000), XSD.c_str()));
    static const char *w[] = { "\"ann\"", "\"bob\"", "\"anna maria\"", "\"Zoe\"", "\"x\"", "\"carol b\"" };
    for (auto x : w) gen.names.push_back(x);
    std::vector<StrT> v; int n = r.chance(10) ? 1 : 5 + r.below(r.chance(20) ? 250 : 60);
    auto add = [&](const Str &s, const Str &p, const Str &o) { StrT t; t.s = s; t.p = p; t.o = o; v.push_back(t); };
    for (int i = 0; i < n; ++i) add(r.pick(gen.nodes), r.pick(gen.props), r.pick(gen.nodes));
    for (auto &x : gen.nodes) { if (r.chance(60)) add(x, "<http://ex.org/age>", r.pick(gen.ints)); if (r.chance(60)) add(x, "<http://ex.org/name>", r.pick(gen.names)); if (r.chance(50)) add(x, RDFT, r.pick(gen.classes)); if (r.chance(10)) add(x, "<http://ex.org/age>", r.pick(gen.ints)); }
    StrSet db(v.begin(), v.end()); DB = &db;
    writeNT(in, v, 1 + r.below(2));
    ParamsLoad p = r.chance(50) ? baseParams(in, kbd) : randParams(r, in, kbd); p.aggrIndices = false; if (p.nindices < 3) p.nindices = 6; p.sample = true; p.sampleRate = r.chance(50) ? 0.01 : r.chance(50) ? 1.0 : 0.1 + 0.8 * r.real();
    loadKB(p);
    KBConfig cfg; KB kb(kbd.c_str(), true, false, true, cfg);
    TridentLayer layer(kb);
    if (r.chance(50)) layer.disableBifocalSampling();
    int nq = vf::st().tier == "thorough" ? 60 : 30;
    for (int qi = 0; qi < nq; ++qi) {
        gen.nv = 0; gen.kind.clear(); gen.pfx = r.chance(60); gen.xsd = r.chance(40);
        std::vector<Str> vis, maybe; GP g = gen.group(vis, maybe, 2, 1 + r.below(4));
        // not decided: variables of an optional part used outside of it (not generated), a group without variables
        if (vis.empty()) continue;
        Bag ref = eval(*g); if (ref.size() > 3000) { vf::add("too_many"); continue; }
        std::vector<Str> all = vis; all.insert(all.end(), maybe.begin(), maybe.end()); std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
        bool star = gen.ask("star", 25), distinct = gen.ask("distinct", 25); std::vector<Str> prj;
        if (star) { prj = all; } else { auto c = all; r.shuffle(c); c.resize(1 + r.below(c.size())); prj = c; }
        Str q; if (gen.pfx) q += "PREFIX ex: <http://ex.org/>" + gen.sp(); if (gen.xsd) q += "prefix xsd: <" + XSD + ">\n";
        q += Str(r.chance(50) ? "SELECT" : "select") + gen.sp() + (distinct ? "DISTINCT " : ""); if (star) q += "*"; else for (auto &x : prj) q += x + " ";
        q += gen.sp() + (r.chance(70) ? "WHERE" : r.chance(50) ? "where" : "") + gen.sp() + gen.G(*g);
        Str ordv; bool desc = false;
        if (gen.ask("order", 15)) { for (auto &x : prj) if (gen.kind[x] == 'i' && std::find(vis.begin(), vis.end(), x) != vis.end()) ordv = x; if (!ordv.empty()) { desc = r.chance(40); q += " ORDER BY " + (desc ? "DESC(" + ordv + ")" : r.chance(50) ? "ASC(" + ordv + ")" : ordv); } }
        long limit = -1, offset = 0;
        if (gen.ask("limit", 15)) { limit = 1 + r.below(r.chance(50) ? 5 : 200); q += vf::fmt(" LIMIT %ld", limit); }
        if (gen.ask("offset", 8)) { offset = r.below(r.chance(50) ? 5 : 100); q += vf::fmt(" OFFSET %ld", offset); }
        for (auto &x : ref) proj(x, prj);
        if (distinct) { std::set<SRow, SRowLess> d(ref.begin(), ref.end()); ref.assign(d.begin(), d.end()); }
        std::map<Str, int> exp; for (auto &x : ref) exp[key(x, prj)]++;
        Str shape = vf::fmt("p%zuo%zuu%zum%zun%zuv%zus%zuf%zu %d%d%d%d", g->pats.size(), g->opts.size(), g->unions.size(), g->minus.size(), g->notex.size(), g->vals.size(), g->subs.size(), g->filters.size(), star, distinct, limit > 0, offset > 0);
        JSON vars, rows, stats;
        if (vf::st().opts.count("show")) printf("%s\n", q.c_str());
        Str where = shape + " | ";
        for (char c : q) where += c == '\n' ? Str("\\n") : Str(1, c);
        try { runQuery(layer, kb, q, vars, rows, stats); }
        catch (std::exception &e) { vf::violation("sparql:error", where + " -> " + e.what()); continue; }
        catch (int e) { vf::violation("sparql:throw", where + vf::fmt(" -> %d", e)); continue; }
        std::map<Str, int> got; size_t total = 0; std::vector<long> ord;
        for (auto &jr : rows.getListChildren()) {
            JSON row = jr; SRow m;
            for (auto &x : prj) { Str nm = x.substr(1); if (!row.containsChild(nm)) continue; JSON b = row.getChild(nm); Str ty = b.contains("type") ? b.get("type") : "", vl = b.contains("value") ? b.get("value") : ""; if (ty == "uri") m[x] = "<" + vl + ">"; else if (vl != "NULL") m[x] = vl; }
            got[key(m, prj)]++; ++total; if (!ordv.empty() && m.count(ordv)) ord.push_back(num(m[ordv]));
        }
        vf::add("queries"); vf::add("rows", total); if (!ref.empty()) vf::add("nonempty"); if (limit > 0) vf::add("limits");
        for (auto &x : { std::make_pair("optional", g->opts.size()), std::make_pair("union", g->unions.size()), std::make_pair("minus", g->minus.size()), std::make_pair("notexists", g->notex.size()), std::make_pair("values", g->vals.size()), std::make_pair("subselect", g->subs.size()), std::make_pair("filter", g->filters.size()) }) if (x.second) vf::add(x.first);
        size_t expTotal = ref.size() > (size_t) offset ? ref.size() - offset : 0; if (limit > 0) expTotal = std::min<size_t>(expTotal, limit);
        Str bad;
        if (limit < 0 && offset == 0) { for (auto &x : exp) if (got[x.first] != x.second && bad.empty()) bad = vf::fmt("row %s: %d times, expected %d", x.first.c_str(), got[x.first], x.second); }
        for (auto &x : got) if (bad.empty() && x.second > exp[x.first]) bad = vf::fmt("row %s: %d times, expected %d", x.first.c_str(), x.second, exp[x.first]);
        if (bad.empty() && total != expTotal) bad = vf::fmt("%zu rows, expected %zu", total, expTotal);
        if (bad.empty() && !ordv.empty()) { for (size_t i = 1; i < ord.size(); ++i) if (desc ? ord[i - 1] < ord[i] : ord[i - 1] > ord[i]) bad = vf::fmt("not in order: %ld before %ld", ord[i - 1], ord[i]);
            if (bad.empty() && (limit > 0 || offset)) { std::vector<long> f; for (auto &x : ref) f.push_back(num(x[ordv])); std::sort(f.begin(), f.end()); if (desc) std::reverse(f.begin(), f.end()); f.erase(f.begin(), f.begin() + std::min<size_t>(offset, f.size())); if (limit > 0 && f.size() > (size_t) limit) f.resize(limit); if (f != ord) bad = "the ordered page has other values"; } }
        if (!bad.empty()) vf::violation("sparql:rows:" + shape.substr(0, shape.find(' ')), where + " -> " + bad);
        vf::distinct(vf::hashStr(shape)); if (qi == 0) vf::sample(where);
        if (vf::st().violations > 3) return;
    }
}
int main(int argc, char **argv) { return vf::run(argc, argv, [](Rng &r, uint64_t) { oneCase(r); }); }
