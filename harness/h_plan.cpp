// Query graphs, join planning and code generation: random queries over a small in-memory store, planned with
// arbitrary cost estimates; the rows the plan produces are compared with an evaluation of the query by definition.
#include "common.h"
#include "memdb.h"
#include "cts/codegen/CodeGen.hpp"
#include "cts/infra/QueryGraph.hpp"
#include "cts/infra/BitSet.hpp"
#include "cts/plangen/Plan.hpp"
#include "cts/plangen/PlanGen.hpp"
#include "rts/operator/Operator.hpp"
#include "rts/operator/PlanPrinter.hpp"
#include "rts/runtime/Runtime.hpp"
#include "rts/runtime/DomainDescription.hpp"
#include <iostream>
using namespace std;
typedef vector<u64> Row;
typedef map<Row, u64> Bag;
typedef QueryGraph::Filter F;
static const u64 NUL = UINT64_MAX;

struct PlanDB : public MemDB {
    int mode = 0; u64 salt = 0;
    double cost(int o, u64 a, u64 b, u64 c, int n) {
        switch (mode) {
            case 0: return 1;
            case 1: { double k = (double) getCardinality(); return 285 + 17 * k / (1 + (a != NUL) + (b != NUL)) * (n == 3 ? 1 : 0.5) * (o >= 6 ? 0.8 : 1); }
            case 2: return (double) (vf::mix(vf::mix(salt, o * 4 + n), vf::mix(a, vf::mix(b, c))) % 1000);
            case 3: return (double) (vf::mix(vf::mix(salt, o * 4 + n), vf::mix(a, vf::mix(b, c))) % 3000000);
            default: return o >= 6 ? 1 : 1e7 + (double) (vf::mix(salt, o) % 100);
        }
    }
    double getScanCost(DataOrder o, u64 v1, u64 c1, u64 v2, u64 c2, u64 v3, u64 c3) { (void) v1; (void) v2; (void) v3; return cost(o, c1, c2, c3, 3); }
    double getScanCost(DataOrder o, u64 v1, u64 c1, u64 v2, u64 c2) { (void) v1; (void) v2; return cost(o, c1, c2, NUL, 2); }
    double getScanCost(DataOrder o, u64 v1, u64 c1) { (void) v1; return cost(o, c1, NUL, NUL, 1); }
    double getJoinSelectivity(bool a, u64 x1, bool b, u64 x2, bool c, u64 x3, bool d, u64 y1, bool e, u64 y2, bool f, u64 y3) {
        if (mode == 0) return 1;
        return (double) (vf::mix(salt, vf::mix(a + 2 * b + 4 * c + 8 * d + 16 * e + 32 * f, vf::mix(x1 ^ y1, vf::mix(x2 ^ y2, x3 ^ y3)))) % 1000) / 1000.0;
    }
    u64 getCardinality(u64 s, u64 p, u64 o) {
        if (mode == 0) return 1;
        if (mode >= 2) return vf::mix(salt + 1, vf::mix(s, vf::mix(p, o))) % (mode == 2 ? 50 : 5000);
        u64 n = 0; for (auto &t : spo) n += (s == NUL || t[0] == s) && (p == NUL || t[1] == p) && (o == NUL || t[2] == o);
        return n;
    }
    u64 getCardinality() { return spo.size(); }
};

// ---------------- evaluation by definition ----------------
struct Too {};
struct Ref {
    PlanDB &db; unsigned V; size_t cap = 6000; u64 maxCount = 100000000;
    Ref(PlanDB &d, unsigned v) : db(d), V(v) {}
    static bool compat(const Row &a, const Row &b) { for (size_t i = 0; i < a.size(); ++i) if (a[i] != NUL && b[i] != NUL && a[i] != b[i]) return false; return true; }
    static Row merge(const Row &a, const Row &b) { Row r = a; for (size_t i = 0; i < a.size(); ++i) if (r[i] == NUL) r[i] = b[i]; return r; }
    void chk(const Bag &b) { if (b.size() > cap) throw Too(); for (auto &x : b) if (x.second > maxCount) throw Too(); }
    Bag join(const Bag &a, const Bag &b) {
        Bag r; if (a.size() * b.size() > 4000000) throw Too();
        for (auto &x : a) for (auto &y : b) if (compat(x.first, y.first)) { r[merge(x.first, y.first)] += x.second * y.second; }
        chk(r); return r;
    }
    Bag left(const Bag &a, const Bag &b) {
        Bag r; if (a.size() * b.size() > 4000000) throw Too();
        for (auto &x : a) { bool any = false; for (auto &y : b) if (compat(x.first, y.first)) { any = true; r[merge(x.first, y.first)] += x.second * y.second; } if (!any) r[x.first] += x.second; }
        chk(r); return r;
    }
    Bag scan(const QueryGraph::Node &n) {
        Bag r; bool c[3] = {n.constSubject, n.constPredicate, n.constObject}; u64 v[3] = {n.subject, n.predicate, n.object};
        for (auto &t : db.spo) {
            Row x(V, NUL); bool ok = true;
            for (int i = 0; i < 3 && ok; ++i) { if (c[i]) ok = t[i] == v[i]; else { if (x[v[i]] != NUL && x[v[i]] != t[i]) ok = false; x[v[i]] = t[i]; } }
            if (ok) r[x] += 1;
        }
        return r;
    }
    // -1 error, 0, 1
    int test(const F &f, const Row &x) {
        switch (f.type) {
            case F::And: { int a = test(*f.arg1, x), b = test(*f.arg2, x); return !a || !b ? 0 : (a < 0 || b < 0) ? -1 : 1; }
            case F::Or: { int a = test(*f.arg1, x), b = test(*f.arg2, x); return a > 0 || b > 0 ? 1 : (a < 0 || b < 0) ? -1 : 0; }
            case F::Not: { int a = test(*f.arg1, x); return a < 0 ? -1 : !a; }
            case F::Equal: case F::NotEqual: case F::Builtin_sameterm: {
                u64 a = val(*f.arg1, x), b = val(*f.arg2, x);
                if (a == NUL || b == NUL) return -1;
                return (a == b) == (f.type != F::NotEqual);
            }
            case F::Builtin_in: {
                u64 a = val(*f.arg1, x); if (a == NUL) return -1;
                for (F *l = f.arg2; l; l = l->arg2) if (val(*l->arg1, x) == a) return 1;
                return 0;
            }
            case F::Builtin_bound: return x[f.arg1->id] != NUL;
            case F::Builtin_notexists: {
                Bag b = f.subpattern ? group(*f.subpattern) : query(*f.subquery);
                for (auto &y : b) if (compat(x, y.first)) return 0;
                return 1;
            }
            default: abort();
        }
    }
    u64 val(const F &f, const Row &x) { return f.type == F::Variable ? x[f.id] : f.id; }
    Bag group(const QueryGraph::SubQuery &q) {
        Bag r; r[Row(V, NUL)] = 1;
        for (auto &n : q.nodes) r = join(r, scan(n));
        for (auto &v : q.valueNodes) {
            Bag b; size_t w = v.variables.size();
            for (size_t i = 0; i + w <= v.values.size(); i += w) { Row x(V, NUL); for (size_t j = 0; j < w; ++j) x[v.variables[j]] = v.values[i + j]; b[x] += 1; }
            r = join(r, b);
        }
        for (auto &u : q.unions) { Bag b; for (auto &p : u) for (auto &x : group(p)) b[x.first] += x.second; chk(b); r = join(r, b); }
        for (auto &s : q.subqueries) r = join(r, query(*s));
        for (auto &o : q.optional) r = left(r, group(o));
        for (auto &t : q.tableFunctions) {
            Bag b; for (auto &x : r) { Row y = x.first; y[t.output[0]] = ~t.input[0].id ? x.first[t.input[0].id] : t.input[0].idvalue; b[y] += x.second; }
            r = b;
        }
        { Bag b; for (auto &x : r) { bool ok = true; for (auto &f : q.filters) if (test(f, x.first) <= 0) { ok = false; break; } if (ok) b.insert(x); } r = b; }
        for (auto &m : q.minuses) {
            Bag mb = query(*m), b;
            for (auto &x : r) {
                bool drop = false;
                for (auto &y : mb) { if (!compat(x.first, y.first)) continue; bool share = false; for (unsigned i = 0; i < V; ++i) if (x.first[i] != NUL && y.first[i] != NUL) share = true; if (share) { drop = true; break; } }
                if (!drop) b.insert(x);
            }
            r = b;
        }
        return r;
    }
    // rows over all variables; projected ones only, if there is a projection
    Bag query(const QueryGraph &q) {
        Bag r = group(q.getQuery());
        if (q.projectionBegin() == q.projectionEnd()) return r;
        Bag b; for (auto &x : r) { Row y(V, NUL); for (auto i = q.projectionBegin(); i != q.projectionEnd(); ++i) y[*i] = x.first[*i]; b[y] += x.second; }
        if (q.getDuplicateHandling() == QueryGraph::NoDuplicates) for (auto &x : b) x.second = 1;
        return b;
    }
};

// ---------------- generation ----------------
enum { VALUES = 1, UNION = 2, OPTIONAL = 4, MINUS = 8, NOTEXISTS = 16, FILTER = 32, BIND = 64, SUBSELECT = 128, NESTED = 256, CROSS = 512, REPEAT = 1024, NOPATTERN = 2048 };
struct Gen {
    vf::Rng &r; PlanDB db; unsigned V = 0; vector<u64> vals; int feat; string txt;
    bool loose; // few constants over dense data: most queries have many answers
    Gen(vf::Rng &r, int feat, bool loose = false) : r(r), feat(feat), loose(loose) {
        db.mode = r.below(5); db.salt = r.next();
        size_t n = loose ? 2 + r.below(3) : 1 + r.below(r.chance(50) ? 4 : 9);
        u64 far = r.chance(60) ? 1 + r.below(1u << 30) : 1; // one window of ids: Filter visits every id between its constants
        set<u64> vs; while (vs.size() < n) vs.insert(far > 1 ? far + r.below(r.chance(70) ? 20 : 3000) : 100 + r.below(r.chance(70) ? 20 : 3000));
        vals.assign(vs.begin(), vs.end());
        set<array<u64, 3>> t; size_t nt = r.chance(5) ? 0 : loose ? 4 + r.below(14) : 1 + r.below(r.chance(50) ? 8 : 40);
        for (size_t i = 0; i < nt; ++i) t.insert({{r.pick(vals), r.pick(vals), r.pick(vals)}});
        db.spo.assign(t.begin(), t.end());
        for (u64 v : vals) db.text[v] = "<http://x/" + to_string(v) + ">";
        db.hintMode = r.below(3);
    }
    bool on(int f, int pct) { return (feat & f) && r.chance(pct); }
    unsigned fresh() { return V++; }
    u64 cst() { return r.chance(93) ? r.pick(vals) : r.pick(vals) + 1; }
    static string vs(unsigned v) { return "?" + to_string(v); }
    // patterns that bind every variable of J; certain: what the group binds in every solution
    void patterns(QueryGraph::SubQuery &q, const set<unsigned> &J, set<unsigned> &certain, int extra) {
        vector<unsigned> todo(J.begin(), J.end()), pool = todo; r.shuffle(todo);
        unsigned nf = r.below(3); for (unsigned i = 0; i < nf; ++i) pool.push_back(fresh());
        if (pool.empty()) pool.push_back(fresh());
        unsigned nn = max<unsigned>(1, (todo.size() + 2) / 3) + extra;
        set<unsigned> have;
        for (unsigned k = 0; k < nn || !todo.empty(); ++k) {
            QueryGraph::Node n; n.additionalData = 0; u64 v[3]; bool c[3]; set<unsigned> mine; string s;
            bool linked = have.empty() || (feat & CROSS && r.chance(20));
            for (int i = 0; i < 3; ++i) {
                int w = r.below(10);
                c[i] = false;
                if (!todo.empty() && w < 4) { v[i] = todo.back(); todo.pop_back(); }
                else if (loose ? r.chance(i == 1 ? 60 : 20) : i == 1 ? w < 8 : w < 5) { c[i] = true; v[i] = cst(); }
                else if (!have.empty() && w < 7) { vector<unsigned> h(have.begin(), have.end()); v[i] = r.pick(h); }
                else v[i] = r.pick(pool);
                if (!c[i] && mine.count(v[i]) && !(feat & REPEAT)) { c[i] = true; v[i] = cst(); }
                if (!c[i]) { if (have.count(v[i])) linked = true; mine.insert(v[i]); }
            }
            if (!linked) { // connect it
                vector<unsigned> h(have.begin(), have.end()); int i = r.below(3); unsigned hv = r.pick(h);
                if (!c[i]) { unsigned old = v[i]; bool again = false; for (int j = 0; j < 3; ++j) if (j != i && !c[j] && v[j] == old) again = true; if (!again) { mine.erase(old); if (J.count(old) && !have.count(old)) todo.push_back(old); } }
                c[i] = false; v[i] = hv; mine.insert(hv);
            }
            n.subject = v[0]; n.predicate = v[1]; n.object = v[2]; n.constSubject = c[0]; n.constPredicate = c[1]; n.constObject = c[2];
            for (int i = 0; i < 3; ++i) s += (c[i] ? to_string(v[i]) : vs(v[i])) + " ";
            txt += s + ". ";
            have.insert(mine.begin(), mine.end());
            q.nodes.push_back(n);
            if (q.nodes.size() > (loose ? 3 : 9)) break;
        }
        for (unsigned v : todo) { QueryGraph::Node n; n.additionalData = 0; n.constSubject = false; n.subject = v; n.constPredicate = n.constObject = true; n.predicate = cst(); n.object = cst(); q.nodes.push_back(n); have.insert(v); txt += vs(v) + " " + to_string(n.predicate) + " " + to_string(n.object) + " . "; }
        certain.insert(have.begin(), have.end());
    }
    set<unsigned> some(const set<unsigned> &s, unsigned mx) {
        vector<unsigned> v(s.begin(), s.end()); r.shuffle(v); set<unsigned> o;
        unsigned n = 1 + r.below(mx); for (unsigned i = 0; i < v.size() && i < n; ++i) o.insert(v[i]);
        return o;
    }
    F *varF(unsigned v) { F *f = new F(); f->type = F::Variable; f->id = v; f->valueid = 0; return f; }
    F *conF() { F *f = new F(); f->type = F::IRI; u64 c = cst(); f->id = (unsigned) c; f->valueid = c; f->value = "http://x/" + to_string(c); return f; }
    F filter(const set<unsigned> &certain, const set<unsigned> &maybe, int depth) {
        F f; f.valueid = 0; vector<unsigned> c(certain.begin(), certain.end()), m(maybe.begin(), maybe.end());
        if (c.empty()) { f.type = F::Builtin_sameterm; f.arg1 = conF(); f.arg2 = conF(); return f; }
        int k = r.below(10);
        if (depth && k < 3) {
            f.type = k == 0 ? F::And : k == 1 ? F::Or : F::Not;
            f.arg1 = new F(filter(certain, maybe, depth - 1)); if (k < 2) f.arg2 = new F(filter(certain, maybe, depth - 1));
            txt += k == 0 ? "&& " : k == 1 ? "|| " : "! ";
            return f;
        }
        if (k < 5 && !m.empty()) { f.type = F::Builtin_bound; unsigned v = r.pick(m); f.arg1 = varF(v); txt += "bound(" + vs(v) + ") "; return f; }
        if (k == 5) {
            f.type = F::Builtin_in; unsigned v = r.pick(c); f.arg1 = varF(v); txt += vs(v) + " in ("; F **tail = &f.arg2; unsigned n = 1 + r.below(3);
            for (unsigned i = 0; i < n; ++i) { F *l = new F(); l->type = F::ArgumentList; l->valueid = 0; l->arg1 = conF(); txt += to_string(l->arg1->id) + " "; *tail = l; tail = &l->arg2; }
            txt += ") "; return f;
        }
        f.type = k == 6 ? F::Builtin_sameterm : k < 8 ? F::Equal : F::NotEqual;
        unsigned a = r.pick(c); f.arg1 = varF(a);
        if (r.chance(50)) f.arg2 = conF(); else f.arg2 = varF(r.pick(c));
        if (r.chance(20)) swap(f.arg1, f.arg2);
        txt += string(f.type == F::NotEqual ? "!=" : "=") + "(" + (f.arg1->type == F::Variable ? vs(f.arg1->id) : to_string(f.arg1->id)) + "," + (f.arg2->type == F::Variable ? vs(f.arg2->id) : to_string(f.arg2->id)) + ") ";
        return f;
    }
    // certain/maybe: what it binds always/sometimes
    void group(QueryGraph::SubQuery &q, const set<unsigned> &J, set<unsigned> &certain, set<unsigned> &maybe, int depth) {
        bool noPattern = J.empty() && on(NOPATTERN, 15);
        if (!noPattern) patterns(q, J, certain, r.below(depth > 1 ? 4 : 3));
        for (int k = 0; k < 2; ++k) if (on(VALUES, 30) && (!certain.empty() || noPattern)) {
            QueryGraph::ValuesNode v; set<unsigned> vars = certain.empty() ? set<unsigned>() : some(certain, 2);
            if (vars.empty() || r.chance(25)) vars.insert(fresh());
            v.variables.assign(vars.begin(), vars.end()); r.shuffle(v.variables);
            size_t n = r.below(4); for (size_t i = 0; i < n * v.variables.size(); ++i) v.values.push_back(cst());
            txt += "VALUES("; for (unsigned x : v.variables) txt += vs(x) + " "; txt += "){"; for (u64 x : v.values) txt += to_string(x) + " "; txt += "} ";
            q.valueNodes.push_back(v); certain.insert(vars.begin(), vars.end());
        }
        int nu = on(UNION, 45) ? 1 + r.chance(25) : 0;
        for (int k = 0; k < nu; ++k) {
            set<unsigned> UJ = certain.empty() || (feat & CROSS && r.chance(10)) ? set<unsigned>() : some(certain, 2);
            set<unsigned> must = UJ; if (UJ.empty() || r.chance(30)) must.insert(fresh());
            vector<QueryGraph::SubQuery> parts; unsigned np = 2 + r.below(r.chance(70) ? 1 : 3); set<unsigned> all;
            for (unsigned i = 0; i < np; ++i) {
                txt += i ? "UNION{ " : "{ "; parts.push_back(QueryGraph::SubQuery()); set<unsigned> c, m;
                if (depth > 1 && (feat & NESTED) && r.chance(40)) group(parts.back(), must, c, m, depth - 1); else patterns(parts.back(), must, c, r.below(2));
                all.insert(c.begin(), c.end()); all.insert(m.begin(), m.end()); txt += "} ";
            }
            q.unions.push_back(parts);
            certain.insert(must.begin(), must.end());
            for (unsigned v : all) if (!certain.count(v)) maybe.insert(v);
        }
        if (on(SUBSELECT, 35) && depth > 1) {
            auto sq = make_shared<QueryGraph>(0); set<unsigned> sj = certain.empty() ? set<unsigned>() : some(certain, 2), c, m;
            txt += "{SELECT ";
            if (feat & NESTED) group(sq->getQuery(), sj, c, m, depth - 1); else patterns(sq->getQuery(), sj, c, r.below(3));
            set<unsigned> pr = sj; for (unsigned v : c) if (r.chance(40)) pr.insert(v);
            if (pr.empty() && !c.empty()) pr.insert(*c.begin());
            txt += "}proj("; for (unsigned v : pr) { sq->addProjection(v); txt += vs(v) + " "; } txt += ") ";
            sq->setOffset(0);
            if (!pr.empty() && r.chance(40)) { sq->setDuplicateHandling(QueryGraph::NoDuplicates); txt += "distinct "; }
            sq->constructEdges();
            q.subqueries.push_back(sq); certain.insert(pr.begin(), pr.end());
        }
        if (q.nodes.empty() && q.valueNodes.empty() && q.unions.empty() && q.subqueries.empty()) patterns(q, J, certain, r.below(2)); // every group has a part that is not optional
        int no = on(OPTIONAL, 55) ? 1 + r.chance(35) : 0;
        set<unsigned> base = certain;
        for (int k = 0; k < no; ++k) {
            set<unsigned> oj = base.empty() || (feat & CROSS && r.chance(10)) ? set<unsigned>() : some(base, 2), c, m;
            q.optional.push_back(QueryGraph::SubQuery()); txt += "OPTIONAL{ ";
            if (depth > 1 && (feat & NESTED) && r.chance(40)) group(q.optional.back(), oj, c, m, depth - 1); else { patterns(q.optional.back(), oj, c, r.below(2)); }
            if ((feat & FILTER) && r.chance(20)) q.optional.back().filters.push_back(filter(c, set<unsigned>(), 1));
            txt += "} ";
            for (unsigned v : c) if (!certain.count(v)) maybe.insert(v);
            maybe.insert(m.begin(), m.end());
        }
        if (on(BIND, 30) && !certain.empty()) {
            QueryGraph::TableFunction t; t.name = "BIND"; QueryGraph::TableFunction::Argument a; vector<unsigned> c(certain.begin(), certain.end());
            a.id = r.chance(70) ? r.pick(c) : ~0u; a.idvalue = ~a.id ? 0 : cst(); t.input.push_back(a); unsigned o = fresh(); t.output.push_back(o);
            q.tableFunctions.push_back(t); certain.insert(o); txt += "BIND(" + (~a.id ? vs(a.id) : to_string(a.idvalue)) + " as " + vs(o) + ") ";
        }
        int nfil = on(FILTER, 50) ? 1 + r.below(2) : 0;
        for (int k = 0; k < nfil && !certain.empty(); ++k) { txt += "FILTER("; q.filters.push_back(filter(certain, maybe, 2)); txt += ") "; }
        if (on(NOTEXISTS, 40) && !certain.empty()) {
            F f; f.type = F::Builtin_notexists; f.valueid = 0; f.subpattern = make_shared<QueryGraph::SubQuery>(); set<unsigned> c; txt += "FILTER NOT EXISTS{ ";
            patterns(*f.subpattern, some(certain, 2), c, r.below(2)); txt += "} ";
            q.filters.push_back(f);
        }
        if (on(MINUS, 40) && !certain.empty()) {
            auto m = make_shared<QueryGraph>(0); set<unsigned> c; txt += "MINUS{ ";
            patterns(m->getQuery(), some(certain, 2), c, r.below(2)); txt += "} "; m->setOffset(0);
            q.minuses.push_back(m);
        }
    }
};

static void nodesOf(const QueryGraph::SubQuery &q, vector<const QueryGraph::Node *> &v) {
    for (auto &n : q.nodes) v.push_back(&n);
    for (auto &o : q.optional) nodesOf(o, v);
    for (auto &u : q.unions) for (auto &x : u) nodesOf(x, v);
    for (auto &x : q.subqueries) nodesOf(x->getQuery(), v);
    for (auto &x : q.minuses) nodesOf(x->getQuery(), v);
    for (auto &f : q.filters) if (f.subpattern) nodesOf(*f.subpattern, v);
}
// triples that make (parts of) the query match
static void witnesses(Gen &g, const QueryGraph::SubQuery &q) {
    vector<const QueryGraph::Node *> ns; nodesOf(q, ns); set<array<u64, 3>> t(g.db.spo.begin(), g.db.spo.end());
    unsigned nw = g.r.below(5);
    for (unsigned w = 0; w < nw; ++w) {
        vector<u64> a(g.V); for (auto &x : a) x = g.r.pick(g.vals);
        unsigned keep = g.r.chance(50) ? 100 : 60 + g.r.below(40);
        for (auto n : ns) if (g.r.chance(keep)) t.insert({{n->constSubject ? n->subject : a[n->subject], n->constPredicate ? n->predicate : a[n->predicate], n->constObject ? n->object : a[n->object]}});
    }
    g.db.spo.assign(t.begin(), t.end());
}

// ---------------- checks ----------------
static void uses(Plan *p, map<const void *, int> &n, int depth, int &joins) {
    if (!p) { vf::violation("plan-null", "a plan has a missing input"); return; }
    if (depth > 400) { vf::violation("plan-depth", "a plan is cyclic"); return; }
    switch (p->op) {
        case Plan::IndexScan: case Plan::AggregatedIndexScan: case Plan::FullyAggregatedIndexScan: n[p->right]++; return;
        case Plan::ValuesScan: n[p->left]++; return;
        case Plan::Singleton: return;
        case Plan::Union: case Plan::MergeUnion: uses(p->left, n, depth + 1, joins); if (p->right) uses(p->right, n, depth + 1, joins); return;
        case Plan::NestedLoopJoin: case Plan::MergeJoin: case Plan::HashJoin: case Plan::CartProd: case Plan::Minus: joins++; uses(p->left, n, depth + 1, joins); uses(p->right, n, depth + 1, joins); return;
        case Plan::TableFunction: n[p->right]++; uses(p->left, n, depth + 1, joins); return;
        default: uses(p->left, n, depth + 1, joins); return;
    }
}
static void expect(const QueryGraph::SubQuery &q, map<const void *, int> &n) {
    for (auto &x : q.nodes) n[&x]++;
    for (auto &x : q.valueNodes) n[&x]++;
    for (auto &x : q.tableFunctions) n[&x]++;
    for (auto &x : q.optional) expect(x, n);
    for (auto &u : q.unions) for (auto &x : u) expect(x, n);
    for (auto &x : q.subqueries) expect(x->getQuery(), n);
    for (auto &x : q.minuses) expect(x->getQuery(), n);
}
static const char *opName(int o) { static const char *N[] = {"IndexScan", "AggregatedIndexScan", "FullyAggregatedIndexScan", "NestedLoopJoin", "MergeJoin", "HashJoin", "HashGroupify", "Filter", "Union", "MergeUnion", "TableFunction", "Singleton", "Subselect", "Minus", "ValuesScan", "CartProd", "GroupBy", "Having", "Aggregates"}; return N[o]; }
static void shape(Plan *p, string &s) {
    s += opName(p->op); vf::add(string("plan-") + opName(p->op));
    s += "("; if (p->op == Plan::IndexScan || p->op == Plan::AggregatedIndexScan || p->op == Plan::FullyAggregatedIndexScan) s += to_string(p->opArg);
    else if (p->op == Plan::ValuesScan || p->op == Plan::Singleton) ;
    else { shape(p->left, s); if (p->right && (p->op == Plan::Union || p->op == Plan::MergeUnion || p->op == Plan::NestedLoopJoin || p->op == Plan::MergeJoin || p->op == Plan::HashJoin || p->op == Plan::CartProd || p->op == Plan::Minus)) { s += ","; shape(p->right, s); } }
    s += p->optional ? ")?" : ")";
}
static string show(const Bag &b) { string s; int k = 0; for (auto &x : b) { if (k++ > 5) { s += "..."; break; } s += "["; for (u64 v : x.first) s += v == NUL ? "- " : to_string(v) + " "; s += "]x" + to_string(x.second) + " "; } return s; }

static void execCase(vf::Rng &r) {
    bool loose = r.chance(45); int feat = 4095; auto it = vf::st().opts.find("feat");
    if (it != vf::st().opts.end()) feat = atoi(it->second.c_str());
    else if (loose) { feat = CROSS; for (int k = 0; k < 3; ++k) feat |= 1 << r.below(12); }
    else if (r.chance(50)) feat &= (int) r.next() | (r.chance(50) ? CROSS : 0);
    Gen g(r, feat, loose); QueryGraph q(0); set<unsigned> c, m;
    g.group(q.getQuery(), set<unsigned>(), c, m, loose ? 1 + r.chance(20) : 2 + r.chance(30)); if (loose) vf::add("dense");
    q.setOffset(0);
    vector<unsigned> all(c.begin(), c.end()), proj; all.insert(all.end(), m.begin(), m.end());
    for (unsigned v : all) if (r.chance(60)) proj.push_back(v);
    if (all.empty()) { vf::add("no-variables"); return; }
    if (proj.empty()) proj.push_back(r.pick(all));
    r.shuffle(proj);
    string sel = "SELECT ";
    bool distinct = r.chance(25); if (distinct) { q.setDuplicateHandling(QueryGraph::NoDuplicates); sel += "DISTINCT "; }
    for (unsigned v : proj) { q.addProjection(v); sel += Gen::vs(v) + " "; }
    string text = sel + "{ " + g.txt + "}";
    q.constructEdges();
    witnesses(g, q.getQuery());
    Ref ref(g.db, g.V); if (loose) { ref.cap = 400; ref.maxCount = 500; } Bag full;
    try { full = ref.query(q); } catch (Too &) { vf::add("too-big"); return; }
    Bag want; for (auto &x : full) { Row y; for (unsigned v : proj) y.push_back(x.first[v]); want[y] += x.second; }
    if (distinct) for (auto &x : want) x.second = 1;
    string data; if (g.db.spo.size() < 12) for (auto &t : g.db.spo) data += vf::fmt("(%llu %llu %llu)", (unsigned long long) t[0], (unsigned long long) t[1], (unsigned long long) t[2]);
    if (getenv("VERIF_SHOW")) { printf("@@Q %s\n", text.c_str()); fflush(stdout); }
    vf::add("evals"); vf::sample(text);
    PlanGen pg; Plan *plan = 0;
    try { plan = pg.translate(g.db, q); } catch (int e) { vf::violation("plan-throw", vf::fmt("planning throws %d: ", e) + text); return; }
    if (!plan) { vf::violation("no-plan", "no plan: " + text); return; }
    map<const void *, int> have, exp; int joins = 0; uses(plan, have, 0, joins); expect(q.getQuery(), exp);
    string sh; shape(plan, sh);
    vf::distinct(vf::hashStr(sh) ^ want.size());
    if (have != exp) { vf::violation("plan-uses", "the plan does not use every part of the query exactly once: " + text + " plan " + sh); return; }
    { PlanGen p2; Plan *b = p2.translate(g.db, q); string s2; shape(b, s2); if (s2 != sh || b->costs != plan->costs) vf::violation("plan-random", "planning the same query twice gives different plans: " + text + " plans " + sh + " " + s2); }
    Runtime rt(g.db); map<const QueryGraph::Node *, unsigned> regs; CodeGen::prepareRuntime(rt, q, regs); vector<Register *> out;
    Operator::disableSkipping = r.chance(15);
    Operator *op = CodeGen::translateIntern(rt, q, plan, out, regs);
    if (!op) { vf::violation("no-operator", "no operator tree: " + text); return; }
    Bag got; u64 n = 0; int ordIdx = -1; u64 last = 0; bool unordered = false;
    for (size_t i = 0; i < proj.size(); ++i) if (~plan->ordering && proj[i] == plan->ordering) ordIdx = i;
    bool over = false; g.db.budget = 4000000; g.db.done = 0;
    try { for (u64 k = op->first(); k; k = op->next()) {
        Row x; for (Register *p : out) x.push_back(p->value);
        got[x] += k;
        if (ordIdx >= 0) { if (x[ordIdx] < last) unordered = true; last = x[ordIdx]; }
        if (++n > 3000000) { over = true; break; }
    } } catch (MemDB::TooMuchWork &) { vf::add("too-much-work"); return; }
    vf::add("rows", n); if (joins > 1) vf::add("multi-join"); if (ordIdx >= 0) vf::add("ordered-results");
    if (distinct) { for (auto &x : got) x.second = 1; if (got.size() != n) vf::violation("dup", "a distinct result has duplicates: " + text); }
    if (over || got != want) vf::violation("rows", vf::fmt("got %zu rows, expected %zu: ", got.size(), want.size()) + text + " plan " + sh + " got " + show(got) + " want " + show(want) + " data " + data);
    else if (unordered) vf::violation("order", "the result is not in the order the plan claims: " + text + " plan " + sh);
    delete op;
}

static bool sameFilter(const F *a, const F *b) {
    if (!a || !b) return a == b;
    return a != b && a->type == b->type && a->id == b->id && a->value == b->value && a->valueid == b->valueid && a->subquery == b->subquery && a->subpattern == b->subpattern && sameFilter(a->arg1, b->arg1) && sameFilter(a->arg2, b->arg2) && sameFilter(a->arg3, b->arg3) && sameFilter(a->arg4, b->arg4);
}
static F *rndFilter(vf::Rng &r, int d, set<unsigned> &vars, set<pair<u64, bool>> &lits) {
    F *f = new F(); f->valueid = 0; int k = r.below(6);
    if (d == 0 || k < 2) {
        if (k % 2) { f->type = F::Variable; f->id = r.below(12); vars.insert(f->id); lits.insert(make_pair(f->id, true)); }
        else { f->type = F::Literal; f->valueid = r.next() >> 20; f->value = to_string(f->valueid); lits.insert(make_pair(f->valueid, false)); }
        return f;
    }
    static const F::Type T[] = {F::And, F::Or, F::Equal, F::Less, F::Not, F::Plus, F::Builtin_regex, F::Builtin_replace, F::Function};
    f->type = T[r.below(9)];
    if (r.chance(80)) f->arg1 = rndFilter(r, d - 1, vars, lits);
    if (r.chance(60)) f->arg2 = rndFilter(r, d - 1, vars, lits);
    if (r.chance(30)) f->arg3 = rndFilter(r, d - 1, vars, lits);
    if (r.chance(30)) f->arg4 = rndFilter(r, d - 1, vars, lits);
    if (r.chance(10)) { f->subpattern = make_shared<QueryGraph::SubQuery>(); vars.insert(999); }
    if (r.chance(10)) { f->subquery = make_shared<QueryGraph>(0); unsigned n = r.below(3); for (unsigned i = 0; i < n; ++i) { unsigned v = r.below(12); f->subquery->addProjection(v); vars.insert(v); } }
    return f;
}
static void graphVars(const QueryGraph::SubQuery &q, set<unsigned> &s) {
    for (auto &n : q.nodes) { if (!n.constSubject) s.insert(n.subject); if (!n.constPredicate) s.insert(n.predicate); if (!n.constObject) s.insert(n.object); }
    for (auto &v : q.valueNodes) s.insert(v.variables.begin(), v.variables.end());
    for (auto &o : q.optional) graphVars(o, s);
    for (auto &u : q.unions) for (auto &x : u) graphVars(x, s);
    for (auto &x : q.subqueries) s.insert(x->projectionBegin(), x->projectionEnd());
}
static void checkEdges(const QueryGraph::SubQuery &q, const string &text) {
    vector<set<unsigned>> b; size_t nv = q.valueNodes.size(); (void) nv;
    for (auto &n : q.nodes) { QueryGraph::SubQuery t; t.nodes.push_back(n); b.emplace_back(); graphVars(t, b.back()); }
    size_t nn = b.size();
    for (auto &v : q.valueNodes) { b.emplace_back(); b.back().insert(v.variables.begin(), v.variables.end()); }
    for (auto &o : q.optional) { b.emplace_back(); graphVars(o, b.back()); checkEdges(o, text); }
    for (auto &u : q.unions) { b.emplace_back(); for (auto &x : u) { graphVars(x, b.back()); checkEdges(x, text); } }
    for (auto &x : q.subqueries) { b.emplace_back(); b.back().insert(x->projectionBegin(), x->projectionEnd()); }
    for (auto &f : q.filters) if (f.subpattern) checkEdges(*f.subpattern, text);
    for (auto &m : q.minuses) checkEdges(m->getQuery(), text);
    for (auto &m : q.subqueries) checkEdges(m->getQuery(), text);
    map<pair<u64, u64>, vector<unsigned>> want, got;
    for (size_t i = 0; i < b.size(); ++i) for (size_t j = i + 1; j < b.size(); ++j) { vector<unsigned> c; set_intersection(b[i].begin(), b[i].end(), b[j].begin(), b[j].end(), back_inserter(c)); if (!c.empty()) want[make_pair(i, j)] = c; }
    for (auto &e : q.edges) {
        auto k = make_pair(min(e.from, e.to), max(e.from, e.to)); vector<unsigned> c = e.common; sort(c.begin(), c.end());
        if (got.count(k)) vf::violation("edge-twice", "two edges join the same two parts: " + text);
        got[k] = c;
    }
    vf::add("edges", got.size());
    if (got != want) { string s; for (auto &x : want) if (!got.count(x.first) || got[x.first] != x.second) s += vf::fmt("missing %llu-%llu ", (unsigned long long) x.first.first, (unsigned long long) x.first.second); for (auto &x : got) if (!want.count(x.first)) s += vf::fmt("extra %llu-%llu ", (unsigned long long) x.first.first, (unsigned long long) x.first.second); vf::violation("edges", "the join edges are not the pairs of parts with common variables: " + s + text); }
    for (size_t i = 0; i < nn; ++i) for (size_t j = 0; j < nn; ++j) { bool w = false; for (unsigned v : b[i]) w |= b[j].count(v) > 0; if (q.nodes[i].canJoin(q.nodes[j]) != w) vf::violation("canjoin", vf::fmt("canJoin of patterns %zu and %zu is wrong: ", i, j) + text); }
}
static void graphCase(vf::Rng &r) {
    vf::add("evals");
    {
        Gen g(r, 4095); QueryGraph q(0); set<unsigned> c, m; g.group(q.getQuery(), set<unsigned>(), c, m, 2 + r.chance(30)); q.constructEdges();
        if (r.chance(30)) q.constructEdges(); // idempotent
        checkEdges(q.getQuery(), g.txt); vf::distinct(vf::hashStr(g.txt)); vf::sample(g.txt);
    }
    set<unsigned> vars, v2; set<pair<u64, bool>> lits, l2; F *a = rndFilter(r, 3, vars, lits), *b = rndFilter(r, 2, v2, l2);
    {
        F c(*a); if (!sameFilter(a, &c)) vf::violation("filter-copy", "a copied filter differs from the original");
        *b = *a; if (!sameFilter(a, b)) vf::violation("filter-assign", "an assigned filter differs from the original");
        *b = *b; if (!sameFilter(a, b)) vf::violation("filter-assign", "assigning a filter to itself changes it");
        vector<F> v; v.push_back(*a); v.push_back(c); v.insert(v.begin(), *b); v.erase(v.begin() + 1); for (auto &x : v) if (!sameFilter(&x, a)) vf::violation("filter-vector", "a filter kept in a vector changes");
    }
    if (a->allIdVarsAndLiterals() != lits) vf::violation("filter-vars", "the variables and literals of a filter are not what it mentions");
    for (int k = 0; k < 6; ++k) {
        set<unsigned> s; if (k == 0) { s = vars; s.erase(999); } else if (k == 1 && !vars.empty()) { s = vars; auto i = s.begin(); advance(i, r.below(s.size())); s.erase(i); } else for (unsigned i = 0; i < 12; ++i) if (r.chance(70)) s.insert(i);
        bool w = includes(s.begin(), s.end(), vars.begin(), vars.end());
        if (a->isApplicable(s) != w) { vf::violation("filter-applicable", vf::fmt("isApplicable says %d although the variables of the filter are %savailable", !w, w ? "" : "not ")); break; }
    }
    delete a; delete b;
}

int main(int argc, char **argv) {
    vf::run(argc, argv, [](vf::Rng &r, u64) { if (vf::st().mode == "graph") graphCase(r); else execCase(r); });
    return 0;
}
