// rdf3x query operators: random operator trees over an in-memory triple store; the bag of rows
// that a tree produces is compared with a reference evaluation of the same tree.
#include "common.h"
#include "dblayer.hpp"
#include "memdb.h"
#include "rts/operator/Operator.hpp"
#include "rts/operator/Scheduler.hpp"
#include "rts/operator/PlanPrinter.hpp"
#include "rts/operator/AggregatedIndexScan.hpp"
#include "rts/operator/Assignment.hpp"
#include "rts/operator/CartProd.hpp"
#include "rts/operator/DuplLimit.hpp"
#include "rts/operator/EmptyScan.hpp"
#include "rts/operator/Filter.hpp"
#include "rts/operator/FullyAggregatedIndexScan.hpp"
#include "rts/operator/GroupBy.hpp"
#include "rts/operator/HashGroupify.hpp"
#include "rts/operator/HashJoin.hpp"
#include "rts/operator/IndexScan.hpp"
#include "rts/operator/MergeJoin.hpp"
#include "rts/operator/MergeUnion.hpp"
#include "rts/operator/Minus.hpp"
#include "rts/operator/NestedLoopFilter.hpp"
#include "rts/operator/NestedLoopJoin.hpp"
#include "rts/operator/Selection.hpp"
#include "rts/operator/SingletonScan.hpp"
#include "rts/operator/Sort.hpp"
#include "rts/operator/TableFunction.hpp"
#include "rts/operator/Union.hpp"
#include "rts/operator/ValuesScan.hpp"
#include "rts/runtime/DomainDescription.hpp"
#include "rts/runtime/Runtime.hpp"
#include "rts/runtime/TemporaryDictionary.hpp"
#include <array>
#include <atomic>
#include <iostream>
using namespace std;
typedef uint64_t u64;
typedef vector<u64> Row;
typedef map<Row, u64> Bag;
static const u64 NUL = UINT64_MAX; // the marker of an unbound value in a row
static bool isNull(u64 v) { return v == NUL; }

// a source of given rows
struct Source : public Operator {
    vector<Register *> regs; vector<pair<Row, u64>> rows; size_t pos = 0; bool started = false;
    Source() : Operator(1) {}
    u64 emit() { if (pos >= rows.size()) return 0; for (size_t i = 0; i < regs.size(); ++i) regs[i]->value = rows[pos].first[i]; return rows[pos].second; }
    u64 first() { pos = 0; started = true; return emit(); }
    u64 next() { if (!started) vf::violation("next-before-first", "next() of an input before its first()"); if (pos < rows.size()) ++pos; return emit(); }
    void print(PlanPrinter &o) { o.beginOperator("Source", 1, 1); o.endOperator(); }
    void addMergeHint(Register *, Register *) {}
    void getAsyncInputCandidates(Scheduler &) {}
};

struct Rel {
    Operator *op = 0;
    vector<unsigned> cols;        // registers holding the row
    Bag bag;                      // what it must produce
    set<unsigned> sorted;         // ascending in each of these registers, if not empty
    bool restart = true;          // may be executed again
    bool nulls = false;
    string shape;
};

struct Gen {
    vf::Rng &r; MemDB db; unique_ptr<Runtime> rt; unsigned nreg = 0; vector<u64> vals; bool optional; bool domains; string nobag;
    size_t maxRows;
    Gen(vf::Rng &r) : r(r) {
        rt.reset(new Runtime(db));
        rt->allocateRegisters(400);
        rt->allocateDomainDescriptions(200);
        size_t n = r.chance(50) ? 1 + r.below(6) : r.chance(60) ? 1 + r.below(40) : 1 + r.below(400);
        int kind = r.below(5);
        set<u64> vs; // kind 4: values whose group hashes collide

        for (int tries = 0; vs.size() < n && tries < 4000; ++tries) vs.insert(kind == 0 ? 1 + r.below(n + 3) : kind == 1 ? 1 + r.below(60000) : kind == 2 ? 1 + (r.next() >> 22) : kind == 4 ? (r.below(n + 3) << (15 * r.below(3))) : 1 + r.below(5) * 8192 + r.below(70));
        vs.erase(NUL);
        if (vs.empty()) vs.insert(7);
        vals.assign(vs.begin(), vs.end());
        size_t nt = r.chance(10) ? 0 : r.chance(50) ? r.below(30) : r.below(400);
        set<array<u64, 3>> t;
        for (size_t i = 0; i < nt; ++i) t.insert({{r.pick(vals), r.pick(vals), r.pick(vals)}});
        db.spo.assign(t.begin(), t.end());
        for (u64 v : vals) db.text[v] = v % 3 ? "<http://x/" + to_string(v) + ">" : "\"l" + to_string(v) + "\"";
        optional = r.chance(25);
        domains = !optional && r.chance(50);
        db.hintMode = r.below(3);
        maxRows = 20000;
    }
    Register *reg(unsigned i) { return rt->getRegister(i); }
    unsigned fresh() { if (nreg >= 399) { return nreg; } return nreg++; }
    vector<Register *> regsOf(const vector<unsigned> &c) { vector<Register *> v; for (unsigned x : c) v.push_back(reg(x)); return v; }
    u64 pickVal() { return r.chance(90) ? r.pick(vals) : r.pick(vals) + r.below(3); }

    Rel source(bool sortFirst) {
        Rel x; Source *s = new Source();
        unsigned w = r.chance(8) ? 0 : 1 + r.below(3);
        if (sortFirst && !w) w = 1;
        for (unsigned i = 0; i < w; ++i) x.cols.push_back(fresh());
        size_t n = r.chance(12) ? 0 : r.chance(60) ? r.below(12) : r.below(120);
        if (!w) n = min<size_t>(n, 3);
        for (size_t i = 0; i < n; ++i) {
            Row row; for (unsigned j = 0; j < w; ++j) row.push_back(pickVal());
            u64 c = r.chance(80) ? 1 : 1 + r.below(4);
            s->rows.push_back(make_pair(row, c)); x.bag[row] += c;
        }
        if (sortFirst || r.chance(30)) {
            // sorted on the first column only: the order of the others is arbitrary
            stable_sort(s->rows.begin(), s->rows.end(), [](const pair<Row, u64> &a, const pair<Row, u64> &b) { return !a.first.empty() && a.first[0] < b.first[0]; });
            if (w) x.sorted.insert(x.cols[0]);
        }
        s->regs = regsOf(x.cols);
        x.op = s; x.shape = "src";
        return x;
    }
    // an index scan; boundTo: register outside that supplies the value of a bound position (or -1)
    Rel scan(int wantSortVar, int boundTo) {
        Rel x;
        int aggr = r.chance(60) ? 0 : 1 + r.below(2);
        int ncol = 3 - aggr;
        DBLayer::DataOrder order = (DBLayer::DataOrder) r.below(r.chance(80) ? 6 : 12);
        int p[3]; MemDB::perm(order, p);
        unsigned regIdx[3] = {0, 0, 0}; bool bound[3] = {false, false, false}; Register *rr[3] = {0, 0, 0};
        u64 cv[3] = {0, 0, 0};
        int firstFree = -1; bool dep = false;
        int prefer = r.chance(75); // bound positions form a prefix, as the planner arranges it
        for (int i = 0; i < ncol; ++i) {
            int pos = p[i];
            bool b = prefer ? (i == 0 || bound[p[i - 1]]) && r.chance(40) : r.chance(35);
            if (wantSortVar && i == ncol - 1 && firstFree < 0) b = false;
            if (b && boundTo >= 0 && !dep) { rr[pos] = reg(boundTo); bound[pos] = true; dep = true; regIdx[pos] = boundTo; continue; }
            regIdx[pos] = fresh(); rr[pos] = reg(regIdx[pos]);
            if (b) {
                bound[pos] = true;
                const array<u64, 3> *t = db.spo.empty() ? 0 : &db.spo[r.below(db.spo.size())];
                cv[pos] = t && r.chance(80) ? (*t)[pos] : pickVal();
                // the constants of a prefix should often match together
                rr[pos]->value = cv[pos];
            } else {
                x.cols.push_back(regIdx[pos]);
                if (firstFree < 0) { firstFree = regIdx[pos]; bool prefix = true; for (int k = 0; k < i; ++k) prefix = prefix && bound[p[k]]; (void) prefix; x.sorted.insert(firstFree); bool allb = true; for (int k = 0; k < i; ++k) if (!bound[p[k]]) allb = false; if (!allb) x.sorted.clear(); }
            }
        }
        if (aggr == 0) x.op = IndexScan::create(db, order, rr[0], bound[0], rr[1], bound[1], rr[2], bound[2], 1);
        else if (aggr == 1) x.op = AggregatedIndexScan::create(db, order, rr[0], bound[0], rr[1], bound[1], rr[2], bound[2], 1);
        else x.op = FullyAggregatedIndexScan::create(db, order, rr[0], bound[0], rr[1], bound[1], rr[2], bound[2], 1);
        // cols in the order of the scan
        x.cols.clear();
        for (int i = 0; i < ncol; ++i) if (!bound[p[i]]) x.cols.push_back(regIdx[p[i]]);
        depScan = dep; 
        for (auto &t : db.spo) {
            bool ok = true; Row row;
            for (int i = 0; i < ncol; ++i) { if (bound[p[i]]) { if (!(dep && regIdx[p[i]] == (unsigned) boundTo) && t[p[i]] != cv[p[i]]) ok = false; } }
            if (!ok) continue;
            if (dep) for (int i = 0; i < ncol; ++i) if (bound[p[i]] && regIdx[p[i]] == (unsigned) boundTo) row.push_back(t[p[i]]);
            for (int i = 0; i < ncol; ++i) if (!bound[p[i]]) row.push_back(t[p[i]]);
            x.bag[row]++;
        }
        if (dep) x.sorted.clear();
        x.shape = aggr == 0 ? "scan" : aggr == 1 ? "ascan" : "fscan";
        for (int i = 0; i < ncol; ++i) x.shape += bound[p[i]] ? "b" : "f";
        return x;
    }
    bool depScan = false;

    Rel leaf() {
        int k = r.below(12);
        if (k < 4) return source(false);
        if (k < 10) return scan(0, -1);
        if (k == 10) {
            Rel x; unsigned w = 1 + r.below(3);
            for (unsigned i = 0; i < w; ++i) x.cols.push_back(fresh());
            vector<u64> v; size_t n = r.below(8);
            for (size_t i = 0; i < n; ++i) { Row row; for (unsigned j = 0; j < w; ++j) row.push_back(pickVal()); v.insert(v.end(), row.begin(), row.end()); x.bag[row]++; }
            x.op = new ValuesScan(regsOf(x.cols), v, 1); x.shape = "val"; x.restart = RESTART_ALL;
            return x;
        }
        Rel x; if (r.chance(50)) { x.op = new SingletonScan(); x.bag[Row()] = 1; x.shape = "one"; } else { x.op = new EmptyScan(); x.shape = "none"; }
        return x;
    }
    static bool RESTART_ALL;

    static u64 total(const Bag &b) { u64 n = 0; for (auto &p : b) n += p.second; return n; }
    int colOf(const Rel &x, unsigned reg) { for (size_t i = 0; i < x.cols.size(); ++i) if (x.cols[i] == reg) return i; return -1; }

    Rel sortedRel(int depth, unsigned &key) {
        for (int i = 0; i < 6; ++i) {
            Rel x = i < 3 ? gen(depth, true) : scan(1, -1);
            if (!x.sorted.empty() && !x.nulls) { vector<unsigned> v(x.sorted.begin(), x.sorted.end()); key = r.pick(v); return x; }
            delete x.op;
        }
        Rel x = source(true); key = *x.sorted.begin(); return x;
    }
    Bag joinBag(const Rel &a, int ka, const Rel &b, int kb, bool lo, bool ro) {
        // lo: the left side may be missing (rows of the right side are kept)
        Bag out; map<u64, vector<const pair<const Row, u64> *>> ix;
        set<u64> matched;
        for (auto &p : b.bag) ix[p.first[kb]].push_back(&p);
        for (auto &p : a.bag) {
            auto it = ix.find(p.first[ka]);
            if (it == ix.end()) { if (ro) { Row row = p.first; row.resize(row.size() + b.cols.size(), NUL); out[row] += p.second; } continue; }
            matched.insert(it->first);
            for (auto q : it->second) { Row row = p.first; row.insert(row.end(), q->first.begin(), q->first.end()); out[row] += p.second * q->second; }
        }
        if (lo) for (auto &p : b.bag) if (!matched.count(p.first[kb])) { Row row(a.cols.size(), NUL); row.insert(row.end(), p.first.begin(), p.first.end()); out[row] += p.second; }
        return out;
    }
    void shareDomain(unsigned a, unsigned b) {
        if (!domains || nd >= 199) return;
        if (reg(a)->domain || reg(b)->domain) return; // classes would have to be merged
        PotentialDomainDescription *d = rt->getDomainDescription(nd++);
        reg(a)->domain = d; reg(b)->domain = d;
    }
    unsigned nd = 0;

    Rel gen(int depth, bool wantSorted = false) {
        if (depth <= 0 || nreg > 340) return leaf();
        int k = r.below(wantSorted ? 6 : 17);
        switch (k) {
            case 0: case 1: case 10: { // merge join
                unsigned ka, kb; Rel a = sortedRel(depth - 1, ka), b = sortedRel(depth - 1, kb);
                bool lo = false, ro = false;
                if (optional && !wantSorted) { int z = r.below(3); lo = z == 1; ro = z == 2; }
                int ia = colOf(a, ka), ib = colOf(b, kb);
                Rel x; x.bag = joinBag(a, ia, b, ib, lo, ro);
                if (total(x.bag) > maxRows) { delete b.op; return a; }
                vector<Register *> lt, rtt;
                for (unsigned c : a.cols) if (c != ka) lt.push_back(reg(c));
                for (unsigned c : b.cols) if (c != kb) rtt.push_back(reg(c));
                shareDomain(ka, kb);
                x.op = new MergeJoin(a.op, reg(ka), lt, b.op, reg(kb), rtt, lo, ro, 1);
                x.cols = a.cols; x.cols.insert(x.cols.end(), b.cols.begin(), b.cols.end());
                if (!lo && !ro) { x.sorted.insert(ka); x.sorted.insert(kb); }
                x.restart = a.restart && b.restart; x.nulls = a.nulls || b.nulls || lo || ro;
                x.shape = string("mj") + (lo ? "L" : "") + (ro ? "R" : "") + "(" + a.shape + "," + b.shape + ")";
                return x; }
            case 2: { // filter keeps the order
                Rel a = gen(depth - 1, wantSorted);
                if (a.cols.empty()) return a;
                size_t c = r.below(a.cols.size()); bool ex = r.chance(50);
                vector<u64> v; size_t n = r.below(4); for (size_t i = 0; i < n; ++i) v.push_back(pickVal());
                u64 lo = ~0ull, hi = 0; for (u64 y : v) { lo = min(lo, y); hi = max(hi, y); }
                if (v.size() && hi - lo > 2000000) v.resize(1);
                set<u64> s(v.begin(), v.end());
                Rel x = a; x.bag.clear();
                for (auto &p : a.bag) if ((s.count(p.first[c]) > 0) != ex) x.bag[p.first] = p.second;
                if (a.nulls && reg(a.cols[c])->domain) return a;
                x.op = new Filter(a.op, reg(a.cols[c]), v, ex, 1); x.shape = "flt(" + a.shape + ")";
                return x; }
            case 3: { // minus
                Rel a = gen(depth - 1, wantSorted), b = gen(depth - 1);
                if (a.cols.empty() || b.cols.empty() || a.nulls || b.nulls) { delete b.op; return a; }
                size_t w = 1 + r.below(min(a.cols.size(), b.cols.size()));
                vector<size_t> pa(a.cols.size()), pb(b.cols.size());
                for (size_t i = 0; i < pa.size(); ++i) pa[i] = i; for (size_t i = 0; i < pb.size(); ++i) pb[i] = i;
                r.shuffle(pa); r.shuffle(pb);
                vector<pair<Register *, Register *>> regs;
                for (size_t i = 0; i < w; ++i) regs.push_back(make_pair(reg(a.cols[pa[i]]), reg(b.cols[pb[i]])));
                set<Row> bad;
                for (auto &p : b.bag) { Row k2; for (size_t i = 0; i < w; ++i) k2.push_back(p.first[pb[i]]); bad.insert(k2); }
                Rel x = a; x.bag.clear();
                for (auto &p : a.bag) { Row k2; for (size_t i = 0; i < w; ++i) k2.push_back(p.first[pa[i]]); if (!bad.count(k2)) x.bag[p.first] = p.second; }
                x.op = new Minus(a.op, b.op, regs, 1); x.shape = "min(" + a.shape + "," + b.shape + ")";
                return x; }
            case 4: { // assignment (BIND)
                Rel a = gen(depth - 1, wantSorted);
                vector<Assignment::AssignmentArgument> in; vector<Register *> out; Rel x = a; vector<int> from; vector<u64> def;
                size_t n = 1 + r.below(2);
                for (size_t i = 0; i < n; ++i) {
                    Assignment::AssignmentArgument g; int c = a.cols.empty() || r.chance(30) ? -1 : (int) r.below(a.cols.size());
                    g.reg = c < 0 ? 0 : reg(a.cols[c]); g.defaultValue = c < 0 ? pickVal() : 0;
                    in.push_back(g); from.push_back(c); def.push_back(g.defaultValue);
                    unsigned o = fresh(); out.push_back(reg(o)); x.cols.push_back(o);
                }
                x.bag.clear();
                for (auto &p : a.bag) { Row row = p.first; for (size_t i = 0; i < n; ++i) row.push_back(from[i] < 0 ? def[i] : p.first[from[i]]); x.bag[row] += p.second; }
                x.op = new Assignment(a.op, in, out, 1); x.shape = "bind(" + a.shape + ")";
                return x; }
            case 5: { // nested loop join; the right side may depend on the left one
                Rel a = gen(depth - 1, wantSorted);
                bool tryDep = !a.cols.empty() && !a.nulls && r.chance(60);
                int bt = -1; if (tryDep) bt = a.cols[r.below(a.cols.size())];
                Rel b = tryDep ? scan(0, bt) : gen(depth - 1);
                bool dep = tryDep && depScan;
                if (!b.restart) { delete b.op; return a; }
                Rel x = a; x.bag.clear();
                for (auto &p : a.bag) for (auto &q : b.bag) {
                    Row row = p.first; size_t from = 0;
                    if (dep) { if (q.first[0] != p.first[colOf(a, bt)]) continue; from = 1; }
                    row.insert(row.end(), q.first.begin() + from, q.first.end());
                    x.bag[row] += p.second * q.second;
                    if (x.bag.size() > maxRows) break;
                }
                if (total(x.bag) > maxRows || total(a.bag) > 600) { delete b.op; return a; }
                x.cols.insert(x.cols.end(), b.cols.begin(), b.cols.end());
                x.restart = a.restart && b.restart; x.nulls = a.nulls || b.nulls;
                x.op = new NestedLoopJoin(a.op, b.op, 1); x.shape = string(dep ? "nljd(" : "nlj(") + a.shape + "," + b.shape + ")";
                return x; }
            case 6: case 7: { // hash join
                Rel a = gen(depth - 1), b = gen(depth - 1);
                if (a.cols.empty() || b.cols.empty() || a.nulls || b.nulls) { delete b.op; return a; }
                bool lo = false, ro = false;
                if (optional) { int z = r.below(3); lo = z == 1; ro = z == 2; }
                size_t ia = r.below(a.cols.size()), ib = r.below(b.cols.size());
                Rel x; x.bag = joinBag(a, ia, b, ib, lo, ro);
                if (total(x.bag) > maxRows) { delete b.op; return a; }
                vector<Register *> lt, rtt;
                for (unsigned c : a.cols) if (c != a.cols[ia]) lt.push_back(reg(c));
                for (unsigned c : b.cols) if (c != b.cols[ib]) rtt.push_back(reg(c));
                shareDomain(a.cols[ia], b.cols[ib]);
                x.op = new HashJoin(a.op, reg(a.cols[ia]), lt, b.op, reg(b.cols[ib]), rtt, 1, 1, 1, lo, ro, 0);
                x.cols = a.cols; x.cols.insert(x.cols.end(), b.cols.begin(), b.cols.end());
                x.restart = a.restart && b.restart; x.nulls = lo || ro;
                x.shape = string("hj") + (lo ? "L" : "") + (ro ? "R" : "") + "(" + a.shape + "," + b.shape + ")";
                return x; }
            case 8: { // cartesian product
                Rel a = gen(depth - 1), b = gen(depth - 2);
                if (total(a.bag) * total(b.bag) > maxRows) { delete b.op; return a; }
                bool lo = false, ro = false;
                if (optional) { int z = r.below(3); lo = z == 1; ro = z == 2; }
                Rel x; Bag ba = a.bag, bb = b.bag;
                if (lo && ba.empty()) ba[Row(a.cols.size(), NUL)] = 1;
                if (ro && bb.empty()) bb[Row(b.cols.size(), NUL)] = 1;
                for (auto &p : ba) for (auto &q : bb) { Row row = p.first; row.insert(row.end(), q.first.begin(), q.first.end()); x.bag[row] += p.second * q.second; }
                x.op = new CartProd(a.op, regsOf(a.cols), b.op, regsOf(b.cols), 1, lo, ro, 0);
                x.cols = a.cols; x.cols.insert(x.cols.end(), b.cols.begin(), b.cols.end());
                x.restart = RESTART_ALL && a.restart && b.restart; x.nulls = a.nulls || b.nulls || lo || ro;
                x.shape = "cart(" + a.shape + "," + b.shape + ")";
                return x; }
            case 9: { // groupify
                Rel a = gen(depth - 1); Rel x = a;
                x.op = new HashGroupify(a.op, regsOf(a.cols), 1); x.sorted.clear(); x.shape = "hg(" + a.shape + ")";
                return x; }
            case 11: { // group by / distinct / sort by ids
                Rel a = gen(depth - 1);
                if (a.cols.empty()) return a;
                map<unsigned, Register *> bind; for (unsigned c : a.cols) bind[c] = reg(c);
                bool dist = r.chance(40); vector<unsigned> keys = a.cols; r.shuffle(keys);
                if (!dist) keys.resize(1 + r.below(keys.size()));
                Rel x = a; x.sorted.clear(); x.sorted.insert(keys[0]);
                if (a.nulls) x.sorted.clear();
                if (dist) for (auto &p : x.bag) p.second = 1;
                x.op = new GroupBy(a.op, bind, keys, dist, 1); x.restart = RESTART_ALL && a.restart; x.shape = string(dist ? "dist(" : "gb(") + a.shape + ")";
                return x; }
            case 12: { // union with mappings
                size_t n = 1 + r.below(3); vector<Rel> parts; unsigned w = 1 + r.below(3); Rel x;
                for (unsigned i = 0; i < w; ++i) x.cols.push_back(fresh());
                vector<Operator *> ops; vector<vector<Register *>> maps, inits;
                x.shape = "un(";
                for (size_t i = 0; i < n; ++i) {
                    Rel a = gen(depth - 1); vector<Register *> m, in; vector<int> src;
                    for (unsigned j = 0; j < w; ++j) {
                        if (!a.cols.empty() && r.chance(85)) { size_t c = r.below(a.cols.size()); m.push_back(reg(a.cols[c])); m.push_back(reg(x.cols[j])); src.push_back(c); }
                        else { in.push_back(reg(x.cols[j])); src.push_back(-1); x.nulls = true; }
                    }
                    for (auto &p : a.bag) { Row row; for (unsigned j = 0; j < w; ++j) row.push_back(src[j] < 0 ? NUL : p.first[src[j]]); x.bag[row] += p.second; }
                    ops.push_back(a.op); maps.push_back(m); inits.push_back(in); x.restart = x.restart && a.restart; x.nulls = x.nulls || a.nulls;
                    x.shape += a.shape + (i + 1 < n ? "," : ")");
                }
                x.op = new Union(ops, maps, inits, 1);
                return x; }
            case 13: { // merge union of two sorted columns
                unsigned ka, kb; Rel a = sortedRel(depth - 1, ka), b = sortedRel(depth - 1, kb); Rel x;
                unsigned o = fresh(); int ia = colOf(a, ka), ib = colOf(b, kb);
                for (auto &p : a.bag) x.bag[Row(1, p.first[ia])] += p.second;
                for (auto &p : b.bag) x.bag[Row(1, p.first[ib])] += p.second;
                x.op = new MergeUnion(reg(o), a.op, reg(ka), b.op, reg(kb), 1);
                x.cols.push_back(o); x.sorted.insert(o); x.restart = a.restart && b.restart;
                x.shape = "mu(" + a.shape + "," + b.shape + ")";
                return x; }
            case 14: { // a filter that enumerates the values of a bound position
                unsigned f = fresh(); Rel b;
                for (int i = 0; i < 8; ++i) { b = scan(0, f); if (depScan) break; delete b.op; b.op = 0; }
                if (!b.op) return leaf();
                vector<u64> v; set<u64> s; size_t n = r.below(5);
                for (size_t i = 0; i < n; ++i) { u64 y = pickVal(); if (s.insert(y).second) v.push_back(y); }
                r.shuffle(v);
                Rel x; x.cols.push_back(f); x.cols.insert(x.cols.end(), b.cols.begin(), b.cols.end());
                for (auto &p : b.bag) if (s.count(p.first[0])) x.bag[p.first] += p.second;
                x.op = new NestedLoopFilter(b.op, reg(f), v, 1); x.sorted.insert(f); x.shape = "nlf(" + b.shape + ")";
                return x; }
            case 15: { // sort by text
                Rel a = gen(depth - 1);
                if (a.nulls) return a;
                vector<pair<Register *, bool>> ord; size_t n = r.below(3);
                for (size_t i = 0; i < n && !a.cols.empty(); ++i) ord.push_back(make_pair(reg(r.pick(a.cols)), r.chance(50)));
                Rel x = a; x.sorted.clear(); x.op = new Sort(db, a.op, regsOf(a.cols), ord, 1); x.shape = "sort(" + a.shape + ")";
                return x; }
            default: { // limit and offset: only the number of rows and containment are determined
                Rel a = gen(depth - 1);
                if (!nobag.empty() || depth != topDepth) return a;
                lim = r.chance(30) ? 1000000 : r.below(20); off = r.chance(50) ? 0 : r.below(10);
                dup = r.chance(50);
                Rel x = a; limIn = a.bag;
                x.op = new DuplLimit(a.op, regsOf(a.cols), dup ? DuplLimit::Duplicates : DuplLimit::NoDuplicates, lim, off);
                nobag = "limit"; x.restart = RESTART_ALL && a.restart; x.shape = vf::fmt("lim%llu+%llu(", (unsigned long long) lim, (unsigned long long) off) + a.shape + ")";
                return x; }
        }
    }
    int topDepth = 0; u64 lim = 0, off = 0; bool dup = false; Bag limIn;
};
bool Gen::RESTART_ALL = true;

static Row readRow(Gen &g, const Rel &x) { Row row; for (unsigned c : x.cols) { u64 v = g.reg(c)->value; row.push_back(isNull(v) ? NUL : v); } return row; }
static string showBag(const Bag &b) { string s; int n = 0; for (auto &p : b) { if (++n > 6) { s += "..."; break; } s += "("; for (u64 v : p.first) s += (v == NUL ? string("-") : to_string(v)) + " "; s += ")x" + to_string(p.second) + " "; } return s; }

static void execute(Gen &g, Rel &x, const char *pass) {
    Bag got; u64 calls = 0, rows = 0, last = 0; bool haveLast = false;
    vector<u64> lastOf(x.cols.size(), 0);
    u64 seq = 0, expTotal = Gen::total(x.bag);
    for (u64 c = x.op->first(); c; c = x.op->next()) {
        Row row = readRow(g, x);
        got[row] += c; ++calls; rows += c;
        for (size_t i = 0; i < x.cols.size(); ++i) if (x.sorted.count(x.cols[i])) {
            if (seq && row[i] < lastOf[i]) { vf::violation("order", "output not sorted: " + x.shape); return; }
            lastOf[i] = row[i];
        }
        ++seq;
        if (rows > expTotal * 4 + 100000) { vf::violation("too-many-rows", vf::fmt("%s pass: over %llu rows, expected %llu: ", pass, (unsigned long long) rows, (unsigned long long) expTotal) + x.shape); return; }
    }
    (void) last; (void) haveLast;
    vf::add("rows", rows); vf::add("executions");
    string op = x.shape.substr(0, x.shape.find('('));
    while (!op.empty() && isdigit(op.back())) op.pop_back();
    if (g.nobag == "limit") {
        if (g.dup) {
            u64 n = Gen::total(g.limIn), exp = n > g.off ? min(g.lim, n - g.off) : 0;
            if (rows != exp) vf::violation("limit-count", vf::fmt("%llu rows of %llu with limit %llu offset %llu: ", (unsigned long long) rows, (unsigned long long) n, (unsigned long long) g.lim, (unsigned long long) g.off) + x.shape);
        } else if (rows > g.lim) vf::violation("limit-count", "more rows than the limit: " + x.shape);
        for (auto &p : got) { auto it = g.limIn.find(p.first); if (it == g.limIn.end() || it->second < p.second) { vf::violation("limit-rows", "a row that is not in the input: " + x.shape); break; } }
        return;
    }
    if (got != x.bag) {
        Bag miss, extra;
        for (auto &p : x.bag) { auto it = got.find(p.first); u64 n = it == got.end() ? 0 : it->second; if (n < p.second) miss[p.first] = p.second - n; }
        for (auto &p : got) { auto it = x.bag.find(p.first); u64 n = it == x.bag.end() ? 0 : it->second; if (n < p.second) extra[p.first] = p.second - n; }
        vf::violation(string(pass) + "-rows", vf::fmt("%llu rows, expected %llu; missing ", (unsigned long long) rows, (unsigned long long) expTotal) + showBag(miss) + "; extra " + showBag(extra) + "; plan " + x.shape + vf::fmt(" [hints %d domains %d optional %d]", g.db.hintMode, g.domains, g.optional));
    }
}

struct Collect : public Operator { // root used with the scheduler
    Operator *in; Gen &g; Rel &x; Bag got;
    Collect(Operator *in, Gen &g, Rel &x) : Operator(1), in(in), g(g), x(x) {}
    u64 take(u64 c) { if (c) got[readRow(g, x)] += c; return c; }
    u64 first() { got.clear(); return take(in->first()); }
    u64 next() { return take(in->next()); }
    void print(PlanPrinter &) {}
    void addMergeHint(Register *, Register *) {}
    void getAsyncInputCandidates(Scheduler &s) { in->getAsyncInputCandidates(s); }
};

static void domainsCase(vf::Rng &r) {
    // a domain description never rules out a value that was observed on every side
    vector<u64> pool;
    for (int i = 0; i < 200; ++i) pool.push_back(r.chance(30) ? r.below(64) : r.chance(50) ? r.below(20000) : r.next() >> r.below(40));
    PotentialDomainDescription p, q; vector<set<u64>> obs; set<u64> alive; bool any = false;
    int steps = 1 + r.below(5);
    PotentialDomainDescription *d[2] = {&p, &q}; vector<vector<set<u64>>> hist(2);
    for (int s = 0; s < steps; ++s) {
        int w = r.below(2);
        if (r.chance(25)) { p.sync(q); auto h = hist[0]; h.insert(h.end(), hist[1].begin(), hist[1].end()); hist[0] = hist[1] = h; }
        else { ObservedDomainDescription o; set<u64> vs; size_t n = r.below(r.chance(50) ? 6 : 150); for (size_t i = 0; i < n; ++i) { u64 v = r.pick(pool); o.add(v); vs.insert(v); } for (u64 v : vs) if (!o.couldQualify(v)) vf::violation("domain-observed", "an observed value does not qualify"); d[w]->restrictTo(o); hist[w].push_back(vs); }
        for (int k = 0; k < 2; ++k) {
            vector<u64> ok;
            for (u64 v : pool) { bool in = true; for (auto &h : hist[k]) if (!h.count(v)) in = false; if (in) { ok.push_back(v); if (!d[k]->couldQualify(v)) { vf::violation("domain-lost", vf::fmt("value %llu does not qualify although every side has it", (unsigned long long) v)); return; } } }
            sort(ok.begin(), ok.end());
            for (int t = 0; t < 40; ++t) {
                u64 from = r.chance(50) ? r.pick(pool) : r.chance(50) ? r.below(20000) : r.pick(pool) + r.below(130) - 64;
                u64 c = d[k]->nextCandidate(from);
                auto it = lower_bound(ok.begin(), ok.end(), from);
                if (c != UINT64_MAX && c < from) vf::violation("domain-next", "next candidate lies before the start");
                if (it != ok.end() && c > *it) { vf::violation("domain-next", vf::fmt("next candidate of %llu is %llu, but %llu qualifies", (unsigned long long) from, (unsigned long long) c, (unsigned long long) *it)); return; }
                if (c != UINT64_MAX && !d[k]->couldQualify(c)) { vf::violation("domain-next", vf::fmt("next candidate %llu of %llu does not qualify", (unsigned long long) c, (unsigned long long) from)); return; }
                vf::add("domain-probes");
            }
        }
    }
    (void) any; (void) alive; (void) obs;
}

int main(int argc, char **argv) {
    vf::run(argc, argv, [](vf::Rng &r, u64 i) {
        if (vf::st().mode != "sched" && i % 8 == 7) { domainsCase(r); vf::add("evals"); return; }
        Gen g(r);
        if (vf::st().mode == "sched") { g.optional = false; if (vf::st().opts.count("nodomains")) g.domains = false; }
        Operator::disableSkipping = r.chance(15);
        g.topDepth = 1 + r.below(vf::st().tier == "thorough" ? 5 : 4);
        // single operators over small inputs: the corner cases of each operator are dense there
        if (vf::st().mode != "sched" && r.chance(40)) { g.topDepth = 1; g.optional = r.chance(60); g.domains = !g.optional && r.chance(50); vf::add("single"); }
        if (vf::st().mode == "sched") g.nobag = "none"; // no limits
        Rel x = g.gen(g.topDepth);
        vf::add("evals");
        if (g.nreg >= 399) { delete x.op; return; }
        vf::distinct(vf::hashStr(x.shape) ^ vf::mix(Gen::total(x.bag), g.db.hintMode));
        vf::sample(x.shape + vf::fmt(" -> %llu rows", (unsigned long long) Gen::total(x.bag)));
        string shape = x.shape; string tok;
        for (size_t p = 0; p < shape.size(); ++p) { char c = shape[p]; if (islower(c) || isupper(c)) tok += c; else { if (!tok.empty()) vf::add("op-" + tok); tok.clear(); } }
        if (!tok.empty()) vf::add("op-" + tok);
        if (vf::st().mode == "sched") {
            setenv("MAXTHREADS", r.chance(20) ? "0" : to_string(2 + r.below(6)).c_str(), 1);
            Collect root(x.op, g, x);
            {
                Scheduler s;
                s.execute(&root);
                if (r.chance(30) && x.restart) { vf::add("reexec"); s.execute(&root); }
            }
            if (root.got != x.bag) vf::violation("sched-rows", vf::fmt("%llu rows, expected %llu, plan ", (unsigned long long) Gen::total(root.got), (unsigned long long) Gen::total(x.bag)) + x.shape);
            delete x.op;
            return;
        }
        ostringstream os; { DebugPlanPrinter pp(os, *g.rt, r.chance(50)); x.op->print(pp); }
        if (os.str().empty()) vf::violation("print", "a plan prints as nothing");
        execute(g, x, "first");
        // domains keep what the first run learned about the same data: running again must give the same
        if (x.restart && r.chance(50)) execute(g, x, "again");
        { ostringstream o2; DebugPlanPrinter pp(o2, *g.rt, r.chance(50)); x.op->print(pp); }
        vf::add("skipped-by-hints", g.db.skipped.load());
        delete x.op;
    });
    return 0;
}
