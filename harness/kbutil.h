// Data generation, loading and reference answers for harnesses that use a whole KB.
#ifndef VERIF_KBUTIL_H
#define VERIF_KBUTIL_H
#include "common.h"
#include <trident/loader.h>
#include <trident/kb/kb.h>
#include <trident/kb/querier.h>
#include <trident/kb/dictmgmt.h>
#include <trident/kb/updater.h>
#include <kognac/utils.h>
#include <memory>
#include <tuple>
#include <thread>

namespace kbu {
using vf::Rng;
typedef std::tuple<int64_t, int64_t, int64_t> T3; // s, p, o
struct StrT { std::string s, p, o; bool operator<(const StrT &x) const { return std::tie(s, p, o) < std::tie(x.s, x.p, x.o); }
    bool operator==(const StrT &x) const { return s == x.s && p == x.p && o == x.o; } };
typedef std::set<StrT> StrSet;

struct Vocab { std::vector<std::string> s, p, o; };

inline std::string iri(Rng &r, const char *kind, uint64_t i) {
    static const char *hosts[] = { "http://ex.org/", "http://www.example.com/a/b#", "urn:x:", "http://dbpedia.org/resource/" };
    return std::string("<") + hosts[i % 4] + kind + std::to_string(i) + ">";
}
inline std::string literal(Rng &r, uint64_t i) {
    static const char *alpha = "abcdefghijklmnopqrstuvwxyz ABCDEF0123456789_-.,;:/()#";
    std::string b;
    switch (r.below(8)) {
        case 0: return "\"" + std::to_string((int64_t) i - 50) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
        case 1: return "\"lit " + std::to_string(i) + "\"@en";
        case 2: { size_t n = r.chance(10) ? 200 + r.below(900) : r.below(40); for (size_t k = 0; k < n; ++k) b += alpha[r.below(strlen(alpha))]; return "\"" + b + "\""; }
        case 3: return "\"caf\xC3\xA9 " + std::to_string(i) + " \xE6\x97\xA5\xE6\x9C\xAC\"";
        case 4: return "\"q\\\"uote\\\\ " + std::to_string(i) + "\"";
        case 5: return "\"\"";
        default: return "\"v" + std::to_string(i) + "\"";
    }
}
// shape: how subjects, predicates and objects are distributed; it decides which table layouts appear
inline std::vector<StrT> genTriples(Rng &r, size_t n, const std::string &tag = "") {
    int shape = (int) r.below(6);
    size_t ns, np, no;
    switch (shape) {
        case 0: ns = 1 + n / 4; np = 1 + r.below(6); no = 1 + n / 4; break;           // ordinary
        case 1: ns = 1 + r.below(4); np = 1 + r.below(3); no = n + 1; break;          // hubs: large tables
        case 2: ns = n + 1; np = 1 + r.below(3); no = 1 + r.below(4); break;
        case 3: ns = 1 + n / 10; np = 1 + n / 10; no = 1 + n / 10; break;             // many predicates
        case 4: ns = 3; np = 3; no = 3; break;                                          // dense, tiny
        default: ns = n + 1; np = 1 + r.below(40); no = n + 1; break;                  // sparse
    }
    // one pool shared by subject, predicate and object positions in part
    bool shared = r.chance(60);
    std::vector<std::string> S, P, O;
    for (size_t i = 0; i < ns; ++i) S.push_back(r.chance(5) ? "_:b" + tag + std::to_string(i) : iri(r, ("s" + tag).c_str(), i));
    for (size_t i = 0; i < np; ++i) P.push_back(iri(r, ("p" + tag).c_str(), i));
    for (size_t i = 0; i < no; ++i) O.push_back(r.chance(35) ? literal(r, i) : iri(r, ("o" + tag).c_str(), i));
    std::vector<StrT> out;
    for (size_t i = 0; i < n; ++i) {
        StrT t;
        // skewed choice so that some tables are long and most short
        auto skew = [&](size_t m) { return r.chance(30) ? r.below(1 + m / 8) : r.below(m); };
        t.s = shared && r.chance(10) ? O[r.below(O.size())] : S[skew(S.size())];
        if (t.s[0] == '"') t.s = S[0];
        t.p = P[skew(P.size())];
        t.o = shared && r.chance(25) ? S[r.below(S.size())] : (shared && r.chance(5) ? P[r.below(P.size())] : O[skew(O.size())]);
        out.push_back(t);
        if (r.chance(5)) out.push_back(out[r.below(out.size())]); // duplicates
    }
    r.shuffle(out);
    return out;
}
inline void writeNT(const std::string &dir, const std::vector<StrT> &v, size_t nfiles, const std::string &prefix = "part") {
    Utils::create_directories(dir);
    std::vector<std::string> f(nfiles);
    for (size_t i = 0; i < v.size(); ++i) f[i % nfiles] += v[i].s + " " + v[i].p + " " + v[i].o + " .\n";
    for (size_t i = 0; i < nfiles; ++i) vf::spew(dir + "/" + prefix + std::to_string(i) + ".nt", f[i]);
}
inline std::string describe(const ParamsLoad &p) {
    return vf::fmt("nindices=%d aggr=%d skip=%d/%d fixed=%d/%d blocks=%d threads=%d/%d flat=%d rels=%d dicts=%d plain=%d gf=%s",
            p.nindices, p.aggrIndices, p.canSkipTables, p.thresholdSkipTable, p.enableFixedStrat, p.fixedStrat, p.createIndicesInBlocks,
            p.parallelThreads, p.maxReadingThreads, p.flatTree, p.relsOwnIDs, p.dictionaries, p.storePlainList, p.graphTransformation.c_str());
}
inline ParamsLoad baseParams(const std::string &in, const std::string &kb) {
    ParamsLoad p;
    p.triplesInputDir = in; p.tmpDir = kb; p.kbDir = kb;
    p.sample = false; p.storeDicts = true; p.relsOwnIDs = false; p.flatTree = false; p.timeoutStats = -1;
    p.parallelThreads = 4; p.maxReadingThreads = 2;
    return p;
}
inline void loadKB(ParamsLoad p) { Loader l; l.load(p); }

static const int IDXS[6] = { IDX_SPO, IDX_OPS, IDX_POS, IDX_SOP, IDX_OSP, IDX_PSO };
static const char *IDXN[6] = { "SPO", "OPS", "POS", "SOP", "OSP", "PSO" };
// component of (s,p,o) at place i of permutation idx
inline int comp(int idx, int i) {
    static const int ord[6][3] = { {0,1,2}, {2,1,0}, {1,2,0}, {0,2,1}, {2,0,1}, {1,0,2} };
    return ord[idx][i];
}
inline int64_t get(const T3 &t, int c) { return c == 0 ? std::get<0>(t) : c == 1 ? std::get<1>(t) : std::get<2>(t); }
inline T3 permute(const T3 &t, int idx) { return T3(get(t, comp(idx, 0)), get(t, comp(idx, 1)), get(t, comp(idx, 2))); }

// text -> id through the dictionary of the KB; checks the bijection on the way
struct IdMap { std::map<std::string, int64_t> ent, rel; bool sep; };

inline std::string show(const T3 &t) { return vf::fmt("(%lld,%lld,%lld)", (long long) std::get<0>(t), (long long) std::get<1>(t), (long long) std::get<2>(t)); }

// a random legal configuration
inline ParamsLoad randParams(Rng &r, const std::string &in, const std::string &kb) {
    ParamsLoad p = baseParams(in, kb);
    static const int ni[] = { 6, 6, 6, 4, 3, 1 };
    p.nindices = ni[r.below(6)];
    p.aggrIndices = (p.nindices == 6 || p.nindices == 3) && r.chance(25);
    p.canSkipTables = r.chance(30);
    p.thresholdSkipTable = (int) r.below(40);
    p.createIndicesInBlocks = r.chance(25);
    p.storePlainList = r.chance(20);
    p.flatTree = p.nindices == 6 && !p.aggrIndices && !p.canSkipTables && r.chance(30);
    p.parallelThreads = 1 << r.below(4);
    p.maxReadingThreads = 1 << r.below(4);
    if (p.maxReadingThreads > p.parallelThreads) p.maxReadingThreads = p.parallelThreads;
    if (p.aggrIndices) p.maxReadingThreads = 1;
    if (r.chance(15)) { p.enableFixedStrat = true; const int fs[] = { (int) FIXEDSTRAT5, (int) FIXEDSTRAT6, (int) FIXEDSTRAT7 }; p.fixedStrat = fs[r.below(3)]; }
    return p;
}
// the ids of terms, and the reference set of triples over ids
struct Ref {
    std::map<std::string, int64_t> ent, rel; // text -> id
    std::map<int64_t, std::string> entT, relT;
    std::set<T3> spo;
    bool ownRels = false;
    int64_t maxId = 0;
};
inline bool lookup(DictMgmt *d, const std::string &s, int64_t &id, bool rel) {
    nTerm x = -1;
    bool ok = rel ? d->getNumberRel(s.c_str(), (int) s.size(), &x) : d->getNumber(s.c_str(), (int) s.size(), &x);
    id = (int64_t) x;
    return ok;
}
inline std::string textOf(DictMgmt *d, int64_t id, bool rel, bool &ok) {
    static thread_local std::vector<char> b(MAX_TERM_SIZE * 2);
    int sz = 0;
    ok = rel ? d->getTextRel((nTerm) id, b.data(), sz) : d->getText((nTerm) id, b.data(), sz);
    return ok ? std::string(b.data(), sz) : std::string();
}
inline Ref makeRef(KB &kb, const StrSet &v, bool ownRels) {
    Ref R; R.ownRels = ownRels;
    DictMgmt *d = kb.getDictMgmt();
    auto id = [&](const std::string &s, bool rel) -> int64_t {
        auto &m = rel ? R.rel : R.ent;
        auto it = m.find(s);
        if (it != m.end()) return it->second;
        int64_t x = -1;
        if (!lookup(d, s, x, rel)) { vf::violation("dict-missing", "term without id: " + s); x = -1000 - (int64_t) m.size(); }
        else {
            auto &t = rel ? R.relT : R.entT;
            if (t.count(x)) vf::violation("dict-collision", vf::fmt("id %lld is given to ", (long long) x) + s + " and " + t[x]);
            t[x] = s;
            bool ok; std::string back = textOf(d, x, rel, ok);
            if (!ok || back != s) vf::violation("dict-roundtrip", vf::fmt("id %lld: ", (long long) x) + s + " -> " + (ok ? back : "(none)"));
        }
        m[s] = x;
        if (x > R.maxId) R.maxId = x;
        return x;
    };
    for (auto &t : v) R.spo.insert(T3(id(t.s, false), id(t.p, ownRels), id(t.o, false)));
    return R;
}
inline bool matches(const T3 &t, int64_t s, int64_t p, int64_t o) {
    return (s < 0 || s == std::get<0>(t)) && (p < 0 || p == std::get<1>(t)) && (o < 0 || o == std::get<2>(t));
}
inline std::vector<T3> expect(const std::set<T3> &spo, int idx, int64_t s, int64_t p, int64_t o) {
    std::vector<T3> out;
    for (auto &t : spo) if (matches(t, s, p, o)) out.push_back(permute(t, idx));
    std::sort(out.begin(), out.end());
    return out;
}
inline std::vector<T3> drain(PairItr *it, size_t limit = 10000000) {
    std::vector<T3> got;
    while (it->hasNext()) { it->next(); got.push_back(T3(it->getKey(), it->getValue1(), it->getValue2())); if (got.size() > limit) { vf::violation("endless", "iterator does not stop"); break; } }
    return got;
}
inline std::string diffStr(const std::vector<T3> &got, const std::vector<T3> &exp) {
    std::string o = vf::fmt("got %zu expected %zu", got.size(), exp.size());
    for (size_t i = 0; i < std::max(got.size(), exp.size()); ++i)
        if (i >= got.size() || i >= exp.size() || got[i] != exp[i]) {
            o += vf::fmt("; first difference at %zu: got ", i) + (i < got.size() ? show(got[i]) : "end") + " expected " + (i < exp.size() ? show(exp[i]) : "end");
            break;
        }
    return o;
}
} // namespace kbu
#endif
