// Whole-KB properties: load, query, iterators, updates, dictionary, read-only use.
#include "kbutil.h"
#include <trident/iterators/pairitr.h>
#include <trident/kb/updater.h>
using namespace kbu;

struct Ctx { std::string dir; StrSet set; ParamsLoad p; std::unique_ptr<KB> kb; std::unique_ptr<Querier> q; Ref ref; std::string desc; std::vector<T3> gone; };

static StrSet toSet(const std::vector<StrT> &v) { return StrSet(v.begin(), v.end()); }

static size_t pickSize(Rng &r, bool small) {
    if (small) return 1 + r.below(r.chance(40) ? 400 : 60);
    switch (r.below(8)) { case 0: return 1 + r.below(4); case 1: case 2: case 3: return 1 + r.below(60); case 4: case 5: return 1 + r.below(600); case 6: return 1 + r.below(3000); default: return 1 + r.below(vf::st().tier == "thorough" ? 20000 : 5000); }
}

static void open(Ctx &c, bool partials = false) {
    KBConfig cfg;
    c.q.reset(); c.kb.reset();
    c.kb.reset(new KB((c.dir + "/kb").c_str(), true, false, true, cfg, std::vector<std::string>(), partials));
    c.q.reset(c.kb->query());
}
static void build(Ctx &c, Rng &r, bool small) {
    c.dir = vf::freshDir("w");
    auto v = genTriples(r, pickSize(r, small));
    c.set = toSet(v);
    writeNT(c.dir + "/in", v, 1 + r.below(5));
    c.p = randParams(r, c.dir + "/in", c.dir + "/kb");
    auto &o = vf::st().opts;
    if (o.count("ni")) c.p.nindices = atoi(o["ni"].c_str());
    c.p.relsOwnIDs = r.chance(15);
    c.p.sample = r.chance(o.count("sample") ? 100 : 0);
    c.desc = vf::fmt("%zu triples %s", v.size(), describe(c.p).c_str());
    loadKB(c.p);
}

static std::string D(const Ctx &c, const std::string &s) { return s + " [" + c.desc + "]"; }

static void checkScans(Ctx &c) {
    for (int idx = 0; idx < 6; ++idx) {
        PairItr *it = c.q->getIterator(idx, -1, -1, -1);
        auto got = drain(it);
        c.q->releaseItr(it);
        auto exp = expect(c.ref.spo, idx, -1, -1, -1);
        if (got != exp) vf::violation(vf::fmt("scan-%s", IDXN[idx]), D(c, diffStr(got, exp)));
        vf::add("scans"); vf::add("rows", got.size());
    }
}
static void checkText(Ctx &c) {
    StrSet got;
    PairItr *it = c.q->getIterator(IDX_SPO, -1, -1, -1);
    DictMgmt *d = c.kb->getDictMgmt();
    size_t n = 0;
    while (it->hasNext()) {
        it->next(); ++n;
        bool a, b, e;
        StrT t;
        t.s = textOf(d, it->getKey(), false, a); t.p = textOf(d, it->getValue1(), c.ref.ownRels, b); t.o = textOf(d, it->getValue2(), false, e);
        if (!a || !b || !e) vf::violation("text-missing", D(c, "a loaded id has no text"));
        got.insert(t);
    }
    c.q->releaseItr(it);
    if (got != c.set || n != got.size()) vf::violation("text-set", D(c, vf::fmt("dump has %zu triples (%zu distinct), input %zu", n, got.size(), c.set.size())));
}

static void modeLoad(Rng &r) {
    Ctx c; build(c, r, false); open(c);
    c.ref = makeRef(*c.kb, c.set, c.p.relsOwnIDs);
    VF_CHECK(c.kb->getSize() == (int64_t) c.ref.spo.size(), "size", "%lld vs %zu [%s]", (long long) c.kb->getSize(), c.ref.spo.size(), c.desc.c_str());
    checkScans(c);
    checkText(c);
    // every key of every permutation
    for (int idx = 0; idx < 6; ++idx) {
        std::map<int64_t, std::vector<T3>> by;
        for (auto &t : c.ref.spo) { T3 x = permute(t, idx); by[std::get<0>(x)].push_back(x); }
        for (auto &k : by) {
            std::sort(k.second.begin(), k.second.end());
            PairItr *it = c.q->getPermuted(idx, k.first, -1, -1);
            auto got = drain(it);
            c.q->releaseItr(it);
            if (got != k.second) vf::violation(vf::fmt("key-%s", IDXN[idx]), D(c, vf::fmt("key %lld: ", (long long) k.first) + diffStr(got, k.second)));
            vf::add("tables");
        }
    }
    vf::distinct(vf::hashStr(c.desc));
    vf::sample(c.desc);
}

// patterns: constants from the data, or ids that do not occur
struct Pat { int64_t s, p, o; };
static std::vector<Pat> patterns(Ctx &c, Rng &r, size_t n) {
    std::vector<T3> all(c.ref.spo.begin(), c.ref.spo.end());
    std::vector<Pat> out;
    std::vector<int64_t> ids; for (auto &x : c.ref.entT) ids.push_back(x.first); for (auto &x : c.ref.relT) ids.push_back(x.first);
    if (ids.empty()) ids.push_back(0);
    for (size_t i = 0; i < n; ++i) {
        Pat x{-1, -1, -1};
        int mask = (int) r.below(8);
        T3 t = all.empty() ? T3(0, 0, 0) : all[r.below(all.size())];
        if (!c.gone.empty() && r.chance(30)) t = r.pick(c.gone);
        if (mask & 1) x.s = std::get<0>(t);
        if (mask & 2) x.p = std::get<1>(t);
        if (mask & 4) x.o = std::get<2>(t);
        auto mut = [&](int64_t &v) { if (v >= 0 && r.chance(12)) v = r.chance(30) ? c.ref.maxId + 1 + (int64_t) r.below(1000) : ids[r.below(ids.size())]; };
        mut(x.s); mut(x.p); mut(x.o);
        out.push_back(x);
    }
    return out;
}
static std::string P(const Pat &x) { return vf::fmt("(%lld,%lld,%lld)", (long long) x.s, (long long) x.p, (long long) x.o); }

static void checkQueries(Ctx &c, Rng &r, size_t n, bool cards, bool groups = true) {
    auto pats = patterns(c, r, n);
    for (auto &x : pats) {
        vf::add("patterns");
        int idx = c.q->getIndex(x.s, x.p, x.o);
        int others[6] = {0,1,2,3,4,5};
        for (int oi = 0; oi < 6; ++oi) {
            int k = others[oi];
            // constants have to be a prefix of the permutation
            int64_t v[3] = { x.s, x.p, x.o };
            int64_t e1 = v[comp(k, 0)], e2 = v[comp(k, 1)], e3 = v[comp(k, 2)];
            bool prefix = !(e1 < 0 && (e2 >= 0 || e3 >= 0)) && !(e2 < 0 && e3 >= 0);
            if (!prefix) continue;
            auto exp = expect(c.ref.spo, k, x.s, x.p, x.o);
            PairItr *it = c.q->getPermuted(k, e1, e2, e3);
            auto got = drain(it);
            c.q->releaseItr(it);
            if (got != exp) vf::violation(vf::fmt("pattern-%s", IDXN[k]), D(c, P(x) + " " + diffStr(got, exp)));
            vf::add("answers", exp.size());
            if (cards) {
                uint64_t card = c.q->getCardOnIndex(k, x.s, x.p, x.o);
                if (card != exp.size()) vf::violation("cardonindex", D(c, vf::fmt("%s%s: getCardOnIndex %llu, matching %zu", IDXN[k], P(x).c_str(), (unsigned long long) card, exp.size())));
                if (groups && e1 >= 0 && e2 < 0) {
                    std::set<int64_t> d1; for (auto &t : exp) d1.insert(std::get<1>(t));
                    uint64_t c1 = c.q->getCardOnIndex(k, x.s, x.p, x.o, true);
                    if (c1 != d1.size()) vf::violation("cardonindex-distinct", D(c, vf::fmt("%s%s: distinct second column %llu, expected %zu", IDXN[k], P(x).c_str(), (unsigned long long) c1, d1.size())));
                    // the groups of the second column
                    PairItr *g = c.q->getPermuted(k, e1, -1, -1);
                    g->ignoreSecondColumn();
                    std::map<int64_t, int64_t> want; for (auto &t : exp) want[std::get<1>(t)]++;
                    std::vector<std::pair<int64_t, int64_t>> gotG, expG(want.begin(), want.end());
                    while (g->hasNext()) { g->next(); int64_t vv = g->getValue1(); gotG.push_back(std::make_pair(vv, g->getCount())); if (gotG.size() > exp.size() + 5) break; }
                    c.q->releaseItr(g);
                    if (gotG != expG) vf::violation(vf::fmt("groups-%s", IDXN[k]), D(c, vf::fmt("key %lld: %zu groups, expected %zu", (long long) e1, gotG.size(), expG.size())));
                }
            }
        }
        auto exp = expect(c.ref.spo, idx, x.s, x.p, x.o);
        if (cards) {
            int64_t card = c.q->getCard(x.s, x.p, x.o);
            if (card != (int64_t) exp.size()) vf::violation("getcard", D(c, vf::fmt("%s: getCard %lld, matching %zu", P(x).c_str(), (long long) card, exp.size())));
        }
        bool ex = c.q->exists(x.s, x.p, x.o), em = c.q->isEmpty(x.s, x.p, x.o);
        if (ex != !exp.empty()) vf::violation("exists", D(c, P(x) + vf::fmt(": exists=%d, matching %zu", ex, exp.size())));
        if (em != exp.empty()) vf::violation("isempty", D(c, P(x) + vf::fmt(": isEmpty=%d, matching %zu", em, exp.size())));
        if (cards && groups) {
            // distinct values of one unbound position
            for (int pos = 0; pos < 3; ++pos) {
                int64_t v[3] = { x.s, x.p, x.o };
                int unb = (x.s < 0) + (x.p < 0) + (x.o < 0);
                if (v[pos] >= 0 || unb != 2) continue;
                std::set<int64_t> dv; for (auto &t : exp) dv.insert(get(T3(std::get<0>(t), std::get<1>(t), std::get<2>(t)), 0)), dv.clear();
                for (auto &t : c.ref.spo) if (matches(t, x.s, x.p, x.o)) dv.insert(get(t, pos));
                int64_t n1 = c.q->getCard(x.s, x.p, x.o, (uint8_t) pos);
                if (n1 != (int64_t) dv.size()) vf::violation("getcard-distinct", D(c, vf::fmt("%s at %d: %lld, expected %zu", P(x).c_str(), pos, (long long) n1, dv.size())));
            }
        }
        vf::distinct(vf::mix(vf::hashStr(c.desc), vf::hashStr(P(x))));
    }
    // lists of the distinct terms
    if (cards) for (int idx = 0; idx < 6; ++idx) {
        std::map<int64_t, int64_t> want; for (auto &t : c.ref.spo) want[get(t, comp(idx, 0))]++;
        PairItr *it = c.q->getTermList(idx);
        bool counts = it->getTypeItr() == TERM_ITR; // only those of stored permutations count rows
        std::vector<std::pair<int64_t, int64_t>> got, exp(want.begin(), want.end());
        while (it->hasNext()) { it->next(); got.push_back(std::make_pair(it->getKey(), counts ? it->getCount() : 0)); if (got.size() > exp.size() + 5) break; }
        c.q->releaseItr(it);
        if (!counts) for (auto &x : exp) x.second = 0;
        if (got != exp) {
            bool keys = got.size() == exp.size(); for (size_t i = 0; keys && i < got.size(); ++i) keys = got[i].first == exp[i].first;
            std::string f; for (size_t i = 0; i < std::max(got.size(), exp.size()) && f.empty(); ++i) if (i >= got.size() || i >= exp.size() || got[i] != exp[i]) f = vf::fmt(" at %zu: got %lld x%lld expected %lld x%lld", i, i < got.size() ? (long long) got[i].first : -1, i < got.size() ? (long long) got[i].second : -1, i < exp.size() ? (long long) exp[i].first : -1, i < exp.size() ? (long long) exp[i].second : -1);
            vf::violation(vf::fmt("termlist%s-%s", keys ? "-count" : "", IDXN[idx]), D(c, vf::fmt("%zu terms, expected %zu;", got.size(), exp.size()) + f));
        }
        vf::add("termlists");
    }
}
static void modeQuery(Rng &r) {
    Ctx c; build(c, r, true); open(c);
    c.ref = makeRef(*c.kb, c.set, c.p.relsOwnIDs);
    checkQueries(c, r, 60, true);
    vf::sample(c.desc);
}

// iterator protocol: seeking
static void walkItrs(Ctx &c, Rng &r, int n, bool seeks, bool marks) {
    std::vector<T3> all(c.ref.spo.begin(), c.ref.spo.end());
    if (all.empty()) return;
    for (int k = 0; k < n; ++k) {
        int idx = (int) r.below(6);
        T3 t = permute(all[r.below(all.size())], idx);
        int64_t key = std::get<0>(t);
        bool c1 = r.chance(25);
        std::vector<T3> exp;
        for (auto &x : all) { T3 y = permute(x, idx); if (std::get<0>(y) == key && (!c1 || std::get<1>(y) == std::get<1>(t))) exp.push_back(y); }
        std::sort(exp.begin(), exp.end());
        PairItr *it = c.q->getPermuted(idx, key, c1 ? std::get<1>(t) : -1, -1);
        size_t pos = 0; // index of the element the next next() has to return
        std::string tr; int type = it->getTypeItr();
        bool bad = false;
        size_t steps = 2 + r.below(30);
        int plan = seeks && marks ? (int) r.below(2) : seeks ? 0 : 1; // a marked iterator is not sought
        bool marked = false; size_t markPos = 0;
        for (size_t s = 0; s < steps && !bad; ++s) {
            bool hn = it->hasNext();
            if (r.chance(20)) { bool h2 = it->hasNext(); if (h2 != hn) { vf::violation(vf::fmt("hasnext-unstable-%d", type), D(c, tr)); bad = true; } }
            if (hn != (pos < exp.size())) { vf::violation(vf::fmt("itr-hasnext-%d", type), D(c, vf::fmt("%s key %lld: hasNext=%d at %zu of %zu after %s", IDXN[idx], (long long) key, hn, pos, exp.size(), tr.c_str()))); bad = true; break; }
            if (!hn) {
                if (plan && marked && r.chance(60)) { it->reset(0); pos = markPos; tr += "reset "; vf::add("resets"); continue; }
                break;
            }
            it->next();
            T3 g(it->getKey(), it->getValue1(), it->getValue2());
            if (g != exp[pos]) { vf::violation(vf::fmt("itr-value-%d", type), D(c, vf::fmt("%s key %lld: got %s expected %s after %s", IDXN[idx], (long long) key, show(g).c_str(), show(exp[pos]).c_str(), tr.c_str()))); bad = true; break; }
            tr += vf::fmt("n%zu ", pos);
            pos++;
            if (plan) {
                if (marked && r.chance(25)) {
                    it->reset(0); pos = markPos; tr += "reset "; vf::add("resets");
                    // the row that was marked is the current one again
                    T3 h(it->getKey(), it->getValue1(), it->getValue2());
                    if (h != exp[pos - 1]) { vf::violation(vf::fmt("itr-reset-%d", type), D(c, vf::fmt("%s key %lld: current row after reset %s, marked %s; ", IDXN[idx], (long long) key, show(h).c_str(), show(exp[pos - 1]).c_str()) + tr)); bad = true; break; }
                } else if (r.chance(25)) { it->mark(); marked = true; markPos = pos; tr += "mark "; vf::add("marks"); }
            } else if (r.chance(50)) {
                int64_t a, b;
                size_t cur = pos - 1;
                size_t tgt = r.chance(60) ? std::min(exp.size() - 1, cur + r.below(1 + exp.size() / 3 + 2)) : r.below(exp.size());
                a = std::get<1>(exp[tgt]); b = std::get<2>(exp[tgt]);
                if (c1) { a = std::get<1>(t); if (r.chance(30)) b += (int64_t) r.below(3) - (b > 0 ? 1 : 0); else if (r.chance(10)) b = 0; }
                else switch (r.below(6)) { case 0: b = 0; break; case 1: a += 1; b = 0; break; case 2: if (b > 0) b -= 1; break; case 3: b += 1; break; default: break; }
                it->moveto(a, b);
                tr += vf::fmt("moveto(%lld,%lld) ", (long long) a, (long long) b);
                vf::add("seeks");
                // never backwards: the element just returned is the earliest that can come again
                size_t np = cur;
                while (np < exp.size() && (std::get<1>(exp[np]) < a || (std::get<1>(exp[np]) == a && std::get<2>(exp[np]) < b))) np++;
                pos = np;
            }
        }
        if (!bad && r.chance(50)) { auto rest = drain(it); std::vector<T3> e2(exp.begin() + std::min(pos, exp.size()), exp.end()); if (rest != e2) vf::violation(vf::fmt("itr-rest-%d", type), D(c, tr + diffStr(rest, e2))); }
        c.q->releaseItr(it);
        vf::add("iterators"); vf::add(vf::fmt("itrtype-%d", type));
        vf::distinct(vf::mix(vf::hashStr(c.desc), vf::hashStr(tr) + idx));
    }
}
static void modeItr(Rng &r) {
    Ctx c; build(c, r, true); open(c);
    c.ref = makeRef(*c.kb, c.set, c.p.relsOwnIDs);
    walkItrs(c, r, 60, true, true);
    vf::sample(c.desc);
}

// additions, removals and merges of updates against a set of triples
static void modeUpdate(Rng &r) {
    auto &o = vf::st().opts;
    Ctx c; c.dir = vf::freshDir("w");
    auto pool = genTriples(r, 1 + r.below(r.chance(30) ? 400 : 60));
    auto base = pool; r.shuffle(base); base.resize(1 + r.below(base.size()));
    c.set = toSet(base);
    writeNT(c.dir + "/in", base, 1 + r.below(3));
    c.p = randParams(r, c.dir + "/in", c.dir + "/kb");
    if (!o.count("anycfg")) { c.p.nindices = 6; c.p.aggrIndices = false; c.p.flatTree = false; c.p.relsOwnIDs = false; }
    c.desc = vf::fmt("%zu triples %s", base.size(), describe(c.p).c_str());
    loadKB(c.p);
    StrSet ever = c.set;
    int n = 1 + r.below(5);
    for (int u = 0; u < n; ++u) {
        bool add = r.chance(60);
        std::vector<StrT> up; size_t k = 1 + r.below(r.chance(30) ? pool.size() : 10);
        std::vector<StrT> cur(c.set.begin(), c.set.end());
        bool big = r.chance(2); // enough new terms for a dictionary of its own
        auto extra = genTriples(r, big ? 8000 : 1 + r.below(r.chance(15) ? 400 : 20), vf::fmt("u%d", (int) r.below(3)));
        if (big) { k = extra.size(); for (size_t i = 0; i < extra.size(); ++i) { auto &t = extra[i]; t.s = vf::fmt("<http://ex.org/big/%zu>", i); t.o = vf::fmt("\"big %zu\"", i); up.push_back(t); } vf::add("big updates"); }
        else if (r.chance(10)) k += 300;
        for (size_t i = 0; i < k; ++i) { int w = r.below(10); up.push_back(w < 4 ? r.pick(pool) : w < 6 && !cur.empty() ? r.pick(cur) : w < 8 ? r.pick(extra) : StrT{r.pick(pool).s, r.pick(extra).p, r.pick(pool).o}); }
        if (!add && r.chance(15)) for (auto &t : cur) up.push_back(t);
        std::string ud = c.dir + vf::fmt("/up%d", u); writeNT(ud, up, 1 + r.below(3));
        ever.insert(up.begin(), up.end());
        if (add) for (auto &t : up) c.set.insert(t); else for (auto &t : up) c.set.erase(t);
        c.desc += vf::fmt(" %s%zu", add ? "+" : "-", up.size());
        { Updater x; x.creatediffupdate(add ? DiffIndex::TypeUpdate::ADDITION_df : DiffIndex::TypeUpdate::DELETE_df, c.dir + "/kb", ud); }
        vf::add(add ? "additions" : "removals");
        if (!o.count("nomerge") && r.chance(25)) { KBConfig cfg; KB kb((c.dir + "/kb").c_str(), true, false, true, cfg); kb.mergeUpdates(); c.desc += " merge"; vf::add("merges"); }
        if (r.chance(50) || u == n - 1) {
            open(c); int before = vf::st().violations;
            c.ref = makeRef(*c.kb, c.set, false); if (vf::st().violations != before) return;
            c.gone.clear();
            for (auto &t : ever) { int64_t a, b, d; auto *dm = c.kb->getDictMgmt(); if (!c.set.count(t) && lookup(dm, t.s, a, false) && lookup(dm, t.p, b, false) && lookup(dm, t.o, d, false)) c.gone.push_back(T3(a, b, d)); }
            checkScans(c); checkText(c); if (vf::st().violations != before) return;
            checkQueries(c, r, 30, !o.count("nocards"), o.count("groups") > 0); if (vf::st().violations != before) return;
            if (!o.count("nowalk")) { walkItrs(c, r, 20, !o.count("noseek"), !o.count("nomark")); if (vf::st().violations != before) return; }
            c.q.reset(); c.kb.reset();
        }
    }
    vf::distinct(vf::hashStr(c.desc)); vf::sample(c.desc);
}

int main(int argc, char **argv) {
    return vf::run(argc, argv, [](Rng &r, uint64_t) {
        const std::string &m = vf::st().mode;
        if (m == "load") modeLoad(r);
        else if (m == "query") modeQuery(r);
        else if (m == "itr") modeItr(r);
        else if (m == "update") modeUpdate(r);
    });
}
