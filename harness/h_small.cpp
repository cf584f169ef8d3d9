// C28: array and difference iterators as cursors, cache index, configuration map, query-file driver, memory budget.
#include "common.h"
#include <trident/iterators/arrayitr.h>
#include <trident/iterators/rmitr.h>
#include <trident/iterators/emptyitr.h>
#include <trident/kb/cacheidx.h>
#include <trident/kb/kbconfig.h>
#include <trident/tests/timings.h>
#include <trident/utils/memorymgr.h>
#include <trident/model/tuple.h>
#include <iostream>
#include <memory>
using namespace vf;
using std::string; using std::vector;
typedef std::pair<uint64_t, uint64_t> Row;

static Pairs randPairs(Rng &r, size_t n, uint64_t dom1, uint64_t dom2, uint64_t off = 0) {
    std::set<Row> s;
    for (size_t i = 0; i < n; ++i) s.insert(Row(off + r.below(dom1), r.below(dom2)));
    return Pairs(s.begin(), s.end());
}
struct Exp { uint64_t a, b; int64_t count; };
static string showE(const Exp &e) { return fmt("(%llu,%llu)", (unsigned long long) e.a, (unsigned long long) e.b); }
// walks an iterator through a random legal history next to a sorted list of expected rows
static void cursor(Rng &r, PairItr *it, const vector<Exp> &exp, bool ign, bool seek, bool marks, const string &what, const string &desc) {
    size_t pos = 0; bool look = false; bool have = false;
    size_t mpos = 0; bool mset = false;
    string tr;
    size_t steps = 1 + r.below(40);
    for (size_t s = 0; s < steps; ++s) {
        bool hn = it->hasNext();
        if (r.chance(20) && it->hasNext() != hn) { violation(what + ":hasnext-unstable", desc + tr); return; }
        if (hn != (pos < exp.size())) { violation(what + ":hasnext", fmt("hasNext=%d at row %zu of %zu after %s; ", hn, pos, exp.size(), tr.c_str()) + desc); return; }
        look = true;
        if (!hn) {
            if (mset && r.chance(60)) { it->reset(0); pos = mpos; look = false; tr += "R "; add("resets");
                if ((uint64_t) it->getValue1() != exp[mpos - 1].a || (!ign && (uint64_t) it->getValue2() != exp[mpos - 1].b)) { violation(what + ":reset-value", fmt("after reset the current row is (%lld,%lld), marked was %s after %s; ", (long long) it->getValue1(), (long long) it->getValue2(), showE(exp[mpos - 1]).c_str(), tr.c_str()) + desc); return; }
                goto seekstep; }
            break;
        }
        it->next(); look = false; have = true;
        { const Exp &e = exp[pos];
          if ((uint64_t) it->getValue1() != e.a || (!ign && (uint64_t) it->getValue2() != e.b)) { violation(what + ":value", fmt("row %zu is (%lld,%lld), expected %s after %s; ", pos, (long long) it->getValue1(), (long long) it->getValue2(), showE(e).c_str(), tr.c_str()) + desc); return; }
          if (ign && r.chance(50)) { int64_t c = it->getCount(); if (c != e.count) { violation(what + ":count", fmt("row %s counts %lld, expected %lld after %s; ", showE(e).c_str(), (long long) c, (long long) e.count, tr.c_str()) + desc); return; } if (r.chance(20) && it->getCount() != e.count) { violation(what + ":count2", "asking the count again changes it; " + desc); return; } } }
        tr += fmt("n%zu ", pos);
        pos++;
        if (marks && (!mset || r.chance(10)) && r.chance(25)) { it->mark(); mpos = pos; mset = true; tr += "M "; add("marks"); }
        else if (mset && r.chance(12)) { it->reset(0); pos = mpos; tr += "R "; add("resets"); if ((uint64_t) it->getValue1() != exp[mpos - 1].a) { violation(what + ":reset-value", "after reset the first value is wrong; " + desc + tr); return; } }
seekstep:
        if (seek && have && r.chance(40)) {
            size_t cur = pos - 1;
            bool la = false;
            if (r.chance(20)) { it->hasNext(); la = true; tr += "h "; }
            uint64_t a, b;
            size_t tgt = la ? std::min(exp.size() - 1, pos + r.below(4)) : r.below(exp.size());
            if (tgt < cur && r.chance(60)) tgt = std::min(exp.size() - 1, cur + r.below(6));
            a = exp[tgt].a; b = exp[tgt].b;
            if (ign) { b = 0; if (r.chance(30)) a++; }
            else switch (r.below(6)) { case 0: b = 0; break; case 1: a++; b = 0; break; case 2: if (b) b--; break; case 3: b++; break; case 4: b += r.below(20); break; default: break; }
            auto lt = [&](const Exp &e) { return e.a < a || (!ign && e.a == a && e.b < b); };
            if (la && !lt(exp[cur])) continue; // a look-ahead was taken: only seeks beyond the current row are legal
            it->moveto((int64_t) a, (int64_t) b);
            tr += fmt("s(%llu,%llu) ", (unsigned long long) a, (unsigned long long) b);
            size_t np = cur; while (np < exp.size() && lt(exp[np])) np++;
            pos = np;
            add("seeks");
        }
    }
    if (r.chance(40)) {
        for (; pos < exp.size(); ++pos) {
            if (!it->hasNext()) { violation(what + ":rest", fmt("ended at row %zu of %zu after %s; ", pos, exp.size(), tr.c_str()) + desc); return; }
            it->next();
            if ((uint64_t) it->getValue1() != exp[pos].a || (!ign && (uint64_t) it->getValue2() != exp[pos].b)) { violation(what + ":restvalue", fmt("row %zu is wrong after %s; ", pos, tr.c_str()) + desc); return; }
        }
        VF_CHECK(!it->hasNext(), what + ":end", "rows after the last one after %s %s", tr.c_str(), desc.c_str());
    }
    (void) look;
    distinct(mix(hashStr(tr), exp.size())); sample(tr.substr(0, 200));
}
static vector<Exp> rows(const Pairs &p) { vector<Exp> e; for (auto &x : p) e.push_back(Exp{x.first, x.second, 1}); return e; }
static vector<Exp> grouped(const Pairs &p) { vector<Exp> e; for (auto &x : p) { if (e.empty() || e.back().a != x.first) e.push_back(Exp{x.first, x.second, 0}); e.back().count++; } return e; }
static string descPairs(const Pairs &p) { string s = "["; for (size_t i = 0; i < p.size() && i < 40; ++i) s += fmt("%llu.%llu ", (unsigned long long) p[i].first, (unsigned long long) p[i].second); return s + "]"; }

static void caseArray(Rng &r) {
    uint64_t d1 = 1 + r.below(12), d2 = 1 + r.below(30), off = r.chance(20) ? 5000000000ULL : 0;
    std::shared_ptr<Pairs> p(new Pairs(randPairs(r, r.chance(10) ? 0 : r.below(60), d1, d2, off)));
    int64_t c1 = -1, c2 = -1;
    if (r.chance(45)) { c1 = off + r.below(d1 + 2); if (r.chance(40)) c2 = r.below(d2 + 1); }
    bool ign = c2 < 0 && r.chance(30);
    ArrayItr it; it.init(p, c1, c2);
    if (ign) it.ignoreSecondColumn();
    Pairs m; for (auto &x : *p) if ((c1 < 0 || x.first == (uint64_t) c1) && (c2 < 0 || x.second == (uint64_t) c2)) m.push_back(x);
    vector<Exp> e = ign ? grouped(m) : rows(m);
    string d = fmt("array of %zu rows constraints %lld %lld ignore %d ", p->size(), (long long) c1, (long long) c2, ign) + descPairs(*p);
    if (r.chance(50)) VF_CHECK(it.getCardinality() == e.size(), "array:card", "cardinality %llu, %zu rows; %s", (unsigned long long) it.getCardinality(), e.size(), d.c_str());
    cursor(r, &it, e, ign, true, true, ign ? "array-ign" : "array", d);
    VF_CHECK(it.estCardinality() == e.size(), "array:estcard", "estimate after use %llu, %zu rows; %s", (unsigned long long) it.estCardinality(), e.size(), d.c_str());
    it.clear(); add("array");
}
static void caseRm(Rng &r) {
    uint64_t d1 = 1 + r.below(10), d2 = 1 + r.below(12);
    Pairs base = randPairs(r, r.chance(8) ? 0 : r.below(70), d1, d2), del;
    int dk = r.below(4);
    for (auto &x : base) if (dk == 0 ? false : dk == 1 ? r.chance(20) : dk == 2 ? r.chance(60) : x.first % 3 == 0) del.push_back(x);
    // rows to remove are rows that exist: that is what the deletion index stores
    Pairs left; std::set<Row> ds(del.begin(), del.end());
    for (auto &x : base) if (!ds.count(x)) left.push_back(x);
    std::shared_ptr<Pairs> pb(new Pairs(base)), pd(new Pairs(del));
    int64_t c1 = -1, c2 = -1; if (r.chance(25)) { c1 = r.below(d1 + 1); if (r.chance(40)) c2 = r.below(d2 + 1); } // both sides look at the same part
    ArrayItr a, b; a.init(pb, c1, c2); b.init(pd, c1, c2);
    auto part = [&](Pairs &v) { Pairs o; for (auto &x : v) if ((c1 < 0 || x.first == (uint64_t) c1) && (c2 < 0 || x.second == (uint64_t) c2)) o.push_back(x); v = o; }; part(base); part(del); part(left);
    a.setKey(7); b.setKey(7);
    bool ign = c1 < 0 && r.chance(30);
    std::set<uint64_t> f1, f2; for (auto &x : base) f1.insert(x.first); for (auto &x : left) f2.insert(x.first);
    RmItr it; it.init(&a, &b, (int64_t) (f1.size() - f2.size()));
    if (ign) it.ignoreSecondColumn();
    vector<Exp> e = ign ? grouped(left) : rows(left);
    string d = fmt("difference ignore %d ", ign) + descPairs(base) + " minus " + descPairs(del);
    if (r.chance(50)) VF_CHECK(it.getCardinality() == e.size(), "rm:card", "cardinality %llu, %zu rows; %s", (unsigned long long) it.getCardinality(), e.size(), d.c_str());
    if (!ign && r.chance(50)) VF_CHECK(it.estCardinality() == e.size(), "rm:estcard", "estimate before use %llu, %zu rows; %s", (unsigned long long) it.estCardinality(), e.size(), d.c_str());
    cursor(r, &it, e, ign, true, true, ign ? "rm-ign" : "rm", d);
    add("difference");
}
static void caseCache(Rng &r) {
    CacheIdx c;
    struct Seg { uint64_t s, e; Pairs p; };
    std::map<uint64_t, vector<Seg>> model;
    int ops = 1 + r.below(25);
    std::map<uint64_t, std::set<uint64_t>> usedSlots;
    for (int i = 0; i < ops; ++i) {
        uint64_t key = r.chance(70) ? r.below(4) : r.next() >> 1;
        if (r.chance(65)) {
            auto *blocks = new vector<CacheBlock>(); auto *pairs = new Pairs();
            int nb = 1 + r.below(4);
            // blocks cover ranges of keys that do not overlap earlier ones
            for (int k = 0; k < nb; ++k) {
                uint64_t slot = r.below(200);
                if (!usedSlots[key].insert(slot).second) continue;
                Seg sg; sg.s = slot * 100 + r.below(20); sg.e = sg.s + 1 + r.below(70);
                for (uint64_t x = sg.s; x < sg.e && sg.p.size() < 8; x += 1 + r.below(12)) sg.p.push_back(Row(x, r.below(1000)));
                // the pairs of the blocks are not stored in the order of the blocks
                CacheBlock b; b.startKey = sg.s; b.endKey = sg.e; b.startArray = pairs->size();
                for (auto &x : sg.p) pairs->push_back(x);
                b.endArray = pairs->size();
                blocks->push_back(b); model[key].push_back(sg);
            }
            if (!model.count(key)) model[key];
            if (r.chance(50)) std::sort(blocks->begin(), blocks->end());
            bool first = c.getIndex(key).second == NULL;
            if (first) std::sort(blocks->begin(), blocks->end());
            c.storeIdx(key, blocks, pairs);
            add("cache:store");
        }
        uint64_t q = r.chance(70) ? r.below(5) : key;
        auto g = c.getIndex(q);
        auto m = model.find(q);
        if (m == model.end()) { VF_CHECK(!g.first && !g.second, "cache:absent", "an index for a key nobody stored"); continue; }
        if (!g.first || !g.second) { violation("cache:lost", fmt("the index of key %llu is gone", (unsigned long long) q)); return; }
        vector<Seg> want = m->second;
        std::sort(want.begin(), want.end(), [](const Seg &a, const Seg &b) { return a.s < b.s; });
        if (g.second->size() != want.size()) { violation("cache:blocks", fmt("key %llu has %zu blocks, %zu were stored", (unsigned long long) q, g.second->size(), want.size())); return; }
        for (size_t k = 0; k < want.size(); ++k) {
            const CacheBlock &b = g.second->at(k);
            if (b.startKey != want[k].s || b.endKey != want[k].e) { violation("cache:order", fmt("block %zu of key %llu is [%llu,%llu), expected [%llu,%llu)", k, (unsigned long long) q, (unsigned long long) b.startKey, (unsigned long long) b.endKey, (unsigned long long) want[k].s, (unsigned long long) want[k].e)); return; }
            if (b.startArray > b.endArray || b.endArray > g.first->size()) { violation("cache:range", "a block points outside of the pairs"); return; }
            Pairs got(g.first->begin() + b.startArray, g.first->begin() + b.endArray);
            if (got != want[k].p) { violation("cache:pairs", fmt("block %zu of key %llu holds %zu pairs that differ from the %zu stored ones", k, (unsigned long long) q, got.size(), want[k].p.size())); return; }
        }
        add("cache:verified");
        distinct(mix(q, want.size() * 100 + i));
    }
    // order of blocks
    CacheBlock x, y; x.startKey = r.below(5); y.startKey = r.below(5); x.endKey = r.below(5); y.endKey = r.below(5);
    bool lt = x.startKey != y.startKey ? x.startKey < y.startKey : x.endKey > y.endKey;
    VF_CHECK((x < y) == lt, "cache:less", "CacheBlock order: start ascending, then longer first");
}
static void caseConfig(Rng &r) {
    KBConfig c; KBConfig fresh; PropertyMap pm;
    std::map<int, string> m; // kind-independent: what every getter has to see
    std::map<int, std::pair<int, int64_t>> model; std::map<int, string> strs;
    auto someInt = [&]() -> int { switch (r.below(5)) { case 0: return INT32_MAX; case 1: return INT32_MIN; case 2: return 0; case 3: return -1 - (int) r.below(1000); default: return (int) r.below(1000000); } };
    auto someLong = [&]() -> int64_t { switch (r.below(5)) { case 0: return INT64_MAX; case 1: return INT64_MIN; case 2: return 0; case 3: return -(int64_t) (r.next() >> 2); default: return (int64_t) (r.next() >> 1); } };
    int ops = 10 + r.below(80);
    for (int i = 0; i < ops; ++i) {
        int k = r.below(SB_CACHESIZE + 1);
        switch (r.below(8)) {
            case 0: { int v = someInt(); c.setParamInt((KBParam) k, v); pm.setInt(k, v); model[k] = std::make_pair(0, v); break; }
            case 1: { int64_t v = someLong(); c.setParamLong((KBParam) k, v); pm.setLong(k, v); model[k] = std::make_pair(1, v); break; }
            case 2: { bool v = r.chance(50); c.setParamBool((KBParam) k, v); pm.setBool(k, v); model[k] = std::make_pair(2, v); break; }
            case 3: { string v; int l = r.below(12); for (int j = 0; j < l; ++j) v += (char) (1 + r.below(255)); c.setParam((KBParam) k, v); pm.set(k, v); model[k] = std::make_pair(3, 0); strs[k] = v; break; }
            default: {
                auto f = model.find(k);
                if (f == model.end()) {
                    bool th = false; try { pm.get(k); } catch (int) { th = true; }
                    VF_CHECK(th, "map:missing", "get of a key nobody set does not fail");
                    th = false; try { pm.getInt(k); } catch (int) { th = true; } VF_CHECK(th, "map:missingInt", "getInt of a missing key does not fail");
                    th = false; try { pm.getLong(k); } catch (int) { th = true; } VF_CHECK(th, "map:missingLong", "getLong of a missing key does not fail");
                    th = false; try { pm.getBool(k); } catch (int) { th = true; } VF_CHECK(th, "map:missingBool", "getBool of a missing key does not fail");
                    int di = someInt(); int64_t dl = someLong(); bool db = r.chance(50);
                    VF_CHECK(pm.getInt(k, di) == di && pm.getLong(k, dl) == dl && pm.getBool(k, db) == db, "map:default", "the default of a missing key is not returned");
                    VF_CHECK(c.getParam((KBParam) k) == fresh.getParam((KBParam) k), "config:bleed", "parameter %d changed though it was never set", k);
                    break;
                }
                int64_t v = f->second.second;
                switch (f->second.first) {
                    case 0: VF_CHECK(c.getParamInt((KBParam) k) == v && pm.getInt(k) == v && pm.getInt(k, 77) == v && c.getParamLong((KBParam) k) == v, "config:int", "int %lld of key %d reads back wrong", (long long) v, k); VF_CHECK(c.getParam((KBParam) k) == std::to_string(v), "config:intstr", "text of an int parameter"); break;
                    case 1: VF_CHECK(c.getParamLong((KBParam) k) == v && pm.getLong(k) == v && pm.getLong(k, 77) == v, "config:long", "long %lld of key %d reads back wrong", (long long) v, k); break;
                    case 2: VF_CHECK(c.getParamBool((KBParam) k) == (v != 0) && pm.getBool(k) == (v != 0) && pm.getBool(k, !v) == (v != 0), "config:bool", "bool of key %d reads back wrong", k); break;
                    default: VF_CHECK(c.getParam((KBParam) k) == strs[k] && pm.get(k) == strs[k], "config:str", "text of key %d reads back wrong", k);
                }
                add("config:reads");
            }
        }
    }
    // the defaults the rest of the system relies on
    KBConfig d;
    struct { KBParam p; int64_t v; } L[] = { {NINDICES, 6}, {DICTPARTITIONS, 4}, {AGGRINDICES, 1}, {INCOMPLINDICES, 0}, {THRESHOLD_SKIP_TABLE, 10}, {RELSOWNIDS, 0}, {DICTHASH, 0}, {USEFIXEDSTRAT, 0},
        {TREE_MAXSIZECACHETREE, 10000000000LL}, {STORAGE_CACHE_SIZE, 5000000000LL}, {STORAGE_MAX_FILE_SIZE, 20LL * 1024 * 1024 * 1024}, {SB_CACHESIZE, 128LL * 1024 * 1024}, {TREE_MAXFILESIZE, 512 * 1024 * 1024}, {DICT_MAXFILESIZE, 512 * 1024 * 1024}, {INVDICT_MAXFILESIZE, 512 * 1024 * 1024}, {SB_COMPRESSDOMAINS, 0}, {SB_PREALLBUFFERS, 1000} };
    for (auto &x : L) VF_CHECK(d.getParamLong(x.p) == x.v, "config:defaults", "default of parameter %d is %lld, not %lld", (int) x.p, (long long) d.getParamLong(x.p), (long long) x.v);
    for (int k = 0; k <= SB_CACHESIZE; ++k) { bool ok = true; try { d.getParam((KBParam) k); } catch (...) { ok = false; } VF_CHECK(ok || k == 0, "config:nodefault", "parameter %d has no default", k); }
    distinct(mix(ops, model.size()));
}
struct TDriver : Timings {
    struct Call { int perm; int64_t s, p, o; int ign; };
    vector<Call> calls; int inits = 0; std::map<string, int64_t> answers; bool initFirst = true;
    TDriver(string f) : Timings(f) {}
    void init() override { inits++; if (!calls.empty()) initFirst = false; }
    std::chrono::duration<double> launchQuery(const int perm, const int64_t s, const int64_t p, const int64_t o, const int ign, int64_t &c, int64_t &junk) override {
        calls.push_back(Call{perm, s, p, o, ign});
        if (c != 0) violation("timings:count0", "a run does not start counting at 0");
        c += answers[fmt("%d %lld %lld %lld %d", perm, (long long) s, (long long) p, (long long) o, ign)];
        junk += c;
        return std::chrono::duration<double>(0.001);
    }
};
static void caseTimings(Rng &r) {
    string f = freshDir("q") + "/queries", text;
    TDriver t(f);
    int n = r.below(12); vector<TDriver::Call> want; int bad = r.chance(30) && n ? (int) r.below(n) : -1; bool failed = false;
    for (int i = 0; i < n; ++i) {
        int perm = r.below(6), type = r.below(5); int64_t v[3]; int ign = 0; int64_t out[3];
        for (int k = 0; k < 3; ++k) { v[k] = r.chance(50) ? (int64_t) r.below(100000000000LL) : (r.chance(70) ? -1 : -2); if (v[k] == -2) ign++; out[k] = v[k] < 0 ? -1 : v[k]; }
        // tokens are in the order of the permutation (SPO OPS POS SOP OSP PSO)
        static const int ord[6][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {2, 0, 1}, {1, 0, 2}};
        int64_t spo[3]; for (int k = 0; k < 3; ++k) spo[ord[perm][k]] = out[k];
        string key = fmt("%d %lld %lld %lld %d", perm, (long long) spo[0], (long long) spo[1], (long long) spo[2], ign);
        if (!t.answers.count(key)) t.answers[key] = r.below(1000);
        int64_t cnt = t.answers[key] + (i == bad ? 1 : 0);
        text += fmt("%d %lld %lld %lld %lld %d\n", perm, (long long) v[0], (long long) v[1], (long long) v[2], (long long) cnt, type);
        if (bad < 0 || i <= bad) want.push_back(TDriver::Call{perm, spo[0], spo[1], spo[2], ign});
    }
    spew(f, text);
    std::stringstream so, se; auto *o = std::cout.rdbuf(so.rdbuf()); auto *e = std::cerr.rdbuf(se.rdbuf());
    try { t.launchTests(); } catch (int) { failed = true; }
    std::cout.rdbuf(o); std::cerr.rdbuf(e);
    VF_CHECK(failed == (bad >= 0), "timings:mismatch", "a query file with%s a wrong count: %s", bad >= 0 ? "" : "out", failed ? "failed" : "accepted");
    VF_CHECK(t.inits == 1 && t.initFirst, "timings:init", "init was not called exactly once and first");
    bool ok = t.calls.size() == 2 * want.size();
    for (size_t i = 0; ok && i < t.calls.size(); ++i) { auto &a = t.calls[i]; auto &b = want[i / 2]; ok = a.perm == b.perm && a.s == b.s && a.p == b.p && a.o == b.o && a.ign == b.ign; }
    VF_CHECK(ok, "timings:queries", "the queries run (%zu) are not those of the file (%zu, each twice)", t.calls.size(), want.size());
    add("timings"); distinct(mix(hashStr(text), 3));
}
// memory budget of cached blocks
struct Blk { static std::set<Blk *> live; int id; Blk(int i) : id(i) { live.insert(this); } ~Blk() { if (!live.erase(this)) violation("mem:double", "a block was deleted twice"); } };
std::set<Blk *> Blk::live;
static void caseMem(Rng &r) {
    size_t budget = 1 + r.below(4000);
    size_t before = Blk::live.size();
    {
        MemoryManager<Blk> mm(budget);
        const int N = 60; Blk *slots[N]; int handle[N]; size_t sz[N]; int locks[N];
        for (int i = 0; i < N; ++i) { slots[i] = NULL; locks[i] = 0; handle[i] = -1; sz[i] = 0; }
        int ops = 10 + r.below(300);
        for (int k = 0; k < ops; ++k) {
            int i = r.below(N);
            if (!slots[i]) {
                // something has to be evictable when the budget is used up
                size_t used = 0, free = 0; for (int j = 0; j < N; ++j) if (slots[j]) { used += sz[j]; if (!locks[j]) free += sz[j]; }
                size_t b = 1 + r.below(budget / 4 + 2);
                if (used + b > budget && used >= budget && used - free >= budget) continue;
                locks[i] = 0;
                slots[i] = new Blk(i); sz[i] = b;
                vector<Blk *> was(slots, slots + N);
                handle[i] = mm.add(b, slots[i], i, slots);
                if (slots[i] != was[i]) { violation("mem:new", "adding a block evicted that very block"); return; }
                size_t now = 0; bool lockedGone = false;
                for (int j = 0; j < N; ++j) { if (slots[j]) now += sz[j]; if (was[j] && !slots[j] && locks[j]) lockedGone = true; }
                VF_CHECK(!lockedGone, "mem:locked", "a locked block was evicted");
                VF_CHECK(now < budget + b, "mem:budget", "%zu bytes are kept with a budget of %zu", now, budget);
                if (used + b <= budget) { bool ev = false; for (int j = 0; j < N; ++j) if (was[j] && !slots[j]) ev = true; VF_CHECK(!ev, "mem:needless", "a block was evicted though everything fits (%zu of %zu)", used + b, budget); }
                add("mem:add");
            } else switch (r.below(5)) {
                case 0: if (locks[i] < 3) { mm.addLock(handle[i]); locks[i]++; } break;
                case 1: if (locks[i]) { mm.releaseLock(handle[i]); locks[i]--; } break;
                case 2: VF_CHECK(mm.isUsed(handle[i]) == (locks[i] > 0), "mem:isUsed", "isUsed is wrong"); break;
                case 3: if (!locks[i]) { if (r.chance(50)) { mm.removeBlock(handle[i]); VF_CHECK(!slots[i], "mem:slot", "removing a block leaves its slot"); slots[i] = NULL; } else { mm.removeBlockWithoutDeallocation(handle[i]); delete slots[i]; slots[i] = NULL; } } break;
                default: { size_t nb = 1 + r.below(budget / 8 + 1); mm.update(handle[i], nb); sz[i] = nb; }
            }
            size_t n = 0; for (int j = 0; j < N; ++j) if (slots[j]) { n++; VF_CHECK(Blk::live.count(slots[j]) && slots[j]->id == j, "mem:dangling", "a slot points to a deleted block"); }
            VF_CHECK(Blk::live.size() == before + n, "mem:leak", "%zu blocks alive, %zu in slots", Blk::live.size() - before, n);
        }
        for (int i = 0; i < N; ++i) while (slots[i] && locks[i]) { mm.releaseLock(handle[i]); locks[i]--; }
    }
    VF_CHECK(Blk::live.size() == before, "mem:destroy", "blocks survive their manager");
    distinct(mix(budget, r.next() % 64));
}
static void caseTuple(Rng &r) {
    uint8_t n = 1 + r.below(3); Tuple t(n); uint8_t id[3]; uint64_t val[3];
    for (int i = 0; i < n; ++i) { id[i] = r.below(4); val[i] = r.next(); t.set(Term(id[i], val[i]), i); }
    VF_CHECK(t.getSize() == n, "tuple:size", "size");
    std::set<std::pair<int, int>> w, g;
    for (int i = 0; i < n; ++i) { VF_CHECK(t.get(i).getId() == id[i] && t.get(i).getValue() == val[i] && t.get(i).isVariable() == (id[i] > 0), "tuple:get", "field %d reads back wrong", i); for (int j = i + 1; j < n; ++j) if (id[i] && id[i] == id[j]) w.insert(std::make_pair(i, j)); }
    for (auto &x : t.getRepeatedVars()) g.insert(std::make_pair((int) x.first, (int) x.second));
    VF_CHECK(w == g, "tuple:repeated", "repeated variables");
}
static void oneCase(Rng &r, uint64_t) {
    const std::string &m = vf::st().mode;
    if (m == "itr") { for (int i = 0; i < 12; ++i) { caseArray(r); caseRm(r); } return; }
    if (m == "rm") { for (int i = 0; i < 24; ++i) caseRm(r); return; }
    for (int i = 0; i < 12; ++i) caseArray(r);
    for (int i = 0; i < 12; ++i) caseRm(r);
    caseCache(r); caseConfig(r); caseTimings(r); if (r.chance(4)) caseMem(r); caseTuple(r);
}
int main(int argc, char **argv) { return run(argc, argv, oneCase); }
