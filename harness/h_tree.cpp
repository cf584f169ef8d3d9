// The string buffer and the B+ tree (numbers to coordinates, numbers to numbers, text to numbers) against plain maps, in memory and from disk
#include "common.h"
#include <trident/tree/root.h>
#include <trident/tree/treeitr.h>
#include <trident/tree/coordinates.h>
#include <trident/tree/stringbuffer.h>
#include <trident/kb/consts.h>
#include <trident/kb/statistics.h>
#include <trident/utils/propertymap.h>
#include <memory>
#include <map>
using vf::Rng;
typedef std::string Str;
static Str esc(const Str &s) { Str o; for (unsigned char c : s.substr(0, 40)) o += c < 32 || c > 126 || c == '|' ? vf::fmt("\\x%02x", c) : Str(1, (char) c); return s.size() > 40 ? o + vf::fmt("..(%zu)", s.size()) : o; }

// ------------------------------------------------------------------ strings
static std::vector<Str> bases;
static Str randStr(Rng &r, size_t maxLen) {
    Str s;
    if (r.chance(60) && !bases.empty()) { const Str &b = r.pick(bases); s = b.substr(0, r.chance(70) ? b.size() : r.below(b.size() + 1)); }
    size_t n = r.chance(3) ? r.below(maxLen) : r.chance(20) ? r.below(200) : r.below(12);
    for (size_t i = 0; i < n; ++i) s += r.chance(5) ? (char) (1 + r.below(255)) : (char) ('a' + r.below(4));
    if (s.size() >= maxLen) s.resize(maxLen - 1);
    return s;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int cmpStr(const Str &a, const Str &b) {
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return (int) (unsigned char) a[i] - (int) (unsigned char) b[i];
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
struct SB {
    std::vector<std::pair<int64_t, Str>> v;
    std::vector<char> out;
    SB() : out(MAX_TERM_SIZE + 1) {}
    bool check(StringBuffer &sb, size_t i, Rng &r, const char *when) {
        int n = -1;
        if (r.chance(80)) { sb.get(v[i].first, out.data(), n); Str g(out.data(), n < 0 ? 0 : n); VF_CHECK(g == v[i].second, "sb:get", "%s string %zu of %zu at %lld: got %s expected %s", when, i, v.size(), (long long) v[i].first, esc(g).c_str(), esc(v[i].second).c_str()); if (g != v[i].second) return false; }
        else { char *p = sb.get(v[i].first, n); Str g(p, n); VF_CHECK(g == v[i].second && p[n] == 0, "sb:get2", "%s string %zu: got %s expected %s", when, i, esc(g).c_str(), esc(v[i].second).c_str()); if (g != v[i].second) return false; }
        Str o = v[i].second;
        switch (r.below(5)) { case 0: break; case 1: o += "x"; break; case 2: if (!o.empty()) o.resize(r.below(o.size())); break; case 3: if (!o.empty()) { size_t k = r.below(o.size()); o[k] = (char) (o[k] ^ (1 << r.below(8))); } break; default: o = r.pick(v).second; }
        std::vector<char> ob(o.begin(), o.end()); ob.push_back(0);
        int c = sb.cmp(v[i].first, ob.data(), (int) o.size());
        VF_CHECK(sgn(c) == sgn(cmpStr(v[i].second, o)), "sb:cmp", "%s cmp of string %zu (%s) with %s gives %d", when, i, esc(v[i].second).c_str(), esc(o).c_str(), c);
        vf::add("strings read");
        return sgn(c) == sgn(cmpStr(v[i].second, o));
    }
};
static void caseSB(Rng &r) {
    Str dir = vf::freshDir("sb");
    bases.clear(); for (int i = 0; i < 6; ++i) { Str b = i % 2 ? "<http://example.org/" : ""; size_t n = r.below(r.chance(20) ? 3000 : 30); for (size_t k = 0; k < n; ++k) b += (char) ('a' + r.below(26)); bases.push_back(b); }
    Stats st; SB m; int64_t cacheSize = r.chance(60) ? 0 : SB_BLOCK_SIZE * (5 + r.below(10));
    size_t maxLen = r.chance(40) ? MAX_TERM_SIZE : r.chance(50) ? 1500 : 300, total = 0, limit = r.chance(25) ? 1500000 : r.chance(50) ? 300000 : 3000;
    int rd = r.chance(50) ? 2 : 30;
    {
        StringBuffer sb(dir, false, 1 + r.below(5), cacheSize, &st);
        VF_CHECK(sb.getSize() == 0, "sb:empty", "size of an empty buffer %lld", (long long) sb.getSize());
        while (total < limit && m.v.size() < 20000) {
            Str s = randStr(r, maxLen);
            if (r.chance(10)) { // end near the end of a block
                int64_t left = SB_BLOCK_SIZE - sb.getSize() % SB_BLOCK_SIZE, n = left - 8 + (int64_t) r.below(12);
                if (n >= 0 && n < (int64_t) maxLen) s.assign((size_t) n, (char) ('A' + r.below(26)));
            }
            int64_t pos = sb.getSize();
            std::vector<char> b(s.begin(), s.end()); b.push_back(0);
            sb.append(b.data(), (int) s.size());
            VF_CHECK(sb.getSize() > pos, "sb:size", "size does not grow");
            m.v.push_back(std::make_pair(pos, s)); total += s.size() + 3;
            if (r.chance(rd)) { size_t i = r.chance(30) ? m.v.size() - 1 : r.below(m.v.size()); if (!m.check(sb, i, r, "writing")) return; }
        }
    }
    vf::add("strings written", m.v.size());
    for (int k = 0; k < 2; ++k) {
        StringBuffer sb(dir, true, 1 + r.below(5), cacheSize, &st);
        VF_CHECK(m.v.empty() || sb.getSize() > m.v.back().first, "sb:size2", "size after opening %lld, last string at %lld", (long long) sb.getSize(), (long long) m.v.back().first);
        if (k) { for (size_t i = 0; i < std::min<size_t>(m.v.size(), 4000); ++i) if (!m.check(sb, r.below(m.v.size()), r, "random")) return; }
        else for (size_t i = 0; i < m.v.size(); ++i) if (!m.check(sb, i, r, "opened")) return;
    }
    vf::distinct(vf::mix(total, m.v.size()));
    vf::sample(vf::fmt("%zu strings, %zu bytes, cache %lld", m.v.size(), total, (long long) cacheSize));
}

// ------------------------------------------------------------------ trees
struct TC { int64_t f[6], m[6], s[6], n[6]; bool a[6]; TC() { memset(this, 0, sizeof *this); } };
static PropertyMap conf(Rng &r, Str &d) {
    PropertyMap p;
    int el = r.chance(70) ? 4 + 2 * (int) r.below(8) : r.chance(50) ? 64 : 2048; p.setInt(MAX_EL_PER_NODE, el);
    int nc = r.chance(60) ? 4 + (int) r.below(10) : 1000; p.setInt(MAX_NODES_IN_CACHE, nc);
    p.setInt(FILE_MAX_SIZE, r.chance(40) ? 1 << (12 + r.below(6)) : 64 * 1024 * 1024);
    p.setInt(MAX_N_OPENED_FILES, 1024); // nodes point into the open files
    p.setLong(CACHE_MAX_SIZE, INT64_C(1) << 30);
    p.setBool(COMPRESSED_NODES, false);
    p.setInt(NODE_MIN_BYTES, r.chance(50) ? 0 : (int) r.below(2000));
    p.setInt(LEAF_SIZE_FACTORY, 1 + (int) r.below(10)); p.setInt(LEAF_SIZE_PREALL_FACTORY, (int) r.below(10));
    p.setInt(NODE_KEYS_FACTORY_SIZE, 1 + (int) r.below(10)); p.setInt(NODE_KEYS_PREALL_FACTORY_SIZE, (int) r.below(10));
    p.setInt(LEAF_MAX_INTERNAL_LINES, 1 + (int) r.below(20)); p.setInt(LEAF_MAX_PREALL_INTERNAL_LINES, (int) r.below(20));
    p.setInt(LEAF_ARRAYS_FACTORY_SIZE, 1 + (int) r.below(20)); p.setInt(LEAF_ARRAYS_PREALL_FACTORY_SIZE, (int) r.below(20));
    d = vf::fmt("el=%d cache=%d", el, nc);
    return p;
}
static std::vector<int64_t> genKeys(Rng &r, size_t n) {
    std::vector<int64_t> k; int64_t x = r.chance(50) ? 0 : (int64_t) r.below(1u << 30) * (r.chance(30) ? 1000 : 1);
    int64_t step = r.chance(40) ? 1 : r.chance(50) ? 1 + r.below(5) : 1 + r.below(400);
    int kind = r.below(3); // regular, mostly regular, irregular
    for (size_t i = 0; i < n; ++i) { k.push_back(x); x += kind == 0 ? step : kind == 1 ? (r.chance(3) ? 1 + r.below(5000) : step) : 1 + (int64_t) r.below(r.chance(5) ? 1u << 28 : 300); }
    return k;
}
// an order of insertion: ascending, descending, random, ascending with gaps filled later
static void orderKeys(Rng &r, std::vector<int64_t> &k, int how) {
    if (how == 1) std::reverse(k.begin(), k.end());
    else if (how == 2) r.shuffle(k);
    else if (how == 3) std::stable_partition(k.begin(), k.end(), [&](int64_t x) { return (x & 1) == 0; });
    else if (how == 4) { std::vector<int64_t> a, b; for (auto x : k) (r.chance(85) ? a : b).push_back(x); r.shuffle(b); a.insert(a.end(), b.begin(), b.end()); k = a; }
}
static const int64_t ABSENT = INT64_MIN;
static void caseNum(Rng &r) {
    Str dir = vf::freshDir("t"), d; PropertyMap p = conf(r, d); p.setBool(TEXT_KEYS, false); p.setBool(TEXT_VALUES, true);
    Str sbdir = vf::freshDir("tsb"); Stats st; StringBuffer sb(sbdir, false, 2, 0, &st);
    std::map<int64_t, int64_t> m;
    auto keys = genKeys(r, r.chance(5) ? 0 : 1 + r.below(r.chance(20) ? 6000 : 300)); auto sorted = keys;
    int how = r.below(5); bool app = how == 0 && r.chance(70);
    orderKeys(r, keys, how);
    d += vf::fmt(" numbers %zu order %d append %d", keys.size(), how, app);
    auto probe = [&](Root &t, int64_t k, const char *w) {
        int64_t c = -7; bool ok = t.get((nTerm) k, c); auto it = m.find(k);
        VF_CHECK(ok == (it != m.end()) && (!ok || c == it->second), vf::fmt("num:get-%s", w).c_str(), "%s key %lld: found %d value %lld, expected %lld", d.c_str(), (long long) k, ok, (long long) c, it == m.end() ? -1LL : (long long) it->second);
        vf::add("lookups");
    };
    auto any = [&](int64_t &k) { if (sorted.empty()) { k = r.below(100); return; } k = r.pick(sorted) + (r.chance(50) ? 0 : (int64_t) r.below(3) - 1); if (r.chance(2)) k = INT64_C(1) << (32 + r.below(20)); if (k < 0) k = 0; };
    {
        Root t(dir, &sb, false, p);
        for (auto k : keys) {
            int64_t v = r.chance(50) ? (int64_t) r.below(1000) : (int64_t) (r.next() >> (24 + r.below(30)));
            if (app) t.append((nTerm) k, v); else t.put((nTerm) k, v);
            m[k] = v;
            if (r.chance(20)) { int64_t q; any(q); probe(t, q, "mem"); if (vf::st().violations) return; }
        }
        if (r.chance(50)) for (auto k : sorted) { probe(t, k, "mem"); if (vf::st().violations) return; }
        vf::add("keys", keys.size());
    }
    Root t(dir, &sb, true, p);
    for (auto k : sorted) { probe(t, k, "disk"); if (vf::st().violations) return; }
    for (int i = 0; i < 100; ++i) { int64_t q; any(q); probe(t, q, "disk"); if (vf::st().violations) return; }
    std::unique_ptr<TreeItr> it(t.itr()); auto e = m.begin();
    while (it->hasNext()) { int64_t v, k = it->next(v); if (e == m.end() || e->first != k || e->second != v) { vf::violation("num:itr", vf::fmt("%s iterator returns %lld=%lld, expected %lld", d.c_str(), (long long) k, (long long) v, e == m.end() ? -1LL : (long long) e->first)); return; } ++e; }
    VF_CHECK(e == m.end(), "num:itr-end", "%s iterator stops before %lld", d.c_str(), (long long) e->first);
    vf::distinct(vf::hashStr(d)); vf::sample(d);
}
static void caseCoord(Rng &r) {
    Str dir = vf::freshDir("t"), d; PropertyMap p = conf(r, d); p.setBool(TEXT_KEYS, false); p.setBool(TEXT_VALUES, false);
    std::map<int64_t, TC> m;
    auto keys = genKeys(r, r.chance(5) ? 0 : 1 + r.below(r.chance(20) ? 4000 : 200)); auto sorted = keys;
    int how = r.below(5); bool app = how == 0 && r.chance(70), twice = r.chance(50), big = p.getInt(MAX_EL_PER_NODE) > 64; // a full leaf has to fit in 64 KB
    orderKeys(r, keys, how);
    d += vf::fmt(" coordinates %zu order %d append %d", keys.size(), how, app);
    auto same = [&](TermCoordinates &c, const TC &e) {
        for (int i = 0; i < 6; ++i) if (c.exists(i) != e.a[i] || (e.a[i] && (c.getFileIdx(i) != e.f[i] || c.getMark(i) != e.m[i] || c.getStrategy(i) != (char) e.s[i] || c.getNElements(i) != e.n[i]))) return i;
        return -1;
    };
    auto probe = [&](Root &t, int64_t k, const char *w) {
        TermCoordinates c; c.clear(); bool ok = t.get((nTerm) k, &c); auto it = m.find(k);
        VF_CHECK(ok == (it != m.end()), vf::fmt("coord:found-%s", w).c_str(), "%s key %lld found %d", d.c_str(), (long long) k, ok);
        if (ok && it != m.end()) { int i = same(c, it->second); VF_CHECK(i < 0, vf::fmt("coord:value-%s", w).c_str(), "%s key %lld permutation %d differs: exists %d/%d file %d/%lld mark %lld/%lld n %lld/%lld strategy %d/%lld", d.c_str(), (long long) k, i, c.exists(i), it->second.a[i], c.getFileIdx(i), (long long) it->second.f[i], (long long) c.getMark(i), (long long) it->second.m[i], (long long) c.getNElements(i), (long long) it->second.n[i], c.getStrategy(i), (long long) it->second.s[i]); }
        vf::add("lookups");
    };
    auto any = [&](int64_t &k) { if (sorted.empty()) { k = r.below(100); return; } k = r.pick(sorted) + (r.chance(50) ? 0 : (int64_t) r.below(3) - 1); if (k < 0) k = 0; };
    {
        Root t(dir, NULL, false, p);
        int mask0 = 1 + (int) r.below(63);
        for (int round = 0; round < (twice ? 2 : 1); ++round) {
            if (round) { if (how) r.shuffle(keys); if (r.chance(50)) keys.resize(r.below(keys.size() + 1)); }
            for (auto k : keys) {
                TermCoordinates c; c.clear(); TC &e = m[k], old = e;
                if (round) { if (r.chance(70)) for (int i = 0; i < 6; ++i) if (e.a[i]) c.set(i, (short) e.f[i], e.m[i], e.n[i], (char) e.s[i]); if (!c.exists(0) && !c.exists(1) && !c.exists(2) && !c.exists(3) && !c.exists(4) && !c.exists(5)) e = TC(); }
                bool any1 = false;
                for (int i = 0; i < 6; ++i) {
                    if (e.a[i] || (round == 0 && r.chance(90) && !(mask0 >> i & 1)) || (round && r.chance(50))) continue;
                    any1 = true; e.a[i] = true; e.f[i] = r.below(r.chance(80) ? 5 : 3000); e.m[i] = (int64_t) (r.next() >> (big ? 44 + r.below(15) : 25 + r.below(35))); e.s[i] = r.below(128); e.n[i] = 1 + (int64_t) (r.next() >> (big ? 52 : 30 + r.below(34)));
                    c.set(i, (short) e.f[i], e.m[i], e.n[i], (char) e.s[i]);
                }
                if (!round) { bool none = true; for (int i = 0; i < 6; ++i) none = none && !e.a[i]; if (none) { e.a[0] = true; e.n[0] = 1; c.set(0, 0, 0, 1, 0); } }
                if (round && !any1) { e = old; continue; }
                if (app && !round) t.append((nTerm) k, &c); else t.put((nTerm) k, &c);
                if (r.chance(20)) { int64_t q; any(q); probe(t, q, "mem"); if (vf::st().violations) return; }
            }
        }
        vf::add("keys", m.size());
    }
    Root t(dir, NULL, true, p);
    for (auto k : sorted) { probe(t, k, "disk"); if (vf::st().violations) return; }
    for (int i = 0; i < 60; ++i) { int64_t q; any(q); probe(t, q, "disk"); if (vf::st().violations) return; }
    std::unique_ptr<TreeItr> it(t.itr()); auto e = m.begin();
    while (it->hasNext()) { TermCoordinates c; c.clear(); int64_t k = it->next(&c); if (e == m.end() || e->first != k || same(c, e->second) >= 0) { vf::violation("coord:itr", vf::fmt("%s iterator returns %lld, expected %lld", d.c_str(), (long long) k, e == m.end() ? -1LL : (long long) e->first)); return; } ++e; }
    VF_CHECK(e == m.end(), "coord:itr-end", "%s iterator stops before %lld", d.c_str(), (long long) e->first);
    vf::distinct(vf::hashStr(d)); vf::sample(d);
}
static void caseText(Rng &r) {
    Str dir = vf::freshDir("t"), idir = vf::freshDir("i"), sbdir = vf::freshDir("tsb"), d, d2; PropertyMap p = conf(r, d), q = conf(r, d2);
    p.setBool(TEXT_KEYS, true); p.setBool(TEXT_VALUES, false); q.setBool(TEXT_KEYS, false); q.setBool(TEXT_VALUES, true);
    bases.clear(); for (int i = 0; i < 6; ++i) { Str b = i % 2 ? "<http://example.org/" : "\""; size_t n = r.below(r.chance(20) ? 300 : 20); for (size_t k = 0; k < n; ++k) b += (char) ('a' + r.below(26)); bases.push_back(b); }
    std::map<Str, int64_t> m; std::map<int64_t, Str> inv; std::vector<Str> ks;
    size_t n = r.chance(5) ? 0 : 1 + r.below(r.chance(20) ? 5000 : 250); int64_t id = r.below(1000);
    std::set<Str> in; size_t maxLen = r.chance(10) ? MAX_TERM_SIZE : 400; while (in.size() < n) { Str s = randStr(r, maxLen); if (!s.empty()) in.insert(s); }
    ks.assign(in.begin(), in.end()); int how = r.below(3); if (how == 1) r.shuffle(ks); else if (how == 2) std::reverse(ks.begin(), ks.end());
    bool app = how == 0 && r.chance(60);
    d += vf::fmt(" text %zu order %d append %d", n, how, app);
    std::vector<char> out(MAX_TERM_SIZE + 1);
    Stats st; int64_t cacheSize = r.chance(60) ? 0 : SB_BLOCK_SIZE * 100;
    auto probe = [&](Root &t, const Str &s, const char *w) {
        std::vector<char> b(s.begin(), s.end()); b.push_back(0);
        nTerm v = 0; bool ok = t.get((tTerm *) b.data(), (int) s.size(), &v); auto it = m.find(s);
        VF_CHECK(ok == (it != m.end()) && (!ok || (int64_t) v == it->second), vf::fmt("text:get-%s", w).c_str(), "%s key %s: found %d value %llu, expected %lld", d.c_str(), esc(s).c_str(), ok, (unsigned long long) v, it == m.end() ? -1LL : (long long) it->second);
        vf::add("lookups");
    };
    auto some = [&]() { if (ks.empty() || r.chance(10)) return randStr(r, 300); Str s = r.pick(ks); if (r.chance(30)) s += 'a'; else if (r.chance(20)) s.resize(r.below(s.size() + 1)); return s; };
    {
        StringBuffer sb(sbdir, false, 3, cacheSize, &st);
        Root t(dir, &sb, false, p), ti(idir, &sb, false, q);
        for (auto &s : ks) {
            std::vector<char> b(s.begin(), s.end()); b.push_back(0);
            int64_t pos = sb.getSize(); nTerm v = (nTerm) id; id += 1 + (r.chance(10) ? r.below(1000) : 0);
            if (app) t.append((tTerm *) b.data(), (int) s.size(), v);
            else if (r.chance(50)) { VF_CHECK(t.insertIfNotExists((tTerm *) b.data(), (int) s.size(), v), "text:insert", "%s new key %s is said to exist", d.c_str(), esc(s).c_str()); }
            else t.put((tTerm *) b.data(), (int) s.size(), v);
            m[s] = (int64_t) v; ti.put(v, pos); inv[(int64_t) v] = s;
            if (r.chance(15)) { // inserting again changes nothing
                Str o = r.pick(ks); if (m.count(o) && !app) { std::vector<char> c(o.begin(), o.end()); c.push_back(0); nTerm x = 99999999; int64_t sz = sb.getSize(); bool ins = t.insertIfNotExists((tTerm *) c.data(), (int) o.size(), x); VF_CHECK(!ins && (int64_t) x == m[o] && sb.getSize() == sz, "text:reinsert", "%s key %s inserted again: %d, value %llu expected %lld", d.c_str(), esc(o).c_str(), ins, (unsigned long long) x, (long long) m[o]); }
            }
            if (r.chance(20)) { probe(t, some(), "mem"); if (vf::st().violations) return; }
        }
        vf::add("keys", ks.size());
    }
    StringBuffer sb(sbdir, true, 3, cacheSize, &st);
    Root t(dir, &sb, true, p), ti(idir, &sb, true, q);
    for (auto &s : ks) { probe(t, s, "disk"); if (vf::st().violations) return; }
    for (int i = 0; i < 100; ++i) { probe(t, some(), "disk"); if (vf::st().violations) return; }
    for (auto &x : inv) { int64_t c = -1; int len = -1; bool ok = ti.get((nTerm) x.first, c); if (ok) sb.get(c, out.data(), len); Str g = ok ? Str(out.data(), len) : Str("-"); VF_CHECK(ok && g == x.second, "text:inverse", "%s id %lld gives %s expected %s", d.c_str(), (long long) x.first, esc(g).c_str(), esc(x.second).c_str()); if (vf::st().violations) return; }
    std::unique_ptr<TreeItr> it(ti.itr()); auto e = inv.begin();
    while (it->hasNext()) { int64_t v, k = it->next(v); if (e == inv.end() || e->first != k) { vf::violation("text:itr", d + " iterator of the ids"); return; } ++e; }
    VF_CHECK(e == inv.end(), "text:itr-end", "%s iterator stops early", d.c_str());
    vf::distinct(vf::hashStr(d)); vf::sample(d);
}
int main(int argc, char **argv) {
    return vf::run(argc, argv, [](Rng &r, uint64_t i) {
        const Str &m = vf::st().mode;
        if (m == "sb") caseSB(r);
        else if (m == "num") caseNum(r);
        else if (m == "coord") caseCoord(r);
        else if (m == "text") caseText(r);
        else switch (i % 3) { case 0: caseNum(r); break; case 1: caseCoord(r); break; default: caseText(r); }
    });
}
