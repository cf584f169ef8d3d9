// In-memory triple store behind the DBLayer interface (scans, hints, lookups).
#ifndef VERIF_MEMDB_H
#define VERIF_MEMDB_H
#include "common.h"
#include "dblayer.hpp"
#include <array>
#include <atomic>
typedef uint64_t u64;
using std::array; using std::atomic; using std::map; using std::pair; using std::make_pair; using std::string; using std::unique_ptr; using std::vector;
// ---- in-memory database ----
struct MemDB : public DBLayer {
    vector<array<u64, 3>> spo; // distinct
    int hintMode = 0;          // 0 ignore, 1 always honour, 2 sometimes
    atomic<u64> skipped{0}, scans{0};
    map<u64, string> text;
    static void perm(DataOrder o, int p[3]) {
        static const int P[12][3] = {{0,1,2},{0,2,1},{2,1,0},{2,0,1},{1,0,2},{1,2,0},{0,1,2},{0,2,1},{2,1,0},{2,0,1},{1,2,0},{1,0,2}};
        for (int i = 0; i < 3; ++i) p[i] = P[o][i];
    }
    // scans stop a query that reads too much (joins in an order that multiplies everything): such cases are not decided
    struct TooMuchWork {};
    atomic<u64> done{0}; u64 budget = 0;
    struct S : public DBLayer::Scan {
        MemDB &db; vector<pair<array<u64, 3>, u64>> rows; size_t pos = 0; bool started = false; int n; Hint *hint; u64 calls = 0;
        S(MemDB &d, DataOrder o, Aggr_t a, Hint *h) : db(d), hint(h) {
            int p[3]; perm(o, p);
            n = a == AGGR_NO ? 3 : a == AGGR_SKIP_LAST ? 2 : 1;
            map<array<u64, 3>, u64> m;
            for (auto &t : d.spo) { array<u64, 3> r = {{0, 0, 0}}; for (int i = 0; i < n; ++i) r[i] = t[p[i]]; m[r]++; }
            rows.assign(m.begin(), m.end());
        }
        void work() { if (db.budget && ++db.done > db.budget) throw TooMuchWork(); }
        void need() { if (!started || pos >= rows.size()) vf::violation("scan-protocol", "a value is read from a scan that has no current row"); }
        u64 getValue1() { need(); return pos < rows.size() ? rows[pos].first[0] : 0; }
        u64 getValue2() { need(); if (n < 2) vf::violation("scan-column", "second column of a one column scan"); return pos < rows.size() ? rows[pos].first[1] : 0; }
        u64 getValue3() { need(); if (n < 3) vf::violation("scan-column", "third column of a shorter scan"); return pos < rows.size() ? rows[pos].first[2] : 0; }
        u64 getCount() { need(); return pos < rows.size() ? rows[pos].second : 0; }
        void seek(array<u64, 3> k) { work(); pos = lower_bound(rows.begin(), rows.end(), make_pair(k, (u64) 0)) - rows.begin(); started = true; }
        bool next() {
            if (!started) vf::violation("scan-protocol", "next before first");
            work();
            if (pos < rows.size()) ++pos;
            ++calls;
            if (hint && pos < rows.size() && (db.hintMode == 1 || (db.hintMode == 2 && (calls * 2654435761u >> 7) % 3 == 0))) {
                array<u64, 3> h = rows[pos].first;
                if (n == 3) hint->next(h[0], h[1], h[2]); else if (n == 2) hint->next(h[0], h[1]); else hint->next(h[0]);
                if (h < rows[pos].first) vf::violation("hint-backwards", "a scan hint moves backwards");
                size_t was = pos;
                if (h > rows[pos].first) seek(h);
                db.skipped += pos - was;
            }
            return pos < rows.size();
        }
        bool first() { work(); started = true; pos = 0; return !rows.empty(); }
        bool at(array<u64, 3> k, int nb) {
            seek(k);
            // as in the real layer: a scan on a bound prefix ends with the prefix
            if (pos >= rows.size()) return false;
            (void) nb;
            return true;
        }
        bool first(u64 a, bool) { return at({{a, 0, 0}}, 1); }
        bool first(u64 a, bool, u64 b, bool bb) { return at({{a, bb ? b : 0, 0}}, 2); }
        bool first(u64 a, bool, u64 b, bool bb, u64 c, bool bc) { return at({{a, bb ? b : 0, bb && bc ? c : 0}}, 3); }
    };
    bool lookup(const string &t, ::Type::ID, unsigned, u64 &id) { for (auto &p : text) if (p.second == t) { id = p.first; return true; } return false; }
    bool lookupById(u64 id, const char *&a, const char *&b, ::Type::ID &type, unsigned &sub) {
        auto it = text.find(id);
        if (it == text.end()) return false;
        a = it->second.c_str(); b = a + it->second.size(); sub = 0;
        type = it->second[0] == '<' || it->second[0] == '_' ? ::Type::URI : ::Type::Literal;
        return true;
    }
    bool lookupById(u64 id, char *out, size_t &len, ::Type::ID &type, unsigned &sub) {
        const char *a, *b; if (!lookupById(id, a, b, type, sub)) return false;
        len = b - a; memcpy(out, a, len); return true;
    }
    u64 getNextId() { return 1ull << 40; }
    double getScanCost(DataOrder, u64, u64, u64, u64, u64, u64) { return 1; }
    double getScanCost(DataOrder, u64, u64, u64, u64) { return 1; }
    double getScanCost(DataOrder, u64, u64) { return 1; }
    double getJoinSelectivity(bool, u64, bool, u64, bool, u64, bool, u64, bool, u64, bool, u64) { return 1; }
    u64 getCardinality(u64, u64, u64) { return 1; }
    u64 getCardinality() { return spo.size(); }
    unique_ptr<DBLayer::Scan> getScan(const DataOrder o, const Aggr_t a, Hint *h) { scans++; return unique_ptr<DBLayer::Scan>(new S(*this, o, a, h)); }
};

#endif
