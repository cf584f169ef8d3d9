// C17: JSON documents. An independent parser and writer are the reference.
#include "common.h"
#include <iomanip>
#include <cmath>
#include <trident/utils/json.h>
typedef std::string Str;
using vf::Rng;

struct V { int t = 0; Str s; std::vector<std::pair<Str, V>> m; std::vector<V> l; }; // 0 text, 1 object, 2 list
static Str utf8(uint32_t c) {
    Str o;
    if (c < 0x80) o += (char) c; else if (c < 0x800) { o += (char) (0xC0 | c >> 6); o += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char) (0xE0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
    else { o += (char) (0xF0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
    return o;
}
static Str text(Rng &r) {
    Str s; size_t n = r.chance(5) ? r.below(300) : r.below(12);
    while (n-- > 0) switch (r.below(8)) {
        case 0: s += (char) r.below(32); break;
        case 1: s += "\"\\/\b\n\t{}[]:,"[r.below(12)]; break;
        case 2: s += utf8(0x80 + (uint32_t) r.below(0x700)); break;
        case 3: s += utf8(r.chance(50) ? 0x4E00 + (uint32_t) r.below(500) : 0x1F600 + (uint32_t) r.below(50)); break;
        default: s += (char) (32 + r.below(95)); break;
    }
    return s;
}
static Str quote(Rng &r, const Str &s) { // any of the spellings that JSON allows
    Str o = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = (unsigned char) s[i];
        const char *sh = c == '\n' ? "\\n" : c == '\t' ? "\\t" : c == '\b' ? "\\b" : c == '\r' ? "\\r" : c == '\f' ? "\\f" : c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '/' && r.chance(50) ? "\\/" : 0;
        if (sh && r.chance(70)) o += sh;
        else if (c < 32 || c == '"' || c == '\\' || (c < 127 && r.chance(5))) { char b[8]; snprintf(b, 8, r.chance(50) ? "\\u%04x" : "\\u%04X", c); o += b; }
        else if (c >= 0xC0 && c < 0xF0 && r.chance(30)) {
            uint32_t u; if (c < 0xE0) { u = (c & 31) << 6 | (s[i + 1] & 63); i += 1; } else { u = (c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63); i += 2; }
            char b[8]; snprintf(b, 8, "\\u%04x", u); o += b;
        } else if (c >= 0xF0 && r.chance(30)) {
            uint32_t u = (c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63); i += 3; u -= 0x10000;
            char b[16]; snprintf(b, 16, "\\u%04x\\u%04x", 0xD800 + (u >> 10), 0xDC00 + (u & 1023)); o += b;
        } else o += (char) c;
    }
    return o + "\"";
}
static Str ws(Rng &r) { Str s; while (r.chance(25)) s += " \n\t\r"[r.below(4)]; return s; }
static Str number(Rng &r) {
    Str s = r.chance(40) ? "-" : "";
    switch (r.below(5)) {
        case 0: return s + std::to_string(r.below(100));
        case 1: return s + std::to_string(r.next() >> (r.below(60) + 1));
        case 2: return s + std::to_string(r.below(1000)) + "." + std::to_string(r.below(1000000000ULL));
        case 3: return s + std::to_string(r.below(10)) + "." + std::to_string(r.below(100)) + (r.chance(50) ? "e" : "E") + (r.chance(50) ? "-" : r.chance(50) ? "+" : "") + std::to_string(r.below(20));
        default: return std::to_string(r.next());
    }
}
// a document and the value that the JSON class represents for it
static V gen(Rng &r, int depth, Str &doc, bool top) {
    V v; int k = top ? 1 + (int) r.below(2) : depth <= 0 ? 0 : (int) r.below(4);
    if (k == 1) {
        v.t = 1; doc += "{" + ws(r); size_t n = r.below(5); std::set<Str> used;
        for (size_t i = 0; i < n; ++i) {
            Str key; do { key = text(r); } while (key.empty() || used.count(key)); used.insert(key);
            if (!v.m.empty()) doc += ws(r) + "," + ws(r);
            doc += quote(r, key) + ws(r) + ":" + ws(r);
            V c = gen(r, depth - 1, doc, false); v.m.push_back(std::make_pair(key, c));
        }
        doc += ws(r) + "}";
    } else if (k == 2) {
        v.t = 2; doc += "[" + ws(r); size_t n = r.below(5); bool objs = depth > 1 && r.chance(50);
        for (size_t i = 0; i < n; ++i) {
            if (i) doc += ws(r) + "," + ws(r);
            v.l.push_back(objs ? gen(r, depth - 1, doc, true) : gen(r, 0, doc, false));
        }
        doc += ws(r) + "]";
    } else switch (r.below(5)) {
        case 0: { bool b = r.chance(50); doc += b ? "true" : "false"; v.s = b ? "1" : "0"; break; }
        case 1: doc += "null"; v.s = "NULL"; break;
        case 2: v.s = number(r); doc += v.s; break;
        default: v.s = text(r); doc += quote(r, v.s);
    }
    return v;
}
static JSON build(const V &v) {
    JSON j;
    if (v.t == 1) for (auto &p : v.m) { if (p.second.t) { JSON c = build(p.second); j.add_child(p.first, c); } else j.put(p.first, p.second.s); }
    else for (auto &c : v.l) { if (c.t) j.push_back(build(c)); else j.push_back(c.s); }
    return j;
}
struct Bad { Str why; };
struct P { // strict parser of what JSON::write gives
    const Str &s; size_t i = 0; P(const Str &s) : s(s) {}
    void sp() { while (i < s.size() && strchr(" \n\t\r", s[i]) && s[i]) ++i; }
    void need(char c) { sp(); if (i >= s.size() || s[i] != c) throw Bad{ vf::fmt("expected %c at %d", c, (int) i) }; ++i; }
    Str str() {
        need('"'); Str o;
        while (true) {
            if (i >= s.size()) throw Bad{ "unterminated string" };
            unsigned char c = (unsigned char) s[i++];
            if (c == '"') return o;
            if (c < 32) throw Bad{ "raw control character" };
            if (c != '\\') { o += (char) c; continue; }
            char e = s[i++];
            if (e == 'u') { uint32_t u = (uint32_t) strtoul(s.substr(i, 4).c_str(), 0, 16); i += 4; o += utf8(u); }
            else { const char *p = strchr("\"\"\\\\//b\bf\fn\nr\rt\t", e); if (!p) throw Bad{ "bad escape" }; o += p[1]; }
        }
    }
    V val() {
        V v; sp(); if (i >= s.size()) throw Bad{ "end" };
        if (s[i] == '{') { v.t = 1; ++i; sp(); if (s[i] == '}') { ++i; return v; } while (true) { Str k = str(); need(':'); v.m.push_back(std::make_pair(k, val())); sp(); if (s[i] == ',') { ++i; continue; } need('}'); return v; } }
        if (s[i] == '[') { v.t = 2; ++i; sp(); if (s[i] == ']') { ++i; return v; } while (true) { v.l.push_back(val()); sp(); if (s[i] == ',') { ++i; continue; } need(']'); return v; } }
        v.s = str(); return v;
    }
};
static bool same(const V &a, const V &b, bool emptyListIsObject) {
    if (a.t != b.t) return emptyListIsObject && a.t && b.t && a.m.empty() && b.m.empty() && a.l.empty() && b.l.empty();
    if (a.t == 0) return a.s == b.s;
    if (a.t == 2) { if (a.l.size() != b.l.size()) return false; for (size_t i = 0; i < a.l.size(); ++i) if (!same(a.l[i], b.l[i], emptyListIsObject)) return false; return true; }
    if (a.m.size() != b.m.size()) return false;
    std::map<Str, const V *> m; for (auto &p : b.m) m[p.first] = &p.second;
    for (auto &p : a.m) { auto it = m.find(p.first); if (it == m.end() || !same(p.second, *it->second, emptyListIsObject)) return false; }
    return true;
}
static void probe(JSON &j, const V &v) { // the accessors
    if (v.t == 2) {
        size_t n = 0; for (auto &c : v.l) n += c.t != 0;
        VF_CHECK(j.getListChildren().size() == n, "list-children", "%d children in a list with %d", (int) j.getListChildren().size(), (int) n);
        for (size_t i = 0; i < n && n == v.l.size(); ++i) { JSON c = j.getListChildren()[i]; probe(c, v.l[i]); }
        return;
    }
    for (auto &p : v.m) {
        bool obj = p.second.t != 0;
        VF_CHECK(j.containsChild(p.first) == obj && j.contains(p.first) == !obj, "contains", "member %s", p.first.c_str());
        if (obj && j.containsChild(p.first)) { JSON c = j.getChild(p.first); probe(c, p.second); }
        if (!obj && j.contains(p.first)) VF_CHECK(j.get(p.first) == p.second.s, "get", "member %s is [%s], not [%s]", p.first.c_str(), j.get(p.first).c_str(), p.second.s.c_str());
    }
    VF_CHECK(!j.contains("absent member") && !j.containsChild("absent member"), "contains-absent", "absent member");
}
static Str dump(JSON &j) { std::ostringstream o; JSON::write(o, j); return o.str(); }
static void oneCase(Rng &r) {
    for (int k = 0; k < 10; ++k) {
        Str doc = ws(r); V v = gen(r, 1 + (int) r.below(5), doc, true); doc += ws(r);
        vf::distinct(vf::hashStr(doc)); vf::add("documents"); vf::sample(doc.substr(0, 300));
        try {
            JSON j; JSON::read(doc, j);
            probe(j, v);
            Str out = dump(j); V w;
            try { P p(out); w = p.val(); p.sp(); VF_CHECK(p.i == out.size(), "write-trailing", "text after the document: %s", out.c_str());
                VF_CHECK(same(v, w, false), "read-write", "%s is written as %s", doc.c_str(), out.c_str()); } catch (Bad &b) { vf::violation("write-invalid", b.why + ": " + out); }
            JSON j2; JSON::read(out, j2); VF_CHECK(dump(j2) == out, "write-read-write", "%s", out.c_str());
        } catch (int e) { vf::violation("read-refuses", "the document is refused: " + doc); }
        { JSON j = build(v); probe(j, v); Str out = dump(j);
            try { P p(out); V w = p.val(); VF_CHECK(same(v, w, true), "build-write", "%s is written as %s", doc.c_str(), out.c_str()); } catch (Bad &b) { vf::violation("write-invalid", b.why + ": " + out); } }
        // damaged documents are refused or read, without any memory error
        for (int d = 0; d < 3; ++d) {
            Str bad = doc; int how = (int) r.below(3);
            if (how == 0) { size_t cut = r.below(bad.size()); bad.resize(cut); Str t = bad; while (!t.empty() && strchr(" \n\t\r", t.back())) t.pop_back();
                Str full = doc; while (!full.empty() && strchr(" \n\t\r", full.back())) full.pop_back();
                if (t.size() < full.size()) { bool refused = false; try { JSON j; JSON::read(bad, j); } catch (int) { refused = true; } VF_CHECK(refused, "truncated", "a truncated document is accepted: %s", bad.c_str()); vf::add("truncated documents refused", refused); }
            } else { for (size_t m = 1 + r.below(3); m > 0; --m) bad[r.below(bad.size())] = (char) r.below(256); try { JSON j; JSON::read(bad, j); vf::add("damaged documents read"); } catch (int) { vf::add("damaged documents refused"); } }
        }
    }
    { JSON j; // numbers that are put
        long a = (long) r.next(); unsigned long b = r.next(); int c = (int) r.next(); unsigned char d = (unsigned char) r.next(); unsigned short e = (unsigned short) r.next(); unsigned f = (unsigned) r.next(); unsigned long long g = r.next(); double h = (r.real() - 0.5) * 1e6; float i = (float) h;
        j.put("a", a); j.put("b", b); j.put("c", c); j.put("d", d); j.put("e", e); j.put("f", f); j.put("g", g); j.put("h", h); j.put("i", i);
        VF_CHECK(j.get("a") == std::to_string(a) && j.get("b") == std::to_string(b) && j.get("c") == std::to_string(c) && j.get("d") == std::to_string((int) d) && j.get("e") == std::to_string((int) e) && j.get("f") == std::to_string(f) && j.get("g") == std::to_string(g), "put-number", "%s", dump(j).c_str());
        VF_CHECK(fabs(atof(j.get("h").c_str()) - h) < 1e-5 && fabs(atof(j.get("i").c_str()) - i) < 1e-5, "put-real", "%s", dump(j).c_str()); }
}
int main(int argc, char **argv) {
    static std::ostringstream &sink = *new std::ostringstream(); std::cerr.rdbuf(sink.rdbuf());
    return vf::run(argc, argv, [&](Rng &r, uint64_t) { sink.str(""); oneCase(r); });
}
