// C16: the web server of a knowledge base: the SPARQL endpoint, the dictionary lookup and the pages.
#include "kbutil.h"
#include "ports.h"
#include <trident/server/server.h>
#include <trident/utils/httpclient.h>
#include <trident/utils/json.h>
#include <trident/sparql/sparql.h>
#include <layers/TridentLayer.hpp>
#include <atomic>
typedef std::string Str;
using vf::Rng;

static Str form(Rng &r, const Str &v) { // application/x-www-form-urlencoded, as different clients write it
    int style = (int) r.below(3); Str o;
    for (unsigned char c : v) {
        bool safe = isalnum(c) || strchr("-_.~", c);
        bool lax = style == 2 && c > 32 && c < 127 && !strchr("%+&=#", c);
        if (safe || lax) o += (char) c; else if (c == ' ' && style) o += '+';
        else { char b[4]; snprintf(b, 4, style == 1 ? "%%%02x" : "%%%02X", c); o += b; }
    }
    return o;
}
static Str rowsText(JSON &j) { std::ostringstream o; JSON::write(o, j); return o.str(); }
// the rows of "bindings", sorted
static std::vector<Str> rowsOf(const JSON &j) {
    std::vector<Str> v; for (auto c : j.getListChildren()) v.push_back(rowsText(c));
    std::sort(v.begin(), v.end()); return v;
}
struct Q { Str text; std::vector<Str> rows; bool fixed; size_t nref; };
static Str term(const Str &t) { return t; }
static void oneCase(Rng &r) {
    Str in = vf::freshDir("in"), kbd = vf::freshDir("kb") + "/kb", web = vf::freshDir("web") + "/site";
    mkdir(web.c_str(), 0755); mkdir((web + "/sub").c_str(), 0755); mkdir((web + "/HTTP").c_str(), 0755);
    Port res; int port = res.port;
    std::map<Str, Str> pages;
    Str secret = "SECRET" + std::to_string(r.next()); vf::spew(web + "/../secret.txt", secret);
    pages["/index.html"] = "<html>port WEB_PORT " + std::to_string(r.next()) + "</html>"; pages["/sub/a.js"] = Str(1 + r.below(9000), 'x') + "\r\n\r\nend"; pages["/sub/b..css"] = "b{}"; pages["/HTTP/x.txt"] = "HTTP page";
    for (auto &p : pages) vf::spew(web + p.first, p.second);
    Str pp = std::to_string(port); size_t w = pages["/index.html"].find("WEB_PORT"); pages["/index.html"].replace(w, 8, pp);
    // data
    auto v = kbu::genTriples(r, 10 + r.below(200));
    static const char *odd[] = { "\"a+b & c=d%20 print=false\"", "\"query=x&print=false\"", "\"50% + 50%41\"", "\"tab ; # ? /\"", "\"\xC3\xA9t\xC3\xA9 & HTTP/1.1\"", "\"line\\nbreak\\ttab \\\\n\"", "\"z+1\"^^<urn:t>", "\"s\"^^<http://www.w3.org/2001/XMLSchema#string>", "\"true\"^^<http://www.w3.org/2001/XMLSchema#boolean>", "\"chat\"@fr" };
    for (int i = 0; i < 10; ++i) { kbu::StrT t = v[r.below(v.size())]; t.o = odd[i]; v.push_back(t); }
    kbu::writeNT(in, v, 2); std::set<kbu::StrT> set(v.begin(), v.end()); std::vector<kbu::StrT> all(set.begin(), set.end());
    ParamsLoad lp = kbu::baseParams(in, kbd); lp.sample = true; lp.sampleRate = 0.2; kbu::loadKB(lp);
    KBConfig cfg; KB kb(kbd.c_str(), true, false, true, cfg);
    std::vector<Q> qs;
    std::map<Str, int64_t> ids; // some ids with their text
    {
        TridentLayer layer(kb);
        for (int i = 0; i < 17; ++i) {
            const kbu::StrT &t = i < 10 ? v[v.size() - 1 - i] : all[r.below(all.size())];
            bool cs = r.chance(30), cp = r.chance(30), co = r.chance(30) || i < 10; if (cs && cp && co) cs = false;
            auto ok = [](const Str &x) { return x[0] != '_'; };
            if (!ok(t.s)) cs = false; if (!ok(t.o)) co = false;
            Str a = cs ? t.s : "?a", b = cp ? t.p : "?b", c = co ? t.o : "?c";
            Q q; q.fixed = true; q.nref = 0;
            Str nl = r.chance(30) ? "\r\n" : r.chance(50) ? "\n" : " ";
            bool join = r.chance(30);
            q.text = "select * where {" + nl + a + " " + b + " " + c + " ." + nl + (join && !cs ? Str("?a ?d ?e .") + nl : Str()) + "}";
            for (auto &x : all) if ((!cs || x.s == t.s) && (!cp || x.p == t.p) && (!co || x.o == t.o)) { if (join && !cs) { for (auto &y : all) q.nref += y.s == x.s; } else ++q.nref; }
            if (q.nref > 2000) continue;
            JSON vars, rows, stats; Str plain; for (char ch : q.text) if (ch != '\r') plain += ch;
            SPARQLUtils::execSPARQLQuery(plain, false, kb.getNTerms(), layer, false, true, &vars, &rows, &stats);
            q.rows = rowsOf(rows);
            VF_CHECK(q.rows.size() == q.nref, "reference", "%d rows, not %d, for %s", (int) q.rows.size(), (int) q.nref, plain.c_str());
            qs.push_back(q);
        }
    }
    for (int i = 0; i < 20; ++i) { const kbu::StrT &t = all[r.below(all.size())]; const Str &s = r.chance(50) ? t.s : t.o; int64_t id; if (kbu::lookup(kb.getDictMgmt(), s, id, false)) ids[s] = id; }
    std::vector<std::pair<Str, int64_t>> idv(ids.begin(), ids.end());
    int nthr = 1 + (int) r.below(4);
    TridentServer srv(kb, web, nthr); srv.start(port);
    { HttpClient c("127.0.0.1", (uint32_t) port); int k = 0; while (!c.connect() && k++ < 20000) usleep(500); }
    std::vector<std::thread> cl; int ncl = 1 + (int) r.below(4); std::vector<uint64_t> seeds; for (int i = 0; i < ncl; ++i) seeds.push_back(r.next());
    for (int i = 0; i < ncl; ++i) cl.push_back(std::thread([&, i] {
        Rng c(seeds[i]); HttpClient h("127.0.0.1", (uint32_t) port); if (!h.connect()) { vf::violation("connect", "the server refuses connections"); return; }
        for (int k = 0; k < 12; ++k) {
            Str hd, body; int what = (int) c.below(10);
            if (what < 5 && !qs.empty()) {
                const Q &q = qs[c.below(qs.size())]; Str f;
                int ord = (int) c.below(4); Str pv = "query=" + form(c, q.text);
                f = ord == 0 ? pv : ord == 1 ? pv + "&print=true" : ord == 2 ? "print=true&" + pv : "myquery=no&reprint=false&" + pv + "&queryx=1";
                if (!h.post("/sparql", f, hd, body)) { vf::violation("sparql-answer", "no answer to " + q.text); h.connect(); continue; }
                VF_CHECK(hd.find("Content-Type: application/json\r\n") != Str::npos, "sparql-header", "header %s", hd.c_str());
                try { JSON j; JSON::read(body, j); JSON res = j.getChild("results"); VF_CHECK(j.containsChild("head") && j.containsChild("results") && res.containsChild("bindings"), "sparql-shape", "answer %s", body.c_str());
                    auto got = rowsOf(res.getChild("bindings"));
                    VF_CHECK(got == q.rows, "sparql-rows", "%d rows, not %d, for %s as %s", (int) got.size(), (int) q.rows.size(), q.text.c_str(), f.c_str());
                    if (q.rows.empty()) VF_CHECK(body.find("\"bindings\" : []") != Str::npos || body.find("\"bindings\":[]") != Str::npos, "sparql-empty", "an empty result is written %s", body.c_str());
                } catch (int) { vf::violation("sparql-json", "the answer is not JSON: " + body); }
                vf::add("queries posted"); vf::add("rows received", q.rows.size()); vf::distinct(vf::hashStr(q.text)); vf::sample(q.text);
            } else if (what < 7 && !idv.empty()) {
                auto &p = c.pick(idv); Str f = "id=" + std::to_string(p.second);
                if (!h.post("/lookup", f, hd, body)) { vf::violation("lookup-answer", "no answer"); h.connect(); continue; }
                Str want = p.first[0] == '<' ? p.first.substr(1, p.first.size() - 2) : p.first;
                try { JSON j; JSON::read(body, j); VF_CHECK(j.contains("value") && j.get("value") == want, "lookup", "id %lld: %s, not %s", (long long) p.second, body.c_str(), want.c_str()); } catch (int) { vf::violation("lookup-json", body); }
                vf::add("ids looked up");
            } else if (what == 7) {
                static const char *bad[] = { "id=99999999999", "id=", "id=x", "noid=3", "query=select" }; int b = (int) c.below(5); Str f = bad[b];
                bool ok = h.post(b == 4 ? "/sparql" : "/lookup", f, hd, body); if (!ok) h.connect();
                vf::add(ok ? "bad requests answered" : "bad requests refused");
            } else if (what == 8) {
                static const char *esc[] = { "/../secret.txt", "/sub/../../secret.txt", "/./../secret.txt", "/sub/..", "/.." }; Str p = esc[c.below(5)];
                if (!h.get(p, hd, body)) { h.connect(); continue; }
                VF_CHECK(body.find("SECRET") == Str::npos, "outside", "GET %s returns a file outside the directory", p.c_str()); vf::add("paths outside");
            } else {
                auto it = pages.begin(); std::advance(it, c.below(pages.size())); Str p = it->first, want = it->second;
                if (c.chance(20)) { p = "/"; want = pages["/index.html"]; } else if (c.chance(20)) { p = "/none" + std::to_string(c.below(9)); want = "Error! I cannot find the page to show."; }
                if (!h.get(p, hd, body)) { vf::violation("page-answer", "no answer to GET " + p); h.connect(); continue; }
                VF_CHECK(body == want, "page", "GET %s returns %d bytes, not %d", p.c_str(), (int) body.size(), (int) want.size()); vf::add("pages");
            }
        }
    }));
    for (auto &t : cl) t.join();
    std::atomic<bool> done(false);
    std::thread wd([&] { for (int i = 0; i < 60000 && !done; ++i) usleep(1000); if (!done) { vf::violation("stop-hangs", "TridentServer::stop() does not return"); vf::flushStats(); _exit(3); } });
    srv.stop(); srv.join(); done = true; wd.join();
    HttpClient late("127.0.0.1", (uint32_t) port); Str a, b; if (late.connect()) VF_CHECK(!late.get("/", a, b), "served-after-stop", "answered after stop()");
}
int main(int argc, char **argv) {
    { const std::ctype<char> &f = std::use_facet<std::ctype<char>>(std::locale()); for (int c = 0; c < 256; ++c) { f.narrow((char) c, 0); f.widen((char) c); } } // fill the caches of the C++ library, which are not synchronised
    static std::ostringstream &sink = *new std::ostringstream(); std::cerr.rdbuf(sink.rdbuf()); static std::ostringstream &sink2 = *new std::ostringstream(); std::cout.rdbuf(sink2.rdbuf());
    return vf::run(argc, argv, [](Rng &r, uint64_t) { oneCase(r); });
}
