// C16: HTTP server and client over the loopback interface.
// modes: "" server against raw and hostile clients; "client" HttpClient against a scripted server; "kb" the SPARQL endpoint
// C17: mode "json"
#include "common.h"
#include "ports.h"
#include <trident/utils/httpserver.h>
#include <trident/utils/httpclient.h>
#include <thread>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <signal.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
typedef std::string Str;
using vf::Rng;
namespace chr = std::chrono;

static int dial(int port) {
    int fd = socket(PF_INET, SOCK_STREAM, 0);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
    if (connect(fd, (sockaddr *) &a, sizeof a) != 0) { close(fd); return -1; }
    int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    timeval tv; tv.tv_sec = 60; tv.tv_usec = 0; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
    return fd;
}
static void nap(int us) { std::this_thread::sleep_for(chr::microseconds(us)); }
// sends s in random pieces
static bool sendPieces(int fd, const Str &s, Rng &r, int style) {
    size_t i = 0;
    while (i < s.size()) {
        size_t n = style == 0 ? s.size() : style == 1 ? 1 + r.below(40) : style == 2 ? 1 + r.below(2000) : (s.size() > 1100 && i == 0 ? 1024 : s.size());
        if (style == 1 && s.size() > 3000) n = 200 + r.below(1500);
        n = std::min(n, s.size() - i);
        ssize_t k = send(fd, s.data() + i, n, MSG_NOSIGNAL);
        if (k <= 0) return false;
        i += (size_t) k;
        if (style && r.chance(50)) nap((int) r.below(400));
    }
    return true;
}
static bool recvN(int fd, size_t n, Str &out) {
    char b[8192];
    while (out.size() < n) { ssize_t k = recv(fd, b, std::min(sizeof b, n - out.size()), 0); if (k <= 0) return false; out.append(b, (size_t) k); }
    return true;
}
// false: end of stream or time out
static bool recvUntil(int fd, const Str &mark, Str &out, size_t cap = 1 << 20) {
    char c;
    while (out.size() < cap) {
        if (out.size() >= mark.size() && out.compare(out.size() - mark.size(), mark.size(), mark) == 0) return true;
        if (recv(fd, &c, 1, 0) <= 0) return false;
        out += c;
    }
    return false;
}
static Str bytes(Rng &r, size_t n, bool bin) {
    static const char *al = "abcdefghijklmnopqrstuvwxyzABCDEF0123456789 <>?{}\"&=%+.:/\\#";
    static const char *trap[] = { "\r\n\r\n", "Content-Length: 7\r\n", "HTTP/1.1", "POST /x HTTP/1.1\r\n\r\n", "GET ", "\r\n", "query=", "print=false" };
    Str s;
    while (s.size() < n) {
        if (r.chance(4)) s += trap[r.below(8)];
        else if (bin) s += (char) r.below(256);
        else s += al[r.below(strlen(al))];
    }
    s.resize(n);
    return s;
}
static size_t bodySize(Rng &r) {
    switch (r.below(7)) { case 0: return 0; case 1: return r.below(20); case 2: return 900 + r.below(300); case 3: return r.below(5000); case 4: return 1024 * (1 + r.below(4)) - r.below(3);
        case 5: return r.below(400); default: return r.chance(10) ? 100000 + r.below(200000) : r.below(300); }
}
struct Req { Str text, resp; bool fails; };
static std::atomic<uint64_t> gid(0);
static Req makeReq(Rng &r, uint64_t id) {
    Req q; q.fails = r.chance(4);
    bool post = r.chance(60);
    Str body = post ? bytes(r, bodySize(r), r.chance(50)) : Str();
    Str h = (post ? "POST /p" : "GET /g") + std::to_string(id) + " HTTP/1.1\r\nHost: localhost\r\n";
    Str cl;
    if (post || r.chance(10)) {
        static const char *names[] = { "Content-Length:", "content-length:", "CONTENT-LENGTH:", "Content-length:" };
        static const char *sp[] = { " ", "", "  ", "\t" };
        cl = Str(names[r.chance(60) ? 0 : r.below(4)]) + sp[r.chance(70) ? 0 : r.below(4)] + std::to_string(body.size()) + "\r\n";
        if (post && body.empty() && r.chance(30)) cl = "";
    }
    Str extra;
    for (size_t k = r.below(4); k > 0; --k) extra += "X-H" + std::to_string(k) + ": " + (r.chance(20) ? Str("about Content-Length: 99") : Str(r.below(r.chance(10) ? 2000 : 60), 'h')) + "\r\n";
    h += r.chance(50) ? cl + extra : extra + cl;
    q.text = h + "\r\n" + body;
    return q;
}
static Str answer(const Str &req) { // what the handler answers
    uint64_t h = vf::hashStr(req);
    Rng r(h);
    Str b = std::to_string(h) + "|" + std::to_string(req.size()) + "|";
    size_t n = r.chance(5) ? 200000 + r.below(800000) : r.chance(30) ? r.below(5000) : r.below(100);
    if (n > 6000) b += Str(n, (char) ('a' + r.below(26))); else b += bytes(r, n, true);
    return "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b;
}
struct Log { std::mutex mu; std::map<Str, int> seen; std::atomic<int> nfail, active, peak; Log() : nfail(0), active(0), peak(0) {} };

static void serverCase(Rng &r) {
    Log log; std::map<Str, int> want; std::mutex wmu; std::set<Str> failing;
    int nthr = 1 + (int) r.below(4), port = -1; std::unique_ptr<Port> res;
    auto handler = [&](const Str &q, Str &res) {
        int a = ++log.active; int p = log.peak; while (a > p && !log.peak.compare_exchange_weak(p, a)) {}
        struct Dec { std::atomic<int> &x; ~Dec() { --x; } } dec{ log.active };
        bool f;
        { std::lock_guard<std::mutex> g(log.mu); ++log.seen[q]; f = failing.count(q) > 0; }
        if (f) { ++log.nfail; throw std::runtime_error("handler"); }
        if (q.size() % 7 == 0) nap(300);
        res = answer(q);
    };
    HttpServer *srv = 0; std::thread st; std::atomic<bool> returned(false);
    for (int t = 0; t < 5; ++t) { // another process may own the port: try again with another one
        res.reset(new Port()); port = res->port; returned = false;
        srv = new HttpServer((uint32_t) port, handler, (uint32_t) nthr, 20000);
        st = std::thread([&] { srv->start(); returned = true; });
        int waited = 0; while (!srv->isLaunched() && !returned && waited < 60000) { nap(500); waited++; }
        if (srv->isLaunched() || !returned) break;
        st.join(); delete srv; srv = 0; vf::add("ports in use");
    }
    if (!srv || !srv->isLaunched()) { vf::violation("not-launched", "the server did not start"); if (!srv) return; }
    // an idle client must not keep the others from being served
    int idle = r.chance(50) ? dial(port) : -1;
    int ncl = 1 + (int) r.below(5);
    std::vector<std::thread> cl; std::vector<uint64_t> seeds; for (int i = 0; i < ncl; ++i) seeds.push_back(r.next());
    for (int i = 0; i < ncl; ++i) cl.push_back(std::thread([&, i] {
        Rng c(seeds[i]);
        int conns = 1 + (int) c.below(3);
        for (int k = 0; k < conns; ++k) {
            int kind = (int) c.below(10);
            int fd = dial(port);
            if (fd < 0) { vf::violation("refused", "connection refused by a running server"); return; }
            int style = (int) c.below(4);
            if (kind < 6) { // well formed, several requests over the same connection
                int n = 1 + (int) c.below(5); bool pipe = c.chance(25); bool alive = true;
                std::vector<Req> qs; for (int j = 0; j < n; ++j) qs.push_back(makeReq(c, ++gid));
                { std::lock_guard<std::mutex> g(log.mu); for (auto &q : qs) if (q.fails && !pipe) failing.insert(q.text); else q.fails = false; }
                if (pipe) {
                    Str all; for (auto &q : qs) if (q.text.size() < 6000) all += q.text;
                    std::vector<Req> keep; for (auto &q : qs) if (q.text.size() < 6000) keep.push_back(q);
                    // the answers are read by another thread: neither side may block the other
                    std::thread wr([&] { sendPieces(fd, all, c, style); });
                    int j = 0; bool bad = false;
                    for (auto &q : keep) {
                        { std::lock_guard<std::mutex> g(wmu); ++want[q.text]; }
                        Str exp = answer(q.text), got;
                        if (!bad && (!recvN(fd, exp.size(), got) || got != exp)) { bad = true; vf::violation("pipelined", vf::fmt("answer %d of %d pipelined requests differs (%d of %d bytes)", j, (int) keep.size(), (int) got.size(), (int) exp.size())); shutdown(fd, 2); }
                        ++j; vf::add("pipelined requests");
                    }
                    wr.join();
                } else for (int j = 0; j < n && alive; ++j) {
                    auto &q = qs[j];
                    { std::lock_guard<std::mutex> g(wmu); ++want[q.text]; }
                    if (!sendPieces(fd, q.text, c, style)) { vf::violation("send", vf::fmt("the server closed the connection while request %d was sent", j)); break; }
                    if (q.fails) { Str got; char b; if (recv(fd, &b, 1, 0) != 0 && errno != ECONNRESET) vf::violation("failing-handler", "after an exception in the handler the connection is not closed"); alive = false; vf::add("failing handlers"); break; }
                    Str exp = answer(q.text), got;
                    if (c.chance(10)) nap((int) c.below(3000));
                    bool ok = recvN(fd, exp.size(), got);
                    if (!ok || got != exp) { vf::violation("response", vf::fmt("response to request %d (%d bytes, sent in style %d) has %d of %d bytes%s", j, (int) q.text.size(), style, (int) got.size(), (int) exp.size(), ok ? ", and differs" : "")); alive = false; }
                    vf::add("requests answered"); vf::distinct(vf::mix(q.text.size() * 64 + style * 16 + j, exp.size())); vf::sample(vf::fmt("request of %zu bytes, way of sending %d, number %d on its connection, answer of %zu bytes", q.text.size(), (int)style, (int)j, exp.size()));
                }
            } else if (kind == 6) { // part of a request, then gone
                Req q = makeReq(c, ++gid); size_t cut = c.below(q.text.size());
                sendPieces(fd, q.text.substr(0, cut), c, style); vf::add("requests cut short");
            } else if (kind == 7) { // goes away without reading the answer
                Req q = makeReq(c, ++gid);
                sendPieces(fd, q.text, c, style); { std::lock_guard<std::mutex> g(wmu); want[q.text] = -1; }
                linger lg; lg.l_onoff = 1; lg.l_linger = 0; if (c.chance(50)) setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
                vf::add("clients gone before the answer");
            } else if (kind == 8) { // invalid length
                Str bad = "POST /x" + std::to_string(++gid) + " HTTP/1.1\r\nContent-Length: " + (c.chance(50) ? Str("abc") : Str("99999999999999999999999999")) + "\r\n\r\nbody";
                sendPieces(fd, bad, c, style); Str got; char b; ssize_t k = recv(fd, &b, 1, 0);
                if (k > 0) vf::violation("bad-length", "a request with an invalid Content-Length was answered");
                vf::add("invalid lengths");
            } else { if (c.chance(50)) nap((int) c.below(2000)); vf::add("idle connections"); }
            close(fd);
        }
    }));
    for (auto &t : cl) t.join();
    if (idle >= 0 && r.chance(50)) { // the idle client is served as well
        Req q = makeReq(r, ++gid); { std::lock_guard<std::mutex> g(wmu); ++want[q.text]; }
        Str exp = answer(q.text), got;
        if (sendPieces(idle, q.text, r, 1)) { recvN(idle, exp.size(), got); if (got != exp) { /* closed after maxLifeConn: allowed only when that is short */ if (got.size()) vf::violation("idle-response", "wrong response to a client that was idle"); std::lock_guard<std::mutex> g(wmu); want[q.text] = -1; } }
    }
    if (idle >= 0 && r.chance(50)) { close(idle); idle = -1; }
    // stop: returns, and nothing is handled afterwards
    std::atomic<bool> stopped(false);
    std::thread wd([&] { for (int i = 0; i < 60000 && !stopped; ++i) nap(1000); if (!stopped) { vf::violation("stop-hangs", "stop() did not return within 60 s"); vf::flushStats(); _exit(3); } });
    srv->stop();
    st.join();
    VF_CHECK(!srv->isLaunched(), "launched-after-stop", "isLaunched() after stop()");
    size_t before; { std::lock_guard<std::mutex> g(log.mu); before = log.seen.size(); }
    int late = dial(port);
    if (late >= 0) { Str q = "GET /late HTTP/1.1\r\n\r\n"; if (send(late, q.data(), q.size(), MSG_NOSIGNAL) > 0) { timeval tv = { 0, 20000 }; setsockopt(late, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); char b; if (recv(late, &b, 1, 0) > 0) vf::violation("served-after-stop", "answered after stop()"); } close(late); }
    { std::lock_guard<std::mutex> g(log.mu); VF_CHECK(log.seen.size() == before, "handled-after-stop", "a request was handled after stop()"); }
    if (idle >= 0) { char b; timeval tv = { 20, 0 }; setsockopt(idle, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); ssize_t k = recv(idle, &b, 1, 0); VF_CHECK(k == 0 || (k < 0 && errno == ECONNRESET), "open-after-stop", "a connection stays open after stop()"); close(idle); }
    delete srv;
    stopped = true; wd.join();
    // exactly once
    for (auto &w : want) {
        auto it = log.seen.find(w.first); int n = it == log.seen.end() ? 0 : it->second;
        if (w.second == -1) VF_CHECK(n <= 1, "handled-twice", "a request whose client went away was handled %d times", n);
        else VF_CHECK(n == w.second, "exactly-once", "a request of %d bytes was handled %d times", (int) w.first.size(), n);
    }
    for (auto &s : log.seen) if (!want.count(s.first)) vf::violation("invented-request", vf::fmt("the handler saw %d bytes that no client sent as a request: ", (int) s.first.size()) + s.first.substr(0, 200));
    VF_CHECK(log.peak <= nthr, "threads", "%d handlers at the same time with %d threads", (int) log.peak, nthr);
    vf::add("requests handled", log.seen.size());
    if (log.peak > 1) vf::add("cases with concurrent handlers");
}

// ---------- HttpClient ----------
static Str randUrlPart(Rng &r, const char *al, size_t mx) { Str s; for (size_t n = r.below(mx); n > 0; --n) s += al[r.below(strlen(al))]; return s; }
static void clientCase(Rng &r) {
    // escape and unescape
    for (int k = 0; k < 20; ++k) {
        Str s = bytes(r, r.below(60), r.chance(60));
        Str e = HttpClient::escape(s);
        VF_CHECK(HttpClient::unescape(e) == s, "escape-roundtrip", "unescape(escape(s)) != s for %d bytes", (int) s.size());
        Str x; for (unsigned char c : s) { if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~') x += (char) c; else { char b[4]; snprintf(b, 4, "%%%02X", c); x += b; } }
        VF_CHECK(e == x, "escape", "escape gives %s", e.c_str());
        Str u; for (size_t i = 0; i < s.size();) { if (s[i] == '%' && i + 2 < s.size() && isxdigit((unsigned char) s[i + 1]) && isxdigit((unsigned char) s[i + 2])) { u += (char) strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 3; } else if (s[i] == '+') { u += ' '; ++i; } else u += s[i++]; }
        VF_CHECK(HttpClient::unescape(s) == u, "unescape", "unescape differs on %s", vf::oneline(s).c_str());
        vf::add("strings escaped");
    }
    // parse
    for (int k = 0; k < 10; ++k) {
        Str pr = r.chance(50) ? "http" : "HTTPS", host = "H" + randUrlPart(r, "abcXYZ.-09", 12), path, query; int port = 80; Str sp;
        if (r.chance(50)) { port = (int) r.below(65536); sp = ":" + std::to_string(port); }
        if (r.chance(70)) path = "/" + randUrlPart(r, "abcXYZ/.-:09%", 16);
        bool hasq = r.chance(50); if (hasq) query = randUrlPart(r, "abc=&:/%?XY", 16);
        Str url = pr + "://" + host + sp + path + (hasq ? "?" + query : "");
        HttpClient::URL u = HttpClient::parse(url);
        auto low = [](Str s) { for (auto &c : s) c = (char) tolower(c); return s; };
        VF_CHECK(u.protocol == low(pr) && u.host == low(host) && u.port == port && u.path == path && u.query == query, "parse-url", "%s: %s %s %d %s ? %s", url.c_str(), u.protocol.c_str(), u.host.c_str(), u.port, u.path.c_str(), u.query.c_str());
        vf::add("urls parsed");
    }
    // requests against a scripted server
    int ls = socket(PF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a;
    if (bind(ls, (sockaddr *) &a, sizeof a) || listen(ls, 4) || getsockname(ls, (sockaddr *) &a, &l)) { close(ls); return; }
    int port = ntohs(a.sin_port);
    struct Ex { Str req, wire, body; bool ok, closes; int kind; };
    std::vector<Ex> ex; int n = 1 + (int) r.below(4);
    struct Call { bool post; Str path, body, fmt; std::map<Str, Str> params; bool useMap; }; std::vector<Call> calls;
    for (int k = 0; k < n; ++k) {
        Call c; c.post = r.chance(60); c.path = "/" + randUrlPart(r, "abc/?=&", 20); c.useMap = r.chance(40);
        if (c.post) { if (c.useMap) { for (size_t j = r.below(4); j > 0; --j) c.params[r.chance(10) ? Str("") : randUrlPart(r, "abcdef", 8)] = randUrlPart(r, "abcdef%20+", 300); } else c.body = bytes(r, bodySize(r), r.chance(50)); }
        else if (r.chance(40)) c.fmt = "text/html";
        Ex e; Str hp = "Host: 127.0.0.1:" + std::to_string(port);
        if (c.post) {
            Str b = c.body; if (c.useMap) { b = ""; bool f = true; for (auto &p : c.params) { if (!f) b += "&"; f = false; b += p.first == "" ? p.second : p.first + "=" + p.second; } }
            e.req = "POST " + c.path + " HTTP/1.1\r\n" + hp + "\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b;
        } else e.req = "GET " + c.path + " HTTP/1.1\r\n" + hp + (c.fmt == "" ? Str("") : "\r\nAccept: " + c.fmt) + "\r\n\r\n";
        e.kind = (int) r.below(10); e.body = bytes(r, bodySize(r), r.chance(50)); e.ok = true; e.closes = false;
        Str hd = "HTTP/1.1 200 OK\r\n"; for (size_t j = r.below(4); j > 0; --j) hd += "X-A" + std::to_string(j) + ": " + Str(r.below(r.chance(10) ? 3000 : 50), 'v') + "\r\n";
        if (e.kind < 4) { static const char *nm[] = { "Content-Length: ", "content-length:", "CONTENT-LENGTH:  " }; hd += nm[r.below(3)] + std::to_string(e.body.size()) + "\r\n"; if (r.chance(30)) hd += "Server: x\r\n"; e.wire = hd + "\r\n" + e.body; }
        else if (e.kind < 7) {
            hd += r.chance(70) ? "Transfer-Encoding: chunked\r\n" : "transfer-encoding:chunked\r\n"; e.wire = hd + "\r\n";
            for (size_t i = 0; i < e.body.size();) { size_t m = std::min<size_t>(e.body.size() - i, 1 + r.below(r.chance(50) ? 30 : 3000)); if (e.body.size() > 20000) m = std::min<size_t>(e.body.size() - i, 5000 + r.below(5000)); char b[32]; snprintf(b, 32, r.chance(50) ? "%zx\r\n" : "%zX\r\n", m); e.wire += Str(b) + e.body.substr(i, m) + "\r\n"; i += m; }
            e.wire += "0\r\n\r\n";
        } else if (e.kind == 7) { e.wire = hd + "\r\n" + e.body; e.closes = true; }
        else if (e.kind == 8) { e.wire = "HTTP/1.1 " + Str(r.chance(50) ? "404 Not Found" : "500 Error") + "\r\nContent-Length: 0\r\n\r\n"; e.ok = false; e.closes = true; }
        else { e.wire = hd + "Content-Length: " + std::to_string(e.body.size() + 10) + "\r\n\r\n" + e.body; e.ok = false; e.closes = true; }
        ex.push_back(e); calls.push_back(c);
        if (e.closes) break;
    }
    uint64_t seed = r.next();
    std::thread srv([&] {
        Rng c(seed); int fd = accept(ls, 0, 0); if (fd < 0) return;
        int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        timeval tv; tv.tv_sec = 30; tv.tv_usec = 0; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
        for (auto &e : ex) {
            Str got; if (!recvN(fd, e.req.size(), got) || got != e.req) { vf::violation("client-request", "the client sent [" + got.substr(0, 300) + "] for [" + e.req.substr(0, 300) + "]"); break; }
            sendPieces(fd, e.wire, c, (int) c.below(4));
            if (e.closes) break;
        }
        close(fd);
    });
    {
        HttpClient cl("127.0.0.1", (uint32_t) port);
        if (!cl.connect()) vf::violation("client-connect", "connect() fails");
        else for (size_t k = 0; k < ex.size(); ++k) {
            Str h, b; bool ok; auto &c = calls[k];
            if (c.post) ok = c.useMap ? cl.post(c.path, c.params, h, b) : cl.post(c.path, c.body, h, b);
            else ok = cl.get(c.path, h, b, c.fmt);
            VF_CHECK(ok == ex[k].ok, "client-ok", "response kind %d: returned %d", ex[k].kind, (int) ok);
            if (ok && ex[k].ok) { VF_CHECK(b == ex[k].body, "client-body", "response kind %d: %d of %d bytes", ex[k].kind, (int) b.size(), (int) ex[k].body.size());
                VF_CHECK(h == ex[k].wire.substr(0, ex[k].wire.find("\r\n\r\n")), "client-headers", "response kind %d: headers of %d bytes", ex[k].kind, (int) h.size()); }
            vf::add("client exchanges"); vf::distinct(vf::mix(ex[k].kind * 8 + c.post * 2 + c.useMap, ex[k].body.size()));
            if (ok != ex[k].ok) break;
        }
    }
    srv.join(); close(ls);
}
int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_DFL);
    return vf::run(argc, argv, [](Rng &r, uint64_t) {
        if (vf::st().mode == "client") clientCase(r);
        else serverCase(r);
    });
}
