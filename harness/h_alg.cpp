// C21 (mode ""): structural algorithms of SNAP; C31 (mode "metric"): triads, centralities and flows; against direct computations.
#include "Snap.h"
#undef min
#undef max
#include "common.h"
#include <cmath>
#include <tuple>
#include <fcntl.h>
#include <unistd.h>
#include <functional>
#include <queue>
using namespace vf;
using std::string; using std::vector; using std::map; using std::set; using std::pair; using std::multiset;
typedef pair<int, int> II;
static string gtag;
#define CK(cond, key, ...) VF_CHECK(cond, gtag + ":" + key, __VA_ARGS__)
struct StopEx { string what; StopEx(const string &w) : what(w) {} }; // thrown instead of exiting when an assertion of SNAP fails
static bool stopF(char *msg) { throw StopEx(msg ? msg : ""); }

struct M { // reference graph
    int kind = 0; // 0 undirected, 1 directed, 2 directed multigraph
    vector<int> ids; vector<II> e; vector<int> eid;
    map<int, vector<int>> out, in; // unsorted, with repetitions
    bool dir() const { return kind > 0; }
    void build() {
        out.clear(); in.clear();
        for (int i : ids) { out[i]; in[i]; }
        for (auto &x : e) {
            out[x.first].push_back(x.second); in[x.second].push_back(x.first);
            if (!dir() && x.first != x.second) { out[x.second].push_back(x.first); in[x.first].push_back(x.second); }
        }
    }
    int od(int u) const { return out.at(u).size(); }
    int id(int u) const { return in.at(u).size(); }
    int deg(int u) const { return dir() ? od(u) + id(u) : od(u); }
    bool has(int u, int v) const { auto &o = out.at(u); return std::find(o.begin(), o.end(), v) != o.end(); }
    bool adj(int u, int v) const { return has(u, v) || has(v, u); }
    set<int> nbr(int u) const { set<int> s(out.at(u).begin(), out.at(u).end()); s.insert(in.at(u).begin(), in.at(u).end()); s.erase(u); return s; }
    map<int, int> bfs(int s, bool fo, bool fi, int mx = 1 << 30) const {
        map<int, int> d; d[s] = 0; std::queue<int> q; q.push(s);
        while (!q.empty()) {
            int u = q.front(); q.pop(); if (d[u] == mx) continue;
            if (fo) for (int v : out.at(u)) if (!d.count(v)) { d[v] = d[u] + 1; q.push(v); }
            if (fi) for (int v : in.at(u)) if (!d.count(v)) { d[v] = d[u] + 1; q.push(v); }
        }
        return d;
    }
    string str() const { string s = fmt("kind %d nodes", kind); for (int i : ids) s += fmt(" %d", i); s += " edges"; for (auto &x : e) s += fmt(" %d-%d", x.first, x.second); return s.substr(0, 400); }
};
static M genM(Rng &r, int kind, bool self, bool dense, int maxn = 12) {
    M m; m.kind = kind; int n = 1 + r.below(maxn);
    set<int> ids; if (dense) for (int i = 0; i < n; ++i) ids.insert(i); else while ((int)ids.size() < n) ids.insert(r.below(3 * n + 2));
    m.ids.assign(ids.begin(), ids.end());
    int ne = r.chance(0.1) ? 0 : r.below(r.chance(0.5) ? n + 2 : n > 20 ? 3 * n : n * (n + 1) / 2 + 2);
    int shape = r.below(6);
    set<II> seen;
    auto add = [&](int a, int b) {
        if (a == b && !self) return;
        II k = kind == 0 ? II(std::min(a, b), std::max(a, b)) : II(a, b);
        if (kind < 2 && !seen.insert(k).second) return;
        m.e.push_back(kind == 0 && r.chance(0.5) ? II(b, a) : II(a, b)); m.eid.push_back((int)m.eid.size());
    };
    if (shape == 0) for (int i = 1; i < n; ++i) { if (r.chance(0.95)) { int p = r.chance(0.5) ? i - 1 : (int)r.below(i); r.chance(kind ? 0.85 : 0.5) ? add(m.ids[i], m.ids[p]) : add(m.ids[p], m.ids[i]); } }
    else if (shape == 1) { for (int i = 1; i < n; ++i) add(m.ids[i], m.ids[i - 1]); for (int i = 0; i < (int)r.below(3); ++i) add(r.pick(m.ids), r.pick(m.ids)); }
    else for (int i = 0; i < ne; ++i) add(r.pick(m.ids), r.pick(m.ids));
    m.build(); return m;
}
static bool inOrder = false; // add nodes in the order of their ids
template<class P> struct Mk;
template<class P> static P mkS(const M &m, Rng &r) {
    P g = P::TObj::New(); vector<int> v = m.ids; if (!inOrder) r.shuffle(v); for (int i : v) g->AddNode(i);
    for (auto &x : m.e) g->AddEdge(x.first, x.second);
    return g;
}
template<> struct Mk<PUNGraph> { static PUNGraph mk(const M &m, Rng &r) { return mkS<PUNGraph>(m, r); } };
template<> struct Mk<PNGraph> { static PNGraph mk(const M &m, Rng &r) { return mkS<PNGraph>(m, r); } };
template<> struct Mk<PNEGraph> { static PNEGraph mk(const M &m, Rng &r) {
    PNEGraph g = TNEGraph::New(); vector<int> v = m.ids; if (!inOrder) r.shuffle(v); for (int i : v) g->AddNode(i);
    for (size_t i = 0; i < m.e.size(); ++i) g->AddEdge(m.e[i].first, m.e[i].second, m.eid[i]);
    return g; } };
typedef multiset<II> EB;
static II norm(int kind, II x) { return kind == 0 && x.first > x.second ? II(x.second, x.first) : x; }
static EB bag(const M &m) { EB b; for (auto &x : m.e) b.insert(norm(m.kind, x)); return b; }
template<class P> static EB gbag(const P &g, int kind) { EB b; for (typename P::TObj::TEdgeI i = g->BegEI(); i < g->EndEI(); i++) b.insert(norm(kind, II(i.GetSrcNId(), i.GetDstNId()))); return b; }
template<class P> static set<int> gids(const P &g) { TIntV v; g->GetNIdV(v); set<int> s; for (int i = 0; i < v.Len(); ++i) s.insert(v[i]); return s; }
static string pb(const EB &b) { string s; for (auto &x : b) s += fmt(" %d-%d", x.first, x.second); return s; }
template<class P> static void same(const P &g, const set<int> &ids, const EB &e, int kind, const char *what, const M &m) {
    set<int> gi = gids(g); EB ge = gbag(g, kind);
    CK(gi == ids && (int)ids.size() == g->GetNodes(), string(what) + "-nodes", "%s has %d nodes, expected %zu; %s", what, (int)gi.size(), ids.size(), m.str().c_str());
    CK(ge == e, string(what) + "-edges", "%s has edges%s, expected%s; %s", what, pb(ge).c_str(), pb(e).c_str(), m.str().c_str());
    CK(g->IsOk(), string(what) + "-ok", "%s is not well-formed; %s", what, m.str().c_str());
}
static set<int> S(const vector<int> &v) { return set<int>(v.begin(), v.end()); }
static vector<II> prv(const TIntPrV &v) { vector<II> o; for (int i = 0; i < v.Len(); ++i) o.push_back(II(v[i].Val1, v[i].Val2)); return o; }
static vector<II> hist(const map<int, int> &h) { return vector<II>(h.begin(), h.end()); }
static string pv(const vector<II> &b) { string s; for (auto &x : b) s += fmt(" %d:%d", x.first, x.second); return s; }
#define CKH(got, exp, key) do { vector<II> g_ = prv(got), e_ = hist(exp); CK(g_ == e_, key, key ": got%s, expected%s; %s", pv(g_).c_str(), pv(e_).c_str(), m.str().c_str()); } while (0)
#define CKE(got, exp, key) do { long g_ = (got), e_ = (exp); CK(g_ == e_, key, key ": got %ld, expected %ld; %s", g_, e_, m.str().c_str()); add(key); } while (0)
static bool near(double a, double b, double tol = 1e-9) { return fabs(a - b) <= tol * (1 + fabs(a) + fabs(b)); }
#define CKN(got, exp, tol, key) do { double g_ = (got); double e_ = (exp); CK(near(g_, e_, tol), key, key ": got %.12g, expected %.12g; %s", g_, e_, m.str().c_str()); add(key); } while (0)

// ---------------------------------------------------------------- degrees and manipulation
template<class P> static void degrees(Rng &r, const M &m, const P &g) {
    map<int, int> ho, hi, hd; int mo = -1, mi = -1, md = -1; long nz = 0, self = 0;
    for (int u : m.ids) { ho[m.od(u)]++; hi[m.id(u)]++; hd[m.deg(u)]++; mo = std::max(mo, m.od(u)); mi = std::max(mi, m.id(u)); md = std::max(md, m.deg(u)); nz += m.deg(u) > 0; }
    for (auto &x : m.e) self += x.first == x.second;
    for (int d = 0; d <= md + 1; ++d) { CKE(TSnap::CntInDegNodes(g, d), hi.count(d) ? hi[d] : 0, "CntInDegNodes"); CKE(TSnap::CntOutDegNodes(g, d), ho.count(d) ? ho[d] : 0, "CntOutDegNodes"); CKE(TSnap::CntDegNodes(g, d), hd.count(d) ? hd[d] : 0, "CntDegNodes"); }
    CKE(TSnap::CntNonZNodes(g), nz, "CntNonZNodes");
    TIntPrV v; TFltPrV f;
    TSnap::GetInDegCnt(g, v); CKH(v, hi, "GetInDegCnt"); TSnap::GetOutDegCnt(g, v); CKH(v, ho, "GetOutDegCnt"); TSnap::GetDegCnt(g, v); CKH(v, hd, "GetDegCnt");
    auto fl = [&](const TFltPrV &x) { vector<II> o; for (int i = 0; i < x.Len(); ++i) o.push_back(II((int)x[i].Val1, (int)x[i].Val2)); return o; };
    TSnap::GetInDegCnt(g, f); CK(fl(f) == hist(hi), "GetInDegCntF", "%s", m.str().c_str()); TSnap::GetOutDegCnt(g, f); CK(fl(f) == hist(ho), "GetOutDegCntF", "%s", m.str().c_str()); TSnap::GetDegCnt(g, f); CK(fl(f) == hist(hd), "GetDegCntF", "%s", m.str().c_str());
    TIntV a, b, c; a.Add(7); TSnap::GetDegSeqV(g, a); b.Add(3); TSnap::GetDegSeqV(g, b, c); int i = 0;
    CK(a.Len() == (int)m.ids.size() && b.Len() == a.Len() && c.Len() == a.Len(), "GetDegSeqV-len", "%d %d %d", a.Len(), b.Len(), c.Len());
    for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++, i++) CK(a[i] == m.deg(n.GetId()) && b[i] == m.id(n.GetId()) && c[i] == m.od(n.GetId()), "GetDegSeqV", "node %d; %s", n.GetId(), m.str().c_str());
    TIntPrV p, q; TSnap::GetNodeInDegV(g, p); TSnap::GetNodeOutDegV(g, q); map<int, int> x, y;
    for (int k = 0; k < p.Len(); ++k) x[p[k].Val1] = p[k].Val2;
    for (int k = 0; k < q.Len(); ++k) y[q[k].Val1] = q[k].Val2;
    CK(p.Len() == (int)m.ids.size() && q.Len() == p.Len() && x.size() == m.ids.size() && y.size() == x.size(), "GetNodeDegV-len", "%d %d; %s", p.Len(), q.Len(), m.str().c_str());
    for (int u : m.ids) CK(x[u] == m.id(u) && y[u] == m.od(u), "GetNodeDegV", "node %d; %s", u, m.str().c_str());
    int k = TSnap::GetMxDegNId(g); CK(m.out.count(k) && m.deg(k) == md, "GetMxDegNId", "node %d; %s", k, m.str().c_str());
    k = TSnap::GetMxInDegNId(g); CK(m.out.count(k) && m.id(k) == mi, "GetMxInDegNId", "node %d; %s", k, m.str().c_str());
    k = TSnap::GetMxOutDegNId(g); CK(m.out.count(k) && m.od(k) == mo, "GetMxOutDegNId", "node %d; %s", k, m.str().c_str());
    set<II> ud, dd; for (auto &e : m.e) if (e.first != e.second) { ud.insert(II(std::min(e.first, e.second), std::max(e.first, e.second))); dd.insert(e); if (!m.dir()) dd.insert(II(e.second, e.first)); }
    long bi = 0; for (auto &e : ud) bi += dd.count(e) && dd.count(II(e.second, e.first));
    CKE(TSnap::CntUniqUndirEdges(g), ud.size(), "CntUniqUndirEdges"); CKE(TSnap::CntUniqDirEdges(g), dd.size(), "CntUniqDirEdges"); CKE(TSnap::CntUniqBiDirEdges(g), bi, "CntUniqBiDirEdges"); CKE(TSnap::CntSelfEdges(g), self, "CntSelfEdges");
    TIntSet set1; set<int> st; for (int u : m.ids) if (r.chance(0.5)) { set1.AddKey(u); st.insert(u); }
    int u = r.pick(m.ids); set<int> to; for (int w : m.out.at(u)) if (st.count(w)) to.insert(w); for (int w : m.in.at(u)) if (st.count(w)) to.insert(w);
    CKE(TSnap::CntEdgesToSet(g, u, set1), to.size(), "CntEdgesToSet");
    CKE(TSnap::CntEdgesToSet(g, 100000, set1), 0, "CntEdgesToSet");
}
static set<int> sub(const M &m, Rng &r, TIntV &v, bool extra) { set<int> s; vector<int> o = m.ids; r.shuffle(o); for (int u : o) if (r.chance(0.6)) { s.insert(u); v.Add(u); } if (extra && r.chance(0.2)) v.Add(99999); return s; }
static EB induced(const M &m, const set<int> &s) { EB b; for (auto &e : m.e) if (s.count(e.first) && s.count(e.second)) b.insert(norm(m.kind, e)); return b; }
template<class P> static P copyOf(const P &g) { P c = P::TObj::New(); *c = *g; return c; }
template<class P> static void manip(Rng &r, const M &m, const P &g) {
    { P c = copyOf(g); TSnap::DelSelfEdges(c); EB b; for (auto &e : m.e) if (e.first != e.second) b.insert(norm(m.kind, e)); same(c, S(m.ids), b, m.kind, "DelSelfEdges", m); }
    { P c = copyOf(g); TSnap::AddSelfEdges(c); EB b = bag(m); for (int u : m.ids) if (!m.has(u, u)) b.insert(II(u, u)); same(c, S(m.ids), b, m.kind, "AddSelfEdges", m); }
    { P c = copyOf(g); TSnap::DelZeroDegNodes(c); set<int> s; for (int u : m.ids) if (m.deg(u)) s.insert(u); same(c, s, bag(m), m.kind, "DelZeroDegNodes", m); }
    { P c = copyOf(g); TIntV v; set<int> s = sub(m, r, v, false), left; for (int u : m.ids) if (!s.count(u)) left.insert(u); TSnap::DelNodes(c, v); same(c, left, induced(m, left), m.kind, "DelNodes", m); }
    { P c = copyOf(g); int ko = r.below(4), ki = r.below(4); TSnap::DelDegKNodes(c, ko, ki); set<int> s; for (int u : m.ids) if (m.od(u) != ko && m.id(u) != ki) s.insert(u); same(c, s, induced(m, s), m.kind, "DelDegKNodes", m); }
    same(g, S(m.ids), bag(m), m.kind, "source", m);
}
template<class P> static void undir(const M &m, const P &g) { // directed kinds
    P c = TSnap::GetUnDir(g), d = copyOf(g); TSnap::MakeUnDir(d); same(g, S(m.ids), bag(m), m.kind, "GetUnDir-source", m);
    EB b = bag(m); if (m.kind == 1) { for (auto &e : m.e) if (!m.has(e.second, e.first)) b.insert(II(e.second, e.first)); same(c, S(m.ids), b, 1, "GetUnDir", m); same(d, S(m.ids), b, 1, "MakeUnDir", m); }
    else for (int u : m.ids) for (int v : m.ids) CK(c->IsEdge(u, v) == m.adj(u, v) && d->IsEdge(u, v) == m.adj(u, v), "GetUnDir-multi", "%d-%d; %s", u, v, m.str().c_str());
    int root = -7; bool t = TSnap::IsTree(g, root), e = false; int want = -1; // every node but one has one parent, all reach the root
    for (int u : m.ids) if (m.od(u) == 0) want = u;
    if (m.e.size() + 1 == m.ids.size() && want >= 0) e = m.bfs(want, false, true).size() == m.ids.size();
    for (int u : m.ids) if (u != want && m.od(u) != 1) e = false;
    CK(t == e && (!e || root == want), "IsTree", "IsTree is %d with root %d, expected %d with root %d; %s", t, root, e, want, m.str().c_str()); if (e) add("trees");
}
// ---------------------------------------------------------------- subgraphs and conversions
template<class P> static void subgraphs(Rng &r, const M &m, const P &g) {
    TIntV v; set<int> s = sub(m, r, v, true);
    same(TSnap::GetSubGraph<P>(g, v), s, induced(m, s), m.kind, "GetSubGraph", m);
    int k = r.below(m.ids.size() + 1); P x = TSnap::GetRndSubGraph(g, k); set<int> xs = gids(x); CKE(xs.size(), k, "GetRndSubGraph");
    for (int u : xs) CK(m.out.count(u), "GetRndSubGraph-node", "%d; %s", u, m.str().c_str());
    same(x, xs, induced(m, xs), m.kind, "GetRndSubGraph", m);
}
template<class P> static void subgraphsOverload(Rng &r, const M &m, const P &g) { // UN and N: renumbering
    TIntV v; sub(m, r, v, true); bool ren = r.chance(0.5); P x = TSnap::GetSubGraph(g, v, ren);
    map<int, int> to; int k = 0; for (int i = 0; i < v.Len(); ++i) if (m.out.count(v[i])) { to[v[i]] = ren ? k : v[i].Val; k++; }
    set<int> s; for (auto &t : to) s.insert(t.second); EB b; for (auto &e : m.e) if (to.count(e.first) && to.count(e.second)) b.insert(norm(m.kind, II(to[e.first], to[e.second])));
    same(x, s, b, m.kind, "GetSubGraph-renumber", m);
    if (m.e.empty()) return;
    int ne = 1 + r.below(m.e.size()); P y = TSnap::GetRndESubGraph(g, ne); EB all = bag(m), yb = gbag(y, m.kind); CKE(yb.size(), ne, "GetRndESubGraph");
    set<int> ends; for (auto &e : yb) { CK(all.count(e), "GetRndESubGraph-edge", "%d-%d; %s", e.first, e.second, m.str().c_str()); ends.insert(e.first); ends.insert(e.second); }
    same(y, ends, yb, m.kind, "GetRndESubGraph", m);
    TIntPrV ev; EB eb; set<int> es; for (auto &e : m.e) if (r.chance(0.5)) { ev.Add(TIntPr(e.first, e.second)); eb.insert(norm(m.kind, e)); es.insert(e.first); es.insert(e.second); }
    same(TSnap::GetESubGraph<P>(g, ev), es, eb, m.kind, "GetESubGraph", m);
}
template<class O, class P> static void convert(Rng &r, const M &m, const P &g, int okind) {
    bool selfLoops = false; for (auto &e : m.e) selfLoops |= e.first == e.second; if (okind == 2 && m.kind == 0 && selfLoops) return;
    auto edges = [&](const map<int, int> &to) { EB b; for (auto &e : m.e) if (to.count(e.first) && to.count(e.second)) { II x(to.at(e.first), to.at(e.second)); b.insert(norm(okind, x)); if (m.kind == 0 && okind > 0) b.insert(II(x.second, x.first)); }
        if (okind == 2) return b; set<II> u(b.begin(), b.end()); return EB(u.begin(), u.end()); };
    auto nodes = [](const map<int, int> &to) { set<int> s; for (auto &t : to) s.insert(t.second); return s; };
    for (int ren = 0; ren < 2; ++ren) {
        O o = TSnap::ConvertGraph<O>(g, ren); map<int, int> to; int k = 0;
        for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++) { to[n.GetId()] = ren ? k : n.GetId(); k++; }
        same(o, nodes(to), edges(to), okind, "ConvertGraph", m);
        TIntV v; sub(m, r, v, false); O q = TSnap::ConvertSubGraph<O>(g, v, ren); to.clear(); k = 0; for (int i = 0; i < v.Len(); ++i) { to[v[i]] = ren ? k : v[i].Val; k++; }
        same(q, nodes(to), edges(to), okind, "ConvertSubGraph", m);
    }
}
static void egonet(Rng &r, const M &m, const PUNGraph &g) {
    int u = r.pick(m.ids), a = -1; PUNGraph x = TSnap::GetEgonet(g, u, a); set<int> s = m.nbr(u); s.insert(u); long ar = 0;
    for (auto &e : m.e) ar += s.count(e.first) != s.count(e.second);
    same(x, s, induced(m, s), 0, "GetEgonet", m); CKE(a, ar, "GetEgonet-around");
}
static void egonet(Rng &r, const M &m, const PNGraph &g) {
    int u = r.pick(m.ids), a = -1, b = -1; PNGraph x = TSnap::GetEgonet(g, u, a, b); set<int> s = m.nbr(u); s.insert(u); long ai = 0, ao = 0;
    for (auto &e : m.e) { ao += s.count(e.first) && !s.count(e.second); ai += !s.count(e.first) && s.count(e.second); }
    same(x, s, induced(m, s), 1, "GetEgonet", m); CKE(a, ai, "GetEgonet-in"); CKE(b, ao, "GetEgonet-out");
}
// ---------------------------------------------------------------- distances
template<class P> static void distances(Rng &r, const M &m, const P &g) {
    TBreathFS<P> bfs(g, r.chance(0.5)), hyb(g, r.chance(0.5));
    for (int rep = 0; rep < 3; ++rep) {
        int s = r.pick(m.ids); bool fo = r.chance(0.8), fi = r.chance(0.5); if (!fo && !fi) fo = true;
        int mx = r.chance(0.3) ? (int)r.below(5) : TInt::Mx; int t = r.chance(0.3) ? r.pick(m.ids) : -1;
        map<int, int> d = m.bfs(s, fo, fi, mx); int far = 0; for (auto &x : d) far = std::max(far, x.second);
        for (int h = 0; h < 2; ++h) {
            TBreathFS<P> &b = h ? hyb : bfs; const char *nm = h ? "DoBfsHybrid" : "DoBfs";
            if (r.chance(0.1)) b.SetGraph(g);
            int ret = h ? b.DoBfsHybrid(s, fo, fi, t, mx) : b.DoBfs(s, fo, fi, t, mx); add("bfs");
            if (t == -1) {
                CK(ret == far && b.GetNVisited() == (int)d.size(), nm, "%s from %d (out %d in %d max %d) returns %d and visits %d, expected %d and %zu; %s", nm, s, fo, fi, mx, ret, b.GetNVisited(), far, d.size(), m.str().c_str());
                TIntV vis; b.GetVisitedNIdV(vis); CKE(vis.Len(), d.size(), "GetVisitedNIdV");
                for (int u : m.ids) CK(b.GetHops(s, u) == (d.count(u) ? d[u] : -1), "GetHops", "%s from %d (out %d in %d max %d): %d to %d, expected %d; %s", nm, s, fo, fi, mx, b.GetHops(s, u), u, d.count(u) ? d[u] : -1, m.str().c_str());
                int u = r.pick(m.ids); if (u != s) CK(b.GetHops(u, s) == -1, "GetHops-start", "%d", b.GetHops(u, s));
                TIntV p; int len = b.GetRndPath(s, u, p); CK(len == (d.count(u) ? d[u] : -1), "GetRndPath-len", "%s from %d to %d: path of length %d; %s", nm, s, u, len, m.str().c_str());
                if (len >= 0) { bool ok = p.Len() == len + 1 && p[0] == s && p.Last() == u; for (int i = 0; ok && i + 1 < p.Len(); ++i) ok = (fo && m.has(p[i], p[i + 1])) || (fi && m.has(p[i + 1], p[i])); add("paths");
                    string ps; for (int i = 0; i < p.Len(); ++i) ps += fmt(" %d", p[i].Val);
                    CK(ok, "GetRndPath", "%s from %d to %d (out %d in %d): not a path:%s; %s", nm, s, u, fo, fi, ps.c_str(), m.str().c_str()); }
            } else {
                int hd = b.GetHops(s, t); CK(hd == (d.count(t) ? d[t] : -1), "GetHops-target", "%s from %d to target %d: %d, expected %d; %s", nm, s, t, hd, d.count(t) ? d[t] : -1, m.str().c_str());
                if (d.count(t) && t != s) CK(ret == d[t], "target-dist", "%s returns %d, expected %d; %s", nm, ret, d[t], m.str().c_str());
            }
        }
        bool dir = r.chance(0.5); map<int, int> f = m.bfs(s, true, !dir); int fr = 0; for (auto &x : f) fr = std::max(fr, x.second);
        for (int u : m.ids) CKE(TSnap::GetShortPath(g, s, u, dir), f.count(u) ? f[u] : -1, "GetShortPath");
        TIntH H; int md = r.chance(0.5) ? (int)r.below(4) : TInt::Mx; map<int, int> fm = m.bfs(s, true, !dir, md); int mr = 0; for (auto &x : fm) mr = std::max(mr, x.second);
        CKE(TSnap::GetShortPath(g, s, H, dir, md), mr, "GetShortPath-all"); CKE(H.Len(), fm.size(), "GetShortPath-all-len");
        for (auto &x : fm) CK(H.IsKey(x.first) && H.GetDat(x.first) == x.second, "GetShortPath-all-dist", "node %d; %s", x.first, m.str().c_str());
        int hop = r.below(4); TIntV hv; set<int> hs; int cnt = TSnap::GetNodesAtHop(g, s, hop, hv, dir); set<int> eh; for (auto &x : f) if (x.second == hop) eh.insert(x.first);
        for (int i = 0; i < hv.Len(); ++i) hs.insert(hv[i]); CK(hs == eh && cnt == (int)eh.size() && hv.Len() == cnt, "GetNodesAtHop", "hop %d from %d dir %d: %d nodes, expected %zu; %s", hop, s, dir, cnt, eh.size(), m.str().c_str());
        TIntPrV hc; map<int, int> hh; for (auto &x : f) hh[x.second]++; CKE(TSnap::GetNodesAtHops(g, s, hc, dir), hh.size(), "GetNodesAtHops-len"); CKH(hc, hh, "GetNodesAtHops");
        map<int, int> tr = m.bfs(s, fo, fi); int sz = -1, dep = -1, td = 0; for (auto &x : tr) td = std::max(td, x.second);
        CKE(TSnap::GetSubTreeSz(g, s, fo, fi, sz, dep), tr.size(), "GetSubTreeSz"); CKE(sz, tr.size(), "GetSubTreeSz-size"); CKE(dep, td, "GetSubTreeSz-depth");
        PNGraph T = TSnap::GetBfsTree(g, s, fo, fi); set<int> tn; for (auto &x : tr) tn.insert(x.first); set<II> te;
        for (int u : tn) { if (fo) for (int w : m.out.at(u)) if (tr[w] == tr[u] + 1) te.insert(II(u, w)); if (fi) for (int w : m.in.at(u)) if (tr[w] == tr[u] + 1) te.insert(II(u, w)); }
        same(T, tn, EB(te.begin(), te.end()), 1, "GetBfsTree", m);
        TIntV sd; CKE(TSnap::GetShortestDistances(g, s, true, false, sd), [&]() { int k = 0; for (auto &x : m.bfs(s, true, false)) k = std::max(k, x.second); return k; }(), "GetShortestDistances");
        map<int, int> od = m.bfs(s, true, false); for (int u : m.ids) CK(sd[u] == (od.count(u) ? od[u] : 2147483646), "GetShortestDistances-dist", "node %d; %s", u, m.str().c_str());
        CKE(TSnap::GetNodeEcc(g, s, dir), fr, "GetNodeEcc");
    }
    bool dir = r.chance(0.5); map<int, long> cnt; double sum = 0, n = 0; int diam = 0;
    for (int s : m.ids) for (auto &x : m.bfs(s, true, !dir)) { cnt[x.second]++; sum += x.second; n++; diam = std::max(diam, x.second); }
    auto eff = [](const map<int, long> &c) { double tot = 0, cum = 0; for (auto &x : c) tot += x.second; double want = 0.9 * tot; int prev = 0; bool first = true;
        for (auto &x : c) { if (cum + x.second > want) return first ? 1.0 : prev + (want - cum) / x.second; cum += x.second; prev = x.first; first = false; } return (double)prev; };
    double ed, sp; int fd; CKN(TSnap::GetBfsEffDiam(g, 1000, dir, ed, fd, sp), eff(cnt), 1e-9, "GetBfsEffDiam"); CKN(ed, eff(cnt), 1e-9, "GetBfsEffDiam-out"); CKE(fd, diam, "GetBfsEffDiam-full"); CKN(sp, sum / n, 1e-9, "GetBfsEffDiam-avg");
    CKE(TSnap::GetBfsFullDiam(g, (int)m.ids.size(), dir), diam, "GetBfsFullDiam"); CKN(TSnap::GetBfsEffDiam(g, 1000, dir), eff(cnt), 1e-9, "GetBfsEffDiam-short");
    TIntV sv; set<int> ss = sub(m, r, sv, false); if (!ss.empty()) {
        map<int, long> sc; int sdm = 0; for (int s : ss) for (auto &x : m.bfs(s, true, !dir)) if (ss.count(x.first)) { sc[x.second]++; sdm = std::max(sdm, x.second); }
        CKN(TSnap::GetBfsEffDiam(g, 1000, sv, dir, ed, fd), eff(sc), 1e-9, "GetBfsEffDiam-subset"); CKE(fd, sdm, "GetBfsEffDiam-subset-full"); }
}
// ---------------------------------------------------------------- components
typedef set<set<int>> SS;
static SS comps(const TCnComV &v, bool &dup) { SS s; dup = false; for (int i = 0; i < v.Len(); ++i) { set<int> c; for (int j = 0; j < v[i].Len(); ++j) dup |= !c.insert(v[i][j]).second; dup |= !s.insert(c).second; } return s; }
static string pss(const SS &s) { string o; for (auto &c : s) { o += " {"; for (int u : c) o += fmt("%d ", u); o += "}"; } return o; }
static map<int, int> sizes(const SS &s) { map<int, int> h; for (auto &c : s) h[c.size()]++; return h; }
static SS partition(const vector<int> &ids, std::function<bool(int, int)> eq) { SS o; for (int u : ids) { set<int> c; for (int v : ids) if (u == v || eq(u, v)) c.insert(v); o.insert(c); } return o; }
#define CKC(got, exp, key) do { bool dup_; SS g_ = comps(got, dup_), e_ = (exp); CK(!dup_ && g_ == e_, key, key ": got%s, expected%s; %s", pss(g_).c_str(), pss(e_).c_str(), m.str().c_str()); add(key); } while (0)
template<class P> static void components(Rng &r, const M &m, const P &g) {
    map<int, map<int, int>> w, f; for (int u : m.ids) { w[u] = m.bfs(u, true, true); f[u] = m.bfs(u, true, false); }
    SS wc = partition(m.ids, [&](int a, int b) { return w[a].count(b) > 0; }), sc = partition(m.ids, [&](int a, int b) { return f[a].count(b) && f[b].count(a); });
    TCnComV v; TSnap::GetWccs(g, v); CKC(v, wc, "GetWccs"); for (int i = 1; i < v.Len(); ++i) CK(v[i - 1].Len() >= v[i].Len(), "GetWccs-order", "%s", m.str().c_str());
    TSnap::GetSccs(g, v); CKC(v, sc, "GetSccs"); for (int i = 1; i < v.Len(); ++i) CK(v[i - 1].Len() >= v[i].Len(), "GetSccs-order", "%s", m.str().c_str());
    TIntPrV h; TSnap::GetWccSzCnt(g, h); CKH(h, sizes(wc), "GetWccSzCnt"); TSnap::GetSccSzCnt(g, h); CKH(h, sizes(sc), "GetSccSzCnt");
    size_t mw = 0, ms = 0; for (auto &c : wc) mw = std::max(mw, c.size()); for (auto &c : sc) ms = std::max(ms, c.size());
    CKN(TSnap::GetMxWccSz(g), double(mw) / m.ids.size(), 1e-12, "GetMxWccSz"); CKN(TSnap::GetMxSccSz(g), double(ms) / m.ids.size(), 1e-12, "GetMxSccSz");
    CKE(TSnap::IsWeaklyConn(g), wc.size() == 1, "IsWeaklyConn"); CKE(TSnap::IsConnected(g), wc.size() == 1, "IsConnected");
    int u = r.pick(m.ids); TIntV nv; TSnap::GetNodeWcc(g, u, nv); set<int> ns; for (int i = 0; i < nv.Len(); ++i) ns.insert(nv[i]); CK((int)ns.size() == nv.Len() && wc.count(ns) && ns.count(u), "GetNodeWcc", "node %d: %d; %s", u, nv.Len(), m.str().c_str());
    P x = TSnap::GetMxWcc(g); set<int> xs = gids(x); CK(xs.size() == mw && wc.count(xs), "GetMxWcc-nodes", "%s", m.str().c_str()); same(x, xs, induced(m, xs), m.kind, "GetMxWcc", m);
    x = TSnap::GetMxScc(g); xs = gids(x); CK(xs.size() == ms && sc.count(xs), "GetMxScc-nodes", "%s", m.str().c_str()); same(x, xs, induced(m, xs), m.kind, "GetMxScc", m);
    // cores
    bool self = false; for (auto &e : m.e) self |= e.first == e.second;
    map<int, int> cn, ce; int top = 0; 
    for (int k = 1;; ++k) {
        set<int> s(m.ids.begin(), m.ids.end()); bool ch = true;
        while (ch) { ch = false; for (int u : vector<int>(s.begin(), s.end())) { int d = 0; for (int w : m.out.at(u)) d += s.count(w); if (m.dir()) for (int w : m.in.at(u)) d += s.count(w); if (d < k) { s.erase(u); ch = true; } } }
        P c = TSnap::GetKCore(g, k); same(c, s, induced(m, s), m.kind, "GetKCore", m); top = k;
        TKCore<P> kc(g); CKE(kc.GetCoreK(k), s.size(), "GetCoreK"); CKE(kc.GetCoreNodes(), s.size(), "GetCoreNodes"); CKE(kc.GetCurK(), k, "GetCurK"); if (!self) CKE(kc.GetCoreEdges(), induced(m, s).size(), "GetCoreEdges"); same(kc.GetCoreG(), s, induced(m, s), m.kind, "GetCoreG", m);
        if (s.empty()) break;
        cn[k] = s.size(); ce[k] = induced(m, s).size();
    }
    cn[0] = m.ids.size(); ce[0] = m.e.size(); TIntPrV kv; CKE(TSnap::GetKCoreNodes(g, kv), top, "GetKCoreNodes-k"); CKH(kv, cn, "GetKCoreNodes"); if (!self) { CKE(TSnap::GetKCoreEdges(g, kv), top, "GetKCoreEdges-k"); CKH(kv, ce, "GetKCoreEdges"); }
}
static void biconnected(const M &m, const PUNGraph &g) {
    // two edges are in one biconnected component if they lie on a simple cycle: connected without passing any single node
    vector<II> es; for (auto &e : m.e) if (e.first != e.second) es.push_back(e);
    auto reach = [&](int s, int without, II bridge) { set<int> seen; seen.insert(s); vector<int> st(1, s); while (!st.empty()) { int u = st.back(); st.pop_back(); for (int v : m.out.at(u)) if (v != without && !(norm(0, II(u, v)) == bridge) && seen.insert(v).second) st.push_back(v); } return seen; };
    II none(-5, -5); set<int> art; set<II> br; map<int, set<int>> cc; for (int u : m.ids) cc[u] = reach(u, -5, none);
    for (int a : m.ids) { set<int> nb = m.nbr(a); if (nb.empty()) continue; set<int> c = reach(*nb.begin(), a, none); for (int v : nb) if (!c.count(v)) art.insert(a); }
    for (auto &e : es) if (!reach(e.first, -5, norm(0, e)).count(e.second)) br.insert(norm(0, e));
    vector<int> par(es.size()); for (size_t i = 0; i < es.size(); ++i) par[i] = i; // edges sharing a node stay together unless the node separates their other ends
    std::function<int(int)> fd = [&](int x) { return par[x] == x ? x : par[x] = fd(par[x]); };
    for (size_t i = 0; i < es.size(); ++i) for (size_t j = 0; j < i; ++j) { int c = -1, x, y; if (es[i].first == es[j].first || es[i].first == es[j].second) c = es[i].first; if (es[i].second == es[j].first || es[i].second == es[j].second) c = es[i].second; if (c < 0) continue;
        x = es[i].first == c ? es[i].second : es[i].first; y = es[j].first == c ? es[j].second : es[j].first; if (reach(x, c, none).count(y)) par[fd(i)] = fd(j); }
    map<int, set<int>> grp; for (size_t i = 0; i < es.size(); ++i) { grp[fd(i)].insert(es[i].first); grp[fd(i)].insert(es[i].second); }
    SS bc; for (auto &x : grp) bc.insert(x.second);
    TCnComV v; TSnap::GetBiCon(g, v); CKC(v, bc, "GetBiCon"); TIntPrV h; TSnap::GetBiConSzCnt(g, h); CKH(h, sizes(bc), "GetBiConSzCnt");
    TIntV av; TSnap::GetArtPoints(g, av); set<int> as; for (int i = 0; i < av.Len(); ++i) as.insert(av[i]);
    CK(as == art && av.Len() == (int)art.size(), "GetArtPoints", "%d points, expected %zu; %s", av.Len(), art.size(), m.str().c_str()); add("articulation", art.size());
    TIntPrV ev; TSnap::GetEdgeBridges(g, ev); set<II> eb; for (int i = 0; i < ev.Len(); ++i) eb.insert(II(ev[i].Val1, ev[i].Val2)); CK(eb == br && ev.Len() == (int)br.size(), "GetEdgeBridges", "%d bridges, expected %zu; %s", ev.Len(), br.size(), m.str().c_str()); add("bridges", br.size());
    size_t mb = 0; for (auto &c : bc) mb = std::max(mb, c.size()); PUNGraph x = TSnap::GetMxBiCon(g, false); if (!bc.empty()) { set<int> xs = gids(x); CK(xs.size() == mb && bc.count(xs), "GetMxBiCon-nodes", "%s", m.str().c_str()); same(x, xs, induced(m, xs), 0, "GetMxBiCon", m); }
    bool conn = cc[m.ids[0]].size() == m.ids.size(); TIntPrV sz; TSnap::Get1CnComSzCnt(g, sz); TSnap::Get1CnCom(g, v); bool dup; SS one = comps(v, dup);
    if (conn && br.empty()) CK(v.Len() == 0 && sz.Len() == 0, "Get1CnCom-none", "%s", m.str().c_str());
    if (conn && !br.empty()) { // the rest is the largest part of the graph without bridges
        CKH(sz, sizes(one), "Get1CnComSzCnt"); set<int> rest = S(m.ids); for (auto &c : one) for (int u : c) CK(rest.erase(u), "Get1CnCom-overlap", "node %d; %s", u, m.str().c_str());
        auto part = [&](const set<int> &dropTouching) { SS o; for (int s : m.ids) { set<int> seen; seen.insert(s); vector<int> st(1, s); while (!st.empty()) { int u = st.back(); st.pop_back(); for (int w : m.out.at(u)) { bool b = br.count(norm(0, II(u, w))); if (b && (dropTouching.empty() || dropTouching.count(u) || dropTouching.count(w))) continue; if (seen.insert(w).second) st.push_back(w); } } o.insert(seen); } return o; };
        SS blocks = part(set<int>()); size_t big = 0; for (auto &c : blocks) big = std::max(big, c.size());
        CK(blocks.count(rest) && rest.size() == big, "Get1CnCom-rest", "%zu nodes are in no component, the largest block has %zu; %s", rest.size(), big, m.str().c_str());
        SS want = part(rest); want.erase(rest); CK(one == want && !dup, "Get1CnCom", "got%s, expected%s; %s", pss(one).c_str(), pss(want).c_str(), m.str().c_str()); add("1-components"); }
}
template<class P> static void structure(Rng &r, const M &m, const P &g) { degrees(r, m, g); manip(r, m, g); subgraphs(r, m, g); distances(r, m, g); components(r, m, g); }

#include "alg_metric.h"

static void one(Rng &r, uint64_t) {
    TOnExeStop::PutOnExeStopF(stopF);
    int kind = r.below(3); bool metric = st().mode == "metric";
    int mxn = r.chance(0.08) ? 150 : 12; if (metric) mxn = r.chance(0.04) ? 18 : 8;
    bool self = r.chance(0.3); M m = genM(r, kind, self, r.chance(0.5) || metric, mxn);
    if (metric && r.chance(0.5)) m = genM(r, kind, self, false, mxn);
    TInt::Rnd.PutSeed(r.below(1 << 30) + 1); gtag = kind == 0 ? "undirected" : kind == 1 ? "directed" : "multi";
    distinct(hashStr(m.str())); add("graphs"); sample(m.str());
    try {
    if (kind == 0) { PUNGraph g = Mk<PUNGraph>::mk(m, r); if (metric) metrics(r, m, g, self); else { structure(r, m, g); subgraphsOverload(r, m, g); convert<PUNGraph>(r, m, g, 0); convert<PNGraph>(r, m, g, 1); convert<PNEGraph>(r, m, g, 2); egonet(r, m, g); biconnected(m, g); } }
    else if (kind == 1) { PNGraph g = Mk<PNGraph>::mk(m, r); if (metric) metrics(r, m, g, self); else { structure(r, m, g); undir(m, g); subgraphsOverload(r, m, g); convert<PUNGraph>(r, m, g, 0); convert<PNGraph>(r, m, g, 1); convert<PNEGraph>(r, m, g, 2); egonet(r, m, g); } }
    else { PNEGraph g = Mk<PNEGraph>::mk(m, r); if (metric) metrics(r, m, g, self); else { structure(r, m, g); undir(m, g); convert<PUNGraph>(r, m, g, 0); convert<PNGraph>(r, m, g, 1); convert<PNEGraph>(r, m, g, 2); } }
    } catch (StopEx &e) { CK(false, "stop", "an assertion of SNAP failed: %s; %s", e.what.c_str(), m.str().c_str()); }
}
int main(int argc, char **argv) { return run(argc, argv, one); }
