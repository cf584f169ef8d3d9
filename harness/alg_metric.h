// Triads, centralities and flows of SNAP against direct computations (C31). Included by h_alg.cpp.
template<class P> struct IsMulti { enum { v = 0 }; };
template<> struct IsMulti<PNEGraph> { enum { v = 1 }; };
struct Quiet { // GetTriangleCnt prints its timings
    int fd; Quiet() { fflush(stdout); fd = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
    ~Quiet() { fflush(stdout); dup2(fd, 1); close(fd); }
};
struct Tri { map<int, II> co; long tri = 0, open = 0; map<int, double> cc; };
static Tri triRef(const M &m) {
    Tri t; for (int u : m.ids) { set<int> n = m.nbr(u); int c = 0, o = 0;
        for (int a : n) for (int b : n) if (a < b) (m.adj(a, b) ? c : o)++;
        t.co[u] = II(c, o); t.tri += c; t.open += o; t.cc[u] = c + o ? double(c) / (c + o) : 0; }
    t.tri /= 3; return t;
}
template<class P, int multi> struct Sorted { static void run(Rng &r, const M &m, const P &g, const Tri &t) {} };
template<class P> struct Sorted<P, 0> { static void run(Rng &r, const M &m, const P &g, const Tri &t) { // functions that need sorted neighbour lists
    TIntTrV v; TSnap::GetTriads(g, v); map<int, II> x; for (int i = 0; i < v.Len(); ++i) x[v[i].Val1] = II(v[i].Val2, v[i].Val3);
    CK(v.Len() == (int)m.ids.size() && x == t.co, "GetTriads", "%s", m.str().c_str()); add("GetTriads");
    int sn = 1 + r.below(m.ids.size()); TSnap::GetTriads(g, v, sn); set<int> seen; for (int i = 0; i < v.Len(); ++i) CK(t.co.count(v[i].Val1) && t.co.at(v[i].Val1) == II(v[i].Val2, v[i].Val3) && seen.insert(v[i].Val1).second, "GetTriads-sample", "node %d; %s", v[i].Val1.Val, m.str().c_str()); CKE(v.Len(), sn, "GetTriads-sample-len");
    CKE(TSnap::CountTriangles(g), t.tri, "CountTriangles"); { long k; { Quiet q; k = TSnap::GetTriangleCnt(g); } CKE(k, t.tri, "GetTriangleCnt"); }
    double avg = 0; for (auto &c : t.cc) avg += c.second; avg /= m.ids.size();
    map<int, pair<double, int> > byd; for (int u : m.ids) { byd[m.deg(u)].first += t.cc.at(u); byd[m.deg(u)].second++; }
    auto chk = [&](const TFltPrV &d, const char *nm) { bool ok = d.Len() == (int)byd.size(); int i = 0; for (auto &b : byd) { if (!ok) break; ok = d[i].Val1 == b.first && near(d[i].Val2, b.second.first / b.second.second, 1e-9); ++i; } CK(ok, nm, "%s by degree; %s", nm, m.str().c_str()); };
    TFltPrV d; int64 c, o; CKN(TSnap::GetClustCf(g, d), avg, 1e-9, "GetClustCf-deg"); chk(d, "GetClustCf-bydeg"); CKN(TSnap::GetClustCf(g, d, c, o), avg, 1e-9, "GetClustCf-full"); chk(d, "GetClustCf-bydeg2"); CKE(c, t.tri, "GetClustCf-closed"); CKE(o, t.open, "GetClustCf-open");
    TIntFltH h; TSnap::GetNodeClustCf(g, h); for (int u : m.ids) CK(h.IsKey(u) && near(h.GetDat(u), t.cc.at(u)), "GetNodeClustCfH", "node %d; %s", u, m.str().c_str()); CKE(h.Len(), m.ids.size(), "GetNodeClustCfH-len");
    if (m.ids.back() + 1 == (int)m.ids.size()) { // node ids 0..n-1
        add("dense"); CKN(TSnap::GetClustCf(g), avg, 1e-9, "GetClustCf"); CKE(TSnap::GetTriads(g), t.tri, "GetTriads-count"); CKE(TSnap::GetTriads(g, c, o, -1), t.tri, "GetTriads-count2"); CKE(c, t.tri, "GetTriads-closed"); CKE(o, t.open, "GetTriads-open");
        std::vector<float> f; TSnap::GetNodeClustCf(g, f); CKE(f.size(), m.ids.size(), "GetNodeClustCfV-len"); for (int u : m.ids) CK(near(f[u], t.cc.at(u), 1e-6), "GetNodeClustCfV", "node %d: %f, expected %f; %s", u, f[u], t.cc.at(u), m.str().c_str());
        int k = 1 + r.below(m.ids.size()); std::vector<TUInt64Tr> w; TSnap::GetTriads(g, w, k); set<int> sn2; CKE(w.size(), k, "GetTriadsV-sample-len"); for (auto &x : w) CK(t.co.count((int)x.Val1.Val) && t.co.at((int)x.Val1.Val) == II((int)x.Val2.Val, (int)x.Val3.Val) && sn2.insert((int)x.Val1.Val).second, "GetTriadsV-sample", "node %d; %s", (int)x.Val1.Val, m.str().c_str());
        std::vector<double> pr; std::vector<int64_t> all(m.ids.begin(), m.ids.end()); (void)pr;
        std::vector<float> bt; TIntPrFltH eb; TSnap::GetBetweennessCentr_stl(g, all, bt, m.dir(), true, eb, true); TIntFltH bh; TIntPrFltH eh; TSnap::GetBetweennessCentr(g, bh, eh, m.dir());
        CKE(bt.size(), m.ids.size(), "betweenness-stl-len"); for (int u : m.ids) CK(near(bt[u], bh.GetDat(u), 1e-4), "betweenness-stl", "node %d: %f and %f; %s", u, bt[u], bh.GetDat(u).Val, m.str().c_str());
        map<II, double> ex, ey; for (int i = eb.FFirstKeyId(); eb.FNextKeyId(i);) if (fabs(eb[i]) > 1e-12) ex[II(eb.GetKey(i).Val1, eb.GetKey(i).Val2)] = eb[i]; for (int i = eh.FFirstKeyId(); eh.FNextKeyId(i);) if (fabs(eh[i]) > 1e-12) ey[II(eh.GetKey(i).Val1, eh.GetKey(i).Val2)] = eh[i];
        CKE(ex.size(), ey.size(), "betweenness-stl-edges-len"); for (auto &x : ey) CK(ex.count(x.first) && near(ex[x.first], x.second, 1e-6), "betweenness-stl-edge", "edge %d-%d: %f and %f; %s", x.first.first, x.first.second, ex[x.first], x.second, m.str().c_str()); }
} };
template<class P> static void triads(Rng &r, const M &m, const P &g, bool self) {
    Tri t = triRef(m); add("triangles", t.tri);
    for (int u : m.ids) { int c, o; CKE(TSnap::GetNodeTriads(g, u), t.co[u].first, "GetNodeTriads"); TSnap::GetNodeTriads(g, u, c, o); CK(II(c, o) == t.co[u], "GetNodeTriads-both", "node %d: %d %d; %s", u, c, o, m.str().c_str()); CKN(TSnap::GetNodeClustCf(g, u), t.cc[u], 1e-9, "GetNodeClustCf"); }
    TIntTrV v; TSnap::GetTriads_v0(g, v); map<int, II> x; for (int i = 0; i < v.Len(); ++i) x[v[i].Val1] = II(v[i].Val2, v[i].Val3); CK(v.Len() == (int)m.ids.size() && x == t.co, "GetTriads_v0", "%s", m.str().c_str());
    TIntFltH h; TSnap::GetNodeClustCf_scala(g, h); for (int u : m.ids) CK(h.IsKey(u) && near(h.GetDat(u), t.cc[u]), "GetNodeClustCf_scala", "node %d; %s", u, m.str().c_str());
    map<int, int> part; for (auto &c : t.co) part[c.second.first]++; TIntPrV pp; TSnap::GetTriadParticip(g, pp); CKH(pp, part, "GetTriadParticip");
    int u = r.pick(m.ids); TIntSet grp; set<int> gs; for (int w : m.ids) if (r.chance(0.5)) { grp.AddKey(w); gs.insert(w); }
    int in = 0, io = 0, ou = 0, a, b, c; set<int> n = m.nbr(u); for (int p : n) for (int q : n) if (p < q && m.adj(p, q)) { int k = gs.count(p) + gs.count(q); (k == 2 ? in : k == 1 ? io : ou)++; }
    CKE(TSnap::GetNodeTriads(g, u, grp, a, b, c), in, "GetNodeTriads-group"); CK(a == in && b == io && c == ou, "GetNodeTriads-groups", "node %d: %d %d %d, expected %d %d %d; %s", u, a, b, c, in, io, ou, m.str().c_str());
    if (!self) { int te = 0; for (auto &e : m.e) { bool tr = false; for (int w : m.nbr(e.first)) tr |= w != e.second && m.adj(w, e.second); te += tr; } CKE(TSnap::GetTriadEdges(g), te, "GetTriadEdges"); }
    for (int k = 0; k < 3; ++k) {
        int p = r.pick(m.ids), q = r.pick(m.ids); set<int> np = m.nbr(p), nq = m.nbr(q), cm; for (int w : np) if (nq.count(w) && w != p && w != q) cm.insert(w);
        TIntV nv; int cnt = (nv.Add(p), TSnap::GetCmnNbrs(g, p, q, nv)); set<int> got; for (int i = 0; i < nv.Len(); ++i) got.insert(nv[i]); CK(got == cm && cnt == (int)cm.size() && nv.Len() == cnt, "GetCmnNbrs", "%d and %d: %d; %s", p, q, cnt, m.str().c_str()); CKE(TSnap::GetCmnNbrs(g, p, q), cm.size(), "GetCmnNbrs-cnt");
        vector<int> l2; for (int w : m.out.at(p)) if (m.has(w, q)) l2.push_back(w); std::sort(l2.begin(), l2.end()); cnt = TSnap::GetLen2Paths(g, p, q, nv); vector<int> gl; for (int i = 0; i < nv.Len(); ++i) gl.push_back(nv[i]); std::sort(gl.begin(), gl.end());
        CK(gl == l2 && cnt == (int)l2.size(), "GetLen2Paths", "%d to %d: %d, expected %zu; %s", p, q, cnt, l2.size(), m.str().c_str()); }
    Sorted<P, IsMulti<P>::v>::run(r, m, g, t);
}
// all shortest paths from s over weighted edges (u, v, w): distances and numbers of paths
typedef vector<std::tuple<int, int, double> > WE;
struct SP { map<int, double> d, n; };
static SP spFrom(const vector<int> &ids, const WE &e, int s) {
    SP p; p.d[s] = 0; for (size_t k = 0; k < ids.size(); ++k) { bool ch = false; for (auto &x : e) { int u = std::get<0>(x), v = std::get<1>(x); if (p.d.count(u) && (!p.d.count(v) || p.d[v] > p.d[u] + std::get<2>(x))) { p.d[v] = p.d[u] + std::get<2>(x); ch = true; } } if (!ch) break; }
    vector<pair<double, int> > o; for (auto &x : p.d) o.push_back(std::make_pair(x.second, x.first)); std::sort(o.begin(), o.end());
    p.n[s] = 1; for (auto &x : o) if (x.second != s) { double c = 0; for (auto &y : e) { int u = std::get<0>(y); if (std::get<1>(y) == x.second && p.d.count(u) && u != x.second && p.d[u] + std::get<2>(y) == x.first) c += p.n[u]; } p.n[x.second] = c; }
    return p;
}
struct Btw { map<int, double> node; map<II, double> edge; };
static Btw btwRef(const vector<int> &ids, const WE &e, const vector<int> &src, bool dir) {
    map<int, SP> sp; for (int u : ids) sp[u] = spFrom(ids, e, u); Btw b; for (int u : ids) b.node[u] = 0;
    for (int s : src) for (int t : ids) { if (t == s || !sp[s].d.count(t)) continue; double D = sp[s].d[t], N = sp[s].n[t];
        for (int v : ids) if (v != s && v != t && sp[s].d.count(v) && sp[v].d.count(t) && sp[s].d[v] + sp[v].d[t] == D) b.node[v] += sp[s].n[v] * sp[v].n[t] / N / (dir ? 1 : 2);
        for (auto &x : e) { int u = std::get<0>(x), v = std::get<1>(x); if (u != v && sp[s].d.count(u) && sp[v].d.count(t) && sp[s].d[u] + std::get<2>(x) + sp[v].d[t] == D) b.edge[II(std::min(u, v), std::max(u, v))] += sp[s].n[u] * sp[v].n[t] / N; } }
    return b;
}
static void ckNode(const TIntFltH &h, const Btw &b, const char *nm, const M &m) { CK(h.Len() == (int)b.node.size(), string(nm) + "-len", "%d; %s", h.Len(), m.str().c_str()); for (auto &x : b.node) CK(h.IsKey(x.first) && near(h.GetDat(x.first), x.second, 1e-8), nm, "%s of node %d: %f, expected %f; %s", nm, x.first, h.IsKey(x.first) ? h.GetDat(x.first).Val : -1, x.second, m.str().c_str()); add(nm); }
static void ckEdge(const TIntPrFltH &h, const Btw &b, const char *nm, const M &m) {
    for (int i = h.FFirstKeyId(); h.FNextKeyId(i);) { II k(h.GetKey(i).Val1, h.GetKey(i).Val2); auto f = b.edge.find(k); CK(m.adj(k.first, k.second) && near(h[i], f == b.edge.end() ? 0 : f->second, 1e-8), nm, "%s of %d-%d: %f, expected %f; %s", nm, k.first, k.second, h[i].Val, f == b.edge.end() ? 0 : f->second, m.str().c_str()); }
    for (auto &x : b.edge) CK(h.IsKey(TIntPr(x.first.first, x.first.second)), string(nm) + "-missing", "%s of %d-%d is missing; %s", nm, x.first.first, x.first.second, m.str().c_str()); add(nm); }
static map<int, double> prRef(const M &m, const map<II, double> &w, double C, int it) { // w: weight of an edge relative to the total of its source
    map<int, int> pos; for (int u : m.ids) { int k = pos.size(); pos[u] = k; }
    vector<std::tuple<int, int, double> > e; for (auto &x : w) e.push_back(std::make_tuple(pos[x.first.first], pos[x.first.second], x.second));
    int n = m.ids.size(); vector<double> p(n, 1.0 / n), q(n);
    for (int k = 0; k < it; ++k) { std::fill(q.begin(), q.end(), 0); for (auto &x : e) q[std::get<1>(x)] += C * p[std::get<0>(x)] * std::get<2>(x); double sum = 0, diff = 0; for (double x : q) sum += x; for (int i = 0; i < n; ++i) { q[i] += (1 - sum) / n; diff += fabs(q[i] - p[i]); } p = q; if (diff < 1e-14) break; }
    map<int, double> o; for (auto &x : pos) o[x.first] = p[x.second]; return o;
}
template<class P, int undir> struct Un { static void run(Rng &, const M &, const P &) {} };
template<class P> struct Un<P, 1> { static void run(Rng &r, const M &m, const P &g) {
    for (int u : m.ids) CKN(TSnap::GetDegreeCentr(g, u), m.ids.size() > 1 ? double(m.deg(u)) / (m.ids.size() - 1) : 0, 1e-12, "GetDegreeCentr");
    if (m.e.empty()) return; int it = 1 + r.below(60); TIntFltH h; TSnap::GetEigenVectorCentr(g, h, 1e-30, it); map<int, double> v; for (int u : m.ids) v[u] = 1.0 / m.ids.size();
    for (int k = 0; k < it; ++k) { map<int, double> w; double s = 0, df = 0; for (int u : m.ids) { for (int x : m.out.at(u)) w[u] += v[x]; s += w[u] * w[u]; } for (auto &x : w) x.second /= sqrt(s); for (int u : m.ids) df += fabs(w[u] - v[u]); v = w; if (df < 1e-30) break; }
    for (int u : m.ids) CK(h.IsKey(u) && near(h.GetDat(u), v[u], 1e-7), "GetEigenVectorCentr", "node %d: %.9f, expected %.9f; %s", u, h.GetDat(u).Val, v[u], m.str().c_str()); add("GetEigenVectorCentr");
    bool sl = false; for (auto &e : m.e) sl |= e.first == e.second; if (sl) return;
    TNetConstraint<P> nc(g, true); map<II, double> c; for (int a : m.ids) for (int b : m.ids) if (a != b) { double x = m.has(a, b) ? 1.0 / m.od(a) : 0; for (int q : m.out.at(a)) if (q != b && m.has(q, b)) x += 1.0 / m.od(a) / m.od(q); if (x != 0) c[II(a, b)] = x * x; }
    CKE(nc.Len(), c.size(), "TNetConstraint-len"); map<int, double> nd; for (auto &x : c) { nd[x.first.first] += x.second; CK(near(nc.GetEdgeC(x.first.first, x.first.second), x.second), "GetEdgeC", "%d-%d; %s", x.first.first, x.first.second, m.str().c_str()); } for (int u : m.ids) CKN(nc.GetNodeC(u), nd.count(u) ? nd[u] : 0, 1e-9, "GetNodeC");
} };
template<class P> struct IsUn { enum { v = 0 }; };
template<> struct IsUn<PUNGraph> { enum { v = 1 }; };
template<class P> static void central(Rng &r, const M &m, const P &g) {
    WE e; for (auto &x : m.e) { e.push_back(std::make_tuple(x.first, x.second, 1.0)); if (!m.dir() && x.first != x.second) e.push_back(std::make_tuple(x.second, x.first, 1.0)); }
    bool dir = r.chance(0.5); double N = m.ids.size();
    for (int u : m.ids) { map<int, int> d = m.bfs(u, true, !dir); double s = 0; for (auto &x : d) s += x.second; double k = d.size() - 1, f = k ? s / k : 0; CKN(TSnap::GetFarnessCentr(g, u, dir, false), f, 1e-9, "GetFarnessCentr"); CKN(TSnap::GetFarnessCentr(g, u, dir), k ? f * (N - 1) / k : 0, 1e-9, "GetFarnessCentr-norm"); CKN(TSnap::GetClosenessCentr(g, u, dir, false), f ? 1 / f : 0, 1e-9, "GetClosenessCentr"); CKN(TSnap::GetClosenessCentr(g, u, dir), f ? k / f / (N - 1) : 0, 1e-9, "GetClosenessCentr-norm"); }
    Btw b = btwRef(m.ids, e, m.ids, dir); TIntFltH h, h2; TIntPrFltH eh, eh2;
    TSnap::GetBetweennessCentr(g, h, dir); ckNode(h, b, "GetBetweennessCentr-node", m); TSnap::GetBetweennessCentr(g, eh, dir); ckEdge(eh, b, "GetBetweennessCentr-edge", m); TSnap::GetBetweennessCentr(g, h2, eh2, dir); ckNode(h2, b, "GetBetweennessCentr-both", m); ckEdge(eh2, b, "GetBetweennessCentr-both-edge", m);
    TIntV sv; set<int> ss = sub(m, r, sv, false); b = btwRef(m.ids, e, vector<int>(ss.begin(), ss.end()), dir); TSnap::GetBetweennessCentr(g, sv, h, dir, true, eh, true); ckNode(h, b, "GetBetweennessCentr-subset", m); ckEdge(eh, b, "GetBetweennessCentr-subset-edge", m);
    map<II, double> w; for (auto &x : e) w[II(std::get<0>(x), std::get<1>(x))] += 1.0 / m.od(std::get<0>(x));
    double C = r.pick(vector<double>{0.5, 0.85, 0.95}); int it = r.chance(0.5) ? 1 + r.below(5) : 2000; map<int, double> p = prRef(m, w, C, it); TIntFltH pr; TSnap::GetPageRank(g, pr, C, it == 2000 ? 1e-13 : 0, it); double tot = 0;
    auto cp = [&](const TIntFltH &q, const char *nm) { for (int u : m.ids) CK(q.IsKey(u) && near(q.GetDat(u), p[u], 1e-9), nm, "%s of %d after %d iterations: %.12f, expected %.12f; %s", nm, u, it, q.IsKey(u) ? q.GetDat(u).Val : -1, p[u], m.str().c_str()); CKE(q.Len(), m.ids.size(), "PageRank-len"); };
    cp(pr, "GetPageRank"); for (int u : m.ids) tot += pr.GetDat(u); CKN(tot, 1, 1e-9, "PageRank-total"); TIntFltH p1; TSnap::GetPageRank_v1(g, p1, C, it == 2000 ? 1e-13 : 0, it); cp(p1, "GetPageRank_v1");
#ifdef USE_OPENMP
    TIntFltH p2; TSnap::GetPageRankMP(g, p2, C, it == 2000 ? 1e-13 : 0, it); cp(p2, "GetPageRankMP"); { int u = r.pick(m.ids); CKN(TSnap::GetFarnessCentrMP(g, u, dir), TSnap::GetFarnessCentr(g, u, dir), 1e-9, "GetFarnessCentrMP"); }
#endif
    bool dense = m.ids.back() + 1 == (int)m.ids.size();
    if (dense) { std::vector<double> q; inOrder = true; P g2 = Mk<P>::mk(m, r); inOrder = false; TSnap::GetPageRank_stl(g2, q, true, C, it == 2000 ? 1e-13 : 0, it); for (int u : m.ids) CK(near(q[u], p[u], 1e-9), "GetPageRank_stl", "node %d: %.12f, expected %.12f; %s", u, q[u], p[u], m.str().c_str()); add("GetPageRank_stl"); }
    if (!m.e.empty()) {
        int hi = 1 + r.below(20); map<int, double> H, A; for (int u : m.ids) H[u] = 1; auto nrm = [](map<int, double> &x) { double s = 0; for (auto &y : x) s += y.second * y.second; for (auto &y : x) y.second /= sqrt(s); };
        for (int k = 0; k < hi; ++k) { A.clear(); for (int u : m.ids) A[u] = 0; for (auto &x : e) A[std::get<1>(x)] += H[std::get<0>(x)]; nrm(A); H.clear(); for (int u : m.ids) H[u] = 0; for (auto &x : e) H[std::get<0>(x)] += A[std::get<1>(x)]; nrm(H); }
        TIntFltH hh, ah; TSnap::GetHits(g, hh, ah, hi); for (int u : m.ids) CK(near(hh.GetDat(u), H[u], 1e-8) && near(ah.GetDat(u), A[u], 1e-8), "GetHits", "node %d: %.9f %.9f, expected %.9f %.9f; %s", u, hh.GetDat(u).Val, ah.GetDat(u).Val, H[u], A[u], m.str().c_str()); add("GetHits");
#ifdef USE_OPENMP
        TIntFltH h3, a3; TSnap::GetHitsMP(g, h3, a3, hi); for (int u : m.ids) CK(near(h3.GetDat(u), H[u], 1e-8) && near(a3.GetDat(u), A[u], 1e-8), "GetHitsMP", "node %d: %.9f %.9f, expected %.9f %.9f; %s", u, h3.GetDat(u).Val, a3.GetDat(u).Val, H[u], A[u], m.str().c_str());
#endif
        if (dense) { std::vector<float> fh, fa; TSnap::GetHits_stl(g, fh, fa, hi); for (int u : m.ids) CK(near(fh[u], H[u], 1e-4) && near(fa[u], A[u], 1e-4), "GetHits_stl", "node %d; %s", u, m.str().c_str()); add("GetHits_stl"); } }
    Un<P, IsUn<P>::v>::run(r, m, g);
}
static void weighted(Rng &r, const M &m, bool simple) { // directed network with weights and capacities on the edges
    PNEANet n = TNEANet::New(); vector<int> o = m.ids; r.shuffle(o); for (int u : o) n->AddNode(u); n->AddFltAttrE("w"); n->AddIntAttrE("capacity");
    map<int, double> w; map<II, double> tw; map<int, double> ow; WE e; map<II, int> cap; int mx = r.chance(0.5) ? 3 : 20, skip = r.chance(0.3);
    for (size_t i = 0; i < m.e.size(); ++i) { int id = skip ? 2 * i + r.below(2) : i, u = m.e[i].first, v = m.e[i].second, x = 1 + r.below(mx), c = r.below(mx + 1); n->AddEdge(u, v, id); n->AddFltAttrDatE(id, x, "w"); n->AddIntAttrDatE(id, c, "capacity"); w[id] = x; e.push_back(std::make_tuple(u, v, (double)x)); tw[II(u, v)] += x; ow[u] += x; cap[II(u, v)] += c; }
    TFltV a(n->GetMxEId() + 1); for (auto &x : w) a[x.first] = x.second; double N = m.ids.size();
    for (int s : m.ids) { SP p = spFrom(m.ids, e, s); TIntFltH h; TSnap::GetWeightedShortestPath(n, s, h, a); CKE(h.Len(), p.d.size(), "GetWeightedShortestPath-len"); for (auto &x : p.d) CK(h.IsKey(x.first) && h.GetDat(x.first) == x.second, "GetWeightedShortestPath", "%d to %d: %f, expected %f; %s", s, x.first, h.IsKey(x.first) ? h.GetDat(x.first).Val : -1, x.second, m.str().c_str());
        double t = 0, k = p.d.size() - 1.0; for (auto &x : p.d) t += x.second; double f = k ? t / k : 0; CKN(TSnap::GetWeightedFarnessCentr(n, s, true, a, false), f, 1e-9, "GetWeightedFarnessCentr"); CKN(TSnap::GetWeightedFarnessCentr(n, s, true, a), k ? f * (N - 1) / k : 0, 1e-9, "GetWeightedFarnessCentr-norm"); CKN(TSnap::GetWeightedClosenessCentr(n, s, true, a, false), f ? 1 / f : 0, 1e-9, "GetWeightedClosenessCentr"); }
    bool dir = r.chance(0.5); Btw b = btwRef(m.ids, e, m.ids, dir); TIntFltH h, h2; TIntPrFltH eh, eh2; TSnap::GetWeightedBetweennessCentr(n, h, a, dir); ckNode(h, b, "GetWeightedBetweennessCentr-node", m); TSnap::GetWeightedBetweennessCentr(n, eh, a, dir); ckEdge(eh, b, "GetWeightedBetweennessCentr-edge", m); TSnap::GetWeightedBetweennessCentr(n, h2, eh2, a, dir); ckNode(h2, b, "GetWeightedBetweennessCentr-both", m); ckEdge(eh2, b, "GetWeightedBetweennessCentr-both-edge", m);
    if (simple) { map<II, double> rw; for (auto &x : tw) rw[x.first] = x.second / ow[x.first.first]; int it = r.chance(0.5) ? 1 + r.below(5) : 1000; map<int, double> p = prRef(m, rw, 0.85, it); TIntFltH q; int rc = TSnap::GetWeightedPageRank(n, q, "w", 0.85, it == 1000 ? 1e-13 : 0, it); CKE(rc, 0, "GetWeightedPageRank-rc"); for (int u : m.ids) CK(q.IsKey(u) && near(q.GetDat(u), p[u], 1e-9), "GetWeightedPageRank", "node %d: %.12f, expected %.12f; %s", u, q.IsKey(u) ? q.GetDat(u).Val : -1, p[u], m.str().c_str()); 
#ifdef USE_OPENMP
        TIntFltH q2; CKE(TSnap::GetWeightedPageRankMP(n, q2, "w", 0.85, it == 1000 ? 1e-13 : 0, it), 0, "GetWeightedPageRankMP-rc"); for (int u : m.ids) CK(q2.IsKey(u) && near(q2.GetDat(u), p[u], 1e-9), "GetWeightedPageRankMP", "node %d: %.12f, expected %.12f; %s", u, q2.IsKey(u) ? q2.GetDat(u).Val : -1, p[u], m.str().c_str());
#endif
        CKE(TSnap::GetWeightedPageRank(n, q, "none"), -1, "GetWeightedPageRank-none"); }
    for (int k = 0; k < 3; ++k) { // maximum flow: augmenting paths over the residual capacities
        int s = r.pick(m.ids), t = r.pick(m.ids), f = 0; map<II, int> c = cap; 
        while (s != t) { map<int, int> pre; pre[s] = s; std::queue<int> q; q.push(s); while (!q.empty() && !pre.count(t)) { int u = q.front(); q.pop(); for (int v : m.ids) { auto x = c.find(II(u, v)); if (x != c.end() && x->second > 0 && !pre.count(v)) { pre[v] = u; q.push(v); } } } if (!pre.count(t)) break; int am = 1 << 30; for (int v = t; v != s; v = pre[v]) am = std::min(am, c[II(pre[v], v)]); for (int v = t; v != s; v = pre[v]) { c[II(pre[v], v)] -= am; c[II(v, pre[v])] += am; } f += am; }
        CKE(TSnap::GetMaxFlowIntEK(n, s, t), f, "GetMaxFlowIntEK"); CKE(TSnap::GetMaxFlowIntPR(n, s, t), f, "GetMaxFlowIntPR"); add("flow", f); }
}
template<class P> static void metrics(Rng &r, const M &m, const P &g, bool self) {
    triads(r, m, g, self); central(r, m, g); same(g, S(m.ids), bag(m), m.kind, "source", m);
    if (m.kind) weighted(r, m, m.kind == 1);
}
