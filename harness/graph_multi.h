// Multigraphs and bipartite graphs; included by h_graph.cpp.
typedef TNodeEdgeNet<TInt, TInt> NEdgeNet;
template<class G> struct TM { enum { nd = 0, attr = 0, one = 0 }; };
template<> struct TM<NEdgeNet> { enum { nd = 1, attr = 0, one = 1 }; };
template<> struct TM<TNEANet> { enum { nd = 0, attr = 1, one = 0 }; };

// dense attributes: name -> type, default, values; kinds: 0 int, 1 flt, 2 str, 3 list of int
struct DAttr { int kind; string def; map<int, string> val; };
typedef map<string, DAttr> DAttrs;
struct MMod { map<int, int> nodes; struct E { int a, b, d; }; map<int, E> edges; int mxn, mxe; SModel sn, se; DAttrs dn, de; MMod() : mxn(0), mxe(0) {} };

static string ivs(const TIntV &v) { string s; for (int i = 0; i < v.Len(); ++i) s += fmt("%d,", (int) v[i]); return s; }
static string fs(double d) { return fmt("%.9g", d); }
static const string NOINT = std::to_string(INT_MIN), NOFLT = fs((double) TFlt::Mn);
// Node (N) and edge (E) flavour of the same operations.
#define FLAVOUR(NAME, X, ITER) \
struct NAME { \
    static const char *tag() { return #X; } \
    static int add(TNEANet &g, int id, int kind, const string &v, const TStr &a, Rng &r) { \
        if (kind == 0) return g.AddIntAttrDat##X(id, TInt(atoi(v.c_str())), a); if (kind == 1) return g.AddFltAttrDat##X(id, TFlt(atof(v.c_str())), a); if (kind == 2) return g.AddStrAttrDat##X(id, TStr(v.c_str()), a); \
        TIntV l; std::istringstream is(v); string t; while (std::getline(is, t, ',')) l.Add(atoi(t.c_str())); (void) r; return g.AddIntVAttrDat##X(id, l, a); } \
    static string get(TNEANet &g, int id, int kind, const TStr &a, Rng &r) { \
        bool byInd = kind < 3 && r.chance(30); int ind = byInd ? (kind == 0 && r.chance(50) ? g.GetIntAttrInd##X(a) : g.GetAttrInd##X(a)) : 0; \
        if (kind == 0) return std::to_string(byInd ? (int) g.GetIntAttrIndDat##X(id, ind) : (int) g.GetIntAttrDat##X(id, a)); \
        if (kind == 1) return fs(byInd ? (double) g.GetFltAttrIndDat##X(id, ind) : (double) g.GetFltAttrDat##X(id, a)); \
        if (kind == 2) return byInd ? g.GetStrAttrIndDat##X(id, ind).CStr() : g.GetStrAttrDat##X(id, a).CStr(); \
        return ivs(g.GetIntVAttrDat##X(id, a)); } \
    static string viaIter(TNEANet &g, int id, int kind, const TStr &a) { \
        if (kind == 0) return std::to_string((int) g.Get##X##AIntI(a, id).GetDat()); if (kind == 1) return fs((double) g.Get##X##AFltI(a, id).GetDat()); if (kind == 2) return g.Get##X##AStrI(a, id).GetDat().CStr(); return ivs(g.Get##X##AIntVI(a, id).GetDat()); } \
    static void column(TNEANet &g, int kind, const TStr &a, vector<string> &o) { \
        if (kind == 0) for (TNEANet::TAIntI i = g.Beg##X##AIntI(a); i < g.End##X##AIntI(a); i++) o.push_back(std::to_string((int) i.GetDat())); \
        if (kind == 1) for (TNEANet::TAFltI i = g.Beg##X##AFltI(a); i < g.End##X##AFltI(a); i++) o.push_back(fs((double) i.GetDat())); \
        if (kind == 2) for (TNEANet::TAStrI i = g.Beg##X##AStrI(a); i < g.End##X##AStrI(a); i++) o.push_back(i.GetDat().CStr()); \
        if (kind == 3) for (TNEANet::TAIntVI i = g.Beg##X##AIntVI(a); i < g.End##X##AIntVI(a); i++) o.push_back(ivs(i.GetDat())); } \
    static int decl(TNEANet &g, int kind, const TStr &a, const string &def) { \
        if (kind == 0) return def == NOINT ? g.AddIntAttr##X(a) : g.AddIntAttr##X(a, TInt(atoi(def.c_str()))); if (kind == 1) return def == NOFLT ? g.AddFltAttr##X(a) : g.AddFltAttr##X(a, TFlt(atof(def.c_str()))); if (kind == 2) return def.empty() ? g.AddStrAttr##X(a) : g.AddStrAttr##X(a, TStr(def.c_str())); return g.AddIntVAttr##X(a); } \
    static int drop(TNEANet &g, const TStr &a) { return g.DelAttr##X(a); } \
    static int delDat(TNEANet &g, int id, const TStr &a) { return g.DelAttrDat##X(id, a); } \
    static int append(TNEANet &g, int id, int v, const TStr &a) { return g.AppendIntVAttrDat##X(id, TInt(v), a); } \
    static bool isDel(TNEANet &g, int id, const TStr &a) { return g.IsAttrDeleted##X(id, a); } \
    static bool isDelK(TNEANet &g, int id, int k, const TStr &a) { return k == 0 ? g.IsIntAttrDeleted##X(id, a) : k == 1 ? g.IsFltAttrDeleted##X(id, a) : k == 2 ? g.IsStrAttrDeleted##X(id, a) : g.IsIntVAttrDeleted##X(id, a); } \
    static void lists(TNEANet &g, int id, map<string, string> &all, map<string, string> *byKind) { \
        TStrV n; TStrV v; TIntV iv; TFltV fv; TVec<TIntV> lv; bool alt = id % 2; \
        if (alt) { g.AttrName##ITER(id, n); g.AttrValue##ITER(id, v); } else { auto i = g.Get##ITER(id); i.GetAttrNames(n); i.GetAttrVal(v); } if (n.Len() != v.Len()) all["?"] = "?"; else for (int i = 0; i < n.Len(); ++i) all[n[i].CStr()] = v[i].CStr(); \
        if (alt) { g.IntAttrName##ITER(id, n); g.IntAttrValue##ITER(id, iv); } else { auto i = g.Get##ITER(id); i.GetIntAttrNames(n); i.GetIntAttrVal(iv); } if (n.Len() != iv.Len()) byKind[0]["?"] = "?"; else for (int i = 0; i < n.Len(); ++i) byKind[0][n[i].CStr()] = std::to_string((int) iv[i]); \
        if (alt) { g.FltAttrName##ITER(id, n); g.FltAttrValue##ITER(id, fv); } else { auto i = g.Get##ITER(id); i.GetFltAttrNames(n); i.GetFltAttrVal(fv); } if (n.Len() != fv.Len()) byKind[1]["?"] = "?"; else for (int i = 0; i < n.Len(); ++i) byKind[1][n[i].CStr()] = fs((double) fv[i]); \
        if (alt) { g.StrAttrName##ITER(id, n); g.StrAttrValue##ITER(id, v); } else { auto i = g.Get##ITER(id); i.GetStrAttrNames(n); i.GetStrAttrVal(v); } if (n.Len() != v.Len()) byKind[2]["?"] = "?"; else for (int i = 0; i < n.Len(); ++i) byKind[2][n[i].CStr()] = v[i].CStr(); \
        if (alt) { g.IntVAttrName##ITER(id, n); g.IntVAttrValue##ITER(id, lv); } else { auto i = g.Get##ITER(id); i.GetIntVAttrNames(n); i.GetIntVAttrVal(lv); } if (n.Len() != lv.Len()) byKind[3]["?"] = "?"; else for (int i = 0; i < n.Len(); ++i) byKind[3][n[i].CStr()] = ivs(lv[i]); } \
    static void names(TNEANet &g, TStrV &i, TStrV &f, TStrV &s) { g.GetAttr##X##Names(i, f, s); } \
};
FLAVOUR(FN, N, NI)
FLAVOUR(FE, E, EI)
static string randVal(Rng &r, int kind) { if (kind == 0) return std::to_string((int) r.below(40) - 8); if (kind == 1) return fs(((int) r.below(40) - 8) / 4.0); if (kind == 2) return fmt("s%d", (int) r.below(12)); string s; for (int i = 1 + r.below(3); i > 0; --i) s += fmt("%d,", (int) r.below(9)); return s; }
static const char *dnames[] = {"w", "color", "size", "list", "w2", "k"};
static string nothing(int kind) { return kind == 0 ? NOINT : kind == 1 ? NOFLT : ""; }
template<class F> static void dOp(Rng &r, TNEANet &g, DAttrs &m, const vector<int> &ids) {
    string n = dnames[r.below(6)]; TStr a(n.c_str()); auto it = m.find(n); int op = r.below(12);
    int id = ids.empty() ? -1 : ids[r.below(ids.size())];
    string t = string("attr") + F::tag() + ":";
    if (it == m.end()) {
        int kind = r.below(4); DAttr d; d.kind = kind;
        if (op < 4) { d.def = kind == 3 || r.chance(40) ? nothing(kind) : randVal(r, kind); int rc = F::decl(g, kind, a, d.def); CK(rc == 0, t + "decl", "declaring '%s' returned %d", n.c_str(), rc); for (int x : ids) d.val[x] = d.def; m[n] = d; }
        else if (op < 7 && id >= 0) { d.def = nothing(kind); for (int x : ids) d.val[x] = d.def; string v = randVal(r, kind); d.val[id] = v; int rc = F::add(g, id, kind, v, a, r); CK(rc == 0, t + "adddat", "'%s' of %d returned %d", n.c_str(), id, rc); m[n] = d; }
        return;
    }
    DAttr &d = it->second;
    if (op == 0) { int rc = F::drop(g, a); CK(rc == 0, t + "delattr", "deleting attribute '%s' of kind %d returned %d", n.c_str(), d.kind, rc); m.erase(it); }
    else if (id < 0) { int rc = F::add(g, 500, d.kind, "1", a, r); CK(rc == -1, t + "adddat", "a missing id gives %d", rc); }
    else if (op <= 6) { string v = randVal(r, d.kind); int rc = F::add(g, id, d.kind, v, a, r); CK(rc == 0, t + "adddat", "returned %d", rc); d.val[id] = v; }
    else if (op <= 8) { int rc = F::delDat(g, id, a); CK(rc == 0, t + "deldat", "returned %d", rc); d.val[id] = d.def; }
    else if (d.kind == 3) { int v = r.below(9); int rc = F::append(g, id, v, a); CK(rc == 0, t + "append", "returned %d", rc); d.val[id] += fmt("%d,", v); }
}
template<class F> static void dVerify(Rng &r, TNEANet &g, DAttrs &m, const vector<int> &ids) {
    string t = string("attr") + F::tag() + ":";
    for (auto &x : m) { DAttr &d = x.second; TStr a(x.first.c_str());
        for (int id : ids) { string got = F::get(g, id, d.kind, a, r); CK(got == d.val[id], t + "get", "'%s' (kind %d) of %d is %s, expected %s", x.first.c_str(), d.kind, id, got.c_str(), d.val[id].c_str()); if (got != d.val[id]) return;
            got = F::viaIter(g, id, d.kind, a); CK(got == d.val[id], t + "iter", "iterator at '%s' of %d gives %s, expected %s", x.first.c_str(), id, got.c_str(), d.val[id].c_str());
            bool del = d.val[id] == d.def; CK(F::isDel(g, id, a) == del && F::isDelK(g, id, d.kind, a) == del, t + "isdel", "'%s' of %d (%s, default %s) reported %s", x.first.c_str(), id, d.val[id].c_str(), d.def.c_str(), del ? "set" : "deleted"); }
        vector<string> col; F::column(g, d.kind, a, col); std::multiset<string> cs(col.begin(), col.end()); for (int id : ids) { auto p = cs.find(d.val[id]); CK(p != cs.end(), t + "column", "the value of '%s' of %d is not in the column", x.first.c_str(), id); if (p != cs.end()) cs.erase(p); else break; }
        for (auto &left : cs) CK(left == d.def || left == nothing(d.kind), t + "column", "the column of '%s' has %s left over", x.first.c_str(), left.c_str()); }
    for (int id : ids) { map<string, string> all, k[4], ea, ek[4]; F::lists(g, id, all, k);
        for (auto &x : m) { DAttr &d = x.second; bool del = d.val[id] == d.def; if (!del && d.kind != 3) ea[x.first] = d.kind == 1 ? TFlt(atof(d.val[id].c_str())).GetStr().CStr() : d.val[id]; if (!del || d.kind == 3) ek[d.kind][x.first] = d.val[id]; else if (d.kind == 3) ek[3][x.first] = ""; }
        for (auto &x : m) if (x.second.kind == 3) all.erase(x.first);
        CK(all == ea, t + "list", "%d lists %zu attributes, expected %zu", id, all.size(), ea.size()); for (int q = 0; q < 4; ++q) CK(k[q] == ek[q], t + "list", "%d lists %zu attributes of kind %d, expected %zu", id, k[q].size(), q, ek[q].size()); }
    TStrV i, f, s; F::names(g, i, f, s); int ni = 0, nf = 0, ns = 0; for (auto &x : m) { if (x.second.kind == 0) { ++ni; CK(i.IsIn(x.first.c_str()), t + "names", "'%s' missing", x.first.c_str()); } if (x.second.kind == 1) { ++nf; CK(f.IsIn(x.first.c_str()), t + "names", "'%s' missing", x.first.c_str()); } if (x.second.kind == 2) { ++ns; CK(s.IsIn(x.first.c_str()), t + "names", "'%s' missing", x.first.c_str()); } }
    CK(i.Len() == ni && f.Len() == nf && s.Len() == ns, t + "names", "%d/%d/%d names, expected %d/%d/%d", i.Len(), f.Len(), s.Len(), ni, nf, ns);
}
static void newId(DAttrs &m, int id) { for (auto &x : m) x.second.val[id] = x.second.def; }
template<class G, int AT> struct MAtt { static void op(Rng &, G &, MMod &) {} static void verify(Rng &, G &, MMod &) {} static bool eq(G &, G &) { return true; } };
template<class G> struct MAtt<G, 1> {
    static void ids(MMod &m, vector<int> &n, vector<int> &e) { for (auto &x : m.nodes) n.push_back(x.first); for (auto &x : m.edges) e.push_back(x.first); }
    static void op(Rng &r, G &g, MMod &m) {
        vector<int> n, e; ids(m, n, e);
        switch (r.below(5)) {
            case 0: case 1: dOp<FN>(r, g, m.dn, n); break;
            case 2: case 3: dOp<FE>(r, g, m.de, e); break;
            default: if (r.chance(50)) { int id = n.empty() || r.chance(20) ? r.below(NIDS) : r.pick(n); sOp<SNode>(r, g, m.sn, II(id, 0), II(id, 0), m.nodes.count(id)); } else { int id = e.empty() || r.chance(20) ? r.below(40) : r.pick(e); sOp<SEdge1>(r, g, m.se, II(id, 0), II(id, 0), m.edges.count(id)); }
        }
        if (r.chance(10)) for (auto &x : m.dn) if (x.second.kind == 3 && !n.empty()) { int id = r.pick(n), v = r.below(9); string &s = x.second.val[id]; string tok = fmt("%d,", v); size_t p = 0; bool found = false; while (p < s.size()) { size_t q = s.find(',', p) + 1; if (s.substr(p, q - p) == tok) { found = true; s.erase(p, q - p); break; } p = q; }
            int rc = g.DelFromIntVAttrDatN(id, TInt(v), TStr(x.first.c_str())); CK((rc == 0) == found, "attrN:delfrom", "removing %d returned %d", v, rc); }
    }
    static void verify(Rng &r, G &g, MMod &m) {
        vector<int> n, e; ids(m, n, e); dVerify<FN>(r, g, m.dn, n); dVerify<FE>(r, g, m.de, e);
        int id = n.empty() || r.chance(20) ? r.below(NIDS) : r.pick(n); sVerify<SNode>(r, g, m.sn, II(id, 0), II(id, 0), m.nodes.count(id));
        id = e.empty() || r.chance(20) ? r.below(40) : r.pick(e); sVerify<SEdge1>(r, g, m.se, II(id, 0), II(id, 0), m.edges.count(id));
        sIds<SNode>(r, g, m.sn); sIds<SEdge1>(r, g, m.se);
        for (auto &x : m.de) { TStr a(x.first.c_str()); CK(g.IsIntAttrE(a) == (x.second.kind == 0) && g.IsFltAttrE(a) == (x.second.kind == 1) && g.IsStrAttrE(a) == (x.second.kind == 2), "attrE:kind", "kind of '%s'", x.first.c_str());
            if (x.second.kind == 1 && x.second.def != NOFLT && !n.empty()) { int v = r.pick(n); double w = 0; bool ok = true; for (auto &y : m.edges) if (y.second.a == v) { if (x.second.val[y.first] == NOFLT) ok = false; w += atof(x.second.val[y.first].c_str()); } if (ok) { double got = g.GetWeightOutEdges(g.GetNI(v), a); CK(fabs(got - w) < 1e-9, "attrE:weight", "out weight of %d is %g, expected %g", v, got, w); } } }
    }
};
template<class G, int ND> struct MDat {
    static int addN(G &g, int id, int &d) { d = 0; return g.AddNode(id); } static int addE(G &g, int a, int b, int id, int &d) { d = 0; return id == -1 ? g.AddEdge(a, b) : g.AddEdge(a, b, id); }
    static void op(Rng &, G &, MMod &) {} static void verify(Rng &, G &, MMod &) {} };
template<class G> struct MDat<G, 1> {
    static int addN(G &g, int id, int &d) { if (d % 3 == 0) { d = 0; return g.AddNode(id); } return g.AddNode(id, TInt(d)); }
    static int addE(G &g, int a, int b, int id, int &d) { if (d % 3 == 0) { d = 0; return g.AddEdge(a, b, id); } return g.AddEdge(a, b, id, TInt(d)); }
    static void op(Rng &r, G &g, MMod &m) {
        if (!m.nodes.empty()) { auto it = m.nodes.begin(); std::advance(it, r.below(m.nodes.size())); it->second = r.below(90); if (r.chance(50)) g.SetNDat(it->first, TInt(it->second)); else g.GetNI(it->first).GetDat() = it->second; }
        if (!m.edges.empty()) { if (r.chance(10)) { int d = r.below(90); g.SetAllEDat(TInt(d)); for (auto &x : m.edges) x.second.d = d; return; } auto it = m.edges.begin(); std::advance(it, r.below(m.edges.size())); it->second.d = r.below(90); int h = r.below(3); if (h == 0) g.SetEDat(it->first, TInt(it->second.d)); else if (h == 1) g.GetEDat(it->first) = it->second.d; else g.GetEI(it->first)() = it->second.d; } }
    static void verify(Rng &, G &g, MMod &m) {
        for (auto &x : m.nodes) CK(g.GetNDat(x.first) == x.second && g.GetNI(x.first)() == x.second, "ndat", "data of node %d", x.first);
        for (auto &x : m.edges) { CK(g.GetEDat(x.first) == x.second.d && g.GetEI(x.first)() == x.second.d, "edat", "data of edge %d is %d, expected %d", x.first, (int) g.GetEDat(x.first), x.second.d); auto ei = g.GetEI(x.first); CK(ei.GetSrcNDat() == m.nodes[x.second.a] && ei.GetDstNDat() == m.nodes[x.second.b], "edat", "end point data of edge %d", x.first); }
        for (auto ni = g.BegNI(); ni < g.EndNI(); ni++) { for (int i = 0; i < ni.GetOutDeg(); ++i) CK(ni.GetOutEDat(i) == m.edges[ni.GetOutEId(i)].d && ni.GetOutNDat(i) == m.nodes[ni.GetOutNId(i)], "edat", "out edge data"); for (int i = 0; i < ni.GetInDeg(); ++i) CK(ni.GetInEDat(i) == m.edges[ni.GetInEId(i)].d && ni.GetInNDat(i) == m.nodes[ni.GetInNId(i)], "edat", "in edge data"); for (int i = 0; i < ni.GetDeg(); ++i) CK(ni.GetNbrEDat(i) == m.edges[ni.GetNbrEId(i)].d && ni.GetNbrNDat(i) == m.nodes[ni.GetNbrNId(i)], "edat", "neighbour data"); }
        for (int d = 0; d < 2; ++d) { set<II> u; for (auto &x : m.edges) u.insert(canon(d, x.second.a, x.second.b)); CK(g.GetUniqEdges(d) == (int) u.size(), "uniq", "GetUniqEdges(%d) is %d, expected %zu", d, g.GetUniqEdges(d), u.size()); } }
};
static void dropE(MMod &m, int id) { m.edges.erase(id); m.se.dropKey(II(id, 0)); for (auto &x : m.de) x.second.val.erase(id); }
template<class G> static void verifyM(Rng &r, G &g, MMod &m) {
    CK(g.GetNodes() == (int) m.nodes.size() && g.GetEdges() == (int) m.edges.size(), "counts", "%d nodes and %d edges, expected %zu and %zu", g.GetNodes(), g.GetEdges(), m.nodes.size(), m.edges.size());
    CK(g.Empty() == m.nodes.empty(), "empty", "Empty() is %d", g.Empty()); CK(g.IsOk(false), "isok", "IsOk is false");
    CK(m.nodes.empty() || g.GetMxNId() > m.nodes.rbegin()->first, "mxnid", "GetMxNId %d", g.GetMxNId());
    map<int, vector<int>> in, out; for (auto &x : m.edges) { out[x.second.a].push_back(x.first); in[x.second.b].push_back(x.first); }
    vector<int> seen, exp; for (auto &x : m.nodes) exp.push_back(x.first);
    for (auto ni = g.BegNI(); ni < g.EndNI(); ni++) { int n = ni.GetId(); seen.push_back(n); if (seen.size() > m.nodes.size() + 3) break; if (!m.nodes.count(n)) continue;
        vector<int> i, o, nb; for (int k = 0; k < ni.GetInDeg(); ++k) i.push_back(ni.GetInEId(k)); for (int k = 0; k < ni.GetOutDeg(); ++k) o.push_back(ni.GetOutEId(k)); for (int k = 0; k < ni.GetDeg(); ++k) nb.push_back(ni.GetNbrEId(k));
        CK(i == in[n] && o == out[n], "eids", "edge ids of node %d are wrong (%zu in, %zu out)", n, i.size(), o.size()); if (i != in[n] || o != out[n]) return;
        vector<int> en = out[n]; en.insert(en.end(), in[n].begin(), in[n].end()); CK(nb == en, "eids", "GetNbrEId of node %d", n);
        for (int k = 0; k < ni.GetInDeg(); ++k) CK(ni.GetInNId(k) == m.edges[i[k]].a, "nbrs", "in neighbour of %d", n); for (int k = 0; k < ni.GetOutDeg(); ++k) CK(ni.GetOutNId(k) == m.edges[o[k]].b, "nbrs", "out neighbour of %d", n);
        for (int k = 0; k < ni.GetDeg(); ++k) { auto &e = m.edges[nb[k]]; CK(ni.GetNbrNId(k) == (e.a == n ? e.b : e.a), "nbrs", "neighbour of %d", n); }
        for (int x = 0; x < NIDS; ++x) { bool fi = false, fo = false; for (int q : i) if (m.edges[q].a == x) fi = true; for (int q : o) if (m.edges[q].b == x) fo = true; CK(ni.IsInNId(x) == fi && ni.IsOutNId(x) == fo && ni.IsNbrNId(x) == (fi || fo), "isnbr", "node %d, candidate %d", n, x); }
        for (int k = 0; k < 5; ++k) { int x = r.below(m.mxe + 2); bool fi = std::binary_search(i.begin(), i.end(), x), fo = std::binary_search(o.begin(), o.end(), x); CK(ni.IsInEId(x) == fi && ni.IsOutEId(x) == fo && ni.IsNbrEId(x) == (fi || fo), "iseid", "node %d, edge %d", n, x); }
        auto n2 = g.GetNI(n); CK(n2 == ni && n2.GetId() == n, "getni", "GetNI(%d)", n); }
    vector<int> so = seen; std::sort(seen.begin(), seen.end()); CK(seen == exp, "nodeiter", "the node iterator visits %zu nodes, expected %zu", seen.size(), exp.size());
    TIntV v; g.GetNIdV(v); vector<int> gv; for (int i = 0; i < v.Len(); ++i) gv.push_back(v[i]); CK(gv == so, "getnidv", "GetNIdV differs from the iterator");
    seen.clear(); exp.clear(); for (auto &x : m.edges) exp.push_back(x.first);
    for (auto ei = g.BegEI(); ei < g.EndEI(); ei++) { int e = ei.GetId(); seen.push_back(e); if (seen.size() > m.edges.size() + 3) break; if (m.edges.count(e)) CK(ei.GetSrcNId() == m.edges[e].a && ei.GetDstNId() == m.edges[e].b, "edgeiter", "edge %d is (%d,%d)", e, ei.GetSrcNId(), ei.GetDstNId()); }
    so = seen; std::sort(seen.begin(), seen.end()); CK(seen == exp, "edgeiter", "the edge iterator visits %zu edges, expected %zu", seen.size(), exp.size());
    g.GetEIdV(v); gv.clear(); for (int i = 0; i < v.Len(); ++i) gv.push_back(v[i]); CK(gv == so, "geteidv", "GetEIdV differs from the iterator");
    for (int x = 0; x < NIDS + 2; ++x) CK(g.IsNode(x) == (bool) m.nodes.count(x), "isnode", "IsNode(%d)", x);
    for (int x = 0; x < m.mxe + 2; ++x) { CK(g.IsEdge(x) == (bool) m.edges.count(x), "isedge", "IsEdge(%d)", x); if (m.edges.count(x)) { auto ei = g.GetEI(x); CK(ei.GetId() == x && ei.GetSrcNId() == m.edges[x].a && ei.GetDstNId() == m.edges[x].b, "getei", "GetEI(%d)", x); } }
    if (!m.nodes.empty()) { vector<int> ids; for (auto &x : m.nodes) ids.push_back(x.first);
        for (int k = 0; k < 8; ++k) { int a = r.pick(ids), b = r.pick(ids); bool d = r.chance(60); int id = -9; bool f = false, b2 = false; for (int e : out[a]) if (m.edges[e].b == b) f = true; for (int e : out[b]) if (m.edges[e].b == a) b2 = true; bool e = f || (!d && b2);
            bool got = r.chance(50) ? g.IsEdge(a, b, id, d) : (id = -1, g.IsEdge(a, b, d)); CK(got == e, "isedge2", "IsEdge(%d,%d,%d) is %d", a, b, d, got);
            if (got && id >= 0) { bool ok = m.edges.count(id) && ((m.edges[id].a == a && m.edges[id].b == b) || (!d && m.edges[id].a == b && m.edges[id].b == a)); CK(ok, "isedge2", "IsEdge(%d,%d) gives edge %d", a, b, id); }
            int x = g.GetEId(a, b); CK(f ? m.edges.count(x) && m.edges[x].a == a && m.edges[x].b == b : x == -1, "geteid", "GetEId(%d,%d) is %d", a, b, x); if (f) { auto ei = g.GetEI(a, b); CK(ei.GetSrcNId() == a && ei.GetDstNId() == b, "getei", "GetEI(%d,%d)", a, b); } }
        CK(m.nodes.count(g.GetRndNId()) && m.nodes.count(g.GetRndNI().GetId()), "rnd", "random node"); if (!m.edges.empty()) CK(m.edges.count(g.GetRndEId()) && m.edges.count(g.GetRndEI().GetId()), "rnd", "random edge"); }
    MDat<G, TM<G>::nd>::verify(r, g, m); MAtt<G, TM<G>::attr>::verify(r, g, m);
}
template<class G> static void multiCase(Rng &r, const char *tag) {
    gtag = tag; TPt<G> g = r.chance(30) ? TPt<G>(new G((int) r.below(40), (int) r.below(80))) : G::New(); MMod m;
    int steps = 15 + r.below(60), every = 1 + r.below(4), cur = st().violations; uint64_t h = hashStr(tag);
    for (int s = 0; s < steps && st().violations == cur; ++s) {
        int op = r.below(26); int a = r.below(NIDS), b = r.below(NIDS); h = mix(h, op * 1000 + a * 20 + b);
        if (!m.nodes.empty() && r.chance(85)) { auto it = m.nodes.begin(); std::advance(it, r.below(m.nodes.size())); a = it->first; it = m.nodes.begin(); std::advance(it, r.below(m.nodes.size())); b = it->first; }
        if (r.chance(12)) b = a;
        int e = -1; if (!m.edges.empty()) { auto it = m.edges.begin(); std::advance(it, r.below(m.edges.size())); e = it->first; }
        switch (op) {
            case 0: case 1: case 2: case 3: { int id = r.chance(30) ? -1 : (int) r.below(NIDS); if (m.nodes.count(id) || (id == -1 && m.mxn >= NIDS)) break; int d = r.below(90); int got = MDat<G, TM<G>::nd>::addN(*g, id, d); CK(got == (id == -1 ? g->GetMxNId() - 1 : id) && !m.nodes.count(got), "AddNode", "AddNode(%d) gives %d", id, got); m.nodes[got] = d; m.mxn = std::max(m.mxn, got + 1); newId(m.dn, got); } break;
            case 4: case 5: case 6: case 7: case 8: case 9: case 10: if (m.nodes.count(a) && m.nodes.count(b)) { int id = r.chance(60) ? -1 : (int) r.below(40); if (m.edges.count(id)) break; if (r.chance(30) && e >= 0) { a = m.edges[e].a; b = m.edges[e].b; if (r.chance(40)) std::swap(a, b); } int d = r.below(90); int got = MDat<G, TM<G>::nd>::addE(*g, a, b, id, d); CK((id == -1 || got == id) && !m.edges.count(got), "AddEdge", "AddEdge(%d,%d,%d) gives %d", a, b, id, got); MMod::E x; x.a = a; x.b = b; x.d = d; m.edges[got] = x; m.mxe = std::max(m.mxe, got + 1); newId(m.de, got); } break;
            case 11: if (m.nodes.count(a)) { g->DelNode(a); m.nodes.erase(a); m.sn.dropKey(II(a, 0)); for (auto &x : m.dn) x.second.val.erase(a); vector<int> del; for (auto &x : m.edges) if (x.second.a == a || x.second.b == a) del.push_back(x.first); for (int x : del) dropE(m, x); } break;
            case 12: case 13: if (e >= 0) { g->DelEdge(e); dropE(m, e); } break;
            case 14: case 15: if (e >= 0) { a = m.edges[e].a; b = m.edges[e].b; bool d = r.chance(60); if (!d && r.chance(50)) std::swap(a, b); vector<int> all; for (auto &x : m.edges) if ((x.second.a == a && x.second.b == b) || (!d && x.second.a == b && x.second.b == a)) all.push_back(x.first);
                if (d && r.chance(50)) g->DelEdge(a, b); else g->DelEdge(a, b, d);
                if (TM<G>::one) { int gone = 0; for (int x : all) if (!g->IsEdge(x)) { ++gone; dropE(m, x); } CK(gone == 1, "DelEdge2", "DelEdge(%d,%d,%d) removed %d of %zu edges", a, b, d, gone, all.size()); } else for (int x : all) dropE(m, x); } break;
            case 16: case 17: g->Defrag(r.chance(30)); break;
            case 18: { int how = r.below(4); if (how == 0) reload<G>(g); else if (how == 1) { TPt<G> n = new G(*g); if (r.chance(50)) { verifyM(r, *n, m); g->Clr(); } g = n; } else if (how == 2) { TPt<G> n = G::New(); MMod junk; for (int k = r.below(12); k > 0; --k) { n->AddNode(); junk.nodes[n->GetMxNId() - 1] = 0; if (r.chance(50)) { int x = n->AddEdge(0, 0); MMod::E y; y.a = y.b = y.d = 0; junk.edges[x] = y; } for (int q = 0; q < 3; ++q) MAtt<G, TM<G>::attr>::op(r, *n, junk); } *n = *g; g = n; } else *g = *g; } break;
            case 19: if (r.chance(15)) { g->Clr(); m = MMod(); } break;
            case 20: MDat<G, TM<G>::nd>::op(r, *g, m); break;
            default: for (int k = 0; k < 4; ++k) MAtt<G, TM<G>::attr>::op(r, *g, m); break;
        }
        if (s % every == 0) verifyM(r, *g, m);
    }
    verifyM(r, *g, m); add("histories"); distinct(h);
    if (r.below(2000) == 0) sample(fmt("%s: %d steps, %zu nodes, %zu edges, %zu+%zu dense attributes at the end", tag, steps, m.nodes.size(), m.edges.size(), m.dn.size(), m.de.size()));
}

// ---------------------------------------------------------------- bipartite graphs
struct BMod { map<int, bool> nodes; set<II> edges; };
struct StopEx {};
static bool stopF(char *) { throw StopEx(); }
static void verifyB(Rng &r, TBPGraph &g, BMod &m) {
    int l = 0, rr = 0; for (auto &x : m.nodes) (x.second ? l : rr)++;
    CK(g.GetNodes() == (int) m.nodes.size() && g.GetLNodes() == l && g.GetRNodes() == rr && g.GetEdges() == (int) m.edges.size(), "counts", "%d+%d nodes and %d edges, expected %d+%d and %zu", g.GetLNodes(), g.GetRNodes(), g.GetEdges(), l, rr, m.edges.size());
    CK(g.Empty() == m.nodes.empty() && g.IsOk(false), "isok", "Empty %d, IsOk %d", g.Empty(), g.IsOk(false)); CK(m.nodes.empty() || g.GetMxNId() > m.nodes.rbegin()->first, "mxnid", "GetMxNId");
    for (int x = 0; x < NIDS + 2; ++x) { bool k = m.nodes.count(x); CK(g.IsNode(x) == k && g.IsLNode(x) == (k && m.nodes[x]) && g.IsRNode(x) == (k && !m.nodes[x]), "isnode", "IsNode(%d)", x); }
    vector<int> all, lv, rv, el, er, ea; for (auto &x : m.nodes) { (x.second ? el : er).push_back(x.first); ea.push_back(x.first); }
    for (auto i = g.BegNI(); i < g.EndNI(); i++) { int n = i.GetId(); all.push_back(n); if (all.size() > 60 || !m.nodes.count(n)) break; CK(i.IsLeft() == m.nodes[n] && i.IsRight() == !m.nodes[n], "side", "side of %d", n); vector<int> nb, e; for (int k = 0; k < i.GetDeg(); ++k) { nb.push_back(i.GetNbrNId(k)); CK(i.GetInNId(k) == nb.back() && i.GetOutNId(k) == nb.back(), "nbrs", "neighbours of %d", n); } for (auto &x : m.edges) { if (x.first == n) e.push_back(x.second); if (x.second == n) e.push_back(x.first); } CK(nb == e && i.GetInDeg() == i.GetDeg() && i.GetOutDeg() == i.GetDeg(), "nbrs", "neighbours of %d", n); for (int x = 0; x < NIDS; ++x) { bool b = std::find(e.begin(), e.end(), x) != e.end(); CK(i.IsNbrNId(x) == b && i.IsInNId(x) == b && i.IsOutNId(x) == b, "isnbr", "%d and %d", n, x); } CK(g.GetNI(n).GetId() == n, "getni", "GetNI(%d)", n); }
    for (auto i = g.BegLNI(); i < g.EndLNI(); i++) { lv.push_back(i.GetId()); if (lv.size() > 60) break; } for (auto i = g.BegRNI(); i < g.EndRNI(); i++) { rv.push_back(i.GetId()); if (rv.size() > 60) break; }
    TIntV v; auto sorted = [](vector<int> x) { std::sort(x.begin(), x.end()); return x; }; auto tv = [&]() { vector<int> o; for (int i = 0; i < v.Len(); ++i) o.push_back(v[i]); return sorted(o); };
    CK(sorted(all) == ea && sorted(lv) == el && sorted(rv) == er, "nodeiter", "%zu/%zu/%zu nodes visited, expected %zu/%zu/%zu", all.size(), lv.size(), rv.size(), ea.size(), el.size(), er.size());
    g.GetNIdV(v); CK(tv() == ea, "getnidv", "GetNIdV"); g.GetLNIdV(v); CK(tv() == el, "getnidv", "GetLNIdV"); g.GetRNIdV(v); CK(tv() == er, "getnidv", "GetRNIdV");
    vector<II> es, order; for (auto i = g.BegEI(); i < g.EndEI(); i++) { es.push_back(II(i.GetLNId(), i.GetRNId())); CK(i.GetSrcNId() == es.back().first && i.GetDstNId() == es.back().second, "edgeiter", "ends"); if (es.size() > m.edges.size() + 3) break; } order = es; std::sort(es.begin(), es.end());
    CK(es == vector<II>(m.edges.begin(), m.edges.end()), "edgeiter", "the edge iterator visits %zu edges, expected %zu", es.size(), m.edges.size());
    for (int a : el) for (int b : er) CK(g.IsEdge(a, b) == (bool) m.edges.count(II(a, b)), "isedge", "IsEdge(%d,%d)", a, b);
    if (!order.empty()) { size_t at = r.below(order.size()), k = at; for (auto i = g.GetEI(order[at].first, order[at].second); i < g.EndEI() && k < order.size() + 2; i++, ++k) CK(k < order.size() && II(i.GetSrcNId(), i.GetDstNId()) == order[k], "getei", "iterating from GetEI"); CK(k == order.size(), "getei", "iterating from GetEI ends after %zu of %zu", k, order.size()); }
    if (l) CK(m.nodes.count(g.GetRndLNId()) && m.nodes[g.GetRndLNId()], "rnd", "left"); if (rr) CK(m.nodes.count(g.GetRndRNId()) && !m.nodes[g.GetRndRNId()], "rnd", "right"); if (!m.nodes.empty()) CK(m.nodes.count(g.GetRndNId()) && m.nodes.count(g.GetRndNI().GetId()), "rnd", "node");
}
static void bipCase(Rng &r) {
    gtag = "TBPGraph"; PBPGraph g = TBPGraph::New(); BMod m; int steps = 15 + r.below(60), cur = st().violations; uint64_t h = 5;
    for (int s = 0; s < steps && st().violations == cur; ++s) {
        int op = r.below(12), a = r.below(NIDS), b = r.below(NIDS); h = mix(h, op * 1000 + a * 20 + b);
        switch (op) {
            case 0: case 1: case 2: case 3: { bool left = r.chance(50); int id = r.chance(20) ? -1 : a; if (id == -1 && g->GetMxNId() >= NIDS) break; int nid = id == -1 ? g->GetMxNId() : id;
                if (m.nodes.count(nid) && m.nodes[nid] != left) { bool thrown = false; TOnExeStop::PutOnExeStopF(stopF); try { g->AddNode(id, left); } catch (StopEx &e) { thrown = true; } TOnExeStop::PutOnExeStopF(NULL); CK(thrown, "AddNode", "a node was added to both sides"); break; }
                int got = left && r.chance(50) ? g->AddNode(id) : g->AddNode(id, left); CK(got == nid, "AddNode", "gives %d, expected %d", got, nid); m.nodes[nid] = left; } break;
            case 4: case 5: case 6: case 7: if (m.nodes.count(a) && m.nodes.count(b) && m.nodes[a] && !m.nodes[b]) { bool was = m.edges.count(II(a, b)); int rc = g->AddEdge(a, b); CK(rc == (was ? -2 : -1), "AddEdge", "gives %d", rc); m.edges.insert(II(a, b)); } break;
            case 8: if (m.nodes.count(a)) { g->DelNode(a); m.nodes.erase(a); for (auto it = m.edges.begin(); it != m.edges.end();) if (it->first == a || it->second == a) it = m.edges.erase(it); else ++it; } break;
            case 9: if (!m.edges.empty()) { auto it = m.edges.begin(); std::advance(it, r.below(m.edges.size())); g->DelEdge(it->first, it->second); m.edges.erase(it); } break;
            case 10: g->Defrag(r.chance(30)); break;
            default: { int how = r.below(4); if (how == 0) reload<TBPGraph>(g); else if (how == 1) g = new TBPGraph(*g); else if (how == 2) { PBPGraph n = TBPGraph::New(); n->AddNode(3, true); n->AddNode(77, false); n->AddEdge(3, 77); *n = *g; g = n; } else if (r.chance(10)) { g->Clr(); m = BMod(); } }
        }
        verifyB(r, *g, m);
    }
    add("histories"); distinct(h);
}
