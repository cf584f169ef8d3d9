// C20: the graph and network classes of SNAP against plain reference graphs, over random histories.
#include "Snap.h"
#undef min
#undef max
#include "common.h"
using namespace vf;
using std::string; using std::vector; using std::map; using std::set; using std::pair;
typedef pair<int, int> II;

static const int NIDS = 14;
static string gtag;
#define CK(cond, key, ...) VF_CHECK(cond, gtag + ":" + key, __VA_ARGS__)

template<class G> static void reload(TPt<G> &g) {
    TMOut o; g->Save(o);
    PSIn p = o.GetSIn(); TSIn &in = *p;
    g = G::Load(in);
}

// ---------------------------------------------------------------- sparse attributes
struct SModel {
    struct A { int type; int id; };
    map<string, A> attrs;
    map<pair<string, II>, string> vals; // value printed
    void dropKey(II k) { for (auto it = vals.begin(); it != vals.end();) if (it->first.second == k) it = vals.erase(it); else ++it; }
};
struct SNode { // node attributes of G
    template<class G, class A, class V> static int add(G &g, II k, const A &a, const V &v) { return g.AddSAttrDatN(TInt(k.first), a, v); }
    template<class G, class A, class V> static int get(G &g, II k, const A &a, V &v) { return g.GetSAttrDatN(TInt(k.first), a, v); }
    template<class G, class A> static int del(G &g, II k, const A &a) { return g.DelSAttrDatN(TInt(k.first), a); }
    template<class G> static int names(G &g, II k, TAttrType t, TAttrPrV &v) { return g.GetSAttrVN(TInt(k.first), t, v); }
    template<class G, class A> static int ids(G &g, const A &a, vector<II> &o) { TIntV v; int rc = g.GetIdVSAttrN(a, v); for (int i = 0; i < v.Len(); ++i) o.push_back(II(v[i], 0)); return rc; }
    template<class G> static int decl(G &g, const TStr &n, TAttrType t, TInt &id) { return g.AddSAttrN(n, t, id); }
    template<class G> static int nameToId(G &g, const TStr &n, TInt &id, TAttrType &t) { return g.GetSAttrIdN(n, id, t); }
    template<class G> static int idToName(G &g, const TInt &id, TStr &n, TAttrType &t) { return g.GetSAttrNameN(id, n, t); }
};
struct SEdge1 { // edge attributes by edge id
    template<class G, class A, class V> static int add(G &g, II k, const A &a, const V &v) { return g.AddSAttrDatE(TInt(k.first), a, v); }
    template<class G, class A, class V> static int get(G &g, II k, const A &a, V &v) { return g.GetSAttrDatE(TInt(k.first), a, v); }
    template<class G, class A> static int del(G &g, II k, const A &a) { return g.DelSAttrDatE(TInt(k.first), a); }
    template<class G> static int names(G &g, II k, TAttrType t, TAttrPrV &v) { return g.GetSAttrVE(TInt(k.first), t, v); }
    template<class G, class A> static int ids(G &g, const A &a, vector<II> &o) { TIntV v; int rc = g.GetIdVSAttrE(a, v); for (int i = 0; i < v.Len(); ++i) o.push_back(II(v[i], 0)); return rc; }
    template<class G> static int decl(G &g, const TStr &n, TAttrType t, TInt &id) { return g.AddSAttrE(n, t, id); }
    template<class G> static int nameToId(G &g, const TStr &n, TInt &id, TAttrType &t) { return g.GetSAttrIdE(n, id, t); }
    template<class G> static int idToName(G &g, const TInt &id, TStr &n, TAttrType &t) { return g.GetSAttrNameE(id, n, t); }
};
struct SEdge2 { // edge attributes by end points
    template<class G, class A, class V> static int add(G &g, II k, const A &a, const V &v) { return g.AddSAttrDatE(k.first, k.second, a, v); }
    template<class G, class A, class V> static int get(G &g, II k, const A &a, V &v) { return g.GetSAttrDatE(k.first, k.second, a, v); }
    template<class G, class A> static int del(G &g, II k, const A &a) { return g.DelSAttrDatE(k.first, k.second, a); }
    template<class G> static int names(G &g, II k, TAttrType t, TAttrPrV &v) { return g.GetSAttrVE(k.first, k.second, t, v); }
    template<class G, class A> static int ids(G &g, const A &a, vector<II> &o) { TIntPrV v; int rc = g.GetIdVSAttrE(a, v); for (int i = 0; i < v.Len(); ++i) o.push_back(II(v[i].Val1, v[i].Val2)); return rc; }
    template<class G> static int decl(G &g, const TStr &n, TAttrType t, TInt &id) { return g.AddSAttrE(n, t, id); }
    template<class G> static int nameToId(G &g, const TStr &n, TInt &id, TAttrType &t) { return g.GetSAttrIdE(n, id, t); }
    template<class G> static int idToName(G &g, const TInt &id, TStr &n, TAttrType &t) { return g.GetSAttrNameE(id, n, t); }
};
static const char *anames[] = {"alpha", "beta", "", "alpha2", "gamma", "x"};
static string prt(const TInt &v) { return fmt("i%d", v.Val); }
static string prt(const TFlt &v) { return fmt("f%.6g", v.Val); }
static string prt(const TStr &v) { return string("s") + v.CStr(); }
template<class S, class G, class V> static void sAdd(Rng &r, G &g, SModel &m, II key, II canon, bool present, int type, const V &v) {
    string name = anames[r.below(6)]; auto it = m.attrs.find(name); int rc; bool known = it != m.attrs.end();
    if (known && r.chance(40)) rc = S::add(g, key, TInt(it->second.id), v); else rc = S::add(g, key, TStr(name.c_str()), v);
    int exp = !present ? -1 : known && it->second.type != type ? -2 : 0;
    CK(rc == exp, "sattr:add", "AddSAttrDat '%s' of (%d,%d) returned %d, expected %d", name.c_str(), key.first, key.second, rc, exp);
    if (!present) return;
    if (!known) { TInt id; TAttrType t; CK(S::nameToId(g, TStr(name.c_str()), id, t) == 0 && (int) t == type, "sattr:id", "no id for attribute '%s'", name.c_str()); SModel::A a; a.type = type; a.id = id; m.attrs[name] = a; }
    if (exp == 0) m.vals[std::make_pair(name, canon)] = prt(v);
}
template<class S, class G> static void sOp(Rng &r, G &g, SModel &m, II key, II canon, bool present) {
    switch (r.below(8)) {
        case 0: case 1: case 2: { int t = r.below(3); if (t == 0) sAdd<S>(r, g, m, key, canon, present, atInt, TInt((int) r.below(50) - 9)); else if (t == 1) sAdd<S>(r, g, m, key, canon, present, atFlt, TFlt(r.below(50) / 4.0)); else sAdd<S>(r, g, m, key, canon, present, atStr, TStr(fmt("v%d", (int) r.below(9)).c_str())); } break;
        case 3: { string name = anames[r.below(6)]; int rc; auto it = m.attrs.find(name); bool had = m.vals.erase(std::make_pair(name, canon));
            if (it != m.attrs.end() && r.chance(40)) rc = S::del(g, key, TInt(it->second.id)); else rc = S::del(g, key, TStr(name.c_str()));
            CK((rc == 0) == had, "sattr:del", "DelSAttrDat '%s' of (%d,%d) returned %d", name.c_str(), key.first, key.second, rc); } break;
        case 4: { string name = anames[r.below(6)]; TInt id(-5); TAttrType t = r.chance(33) ? atInt : r.chance(50) ? atFlt : atStr; bool had = m.attrs.count(name); int rc = S::decl(g, TStr(name.c_str()), t, id);
            CK((rc == 0) == !had, "sattr:decl", "AddSAttr '%s' returned %d", name.c_str(), rc); if (!had) { SModel::A a; a.type = t; a.id = id; for (auto &x : m.attrs) CK(x.second.id != a.id, "sattr:decl", "the id %d is used twice", a.id); m.attrs[name] = a; } } break;
        default: break;
    }
}
template<class S, class G> static void sVerify(Rng &r, G &g, SModel &m, II key, II canon, bool present) {
    for (const char *n : anames) {
        string name = n; auto it = m.attrs.find(name); TInt id(-7); TAttrType t = atInt; TStr nm;
        int rc = S::nameToId(g, TStr(n), id, t); CK((rc == 0) == (it != m.attrs.end()), "sattr:id", "GetSAttrId('%s') returned %d", n, rc);
        if (rc == 0) { CK(id == it->second.id && (int) t == it->second.type, "sattr:id", "GetSAttrId('%s') gives %d/%d", n, (int) id, (int) t); rc = S::idToName(g, id, nm, t); CK(rc == 0 && name == nm.CStr() && (int) t == it->second.type, "sattr:name", "GetSAttrName(%d) gives '%s'", (int) id, nm.CStr()); }
        TInt vi(-99); TFlt vfl(-99); TStr vs("?"); int type = it == m.attrs.end() ? 0 : it->second.type;
        bool byId = it != m.attrs.end() && r.chance(30);
        int ri = byId ? S::get(g, key, TInt(it->second.id), vi) : S::get(g, key, TStr(n), vi), rf = byId ? S::get(g, key, TInt(it->second.id), vfl) : S::get(g, key, TStr(n), vfl), rs = byId ? S::get(g, key, TInt(it->second.id), vs) : S::get(g, key, TStr(n), vs);
        auto v = m.vals.find(std::make_pair(name, canon)); bool has = present && v != m.vals.end();
        int ei = has && type == atInt ? 0 : present && it != m.attrs.end() && type != atInt ? -2 : -1, ef = has && type == atFlt ? 0 : present && it != m.attrs.end() && type != atFlt ? -2 : -1, es = has && type == atStr ? 0 : present && it != m.attrs.end() && type != atStr ? -2 : -1;
        CK(ri == ei && rf == ef && rs == es, "sattr:get", "GetSAttrDat '%s' of (%d,%d): %d %d %d expected %d %d %d", n, key.first, key.second, ri, rf, rs, ei, ef, es);
        if (has) { string got = type == atInt ? prt(vi) : type == atFlt ? prt(vfl) : prt(vs); CK(got == v->second, "sattr:val", "attribute '%s' of (%d,%d) is %s, expected %s", n, key.first, key.second, got.c_str(), v->second.c_str()); }
    }
    for (int tt = 0; tt < 3; ++tt) { TAttrType t = tt == 0 ? atInt : tt == 1 ? atFlt : atStr; TAttrPrV v; int rc = S::names(g, key, t, v); CK((rc == 0) == present, "sattr:names", "GetSAttrV of (%d,%d) returned %d", key.first, key.second, rc);
        set<string> got, exp; if (rc == 0) { for (int i = 0; i < v.Len(); ++i) { CK((int) v[i].Val2 == (int) t, "sattr:names", "type %d in the list of type %d", (int) v[i].Val2, (int) t); CK(got.insert(v[i].Val1.CStr()).second, "sattr:names", "attribute listed twice"); }
            for (auto &x : m.vals) if (x.first.second == canon && m.attrs[x.first.first].type == t) exp.insert(x.first.first); CK(got == exp, "sattr:names", "(%d,%d) lists %zu attributes of type %d, expected %zu", key.first, key.second, got.size(), (int) t, exp.size()); } }
}
template<class S, class G> static void sIds(Rng &r, G &g, SModel &m) {
    for (const char *n : anames) { vector<II> v; auto it = m.attrs.find(n); if (it != m.attrs.end() && r.chance(30)) S::ids(g, TInt(it->second.id), v); else S::ids(g, TStr(n), v);
        vector<II> e; for (auto &x : m.vals) if (x.first.first == n) e.push_back(x.first.second); std::sort(v.begin(), v.end()); CK(v == e, "sattr:ids", "GetIdVSAttr('%s') lists %zu ids, expected %zu", n, v.size(), e.size()); }
}

// ---------------------------------------------------------------- simple graphs
struct Mod { map<int, int> nodes; map<II, int> edges; int mx; SModel sn, se; Mod() : mx(0) {} };
template<class G> struct Tr { enum { dir = 1, nd = 0, ed = 0, attr = 0, plain = 0, edged = 0 }; };
template<> struct Tr<TUNGraph> { enum { dir = 0, nd = 0, ed = 0, attr = 0, plain = 1, edged = 0 }; };
template<> struct Tr<TNGraph> { enum { dir = 1, nd = 0, ed = 0, attr = 0, plain = 1, edged = 0 }; };
template<> struct Tr<TUndirNet> { enum { dir = 0, nd = 0, ed = 0, attr = 1, plain = 2, edged = 0 }; };
template<> struct Tr<TDirNet> { enum { dir = 1, nd = 0, ed = 0, attr = 1, plain = 2, edged = 0 }; };
typedef TNodeNet<TInt> NNet; typedef TNodeEDatNet<TInt, TInt> NENet;
template<> struct Tr<NNet> { enum { dir = 1, nd = 1, ed = 0, attr = 0, plain = 0, edged = 0 }; };
template<> struct Tr<NENet> { enum { dir = 1, nd = 1, ed = 1, attr = 0, plain = 0, edged = 0 }; };

static II canon(bool dir, int a, int b) { return dir || a <= b ? II(a, b) : II(b, a); }
template<class G> static bool has(Mod &m, int a, int b) { return m.edges.count(canon(Tr<G>::dir, a, b)); }

// operations that only some of the classes have
static int bulkU(TUNGraph &g, int id, const TIntV &a, const TIntV &) { return g.AddNode(id, a); }
static int bulkU(TUndirNet &g, int id, const TIntV &a, const TIntV &) { return g.AddNode(id, a); }
static int bulkU(TNGraph &g, int id, const TIntV &a, const TIntV &b) { return g.AddNode(id, a, b); }
static int bulkU(TDirNet &g, int id, const TIntV &a, const TIntV &b) { return g.AddNode(id, a, b); }
template<class T> static int bulkU(TNodeNet<T> &, int, const TIntV &, const TIntV &) { abort(); }
static int bulkU(NENet &, int, const TIntV &, const TIntV &) { abort(); }
static int poolU(TUNGraph &g, int id, const TVecPool<TInt> &p, int a, int) { return g.AddNode(id, p, a); }
static int poolU(TUndirNet &g, int id, const TVecPool<TInt> &p, int a, int) { return g.AddNode(id, p, a); }
static int poolU(TNGraph &g, int id, const TVecPool<TInt> &p, int a, int b) { return g.AddNode(id, p, a, b); }
static int poolU(TDirNet &g, int id, const TVecPool<TInt> &p, int a, int b) { return g.AddNode(id, p, a, b); }
template<class G, int P> struct PlainOps { static void unchecked(Rng &, G &, Mod &) {} static int edge2(G &g, int a, int b) { return g.AddEdge(a, b); } static bool hasEdge2() { return false; } static void reserve(G &, int, int) {} static bool sorts() { return false; } };
static void resv(TUNGraph &g, int n, int d) { g.ReserveNIdDeg(n, d); }
static void resv(TUndirNet &g, int n, int d) { g.ReserveNIdDeg(n, d); }
static void resv(TNGraph &g, int n, int d) { g.ReserveNIdInDeg(n, d); g.ReserveNIdOutDeg(n, d + 1); }
static void resv(TDirNet &g, int n, int d) { g.ReserveNIdInDeg(n, d); g.ReserveNIdOutDeg(n, d + 1); }
template<class G> struct PlainOps<G, 1> {
    static void unchecked(Rng &r, G &g, Mod &m) {
        for (int k = r.below(4); k > 0; --k) { int id = r.below(NIDS); int rc = g.AddNodeUnchecked(id); CK(rc == id || (m.nodes.count(id) && rc == -1), "AddNodeUnchecked", "returned %d for %d", rc, id); m.nodes[id]; m.mx = std::max(m.mx, id + 1); }
        vector<int> ids; for (auto &x : m.nodes) ids.push_back(x.first);
        for (int k = r.below(12); k > 0 && !ids.empty(); --k) { int a = r.pick(ids), b = r.pick(ids); if (has<G>(m, a, b)) continue; g.AddEdgeUnchecked(a, b); m.edges[canon(Tr<G>::dir, a, b)]; }
        g.SortNodeAdjV();
    }
    static int edge2(G &g, int a, int b) { return g.AddEdge2(a, b); }
    static bool hasEdge2() { return true; }
    static void reserve(G &g, int n, int d) { resv(g, n, d); }
};
template<class G> struct PlainOps<G, 2> {
    static void unchecked(Rng &, G &, Mod &) {}
    static int edge2(G &g, int a, int b) { return g.AddEdge(a, b); } static bool hasEdge2() { return false; }
    static void reserve(G &g, int n, int d) { resv(g, n, d); }
};
template<class G, int ND> struct NDat { static int add(G &g, int id, int &) { return g.AddNode(id); } static void op(Rng &, G &, Mod &) {} static void verify(Rng &, G &, Mod &) {} };
template<class G> struct NDat<G, 1> {
    static int add(G &g, int id, int &d) { if (d % 3 == 0) { d = 0; return g.AddNode(id); } return g.AddNode(id, TInt(d)); }
    static void op(Rng &r, G &g, Mod &m) { if (m.nodes.empty()) return; auto it = m.nodes.begin(); std::advance(it, r.below(m.nodes.size())); it->second = r.below(90);
        int how = r.below(3); if (how == 0) g.SetNDat(it->first, TInt(it->second)); else if (how == 1) g.GetNDat(it->first) = it->second; else { auto ni = g.GetNI(it->first); ni.GetDat() = it->second; } }
    static void verify(Rng &, G &g, Mod &m) { const G &cg = g; for (auto &x : m.nodes) { CK(g.GetNDat(x.first) == x.second && cg.GetNDat(x.first) == x.second && g.GetNI(x.first).GetDat() == x.second && g.GetNI(x.first)() == x.second, "ndat", "data of node %d is %d, expected %d", x.first, (int) g.GetNDat(x.first), x.second); }
        for (auto ei = g.BegEI(); ei < g.EndEI(); ei++) CK(ei.GetSrcNDat() == m.nodes[ei.GetSrcNId()] && ei.GetDstNDat() == m.nodes[ei.GetDstNId()], "ndat", "end point data of edge (%d,%d)", ei.GetSrcNId(), ei.GetDstNId());
        for (auto ni = g.BegNI(); ni < g.EndNI(); ni++) { for (int i = 0; i < ni.GetOutDeg(); ++i) CK(ni.GetOutNDat(i) == m.nodes[ni.GetOutNId(i)], "ndat", "out neighbour data"); for (int i = 0; i < ni.GetInDeg(); ++i) CK(ni.GetInNDat(i) == m.nodes[ni.GetInNId(i)], "ndat", "in neighbour data"); for (int i = 0; i < ni.GetDeg(); ++i) CK(ni.GetNbrNDat(i) == m.nodes[ni.GetNbrNId(i)], "ndat", "neighbour data"); } }
};
template<class G, int ED> struct EDat { static int add(G &g, int a, int b, int &) { return g.AddEdge(a, b); } static void op(Rng &, G &, Mod &) {} static void verify(Rng &, G &, Mod &) {} };
template<class G> struct EDat<G, 1> {
    static int add(G &g, int a, int b, int &d) { if (d % 3 == 0) { d = -1; return g.AddEdge(a, b); } return g.AddEdge(a, b, TInt(d)); }
    static void op(Rng &r, G &g, Mod &m) { if (m.edges.empty()) return; if (r.chance(10)) { int d = r.below(90); g.SetAllEDat(TInt(d)); for (auto &x : m.edges) x.second = d; return; }
        auto it = m.edges.begin(); std::advance(it, r.below(m.edges.size())); it->second = r.below(90); int a = it->first.first, b = it->first.second; int how = r.below(3);
        if (how == 0) g.SetEDat(a, b, TInt(it->second)); else if (how == 1) g.GetEDat(a, b) = it->second; else { auto ei = g.GetEI(a, b); ei() = it->second; } }
    static void verify(Rng &, G &g, Mod &m) { const G &cg = g; for (auto &x : m.edges) { int a = x.first.first, b = x.first.second; TInt d(-77); bool ok = g.GetEDat(a, b, d); CK(ok && d == x.second && g.GetEDat(a, b) == x.second && cg.GetEDat(a, b) == x.second && g.GetEI(a, b).GetDat() == x.second, "edat", "data of edge (%d,%d) is %d, expected %d", a, b, (int) d, x.second); }
        for (auto ei = g.BegEI(); ei < g.EndEI(); ei++) CK(ei() == m.edges[II(ei.GetSrcNId(), ei.GetDstNId())], "edat", "data over the edge iterator");
        for (int a : {0, 3, 5}) for (int b : {1, 3, 7}) if (m.nodes.count(a) && m.nodes.count(b) && !m.edges.count(II(a, b))) { TInt d; CK(!g.GetEDat(a, b, d), "edat", "data for the missing edge (%d,%d)", a, b); }
        for (auto ni = g.BegNI(); ni < g.EndNI(); ni++) { for (int i = 0; i < ni.GetOutDeg(); ++i) CK(ni.GetOutEDat(i) == m.edges[II(ni.GetId(), ni.GetOutNId(i))], "edat", "out edge data"); for (int i = 0; i < ni.GetInDeg(); ++i) CK(ni.GetInEDat(i) == m.edges[II(ni.GetInNId(i), ni.GetId())], "edat", "in edge data"); } }
};
template<class G, int AT> struct Att { static void op(Rng &, G &, Mod &) {} static void verify(Rng &, G &, Mod &) {} };
template<class G> struct Att<G, 1> {
    static void op(Rng &r, G &g, Mod &m) {
        if (r.chance(50)) { int id = r.below(NIDS); sOp<SNode>(r, g, m.sn, II(id, 0), II(id, 0), m.nodes.count(id)); }
        else { int a = r.below(NIDS), b = r.below(NIDS); if (r.chance(70) && !m.edges.empty()) { auto it = m.edges.begin(); std::advance(it, r.below(m.edges.size())); a = it->first.first; b = it->first.second; if (!Tr<G>::dir && r.chance(50)) std::swap(a, b); }
            if (!m.nodes.count(a) || !m.nodes.count(b)) return; sOp<SEdge2>(r, g, m.se, II(a, b), canon(Tr<G>::dir, a, b), has<G>(m, a, b)); }
    }
    static void verify(Rng &r, G &g, Mod &m) {
        int id = r.below(NIDS); sVerify<SNode>(r, g, m.sn, II(id, 0), II(id, 0), m.nodes.count(id));
        for (int k = 0; k < 2; ++k) { int a = r.below(NIDS), b = r.below(NIDS); if (k && !m.edges.empty()) { auto it = m.edges.begin(); std::advance(it, r.below(m.edges.size())); a = it->first.first; b = it->first.second; if (!Tr<G>::dir && r.chance(50)) std::swap(a, b); }
            if (m.nodes.count(a) && m.nodes.count(b)) sVerify<SEdge2>(r, g, m.se, II(a, b), canon(Tr<G>::dir, a, b), has<G>(m, a, b)); }
        sIds<SNode>(r, g, m.sn); sIds<SEdge2>(r, g, m.se);
    }
};
template<class G, int DIR> struct DelE { static void go(Rng &, G &g, Mod &m, int a, int b) { g.DelEdge(a, b); if (m.edges.erase(canon(false, a, b))) m.se.dropKey(canon(false, a, b)); } static bool isE(Rng &, G &g, int a, int b, bool &) { return g.IsEdge(a, b); } };
template<class G> struct DelE<G, 1> {
    static void go(Rng &r, G &g, Mod &m, int a, int b) { bool d = r.chance(60); if (d && r.chance(50)) g.DelEdge(a, b); else g.DelEdge(a, b, d); if (m.edges.erase(II(a, b))) m.se.dropKey(II(a, b)); if (!d && m.edges.erase(II(b, a))) m.se.dropKey(II(b, a)); }
    static bool isE(Rng &r, G &g, int a, int b, bool &both) { both = r.chance(30); return both ? g.IsEdge(a, b, false) : g.IsEdge(a, b); }
};
template<class G> static void neigh(G &g, Mod &m, vector<int> &in, vector<int> &out, int n) {
    for (auto &e : m.edges) { int a = e.first.first, b = e.first.second; if (Tr<G>::dir) { if (a == n) out.push_back(b); if (b == n) in.push_back(a); } else { if (a == n) out.push_back(b); else if (b == n) out.push_back(a); } }
    std::sort(out.begin(), out.end()); if (!Tr<G>::dir) in = out; std::sort(in.begin(), in.end());
}
template<class G> static void checkNode(G &g, Mod &m, typename G::TNodeI ni, int n) {
    vector<int> in, out; neigh(g, m, in, out, n);
    CK(ni.GetId() == n, "node", "iterator at %d, expected %d", ni.GetId(), n);
    CK(ni.GetInDeg() == (int) in.size() && ni.GetOutDeg() == (int) out.size(), "deg", "node %d has degrees %d/%d, expected %zu/%zu", n, ni.GetInDeg(), ni.GetOutDeg(), in.size(), out.size());
    CK(ni.GetDeg() == (int) (Tr<G>::dir ? in.size() + out.size() : out.size()), "deg", "node %d has degree %d", n, ni.GetDeg());
    if (ni.GetInDeg() != (int) in.size() || ni.GetOutDeg() != (int) out.size()) return;
    vector<int> gi, go, gn; for (int i = 0; i < ni.GetInDeg(); ++i) gi.push_back(ni.GetInNId(i)); for (int i = 0; i < ni.GetOutDeg(); ++i) go.push_back(ni.GetOutNId(i)); for (int i = 0; i < ni.GetDeg(); ++i) gn.push_back(ni.GetNbrNId(i));
    CK(gi == in && go == out, "nbrs", "the neighbours of node %d are wrong", n);
    vector<int> en = out; if (Tr<G>::dir) en.insert(en.end(), in.begin(), in.end()); std::sort(en.begin(), en.end()); std::sort(gn.begin(), gn.end()); CK(gn == en, "nbrs", "GetNbrNId of node %d is wrong", n);
    for (int x = 0; x < NIDS; ++x) { bool i = std::binary_search(in.begin(), in.end(), x), o = std::binary_search(out.begin(), out.end(), x); CK(ni.IsInNId(x) == i && ni.IsOutNId(x) == o && ni.IsNbrNId(x) == (i || o), "isnbr", "node %d, candidate %d: %d %d %d", n, x, ni.IsInNId(x), ni.IsOutNId(x), ni.IsNbrNId(x)); }
}
template<class G> static void verifyS(Rng &r, G &g, Mod &m) {
    CK(g.GetNodes() == (int) m.nodes.size(), "nodes", "%d nodes, expected %zu", g.GetNodes(), m.nodes.size());
    CK(g.GetEdges() == (int) m.edges.size(), "edges", "%d edges, expected %zu", g.GetEdges(), m.edges.size());
    CK(g.Empty() == m.nodes.empty(), "empty", "Empty() is %d", g.Empty());
    CK(m.nodes.empty() || g.GetMxNId() > m.nodes.rbegin()->first, "mxnid", "GetMxNId %d with node %d", g.GetMxNId(), m.nodes.rbegin()->first);
    CK(g.IsOk(false), "isok", "IsOk is false");
    vector<int> seen; for (auto ni = g.BegNI(); ni < g.EndNI(); ni++) { seen.push_back(ni.GetId()); if (seen.size() > m.nodes.size() + 4) break; if (m.nodes.count(ni.GetId())) checkNode(g, m, ni, ni.GetId()); }
    vector<int> order = seen; std::sort(seen.begin(), seen.end()); vector<int> exp; for (auto &x : m.nodes) exp.push_back(x.first); CK(seen == exp, "nodeiter", "the node iterator visits %zu nodes, expected %zu", seen.size(), exp.size());
    TIntV v; g.GetNIdV(v); vector<int> gv; for (int i = 0; i < v.Len(); ++i) gv.push_back(v[i]); CK(gv == order, "getnidv", "GetNIdV differs from the iterator");
    vector<II> es, ex; for (auto ei = g.BegEI(); ei < g.EndEI(); ei++) { int a = ei.GetSrcNId(), b = ei.GetDstNId(); CK(Tr<G>::dir || a <= b, "edgeiter", "edge (%d,%d)", a, b); es.push_back(II(a, b)); if (es.size() > m.edges.size() + 4) break; }
    vector<II> eorder = es; std::sort(es.begin(), es.end()); for (auto &x : m.edges) ex.push_back(x.first); CK(es == ex, "edgeiter", "the edge iterator visits %zu edges, expected %zu", es.size(), ex.size());
    for (int x = 0; x < NIDS + 2; ++x) CK(g.IsNode(x) == (bool) m.nodes.count(x), "isnode", "IsNode(%d)", x);
    for (int k = 0; k < 12; ++k) { int a = r.below(NIDS), b = r.below(NIDS); bool both = false; bool got = DelE<G, Tr<G>::dir>::isE(r, g, a, b, both); bool e = has<G>(m, a, b) || (both && has<G>(m, b, a)); CK(got == e, "isedge", "IsEdge(%d,%d,%d) is %d", a, b, !both, got); }
    if (!m.edges.empty()) { size_t at = r.below(eorder.size()); II e = eorder[at]; if (!Tr<G>::dir && r.chance(50)) std::swap(e.first, e.second); auto ei = g.GetEI(e.first, e.second); size_t k = at; bool ok = true; for (; ei < g.EndEI() && k < eorder.size() + 2; ei++, ++k) if (k >= eorder.size() || II(ei.GetSrcNId(), ei.GetDstNId()) != eorder[k]) { ok = false; break; } CK(ok && k == eorder.size(), "getei", "iterating from GetEI(%d,%d) differs from the iterator (at %zu of %zu)", e.first, e.second, k, eorder.size()); }
    if (!m.nodes.empty()) { int n = g.GetRndNId(); CK(m.nodes.count(n), "rnd", "GetRndNId gives %d", n); auto ni = g.GetRndNI(); CK(m.nodes.count(ni.GetId()), "rnd", "GetRndNI gives %d", ni.GetId()); }
    NDat<G, Tr<G>::nd>::verify(r, g, m); EDat<G, Tr<G>::ed>::verify(r, g, m); Att<G, Tr<G>::attr>::verify(r, g, m);
}
// a whole graph whose adjacency lists live in one pool of vectors
template<class G> static void poolCase(Rng &r) {
    const bool dir = Tr<G>::dir; Mod m; int n = r.below(NIDS); TVecPool<TInt> pool; TPt<G> g = G::New(); vector<int> ids;
    for (int i = 0; i < NIDS; ++i) if ((int) r.below(NIDS) < n) { m.nodes[i] = 0; ids.push_back(i); }
    int p = r.below(60); for (int a : ids) for (int b : ids) if ((dir || a <= b) && r.chance(p)) m.edges[II(a, b)] = 0;
    r.shuffle(ids); bool bulk = r.chance(40);
    for (int x : ids) { vector<int> in, out; neigh(*g, m, in, out, x); r.shuffle(in); r.shuffle(out); TIntV i, o; for (int y : in) i.Add(y); for (int y : out) o.Add(y); int v1 = pool.AddV(i), v2 = dir ? pool.AddV(o) : v1; int got = dir && bulk ? bulkU(*g, x, i, o) : poolU(*g, x, pool, v1, v2); CK(got == x, "AddNodePool", "gives %d, expected %d", got, x); }
    verifyS(r, *g, m); { TPt<G> c = new G(*g); verifyS(r, *c, m); } reload<G>(g); verifyS(r, *g, m); add("pool graphs");
}
template<class G, int P> struct PoolC { static void go(Rng &) {} };
template<class G> struct PoolC<G, 1> { static void go(Rng &r) { poolCase<G>(r); } };
template<class G> struct PoolC<G, 2> { static void go(Rng &r) { poolCase<G>(r); } };
template<class G> static void simpleCase(Rng &r, const char *tag) {
    gtag = tag; const bool dir = Tr<G>::dir;
    if (r.chance(10)) PoolC<G, Tr<G>::plain>::go(r);
    TPt<G> g = r.chance(30) ? TPt<G>(new G((int) r.below(40), (int) r.below(80))) : G::New(); Mod m;
    int steps = 15 + r.below(50), every = 1 + r.below(4); uint64_t h = hashStr(tag);
    int cur = st().violations;
    for (int s = 0; s < steps && st().violations == cur; ++s) {
        int op = r.below(24); int a = r.below(NIDS), b = r.below(NIDS); h = mix(h, op * 1000 + a * 20 + b);
        if (!m.nodes.empty() && r.chance(80)) { auto it = m.nodes.begin(); std::advance(it, r.below(m.nodes.size())); a = it->first; if (r.chance(80)) { it = m.nodes.begin(); std::advance(it, r.below(m.nodes.size())); b = it->first; } }
        if (r.chance(12)) b = a;
        switch (op) {
            case 0: case 1: case 2: case 3: { int id = r.chance(25) ? -1 : (int) r.below(NIDS); if (id >= 0 && m.nodes.count(id)) { if (Tr<G>::plain == 1) break; break; } if (id == -1 && m.mx >= NIDS) break; int d = r.below(90); int got = NDat<G, Tr<G>::nd>::add(*g, id, d); int e = id == -1 ? g->GetMxNId() - 1 : id; CK(got == e && !m.nodes.count(got), "AddNode", "AddNode(%d) gives %d", id, got); m.nodes[got] = Tr<G>::nd ? d : 0; m.mx = std::max(m.mx, got + 1); } break;
            case 4: case 5: if (Tr<G>::plain) { int id = r.chance(25) && m.mx < NIDS ? -1 : (int) r.below(NIDS); if (id >= 0 && m.nodes.count(id)) break; if (id == -1 && m.mx >= NIDS) break; int nid = id == -1 ? g->GetMxNId() : id;
                TIntV in, out; vector<int> mi, mo; for (auto &x : m.nodes) { if (dir) break; if (r.chance(35)) mi.push_back(x.first); } // for directed graphs the links have to be added on the other side too: only whole graphs below bool self = r.chance(15); if (self) { mi.push_back(nid); mo.push_back(nid); }
                if (r.chance(50)) { r.shuffle(mi); r.shuffle(mo); } for (int x : mi) in.Add(x); for (int x : mo) out.Add(x); int got;
                got = bulkU(*g, id, in, out);
                CK(got == nid, "AddNodeV", "gives %d, expected %d", got, nid); m.nodes[nid] = 0; m.mx = std::max(m.mx, nid + 1);
                for (int x : mi) m.edges[canon(dir, x, nid)] = 0; if (dir) for (int x : mo) m.edges[canon(dir, nid, x)] = 0; } break;
            case 6: case 7: case 8: case 9: case 10: case 11: if (m.nodes.count(a) && m.nodes.count(b)) { int d = r.below(90); bool was = has<G>(m, a, b); int rc = EDat<G, Tr<G>::ed>::add(*g, a, b, d); CK(rc == (was ? -2 : -1), "AddEdge", "AddEdge(%d,%d) gives %d", a, b, rc); m.edges[canon(dir, a, b)] = Tr<G>::ed ? (d == -1 ? 0 : d) : 0; } break;
            case 12: if (PlainOps<G, Tr<G>::plain>::hasEdge2()) { a = r.below(NIDS); b = r.below(NIDS); bool was = has<G>(m, a, b); int rc = PlainOps<G, Tr<G>::plain>::edge2(*g, a, b); CK(rc == (was ? -2 : -1), "AddEdge2", "AddEdge2(%d,%d) gives %d", a, b, rc); m.nodes[a]; m.nodes[b]; m.mx = std::max(m.mx, std::max(a, b) + 1); m.edges[canon(dir, a, b)]; } break;
            case 13: PlainOps<G, Tr<G>::plain>::unchecked(r, *g, m); break;
            case 14: if (m.nodes.count(a)) { g->DelNode(a); m.nodes.erase(a); m.sn.dropKey(II(a, 0)); for (auto it = m.edges.begin(); it != m.edges.end();) if (it->first.first == a || it->first.second == a) { m.se.dropKey(it->first); it = m.edges.erase(it); } else ++it; } break;
            case 15: case 16: case 17: if (m.nodes.count(a) && m.nodes.count(b)) { if (r.chance(80) && !m.edges.empty()) { auto it = m.edges.begin(); std::advance(it, r.below(m.edges.size())); a = it->first.first; b = it->first.second; if (r.chance(30)) std::swap(a, b); } DelE<G, Tr<G>::dir>::go(r, *g, m, a, b); } break;
            case 18: g->Defrag(r.chance(30)); break;
            case 19: { int how = r.below(4); if (how == 0) reload<G>(g); else if (how == 1) { TPt<G> n = new G(*g); if (r.chance(50)) { verifyS(r, *n, m); g->Clr(); } g = n; } else if (how == 2) { TPt<G> n = G::New(); n->AddNode(3); n->AddNode(77); n->AddEdge(3, 77); *n = *g; g = n; } else { *g = *g; } } break;
            case 20: if (r.chance(15)) { g->Clr(); m = Mod(); } else if (m.nodes.count(a)) PlainOps<G, Tr<G>::plain>::reserve(*g, a, 0 + r.below(9)); break;
            case 21: NDat<G, Tr<G>::nd>::op(r, *g, m); EDat<G, Tr<G>::ed>::op(r, *g, m); break;
            default: for (int k = 0; k < 4; ++k) Att<G, Tr<G>::attr>::op(r, *g, m); break;
        }
        if (s % every == 0) verifyS(r, *g, m);
    }
    verifyS(r, *g, m); add("histories"); distinct(h);
    if (r.below(2000) == 0) sample(fmt("%s: %d steps, %zu nodes and %zu edges at the end", tag, steps, m.nodes.size(), m.edges.size()));
}
#include "graph_multi.h"
static void one(Rng &r, uint64_t c) {
    switch (c % 12) {
        case 0: simpleCase<TUNGraph>(r, "TUNGraph"); break;
        case 1: simpleCase<TNGraph>(r, "TNGraph"); break;
        case 2: simpleCase<NNet>(r, "TNodeNet"); break;
        case 3: simpleCase<NENet>(r, "TNodeEDatNet"); break;
        case 4: simpleCase<TUndirNet>(r, "TUndirNet"); break;
        case 5: simpleCase<TDirNet>(r, "TDirNet"); break;
        case 6: multiCase<TNEGraph>(r, "TNEGraph"); break;
        case 7: multiCase<NEdgeNet>(r, "TNodeEdgeNet"); break;
        case 8: case 9: case 10: multiCase<TNEANet>(r, "TNEANet"); break;
        default: bipCase(r); break;
    }
}
int main(int argc, char **argv) { return run(argc, argv, one); }
