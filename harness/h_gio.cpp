// C22: the text formats of SNAP: what is saved is loaded again, what is described in a file is the graph that is built.
#include "Snap.h"
#undef min
#undef max
#include "common.h"
using namespace vf;
using std::string; using std::vector; using std::map; using std::set; using std::pair; using std::multiset;
typedef pair<int, int> II;
struct StopEx { string what; };
static bool stopF(char *m) { throw StopEx{m ? m : ""}; }
static string gtag, gdir;
static string slurp(const string &f) { string s; vf::slurp(f, s); return s; }
#define CK(cond, key, ...) VF_CHECK(cond, gtag + ":" + key, __VA_ARGS__)

static vector<int> genIds(Rng &r, int n, bool big) { // the attributes of a network take memory for every id up to the largest
    set<int> s; int mode = r.below(big ? 4 : 3);
    while ((int) s.size() < n) s.insert(mode == 0 ? (int) s.size() : mode == 1 ? r.range(0, 40 + 2 * n) : mode == 2 ? (int) s.size() + 1 : (int) r.below(2147483647));
    vector<int> v(s.begin(), s.end()); r.shuffle(v); return v;
}
template<class P> struct Kind { static const char *name(); static bool dir(), multi(); };
template<> const char *Kind<PUNGraph>::name() { return "undirected"; } template<> bool Kind<PUNGraph>::dir() { return false; } template<> bool Kind<PUNGraph>::multi() { return false; }
template<> const char *Kind<PNGraph>::name() { return "directed"; } template<> bool Kind<PNGraph>::dir() { return true; } template<> bool Kind<PNGraph>::multi() { return false; }
template<> const char *Kind<PNEGraph>::name() { return "multi"; } template<> bool Kind<PNEGraph>::dir() { return true; } template<> bool Kind<PNEGraph>::multi() { return true; }
template<> const char *Kind<PNEANet>::name() { return "network"; } template<> bool Kind<PNEANet>::dir() { return true; } template<> bool Kind<PNEANet>::multi() { return true; }

template<class P> static II key(II e) { if (!Kind<P>::dir() && e.first > e.second) std::swap(e.first, e.second); return e; }
typedef multiset<II> Edges;
template<class P> static Edges norm(const vector<II> &v) { Edges m; for (II e : v) { e = key<P>(e); if (!Kind<P>::multi() && m.count(e)) continue; m.insert(e); } return m; }
template<class P> static void content(const P &g, set<int> &ids, Edges &es, bool viaNodes) {
    for (auto n = g->BegNI(); n < g->EndNI(); n++) { ids.insert(n.GetId()); if (viaNodes) for (int i = 0; i < n.GetOutDeg(); ++i) { int o = n.GetOutNId(i); if (!Kind<P>::dir() && o < n.GetId()) continue; es.insert(key<P>(II(n.GetId(), o))); } }
    if (!viaNodes) for (auto e = g->BegEI(); e < g->EndEI(); e++) es.insert(key<P>(II(e.GetSrcNId(), e.GetDstNId())));
}
static string pe(const Edges &e) { string s; for (auto &x : e) { s += fmt(" %d-%d", x.first, x.second); if (s.size() > 400) return s + " ..."; } return s; }
static string ps(const set<int> &e) { string s; for (auto &x : e) { s += fmt(" %d", x); if (s.size() > 300) return s + " ..."; } return s; }
template<class P> static void same(const P &g, const set<int> &ids, const Edges &es, const string &what, const string &doc) {
    for (int v = 0; v < 2; ++v) {
        set<int> gi; Edges ge; content(g, gi, ge, v);
        CK(gi == ids, what + "-nodes", "nodes%s, expected%s; %s", ps(gi).c_str(), ps(ids).c_str(), doc.substr(0, 600).c_str());
        CK(ge == es, what + "-edges", "edges%s, expected%s; %s", pe(ge).c_str(), pe(es).c_str(), doc.substr(0, 600).c_str());
    }
    CK(g->GetNodes() == (int) ids.size() && g->GetEdges() == (int) es.size(), what + "-counts", "%d nodes %d edges, expected %zu %zu", g->GetNodes(), g->GetEdges(), ids.size(), es.size());
}
template<class P> static P build(const vector<int> &ids, const vector<II> &es) { P g = P::TObj::New(); for (int i : ids) g->AddNode(i); for (auto &e : es) g->AddEdge(e.first, e.second); return g; }
static set<int> ends(const Edges &e) { set<int> s; for (auto &x : e) { s.insert(x.first); s.insert(x.second); } return s; }
static vector<string> lines(const string &s) { vector<string> o; string c; for (char ch : s) { if (ch == '\n') { o.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) o.push_back(c); return o; }

// a text around rows of fields: comments, blank lines, extra blanks, line ends
static string fname(const char *n) { return gdir + "/" + n; }
static string eol(Rng &r, int mode) { return mode == 0 ? "\n" : mode == 1 ? "\r\n" : r.chance(0.5) ? "\n" : "\r\n"; }
static string render(Rng &r, const vector<vector<string>> &rows, bool white, char sep, bool decor) {
    string s; int em = r.chance(0.7) ? 0 : 1 + r.below(2); bool loose = white && decor && r.chance(0.6);
    auto ws = [&]() { string x; int n = 1 + r.below(3); while (n--) x += r.chance(0.5) ? ' ' : '\t'; return x; };
    if (r.chance(0.1)) { s += "#" + string(16384 - 3 + r.below(5), 'x') + eol(r, em); } // the next line starts near a buffer boundary
    if (decor && r.chance(0.3)) s += "# a comment 1 2" + eol(r, em);
    for (size_t i = 0; i < rows.size(); ++i) {
        if (decor && r.chance(0.05)) s += r.chance(0.5) ? "#c" + eol(r, em) : "#" + eol(r, em);
        if (decor && r.chance(0.05)) s += loose && r.chance(0.3) ? ws() + eol(r, em) : eol(r, em);
        if (loose && r.chance(0.3)) s += ws();
        for (size_t k = 0; k < rows[i].size(); ++k) { if (k) s += loose ? ws() : white ? string(1, r.chance(0.5) ? ' ' : '\t') : string(1, sep); s += rows[i][k]; }
        if (loose && r.chance(0.2)) s += ws();
        if (i + 1 < rows.size() || r.chance(0.8)) s += eol(r, em);
    }
    if (r.chance(0.1) && s.size() && s[s.size() - 1] == '\n') { size_t want = (s.size() / 16384 + 1) * 16384; s += "#" + string(want - s.size() - 2, 'y') + "\n"; } // ends exactly on a boundary
    return s;
}
static string junk(Rng &r) { static const char *j[] = {"x", "-", "1a", "3.5", "12-", "abc", "--1", "0x10", "99999999999", "4294967297"}; return j[r.below(10)]; }

// ---------------------------------------------------------------- edge lists
template<class P> static void edgeList(Rng &r, const vector<int> &ids, const vector<II> &es) {
    P g = build<P>(ids, es); string f = fname("e.txt"); TStr F(f.c_str());
    TSnap::SaveEdgeList(g, F, r.chance(0.5) ? TStr("a description") : TStr());
    Edges m = norm<P>(es); string doc = slurp(f);
    { // independent reading of what was written
        Edges got; for (auto &l : lines(doc)) { if (l[0] == '#') { int a, b; if (sscanf(l.c_str(), "# Nodes: %d Edges: %d", &a, &b) == 2) CK(a == (int) ids.size() && b == (int) m.size(), "SaveEdgeList-header", "%s", l.c_str()); continue; } int a, b, n = 0; CK(sscanf(l.c_str(), "%d\t%d%n", &a, &b, &n) == 2 && n == (int) l.size(), "SaveEdgeList-line", "line %s", l.c_str()); got.insert(key<P>(II(a, b))); }
        CK(got == m, "SaveEdgeList", "wrote%s, expected%s", pe(got).c_str(), pe(m).c_str());
    }
    same(TSnap::LoadEdgeList<P>(F, 0, 1), ends(m), m, "SaveEdgeList/LoadEdgeList", doc);
    same(TSnap::LoadEdgeList<P>(F, 0, 1, '\t'), ends(m), m, "SaveEdgeList/LoadEdgeList-tab", doc);
    add("edge lists saved"); add("edges", m.size());
    // a file of our own
    int nc = 2 + r.below(3), sc = r.below(nc), dc = r.below(nc); if (dc == sc) dc = (dc + 1) % nc;
    bool white = r.chance(0.6); char sep = white ? ' ' : ",;|\t :"[r.below(6)];
    vector<vector<string>> rows; vector<II> exp;
    for (auto &e : es) {
        vector<string> row(nc); for (int k = 0; k < nc; ++k) row[k] = r.chance(0.3) ? junk(r) : fmt("%d", (int) r.below(1000));
        row[sc] = fmt("%d", e.first); row[dc] = fmt("%d", e.second); bool ok = true;
        if (r.chance(0.1)) { row[r.chance(0.5) ? sc : dc] = junk(r); ok = false; }
        else if (r.chance(0.05)) { row.resize(std::max(sc, dc)); ok = false; if (row.empty()) continue; }
        if (row[0][0] == '#') continue;
        rows.push_back(row); if (ok) exp.push_back(e);
    }
    doc = render(r, rows, white, sep, true); spew(f, doc); Edges em = norm<P>(exp);
    same(white ? TSnap::LoadEdgeList<P>(F, sc, dc) : TSnap::LoadEdgeList<P>(F, sc, dc, sep), ends(em), em, white ? "LoadEdgeList" : "LoadEdgeList-separator", doc);
    add("edge lists read"); distinct(hashStr(doc));
}
static string nameTok(Rng &r, int i) { static const char *pre[] = {"n", "A", "node:", "_", "", "http://x/", "\xc3\xa9"}; return string(pre[i % 7]) + fmt("%d", i * 3); }
template<class P> static void edgeListStr(Rng &r, const vector<int> &ids, const vector<II> &es) {
    map<int, string> nm; int i = 0; for (int x : ids) nm[x] = nameTok(r, i++);
    int nc = 2 + r.below(2), sc = r.below(nc), dc = (sc + 1 + r.below(nc - 1)) % nc;
    vector<vector<string>> rows;
    for (auto &e : es) { vector<string> row(nc, "zz"); row[sc] = nm[e.first]; row[dc] = nm[e.second]; rows.push_back(row); if (r.chance(0.05)) rows.push_back(vector<string>(1, "zz")); }
    string doc = render(r, rows, true, ' ', true), f = fname("s.txt"); spew(f, doc); TStr F(f.c_str());
    if (getenv("DBG")) fprintf(stderr, "[%s]\n", doc.c_str()); TStrHash<TInt> h; P g = TSnap::LoadEdgeListStr<P>(F, sc, dc, h);
    map<string, int> idOf; vector<II> got; for (auto &e : es) for (int k = 0; k < 2; ++k) { string s = nm[k ? e.second : e.first]; int id = h.GetKeyId(s.c_str()); CK(id >= 0, "LoadEdgeListStr-name", "no id for %s; %s", s.c_str(), doc.c_str()); CK(string(h.GetKey(id)) == s, "LoadEdgeListStr-key", "%s", s.c_str()); idOf[s] = id; }
    for (auto &e : es) got.push_back(II(idOf[nm[e.first]], idOf[nm[e.second]]));
    Edges m = norm<P>(got); same(g, ends(m), m, "LoadEdgeListStr", doc); CK(h.Len() == (int) idOf.size(), "LoadEdgeListStr-names", "%d names, expected %zu; %s", h.Len(), idOf.size(), doc.c_str());
    if (r.chance(0.1)) { P g2 = TSnap::LoadEdgeListStr<P>(F, sc, dc); CK(g2->GetNodes() == g->GetNodes() && g2->GetEdges() == g->GetEdges(), "LoadEdgeListStr-nomap", "%d %d", g2->GetNodes(), g2->GetEdges()); }
    add("named edge lists"); distinct(hashStr(doc));
}
template<class P> static void connList(Rng &r, const vector<int> &ids, const vector<II> &es) {
    map<int, vector<int>> adj; vector<int> order = ids; for (auto &e : es) adj[e.first].push_back(e.second);
    vector<vector<string>> rows, rowsS; map<int, string> nm; int i = 0; for (int x : ids) nm[x] = nameTok(r, i++);
    r.shuffle(order);
    for (int u : order) { // a node may have several lines
        vector<int> &a = adj[u]; size_t k = 0;
        do { size_t n = r.chance(0.7) ? a.size() - k : r.below(a.size() - k + 1); vector<string> row(1, fmt("%d", u)), rs(1, nm[u]); for (size_t x = k; x < k + n; ++x) { row.push_back(fmt("%d", a[x])); rs.push_back(nm[a[x]]); } k += n; rows.push_back(row); rowsS.push_back(rs); } while (k < a.size());
    }
    string f = fname("c.txt"), doc = render(r, rows, true, ' ', true); spew(f, doc); Edges m = norm<P>(es);
    same(TSnap::LoadConnList<P>(TStr(f.c_str())), set<int>(ids.begin(), ids.end()), m, "LoadConnList", doc);
    doc = render(r, rowsS, true, ' ', true); spew(f, doc); TStrHash<TInt> h; P g = TSnap::LoadConnListStr<P>(TStr(f.c_str()), h);
    map<int, int> idOf; set<int> all; for (auto &x : nm) { CK(h.IsKey(x.second.c_str()), "LoadConnListStr-name", "%s; %s", x.second.c_str(), doc.c_str()); int d = h.GetDat(x.second.c_str()); idOf[x.first] = d; CK(all.insert(d).second, "LoadConnListStr-id", "two names have id %d", d); }
    vector<II> got; for (auto &e : es) got.push_back(II(idOf[e.first], idOf[e.second])); Edges ms = norm<P>(got); same(g, all, ms, "LoadConnListStr", doc);
    add("adjacency lists"); distinct(hashStr(doc));
}
// ---------------------------------------------------------------- Pajek, Matlab, GraphViz
template<class P> static void pajekSave(Rng &r, const P &g, const string &f, TIntStrH &col, TIntStrH &lab, TIntStrH &ecol, int form) { if (form == 0) TSnap::SavePajek(g, TStr(f.c_str())); else if (form == 1) TSnap::SavePajek(g, TStr(f.c_str()), col); else TSnap::SavePajek(g, TStr(f.c_str()), col, lab); (void) r; (void) ecol; }
static void pajekSaveE(const PNEGraph &g, const string &f, TIntStrH &c, TIntStrH &l, TIntStrH &e) { TSnap::SavePajek(g, TStr(f.c_str()), c, l, e); }
static void pajekSaveE(const PNEANet &g, const string &f, TIntStrH &c, TIntStrH &l, TIntStrH &e) { TSnap::SavePajek(g, TStr(f.c_str()), c, l, e); }
static void pajekSaveE(const PUNGraph &, const string &, TIntStrH &, TIntStrH &, TIntStrH &) {}
static void pajekSaveE(const PNGraph &, const string &, TIntStrH &, TIntStrH &, TIntStrH &) {}
template<class E> static string ecolour(const E &e, const TIntStrH &h, std::true_type) { return h.IsKey(e.GetId()) ? h.GetDat(e.GetId()).CStr() : "Black"; }
template<class E> static string ecolour(const E &, const TIntStrH &, std::false_type) { return "Black"; }
template<class P> struct HasE : std::integral_constant<bool, std::is_same<P, PNEGraph>::value || std::is_same<P, PNEANet>::value> {};
template<class P> static void pajek(Rng &r, const vector<int> &ids, const vector<II> &es) {
    P g = build<P>(ids, es); string f = fname("p.net"); TIntStrH col, lab, ecol; int form = r.below(HasE<P>::value ? 4 : 3);
    for (int x : ids) { if (r.chance(0.5)) col.AddDat(x, r.chance(0.5) ? "Blue" : "Green"); if (r.chance(0.5)) lab.AddDat(x, fmt("label %d", x).c_str()); }
    for (int i = 0; i < (int) es.size(); ++i) if (r.chance(0.5)) ecol.AddDat(i, "Yellow");
    if (form == 3) pajekSaveE(g, f, col, lab, ecol); else pajekSave(r, g, f, col, lab, ecol, form);
    string doc = slurp(f); vector<string> L = lines(doc); size_t p = 0; map<int, int> pos; int k = 0; // node id -> number in the file
    CK(L.size() >= 2 + ids.size() && L[p++] == fmt("*Vertices %zu", ids.size()), "SavePajek-head", "%s", doc.c_str());
    for (auto n = g->BegNI(); n < g->EndNI(); n++) {
        int id = n.GetId(); pos[id] = ++k; string c = form >= 1 && col.IsKey(id) ? col.GetDat(id).CStr() : "Red", l = form >= 2 && lab.IsKey(id) ? lab.GetDat(id).CStr() : fmt("%d", id);
        string want = fmt("%d  \"%s\" ic %s fos 10", k, l.c_str(), c.c_str()); CK(L[p] == want, "SavePajek-node", "got %s expected %s", L[p].c_str(), want.c_str()); p++;
    }
    Edges m = norm<P>(es), mm; multiset<string> we, ge; CK(L[p++] == fmt("*%s %zu", Kind<P>::dir() ? "Arcs" : "Edges", m.size()), "SavePajek-edges", "%s", L[p - 1].c_str());
    for (auto e = g->BegEI(); e < g->EndEI(); e++) we.insert(fmt("%d %d 1 c %s", pos[e.GetSrcNId()], pos[e.GetDstNId()], form == 3 ? ecolour(e, ecol, HasE<P>()).c_str() : "Black"));
    for (; p < L.size(); ++p) ge.insert(L[p]);
    CK(we == ge, "SavePajek-edge", "%s", doc.substr(0, 800).c_str());
    set<int> nn; for (auto &x : pos) nn.insert(x.second); for (auto &x : m) mm.insert(key<P>(II(pos[x.first], pos[x.second])));
    // labels with blanks are fine for the reader: it looks at the first column only
    same(TSnap::LoadPajek<P>(TStr(f.c_str())), nn, mm, "SavePajek/LoadPajek", doc);
    // a file of our own, in both formats
    bool list = r.chance(0.5); string s; if (r.chance(0.3)) s += "*Network test\n"; s += (r.chance(0.5) ? "*Vertices " : "*vertices ") + fmt("%zu\n", ids.size()); vector<int> o = ids; 
    for (int x : o) { if (r.chance(0.1)) s += "% comment\n"; s += fmt(r.chance(0.5) ? "%d \"v\"\n" : "  %d   \"v\" 0.5 0.5\n", x); }
    if (list) { s += Kind<P>::dir() ? "*Arcslist\n" : "*Edgeslist\n"; map<int, vector<int>> adj; for (auto &e : es) adj[e.first].push_back(e.second); for (auto &a : adj) { if (r.chance(0.1)) s += "% comment\n"; s += fmt("%d", a.first); for (int x : a.second) s += fmt(r.chance(0.8) ? " %d" : "  %d", x); s += "\n"; } }
    else { s += Kind<P>::dir() ? "*Arcs\n" : "*Edges\n"; for (auto &e : es) { if (r.chance(0.1)) s += "% comment\n"; s += fmt(r.chance(0.5) ? "%d %d 1\n" : " %d  %d 0.25 c Red\n", e.first, e.second); } }
    if (r.chance(0.2)) s += "*Partition x\n1\n1\n";
    spew(f, s); same(TSnap::LoadPajek<P>(TStr(f.c_str())), set<int>(ids.begin(), ids.end()), m, list ? "LoadPajek-list" : "LoadPajek", s);
    add("pajek files", 2); distinct(hashStr(s));
}
template<class P> static void matlab(Rng &, const vector<int> &ids, const vector<II> &es) {
    P g = build<P>(ids, es); string f = fname("m.txt"); TSnap::SaveMatlabSparseMtx(g, TStr(f.c_str()));
    map<int, int> pos; int k = 0; for (auto n = g->BegNI(); n < g->EndNI(); n++) pos[n.GetId()] = ++k;
    Edges m = norm<P>(es), want, got; for (auto &e : m) { want.insert(II(pos[e.first], pos[e.second])); if (!Kind<P>::dir() && e.first != e.second) want.insert(II(pos[e.second], pos[e.first])); }
    for (auto &l : lines(slurp(f))) { int a, b, v, n = 0; CK(sscanf(l.c_str(), "%d\t%d\t%d%n", &a, &b, &v, &n) == 3 && v == 1 && n == (int) l.size(), "SaveMatlabSparseMtx-line", "%s", l.c_str()); got.insert(II(a, b)); }
    CK(got == want, "SaveMatlabSparseMtx", "entries%s, expected%s", pe(got).c_str(), pe(want).c_str()); add("matrices");
}
template<class P> static void gviz(Rng &r, const vector<int> &ids, const vector<II> &es) {
    P g = build<P>(ids, es); string f = fname("g.dot"); TIntStrH col, lab; for (int x : ids) { if (r.chance(0.4)) col.AddDat(x, r.chance(0.5) ? "red" : "blue"); lab.AddDat(x, fmt("L%d x", x).c_str()); }
    bool byLabel = r.chance(0.4), desc = r.chance(0.5), nl = r.chance(0.5); TStr D = desc ? TStr("the title") : TStr();
    if (byLabel) TSnap::SaveGViz(g, TStr(f.c_str()), D, lab); else TSnap::SaveGViz(g, TStr(f.c_str()), D, nl, col);
    string doc = slurp(f); Edges want = norm<P>(es), got; set<int> nodes; string arrow = Kind<P>::dir() ? "->" : "--"; bool head = false, tail = false;
    for (auto &l : lines(doc)) {
        int a, b, n = 0; char x[64];
        if (l == (Kind<P>::dir() ? "digraph G {" : "graph G {")) { head = true; continue; }
        if (!head) continue;
        if (l.size() && l[l.size() - 1] == '}') { tail = true; continue; }
        if (sscanf(l.c_str(), " %d -%1[->] %d;%n", &a, x, &b, &n) == 3 && n) { CK(string("-") + x == arrow, "SaveGViz-arrow", "%s", l.c_str()); got.insert(key<P>(II(a, b))); continue; }
        if (sscanf(l.c_str(), " %d [style=filled, fillcolor=\"%60[a-z]\"];", &a, x) == 2) { nodes.insert(a); CK(!byLabel && col.IsKey(a) && string(col.GetDat(a).CStr()) == x, "SaveGViz-colour", "%s", l.c_str()); continue; }
        if (byLabel && sscanf(l.c_str(), " %d [label=\"%60[^\"]\"];", &a, x) == 2) { nodes.insert(a); CK(string(lab.GetDat(a).CStr()) == x, "SaveGViz-label", "%s", l.c_str()); continue; }
        if (sscanf(l.c_str(), " %d %1[;]", &a, x) == 2) { nodes.insert(a); continue; }
        string t = l; while (t.size() && t[0] == ' ') t.erase(0, 1);
        CK(t.empty() || t.compare(0, 5, "graph") == 0 || t.compare(0, 4, "node") == 0 || t.compare(0, 5, "label") == 0, "SaveGViz-line", "unexpected line %s", l.c_str());
    }
    CK(head && tail, "SaveGViz-frame", "%s", doc.c_str()); CK(nodes == set<int>(ids.begin(), ids.end()), "SaveGViz-nodes", "%s", doc.substr(0, 800).c_str()); CK(got == want, "SaveGViz-edges", "edges%s, expected%s", pe(got).c_str(), pe(want).c_str()); add("dot files");
}
// ---------------------------------------------------------------- networks with attributes
static string attrStr(Rng &r) { string s; int n = 1 + r.below(12); static const char cs[] = "abcXYZ 01.,;:-#\"'<>&/\xc3\xa9"; while (n--) s += cs[r.below(sizeof(cs) - 1)]; return s == "__null__" ? string("x") : s; }
static int attrInt(Rng &r) { switch (r.below(4)) { case 0: return (int) r.below(20) - 10; case 1: return 2147483647; case 2: return -2147483647; default: return (int) (uint32_t) r.next() | 1; } }
static double attrFlt(Rng &r) { switch (r.below(3)) { case 0: return (double) ((int) r.below(2000) - 1000); case 1: return ((int) r.below(2000000) - 1000000) / 64.0; default: return r.below(100) / 2.0 - 25; } }
static void net(Rng &r, const vector<int> &ids, const vector<II> &es) {
    PNEANet g = TNEANet::New(); for (int i : ids) g->AddNode(i); vector<int> eid; for (auto &e : es) eid.push_back(g->AddEdge(e.first, e.second));
    struct A { string n; int t; map<int, string> v; }; vector<A> na, ea;
    auto mk = [&](bool node) {
        int n = r.below(5); for (int i = 0; i < n; ++i) { A a; a.n = fmt("%s%d%s", node ? "na" : "ea", i, r.chance(0.2) ? " b" : ""); a.t = r.below(3); TStr N(a.n.c_str()); auto &keys = node ? ids : eid;
            if (node) { if (a.t == 0) g->AddIntAttrN(N); else if (a.t == 1) g->AddFltAttrN(N); else g->AddStrAttrN(N); } else { if (a.t == 0) g->AddIntAttrE(N); else if (a.t == 1) g->AddFltAttrE(N); else g->AddStrAttrE(N); }
            for (int k : keys) if (r.chance(0.7)) {
                if (a.t == 0) { int x = attrInt(r); if (node) g->AddIntAttrDatN(k, x, N); else g->AddIntAttrDatE(k, x, N); a.v[k] = fmt("%d", x); }
                else if (a.t == 1) { double x = attrFlt(r); if (node) g->AddFltAttrDatN(k, x, N); else g->AddFltAttrDatE(k, x, N); a.v[k] = fmt("%.9g", x); }
                else { string x = attrStr(r); if (node) g->AddStrAttrDatN(k, TStr(x.c_str()), N); else g->AddStrAttrDatE(k, TStr(x.c_str()), N); a.v[k] = x; } }
            (node ? na : ea).push_back(a); } };
    mk(true); mk(false);
    // remove some edges, so that edge ids have gaps
    vector<II> left; vector<int> lid; for (size_t i = 0; i < es.size(); ++i) if (r.chance(0.1)) g->DelEdge(eid[i]); else { left.push_back(es[i]); lid.push_back(eid[i]); }
    string f = fname("n.txt"); TSnap::SaveEdgeListNet(g, TStr(f.c_str()), r.chance(0.5) ? TStr("some network") : TStr()); string doc = slurp(f);
    vector<int> ord; for (auto e = g->BegEI(); e < g->EndEI(); e++) ord.push_back(e.GetId());
    PNEANet h = TSnap::LoadEdgeListNet(TStr(f.c_str()), '\t'); Edges m = norm<PNEANet>(left);
    same(h, set<int>(ids.begin(), ids.end()), m, "SaveEdgeListNet/LoadEdgeListNet", doc); if (h->GetEdges() != (int) left.size()) return;
    vector<int> ho; for (auto e = h->BegEI(); e < h->EndEI(); e++) ho.push_back(e.GetId());
    TStrV in, fn, sn, ie, fe, se; h->GetAttrNNames(in, fn, sn); h->GetAttrENames(ie, fe, se);
    auto chk = [&](bool node, const A &a, int k, int hk) {
        TStr N(a.n.c_str()); auto it = a.v.find(k); bool del; string got; const TStrV &names = node ? (a.t == 0 ? in : a.t == 1 ? fn : sn) : (a.t == 0 ? ie : a.t == 1 ? fe : se);
        if (!names.IsIn(N)) { CK(it == a.v.end(), "network-attribute", "attribute %s is lost", a.n.c_str()); return; }
        if (a.t == 0) { del = node ? h->IsIntAttrDeletedN(hk, N) : h->IsIntAttrDeletedE(hk, N); got = del ? "" : fmt("%d", node ? h->GetIntAttrDatN(hk, N).Val : h->GetIntAttrDatE(hk, N).Val); }
        else if (a.t == 1) { del = node ? h->IsFltAttrDeletedN(hk, N) : h->IsFltAttrDeletedE(hk, N); got = del ? "" : fmt("%.9g", node ? h->GetFltAttrDatN(hk, N).Val : h->GetFltAttrDatE(hk, N).Val); }
        else { del = node ? h->IsStrAttrDeletedN(hk, N) : h->IsStrAttrDeletedE(hk, N); got = del ? "" : string(node ? h->GetStrAttrDatN(hk, N).CStr() : h->GetStrAttrDatE(hk, N).CStr()); }
        CK(del == (it == a.v.end()) && (del || got == it->second), string("network-value-") + (node ? "node" : "edge") + fmt("%d", a.t), "%s of %d: %s, expected %s; %s", a.n.c_str(), k, del ? "(none)" : got.c_str(), it == a.v.end() ? "(none)" : it->second.c_str(), doc.substr(0, 900).c_str()); add("attribute values"); };
    for (auto &a : na) for (int k : ids) chk(true, a, k, k);
    for (auto &a : ea) for (size_t i = 0; i < ord.size() && i < ho.size(); ++i) chk(false, a, ord[i], ho[i]);
    { // edges come back in the order of the file
        size_t i = 0; for (auto e = h->BegEI(); e < h->EndEI(); e++, i++) { auto o = g->GetEI(ord[i]); CK(o.GetSrcNId() == e.GetSrcNId() && o.GetDstNId() == e.GetDstNId(), "network-order", "edge %zu", i); } }
    add("networks"); distinct(hashStr(doc));
}
// ---------------------------------------------------------------- DyNetML
static string xmlEsc(const string &s) { string o; for (char c : s) { if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '&') o += "&amp;"; else if (c == '"') o += "&quot;"; else o += c; } return o; }
static void dynet(Rng &r, const vector<int> &ids, const vector<II> &es) {
    map<int, string> nm; int i = 0; for (int x : ids) nm[x] = fmt("%s%d", i % 3 == 0 ? "agent " : i % 3 == 1 ? "A&B<" : "n", i), ++i;
    int nn = 1 + r.below(3); string s = "<?xml version=\"1.0\"?>\n<DynamicNetwork>\n<MetaNetwork id=\"m\">\n"; vector<vector<II>> nets;
    map<string, int> id; auto idOf = [&](const string &x) { auto it = id.find(x); if (it != id.end()) return it->second; int k = id.size(); id[x] = k; return k; };
    for (int n = 0; n < nn; ++n) { vector<II> e; s += fmt("<network id=\"%d\" isDirected=\"true\">\n", n); for (auto &x : es) if (r.below(nn) == 0 || nn == 1) { s += fmt("  <link source=\"%s\" target=\"%s\" type=\"double\" value=\"1\"/>\n", xmlEsc(nm[x.first]).c_str(), xmlEsc(nm[x.second]).c_str()); int a = idOf(nm[x.first]), b = idOf(nm[x.second]); e.push_back(II(a, b)); } s += "</network>\n"; nets.push_back(e); }
    s += "</MetaNetwork>\n</DynamicNetwork>\n"; string f = fname("d.xml"); spew(f, s);
    TVec<PNGraph> v = TSnap::LoadDyNetGraphV(TStr(f.c_str())); CK(v.Len() == nn, "LoadDyNetGraphV", "%d networks, expected %d; %s", v.Len(), nn, s.c_str());
    for (int n = 0; n < nn; ++n) { Edges m = norm<PNGraph>(nets[n]); same(v[n], ends(m), m, "LoadDyNetGraphV", s); }
    PNGraph g = TSnap::LoadDyNet(TStr(f.c_str())); Edges m = norm<PNGraph>(nets[0]); same(g, ends(m), m, "LoadDyNet", s); add("dynetml files");
}
// ---------------------------------------------------------------- the parser of separated files itself
static void fields(Rng &r) {
    static const TSsFmt F[] = {ssfTabSep, ssfCommaSep, ssfSemicolonSep, ssfVBar, ssfSpaceSep}; static const char S[] = "\t,;| "; int k = r.below(5); bool lead = r.chance(0.5), cmt = r.chance(0.7), skip = r.chance(0.5), bySep = r.chance(0.4); char sep = S[k];
    if (k == 0 || k == 4) lead = false; vector<vector<string>> rows; string s; int n = 1 + r.below(30); string nl = r.chance(0.7) ? "\n" : "\r\n";
    if (r.chance(0.3)) { s += "#" + string(16384 * (1 + r.below(2)) - 40 + r.below(50), 'z') + nl; if (!cmt) rows.push_back(vector<string>(1, s.substr(0, s.size() - nl.size()))); }
    for (int i = 0; i < n; ++i) {
        string l; int m = r.below(6); for (int j = 0; j < m; ++j) { if (j) l += sep; switch (r.below(8)) { case 0: break; case 1: l += fmt("%d", (int) r.next() >> r.below(31)); break; case 2: l += fmt("%.6g", (r.real() - 0.5) * 1e6); break; case 3: l += fmt("%.3e", r.real()); break; case 4: l += "-"; break; case 5: l += r.chance(0.5) ? "12x" : "1.5.2"; break; case 6: l += fmt("%llu", (unsigned long long) r.next() >> r.below(60)); break; default: l += "#abc"; } }
        if (lead && r.chance(0.3)) l = "  " + l;
        if (r.chance(0.1)) l = "#" + l;
        if (i + 1 == n && l.empty()) l = "z"; // an empty last line without a line end does not exist
        s += l; if (i + 1 < n || r.chance(0.7)) s += nl;
        if (cmt && !l.empty() && l[0] == '#') continue;
        size_t b = 0; if (lead) while (b < l.size() && l[b] == ' ') ++b;
        vector<string> row; string c; for (size_t x = b; x <= l.size(); ++x) if (x == l.size() || l[x] == sep) { if (!(c.empty() && (skip || x == l.size()))) row.push_back(c); c.clear(); } else c += l[x];
        if (skip && row.empty()) continue;
        rows.push_back(row);
    }
    string f = fname("f.txt"); spew(f, s); TStr FN(f.c_str());
    for (int slow = 0; slow < 2; ++slow) {
        PSsParser p = bySep ? new TSsParser(FN, sep, lead, cmt, skip) : new TSsParser(FN, F[k], lead, cmt, skip); size_t i = 0;
        while (slow ? p->NextSlow() : p->Next()) {
            CK(i < rows.size(), "TSsParser-rows", "more than %zu rows from %s", rows.size(), s.substr(0, 500).c_str()); if (i >= rows.size()) break;
            const vector<string> &w = rows[i]; bool ok = p->Len() == (int) w.size() && p->GetFlds() == (int) w.size(); for (size_t j = 0; ok && j < w.size(); ++j) ok = w[j] == p->GetFld(j) && w[j] == (*p)[j];
            CK(ok, "TSsParser-row", "row %zu has %d fields, expected %zu (%s)", i, p->Len(), w.size(), w.empty() ? "" : w[0].c_str()); if (!ok) break;
            for (size_t j = 0; j <= w.size(); ++j) {
                string x = j < w.size() ? w[j] : ""; char *e; bool in = j < w.size(); size_t q = x.find_first_not_of(" \t"); string t = q == string::npos ? "" : x.substr(q);
                int iv; errno = 0; long long lv = strtoll(t.c_str(), &e, 10); bool isI = in && !t.empty() && t[0] != '+' && !isspace((unsigned char) t[0]) && *e == 0 && e != t.c_str(); bool fits = errno == 0 && lv >= -2147483648LL && lv <= 2147483647LL; isI = isI && fits;
                { bool gi = p->GetInt(j, iv); CK(gi == isI && (!gi || iv == lv), "TSsParser-GetInt", "field '%s'", x.c_str()); if (in) CK(p->IsInt(j) == isI, "TSsParser-IsInt", "field '%s'", x.c_str()); }
                uint64 uv; errno = 0; string ut = !t.empty() && t[0] == '+' ? t.substr(1) : t; bool isU = in && !ut.empty() && ut.find_first_not_of("0123456789") == string::npos; unsigned long long ul = strtoull(ut.c_str(), &e, 10); if (!isU || errno == 0) { bool gu = p->GetUInt64(j, uv); CK(gu == isU && (!gu || uv == ul), "TSsParser-GetUInt64", "field '%s'", x.c_str()); }
                double fv; double dv = strtod(t.c_str(), &e); bool isF = in && !t.empty() && (isdigit((unsigned char) t[0]) || strchr("+-.", t[0])) && e != t.c_str() && *e == 0 && t.find_first_of("xXnN") == string::npos; bool gf = p->GetFlt(j, fv); CK(gf == isF || t == "." , "TSsParser-GetFlt", "field '%s'", x.c_str()); if (gf && isF) CK(fv == dv, "TSsParser-GetFlt-value", "field '%s' %g", x.c_str(), fv); if (in) CK(p->IsFlt(j) == gf, "TSsParser-IsFlt", "field '%s'", x.c_str());
            }
            ++i;
        }
        CK(i == rows.size(), "TSsParser-rows", "%zu rows, expected %zu; %s", i, rows.size(), s.substr(0, 500).c_str()); add("separated rows", i);
    }
    distinct(hashStr(s));
}
template<class P> static void all(Rng &r, const vector<int> &ids, const vector<II> &es) {
    gtag = Kind<P>::name(); edgeList<P>(r, ids, es); edgeListStr<P>(r, ids, es); connList<P>(r, ids, es); pajek<P>(r, ids, es); matlab<P>(r, ids, es); gviz<P>(r, ids, es);
}
static void one(Rng &r, uint64_t) {
    TOnExeStop::PutOnExeStopF(stopF); if (gdir.empty()) gdir = freshDir("gio");
    int n = 1 + r.below(r.chance(0.1) ? 400 : 10); int kind = r.below(4); vector<int> ids = genIds(r, n, kind < 3); vector<II> es; int m = r.below(r.chance(0.1) ? 4 * n : 2 * n + 1); bool self = r.chance(0.4), dup = r.chance(0.5);
    set<II> seen; for (int i = 0; i < m; ++i) { II e(r.pick(ids), r.pick(ids)); if (!self && e.first == e.second) continue; if (!dup && !seen.insert(e).second) continue; es.push_back(e); }
    try {
        switch (kind) { case 0: all<PUNGraph>(r, ids, es); break; case 1: all<PNGraph>(r, ids, es); break; case 2: all<PNEGraph>(r, ids, es); break; default: all<PNEANet>(r, ids, es); net(r, ids, es); }
        gtag = "dynet"; dynet(r, ids, es); gtag = "parser"; fields(r);
    } catch (StopEx &e) { CK(false, "stop", "an assertion of SNAP failed: %s", e.what.c_str()); }
    if (es.size() < 8) { string s; for (auto &e : es) s += fmt(" %d-%d", e.first, e.second); sample(fmt("%zu nodes, edges%s", ids.size(), s.c_str())); }
}
int main(int argc, char **argv) { return run(argc, argv, one); }
