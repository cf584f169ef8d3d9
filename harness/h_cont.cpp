// C19: the containers and strings of SNAP against the C++ library.
#include "base.h"
#include "priorityqueue.h"
#undef min
#undef max
#include "common.h"
using namespace vf;
using std::string; using std::vector; using std::map; using std::set; using std::pair;

// ---------------------------------------------------------------- values
static vector<string> &words() { static vector<string> w; if (w.empty()) { w.push_back(""); const char *a[] = {"a", "b", "ab", "ba", "Aa", "aaa", "abab", "x y", "zz", "0", "17", "longer string that needs the heap", "\xc3\xa9t\xc3\xa9"}; for (auto p : a) w.push_back(p); for (int i = 0; i < 60; ++i) w.push_back("w" + std::to_string(i * 7919 % 1000)); } return w; }
template<class T> struct V;
template<> struct V<TInt> { typedef int S; static S gen(Rng &r, int range) { if (r.chance(2)) { static const int e[] = {0, -1, 1, INT_MAX, INT_MIN + 1, INT_MIN, -16, -17, 17, 33}; return e[r.below(10)]; } return (int) r.below(range) - range / 4; } static TInt to(S s) { return TInt(s); } static S from(const TInt &v) { return v.Val; } };
template<> struct V<TStr> { typedef string S; static S gen(Rng &r, int range) { return words()[r.below(std::min<size_t>(words().size(), range))]; } static TStr to(const S &s) { return TStr(s.c_str()); } static S from(const TStr &v) { return v.CStr(); } };
template<> struct V<TIntPr> { typedef pair<int, int> S; static S gen(Rng &r, int range) { int a = (int) r.below(range) - 2; return S(a / 3, a % 3); } static TIntPr to(const S &s) { return TIntPr(s.first, s.second); } static S from(const TIntPr &v) { return S(v.Val1, v.Val2); } };
template<> struct V<TFlt> { typedef double S; static S gen(Rng &r, int range) { return ((int) r.below(range) - range / 4) / 4.0; } static TFlt to(S s) { return TFlt(s); } static S from(const TFlt &v) { return v.Val; } };
static string show(int x) { return std::to_string(x); }
static string show(double x) { return std::to_string(x); }
static string show(const string &x) { return "'" + x + "'"; }
static string show(const pair<int, int> &x) { return fmt("(%d,%d)", x.first, x.second); }
template<class S> static string show(const vector<S> &v) { string s = "["; for (size_t i = 0; i < v.size() && i < 40; ++i) { if (i) s += " "; s += show(v[i]); } return s + (v.size() > 40 ? fmt(" ... %zu]", v.size()) : "]"); }
template<class T> static vector<typename V<T>::S> get(const TVec<T> &v) { vector<typename V<T>::S> o; for (int i = 0; i < v.Len(); ++i) o.push_back(V<T>::from(v[i])); return o; }
template<class T> static void put(TVec<T> &v, const vector<typename V<T>::S> &s) { v.Clr(); for (auto &x : s) v.Add(V<T>::to(x)); }

// ---------------------------------------------------------------- vectors
template<class T> static bool same(const TVec<T> &v, const vector<typename V<T>::S> &m, const char *op) {
    if (v.Len() != (int) m.size()) { violation(string("vec:") + op, fmt("%s: length %d, expected %zu", op, (int) v.Len(), m.size())); return false; }
    for (size_t i = 0; i < m.size(); ++i) if (!(V<T>::from(v[i]) == m[i])) { violation(string("vec:") + op, string(op) + ": " + show(get(v)) + " expected " + show(m)); return false; }
    return true;
}
template<class T> static void vecCase(Rng &r) {
    typedef typename V<T>::S S;
    int range = 1 + r.below(r.chance(30) ? 400 : 12), steps = 30 + r.below(60);
    TVec<T> v; vector<S> m;
    if (r.chance(20)) { v = TVec<T>(8, 0); }
    string trace;
    for (int st = 0; st < steps; ++st) {
        int n = m.size(); S x = V<T>::gen(r, range); T tx = V<T>::to(x);
        const char *op = "?";
        switch (r.below(36)) {
            case 0: case 1: case 2: { op = "Add"; int k = 1 + r.below(r.chance(10) ? 70 : 4); for (int i = 0; i < k; ++i) { S y = V<T>::gen(r, range); int at = v.Add(V<T>::to(y)); VF_CHECK(at == (int) m.size(), "vec:Add", "Add returned %d", at); m.push_back(y); } } break;
            case 3: { op = "Ins"; int p = r.below(n + 1); v.Ins(p, tx); m.insert(m.begin() + p, x); } break;
            case 4: if (n) { op = "Del"; int p = r.below(n); v.Del(p); m.erase(m.begin() + p); } break;
            case 5: if (n) { op = "DelRange"; int a = r.below(n), b = a + r.below(n - a); v.Del(a, b); m.erase(m.begin() + a, m.begin() + b + 1); } break;
            case 6: { op = "DelIfIn"; auto it = std::find(m.begin(), m.end(), x); bool was = it != m.end(); if (was) m.erase(it); VF_CHECK(v.DelIfIn(tx) == was, "vec:DelIfIn", "wrong answer"); } break;
            case 7: { op = "DelAll"; v.DelAll(tx); m.erase(std::remove(m.begin(), m.end(), x), m.end()); } break;
            case 8: { op = "AddSorted"; bool asc = r.chance(50); v.Sort(asc); std::sort(m.begin(), m.end()); if (!asc) std::reverse(m.begin(), m.end());
                int mx = r.chance(30) ? 1 + (int) r.below(n + 2) : -1; int at;
                auto lo = asc ? std::lower_bound(m.begin(), m.end(), x) : std::lower_bound(m.begin(), m.end(), x, [](const S &a, const S &b) { return b < a; });
                auto hi = asc ? std::upper_bound(m.begin(), m.end(), x) : std::upper_bound(m.begin(), m.end(), x, [](const S &a, const S &b) { return b < a; });
                int lp = lo - m.begin(), hp = hi - m.begin(); m.insert(hi, x);
                if (r.chance(50)) { at = v.AddSorted(tx, asc, mx); if (mx != -1 && (int) m.size() > mx) m.resize(mx); }
                else at = v.AddBackSorted(tx, asc);
                VF_CHECK(at >= lp && at <= hp, "vec:AddSorted", "inserted at %d, expected %d..%d", at, lp, hp); } break;
            case 9: { op = "AddMerged"; std::sort(m.begin(), m.end()); m.erase(std::unique(m.begin(), m.end()), m.end()); v.Merge(); if (!same(v, m, "Merge")) return;
                TVec<T> o; vector<S> mo; for (int i = r.below(8); i > 0; --i) { S y = V<T>::gen(r, range); o.Add(V<T>::to(y)); mo.push_back(y); }
                if (r.chance(50)) { int got = v.AddMerged(tx); bool was = std::binary_search(m.begin(), m.end(), x); VF_CHECK((got == -1) == was, "vec:AddMerged", "returned %d", got); if (!was) m.insert(std::lower_bound(m.begin(), m.end(), x), x); }
                else { v.AddVMerged(o); for (auto &y : mo) if (!std::binary_search(m.begin(), m.end(), y)) m.insert(std::lower_bound(m.begin(), m.end(), y), y); } } break;
            case 10: { op = "AddUnique"; bool was = std::find(m.begin(), m.end(), x) != m.end(); int got = v.AddUnique(tx); VF_CHECK((got == -1) == was, "vec:AddUnique", "returned %d", got); if (!was) m.push_back(x); } break;
            case 11: { op = "AddV"; TVec<T> o; vector<S> mo; for (int i = r.below(20); i > 0; --i) { S y = V<T>::gen(r, range); o.Add(V<T>::to(y)); mo.push_back(y); } int l = v.AddV(o); m.insert(m.end(), mo.begin(), mo.end()); VF_CHECK(l == (int) m.size(), "vec:AddV", "returned %d", l); } break;
            case 12: { op = "Sort"; bool asc = r.chance(60); v.Sort(asc); std::sort(m.begin(), m.end()); if (!asc) std::reverse(m.begin(), m.end()); VF_CHECK(v.IsSorted(asc), "vec:IsSorted", "a sorted vector is not sorted"); } break;
            case 13: { op = "SortCmp"; bool asc = r.chance(50); v.SortCmp([asc](const T &a, const T &b) { return asc ? a < b : b < a; }); std::sort(m.begin(), m.end()); if (!asc) std::reverse(m.begin(), m.end()); VF_CHECK(v.IsSortedCmp([asc](const T &a, const T &b) { return asc ? a < b : b < a; }), "vec:IsSortedCmp", "a sorted vector is not sorted"); } break;
            case 14: if (n) { op = "BSort/ISort"; int a = r.below(n), b = a + r.below(n - a); bool asc = r.chance(50); int how = r.below(3); if (how == 0) v.BSort(a, b, asc); else if (how == 1) v.ISort(a, b, asc); else v.QSort(a, b, asc); std::sort(m.begin() + a, m.begin() + b + 1); if (!asc) std::reverse(m.begin() + a, m.begin() + b + 1); } break;
            case 15: { op = "Reverse"; if (n && r.chance(50)) { int a = r.below(n), b = a + r.below(n - a); v.Reverse(a, b); std::reverse(m.begin() + a, m.begin() + b + 1); } else { v.Reverse(); std::reverse(m.begin(), m.end()); } } break;
            case 16: { op = "NextPerm"; bool w = std::next_permutation(m.begin(), m.end()), g = v.NextPerm(); VF_CHECK(w == g, "vec:NextPerm", "returned %d for %s", (int) g, show(m).c_str()); } break;
            case 17: { op = "PrevPerm"; bool w = std::prev_permutation(m.begin(), m.end()), g = v.PrevPerm(); VF_CHECK(w == g, "vec:PrevPerm", "returned %d, now %s", (int) g, show(m).c_str()); } break;
            case 18: { op = "Shuffle"; TRnd rnd(1 + r.below(1000)); v.Shuffle(rnd); vector<S> g = get(v); vector<S> a = g, b = m; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VF_CHECK(a == b, "vec:Shuffle", "the shuffled vector has other elements"); m = g; } break;
            case 19: { op = "Trunc"; int k = (int) r.below(n + 3) - 1; v.Trunc(k); if (k != -1 && k < n) m.resize(k); } break;
            case 20: { op = "Pack"; v.Pack(); VF_CHECK(v.Reserved() >= v.Len(), "vec:Pack", "capacity %d", (int) v.Reserved()); } break;
            case 21: { op = "Reserve"; v.Reserve(n + r.below(40)); } break;
            case 22: { op = "Clr"; v.Clr(r.chance(50), r.chance(50) ? -1 : (int) r.below(20)); m.clear(); } break;
            case 23: { op = "MoveFrom"; TVec<T> o; o.Add(tx); o.MoveFrom(v); VF_CHECK(v.Len() == 0, "vec:MoveFrom", "the source keeps %d elements", (int) v.Len()); if (r.chance(50)) v.MoveFrom(o); else { v.Add(tx); v.Swap(o); VF_CHECK(o.Len() == 1 && V<T>::from(o[0]) == x, "vec:Swap", "swap lost an element"); } } break;
            case 24: { op = "CopyUniqueFrom"; TVec<T> o; vector<S> mo; for (int i = 1 + r.below(30); i > 0; --i) { S y = V<T>::gen(r, 3); o.Add(V<T>::to(y)); mo.push_back(y); }
                int off = r.below(mo.size()), sz = r.below(mo.size() - off + 1); v.CopyUniqueFrom(o, off, sz); m.assign(mo.begin() + off, mo.begin() + off + sz); m.erase(std::unique(m.begin(), m.end()), m.end()); } break;
            case 25: { op = "GetSubValV"; if (!n) break; int a = (int) r.below(n + 4) - 2, b = (int) r.below(n + 4) - 2; TVec<T> o; o.Add(tx); v.GetSubValV(a, b, o); int ca = std::min(std::max(a, 0), n - 1), cb = std::min(std::max(b, 0), n - 1); vector<S> w; if (ca <= cb) w.assign(m.begin() + ca, m.begin() + cb + 1); if (!same(o, w, "GetSubValV")) return; } break;
            case 26: { op = "search"; int w = -1; for (int i = 0; i < n && w < 0; ++i) if (m[i] == x) w = i; VF_CHECK(v.SearchForw(tx) == w && v.IsIn(tx) == (w >= 0), "vec:SearchForw", "found at %d, expected %d", (int) v.SearchForw(tx), w);
                int bk = -1; for (int i = 0; i < n; ++i) if (m[i] == x) bk = i; VF_CHECK(v.SearchBack(tx) == bk, "vec:SearchBack", "found at %d, expected %d", (int) v.SearchBack(tx), bk);
                VF_CHECK(v.Count(tx) == (int) std::count(m.begin(), m.end(), x), "vec:Count", "count %d", (int) v.Count(tx));
                int from = r.below(n + 1), w2 = -1; for (int i = from; i < n && w2 < 0; ++i) if (m[i] == x) w2 = i; VF_CHECK(v.SearchForw(tx, from) == w2, "vec:SearchForw", "found at %d from %d, expected %d", (int) v.SearchForw(tx, from), from, w2);
                int mx = n ? std::max_element(m.begin(), m.end()) - m.begin() : -1; VF_CHECK(v.GetMxValN() == mx, "vec:GetMxValN", "maximum at %d, expected %d", (int) v.GetMxValN(), mx); } break;
            case 27: { op = "SearchVForw"; int k = r.below(4); TVec<T> o; vector<S> mo; int at = n ? r.below(n) : 0; for (int i = 0; i < k; ++i) { S y = r.chance(80) && at + i < n ? m[at + i] : V<T>::gen(r, range); o.Add(V<T>::to(y)); mo.push_back(y); } int from = r.below(n + 1);
                auto it = std::search(m.begin() + from, m.end(), mo.begin(), mo.end()); int w = it == m.end() && k ? -1 : (int) (it - m.begin()); VF_CHECK(v.SearchVForw(o, from) == w, "vec:SearchVForw", "found at %d, expected %d: %s in %s from %d", (int) v.SearchVForw(o, from), w, show(mo).c_str(), show(m).c_str(), from); } break;
            case 28: { op = "SearchBin"; v.Sort(); std::sort(m.begin(), m.end()); int lb = std::lower_bound(m.begin(), m.end(), x) - m.begin(); bool in = lb < n && m[lb] == x; int a = -7, b = -7; int g1 = v.SearchBin(tx), g2 = v.SearchBin(tx, a), g3 = v.SearchBinLeft(tx, b);
                VF_CHECK(in ? g1 >= 0 && g1 < n && m[g1] == x : g1 == -1, "vec:SearchBin", "found at %d", g1); VF_CHECK(v.IsInBin(tx) == in, "vec:IsInBin", "wrong");
                VF_CHECK(in ? g2 >= 0 && m[g2] == x && a == g2 : g2 == -1 && a == lb, "vec:SearchBin", "found at %d, to insert at %d, expected %d", g2, a, lb);
                VF_CHECK(in ? g3 >= 0 && m[g3] == x && b == g3 : g3 == -1 && b == lb - 1, "vec:SearchBinLeft", "found at %d, left neighbour %d, expected %d", g3, b, lb - 1); } break;
            case 29: { op = "sets"; v.Merge(); std::sort(m.begin(), m.end()); m.erase(std::unique(m.begin(), m.end()), m.end()); TVec<T> o; set<S> so; for (int i = r.below(25); i > 0; --i) { S y = V<T>::gen(r, range); if (so.insert(y).second) o.Add(V<T>::to(y)); } for (int i = 0; i < (int) m.size(); ++i) if (r.chance(30) && so.insert(m[i]).second) o.Add(V<T>::to(m[i])); o.Sort(); vector<S> mo(so.begin(), so.end()), w; TVec<T> d; d.Add(tx);
                w.clear(); std::set_intersection(m.begin(), m.end(), mo.begin(), mo.end(), std::back_inserter(w)); v.Intrs(o, d); if (!same(d, w, "Intrs")) return; VF_CHECK(v.IntrsLen(o) == (int) w.size(), "vec:IntrsLen", "%d", (int) v.IntrsLen(o));
                w.clear(); std::set_union(m.begin(), m.end(), mo.begin(), mo.end(), std::back_inserter(w)); v.Union(o, d); if (!same(d, w, "Union")) return; VF_CHECK(v.UnionLen(o) == (int) w.size(), "vec:UnionLen", "%d", (int) v.UnionLen(o));
                w.clear(); std::set_difference(m.begin(), m.end(), mo.begin(), mo.end(), std::back_inserter(w)); v.Diff(o, d); if (!same(d, w, "Diff")) return;
                int h = r.below(3); vector<S> nm; if (h == 0) { v.Intrs(o); std::set_intersection(m.begin(), m.end(), mo.begin(), mo.end(), std::back_inserter(nm)); } else if (h == 1) { v.Union(o); std::set_union(m.begin(), m.end(), mo.begin(), mo.end(), std::back_inserter(nm)); } else { v.Diff(o); nm = w; } m = nm; } break;
            case 30: { op = "Save/Load"; TMOut o; v.Save(o); PSIn pin = o.GetSIn(); TSIn &in = *pin; if (r.chance(50)) { TVec<T> l(in); v = l; } else { TVec<T> l; l.Add(tx); l.Load(in); v.Swap(l); } VF_CHECK(in.Eof(), "vec:Load", "bytes left after loading"); } break;
            case 31: { op = "copy"; TVec<T> o(v), p; p.Add(tx); p = o; VF_CHECK(o == v && p == v && !(o < v), "vec:==", "a copy differs"); o.Add(tx); VF_CHECK(!(o == v) && v < o, "vec:==", "a longer vector equals its prefix"); VF_CHECK(p.GetPrimHashCd() == v.GetPrimHashCd() && p.GetSecHashCd() == v.GetSecHashCd(), "vec:hash", "equal vectors hash differently"); v = o; m.push_back(x); } break;
            case 32: { op = "external"; if (!n) break; TVec<T> e; e.GenExt(v.BegI(), n); if (!same(e, m, "GenExt")) return; TVec<T> c(e), d; d = e; c.Add(tx); d.Add(tx); vector<S> w = m; w.push_back(x); if (!same(c, w, "copy of an external vector") || !same(d, w, "assignment of an external vector")) return; } break;
            case 33: { op = "PutAll"; if (!r.chance(30)) break; v.PutAll(tx); std::fill(m.begin(), m.end(), x); } break;
            case 34: if (n) { op = "Swap"; int a = r.below(n), b = r.below(n); v.Swap(a, b); std::swap(m[a], m[b]); VF_CHECK(V<T>::from(v.Last()) == m.back(), "vec:Last", "last element"); } break;
            case 35: { op = "Gen"; int k = r.below(12); v.Gen(k + r.below(5), 0); m.clear(); for (int i = 0; i < k; ++i) { v.Add(tx); m.push_back(x); } } break;
        }
        if (!same(v, m, op)) return;
        VF_CHECK(v.Empty() == m.empty(), "vec:Empty", "Empty() is wrong");
        add(string("vec:") + op);
    }
    distinct(mix(m.size() * 131 + range, steps));
}

// ---------------------------------------------------------------- hash tables
template<class K, class D> static bool hashSame(const THash<K, D> &h, const map<typename V<K>::S, typename V<D>::S> &m, const char *op) {
    typedef typename V<K>::S KS; typedef typename V<D>::S DS;
    string key = string("hash:") + op;
    if (h.Len() != (int) m.size()) { violation(key, fmt("%s: %d keys, expected %zu", op, (int) h.Len(), m.size())); return false; }
    map<KS, DS> g; set<int> ids;
    for (int k = h.FFirstKeyId(); h.FNextKeyId(k); ) {
        g[V<K>::from(h.GetKey(k))] = V<D>::from(h[k]); ids.insert(k);
        if (!h.IsKeyId(k) || h.GetKeyId(h.GetKey(k)) != k) { violation(key, fmt("%s: key %s is at %d, but is found at %d", op, show(V<K>::from(h.GetKey(k))).c_str(), k, (int) h.GetKeyId(h.GetKey(k)))); return false; }
    }
    if (g != m || ids.size() != m.size()) { violation(key, fmt("%s: the table has other contents (%zu keys, expected %zu)", op, g.size(), m.size())); return false; }
    map<KS, DS> g2; int n = 0;
    for (typename THash<K, D>::TIter i = h.BegI(); i < h.EndI(); i++) { g2[V<K>::from(i.GetKey())] = V<D>::from(i.GetDat()); ++n; }
    if (g2 != m || n != (int) m.size()) { violation(key, fmt("%s: iteration sees %d entries, expected %zu", op, n, m.size())); return false; }
    return true;
}
template<class K, class D> static void hashCase(Rng &r) {
    typedef typename V<K>::S KS; typedef typename V<D>::S DS;
    int range = 2 + r.below(r.chance(50) ? 20 : 400), steps = 20 + r.below(80);
    THash<K, D> h; map<KS, DS> m;
    if (r.chance(30)) h = THash<K, D>(r.below(40), r.chance(50));
    map<KS, int> idOf; bool stable = true; (void) stable;
    for (int st = 0; st < steps; ++st) {
        KS x = V<K>::gen(r, range); K k = V<K>::to(x); DS y = V<D>::gen(r, 50); D d = V<D>::to(y);
        const char *op = "?";
        switch (r.below(18)) {
            case 0: case 1: case 2: case 3: { op = "AddDat"; int c = 1 + r.below(r.chance(10) ? 120 : 5); for (int i = 0; i < c; ++i) { KS x2 = V<K>::gen(r, range); DS y2 = V<D>::gen(r, 50); h.AddDat(V<K>::to(x2), V<D>::to(y2)); m[x2] = y2; } } break;
            case 4: { op = "AddKey"; bool had = m.count(x); int id = h.AddKey(k); if (!had) m[x] = V<D>::from(D()); VF_CHECK(h.GetKeyId(k) == id, "hash:AddKey", "key id"); if (!had) VF_CHECK(V<D>::from(h[id]) == V<D>::from(D()), "hash:AddKey", "a new key has data left over from a deleted one"); } break;
            case 5: case 6: { op = "DelIfKey"; int c = 1 + r.below(r.chance(20) ? 40 : 3); for (int i = 0; i < c; ++i) { KS x2 = V<K>::gen(r, range); bool w = m.erase(x2); VF_CHECK(h.DelIfKey(V<K>::to(x2)) == w, "hash:DelIfKey", "wrong answer for %s", show(x2).c_str()); } } break;
            case 7: if (m.size()) { op = "DelKey"; auto it = m.begin(); std::advance(it, r.below(m.size())); if (r.chance(50)) h.DelKey(V<K>::to(it->first)); else h.DelKeyId(h.GetKeyId(V<K>::to(it->first))); m.erase(it); } break;
            case 8: { op = "lookup"; for (int i = 0; i < 6; ++i) { KS x2 = V<K>::gen(r, range); K k2 = V<K>::to(x2); bool w = m.count(x2); int id = -5; D o; VF_CHECK(h.IsKey(k2) == w && h.IsKey(k2, id) == w && (id == -1) == !w, "hash:IsKey", "wrong answer for %s", show(x2).c_str()); VF_CHECK(h.IsKeyGetDat(k2, o) == w && (!w || V<D>::from(o) == m[x2]), "hash:IsKeyGetDat", "wrong data for %s", show(x2).c_str()); VF_CHECK(V<D>::from(h.GetDatWithDefault(k2, d)) == (w ? m[x2] : y), "hash:GetDatWithDefault", "wrong"); if (w) VF_CHECK(V<D>::from(h.GetDat(k2)) == m[x2], "hash:GetDat", "wrong data"); } } break;
            case 9: { op = "Defrag"; h.Defrag(); VF_CHECK(h.IsKeyIdEqKeyN(), "hash:Defrag", "key ids are not contiguous"); } break;
            case 10: { op = "Sort"; h.Defrag(); bool byKey = r.chance(50), asc = r.chance(50); if (byKey) h.SortByKey(asc); else h.SortByDat(asc);
                for (int i = 0; i + 1 < h.Len(); ++i) { bool bad = byKey ? (asc ? V<K>::from(h.GetKey(i + 1)) < V<K>::from(h.GetKey(i)) : V<K>::from(h.GetKey(i)) < V<K>::from(h.GetKey(i + 1))) : (asc ? V<D>::from(h[i + 1]) < V<D>::from(h[i]) : V<D>::from(h[i]) < V<D>::from(h[i + 1])); if (bad) { violation("hash:Sort", fmt("entry %d is out of order", i)); return; } } } break;
            case 11: { op = "Save/Load"; TMOut o; h.Save(o); PSIn pin = o.GetSIn(); TSIn &in = *pin; if (r.chance(50)) { THash<K, D> l(in); h = l; } else { THash<K, D> l; l.AddDat(k, d); l.Load(in); h.Swap(l); } } break;
            case 12: { op = "copy"; THash<K, D> c(h), e; e.AddDat(k, d); e = c; VF_CHECK(c == h && e == h, "hash:==", "a copy differs"); e.AddDat(k, d); if (!hashSame(c, m, "copy")) return; if (!m.count(x)) VF_CHECK(!(e == h), "hash:==", "different tables are equal"); } break;
            case 13: { op = "Clr"; if (!r.chance(40)) break; bool reset = r.chance(70); h.Clr(r.chance(50), r.chance(50) ? -1 : (int) r.below(50), reset); m.clear(); } break;
            case 14: { op = "Gen"; if (!r.chance(30)) break; h.Gen(r.below(60)); m.clear(); } break;
            case 15: { op = "vectors"; TVec<K> kv; TVec<D> dv; kv.Add(k); dv.Add(d); h.GetKeyV(kv); h.GetDatV(dv); VF_CHECK(kv.Len() == (int) m.size() && dv.Len() == (int) m.size(), "hash:GetKeyV", "length"); for (int i = 0; i < kv.Len(); ++i) { auto it = m.find(V<K>::from(kv[i])); if (it == m.end() || !(it->second == V<D>::from(dv[i]))) { violation("hash:GetKeyV", "an entry that is not in the table"); return; } }
                TVec<TPair<K, D> > p; h.GetKeyDatPrV(p); TVec<TPair<D, K> > q; h.GetDatKeyPrV(q); TVec<TKeyDat<K, D> > kd; h.GetKeyDatKdV(kd); VF_CHECK(p.Len() == (int) m.size() && q.Len() == p.Len() && kd.Len() == p.Len(), "hash:GetKeyDatPrV", "length"); for (int i = 0; i < p.Len(); ++i) VF_CHECK(m.count(V<K>::from(p[i].Val1)) && m[V<K>::from(p[i].Val1)] == V<D>::from(p[i].Val2) && V<K>::from(q[i].Val2) == V<K>::from(p[i].Val1) && V<D>::from(kd[i].Dat) == V<D>::from(p[i].Val2), "hash:GetKeyDatPrV", "entry %d", i); } break;
            case 16: { op = "GetRndKeyId"; if (m.empty()) break; TRnd rnd(1 + r.below(1000)); for (int i = 0; i < 5; ++i) { int id = h.GetRndKeyId(rnd); VF_CHECK(h.IsKeyId(id) && m.count(V<K>::from(h.GetKey(id))), "hash:GetRndKeyId", "a random key that is not there"); } int id = h.GetRndKeyId(rnd, 0.2); VF_CHECK(h.IsKeyId(id) && m.count(V<K>::from(h.GetKey(id))), "hash:GetRndKeyId", "a random key that is not there"); } break;
            case 17: { op = "operator()"; bool had = m.count(x); h(k) = d; (void) had; m[x] = y; if (r.chance(30)) h.Pack(); } break;
        }
        if (!hashSame(h, m, op)) return;
        add(string("hash:") + op);
    }
    distinct(mix(m.size() * 131 + range, steps));
}
template<class K> static void setCase(Rng &r) {
    typedef typename V<K>::S KS;
    int range = 2 + r.below(r.chance(50) ? 20 : 400), steps = 20 + r.below(60);
    THashSet<K> h; set<KS> m; if (r.chance(30)) h = THashSet<K>(r.below(40), r.chance(50));
    for (int st = 0; st < steps; ++st) {
        KS x = V<K>::gen(r, range); K k = V<K>::to(x); const char *op = "?";
        switch (r.below(10)) {
            case 0: case 1: case 2: { op = "AddKey"; int c = 1 + r.below(r.chance(10) ? 120 : 5); for (int i = 0; i < c; ++i) { KS x2 = V<K>::gen(r, range); int id = h.AddKey(V<K>::to(x2)); VF_CHECK(V<K>::from(h.GetKey(id)) == x2, "set:AddKey", "another key sits there"); m.insert(x2); } } break;
            case 3: case 4: { op = "DelIfKey"; int c = 1 + r.below(r.chance(20) ? 40 : 3); for (int i = 0; i < c; ++i) { KS x2 = V<K>::gen(r, range); bool w = m.erase(x2); VF_CHECK(h.DelIfKey(V<K>::to(x2)) == w, "set:DelIfKey", "wrong answer"); } } break;
            case 5: { op = "lookup"; for (int i = 0; i < 8; ++i) { KS x2 = V<K>::gen(r, range); VF_CHECK(h.IsKey(V<K>::to(x2)) == (m.count(x2) > 0), "set:IsKey", "wrong answer"); } } break;
            case 6: { op = "Defrag"; h.Defrag(); VF_CHECK(h.IsKeyIdEqKeyN(), "set:Defrag", "key ids are not contiguous"); } break;
            case 7: { op = "Save/Load"; TMOut o; h.Save(o); PSIn pin = o.GetSIn(); TSIn &in = *pin; THashSet<K> l; l.AddKey(k); l.Load(in); h.Swap(l); } break;
            case 8: { op = "copy"; THashSet<K> c(h), e; e = c; VF_CHECK(c == h && e == h, "set:==", "a copy differs"); TVec<K> kv; h.GetKeyV(kv); THashSet<K> f(kv); VF_CHECK(f == h, "set:FromV", "the set of its keys differs"); if (!m.count(x)) { e.AddKey(k); VF_CHECK(!(e == h), "set:==", "different sets are equal"); } } break;
            case 9: { op = "Clr"; if (!r.chance(40)) break; h.Clr(r.chance(50), r.chance(50) ? -1 : (int) r.below(50)); m.clear(); } break;
        }
        set<KS> g; int n = 0; for (typename THashSet<K>::TIter i = h.BegI(); i < h.EndI(); i++) { g.insert(V<K>::from(i.GetKey())); ++n; }
        set<KS> g2; for (int id = h.FFirstKeyId(); h.FNextKeyId(id); ) g2.insert(V<K>::from(h.GetKey(id)));
        if (g != m || g2 != m || n != (int) m.size() || h.Len() != n) { violation(string("set:") + op, fmt("%s: the set has other contents (%d, expected %zu)", op, n, m.size())); return; }
        for (auto &e : m) if (!h.IsKey(V<K>::to(e))) { violation(string("set:") + op, string(op) + ": " + show(e) + " is not found"); return; }
        add(string("set:") + op);
    }
}
template<class POOL> static void strHashCase(Rng &r) {
    typedef TStrHash<TInt, POOL> H; H h; map<string, int> m; int steps = 20 + r.below(40);
    for (int st = 0; st < steps; ++st) {
        const char *op = "?"; string x = words()[r.below(words().size())]; int y = r.below(100);
        switch (r.below(6)) {
            case 0: case 1: case 2: { op = "AddDat"; int c = 1 + r.below(r.chance(10) ? 90 : 4); for (int i = 0; i < c; ++i) { string x2 = r.chance(50) ? words()[r.below(words().size())] : "k" + std::to_string(r.below(300)); h.AddDat(x2.c_str(), y + i); m[x2] = y + i; } } break;
            case 3: { op = "lookup"; TInt d; VF_CHECK(h.IsKey(x.c_str()) == (m.count(x) > 0), "strhash:IsKey", "wrong answer for '%s'", x.c_str()); if (h.IsKeyGetDat(x.c_str(), d)) VF_CHECK(m[x] == d.Val, "strhash:GetDat", "wrong data"); } break;
            case 4: { op = "Save/Load"; TMOut o; h.Save(o); PSIn pin = o.GetSIn(); TSIn &in = *pin; H l; l.Load(in); h = l; } break;
            case 5: { op = "copy"; H c(h); H e; e.AddDat("other", 1); e = c; int id = c.AddDat("only in the copy", 5); (void) id; for (auto &p : m) if (!e.IsKey(p.first.c_str()) || e.GetDat(p.first.c_str()).Val != p.second) { violation("strhash:copy", "a copy lost '" + p.first + "'"); return; } VF_CHECK(!h.IsKey("only in the copy") && !e.IsKey("only in the copy"), "strhash:copy", "a change of the copy is seen in the original"); h = e; } break;
        }
        map<string, int> g; for (int id = h.FFirstKeyId(); h.FNextKeyId(id); ) { g[h.GetKey(id)] = h[id]; VF_CHECK(h.GetKeyId(h.GetKey(id)) == id, "strhash:GetKeyId", "key id"); }
        if (g != m || h.Len() != (int) m.size()) { violation(string("strhash:") + op, fmt("%s: the table has other contents (%zu, expected %zu)", op, g.size(), m.size())); return; }
        add(string("strhash:") + op);
    }
}
static void sparseCase(Rng &r) {
    TSparseHash<TInt, TInt> h; TSparseSet<TStr> s; map<int, int> m; set<string> ms; int range = 2 + r.below(r.chance(50) ? 20 : 600);
    TSparseTable<TInt> t(200); map<int, int> mt;
    for (int st = 0; st < 60; ++st) {
        int x = (int) r.below(range) - range / 3, y = r.below(1000);
        switch (r.below(8)) {
            case 0: case 1: { int c = 1 + r.below(30); for (int i = 0; i < c; ++i) { int k = (int) r.below(range) - range / 3; h.AddDat(k, y + i); m[k] = y + i; } } break;
            case 2: { bool had = m.count(x); TInt &d = h.AddDat(x); if (!had) m[x] = 0; VF_CHECK(d == m[x], "sparse:AddDat", "the data of a new key"); d = y; m[x] = y; } break;
            case 3: { string w = words()[r.below(words().size())]; s.AddKey(w.c_str()); ms.insert(w); } break;
            case 4: { TMOut o; h.Save(o); s.Save(o); PSIn pin = o.GetSIn(); TSIn &in = *pin; TSparseHash<TInt, TInt> l(in); h = l; TSparseSet<TStr> l2(in); s = l2; } break;
            case 5: if (r.chance(20)) { bool d = r.chance(50); h.Clr(d); m.clear(); s.Clr(d); ms.clear(); t.Clr(false); mt.clear(); } else { TSparseHash<TInt, TInt> c(h); VF_CHECK(c == h, "sparse:copy", "a copy differs"); c.AddDat(x, y); TSparseHash<TInt, TInt> e; e.Swap(h); h.Swap(e); } break;
            case 6: { int p = r.below(200); t.Set(p, y); mt[p] = y; p = r.below(200); t.Del(p); mt.erase(p); } break;
            case 7: { if (r.chance(50)) { h.Reserve(r.below(300)); s.Reserve(r.below(200)); } TSparseTable<TInt> c(t); VF_CHECK(c == t, "sparse:table", "a copy differs"); if (mt.size()) { c.Del(mt.begin()->first); VF_CHECK(!(c == t), "sparse:table", "different tables are equal"); } } break;
        }
        for (int i = 0; i < 4; ++i) { int k = (int) r.below(range + 4) - range / 3 - 2; TInt d; VF_CHECK(h.IsKey(k) == (m.count(k) > 0), "sparse:IsKey", "wrong answer for %d", k); if (h.IsKeyGetDat(k, d)) VF_CHECK(m.count(k) && d == m[k], "sparse:GetDat", "wrong data"); string w = words()[r.below(words().size())]; VF_CHECK(s.IsKey(w.c_str()) == (ms.count(w) > 0), "sparse:set", "wrong answer for '%s'", w.c_str()); }
        map<int, int> g; int n = 0; for (TSparseHash<TInt, TInt>::TIter i = h.BegI(); i < h.EndI(); i++) { g[i->Key] = i->Dat; ++n; }
        if (g != m || h.Len() != (int) m.size() || n != h.Len()) { violation("sparse:hash", fmt("other contents: %d entries, expected %zu", n, m.size())); return; }
        TStrV kv; s.GetKeyV(kv); set<string> gs; for (int i = 0; i < kv.Len(); ++i) gs.insert(kv[i].CStr()); if (gs != ms || s.Len() != (int) ms.size()) { violation("sparse:set", fmt("other contents: %zu keys, expected %zu", gs.size(), ms.size())); return; }
        map<int, int> gt; for (TSparseTable<TInt>::TIter i = t.BegI(); i < t.EndI(); i++) gt[i.GetValN()] = *i; bool ok = gt == mt && t.Len() == (int) mt.size(); for (int p = 0; p < 200 && ok; ++p) ok = t.IsEmpty(p) == !mt.count(p) && t.Get(p) == (mt.count(p) ? mt[p] : 0); if (!ok) { violation("sparse:table", fmt("other contents: %zu values, expected %zu", gt.size(), mt.size())); return; }
        add("sparse");
    }
}

// ---------------------------------------------------------------- queue, stack, list, matrix, pools, priority queue, tree
static void queueCase(Rng &r) {
    int mxLast = 1 + r.below(20), mxLen = r.chance(30) ? 1 + (int) r.below(10) : -1; TQQueue<TInt> q(mxLast, mxLen); std::vector<int> m; TSStack<TStr> s; vector<string> ms;
    for (int st = 0; st < 150; ++st) {
        int x = r.below(1000);
        switch (r.below(6)) {
            case 0: case 1: case 2: q.Push(x); if (mxLen != -1 && (int) m.size() == mxLen) m.erase(m.begin()); m.push_back(x); s.Push(words()[x % words().size()].c_str()); ms.push_back(words()[x % words().size()]); break;
            case 3: if (m.size()) { VF_CHECK(q.Top() == m[0], "queue:Top", "%d, expected %d", (int) q.Top(), m[0]); q.Pop(); m.erase(m.begin()); } if (ms.size()) { VF_CHECK(ms.back() == s.Top().CStr(), "stack:Top", "wrong"); s.Pop(); ms.pop_back(); } break;
            case 4: { TQQueue<TInt> c(q), d; d = c; TMOut o; q.Save(o); PSIn pin = o.GetSIn(); TSIn &in = *pin; TQQueue<TInt> l(in); if (r.chance(30)) q = l; else if (r.chance(30)) q = d; int a = r.below(m.size() + 1), b = a + (int) r.below(5) - 1; TIntV sv; q.GetSubValV(a, b, sv); vector<int> w; for (int i = a; i <= b && i < (int) m.size(); ++i) w.push_back(m[i]); if (!same(sv, w, "queue:GetSubValV")) return; TSStack<TStr> t; t = s; s = t; } break;
            case 5: if (r.chance(15)) { q.Clr(r.chance(50)); m.clear(); s.Clr(r.chance(50)); ms.clear(); } else if (r.chance(20)) { TRnd rnd(x + 1); q.Shuffle(rnd); vector<int> g; for (int i = 0; i < q.Len(); ++i) g.push_back(q[i]); vector<int> a = g, b = m; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VF_CHECK(a == b, "queue:Shuffle", "other elements"); m = g; } break;
        }
        if (q.Len() != (int) m.size() || q.Empty() != m.empty()) { violation("queue:Len", fmt("length %d, expected %zu", q.Len(), m.size())); return; }
        for (size_t i = 0; i < m.size(); ++i) if (q[i] != m[i]) { violation("queue:contents", fmt("element %zu is %d, expected %d", i, (int) q[i], m[i])); return; }
        if (s.Len() != (int) ms.size()) { violation("stack:Len", "length"); return; }
        for (size_t i = 0; i < ms.size(); ++i) if (ms[ms.size() - 1 - i] != s[i].CStr()) { violation("stack:contents", "contents"); return; }
        add("queue");
    }
}
static bool listSame(TLst<TInt> &l, const vector<int> &m, const char *op) {
    vector<int> f, b; int guard = 0; for (auto n = l.First(); n && guard++ < 5000; n = n->Next()) f.push_back(n->GetVal()); guard = 0; for (auto n = l.Last(); n && guard++ < 5000; n = n->Prev()) b.push_back(n->GetVal()); std::reverse(b.begin(), b.end());
    if (f != m || b != m || l.Len() != (int) m.size() || l.Empty() != m.empty()) { violation(string("list:") + op, string(op) + ": forward " + show(f) + " backward " + show(b) + " expected " + show(m)); return false; }
    return true;
}
static void listCase(Rng &r) {
    TLst<TInt> l; vector<int> m;
    for (int st = 0; st < 60; ++st) {
        int x = r.below(12); const char *op = "?";
        auto at = [&](int i) { auto n = l.First(); while (i--) n = n->Next(); return n; };
        switch (r.below(9)) {
            case 0: op = "AddFront"; l.AddFront(x); m.insert(m.begin(), x); break;
            case 1: op = "AddBack"; l.AddBack(x); m.push_back(x); break;
            case 2: { op = "Ins"; int p = (int) r.below(m.size() + 1) - 1; auto n = l.Ins(p < 0 ? NULL : at(p), x); m.insert(m.begin() + p + 1, x); VF_CHECK(n->GetVal() == x, "list:Ins", "returned a node with %d", (int) n->GetVal()); } break;
            case 3: { op = "Del"; if (m.empty()) break; int how = r.below(4); if (how == 0) { int p = r.below(m.size()); l.Del(at(p)); m.erase(m.begin() + p); } else if (how == 1) { l.Del(TInt(x)); auto it = std::find(m.begin(), m.end(), x); if (it != m.end()) m.erase(it); } else if (how == 2) { l.DelFirst(); m.erase(m.begin()); } else { l.DelLast(); m.pop_back(); } } break;
            case 4: { op = "Put"; if (m.empty()) break; int p = r.below(m.size()); int v = m[p]; auto n = at(p); m.erase(m.begin() + p); if (r.chance(50)) { l.PutFront(n); m.insert(m.begin(), v); } else { l.PutBack(n); m.push_back(v); } } break;
            case 5: { op = "AddBackSorted"; if (!r.chance(50)) break; bool asc = r.chance(50); std::sort(m.begin(), m.end()); if (!asc) std::reverse(m.begin(), m.end()); l.Clr(); for (int v : m) l.AddBack(v); l.AddBackSorted(x, asc); m.push_back(x); std::sort(m.begin(), m.end()); if (!asc) std::reverse(m.begin(), m.end()); } break;
            case 6: { op = "Search"; auto f = l.SearchForw(x), b = l.SearchBack(x); bool in = std::find(m.begin(), m.end(), x) != m.end(); VF_CHECK((f != NULL) == in && (b != NULL) == in, "list:Search", "wrong answer"); if (in) { int i = 0; for (auto n = l.First(); n != f; n = n->Next()) ++i; VF_CHECK(i == std::find(m.begin(), m.end(), x) - m.begin(), "list:Search", "not the first one"); i = 0; for (auto n = l.Last(); n != b; n = n->Prev()) ++i; VF_CHECK(i == std::find(m.rbegin(), m.rend(), x) - m.rbegin(), "list:Search", "not the last one"); } } break;
            case 7: { op = "Save/Load"; TMOut o; l.Save(o); PSIn pin = o.GetSIn(); TSIn &in = *pin; TLst<TInt> c(in); if (!listSame(c, m, "Load")) return; } break;
            case 8: { op = "AddFrontSorted"; if (!r.chance(50)) break; bool asc = r.chance(50); std::sort(m.begin(), m.end()); if (!asc) std::reverse(m.begin(), m.end()); l.Clr(); for (int v : m) l.AddBack(v); l.AddFrontSorted(x, asc); m.push_back(x); std::sort(m.begin(), m.end()); if (!asc) std::reverse(m.begin(), m.end()); } break;
        }
        if (!listSame(l, m, op)) return;
        add(string("list:") + op);
    }
}
static void matrixCase(Rng &r) {
    int X = 1 + r.below(5), Y = 1 + r.below(5); TVVec<TInt> a(X, Y); vector<vector<int>> m(X, vector<int>(Y, 0));
    for (int st = 0; st < 30; ++st) {
        switch (r.below(9)) {
            case 0: case 1: { int x = r.below(X), y = r.below(Y), v = r.below(50); if (r.chance(50)) a.PutXY(x, y, v); else a(x, y) = v; m[x][y] = v; } break;
            case 2: { int v = r.below(50); if (r.chance(50)) { int x = r.below(X); a.PutX(x, v); for (auto &c : m[x]) c = v; } else { int y = r.below(Y); a.PutY(y, v); for (auto &row : m) row[y] = v; } } break;
            case 3: { int p = r.below(X), q = r.below(X); a.SwapX(p, q); std::swap(m[p], m[q]); p = r.below(Y); q = r.below(Y); a.SwapY(p, q); for (auto &row : m) std::swap(row[p], row[q]); } break;
            case 4: if (X < 8 && r.chance(50)) { a.AddXDim(); m.push_back(vector<int>(Y, 0)); X++; } else if (Y < 8) { a.AddYDim(); for (auto &row : m) row.push_back(0); Y++; } break;
            case 5: if (X > 1 && r.chance(50)) { int x = r.below(X); a.DelX(x); m.erase(m.begin() + x); X--; } else if (Y > 1) { int y = r.below(Y); a.DelY(y); for (auto &row : m) row.erase(row.begin() + y); Y--; } break;
            case 6: { TMOut o; a.Save(o); PSIn pin = o.GetSIn(); TSIn &in = *pin; TVVec<TInt> b(in); VF_CHECK(b == a, "matrix:Load", "differs after saving and loading"); TVVec<TInt> c; c = b; a.Swap(c); } break;
            case 7: { int x = r.below(X), y = r.below(Y); TIntV row, col; a.GetRow(x, row); a.GetCol(y, col); vector<int> wc; for (auto &q : m) wc.push_back(q[y]); if (!same(row, m[x], "matrix:GetRow") || !same(col, wc, "matrix:GetCol")) return; } break;
            case 8: { int x = -1, y = -1, bx = 0, by = 0; a.GetMxValXY(x, y); for (int i = 0; i < X; ++i) for (int j = 0; j < Y; ++j) if (m[i][j] > m[bx][by]) { bx = i; by = j; } VF_CHECK(x == bx && y == by, "matrix:GetMxValXY", "maximum at %d,%d, expected %d,%d", x, y, bx, by); } break;
        }
        bool ok = a.GetXDim() == X && a.GetYDim() == Y && a.GetRows() == X && a.GetCols() == Y; for (int i = 0; i < X && ok; ++i) for (int j = 0; j < Y && ok; ++j) ok = a.At(i, j) == m[i][j] && a.GetXY(i, j) == m[i][j];
        if (!ok) { violation("matrix:contents", "the matrix has other contents"); return; }
        add("matrix");
    }
    int Z = 1 + r.below(4); TVVVec<TInt> c(X, Y, Z); for (int i = 0; i < X; ++i) for (int j = 0; j < Y; ++j) for (int k = 0; k < Z; ++k) c(i, j, k) = i * 100 + j * 10 + k; TVVVec<TInt> d; d = c; VF_CHECK(d == c, "matrix:3d", "a copy differs"); for (int i = 0; i < X; ++i) for (int j = 0; j < Y; ++j) for (int k = 0; k < Z; ++k) VF_CHECK(d.At(i, j, k) == i * 100 + j * 10 + k, "matrix:3d", "another value at %d,%d,%d", i, j, k);
}
static void poolIO(const TVecPool<TInt> &p, TVecPool<TInt> &to) { TMOut o; p.Save(o); PSIn in = o.GetSIn(); TVecPool<TInt> l(*in); to = l; }
template<class X> static void poolIO(const X &p, X &to) { to = p; }   // Save exists for plain values only
template<class T> static void poolCase(Rng &r, bool fast) {
    typedef typename V<T>::S S; typedef TVecPool<T> P; P p(r.chance(50) ? 0 : r.below(30), 1 + r.below(20), fast); map<int, vector<S>> m;
    for (int st = 0; st < 40; ++st) {
        const char *op = "?";
        switch (r.below(7)) {
            case 0: case 1: { op = "AddV"; vector<S> v; for (int i = r.below(9); i > 0; --i) v.push_back(V<T>::gen(r, 5)); TVec<T> tv; put(tv, v); int id = p.AddV(tv); if (v.empty()) { VF_CHECK(id == 0, "pool:AddV", "an empty vector has id %d", id); } else { VF_CHECK(!m.count(id) && p.IsVId(id), "pool:AddV", "id %d is taken", id); m[id] = v; } } break;
            case 2: { op = "AddEmptyV"; int n = 1 + r.below(6); int id = p.AddEmptyV(n); VF_CHECK(!m.count(id) && p.IsVId(id) && p.GetVLen(id) == n, "pool:AddEmptyV", "id %d, length %d", id, p.GetVLen(id)); vector<S> v; for (int i = 0; i < n; ++i) v.push_back(V<T>::gen(r, 5)); TVec<T> tv; put(tv, v); p.PutV(id, tv); m[id] = v; } break;
            case 3: if (m.size()) { op = "PutV"; auto it = m.begin(); std::advance(it, r.below(m.size())); for (auto &x : it->second) x = V<T>::gen(r, 5); if (it->second.empty()) break; TVec<T> tv; put(tv, it->second); p.PutV(it->first, tv); } break;
            case 4: { op = "copy"; P c(p); P d; d = c; P l; poolIO(p, l); int how = r.below(3); if (how == 0) p = l; else if (how == 1) p = d; } break;
            case 5: { op = "CompactPool"; S x = V<T>::gen(r, 5); p.CompactPool(V<T>::to(x)); for (auto &e : m) e.second.erase(std::remove(e.second.begin(), e.second.end(), x), e.second.end()); } break;
            case 6: if (r.chance(10)) { op = "Clr"; p.Clr(r.chance(60)); m.clear(); } break;
        }
        size_t tot = 0; for (auto &e : m) { TVec<T> v; p.GetV(e.first, v); tot += e.second.size(); if (p.GetVLen(e.first) != (int) e.second.size() || !(get(v) == e.second)) { violation(string("pool:") + op, fmt("%s: vector %d is %s, expected %s", op, e.first, show(get(v)).c_str(), show(e.second).c_str())); return; } }
        VF_CHECK(p.GetVals() == tot, "pool:GetVals", "%zu values, expected %zu", (size_t) p.GetVals(), tot);
        add(string("pool:") + op);
    }
}
static void strPoolCase(Rng &r) {
    TStrPool p(r.below(64), 1 + r.below(64)); TBigStrPool b(r.below(64), 1 + r.below(64)); map<uint, string> m; map<int, string> mb;
    for (int st = 0; st < 40; ++st) {
        string w = r.chance(70) ? words()[r.below(words().size())] : string(r.below(200), 'q');
        uint o = p.AddStr(w.c_str()); int id = b.AddStr(w.c_str());
        if (m.count(o) && m[o] != w) { violation("strpool:AddStr", "two strings share an offset"); return; } m[o] = w;
        if (mb.count(id) && mb[id] != w) { violation("bigpool:AddStr", "two strings share an id"); return; } mb[id] = w;
        if (r.chance(10)) { TMOut out; p.Save(out); b.Save(out); PSIn pin = out.GetSIn(); TSIn &in = *pin; TStrPool p2(in); TBigStrPool b2(in); p = p2; b = b2; }
        if (r.chance(10)) { TStrPool p2(p); p = p2; TBigStrPool b2(b); VF_CHECK(b2.GetStrs() == b.GetStrs(), "bigpool:copy", "a copy has %d strings, the original %d", b2.GetStrs(), b.GetStrs()); TBigStrPool b3; b3 = b2; VF_CHECK(b3.GetStrs() == b.GetStrs(), "bigpool:copy", "an assigned pool has %d strings, the original %d", b3.GetStrs(), b.GetStrs()); b = b3; if (b.GetStrs() != b2.GetStrs()) return; }
        for (auto &e : m) if (strcmp(p.GetCStr(e.first), e.second.c_str()) || p.GetStr(e.first) != e.second.c_str() || p.Cmp(e.first, e.second.c_str()) != 0) { violation("strpool:GetStr", "another string is stored"); return; }
        for (auto &e : mb) if (strcmp(b.GetCStr(e.first), e.second.c_str()) || b.Cmp(e.first, e.second.c_str()) != 0) { violation("bigpool:GetStr", "another string is stored"); return; }
        add("strpool");
    }
}
static void prioCase(Rng &r) {
    TMaxPriorityQueue<TInt> q; map<int, float> m;
    for (int st = 0; st < 120; ++st) {
        int x = r.below(20); float p = r.chance(50) ? (float) r.below(8) - 3 : (float) (r.real() * 100 - 20);
        switch (r.below(5)) {
            case 0: case 1: case 2: if (m.count(x) || r.chance(50)) q.SetPriority(x, p); else q.Insert(x, p); m[x] = p; break;
            case 3: case 4: if (m.size()) { float mx = q.GetMaxPriority(); int v = q.PopMax(); if (!m.count(v) || m[v] != mx) { violation("prio:PopMax", fmt("popped %d", v)); return; } for (auto &e : m) if (e.second > mx) { violation("prio:PopMax", fmt("popped priority %g while %g is there", mx, e.second)); return; } m.erase(v); } break;
        }
        VF_CHECK(q.Size() == (int) m.size() && q.IsEmpty() == m.empty(), "prio:Size", "size %d, expected %zu", q.Size(), m.size());
        VF_CHECK(q.GetPriority(x) == (m.count(x) ? m[x] : 0.0f), "prio:GetPriority", "priority of %d is %g", x, q.GetPriority(x));
        THash<TInt, TFlt> h; q.GetPriorities(h); bool ok = h.Len() == (int) m.size(); for (auto &e : m) ok = ok && h.IsKey(e.first) && h.GetDat(e.first) == e.second; VF_CHECK(ok, "prio:GetPriorities", "other priorities");
        add("prio");
    }
}
static void treeCase(Rng &r) {
    TTree<TInt> t; int n = 1 + r.below(30); vector<int> par(n, -1); vector<vector<int>> ch(n); for (int i = 0; i < n; ++i) { par[i] = i ? (int) r.below(i) : -1; t.AddNode(par[i], i * 7); if (i) ch[par[i]].push_back(i); }
    for (int i = 0; i < n; ++i) { VF_CHECK(t.GetParentNodeId(i) == par[i] && t.GetChildren(i) == (int) ch[i].size() && t.GetNodeVal(i) == i * 7, "tree:AddNode", "node %d", i); for (size_t c = 0; c < ch[i].size(); ++c) VF_CHECK(t.GetChildNodeId(i, c) == ch[i][c], "tree:child", "child"); }
    set<int> dead; if (n > 1) { int d = 1 + r.below(n - 1); t.DelNode(d); std::function<void(int)> kill = [&](int x) { dead.insert(x); for (int c : ch[x]) kill(c); }; kill(d); }
    vector<int> w; std::function<void(int)> walk = [&](int x) { if (dead.count(x)) return; w.push_back(x); for (int c : ch[x]) walk(c); }; walk(0); TIntV ids; t.GetNodeIdV(ids); same(ids, w, "tree:GetNodeIdV");
    TTree<TInt> c; t.CopyTree(0, c); VF_CHECK(c.GetNodes() == (int) w.size(), "tree:CopyTree", "%d nodes, expected %zu", c.GetNodes(), w.size()); for (size_t i = 0; i < w.size(); ++i) VF_CHECK(c.GetNodeVal(i) == w[i] * 7, "tree:CopyTree", "values");
    add("tree");
}

// ---------------------------------------------------------------- strings
static string rs(Rng &r, int mx = 12) { static const char *al = "aab. ,XyZ019/-+\t"; string s; for (int i = r.below(mx + 1); i > 0; --i) s += al[r.below(16)]; return s; }
static bool eq(const TStr &s, const string &w, const char *op, const string &in) { if (w != s.CStr()) { violation(string("str:") + op, string(op) + " of '" + in + "': '" + s.CStr() + "', expected '" + w + "'"); return false; } return true; }
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
static bool isNumTail(const string &s, size_t i) { if (i >= s.size()) return false; for (; i < s.size(); ++i) if (!isdigit((unsigned char) s[i])) return false; return true; }
static bool eqv(const TStrV &v, const vector<string> &w, const char *op, const string &in) { if (!(get(v) == w)) { violation(string("str:") + op, string(op) + " of '" + in + "': " + show(get(v)) + ", expected " + show(w)); return false; } return true; }
static bool wild(const char *s, const char *p) { if (!*p) return !*s; if (*p == '*') { for (;; ++s) { if (wild(s, p + 1)) return true; if (!*s) return false; } } return *s && (*p == '?' || toupper(*p) == toupper(*s) || *p == *s) && wild(s + 1, p + 1); }
static bool wildCS(const char *s, const char *p) { if (!*p) return !*s; if (*p == '*') { for (;; ++s) { if (wildCS(s, p + 1)) return true; if (!*s) return false; } } return *s && (*p == '?' || *p == *s) && wildCS(s + 1, p + 1); }
static void strCase(Rng &r) {
    for (int st = 0; st < 40; ++st) {
        string a = rs(r), b = rs(r, 3), c = rs(r, 5); char ch = "ab. ,X"[r.below(6)]; TStr A(a.c_str()), B(b.c_str()), C(c.c_str()); int n = a.size();
        int p = (int) r.below(n + 5) - 2, q = (int) r.below(n + 5) - 2;
        switch (r.below(20)) {
            case 0: { int cp = std::max(p, 0), cq = std::min(q, n - 1); eq(A.GetSubStr(p, q), cq >= cp ? a.substr(cp, cq - cp + 1) : "", "GetSubStr", a); } break;
            case 1: { int i = r.below(n + 1); string w = a; w.insert(i, b); TStr t(A); t.InsStr(i, B); eq(t, w, "InsStr", a); eq(A, a, "the original after InsStr", a); } break;
            case 2: { TStr t(A); t.DelSubStr(p, q); int cp = std::max(p, 0), cq = std::min(q, n - 1); string w = a; if (cq >= cp && cp < n) w.erase(cp, cq - cp + 1); eq(t, w, "DelSubStr", a); } break;
            case 3: { TStr t(A); bool g = t.DelStr(B); size_t i = a.find(b); string w = a; if (i != string::npos) w.erase(i, b.size()); VF_CHECK(g == (i != string::npos), "str:DelStr", "wrong answer"); eq(t, w, "DelStr", a); TStr u(A); u.DelChAll(ch); w = a; w.erase(std::remove(w.begin(), w.end(), ch), w.end()); eq(u, w, "DelChAll", a); } break;
            case 4: { size_t i = a.find(ch), l = a.rfind(ch); eq(A.LeftOf(ch), i == string::npos ? "" : a.substr(0, i), "LeftOf", a); eq(A.RightOf(ch), i == string::npos ? "" : a.substr(i + 1), "RightOf", a); eq(A.LeftOfLast(ch), l == string::npos ? "" : a.substr(0, l), "LeftOfLast", a); eq(A.RightOfLast(ch), l == string::npos ? "" : a.substr(l + 1), "RightOfLast", a);
                TStr x, y; A.SplitOnCh(x, ch, y); eq(x, i == string::npos ? a : a.substr(0, i), "SplitOnCh left", a); eq(y, i == string::npos ? "" : a.substr(i + 1), "SplitOnCh right", a); A.SplitOnLastCh(x, ch, y); eq(x, l == string::npos ? "" : a.substr(0, l), "SplitOnLastCh left", a); eq(y, l == string::npos ? a : a.substr(l + 1), "SplitOnLastCh right", a); } break;
            case 5: { bool skip = r.chance(50); vector<string> w; string cur; for (char x : a + string(1, ch)) if (x == ch) { if (!cur.empty() || !skip) w.push_back(cur); cur.clear(); } else cur += x; TStrV v; A.SplitOnAllCh(ch, v, skip); eqv(v, w, "SplitOnAllCh", a); } break;
            case 6: { bool skip = r.chance(50); if (b.empty()) break; vector<string> w; string cur; for (size_t i = 0; i <= a.size(); ++i) if (i == a.size() || b.find(a[i]) != string::npos) { if (!cur.empty() || !skip) w.push_back(cur); cur.clear(); } else cur += a[i]; TStrV v; A.SplitOnAllAnyCh(B, v, skip); eqv(v, w, "SplitOnAllAnyCh", a); } break;
            case 7: { vector<string> w, z; string cur; for (size_t i = 0; i <= a.size(); ++i) if (i == a.size() || ws(a[i])) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += a[i]; TStrV v; A.SplitOnWs(v); eqv(v, w, "SplitOnWs", a); cur.clear(); for (size_t i = 0; i <= a.size(); ++i) if (i == a.size() || !isalnum((unsigned char) a[i])) { if (!cur.empty()) z.push_back(cur); cur.clear(); } else cur += a[i]; A.SplitOnNonAlNum(v); eqv(v, z, "SplitOnNonAlNum", a); } break;
            case 8: { if (b.empty()) break; vector<string> w; size_t pos = 0, i; while ((i = a.find(b, pos)) != string::npos) { w.push_back(a.substr(pos, i - pos)); pos = i + b.size(); } w.push_back(a.substr(pos)); TStrV v; A.SplitOnStr(B, v); eqv(v, w, "SplitOnStr", a); TStr x, y; A.SplitOnStr(x, B, y); i = a.find(b); eq(x, i == string::npos ? a : a.substr(0, i), "SplitOnStr left", a); eq(y, i == string::npos ? "" : a.substr(i + b.size()), "SplitOnStr right", a); } break;
            case 9: { int f = r.below(n + 1); size_t i = a.find(ch, f); VF_CHECK(A.SearchCh(ch, f) == (i == string::npos ? -1 : (int) i), "str:SearchCh", "'%s' from %d", a.c_str(), f); VF_CHECK(A.CountCh(ch, f) == (int) std::count(a.begin() + f, a.end(), ch), "str:CountCh", "wrong count"); i = a.find(b, f); VF_CHECK(A.SearchStr(B, f) == (i == string::npos ? -1 : (int) i), "str:SearchStr", "'%s' in '%s' from %d", b.c_str(), a.c_str(), f); size_t l = n ? a.rfind(ch, f) : string::npos; VF_CHECK(A.SearchChBack(ch, f) == (l == string::npos ? -1 : (int) l), "str:SearchChBack", "'%s' from %d", a.c_str(), f); } break;
            case 10: { VF_CHECK(A.IsPrefix(B) == (a.compare(0, b.size(), b) == 0), "str:IsPrefix", "'%s' of '%s'", b.c_str(), a.c_str()); VF_CHECK(A.IsSuffix(B) == (b.size() <= a.size() && a.compare(a.size() - b.size(), b.size(), b) == 0), "str:IsSuffix", "'%s' of '%s'", b.c_str(), a.c_str()); } break;
            case 11: { TStr t(A); char d = 'q'; int g = t.ChangeCh(ch, d); size_t i = a.find(ch); string w = a; if (i != string::npos) w[i] = d; VF_CHECK(g == (i == string::npos ? -1 : (int) i), "str:ChangeCh", "returned %d", g); eq(t, w, "ChangeCh", a); TStr u(A); w = a; int k = std::count(a.begin(), a.end(), ch); std::replace(w.begin(), w.end(), ch, d); VF_CHECK(u.ChangeChAll(ch, d) == k, "str:ChangeChAll", "wrong count"); eq(u, w, "ChangeChAll", a); eq(A, a, "the original after ChangeChAll", a); } break;
            case 12: { if (b.empty()) break; TStr t(A); string w = a; int k = 0; size_t pos = 0; while ((pos = w.find(b, pos)) != string::npos) { w.replace(pos, b.size(), c); pos += c.size(); ++k; } int g = t.ChangeStrAll(B, C); VF_CHECK(g == k, "str:ChangeStrAll", "%d changes, expected %d", g, k); eq(t, w, "ChangeStrAll", a); TStr u(A); w = a; pos = w.find(b); if (pos != string::npos) w.replace(pos, b.size(), c); VF_CHECK(u.ChangeStr(B, C) == (pos == string::npos ? -1 : (int) pos), "str:ChangeStr", "wrong position"); eq(u, w, "ChangeStr", a); } break;
            case 13: { string w = a; for (auto &x : w) x = toupper(x); eq(A.GetUc(), w, "GetUc", a); for (auto &x : w) x = tolower(x); eq(A.GetLc(), w, "GetLc", a); if (n) w[0] = toupper(w[0]); eq(A.GetCap(), w, "GetCap", a); VF_CHECK(A.EqI(A.GetUc()) && (A.CmpI(B) == 0) == (A.GetUc() == B.GetUc()), "str:CmpI", "case-insensitive comparison"); size_t i = 0, j = n; while (i < j && ws(a[i])) ++i; while (j > i && ws(a[j - 1])) --j; eq(A.GetTrunc(), a.substr(i, j - i), "GetTrunc", a); eq(A, a, "the original after GetTrunc", a); } break;
            case 14: { eq(A.GetHex().GetFromHex(), a, "FromHex(ToHex)", a); string w = a; std::reverse(w.begin(), w.end()); eq(A.Reverse(), w, "Reverse", a); VF_CHECK((A < B) == (a < b) && (A == B) == (a == b), "str:<", "comparison of '%s' and '%s'", a.c_str(), b.c_str()); eq(A + B, a + b, "+", a); TStr t(A); t += B; eq(t, a + b, "+=", a); eq(A, a, "the original after +=", a); TStr u(A); if (n) { u.PutCh(n - 1, '!'); eq(A, a, "the original after PutCh", a); VF_CHECK(u.LastCh() == '!', "str:PutCh", "last character"); } TMOut o; bool small = r.chance(50); A.Save(o, small); B.Save(o, small); PSIn pin = o.GetSIn(); TSIn &in = *pin; TStr x(in, small), y(in, small); eq(x, a, "Save/Load", a); eq(y, b, "Save/Load", b); VF_CHECK(x.GetPrimHashCd() == A.GetPrimHashCd() && x.GetSecHashCd() == A.GetSecHashCd(), "str:hash", "equal strings hash differently"); } break;
            case 15: { string s; if (r.chance(20)) s += " "; if (r.chance(40)) s += "+-"[r.below(2)]; for (int i = r.below(10); i > 0; --i) s += '0' + r.below(10); if (r.chance(20)) s += "x. -+"[r.below(5)]; TStr S(s.c_str()); size_t i = 0; while (i < s.size() && ws(s[i])) ++i; size_t j = i; if (j < s.size() && (s[j] == '+' || s[j] == '-')) ++j; bool w = isNumTail(s, j); int v = -77; bool g = S.IsInt(v); long long e = w ? atoll(s.c_str() + i) : 0; VF_CHECK(g == w && (!w || v == e), "str:IsInt", "'%s': %d %d", s.c_str(), (int) g, v); int64 v6 = -77; g = S.IsInt64(v6); VF_CHECK(g == w && (!w || v6 == e), "str:IsInt64", "'%s'", s.c_str()); bool wu = w && !(i < s.size() && s[i] == '-'); uint vu = 77; g = S.IsUInt(vu); VF_CHECK(g == wu && (!wu || vu == (uint) e), "str:IsUInt", "'%s'", s.c_str()); uint64 vu6; g = S.IsUInt64(vu6); VF_CHECK(g == wu && (!wu || vu6 == (uint64) e), "str:IsUInt64", "'%s'", s.c_str()); if (w) { VF_CHECK(S.IsInt(true, -100, 100, v) == (e >= -100 && e <= 100), "str:IsInt", "range check of '%s'", s.c_str()); } } break;
            case 16: { string s; auto dig = [&](int k) { for (int i = r.below(k); i > 0; --i) s += '0' + r.below(10); }; if (r.chance(15)) s += " "; if (r.chance(30)) s += "+-"[r.below(2)]; dig(4); if (r.chance(50)) { s += "."; if (r.chance(10)) s += "x"; dig(4); } if (r.chance(40)) { s += "eE"[r.below(2)]; if (r.chance(40)) s += "+-"[r.below(2)]; dig(3); } if (r.chance(15)) s += "x. -e"[r.below(5)];
                TStr S(s.c_str()); size_t i = 0; while (i < s.size() && ws(s[i])) ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; size_t d1 = i; while (i < s.size() && isdigit(s[i])) ++i; int digs = i - d1; if (i < s.size() && s[i] == '.') { ++i; size_t d2 = i; while (i < s.size() && isdigit(s[i])) ++i; digs += i - d2; } bool w = digs > 0; if (w && i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; w = i < s.size() && isdigit(s[i]); while (i < s.size() && isdigit(s[i])) ++i; } w = w && i == s.size(); double v = -77; bool g = S.IsFlt(v); VF_CHECK(g == w && (!w || v == strtod(s.c_str(), NULL)), "str:IsFlt", "'%s': %d, expected %d (%g)", s.c_str(), (int) g, (int) w, v); } break;
            case 17: { string s, pt; for (int i = r.below(8); i > 0; --i) s += "abc"[r.below(3)]; for (int i = r.below(6); i > 0; --i) pt += "abc*?*"[r.below(6)]; TStr S(s.c_str()), P(pt.c_str()); TStrV stars; bool g = S.IsWcMatch(P, stars); bool w = wild(s.c_str(), pt.c_str()), w2 = wildCS(s.c_str(), pt.c_str()); (void) w2; VF_CHECK(g == w, "str:IsWcMatch", "'%s' against '%s': %d, expected %d", s.c_str(), pt.c_str(), (int) g, (int) w); } break;
            case 18: { TChA x(A); string w = a; for (int i = 0; i < 6; ++i) { int l = w.size(); switch (r.below(9)) { case 0: x += B; w += b; break; case 1: x += ch; w += ch; break; case 2: if (l) { x.Pop(); w.pop_back(); } break; case 3: if (l) { int k = r.below(l); x.Del(k); w.erase(k, 1); } break; case 4: { int k = r.below(l + 1); x.Ins(k, c.c_str()); w.insert(k, c); } break; case 5: x.Reverse(); std::reverse(w.begin(), w.end()); break; case 6: { int k = (int) r.below(l + 3) - 1; x.Trunc(k); if (k >= 0 && k <= l) w.resize(k); } break; case 7: { TChA y(x); x.Clr(); x.Swap(y); TChA z; z += "zz"; z = x; x = z; } break; case 8: { x.ChangeCh(ch, '#'); std::replace(w.begin(), w.end(), ch, '#'); } break; }
                    if (w != x.CStr() || x.Len() != (int) w.size()) { violation("str:TChA", string("'") + x.CStr() + "', expected '" + w + "'"); return; } }
                int l = w.size(); VF_CHECK(x.SearchCh(ch) == (w.find(ch) == string::npos ? -1 : (int) w.find(ch)) && x.IsPrefix(B) == (w.compare(0, b.size(), b) == 0) && x.IsSuffix(B) == (b.size() <= w.size() && w.compare(w.size() - b.size(), b.size(), b) == 0), "str:TChA", "search in '%s'", w.c_str()); (void) l; size_t f = w.find(b); VF_CHECK(x.SearchStr(B) == (f == string::npos ? -1 : (int) f), "str:TChA", "SearchStr of '%s' in '%s'", b.c_str(), w.c_str());
                int cp = std::max(p, 0), cq = std::min(q, (int) w.size() - 1); VF_CHECK((cq >= cp ? w.substr(cp, cq - cp + 1) : string()) == x.GetSubStr(p, q).CStr(), "str:TChA", "GetSubStr(%d,%d) of '%s'", p, q, w.c_str()); VF_CHECK(TStr(x).GetPrimHashCd() == x.GetPrimHashCd(), "str:TChA", "hash"); string u; size_t i = 0, j = w.size(); while (i < j && ws(w[i])) ++i; while (j > i && ws(w[j - 1])) --j; u = w.substr(i, j - i); TChA t(x); t.ToTrunc(); VF_CHECK(u == t.CStr(), "str:TChA", "ToTrunc of '%s'", w.c_str()); string cw; for (char k : u) if (!(ws(k) && cw.size() && ws(cw.back()))) cw += k; TChA t2(x); t2.CompressWs(); VF_CHECK(cw == t2.CStr(), "str:TChA", "CompressWs of '%s': '%s'", w.c_str(), t2.CStr()); } break;
            case 19: { static const char *dirs[] = {"", "/", "a/", "/x/y/", "./", "d.e/"}; static const char *mids[] = {"", "f", "a b", "m.n"}; static const char *exts[] = {"", ".t", ".gz"}; string d = dirs[r.below(6)], m = mids[r.below(4)], e = exts[r.below(3)]; if (m == "m.n" && e.empty()) e = ".t"; if (m.empty()) e.clear(); string f = d + m + e; TStr F(f.c_str()); eq(F.GetFPath(), d, "GetFPath", f); eq(F.GetFBase(), m + e, "GetFBase", f); eq(F.GetFMid(), m, "GetFMid", f); eq(F.GetFExt(), e, "GetFExt", f); } break;
        }
        add("str");
    }
}
// The templates take long to compile: each part of the cases is its own object (cont_1.cpp ...).
#ifndef PART
#define PART 0
#endif
void contPart1(Rng &r, int c); void contPart2(Rng &r, int c); void contPart3(Rng &r, int c); void contPart4(Rng &r, int c);
#if PART == 1
void contPart1(Rng &r, int c) { if (c == 0) vecCase<TInt>(r); else vecCase<TStr>(r); }
#elif PART == 2
void contPart2(Rng &r, int c) { if (c == 0) vecCase<TIntPr>(r); else if (c == 1) vecCase<TFlt>(r); else if (c == 2) setCase<TInt>(r); else setCase<TStr>(r); }
#elif PART == 3
void contPart3(Rng &r, int c) { if (c == 0) hashCase<TInt, TInt>(r); else if (c == 1) hashCase<TStr, TInt>(r); else if (c == 2) hashCase<TIntPr, TStr>(r); else hashCase<TInt, TFlt>(r); }
#elif PART == 4
void contPart4(Rng &r, int c) {
    switch (c) {
        case 9: if (r.chance(50)) strHashCase<TStrPool>(r); else strHashCase<TBigStrPool>(r); break;
        case 10: sparseCase(r); break;
        case 11: queueCase(r); listCase(r); break;
        case 12: matrixCase(r); treeCase(r); break;
        case 13: if (r.chance(50)) poolCase<TInt>(r, r.chance(50)); else poolCase<TStr>(r, false); break;
    }
}
#else
static void oneCase(Rng &r, uint64_t) {
    try {
        int c = r.below(16);
        switch (c) {
            case 0: case 1: contPart1(r, 0); break;
            case 2: contPart1(r, 1); break;
            case 3: contPart2(r, r.below(2)); break;
            case 4: case 5: contPart3(r, 0); break;
            case 6: contPart3(r, 1); break;
            case 7: contPart3(r, 2 + r.below(2)); break;
            case 8: contPart2(r, 2 + r.below(2)); break;
            case 14: strPoolCase(r); prioCase(r); break;
            case 15: for (int i = 0; i < 4; ++i) strCase(r); break;
            default: contPart4(r, c);
        }
        // the generator's state after the case depends on every operation that was drawn
        uint64_t h = r.next(); distinct(mix(c, h));
        static const char *kinds[] = {"TVec<TInt>", "TVec<TInt>", "TVec<TStr>", "TVec<TIntPr/TFlt>", "THash<TInt,TInt>", "THash<TInt,TInt>", "THash<TStr,TInt>", "THash of pairs/floats", "THashSet", "TStrHash", "TSparseHash/TSparseSet", "TQQueue/TSStack/TLst", "TVVec/TTree", "TVecPool", "TStrPool/TBigStrPool/TMaxPriorityQueue", "TStr/TChA"};
        sample(fmt("a history on %s", kinds[c]));
    } catch (const PExcept &e) { violation("cont:exception", string("an operation failed: ") + e->GetMsgStr().CStr()); }
}
int main(int argc, char **argv) { words(); return run(argc, argv, oneCase); }
#endif
