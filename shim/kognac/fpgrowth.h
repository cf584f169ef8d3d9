// Stand-in: keeps the transactions it is given; mines patterns by brute force.
#ifndef KOGNAC_SHIM_FPGROWTH_H
#define KOGNAC_SHIM_FPGROWTH_H
#include <algorithm>
#include <map>
#include <set>
#include <vector>
#include <cstdint>
template<class T> struct FPattern { uint64_t support; std::vector<T> patternElements; FPattern() : support(0) {} };
template<class T> class PatternContainer {
protected: const int minLen;
public:
    PatternContainer(int minLen) : minLen(minLen) {}
    virtual void add(const FPattern<T> &) = 0;
    virtual ~PatternContainer() {}
};
template<class T> class FPTree {
    std::vector<std::vector<T>> tx;
public:
    FPTree(T, int = 0, int = 0) {}
    static std::vector<std::vector<T>> &log() { static std::vector<std::vector<T>> l; return l; }
    void insert(std::vector<T> &v) { tx.push_back(v); log().push_back(v); }
    void getFreqPatterns(PatternContainer<T> &c, int maxLen, int minSupport) {
        std::map<std::vector<T>, uint64_t> count;
        for (auto t : tx) {
            std::sort(t.begin(), t.end()); if (t.size() > 12) t.resize(12);
            for (unsigned m = 1; m < (1u << t.size()); ++m) if (__builtin_popcount(m) <= maxLen) {
                std::vector<T> s; for (size_t i = 0; i < t.size(); ++i) if (m >> i & 1) s.push_back(t[i]);
                count[s]++;
            }
        }
        for (auto &p : count) if ((int64_t) p.second >= minSupport) { FPattern<T> f; f.support = p.second; f.patternElements = p.first; c.add(f); }
    }
};
#endif
