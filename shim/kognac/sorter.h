#ifndef KOGNAC_SHIM_SORTER_H
#define KOGNAC_SHIM_SORTER_H
#include <kognac/lz4io.h>
#include <algorithm>
#include <string>
#include <vector>
#include <functional>
namespace kognac_shim { template<class K> void sortFile(std::vector<std::string> &in, std::string out) {
    std::vector<K> v;
    for (auto &f : in) { LZ4Reader r(f); while (!r.isEof()) { K k; k.readFrom(&r); v.push_back(k); } }
    std::stable_sort(v.begin(), v.end(), [](const K &a, const K &b) { return K::less(a, b); });
    LZ4Writer w(out); for (auto &k : v) k.writeTo(&w);
} }
class Sorter {
public:
    template<class K> static std::vector<std::string> sortFiles(std::vector<std::string> in, std::string prefix) {
        std::string out = prefix + ".0"; kognac_shim::sortFile<K>(in, out);
        return std::vector<std::string>(1, out);
    }
};
#endif
