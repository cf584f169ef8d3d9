#ifndef KOGNAC_SHIM_STRINGSCOL_H
#define KOGNAC_SHIM_STRINGSCOL_H
#include <vector>
#include <cstring>
#include <cstdint>
class StringCollection {
    std::vector<char*> pool; size_t seg, used;
public:
    StringCollection(int segmentSize) : seg(segmentSize), used(segmentSize) {}
    const char *addNew(const char *text, int size) {
        // every string gets its own allocation so that overruns are visible to ASan
        char *b = new char[size > 0 ? size : 1];
        memcpy(b, text, size); pool.push_back(b); return b;
    }
    void clear() { for (auto *b : pool) delete[] b; pool.clear(); }
    ~StringCollection() { clear(); }
};
#endif
