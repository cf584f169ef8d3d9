// Stand-in for the (absent) KOGNAC library: object pools.
#ifndef KOGNAC_SHIM_FACTORY_H
#define KOGNAC_SHIM_FACTORY_H
#include <cstdint>
#include <vector>
#include <cstddef>
#include <kognac/logs.h>
// Objects that were released are handed out again (most recent first), as the
// original pool does: callers have to (re)initialise what they get.
template<class TypeEl> class Factory {
    std::vector<TypeEl*> elements;
public:
    Factory() {}
    Factory(const Factory &) = delete;
    TypeEl *get() {
        if (!elements.empty()) { TypeEl *e = elements.back(); elements.pop_back(); return e; }
        return new TypeEl();
    }
    void release(TypeEl *e) { elements.push_back(e); }
    ~Factory() { for (auto *e : elements) delete e; }
};
template<class TypeEl> class PreallocatedFactory {
    std::vector<TypeEl*> blocks;   // arrays of preall elements
    std::vector<TypeEl*> freeEls;
    const int maxSize, preall;
public:
    PreallocatedFactory(int maxSize, int preallocatedSize) : maxSize(maxSize), preall(preallocatedSize < 1 ? 1 : preallocatedSize) {}
    TypeEl *get() {
        if (freeEls.empty()) {
            const int n = preall < 64 ? preall : 64;
            TypeEl *b = new TypeEl[n];
            blocks.push_back(b);
            for (int i = n - 1; i >= 0; --i) freeEls.push_back(b + i);
        }
        TypeEl *e = freeEls.back(); freeEls.pop_back(); return e;
    }
    void release(TypeEl *e) { freeEls.push_back(e); }
    ~PreallocatedFactory() { for (auto *b : blocks) delete[] b; }
};
template<class TypeEl> class PreallocatedArraysFactory {
protected:
    std::vector<TypeEl*> freeEls;
    const int arraySize, maxSize;
public:
    PreallocatedArraysFactory(int arraySize, int maxSize, int /*preallocatedSize*/) : arraySize(arraySize), maxSize(maxSize) {}
    TypeEl *get() {
        if (freeEls.empty()) return new TypeEl[arraySize](); // zeroed, as callers expect
        TypeEl *e = freeEls.back(); freeEls.pop_back(); return e;
    }
    void release(TypeEl *e) {
        if ((int) freeEls.size() < maxSize) freeEls.push_back(e); else delete[] e;
    }
    ~PreallocatedArraysFactory() { for (auto *e : freeEls) delete[] e; }
};
template<class TypeEl> class PreallocatedStratArraysFactory : public PreallocatedArraysFactory<TypeEl> {
public:
    PreallocatedStratArraysFactory(int arraySize, int maxSize, int pre) : PreallocatedArraysFactory<TypeEl>(arraySize, maxSize, pre) {}
};
#endif
