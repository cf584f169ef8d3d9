#ifndef KOGNAC_SHIM_TRIPLE_H
#define KOGNAC_SHIM_TRIPLE_H
#include <kognac/consts.h>
#include <kognac/lz4io.h>
#include <kognac/multidisklz4writer.h>
#include <kognac/multidisklz4reader.h>
struct Triple {
    int64_t s, p, o, count;
    Triple(int64_t s, int64_t p, int64_t o) : s(s), p(p), o(o), count(0) {}
    Triple() : s(0), p(0), o(0), count(0) {}
    bool less(const Triple &t) const { if (s != t.s) return s < t.s; if (p != t.p) return p < t.p; return o < t.o; }
    bool greater(const Triple &t) const { return t.less(*this); }
    bool operator<(const Triple &t) const { return less(t); }
    static bool sLess(const Triple &a, const Triple &b) { return a.less(b); }
    static bool sorter(const Triple &a, const Triple &b) { return a.less(b); }
    static bool equal(const Triple &a, const Triple &b) { return a.s == b.s && a.p == b.p && a.o == b.o; }
    void readFrom(LZ4Reader *r) { s = r->parseLong(); p = r->parseLong(); o = r->parseLong(); count = r->parseLong(); }
    void readFrom(int part, MultiDiskLZ4Reader *r) { s = r->readLong(part); p = r->readLong(part); o = r->readLong(part); count = r->readLong(part); }
    void writeTo(LZ4Writer *w) const { w->writeLong(s); w->writeLong(p); w->writeLong(o); w->writeLong(count); }
    void writeTo(int part, MultiDiskLZ4Writer *w) const { w->writeLong(part, s); w->writeLong(part, p); w->writeLong(part, o); w->writeLong(part, count); }
};
#include <kognac/triplewriters.h>
#endif
