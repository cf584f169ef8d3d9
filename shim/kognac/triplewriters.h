#ifndef KOGNAC_SHIM_TRIPLEWRITERS_H
#define KOGNAC_SHIM_TRIPLEWRITERS_H
#include <kognac/lz4io.h>
#include <kognac/utils.h>
class TripleWriter {
public:
    virtual void write(const int64_t t1, const int64_t t2, const int64_t t3) = 0;
    virtual void write(const int64_t t1, const int64_t t2, const int64_t t3, const int64_t count) = 0;
    virtual ~TripleWriter() {}
};
class SimpleTripleWriter : public TripleWriter {
    LZ4Writer *w; bool quad;
public:
    SimpleTripleWriter(std::string dir, std::string prefix, bool quad) : quad(quad) {
        w = new LZ4Writer(dir + "/" + prefix);
        w->writeByte(quad ? 1 : 0);
    }
    void write(const int64_t a, const int64_t b, const int64_t c) { w->writeLong(a); w->writeLong(b); w->writeLong(c); }
    void write(const int64_t a, const int64_t b, const int64_t c, const int64_t n) { write(a, b, c); w->writeLong(n); }
    ~SimpleTripleWriter() { delete w; }
};
#endif
