#ifndef KOGNAC_SHIM_DISKLZ4WRITER_H
#define KOGNAC_SHIM_DISKLZ4WRITER_H
#include <kognac/lz4io.h>
#include <memory>
#include <vector>
#include <string>
// One stream per part; a part is written by one thread at a time.
class DiskLZ4Writer {
protected:
    std::vector<std::unique_ptr<LZ4Writer>> parts;
    LZ4Writer *at(int p);
    DiskLZ4Writer() {}
public:
    DiskLZ4Writer(std::string file, int npartitions, int nbuffersPerPartition);
    void writeByte(const int p, const int v) { at(p)->writeByte((char) v); }
    void writeLong(const int p, const int64_t v) { at(p)->writeLong(v); }
    void writeVLong(const int p, const int64_t v) { at(p)->writeVLong(v); }
    void writeShort(const int p, const int v) { at(p)->writeShort((short) v); }
    void writeString(const int p, const char *b, const int n) { at(p)->writeString(b, n); }
    void setTerminated(const int p);
    virtual ~DiskLZ4Writer() {}
};
#endif
