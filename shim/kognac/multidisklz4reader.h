#ifndef KOGNAC_SHIM_MULTIDISKLZ4READER_H
#define KOGNAC_SHIM_MULTIDISKLZ4READER_H
#include <kognac/lz4io.h>
#include <memory>
#include <vector>
#include <string>
class MultiDiskLZ4Reader {
    struct Part { std::vector<std::string> files; size_t next; std::unique_ptr<LZ4Reader> r; Part() : next(0) {} };
    std::vector<Part> parts;
    LZ4Reader *at(int p);
public:
    MultiDiskLZ4Reader(int maxNPartitions, int nbuffersPerPartition, int maxopenfiles);
    void start() {}
    void addInput(int p, std::vector<std::string> &files);
    bool isEOF(int p);
    char readByte(int p);
    int64_t readLong(int p);
    int64_t readVLong(int p);
};
#endif
