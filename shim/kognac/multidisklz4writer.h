#ifndef KOGNAC_SHIM_MULTIDISKLZ4WRITER_H
#define KOGNAC_SHIM_MULTIDISKLZ4WRITER_H
#include <kognac/disklz4writer.h>
class MultiDiskLZ4Writer : public DiskLZ4Writer {
public:
    MultiDiskLZ4Writer(std::vector<std::string> files, int nbuffersPerPartition, int maxopenfiles);
};
#endif
