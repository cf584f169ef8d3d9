#ifndef KOGNAC_SHIM_DISKREADER_H
#define KOGNAC_SHIM_DISKREADER_H
#include <kognac/filereader.h>
#include <mutex>
#include <condition_variable>
#include <list>
#include <vector>
class DiskReader {
public:
    struct Buffer { size_t size, maxsize; char *b; bool gzipped; const char *end() const { return b + size; } };
private:
    std::vector<FileInfo> *files; size_t maxBuffers;
    std::mutex m; std::condition_variable cv; std::list<Buffer> ready; size_t inUse; bool finished;
public:
    DiskReader(int nbuffers, std::vector<FileInfo> *files) : files(files), maxBuffers(nbuffers), inUse(0), finished(false) {}
    void run();
    Buffer getfile();
    void releasefile(Buffer b);
};
#endif
