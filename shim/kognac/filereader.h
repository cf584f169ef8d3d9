#ifndef KOGNAC_SHIM_FILEREADER_H
#define KOGNAC_SHIM_FILEREADER_H
#include <kognac/utils.h>
#include <string>
#include <memory>
typedef struct FileInfo { int64_t size; int64_t start; bool splittable; std::string path; } FileInfo;
// N-Triples: one statement per line.
class FileReader {
    std::string data, line; size_t pos; bool valid;
    std::string s, p, o;
    bool parseLine(const char *b, const char *e);
public:
    FileReader(FileInfo info);
    bool parseTriple();
    bool isTripleValid() { return valid; }
    const char *getCurrentS(int &l) { l = (int) s.size(); return s.data(); }
    const char *getCurrentP(int &l) { l = (int) p.size(); return p.data(); }
    const char *getCurrentO(int &l) { l = (int) o.size(); return o.data(); }
};
#endif
