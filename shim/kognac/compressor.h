#ifndef KOGNAC_SHIM_COMPRESSOR_H
#define KOGNAC_SHIM_COMPRESSOR_H
#include <kognac/utils.h>
#include <kognac/filereader.h>
#include <kognac/schemaextractor.h>
#include <kognac/lz4io.h>
#include <kognac/triple.h>
#include <string>
#include <vector>
class Compressor {
    std::string input, tmp;
    struct T { std::string s, p, o; };
    std::vector<T> triples;
    int64_t total;
public:
    Compressor(std::string input, std::string kbPath) : input(input), tmp(kbPath), total(0) {}
    static void addPermutation(const int perm, int &sig) { sig |= 1 << perm; }
    static void parsePermutationSignature(int sig, int *out) { int n = 0; for (int i = 0; i < 6; ++i) if (sig & (1 << i)) out[n++] = i; }
    static std::vector<std::string> getAllDictFiles(std::string prefix);
    static std::vector<FileInfo> *splitInputInChunks(const std::string &input, int nchunks, std::string prefix = "");
    void parse(int dictPartitions, int sampleMethod, int sampleArg, int sampleArg2, int parallelProcesses,
            int maxReadingThreads, bool copyHashes, SchemaExtractor *schema, bool onlySample, bool ignorePredicates);
    void compress(std::string *permDirs, int nperms, int signaturePerms, std::string *dictFiles, int ndicts,
            int parallelProcesses, int maxReadingThreads, bool graph);
    int64_t getTotalCount() { return total; }
};
#endif
