#ifndef KOGNAC_SHIM_KOGNAC_H
#define KOGNAC_SHIM_KOGNAC_H
#include <string>
class Kognac { public: static void sortCompressedGraph(std::string inputDir, std::string outputFile, int v); };
#endif
