// Stand-in for the (absent) KOGNAC library: encoders and file helpers.
#ifndef KOGNAC_SHIM_UTILS_H
#define KOGNAC_SHIM_UTILS_H
#include <kognac/consts.h>
#include <kognac/logs.h>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <algorithm>
#include <functional>
#include <fstream>
#include <iterator>
#include <cstring>
#include <cstdlib>
#include <climits>
#include <cmath>
#include <chrono>
#include <thread>
#include <mutex>
#include <condition_variable>
using namespace std; // as KOGNAC's headers did: some trident headers rely on it
class Utils {
public:
    // --- files
    static bool exists(std::string f);
    static bool isDirectory(std::string f);
    static bool isFile(std::string f);
    static bool isEmpty(std::string dir);
    static void create_directories(std::string f);
    static void remove(std::string f);
    static void remove_all(std::string f);
    static void rename(std::string a, std::string b);
    static void copy(std::string a, std::string b);
    static void linkdir(std::string source, std::string dest);
    static void rmlink(std::string link);
    static void resizeFile(std::string f, uint64_t n);
    static uint64_t fileSize(std::string f);
    static std::string filename(std::string f);
    static std::string parentDir(std::string f);
    static std::string extension(std::string f);
    static bool hasExtension(const std::string &f);
    static std::vector<std::string> getFiles(std::string dir, bool restrictExt = false);
    static std::vector<std::string> getSubdirs(std::string dir);
    static std::vector<std::string> getFilesWithPrefix(std::string dir, std::string prefix);
    static std::vector<std::string> getFilesWithSuffix(std::string dir, std::string suffix);
    // --- strings
    static bool starts_with(const std::string &s, const std::string &p);
    static bool ends_with(const std::string &s, const std::string &p);
    static bool contains(const std::string &s, const std::string &p) { return s.find(p) != std::string::npos; }
    static int commonPrefix(tTerm *o1, int s1, int e1, tTerm *o2, int s2, int e2);
    static int prefixEquals(char *o1, int len1, char *o2, int len2);
    static int prefixEquals(char *o1, int len1, char *o2);
    static int compare(const char *o1, int s1, int e1, const char *o2, int s2, int e2);
    static int compare(const char *string1, const char *string2);
    // --- system
    static int getNumberPhysicalCores();
    static uint64_t getSystemMemory();
    static uint64_t getUsedMemory();
    static double get_max_mem();
    static int64_t getIOReadBytes();
    static int64_t getIOReadChars();
    static double getCPUUsage();
    // --- encoders (big endian)
    static short decode_short(const char *b, int o) { return decode_short(b + o); }
    static short decode_short(const char *b) { return (short) (((b[0] & 0xFF) << 8) + (b[1] & 0xFF)); }
    static void encode_short(char *b, int o, int n) { encode_short(b + o, n); }
    static void encode_short(char *b, int n) { b[0] = (char) ((n >> 8) & 0xFF); b[1] = (char) (n & 0xFF); }
    static int decode_int(const char *b, int o) { return decode_int(b + o); }
    static int decode_int(const char *b) {
        return (int) (((uint32_t)(b[0] & 0xFF) << 24) | ((uint32_t)(b[1] & 0xFF) << 16)
                | ((uint32_t)(b[2] & 0xFF) << 8) | (uint32_t)(b[3] & 0xFF));
    }
    static void encode_int(char *b, int o, int n) { encode_int(b + o, n); }
    static void encode_int(char *b, int n) { for (int i = 0; i < 4; ++i) b[i] = (char) (((uint32_t) n >> (24 - 8 * i)) & 0xFF); }
    static int64_t decode_long(const char *b, int o) { return decode_long(b + o); }
    static int64_t decode_long(const char *b) { return decode_longFixedBytes(b, 8); }
    static void encode_long(char *b, int o, int64_t n) { encode_long(b + o, n); }
    static void encode_long(char *b, int64_t n) { encode_longNBytes(b, 8, (uint64_t) n); }
    static int64_t decode_longFixedBytes(const char *b, const uint8_t nbytes) {
        uint64_t n = 0;
        for (int i = 0; i < nbytes; ++i) n = (n << 8) | (uint64_t)(b[i] & 0xFF);
        return (int64_t) n;
    }
    static void encode_longNBytes(char *b, const uint8_t nbytes, const uint64_t v) {
        for (int i = 0; i < nbytes; ++i) b[i] = (char) ((v >> (8 * (nbytes - 1 - i))) & 0xFF);
    }
    // first byte: 3 bits length, 5 bits payload
    static int numBytes(int64_t n);
    static int64_t decode_vlong(const char *b, int *offset);
    static int encode_vlong(char *b, int offset, int64_t n);
    static uint16_t encode_vlong(char *b, int64_t n) { return (uint16_t) encode_vlong(b, 0, n); }
    // 7 bits per byte
    static int numBytes2(int64_t n);
    static int64_t decode_vlong2(const char *b, int *offset);
    static int encode_vlong2(char *b, int offset, int64_t n);
    static uint16_t encode_vlong2(char *b, int64_t n) { return (uint16_t) encode_vlong2(b, 0, n); }
    static void encode_vlong2_fixedLen(char *b, int64_t n, const uint8_t len);
    static int decode_vint2(const char *b, int *offset) { return (int) decode_vlong2(b, offset); }
    static int encode_vint2(char *b, int offset, int n) { return encode_vlong2(b, offset, n); }
    static int numBytesFixedLength(int64_t n);
};
#endif
