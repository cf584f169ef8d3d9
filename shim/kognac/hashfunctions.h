#ifndef KOGNAC_SHIM_HASHFUNCTIONS_H
#define KOGNAC_SHIM_HASHFUNCTIONS_H
#include <cstddef>
#include <cstdint>
struct Hashes {
    static uint64_t fnv(const char *s, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) { h ^= (unsigned char) s[i]; h *= 1099511628211ull; } return h; }
    static int64_t dbj2s_56(const char *s, int n) { return (int64_t) (fnv(s, n) >> 8); }
    static int hashArray(const char *s, int n) { return (int) fnv(s, n); }
};
#endif
