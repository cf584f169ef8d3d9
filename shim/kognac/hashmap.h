#ifndef KOGNAC_SHIM_HASHMAP_H
#define KOGNAC_SHIM_HASHMAP_H
#include <kognac/consts.h>
#include <kognac/utils.h>
#include <kognac/hashfunctions.h>
#include <google/dense_hash_map>
#include <google/sparse_hash_map>
#include <sparsehash/dense_hash_map>
#include <sparsehash/sparse_hash_map>
#include <cstring>
// strings with a two byte big endian length in front
static const char *const EMPTY_KEY = "\xFF\xFE";
static const char *const DELETED_KEY = "\xFF\xFD";
struct kognac_ba_len { static size_t len(const char *s) { size_t n = (uint16_t) Utils::decode_short(s); return n >= 0xFFF0 ? 0 : n; } };
struct kognac_ba_hash { size_t operator()(const char *s) const { return (size_t) Hashes::fnv(s, 2 + kognac_ba_len::len(s)); } };
struct kognac_ba_eq { bool operator()(const char *a, const char *b) const {
    if (a == b) return true; if (!a || !b) return false;
    size_t n = kognac_ba_len::len(a); if (memcmp(a, b, 2) != 0) return false; return memcmp(a + 2, b + 2, n) == 0; } };
typedef google::dense_hash_map<const char *, nTerm, kognac_ba_hash, kognac_ba_eq> ByteArrayToNumberMap;
typedef google::dense_hash_map<std::string, nTerm> GStringToNumberMap;
#endif
