// Shared by all harnesses: seeded cases, violation reporting, counters, evidence.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <type_traits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <algorithm>
#include <functional>
#include <mutex>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>

namespace vf {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // [a, b]
    int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t) (b - a + 1)); }
    // a percentage if it is a whole number, a probability otherwise
    template<class T> bool chance(T p) { return std::is_floating_point<T>::value ? real() < (double) p : (int) below(100) < (int) p; }
    double real() { return (double) (next() >> 11) / 9007199254740992.0; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template<class T> void shuffle(std::vector<T> &v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 1000003 + b); return r.next(); }
inline uint64_t hashStr(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

struct State {
    uint64_t seed = 1, first = 0, ncases = 1, cur = 0, stride = 1;
    int violations = 0;
    std::string tier = "quick", mode, scratch;
    std::map<std::string, uint64_t> count;
    std::unordered_set<uint64_t> distinct; // distinct non-trivial cases
    std::vector<std::string> samples;
    std::map<std::string, std::string> opts;
    std::mutex mu;
    int knownSeen = 0;
};
inline State &st() { static State s; return s; }

inline std::string fmt(const char *f, ...) {
    char buf[4096];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof(buf), f, ap); va_end(ap);
    return buf;
}
inline std::string oneline(std::string s) {
    for (auto &c : s) if (c == '\n' || c == '\r' || (unsigned char) c < 32) c = ' ';
    if (s.size() > 1500) s = s.substr(0, 1500) + "...";
    return s;
}
inline void flushStats();
// key: stable short identifier of what failed (known findings match on it)
inline void violation(const std::string &key, const std::string &msg) {
    std::lock_guard<std::mutex> g(st().mu);
    printf("@@VIOL %llu|%s|%s\n", (unsigned long long) st().cur, key.c_str(), oneline(msg).c_str());
    fflush(stdout);
    if (++st().violations > 40) { flushStats(); fflush(stdout); _exit(3); }
}
#define VF_CHECK(cond, key, ...) do { if (!(cond)) ::vf::violation(key, ::vf::fmt(__VA_ARGS__)); } while (0)

inline void add(const std::string &k, uint64_t n = 1) { std::lock_guard<std::mutex> g(st().mu); st().count[k] += n; }
inline void distinct(uint64_t h) { std::lock_guard<std::mutex> g(st().mu); st().distinct.insert(h); }
inline void sample(const std::string &s) { std::lock_guard<std::mutex> g(st().mu); if (st().samples.size() < 3) st().samples.push_back(oneline(s)); }

inline std::string jsonEsc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
inline void flushStats() {
    std::string o = "{\"count\":{";
    bool f = true;
    for (auto &p : st().count) { if (!f) o += ","; f = false; o += "\"" + jsonEsc(p.first) + "\":" + std::to_string(p.second); }
    o += "},\"distinct\":[";
    f = true;
    for (auto h : st().distinct) { if (!f) o += ","; f = false; o += std::to_string(h % 1000000007ULL); }
    o += "],\"samples\":[";
    f = true;
    for (auto &s : st().samples) { if (!f) o += ","; f = false; o += "\"" + jsonEsc(s) + "\""; }
    o += "]}";
    printf("@@STAT %s\n", o.c_str());
    fflush(stdout);
}

inline void rmrf(const std::string &p) {
    // only below the scratch directory of this process
    if (st().scratch.size() < 8 || p.compare(0, st().scratch.size(), st().scratch) != 0) return;
    struct stat sb;
    if (lstat(p.c_str(), &sb) != 0) return;
    if (S_ISDIR(sb.st_mode)) {
        DIR *d = opendir(p.c_str());
        if (d) {
            while (struct dirent *e = readdir(d)) {
                std::string n = e->d_name;
                if (n != "." && n != "..") rmrf(p + "/" + n);
            }
            closedir(d);
        }
        rmdir(p.c_str());
    } else unlink(p.c_str());
}
inline std::string freshDir(const std::string &name) {
    std::string p = st().scratch + "/" + name;
    rmrf(p);
    mkdir(p.c_str(), 0755);
    return p;
}
inline bool slurp(const std::string &p, std::string &out) {
    FILE *f = fopen(p.c_str(), "rb");
    if (!f) return false;
    out.clear();
    char b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
    fclose(f);
    return true;
}
inline void spew(const std::string &p, const std::string &s) {
    FILE *f = fopen(p.c_str(), "wb");
    if (!f) { perror(p.c_str()); _exit(4); }
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
// path -> content hash, recursively
inline void hashTree(const std::string &p, const std::string &rel, std::map<std::string, uint64_t> &out) {
    DIR *d = opendir(p.c_str());
    if (!d) return;
    std::vector<std::string> names;
    while (struct dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
    closedir(d);
    for (auto &n : names) {
        struct stat sb;
        if (lstat((p + "/" + n).c_str(), &sb) != 0) continue;
        if (S_ISDIR(sb.st_mode)) { out[rel + n + "/"] = 0; hashTree(p + "/" + n, rel + n + "/", out); }
        else { std::string c; slurp(p + "/" + n, c); out[rel + n] = hashStr(c); }
    }
}

typedef std::function<void(Rng &, uint64_t)> CaseFn;
// Usage: harness --seed S --first F --cases N --stride K --tier T --mode M
inline int run(int argc, char **argv, const CaseFn &fn) {
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") st().seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--first") st().first = strtoull(v.c_str(), 0, 10);
        else if (a == "--cases") st().ncases = strtoull(v.c_str(), 0, 10);
        else if (a == "--stride") st().stride = strtoull(v.c_str(), 0, 10);
        else if (a == "--tier") st().tier = v;
        else if (a == "--mode") st().mode = v;
        else if (a.compare(0, 2, "--") == 0) st().opts[a.substr(2)] = v;
    }
    const char *sc = getenv("VERIF_SCRATCH");
    char tmpl[] = "/tmp/vfXXXXXX";
    bool own = false;
    if (sc && *sc) { st().scratch = sc; mkdir(sc, 0755); }
    else { st().scratch = mkdtemp(tmpl); setenv("VERIF_SCRATCH", st().scratch.c_str(), 1); own = true; }
    setvbuf(stdout, NULL, _IOLBF, 0);
    for (uint64_t k = 0, i = st().first; k < st().ncases; ++k, i += st().stride) {
        st().cur = i;
        printf("@@CASE %llu\n", (unsigned long long) i);
        fflush(stdout);
        Rng r(mix(st().seed, i));
        fn(r, i);
        add("cases");
        if (k % 16 == 15) flushStats();
    }
    flushStats();
    printf("@@DONE\n");
    fflush(stdout);
    if (own) rmrf(st().scratch);
    return 0;
}
} // namespace vf
#endif
