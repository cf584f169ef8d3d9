// Stand-in for zstr (comes with KOGNAC): transparent gzip streams.
#ifndef ZSTR_SHIM_HPP
#define ZSTR_SHIM_HPP
#include <zlib.h>
#include <fstream>
#include <iterator>
#include <sstream>
#include <stdexcept>
#include <string>
namespace zstr {
inline std::string inflate_(const std::string &in) {
    if (in.size() < 2 || (unsigned char) in[0] != 0x1f || (unsigned char) in[1] != 0x8b) return in;
    std::string out; z_stream z; z.zalloc = Z_NULL; z.zfree = Z_NULL; z.opaque = Z_NULL; z.next_in = (Bytef *) in.data(); z.avail_in = (uInt) in.size();
    if (inflateInit2(&z, 15 + 32) != Z_OK) throw std::runtime_error("zlib");
    char b[65536]; int r = Z_OK;
    while (r != Z_STREAM_END) {
        z.next_out = (Bytef *) b; z.avail_out = sizeof(b);
        r = inflate(&z, Z_NO_FLUSH);
        if (r != Z_OK && r != Z_STREAM_END) { inflateEnd(&z); throw std::runtime_error("zlib: bad data"); }
        out.append(b, sizeof(b) - z.avail_out);
    }
    inflateEnd(&z); return out;
}
inline std::string slurp_(std::istream &i) { return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
class istream : public std::istringstream { public: istream(std::istream &i) : std::istringstream(inflate_(slurp_(i))) {} };
inline std::string file_(const std::string &f) { std::ifstream i(f.c_str(), std::ios::binary); if (!i) throw std::runtime_error("cannot open " + f); return inflate_(slurp_(i)); }
class ifstream : public std::istringstream { public: ifstream(const std::string &f, std::ios_base::openmode = std::ios_base::in) : std::istringstream(file_(f)) {} void close() {} };
class ofstream : public std::ostringstream {
    std::string f; bool done;
public:
    ofstream(const std::string &f, std::ios_base::openmode = std::ios_base::out) : f(f), done(false) {}
    void close() { if (done) return; done = true; gzFile g = gzopen(f.c_str(), "wb"); if (!g) return; std::string s = str(); size_t o = 0; while (o < s.size()) { unsigned n = (unsigned) std::min<size_t>(s.size() - o, 1 << 20); gzwrite(g, s.data() + o, n); o += n; } gzclose(g); }
    ~ofstream() { close(); }
};
}
#endif
