// Stand-in for the (absent) KOGNAC library: typed byte streams. The original
// compresses with LZ4 block by block; the stand-in writes the same records plain.
#ifndef KOGNAC_SHIM_LZ4IO_H
#define KOGNAC_SHIM_LZ4IO_H
#include <kognac/consts.h>
#include <kognac/utils.h>
#include <cstdio>
#include <string>
#include <vector>
#include <lz4.h>
class LZ4Writer {
    FILE *f; std::string path; std::vector<char> buf;
    void put(const char *p, size_t n) { buf.insert(buf.end(), p, p + n); if (buf.size() > 60000) flush(); }
    void flush();
public:
    LZ4Writer(std::string file);
    void writeByte(char c) { put(&c, 1); }
    void writeInt(int n) { char b[4]; Utils::encode_int(b, n); put(b, 4); }
    void writeLong(int64_t n) { char b[8]; Utils::encode_long(b, n); put(b, 8); }
    void writeVLong(int64_t n) { char b[10]; int l = Utils::encode_vlong2(b, 0, n); put(b, l); }
    void writeShort(short n) { char b[2]; Utils::encode_short(b, n); put(b, 2); }
    void writeRawArray(const char *b, int n) { put(b, n); }
    void writeString(const char *b, int n) { writeVLong(n); put(b, n); }
    ~LZ4Writer();
};
class LZ4Reader {
    FILE *f; std::vector<char> buf; size_t pos; std::vector<char> str; bool eof_;
    bool fill();
    void need(char *out, size_t n);
public:
    LZ4Reader(std::string file);
    bool isEof();
    char parseByte() { char c; need(&c, 1); return c; }
    int parseInt() { char b[4]; need(b, 4); return Utils::decode_int(b); }
    int64_t parseLong() { char b[8]; need(b, 8); return Utils::decode_long(b); }
    int64_t parseVLong() { int64_t n = 0; int shift = 0; while (true) { char c; need(&c, 1); n |= (int64_t)(c & 127) << shift; if (!(c & 128)) break; shift += 7; } return n; }
    const char *parseString(int &size) { size = (int) parseVLong(); str.resize(size + 1); if (size) need(&str[0], size); return &str[0]; }
    ~LZ4Reader();
};
#endif
