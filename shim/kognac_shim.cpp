// Implementation of the stand-in for the KOGNAC library (see DESIGN.md).
#include <kognac/hashfunctions.h>
#include <kognac/utils.h>
#include <kognac/logs.h>
#include <kognac/lz4io.h>
#include <kognac/disklz4writer.h>
#include <kognac/multidisklz4writer.h>
#include <kognac/multidisklz4reader.h>
#include <kognac/filereader.h>
#include <kognac/diskreader.h>
#include <kognac/compressor.h>
#include <kognac/kognac.h>
#include <zstr/zstr.hpp>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/resource.h>
#include <unistd.h>
#include <ftw.h>
#include <errno.h>
#include <set>
#include <stdexcept>
using std::string; using std::vector;

std::atomic<uint64_t> &Logger::errors() { static std::atomic<uint64_t> e(0); return e; }
Logger::~Logger() {
    if (level >= ERRORL) errors()++;
    if (level >= getMinLevel()) { std::string m = os.str() + "\n"; std::cerr << m; }
}
// ---------------------------------------------------------------- files
bool Utils::exists(string f) { struct stat s; return ::stat(f.c_str(), &s) == 0; }
bool Utils::isDirectory(string f) { struct stat s; return ::stat(f.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
bool Utils::isFile(string f) { struct stat s; return ::stat(f.c_str(), &s) == 0 && S_ISREG(s.st_mode); }
static vector<string> ls(string d, int what) { // 0 files, 1 dirs, 2 all
    vector<string> out; DIR *h = opendir(d.c_str()); if (!h) return out;
    while (struct dirent *e = readdir(h)) {
        string n = e->d_name; if (n == "." || n == "..") continue;
        bool isd = Utils::isDirectory(d + "/" + n);
        if (what == 2 || (what == 1) == isd) out.push_back(n);
    }
    closedir(h); std::sort(out.begin(), out.end()); return out;
}
bool Utils::isEmpty(string d) { if (!isDirectory(d)) return fileSize(d) == 0; return ls(d, 2).empty(); }
void Utils::create_directories(string f) {
    for (size_t i = 1; i <= f.size(); ++i) if (i == f.size() || f[i] == '/') mkdir(f.substr(0, i).c_str(), 0777);
}
void Utils::remove(string f) { if (::remove(f.c_str()) != 0 && errno != ENOENT) { /* as boost: ignored */ } }
// Deletion is limited to the scratch directory of the run: a path outside of it
// is reported instead of removed.
static bool contained(const string &f) {
    const char *root = getenv("VERIF_SCRATCH"); if (!root || !*root) return true;
    char b[PATH_MAX]; string r = realpath(root, b) ? string(b) : string(root);
    string p = realpath(f.c_str(), b) ? string(b) : f;
    return p.compare(0, r.size() + 1, r + "/") == 0;
}
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { ::remove(p); return 0; }
void Utils::remove_all(string f) {
    if (!exists(f)) return;
    if (!contained(f)) { fprintf(stderr, "SHIM: remove_all outside the scratch directory refused: %s\n", f.c_str()); return; }
    nftw(f.c_str(), rmcb, 32, FTW_DEPTH | FTW_PHYS);
}
void Utils::rename(string a, string b) { if (::rename(a.c_str(), b.c_str()) != 0) throw std::runtime_error("rename " + a); }
void Utils::copy(string a, string b) { std::ifstream i(a.c_str(), std::ios::binary); std::ofstream o(b.c_str(), std::ios::binary | std::ios::trunc); if (fileSize(a) > 0) o << i.rdbuf(); }
void Utils::linkdir(string a, string b) { if (symlink(a.c_str(), b.c_str()) != 0) throw std::runtime_error("symlink"); }
void Utils::rmlink(string l) { unlink(l.c_str()); }
void Utils::resizeFile(string f, uint64_t n) { if (truncate(f.c_str(), (off_t) n) != 0) throw std::runtime_error("truncate " + f); }
uint64_t Utils::fileSize(string f) { struct stat s; if (::stat(f.c_str(), &s) != 0) throw std::runtime_error("fileSize " + f); return (uint64_t) s.st_size; }
string Utils::filename(string f) { size_t p = f.find_last_of('/'); return p == string::npos ? f : f.substr(p + 1); }
string Utils::parentDir(string f) { size_t p = f.find_last_of('/'); return p == string::npos ? string(".") : f.substr(0, p); }
string Utils::extension(string f) { f = filename(f); size_t p = f.find_last_of('.'); return p == string::npos ? string() : f.substr(p); }
bool Utils::hasExtension(const string &f) { return filename(f).find('.') != string::npos; }
vector<string> Utils::getFiles(string d, bool strip) {
    vector<string> out; std::set<string> seen;
    for (auto &n : ls(d, 0)) {
        if (n[0] == '.') continue;
        string f = d + "/" + n;
        if (strip) { size_t p = n.find_last_of('.'); if (p != string::npos) f = d + "/" + n.substr(0, p); }
        if (seen.insert(f).second) out.push_back(f);
    }
    return out;
}
vector<string> Utils::getSubdirs(string d) { vector<string> o; for (auto &n : ls(d, 1)) o.push_back(d + "/" + n); return o; }
vector<string> Utils::getFilesWithPrefix(string d, string p) { vector<string> o; for (auto &n : ls(d, 2)) if (starts_with(n, p)) o.push_back(n); return o; }
vector<string> Utils::getFilesWithSuffix(string d, string p) { vector<string> o; for (auto &n : ls(d, 2)) if (ends_with(n, p)) o.push_back(n); return o; }
// ---------------------------------------------------------------- strings
bool Utils::starts_with(const string &s, const string &p) { return s.compare(0, p.size(), p) == 0; }
bool Utils::ends_with(const string &s, const string &p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
int Utils::commonPrefix(tTerm *o1, int s1, int e1, tTerm *o2, int s2, int e2) {
    int n = std::min(e1 - s1, e2 - s2); for (int i = 0; i < n; ++i) if (o1[s1 + i] != o2[s2 + i]) return i; return n < 0 ? 0 : n;
}
int Utils::prefixEquals(char *o1, int l1, char *o2, int l2) {
    int i = 0; for (; i < l1 && i < l2; ++i) if (o1[i] != o2[i]) return ((int) o1[i] & 0xff) - ((int) o2[i] & 0xff);
    return i == l1 ? 0 : 1;
}
int Utils::prefixEquals(char *o1, int l1, char *o2) { return prefixEquals(o1, l1, o2, (int) strlen(o2)); }
int Utils::compare(const char *o1, int s1, int e1, const char *o2, int s2, int e2) {
    int i = s1, j = s2; for (; i < e1 && j < e2; ++i, ++j) if (o1[i] != o2[j]) return ((int) o1[i] & 0xff) - ((int) o2[j] & 0xff);
    return (e1 - s1) - (e2 - s2);
}
int Utils::compare(const char *a, const char *b) { return strcmp(a, b); }
// ---------------------------------------------------------------- system
int Utils::getNumberPhysicalCores() { return 8; }
// what the caller sizes its buffers with; bounded so that many runs fit side by side
uint64_t Utils::getSystemMemory() { const char *e = getenv("VERIF_SYSMEM"); return e ? strtoull(e, NULL, 10) : 4ull * 1024 * 1024 * 1024; }
uint64_t Utils::getUsedMemory() { struct rusage r; getrusage(RUSAGE_SELF, &r); return (uint64_t) r.ru_maxrss * 1024; }
double Utils::get_max_mem() { return getUsedMemory() / 1024.0 / 1024.0; }
int64_t Utils::getIOReadBytes() { return 0; }
int64_t Utils::getIOReadChars() { return 0; }
double Utils::getCPUUsage() { return 0; }
// ---------------------------------------------------------------- encoders
int Utils::numBytes(int64_t n) {
    if (n < 0) throw 10;
    uint64_t v = ((uint64_t) n) >> 5; int b = 1; while (v) { b++; v >>= 8; }
    if (b > 8) throw 10;
    return b;
}
int Utils::encode_vlong(char *b, int o, int64_t n) {
    int nb = numBytes(n); b[o++] = (char) (((nb - 1) << 5) + (n & 31)); uint64_t v = ((uint64_t) n) >> 5;
    for (int i = 1; i < nb; ++i) { b[o++] = (char) (v & 255); v >>= 8; }
    return o;
}
int64_t Utils::decode_vlong(const char *b, int *off) {
    int o = *off; int first = b[o++] & 255; int nb = (first >> 5) + 1; int64_t n = first & 31; int sh = 5;
    for (int i = 1; i < nb; ++i) { n += (int64_t) (b[o++] & 255) << sh; sh += 8; }
    *off = o; return n;
}
int Utils::numBytes2(int64_t n) { if (n < 0) throw 10; int b = 1; while ((n >>= 7) > 0) b++; return b; }
int Utils::encode_vlong2(char *b, int o, int64_t n) {
    if (n < 0) throw 10;
    while (n >= 128) { b[o++] = (char) ((n & 127) | 128); n >>= 7; }
    b[o++] = (char) n; return o;
}
int64_t Utils::decode_vlong2(const char *b, int *off) {
    int o = *off, sh = 0; int64_t n = 0;
    while (b[o] < 0) { n |= (int64_t) (b[o++] & 127) << sh; sh += 7; }
    n |= (int64_t) b[o++] << sh; *off = o; return n;
}
void Utils::encode_vlong2_fixedLen(char *b, int64_t n, const uint8_t len) {
    for (int i = 0; i < len - 1; ++i) { b[i] = (char) ((n & 127) | 128); n >>= 7; }
    if (n > 127) throw 10;
    b[len - 1] = (char) n;
}
int Utils::numBytesFixedLength(int64_t n) { int b = 1; uint64_t v = (uint64_t) n; while (v >>= 8) b++; return b; }
// ---------------------------------------------------------------- record files
LZ4Writer::LZ4Writer(string file) : path(file) { f = fopen(file.c_str(), "wb"); if (!f) throw std::runtime_error("LZ4Writer: cannot open " + file); }
void LZ4Writer::flush() { if (!buf.empty() && fwrite(&buf[0], 1, buf.size(), f) != buf.size()) throw std::runtime_error("write " + path); buf.clear(); }
LZ4Writer::~LZ4Writer() { flush(); fclose(f); }
LZ4Reader::LZ4Reader(string file) : pos(0), eof_(false) { f = fopen(file.c_str(), "rb"); if (!f) throw std::runtime_error("LZ4Reader: cannot open " + file); }
bool LZ4Reader::fill() { if (eof_) return false; buf.resize(65536); size_t n = fread(&buf[0], 1, buf.size(), f); buf.resize(n); pos = 0; if (!n) { eof_ = true; return false; } return true; }
bool LZ4Reader::isEof() { return pos >= buf.size() && !fill(); }
void LZ4Reader::need(char *o, size_t n) { while (n) { if (pos >= buf.size() && !fill()) throw std::runtime_error("LZ4Reader: read past the end"); size_t k = std::min(n, buf.size() - pos); memcpy(o, &buf[pos], k); pos += k; o += k; n -= k; } }
LZ4Reader::~LZ4Reader() { fclose(f); }
LZ4Writer *DiskLZ4Writer::at(int p) { LZ4Writer *w = parts.at(p).get(); if (!w) throw std::runtime_error("DiskLZ4Writer: part is closed"); return w; }
DiskLZ4Writer::DiskLZ4Writer(string file, int n, int) { for (int i = 0; i < n; ++i) parts.emplace_back(new LZ4Writer(file + "." + std::to_string(i))); }
void DiskLZ4Writer::setTerminated(const int p) { parts.at(p).reset(); }
MultiDiskLZ4Writer::MultiDiskLZ4Writer(vector<string> files, int, int) { for (auto &f : files) parts.emplace_back(new LZ4Writer(f)); }
MultiDiskLZ4Reader::MultiDiskLZ4Reader(int n, int, int) { parts.resize(n); }
void MultiDiskLZ4Reader::addInput(int p, vector<string> &files) { Part &x = parts.at(p); x.files.insert(x.files.end(), files.begin(), files.end()); }
LZ4Reader *MultiDiskLZ4Reader::at(int p) { if (isEOF(p)) throw std::runtime_error("MultiDiskLZ4Reader: read past the end"); return parts[p].r.get(); }
bool MultiDiskLZ4Reader::isEOF(int p) {
    Part &x = parts.at(p);
    while (true) {
        if (x.r && !x.r->isEof()) return false;
        x.r.reset();
        if (x.next >= x.files.size()) return true;
        x.r.reset(new LZ4Reader(x.files[x.next++]));
    }
}
char MultiDiskLZ4Reader::readByte(int p) { return at(p)->parseByte(); }
int64_t MultiDiskLZ4Reader::readLong(int p) { return at(p)->parseLong(); }
int64_t MultiDiskLZ4Reader::readVLong(int p) { return at(p)->parseVLong(); }
// ---------------------------------------------------------------- N-Triples
FileReader::FileReader(FileInfo info) : pos(0), valid(false) {
    std::ifstream i(info.path.c_str(), std::ios::binary);
    data = zstr::inflate_(zstr::slurp_(i));
}
bool FileReader::parseTriple() {
    while (pos < data.size()) {
        size_t e = data.find('\n', pos); if (e == string::npos) e = data.size();
        const char *b = data.data() + pos, *x = data.data() + e; pos = e + 1;
        while (b < x && isspace((unsigned char) *b)) b++;
        if (b == x || *b == '#') continue;
        valid = parseLine(b, x); return true;
    }
    return false;
}
static const char *termEnd(const char *b, const char *e) {
    if (b >= e) return NULL;
    if (*b == '<') { while (b < e && *b != '>') b++; return b < e ? b + 1 : NULL; }
    if (*b == '"') {
        b++; while (b < e && *b != '"') { if (*b == '\\') b++; b++; }
        if (b >= e) return NULL; b++;
        if (b < e && *b == '@') { while (b < e && !isspace((unsigned char) *b)) b++; }
        else if (b + 1 < e && b[0] == '^' && b[1] == '^') { b += 2; if (b < e && *b == '<') { while (b < e && *b != '>') b++; if (b < e) b++; } else while (b < e && !isspace((unsigned char) *b)) b++; }
        return b;
    }
    while (b < e && !isspace((unsigned char) *b)) b++; return b;
}
bool FileReader::parseLine(const char *b, const char *e) {
    string *out[3] = { &s, &p, &o };
    for (int i = 0; i < 3; ++i) {
        while (b < e && isspace((unsigned char) *b)) b++;
        const char *t = termEnd(b, e); if (!t || t == b) return false;
        out[i]->assign(b, t); if (out[i]->size() >= MAX_TERM_SIZE) return false;
        b = t;
    }
    while (b < e && isspace((unsigned char) *b)) b++;
    return b < e && *b == '.';
}
void DiskReader::run() {
    for (auto &f : *files) {
        std::ifstream i(f.path.c_str(), std::ios::binary); i.seekg(f.start);
        Buffer b; b.size = b.maxsize = (size_t) f.size; b.b = new char[b.size + 1]; i.read(b.b, b.size); b.b[b.size] = 0;
        b.gzipped = b.size > 1 && (unsigned char) b.b[0] == 0x1f && (unsigned char) b.b[1] == 0x8b;
        std::unique_lock<std::mutex> l(m); ready.push_back(b); cv.notify_all();
    }
    std::unique_lock<std::mutex> l(m); finished = true; cv.notify_all();
}
DiskReader::Buffer DiskReader::getfile() {
    std::unique_lock<std::mutex> l(m); while (ready.empty() && !finished) cv.wait(l);
    Buffer b; b.b = NULL; b.size = b.maxsize = 0; b.gzipped = false;
    if (!ready.empty()) { b = ready.front(); ready.pop_front(); }
    return b;
}
void DiskReader::releasefile(Buffer b) { delete[] b.b; }
// ---------------------------------------------------------------- dictionary encoding of RDF input
vector<string> Compressor::getAllDictFiles(string prefix) {
    vector<string> o; string d = Utils::parentDir(prefix), f = Utils::filename(prefix);
    for (auto &n : Utils::getFilesWithPrefix(d, f + ".dict-")) o.push_back(d + "/" + n);
    return o;
}
vector<FileInfo> *Compressor::splitInputInChunks(const string &input, int nchunks, string prefix) {
    vector<FileInfo> *o = new vector<FileInfo>[nchunks]; vector<string> fs;
    if (Utils::isDirectory(input)) { for (auto &f : Utils::getFiles(input)) if (Utils::starts_with(Utils::filename(f), prefix)) fs.push_back(f); }
    else fs.push_back(input);
    for (size_t i = 0; i < fs.size(); ++i) { FileInfo x; x.path = fs[i]; x.start = 0; x.size = (int64_t) Utils::fileSize(fs[i]); x.splittable = false; o[i % nchunks].push_back(x); }
    return o;
}
void Compressor::parse(int, int, int, int, int, int, bool, SchemaExtractor *, bool, bool) {
    vector<FileInfo> *in = splitInputInChunks(input, 1);
    for (auto &f : in[0]) {
        FileReader r(f); int l;
        while (r.parseTriple()) if (r.isTripleValid()) {
            T t; const char *x = r.getCurrentS(l); t.s.assign(x, l); x = r.getCurrentP(l); t.p.assign(x, l); x = r.getCurrentO(l); t.o.assign(x, l);
            triples.push_back(t);
        }
    }
    delete[] in; total = (int64_t) triples.size();
}
void Compressor::compress(string *permDirs, int nperms, int sig, string *dictFiles, int ndicts, int parallel, int, bool graph) {
    // popular terms first (most frequent, not in lexicographic order), the rest sorted
    std::map<string, uint64_t> freq;
    for (auto &t : triples) { freq[t.s]++; if (!graph) freq[t.p]++; freq[t.o]++; }
    vector<std::pair<uint64_t, string>> pop; for (auto &p : freq) pop.push_back(std::make_pair(p.second, p.first));
    std::sort(pop.begin(), pop.end(), [](const std::pair<uint64_t, string> &a, const std::pair<uint64_t, string> &b) { return a.first != b.first ? a.first > b.first : Hashes::fnv(a.second.data(), a.second.size()) < Hashes::fnv(b.second.data(), b.second.size()); });
    size_t npop = std::min<size_t>(pop.size(), std::max<size_t>(1, std::min<size_t>(64, pop.size() / 8))); if (pop.empty()) npop = 0;
    std::map<string, int64_t> ids; int64_t next = 0;
    { LZ4Writer w(dictFiles[0]); string b;
      for (size_t i = 0; i < npop; ++i) { const string &s = pop[i].second; ids[s] = next; w.writeLong(next++); char l[2]; Utils::encode_short(l, (int) s.size()); b.assign(l, 2); b += s; w.writeString(b.data(), (int) b.size()); } }
    { std::unique_ptr<LZ4Writer> w; int n = 0, k = 0;
      for (auto &p : freq) if (!ids.count(p.first)) {
          if (!w || k == 100000) { char nm[32]; snprintf(nm, sizeof nm, ".dict-%06d", n++); w.reset(new LZ4Writer(dictFiles[0] + nm)); k = 0; }
          k++; ids[p.first] = next; w->writeLong(next++); w->writeString(p.first.data(), (int) p.first.size());
      } }
    for (int i = 1; i < ndicts; ++i) LZ4Writer w(dictFiles[i]);
    int det[6]; parsePermutationSignature(sig, det);
    if (parallel < 1) parallel = 1;
    for (int i = 0; i < nperms; ++i) {
        vector<std::unique_ptr<LZ4Writer>> w; for (int j = 0; j < parallel; ++j) w.emplace_back(new LZ4Writer(permDirs[i] + "/input-" + std::to_string(j)));
        size_t c = 0;
        for (auto &t : triples) {
            int64_t s = ids[t.s], p = graph ? 0 : ids[t.p], o = ids[t.o]; LZ4Writer *x = w[c++ % parallel].get();
            int64_t a[3];
            if (graph) { a[0] = s; a[1] = o; a[2] = p; } else { a[0] = s; a[1] = p; a[2] = o; }
            for (int j = 0; j < 3; ++j) x->writeLong(a[j]);
        }
    }
}
void Kognac::sortCompressedGraph(string inputDir, string outputFile, int) {
    vector<Triple> v;
    for (auto &f : Utils::getFiles(inputDir)) { LZ4Reader r(f); while (!r.isEof()) { int64_t s = r.parseLong(), p = r.parseLong(), o = r.parseLong(); v.push_back(Triple(s, p, o)); } }
    std::sort(v.begin(), v.end());
    zstr::ofstream o(outputFile); for (auto &t : v) o << t.s << " " << t.p << " " << t.o << "\n";
}
