#ifndef KOGNAC_SHIM_FILEMERGER_H
#define KOGNAC_SHIM_FILEMERGER_H
#include <kognac/lz4io.h>
#include <memory>
#include <queue>
#include <string>
#include <vector>
// k-way merge of sorted runs. A run is one file, or the parts run.0, run.1, ...
template<class K> class FileMerger {
    struct Run { std::string base; int ext; std::string cur; std::unique_ptr<LZ4Reader> r; K el; bool ok; };
    std::vector<std::unique_ptr<Run>> runs;
    bool delFile, delExt;
    bool open(Run &r) {
        while (true) {
            std::string f = r.ext < 0 ? r.base : r.base + "." + std::to_string(r.ext);
            if (!Utils::exists(f)) return false;
            r.cur = f; r.r.reset(new LZ4Reader(f));
            if (!r.r->isEof()) return true;
            close(r);
            if (r.ext < 0) return false;
            r.ext++;
        }
    }
    void close(Run &r) {
        r.r.reset();
        if (delFile || (delExt && r.ext >= 0)) Utils::remove(r.cur);
    }
    void advance(Run &r) {
        r.ok = false;
        if (!r.r) return;
        if (r.r->isEof()) {
            close(r);
            if (r.ext < 0) return;
            r.ext++;
            if (!open(r)) return;
        }
        r.el.readFrom(r.r.get()); r.ok = true;
    }
public:
    FileMerger(std::vector<std::string> fn, bool deletePreviousFiles = false, bool deletePreviousExt = false, bool deleteFiles = false)
        : delFile(deleteFiles), delExt(deletePreviousExt) {
        (void) deletePreviousFiles;
        for (auto &f : fn) {
            std::unique_ptr<Run> r(new Run()); r->base = f; r->ok = false;
            r->ext = Utils::exists(f) ? -1 : 0;
            if (open(*r)) { r->el.readFrom(r->r.get()); r->ok = true; runs.push_back(std::move(r)); }
        }
    }
    bool isEmpty() { for (auto &r : runs) if (r->ok) return false; return true; }
    K get() {
        Run *best = NULL;
        for (auto &r : runs) if (r->ok && (!best || best->el.greater(r->el))) best = r.get();
        K out = best->el;
        advance(*best);
        return out;
    }
};
template<int N, class K> class FastFileMerger : public FileMerger<K> {
public:
    FastFileMerger(std::vector<std::string> fn, bool d = false, bool e = false) : FileMerger<K>(fn, d, e, e) {} // the caller replaces the merged fragments
};
#endif
