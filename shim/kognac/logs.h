// Stand-in for the (absent) KOGNAC library: leveled logger.
#ifndef KOGNAC_SHIM_LOGS_H
#define KOGNAC_SHIM_LOGS_H
#include <cstdint>
#include <sstream>
#include <string>
#include <atomic>
#include <memory>
#include <vector>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <chrono>
#include <cassert>
#define TRACEL 0
#define DEBUGL 1
#define INFOL 2
#define WARNL 3
#define ERRORL 4
class Logger {
    std::ostringstream os;
    const int level;
    static std::atomic<int> &minLevel() { static std::atomic<int> l(ERRORL + 1); return l; }
public:
    typedef int LogLevel;
    struct FileLogger { FileLogger(std::string) {} };
    Logger(int l) : level(l) {}
    template<typename T> Logger &operator<<(const T &v) { os << v; return *this; }
    ~Logger();
    static void setMinLevel(int l) { minLevel() = l; }
    static int getMinLevel() { return minLevel(); }
    static bool check(int l) { return l >= minLevel(); }
    static void logToFile(std::string) {}
    // number of ERRORL messages seen by this process (a monitor reads it)
    static std::atomic<uint64_t> &errors();
};
#define LOG(L) if ((L) < Logger::getMinLevel() && (L) != ERRORL) ; else Logger(L)
#endif
