// C15: parallel helpers and the threading infrastructure: sort, loops, queues, pools, events, scheduler.
#include "common.h"
#include <trident/utils/parallel.h>
#include "infra/osdep/Event.hpp"
#include "infra/osdep/Mutex.hpp"
#include "infra/osdep/Thread.hpp"
#include "infra/util/Pool.hpp"
#include "infra/util/VarPool.hpp"
#include "rts/operator/Scheduler.hpp"
#include "rts/operator/Operator.hpp"
#include <thread>
#include <atomic>
#include <chrono>
#include <memory>
using namespace vf;
using std::vector;
using std::string;

// Watches one case: a lost wakeup shows as a case that does not finish.
struct Watch {
    std::atomic<bool> done{false};
    std::thread t;
    Watch(const char *what, int seconds) {
        t = std::thread([this, what, seconds]() {
            for (int i = 0; i < seconds * 100; ++i) {
                if (done.load()) return;
                std::this_thread::sleep_for(std::chrono::milliseconds(10));
            }
            violation(string("hang:") + what, fmt("%s did not finish within %d s", what, seconds));
            flushStats(); _exit(3);
        });
    }
    ~Watch() { done.store(true); t.join(); }
};

// ------------------------------------------------------------------ sort
struct Rec { uint64_t a; uint32_t b; int64_t id; };
static std::atomic<uint64_t> g_cmp;
struct RecLess {
    int kind;
    bool operator()(const Rec &x, const Rec &y) const {
        g_cmp.fetch_add(1, std::memory_order_relaxed);
        switch (kind) {
            case 0: return x.a < y.a;
            case 1: return x.a != y.a ? x.a < y.a : x.b < y.b;
            case 2: return x.b > y.b;
            default: return (x.a & 7) < (y.a & 7);
        }
    }
};
static bool recLessFn(const Rec &x, const Rec &y) { return x.a != y.a ? x.a < y.a : x.b < y.b; }

static size_t pickLen(Rng &r) {
    switch (r.below(7)) {
        case 0: return r.below(4);
        case 1: return 1020 + r.below(12);
        case 2: return 2040 + r.below(20);
        case 3: return r.below(1024);
        case 4: return 1025 + r.below(8000);
        case 5: return 20000 + r.below(40000);
        default: return r.below(3000);
    }
}
static int pickThreads(Rng &r) {
    static const int T[] = {1, 2, 3, 4, 5, 7, 8, 16, 31};
    return T[r.below(9)];
}
static uint64_t fillVal(Rng &r, int dist, size_t i, size_t n) {
    switch (dist) {
        case 0: return r.next();
        case 1: return r.below(8);
        case 2: return i;
        case 3: return n - i;
        case 4: return r.below(n + 1);
        case 5: return i % 2 ? i : n + i;        // sawtooth
        case 6: return i < n / 2 ? i + n : i;     // second half before the first
        default: return 5;
    }
}
static void caseSort(Rng &r) {
    size_t n = pickLen(r); int nt = pickThreads(r), dist = r.below(8), kind = r.below(4);
    int form = r.below(4);
    if (form == 0) { // plain values, no comparator, default thread count
        vector<int64_t> v(n);
        for (size_t i = 0; i < n; ++i) v[i] = (int64_t) fillVal(r, dist, i, n);
        size_t lo = n ? r.below(n / 4 + 1) : 0, hi = n - (n ? r.below(n / 4 + 1) : 0);
        if (hi < lo) hi = lo;
        vector<int64_t> w = v;
        std::sort(w.begin() + lo, w.begin() + hi);
        bool def = r.chance(50);
        ParallelTasks::setNThreads(def ? (r.chance(30) ? -1 : nt) : -1);
        if (def) ParallelTasks::sort_int(v.begin() + lo, v.begin() + hi);
        else ParallelTasks::sort_int(v.begin() + lo, v.begin() + hi, nt);
        ParallelTasks::setNThreads(-1);
        VF_CHECK(v == w, "sort:plain", "sort_int of %zu of %zu values with %d threads differs from the sorted sequence (distribution %d)", hi - lo, n, nt, dist);
        add("sort:plain"); add("elements", n);
    } else {
        vector<Rec> v(n);
        for (size_t i = 0; i < n; ++i) { v[i].a = fillVal(r, dist, i, n); v[i].b = r.below(5); v[i].id = i; }
        vector<Rec> before = v;
        size_t lo = n ? r.below(n / 4 + 1) : 0, hi = n - (n ? r.below(n / 4 + 1) : 0);
        if (hi < lo) hi = lo;
        if (form == 1) {
            ParallelTasks::sort_int(v.begin() + lo, v.begin() + hi, RecLess{kind}, nt);
        } else if (form == 2) {
            kind = 1;
            ParallelTasks::sort_int(v.begin() + lo, v.begin() + hi, &recLessFn, nt);
        } else { // raw pointers: the whole array
            lo = 0; hi = n;
            Rec *p = v.data();
            ParallelTasks::sort_int(p, p + n, RecLess{kind}, nt);
        }
        RecLess c{kind};
        for (size_t i = lo + 1; i < hi; ++i)
            if (c(v[i], v[i - 1])) { violation("sort:order", fmt("element %zu of %zu is out of order after sorting with %d threads", i, hi - lo, nt)); break; }
        vector<char> seen(n, 0);
        for (size_t i = 0; i < n; ++i) {
            int64_t id = v[i].id;
            bool in = i >= lo && i < hi;
            bool ok = id >= 0 && (size_t) id < n && !seen[id] && v[i].a == before[id].a && v[i].b == before[id].b && (in ? (size_t) id >= lo && (size_t) id < hi : (size_t) id == i);
            if (!ok) { violation("sort:perm", fmt("after sorting [%zu,%zu) of %zu with %d threads position %zu holds element %lld: not a permutation", lo, hi, n, nt, i, (long long) id)); break; }
            seen[id] = 1;
        }
        add("sort:records"); add("elements", n);
    }
    distinct(mix(mix(n, nt), mix(dist, kind * 5 + form))); sample(fmt("sort n=%llu threads=%d distribution=%d kind=%d form=%d", (unsigned long long)n, (int)nt, (int)dist, (int)kind, (int)form));
}
struct Boom { int64_t at; };
static void caseSortThrow(Rng &r) {
    size_t n = 3000 + r.below(4000); int nt = 2 + r.below(6);
    vector<int> v(n);
    for (auto &x : v) x = r.below(1000000);
    v[r.below(n)] = -7;
    auto cmp = [](const int &a, const int &b) -> bool { if (a == -7 || b == -7) throw std::runtime_error("x"); return a < b; };
    bool thrown = false;
    try { ParallelTasks::sort_int(v.begin(), v.end(), cmp, nt); } catch (std::runtime_error &) { thrown = true; }
    VF_CHECK(thrown, "sort:exception", "a comparator that throws in one half of sort_int (%d threads, %zu values) went unnoticed", nt, n);
    add("sort:throwing");
}
// ------------------------------------------------------------------ parallel_for
struct Body {
    std::atomic<int> *hits; size_t lo, hi; std::atomic<int> *bad; std::atomic<int> *calls; int64_t throwAt; int delay;
    void operator()(const ParallelRange &p) const {
        calls->fetch_add(1);
        if (p.begin() > p.end() || (p.end() > p.begin() && (p.begin() < lo || p.end() > hi))) { bad->fetch_add(1); return; }
        for (size_t i = p.begin(); i < p.end(); ++i) {
            if (throwAt >= 0 && (size_t) throwAt == i) throw std::runtime_error("x");
            hits[i].fetch_add(1);
        }
        if (delay) std::this_thread::sleep_for(std::chrono::microseconds(delay));
    }
};
static void caseFor(Rng &r) {
    size_t lo = r.chance(50) ? 0 : r.below(300), n = r.chance(10) ? 0 : r.below(2000), hi = lo + n;
    size_t grain = r.chance(30) ? 1 + r.below(3) : (r.chance(20) ? n + r.below(50) : 1 + r.below(400));
    int nt = pickThreads(r);
    vector<std::atomic<int>> hits(hi + 10);
    for (auto &h : hits) h.store(0);
    std::atomic<int> bad(0), calls(0);
    int64_t th = (n && r.chance(15)) ? (int64_t) (lo + r.below(n)) : -1;
    bool def = r.chance(30), thrown = false;
    Body b{hits.data(), lo, hi, &bad, &calls, th, r.chance(20) ? (int) r.below(200) : 0};
    ParallelTasks::setNThreads(def ? nt : -1);
    try {
        if (def) ParallelTasks::parallel_for(lo, hi, grain, b);
        else ParallelTasks::parallel_for(lo, hi, grain, b, nt);
    } catch (std::runtime_error &) { thrown = true; }
    ParallelTasks::setNThreads(-1);
    if (th >= 0) {
        VF_CHECK(thrown, "for:exception", "a chunk of parallel_for [%zu,%zu) grain %zu with %d threads failed and the caller saw nothing", lo, hi, grain, nt);
    } else {
        VF_CHECK(!thrown && bad.load() == 0, "for:range", "parallel_for [%zu,%zu) grain %zu with %d threads passed a range outside the bounds", lo, hi, grain, nt);
        for (size_t i = 0; i < hits.size(); ++i) {
            int want = i >= lo && i < hi;
            if (hits[i].load() != want) { violation("for:coverage", fmt("parallel_for [%zu,%zu) grain %zu with %d threads processed element %zu %d times", lo, hi, grain, nt, i, hits[i].load())); break; }
        }
        VF_CHECK(calls.load() <= nt + 1, "for:threads", "parallel_for with %d threads made %d chunks", nt, calls.load());
    }
    add("for:loops"); add("for:chunks", calls.load());
    distinct(mix(mix(lo, n), mix(grain, nt)));
}
// ------------------------------------------------------------------ queue
static void caseQueue(Rng &r) {
    int np = 1 + r.below(4), nc = 1 + r.below(4), per = 1 + r.below(300);
    bool movable = r.chance(40);
    uint64_t jit = r.next();
    ConcurrentQueue<std::shared_ptr<int64_t>> q;
    int64_t total = (int64_t) np * per;
    vector<vector<int64_t>> got(nc);
    vector<std::thread> ts;
    Watch w("ConcurrentQueue", 60);
    for (int p = 0; p < np; ++p) ts.emplace_back([&, p]() {
        Rng rr(mix(jit, p));
        for (int i = 0; i < per; ++i) {
            q.push(std::make_shared<int64_t>((int64_t) p * per + i));
            if (rr.chance(3)) std::this_thread::sleep_for(std::chrono::microseconds(rr.below(60)));
        }
    });
    for (int c = 0; c < nc; ++c) ts.emplace_back([&, c]() {
        Rng rr(mix(jit, 100 + c));
        while (true) {
            std::shared_ptr<int64_t> x;
            if (movable && rr.chance(20)) q.isEmpty();
            q.pop_wait(x);
            if (!x) { violation("queue:null", "pop_wait returned an element nobody pushed"); break; }
            if (*x < 0) break;
            got[c].push_back(*x);
            if (rr.chance(3)) std::this_thread::sleep_for(std::chrono::microseconds(rr.below(60)));
        }
    });
    for (int p = 0; p < np; ++p) ts[p].join();
    for (int c = 0; c < nc; ++c) q.push(std::make_shared<int64_t>(-1));
    for (size_t i = np; i < ts.size(); ++i) ts[i].join();
    vector<int> seen(total, 0);
    for (auto &g : got) {
        vector<int64_t> last(np, -1);
        for (auto x : g) {
            if (x >= total) { violation("queue:value", "an element nobody pushed"); continue; }
            seen[x]++;
            int64_t p = x / per;
            VF_CHECK(x > last[p], "queue:order", "a consumer got element %lld of producer %lld after %lld: not first in, first out", (long long) x, (long long) p, (long long) last[p]);
            last[p] = x;
        }
    }
    for (int64_t i = 0; i < total; ++i) if (seen[i] != 1) { violation("queue:once", fmt("element %lld of %lld was delivered %d times (%d producers, %d consumers)", (long long) i, (long long) total, seen[i], np, nc)); break; }
    VF_CHECK(q.isEmpty(), "queue:empty", "queue not empty after everything was taken");
    add("queue:delivered", total);
    distinct(mix(np * 10 + nc, per)); sample(fmt("queue producers=%d consumers=%d items each=%d", (int)np, (int)nc, (int)per));
    // sequential: pop, isEmpty, order
    ConcurrentQueue<string> s; std::vector<string> model; size_t head = 0;
    for (int i = 0; i < 60; ++i) {
        if (r.chance(55)) { string e = fmt("e%d", i); s.push(e); model.push_back(e); }
        else if (head < model.size()) { string e; if (r.chance(50)) s.pop(e); else s.pop_wait(e); VF_CHECK(e == model[head], "queue:fifo", "pop returned %s, expected %s", e.c_str(), model[head].c_str()); head++; }
        VF_CHECK(s.isEmpty() == (head == model.size()), "queue:isEmpty", "isEmpty is wrong");
    }
}
// ------------------------------------------------------------------ pools
static std::atomic<int64_t> g_live(0);
static std::atomic<int> g_throwCtor(0);
struct Tracked {
    uint64_t tag; uint64_t extra[3]; Tracked *self;
    Tracked() : tag(0), self(this) { if (g_throwCtor.load()) throw 7; g_live++; }
    Tracked(const Tracked &o) : tag(o.tag), self(this) { if (g_throwCtor.load()) throw 7; g_live++; }
    ~Tracked() { if (self != this) violation("pool:dtor", "a destructor ran on memory that holds no object"); self = nullptr; g_live--; }
};
struct Small { uint32_t x; };
struct Plain { uint64_t a, b; };
struct VarEntry { uint64_t hdr; uint64_t data[1]; };
template<class T> struct Coll { std::multiset<T *> s; void operator()(T *t) { s.insert(t); } };
template<class T, class PoolT> static void poolOps(Rng &r, PoolT &pool, const char *name, size_t bytes, bool canEnum,
        std::function<T*()> alloc, std::function<void(T*)> fr, std::function<void()> freeAll, bool zero) {
    vector<T *> live; std::map<T *, unsigned char> fill;
    int ops = 20 + r.below(r.chance(10) ? 1500 : 250);
    auto verify = [&](T *p) {
        unsigned char *c = (unsigned char *) p;
        for (size_t i = 0; i < bytes; ++i) if (c[i] != fill[p]) { violation(string("pool:overlap:") + name, fmt("%s: byte %zu of a live entry changed", name, i)); return; }
    };
    for (int i = 0; i < ops; ++i) {
        int k = r.below(100);
        if (k < 60 || live.empty()) {
            T *p = alloc();
            if (!p) { violation(string("pool:null:") + name, "alloc returned null"); return; }
            if (fill.count(p)) { violation(string("pool:twice:") + name, fmt("%s: alloc handed out an entry that is still in use", name)); return; }
            if ((uintptr_t) p % alignof(T)) violation(string("pool:align:") + name, "entry is not aligned");
            if (zero) for (size_t b = 0; b < bytes; ++b) if (((unsigned char *) p)[b]) { violation(string("pool:zero:") + name, "a new entry of a zero-initialising pool is not zero"); break; }
            unsigned char f = 1 + r.below(255);
            memset((void*) p, f, bytes);
            fill[p] = f; live.push_back(p);
        } else if (k < 90) {
            size_t j = r.below(live.size());
            T *p = live[j]; verify(p);
            fill.erase(p); live[j] = live.back(); live.pop_back();
            fr(p);
        } else if (k < 97) {
            if (canEnum) {
                Coll<T> c; pool.enumAll(c);
                std::multiset<T *> w(live.begin(), live.end());
                if (c.s != w) { violation(string("pool:enum:") + name, fmt("%s: enumAll visited %zu entries, %zu are in use (or other ones)", name, c.s.size(), w.size())); return; }
                add("pool:enum");
            }
        } else if (r.chance(40)) {
            for (auto p : live) verify(p);
            freeAll(); live.clear(); fill.clear();
        }
    }
    for (auto p : live) verify(p);
    add("pool:ops", ops);
}
static void casePool(Rng &r) {
    unsigned cs = r.chance(50) ? 32 : 1 + r.below(70);
    switch (r.below(5)) {
        case 0: { StructPool<Plain> p(cs); poolOps<Plain>(r, p, "StructPool", sizeof(Plain), true, [&] { return p.alloc(); }, [&](Plain *x) { p.free(x); }, [&] { p.freeAll(); }, false); break; }
        case 1: { StructPool<Small> p(cs); poolOps<Small>(r, p, "StructPool<small>", sizeof(Small), true, [&] { return p.alloc(); }, [&](Small *x) { p.free(x); }, [&] { p.freeAll(); }, false); break; }
        case 2: { InitZeroStructPool<Plain> p(cs); poolOps<Plain>(r, p, "InitZeroStructPool", sizeof(Plain), true, [&] { return p.alloc(); }, [&](Plain *x) { p.free(x); }, [&] { p.freeAll(); }, true); break; }
        case 3: {
            unsigned ex = r.below(10) * 8;
            VarPool<VarEntry> p(ex, cs);
            poolOps<VarEntry>(r, p, "VarPool", sizeof(VarEntry) + ex, true, [&] { return p.alloc(); }, [&](VarEntry *x) { p.free(x); }, [&] { p.freeAll(); }, false); break; }
        default: {
            int64_t before = g_live.load();
            { Pool<Tracked> p(cs); vector<Tracked *> live; uint64_t t = 1; std::map<Tracked *, uint64_t> m;
              int ops = 20 + r.below(300);
              for (int i = 0; i < ops; ++i) {
                int k = r.below(100);
                if (k < 60 || live.empty()) {
                    if (k < 4) { g_throwCtor = 1; bool th = false; try { if (r.chance(50)) p.alloc(); else { Tracked *src = live.empty() ? nullptr : live[0]; if (src) p.alloc(*src); else p.alloc(); } } catch (int) { th = true; } g_throwCtor = 0; VF_CHECK(th, "pool:ctorthrow", "constructor exception lost"); continue; }
                    Tracked *x;
                    if (r.chance(40) && live.size()) { Tracked *src = live[r.below(live.size())]; x = p.alloc(*src); VF_CHECK(x->tag == src->tag, "pool:copy", "alloc(value) is not a copy"); } else { x = p.alloc(); VF_CHECK(x->tag == 0, "pool:init", "alloc() did not construct"); }
                    if (m.count(x)) { violation("pool:twice:Pool", "alloc handed out an object in use"); return; }
                    x->tag = t++; m[x] = x->tag; live.push_back(x);
                } else if (k < 90) { size_t j = r.below(live.size()); VF_CHECK(live[j]->tag == m[live[j]], "pool:overlap:Pool", "an object in use changed"); m.erase(live[j]); p.free(live[j]); live[j] = live.back(); live.pop_back(); }
                else if (k < 97) { Coll<Tracked> c; p.enumAll(c); VF_CHECK(c.s == std::multiset<Tracked *>(live.begin(), live.end()), "pool:enum:Pool", "enumAll does not visit exactly the objects in use"); }
                else { p.freeAll(); live.clear(); m.clear(); }
                VF_CHECK(g_live.load() - before == (int64_t) live.size(), "pool:live", "%lld objects constructed and not destroyed, %zu in use", (long long) (g_live.load() - before), live.size());
              }
            }
            VF_CHECK(g_live.load() == before, "pool:destroy", "deleting a pool left %lld objects", (long long) (g_live.load() - before));
        }
    }
    distinct(mix(cs, r.next() % 1000));
}
// PoolHelper::sort on its own: a linked list through the first word
static void casePoolSort(Rng &r) {
    size_t n = r.below(200);
    vector<void *> cells(n + 1);
    vector<size_t> ord(n);
    for (size_t i = 0; i < n; ++i) ord[i] = i;
    r.shuffle(ord);
    for (size_t i = 0; i < n; ++i) cells[ord[i]] = i + 1 < n ? (void *) &cells[ord[i + 1]] : nullptr;
    void *h = PoolHelper::sort(n ? &cells[ord[0]] : nullptr);
    size_t c = 0; void *prev = nullptr;
    for (; h; h = *(void **) h) { VF_CHECK(!prev || prev < h, "poolsort:order", "PoolHelper::sort left the list unsorted"); prev = h; if (++c > n) break; }
    VF_CHECK(c == n, "poolsort:count", "PoolHelper::sort: %zu of %zu entries left", c, n);
    add("poolsort");
}
// ------------------------------------------------------------------ events and mutexes
struct Ev {
    Mutex m; Event go, back; int tickets = 0, waiting = 0, woken = 0, exited = 0; int64_t counter = 0; int threads = 0, loops = 0; int inside = 0; bool overlap = false;
};
static void evWaiter(void *p) {
    Ev *e = (Ev *) p;
    e->m.lock();
    e->waiting++;
    e->back.notifyAll(e->m);
    while (e->tickets == 0) e->go.wait(e->m);
    e->tickets--; e->woken++; e->exited++;
    e->back.notifyAll(e->m);
    e->m.unlock();
}
static void evCounter(void *p) {
    Ev *e = (Ev *) p;
    for (int i = 0; i < e->loops; ++i) {
        if (i % 3 == 0) { while (!e->m.tryLock()) Thread::yield(); }
        else e->m.lock();
        if (e->inside++) e->overlap = true;
        e->counter++;
        e->inside--;
        e->m.unlock();
        { auto_lock l(e->m); if (e->inside++) e->overlap = true; e->counter++; e->inside--; }
    }
    auto_lock l(e->m);
    e->exited++;
    e->back.notifyAll(e->m);
}
static double nowMs() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e3 + t.tv_nsec / 1e6; }
static void caseEvent(Rng &r) {
    Watch w("Event/Mutex", 60);
    {
        Ev e; int n = 1 + r.below(6); int started = 0;
        for (int i = 0; i < n; ++i) if (Thread::start(evWaiter, &e)) started++;
        VF_CHECK(started == n, "thread:start", "Thread::start started %d of %d threads", started, n);
        e.m.lock();
        while (e.waiting < started) e.back.wait(e.m);
        if (r.chance(50)) { // one notification wakes at least one
            for (int i = 0; i < started; ++i) {
                e.tickets++;
                int before = e.woken;
                e.go.notify(e.m);
                while (e.woken == before) e.back.wait(e.m);
            }
        } else { e.tickets = started; e.go.notifyAll(e.m); }
        while (e.exited < started) e.back.wait(e.m);
        e.m.unlock();
        VF_CHECK(e.tickets == 0, "event:tickets", "tickets left over");
        add("event:woken", started);
        usleep(1000); // the last waiter may still be in unlock
        e.m.lock(); e.m.unlock();
    }
    {
        Ev e; int n = 2 + r.below(4); e.loops = 50 + r.below(300);
        int started = 0;
        for (int i = 0; i < n; ++i) if (Thread::start(evCounter, &e)) started++;
        e.m.lock();
        while (e.exited < started) e.back.wait(e.m);
        VF_CHECK(e.counter == (int64_t) 2 * started * e.loops, "mutex:counter", "%lld increments under a mutex, %lld expected", (long long) e.counter, (long long) 2 * started * e.loops);
        VF_CHECK(!e.overlap, "mutex:exclusion", "two threads were inside the mutex");
        e.m.unlock();
        usleep(1000);
        add("mutex:increments", (uint64_t) 2 * started * e.loops);
    }
    if (r.chance(12)) {
        Mutex m; Event ev;
        unsigned ms = r.chance(50) ? 1 + r.below(60) : 1000 + r.below(150);
        m.lock();
        VF_CHECK(true, "", "");
        double t0 = nowMs();
        bool res = ev.timedWait(m, ms);
        double d = nowMs() - t0;
        VF_CHECK(!m.tryLock(), "event:timedlock", "timedWait returned without the lock");
        m.unlock();
        // nobody notifies; a spurious wake-up is legal, an early timeout is not
        VF_CHECK(res || d >= ms - 5.0, "event:timed", "timedWait(%u ms) reported a timeout after %.1f ms", ms, d);
        VF_CHECK(d < ms + 20000, "event:timedlong", "timedWait(%u ms) took %.1f ms", ms, d);
        add("event:timed");
        // notified in time
        struct S { Mutex m; Event e; bool go = false; bool done = false; Event b; } s;
        struct F { static void f(void *p) { S *s = (S *) p; auto_lock l(s->m); s->go = true; s->e.notify(s->m); s->done = true; s->b.notifyAll(s->m); } };
        s.m.lock();
        bool started = Thread::start(F::f, &s), timedout = false;
        while (started && !s.go) if (!s.e.timedWait(s.m, 20000)) { timedout = true; break; }
        VF_CHECK(!timedout, "event:notified", "a notification did not end timedWait");
        while (started && !s.done) s.b.wait(s.m);
        s.m.unlock();
        usleep(1000);
        double a = nowMs(); uint64_t k0 = Thread::getTicks(); Thread::sleep(30); double b = nowMs(); uint64_t k1 = Thread::getTicks();
        VF_CHECK(b - a >= 29, "thread:sleep", "sleep(30) returned after %.1f ms", b - a);
        VF_CHECK(k1 >= k0 + 28 && k1 - k0 < 20000, "thread:ticks", "ticks advanced by %lld during 30 ms", (long long) (k1 - k0));
    }
    { Mutex m; VF_CHECK(m.tryLock(), "mutex:try", "tryLock on a free mutex failed"); VF_CHECK(!m.tryLock(), "mutex:try2", "tryLock on a held mutex succeeded"); m.unlock(); VF_CHECK(m.tryLock(), "mutex:try3", "tryLock after unlock failed"); m.unlock(); }
}
// ------------------------------------------------------------------ scheduler
struct Graph;
struct Pt : Scheduler::AsyncPoint {
    Graph *g; int id; std::atomic<int> runs{0};
    void run() override;
};
struct Graph {
    vector<std::unique_ptr<Pt>> pts; vector<vector<int>> deps; vector<int> cls; vector<double> prio;
    std::atomic<int> order{0}; vector<int> startSeq; vector<std::atomic<int>> finished; std::atomic<int> active{0}, peak{0}; uint64_t jit; std::atomic<bool> rootStarted{false};
    Graph(int n) : startSeq(n), finished(n) { for (auto &f : finished) f.store(0); }
};
void Pt::run() {
    Graph *gr = g;
    runs++;
    int a = ++gr->active; int p = gr->peak.load(); while (a > p && !gr->peak.compare_exchange_weak(p, a)) ;
    if (gr->rootStarted.load()) violation("sched:late", "an asynchronous point ran after the main plan had started");
    for (int d : gr->deps[id]) if (!gr->finished[d].load()) { violation("sched:deps", fmt("point %d started before its dependency %d had finished", id, d)); break; }
    gr->startSeq[id] = gr->order++;
    Rng rr(mix(gr->jit, id));
    if (rr.chance(50)) std::this_thread::sleep_for(std::chrono::microseconds(rr.below(300)));
    gr->finished[id].store(1);
    --gr->active;
}
struct RootOp : Operator {
    Graph *g; int rows, given = 0, firsts = 0; bool async; bool bad = false;
    RootOp(Graph *g, int rows, bool async) : Operator(1), g(g), rows(rows), async(async) {}
    uint64_t first() override { firsts++; if (async) for (auto &p : g->pts) if (!g->finished[p->id].load()) bad = true; g->rootStarted = true; given = 0; return next(); }
    uint64_t next() override { if (given >= rows) { given = rows + 1; return 0; } given++; return 1; }
    void print(PlanPrinter &) override {}
    void addMergeHint(Register *, Register *) override {}
    // registered depth first: a point depends on everything registered since its own start
    void build(Scheduler &s, int &nextId, const vector<int> &kids, const vector<vector<int>> &tree) {
        for (int k : kids) {
            unsigned pos = s.getRegisteredPoints();
            build(s, nextId, tree[k], tree);
            s.registerAsyncPoint(*g->pts[k], g->cls[k], g->prio[k], pos);
        }
    }
    vector<vector<int>> tree; vector<int> roots;
    void getAsyncInputCandidates(Scheduler &s) override { int x = 0; build(s, x, roots, tree); }
};
static void caseSched(Rng &r) {
    static const char *T[] = {"0", "1", "2", "3", "4", "8"};
    const char *th = T[r.below(6)];
    setenv("MAXTHREADS", th, 1);
    int nth = atoi(th);
    Watch w("Scheduler", 60);
    Scheduler s;
    int rounds = 1 + r.below(3);
    for (int k = 0; k < rounds; ++k) {
        int n = r.chance(15) ? 0 : 1 + r.below(14);
        Graph g(n);
        g.jit = r.next();
        for (int i = 0; i < n; ++i) { g.pts.emplace_back(new Pt()); g.pts[i]->g = &g; g.pts[i]->id = i; g.cls.push_back(r.below(3)); g.prio.push_back(r.real()); }
        RootOp root(&g, r.below(5), nth >= 2);
        root.tree.resize(n); g.deps.resize(n);
        vector<int> parent(n, -1);
        for (int i = 0; i < n; ++i) { // parent has a smaller number
            if (i && r.chance(60)) { parent[i] = r.below(i); root.tree[parent[i]].push_back(i); }
            else root.roots.push_back(i);
        }
        for (int i = n - 1; i >= 0; --i) for (int c = i; parent[c] >= 0; c = parent[c]) g.deps[parent[c]].push_back(i);
        s.execute(&root);
        if (nth >= 2) {
            for (int i = 0; i < n; ++i) VF_CHECK(g.pts[i]->runs.load() == 1, "sched:once", "asynchronous point %d of %d ran %d times (MAXTHREADS=%s)", i, n, g.pts[i]->runs.load(), th);
            VF_CHECK(!root.bad, "sched:main", "the main plan started before all asynchronous points had finished");
            VF_CHECK(g.peak.load() <= nth, "sched:peak", "%d points ran at once with %d workers", g.peak.load(), nth);
            add("sched:points", n);
        }
        VF_CHECK(root.firsts == 1 && root.given == root.rows + 1, "sched:drain", "the main plan was not run to its end exactly once (%d starts, %d of %d rows)", root.firsts, root.given, root.rows);
        uint64_t h = n;
        for (int i = 0; i < n; ++i) h = mix(h, g.startSeq[i]);
        distinct(mix(h, nth)); // distinct start orders
    }
    add("sched:graphs", rounds);
}

static void oneCase(Rng &r, uint64_t) {
    const string &m = st().mode;
    int k = r.below(100);
    if (m == "threads") { // what TSan watches
        if (k < 25) caseSort(r); else if (k < 45) caseFor(r); else if (k < 65) caseQueue(r); else if (k < 80) caseEvent(r); else caseSched(r);
        return;
    }
    if (k < 30) caseSort(r);
    else if (k < 33) caseSortThrow(r);
    else if (k < 55) caseFor(r);
    else if (k < 62) caseQueue(r);
    else if (k < 80) casePool(r);
    else if (k < 84) casePoolSort(r);
    else if (k < 88) caseEvent(r);
    else caseSched(r);
}
int main(int argc, char **argv) { return run(argc, argv, oneCase); }
