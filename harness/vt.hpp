// Common runtime of all harnesses: options, random numbers, counters, verdicts,
// case bookkeeping and a progress watchdog.  Header only.
#pragma once
#include "fds.hpp"
#include "tsan_env.hpp"

#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <vector>

namespace vt {

struct Opts
{
    uint64_t    seed{1};
    bool        thorough{false};
    bool        fds{false};
    std::string out{"vt.json"};
    std::string mode;
    std::string dir{"."};
    long        cases{-1};
    long        only{-1};
    int         shard{0}, shards{1};
    int         stall_s{60};
};

inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 77)
    {
        splitmix(s);
    }
    uint64_t next()
    {
        return splitmix(s);
    }
    uint64_t below(uint64_t n)
    {
        return n == 0 ? 0 : next() % n;
    }
    // inclusive
    uint64_t range(uint64_t a, uint64_t b)
    {
        return a + below(b - a + 1);
    }
    bool chance(unsigned pct)
    {
        return below(100) < pct;
    }
    std::string bytes(size_t n)
    {
        std::string r(n, '\0');
        for (auto& c : r) c = static_cast<char>(next());
        return r;
    }
    template<class C>
    auto& pick(C& c)
    {
        auto it = c.begin();
        std::advance(it, below(c.size()));
        return *it;
    }
    template<class V>
    void shuffle(V& v)
    {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
    }
};

struct State
{
    Opts                            o;
    std::mutex                      m;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, uint64_t> maxima;
    std::set<uint64_t>              distinct;
    std::vector<std::string>        samples;
    struct V
    {
        std::string key, detail, cas;
        long        idx;
    };
    std::vector<V>        violations;
    uint64_t              dropped{0};
    std::atomic<uint64_t> evals{0};
    std::atomic<uint64_t> progress{0};
    std::atomic<bool>     finished{false};
    char*                 casebuf{nullptr};
    long                  caseidx{-1};
    std::string           casedesc;
};

inline State& st()
{
    static State* s = new State; // never destroyed: used by threads at exit
    return *s;
}
inline Opts& opts()
{
    return st().o;
}

inline std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c > 0x7e) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char    b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

// caller holds st().m
inline void write_locked(bool complete)
{
    State&      s   = st();
    std::string tmp = s.o.out + ".tmp";
    FILE*       f   = fopen(tmp.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"complete\":%s,\"evaluations\":%llu,\"distinct\":%zu,",
            complete ? "true" : "false",
            static_cast<unsigned long long>(s.evals.load()),
            s.distinct.size());
    fprintf(f, "\"counters\":{");
    bool first = true;
    for (auto& c : s.counters) {
        fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(),
                static_cast<unsigned long long>(c.second));
        first = false;
    }
    fprintf(f, "},\"maxima\":{");
    first = true;
    for (auto& c : s.maxima) {
        fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(),
                static_cast<unsigned long long>(c.second));
        first = false;
    }
    fprintf(f, "},\"distinct_hashes\":[");
    first = true;
    for (auto& h : s.distinct) {
        fprintf(f, "%s\"%llx\"", first ? "" : ",",
                static_cast<unsigned long long>(h));
        first = false;
    }
    fprintf(f, "],\"samples\":[");
    first = true;
    for (auto& x : s.samples) {
        fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str());
        first = false;
    }
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto& v : s.violations) {
        fprintf(f,
                "%s{\"key\":\"%s\",\"detail\":\"%s\",\"case\":\"%s\",\"index\":%ld}",
                first ? "" : ",", jesc(v.key).c_str(), jesc(v.detail).c_str(),
                jesc(v.cas).c_str(), v.idx);
        first = false;
    }
    fprintf(f, "],\"dropped\":%llu}\n",
            static_cast<unsigned long long>(s.dropped));
    fclose(f);
    rename(tmp.c_str(), s.o.out.c_str());
}

inline void count(const char* name, uint64_t n = 1)
{
    std::lock_guard<std::mutex> g(st().m);
    st().counters[name] += n;
}
inline void maximum(const char* name, uint64_t n)
{
    std::lock_guard<std::mutex> g(st().m);
    auto&                       x = st().maxima[name];
    if (n > x) x = n;
}
inline void tick()
{
    st().progress.fetch_add(1, std::memory_order_relaxed);
}
inline void eval(uint64_t n = 1)
{
    st().evals.fetch_add(n, std::memory_order_relaxed);
    tick();
}
inline void distinct(uint64_t h)
{
    std::lock_guard<std::mutex> g(st().m);
    if (st().distinct.size() < 50000) st().distinct.insert(h);
}
inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    auto* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
    return h;
}
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ULL)
{
    return hash(s.data(), s.size(), h);
}
inline void sample(const std::string& s)
{
    std::lock_guard<std::mutex> g(st().m);
    if (st().samples.size() < 4) st().samples.push_back(s);
}
inline size_t n_violations()
{
    std::lock_guard<std::mutex> g(st().m);
    return st().violations.size();
}

inline void fail(const std::string& key, const std::string& detail)
{
    State&                      s = st();
    std::lock_guard<std::mutex> g(s.m);
    // keep few per key, so that no key hides another one
    size_t same = 0;
    for (auto& v : s.violations) same += v.key == key;
    if (same >= 3 || s.violations.size() > 60) {
        s.dropped++;
        return;
    }
    s.violations.push_back({key, detail, s.casedesc, s.caseidx});
    fprintf(stderr, "\n[vt] FAIL %s: %s (case %ld: %s)\n", key.c_str(),
            detail.c_str(), s.caseidx, s.casedesc.c_str());
    write_locked(false);
}

#define VT_CHECK(cond, key, ...)                                               \
    do {                                                                       \
        if (!(cond)) vt::fail(key, vt::fmt(__VA_ARGS__));                      \
    } while (0)

inline void begin_case(long idx, const std::string& desc)
{
    State& s = st();
    {
        std::lock_guard<std::mutex> g(s.m);
        s.caseidx  = idx;
        s.casedesc = desc;
        if (s.casebuf) {
            snprintf(s.casebuf, 4095, "%ld: %s", idx, desc.c_str());
        }
    }
    tick();
}

inline void watchdog()
{
    State&   s    = st();
    uint64_t last = s.progress.load();
    int      idle = 0;
    while (!s.finished.load()) {
        usleep(200000);
        static int sub = 0;
        if (++sub % 5) continue;
        uint64_t now = s.progress.load();
        if (now != last) {
            last = now;
            idle = 0;
            continue;
        }
        if (++idle >= s.o.stall_s) {
            std::string what;
            {
                std::lock_guard<std::mutex> g(s.m);
                what = s.casedesc.substr(0, s.casedesc.find(' '));
            }
            fail("hang:" + what,
                 fmt("no progress for %d s: some thread is blocked forever",
                     s.o.stall_s));
            _exit(3);
        }
    }
}

inline void on_terminate()
{
    std::string w = "unknown exception";
    if (auto e = std::current_exception()) {
        try {
            std::rethrow_exception(e);
        } catch (const std::exception& x) {
            w = x.what();
        } catch (...) {
        }
    } else {
        w = "no active exception (joinable thread destroyed, or noexcept)";
    }
    std::string what;
    {
        std::lock_guard<std::mutex> g(st().m);
        what = st().casedesc.substr(0, st().casedesc.find(' '));
    }
    fail("terminate:" + what, "std::terminate: " + w);
    _exit(4);
}

inline void init(int argc, char** argv, bool watch = true)
{
    Opts& o = opts();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto        v = [&]() -> std::string {
            return i + 1 < argc ? argv[++i] : "";
        };
        if (a == "--seed") o.seed = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--thorough") o.thorough = true;
        else if (a == "--fds") o.fds = true;
        else if (a == "--out") o.out = v();
        else if (a == "--mode") o.mode = v();
        else if (a == "--dir") o.dir = v();
        else if (a == "--cases") o.cases = atol(v().c_str());
        else if (a == "--case") o.only = atol(v().c_str());
        else if (a == "--shard") o.shard = atoi(v().c_str());
        else if (a == "--shards") o.shards = atoi(v().c_str());
        else if (a == "--stall") o.stall_s = atoi(v().c_str());
        else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            exit(2);
        }
    }
    int fd = open((o.out + ".case").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) {
        void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) st().casebuf = static_cast<char*>(p);
    }
    if (fd >= 0) close(fd);
    std::set_terminate(on_terminate);
    if (watch) std::thread(watchdog).detach();
}

inline int finish()
{
    State& s = st();
    s.finished = true;
    std::lock_guard<std::mutex> g(s.m);
    write_locked(true);
    return s.violations.empty() ? 0 : 1;
}

// Runs f(i, rng) for the cases of this shard.  The case's generator depends on
// (seed, mode, i) only, so that --case I replays case I.
template<class F>
void run_cases(long dflt, F f)
{
    Opts& o = opts();
    long  n = o.cases >= 0 ? o.cases : dflt;
    for (long i = 0; i < n; i++) {
        if (o.only >= 0 ? i != o.only : (i % o.shards) != o.shard) continue;
        Rng r(o.seed * 1000003ULL + hash(o.mode) % 1000033 + uint64_t(i) * 7919);
        if (!o.fds) {
            f(i, r);
            continue;
        }
        auto before = fds::snapshot();
        f(i, r);
        std::string d;
        for (int w = 0; w < 300; w++) { // (background threads of RocksDB end by themselves)
            auto after = fds::snapshot();
            // (the sanitizers' run-time library makes pipes to probe addresses)
            for (auto* m : {&before, &after})
                for (auto it = m->begin(); it != m->end();) it = it->second.compare(0, 5, "pipe:") == 0 ? m->erase(it) : std::next(it);
            d = fds::diff(before, after);
            if (d.empty()) break;
            usleep(10000);
            tick();
        }
        if (!d.empty()) {
            // the descriptor by its file's name, without directories and numbers
            std::string k = d.find("closed:") != std::string::npos ? "closed" : d.find("replaced:") != std::string::npos ? "replaced" : "leaked";
            fail("fd:" + k, d.substr(0, 2000));
        }
        count("descriptor_balances");
    }
}

inline std::string join(const std::vector<size_t>& v, size_t maxn = 12)
{
    std::ostringstream s;
    for (size_t i = 0; i < v.size() && i < maxn; i++) s << (i ? "," : "") << v[i];
    if (v.size() > maxn) s << ",...(" << v.size() << ")";
    return s.str();
}

// spawn-and-run k threads starting at the same moment
inline void together(size_t k, const std::function<void(size_t)>& f)
{
    std::atomic<size_t>      ready{0};
    std::atomic<bool>        go{false};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < k; i++)
        ts.emplace_back([&, i] {
            ready++;
            while (!go.load()) std::this_thread::yield();
            f(i);
        });
    while (ready.load() < k) std::this_thread::yield();
    go = true;
    for (auto& t : ts) t.join();
}

} // namespace vt
