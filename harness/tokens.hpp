// C15: the tokens that leave a client of a dynamic scheme.
#pragma once
#include "dyn.hpp"

#include <dlfcn.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unordered_map>
#include <unordered_set>

// Kernel writes to the files of a database, counted; at the n-th one the
// process dies (before or after the write), or the write fails.
namespace crash {
enum Kind { NONE, BEFORE, AFTER, FAIL };
static std::atomic<int>  kind{NONE};
static std::atomic<long> left{0};
static std::atomic<long> seen{0};
static char              part[256] = ""; // only paths with this part
static std::atomic<bool> fired{false};

inline bool counts(int fd)
{
    char l[64], p[512];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n <= 0) return false;
    p[n] = 0;
    return strstr(p, part) && strstr(p, ".log"); // write-ahead logs
}
template<class F>
ssize_t at(int fd, F real)
{
    int k = kind.load();
    if (k == NONE || !counts(fd)) return real();
    seen++;
    long x = left.fetch_sub(1);
    if (x > 1 || (x < 1 && k != FAIL)) return real();
    fired = true;
    if (k == BEFORE) raise(SIGKILL);
    if (k == FAIL) {
        errno = ENOSPC;
        return -1;
    }
    ssize_t r = real();
    raise(SIGKILL);
    return r;
}
} // namespace crash

extern "C" {
ssize_t write(int fd, const void* b, size_t n)
{
    return crash::at(fd, [&] { return syscall(SYS_write, fd, b, n); });
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    return crash::at(fd, [&] { return syscall(SYS_pwrite64, fd, b, n, o); });
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o)
{
    return crash::at(fd, [&] { return syscall(SYS_pwrite64, fd, b, n, o); });
}
}

namespace tok {
using dyn::Bytes;
using vt::Rng;
using Token  = std::string;
using Tokens = std::vector<Token>;

template<class A>
Token str(const A& a)
{
    return Token(reinterpret_cast<const char*>(a.data()), a.size());
}
// the leaves a constrained PRF covers
template<class C, class F>
void leaves(const C& c, F f)
{
    for (auto& e : c.ranges()) {
        uint64_t n = std::min<uint64_t>(1ULL << e.height, 3000);
        c.eval_range(e.first, e.first + n - 1, [&](uint64_t, auto v) { f(v); });
    }
}

// all tokens sent, and all the server could compute
struct Log
{
    std::mutex                               m;
    std::unordered_map<Token, const char*>   issued;
    std::unordered_set<Token>                derived, pending;
    void issue(const Token& t, const char* what)
    {
        std::lock_guard<std::mutex> g(m);
        auto                        i = issued.emplace(t, what);
        if (!i.second) vt::fail(std::string("token_repeated:") + what, vt::fmt("the token of %s was already sent by %s", what, i.first->second));
        if (derived.count(t)) vt::fail(std::string("token_predictable:") + what, vt::fmt("the server could compute the token of %s beforehand", what));
        vt::count((std::string("tokens_of_") + what).c_str());
        vt::eval();
    }
    void derive(const Tokens& l)
    {
        std::lock_guard<std::mutex> g(m);
        for (auto& t : l) {
            pending.insert(t);
            vt::count(issued.count(t) ? "derived_known" : "derived_other");
        }
    }
    // searches that ran at the same time as insertions count from now on
    void settle()
    {
        std::lock_guard<std::mutex> g(m);
        derived.insert(pending.begin(), pending.end());
        pending.clear();
    }
};

// A: a client with open(), close(), insert, bulk, remove, search
template<class A>
void c15(long idx, Rng& r)
{
    vt_crypto_seed(r.next());
    size_t nkw = r.range(1, 6), nops = r.range(20, vt::opts().thorough ? 250 : 90);
    vt::begin_case(idx, vt::fmt("tokens of %s keywords=%zu ops=%zu", A::name, nkw, nops));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 3) vt::sample(vt::st().casedesc);
    vt::Quiet   quiet;
    vt::CaseDir dir(idx);
    A           a(dir.path, r);
    a.open();
    auto kws = dyn::keywords(r, nkw);
    Log  log;
    for (size_t o = 0; o < nops; o++) {
        const std::string& w = kws[r.below(nkw)];
        unsigned           k = static_cast<unsigned>(r.below(100));
        if (k < 40) {
            size_t n = r.chance(70) ? 1 : r.range(2, 30);
            while (n--) log.issue(a.insert(w, r.below(30)), "insertion");
        } else if (k < 50) {
            std::vector<std::pair<std::string, uint64_t>> l;
            size_t                                        n = r.below(20);
            for (size_t i = 0; i < n; i++) l.emplace_back(r.chance(50) ? w : kws[r.below(nkw)], r.below(30));
            for (auto& t : a.bulk(l)) log.issue(t, "bulk_insertion");
        } else if (k < 60) {
            size_t n = r.chance(70) ? 1 : r.range(2, 6);
            while (n--)
                for (auto& t : a.remove(w, r.below(30))) log.issue(t, "deletion");
        } else if (k < 78) {
            size_t n = r.chance(80) ? 1 : 2;
            while (n--) log.derive(a.search(w));
            log.settle();
            vt::count("searches");
        } else if (k < 88) { // several threads, mostly on one keyword
            uint64_t seed    = r.next();
            size_t   n       = r.range(2, 4);
            bool     mixed   = r.chance(50);
            vt::together(n, [&](size_t t) {
                Rng q(seed + t);
                for (size_t i = 0; i < 8; i++) {
                    const std::string& x = q.chance(85) ? w : kws[q.below(nkw)];
                    if (mixed && t == 0) {
                        log.derive(a.search(x));
                        vt::count("concurrent_searches");
                    } else if (q.chance(20)) {
                        for (auto& y : a.bulk({{x, q.below(9)}, {w, q.below(9)}})) log.issue(y, "concurrent_bulk");
                    } else if (q.chance(20)) {
                        for (auto& y : a.remove(x, q.below(9))) log.issue(y, "concurrent_deletion");
                    } else log.issue(a.insert(x, q.below(9)), "concurrent_insertion");
                }
            });
            log.settle();
        } else {
            a.close();
            a.open();
            vt::count("restarts");
        }
    }
}

// ---- clients that are killed
struct Journal
{
    std::atomic<uint64_t> n, ready, ended;
    struct
    {
        uint8_t kind; // 1 token sent, 2 token the server can compute, 3 the search ended
        uint8_t len;
        uint8_t t[30];
    } e[60000];
    void add(uint8_t kind, const Token& t)
    {
        uint64_t i = n.load();
        if (i >= sizeof e / sizeof *e) return;
        e[i].kind = kind;
        e[i].len  = static_cast<uint8_t>(t.size());
        memcpy(e[i].t, t.data(), std::min(t.size(), sizeof e[i].t));
        n.store(i + 1);
    }
};
inline Journal* map_journal(const std::string& p, bool create)
{
    int fd = open(p.c_str(), O_RDWR | (create ? O_CREAT | O_TRUNC : 0), 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Journal))) {
        perror("journal");
        exit(2);
    }
    void* m = mmap(nullptr, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    return static_cast<Journal*>(m);
}

// --seed is the seed of the history; VT_CRASH=kind:write:path part
template<class A>
int child()
{
    auto&       o = vt::opts();
    Rng         r(o.seed), keys(strtoull(getenv("VT_KEYS"), nullptr, 10));
    Journal*    j = map_journal(o.dir + "/journal", false);
    vt_crypto_seed(keys.next());
    A           a(o.dir, keys);
    auto        kws = dyn::keywords(keys, 3);
    int         kind;
    long        n;
    if (sscanf(getenv("VT_CRASH"), "%d:%ld:%255s", &kind, &n, crash::part) != 3) return 2;
    a.open();
    j->ready    = 1;
    crash::left = n;
    crash::kind = kind;
    for (int i = 0; i < 400; i++) {
        vt::tick();
        const std::string& w = kws[r.below(3)];
        unsigned           k = static_cast<unsigned>(r.below(100));
        try {
            if (k < 45) j->add(1, a.insert(w, r.below(30)));
            else if (k < 60) {
                for (auto& t : a.remove(w, r.below(30))) j->add(1, t);
            } else if (k < 65) {
                for (auto& t : a.bulk({{w, 1}, {kws[0], 2}})) j->add(1, t);
            } else if (k < 97) {
                for (auto& t : a.search(w)) j->add(2, t);
                j->add(3, "");
            } else {
                a.close();
                a.open();
            }
        } catch (const std::exception&) {
            // a refused operation sent nothing
            if (kind != crash::FAIL || !crash::fired) throw;
            if (crash::kind && i % 3 == 0) crash::kind = crash::NONE; // the disk has room again
        }
    }
    crash::kind = crash::NONE;
    a.close();
    j->ended = 1;
    _exit(0);
}

template<class A>
void c15kill(long idx, Rng& r)
{
    unsigned rounds = static_cast<unsigned>(r.range(3, 6));
    uint64_t keys   = r.next();
    vt::begin_case(idx, vt::fmt("killed client of %s rounds=%u", A::name, rounds));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 3) vt::sample(vt::st().casedesc);
    vt::Quiet   quiet;
    vt::CaseDir dir(idx);
    {
        Rng k(keys);
        vt_crypto_seed(k.next());
        A(dir.path, k).create();
    }
    Log                log;
    Journal*           j = map_journal(dir("journal"), true);
    std::string        child_mode = vt::opts().mode + "child";
    setenv("VT_KEYS", std::to_string(keys).c_str(), 1);
    for (unsigned i = 0; i <= rounds; i++) {
        uint64_t seed = r.next() % 1000000007;
        int      kind = i == rounds ? int(crash::NONE) : r.chance(25) ? int(crash::FAIL) : r.chance(50) ? int(crash::BEFORE) : int(crash::AFTER);
        long     n    = long(r.chance(50) ? r.below(12) : r.below(80)) + 1;
        setenv("VT_CRASH", vt::fmt("%d:%ld:%s", kind, n, A::part(r)).c_str(), 1);
        j->n = j->ready = j->ended = 0;
        std::string sd = std::to_string(seed), out = dir("child.json");
        pid_t       p = fork();
        if (p == 0) {
            dup2(::open("/dev/null", O_WRONLY), 2); // (its sanitizer reports go to files)
            execl("/proc/self/exe", "child", "--mode", child_mode.c_str(), "--dir", dir.path.c_str(), "--seed", sd.c_str(), "--out",
                  out.c_str(), "--stall", "600", nullptr);
            _exit(127);
        }
        int st = 0;
        while (waitpid(p, &st, WNOHANG) == 0) {
            vt::tick();
            usleep(1000);
        }
        bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
        // (the installed RocksDB asserts when it is used after a failed write)
        if (kind == crash::FAIL && WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) {
            killed = true;
            vt::count("store_gave_up");
        }
        if (!killed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            std::string what;
            if (FILE* f = fopen(out.c_str(), "r")) {
                char b[1500];
                what.assign(b, fread(b, 1, sizeof b, f));
                fclose(f);
            }
            vt::fail(kind == crash::FAIL ? "client_died_of_failed_write" : "client_does_not_reopen", vt::fmt("status %x, ready=%d, %s", st, int(j->ready), what.c_str()));
            break;
        }
        vt::count(killed && kind != crash::FAIL ? "kills" : kind == crash::FAIL ? "rounds_with_failing_writes" : "whole_rounds");
        for (uint64_t q = 0; q < j->n; q++) {
            Token t(reinterpret_cast<char*>(j->e[q].t), j->e[q].len);
            if (j->e[q].kind == 1) log.issue(t, killed ? "update_before_kill" : "update");
            else if (j->e[q].kind == 2) log.derive({t});
            log.settle();
        }
    }
    munmap(j, sizeof *j);
}

template<class A>
bool modes(const std::string& m)
{
    if (m == "c15") vt::run_cases(vt::opts().thorough ? 3000 : 64, c15<A>);
    else if (m == "c15kill") vt::run_cases(vt::opts().thorough ? 600 : 16, c15kill<A>);
    else if (m == "c15killchild") exit(child<A>());
    else return false;
    return true;
}
} // namespace tok
