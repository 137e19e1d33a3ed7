// C16: the entry store and the list store as durable maps.
// C17: counters.   Both also with the process killed at an arbitrary moment.
#include "fds.hpp"
#include "vt.hpp"

#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/rocksdb_wrapper.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <algorithm>
#include <array>
#include <dirent.h>
#include <list>
#include <memory>
#include <signal.h>
#include <sys/wait.h>

using sse::sophos::RockDBListStore;
using sse::sophos::RockDBWrapper;
using sse::sophos::RocksDBCounter;

static void rm_rf(const std::string& d)
{
    // the harness's own scratch directory
    if (d.find("/run/r") == std::string::npos && d.find("/tmp/") == std::string::npos) return;
    std::string c = "rm -rf '" + d + "'";
    if (system(c.c_str())) {}
}

static std::string hex(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        char b[3];
        snprintf(b, 3, "%02x", c);
        r += b;
    }
    return r;
}

// keys close to each other: few distinct bytes, zeros included
static std::string key_of(vt::Rng& r, size_t n)
{
    static const unsigned char alpha[] = {0, 1, 0xff, 0x80, 'a'};
    std::string                s(n, '\0');
    if (r.chance(30)) return r.bytes(n);
    unsigned k = 1 + r.below(4);
    for (unsigned i = 0; i < k; i++) s[r.below(n)] = static_cast<char>(alpha[r.below(5)]);
    if (r.chance(20)) s[n - 1] = static_cast<char>(r.next());
    if (r.chance(20)) s[0] = static_cast<char>(r.next());
    return s;
}

template<size_t N>
static std::array<uint8_t, N> arr(const std::string& s)
{
    std::array<uint8_t, N> a{};
    memcpy(a.data(), s.data(), N);
    return a;
}

template<class V>
static V value_of(uint64_t x)
{
    V           v;
    vt::Rng     r(x);
    std::string b = r.bytes(sizeof(V));
    memcpy(&v, b.data(), sizeof(V));
    return v;
}

template<size_t N, class V>
struct EntryHistory
{
    std::string                        path;
    std::unique_ptr<RockDBWrapper>     db;
    std::map<std::string, std::string> model;
    std::vector<std::string>           keys;
    vt::Rng&                           r;

    explicit EntryHistory(vt::Rng& rr, const std::string& p) : path(p), r(rr)
    {
        db.reset(new RockDBWrapper(path));
    }
    std::string some_key()
    {
        if (!keys.empty() && r.chance(60)) {
            std::string k = keys[r.below(keys.size())];
            if (r.chance(25)) k[r.below(N)] ^= static_cast<char>(1 << r.below(8)); // a neighbour
            return k;
        }
        return key_of(r, N);
    }
    void lookup(const std::string& k, unsigned how, const char* when)
    {
        V    v{};
        bool ok = false;
        std::string got;
        switch (how % 3) {
        case 0:
            ok  = db->get(arr<N>(k), v);
            got = std::string(reinterpret_cast<char*>(&v), sizeof v);
            break;
        case 1: {
            std::string copy = k;
            copy.reserve(N);
            ok  = db->get(reinterpret_cast<const uint8_t*>(copy.data()), N, v);
            got = std::string(reinterpret_cast<char*>(&v), sizeof v);
            break;
        }
        default: ok = db->get(k, got); break;
        }
        vt::eval();
        vt::count("entry_lookups");
        auto it = model.find(k);
        if (it == model.end()) {
            vt::count("absent_lookups");
            VT_CHECK(!ok, std::string("entry:absent-found"), "absent key %s found by overload %u (%s)",
                     hex(k).c_str(), how % 3, when);
        } else {
            VT_CHECK(ok, std::string("entry:lost"), "key %s not found by overload %u (%s)", hex(k).c_str(), how % 3,
                     when);
            if (ok)
                VT_CHECK(got == it->second, std::string("entry:wrong-value"), "key %s overload %u: got %s, want %s (%s)",
                         hex(k).c_str(), how % 3, hex(got).c_str(), hex(it->second).c_str(), when);
        }
    }
    void sweep(const char* when)
    {
        for (auto& k : keys)
            for (unsigned h = 0; h < 3; h++) lookup(k, h, when);
    }
    void run(unsigned ops)
    {
        for (unsigned i = 0; i < ops; i++) {
            unsigned x = r.below(100);
            if (x < 45) {
                std::string k = some_key();
                V           v = value_of<V>(r.next());
                bool        ok = db->put(arr<N>(k), v);
                VT_CHECK(ok, std::string("entry:put-refused"), "put of %s failed", hex(k).c_str());
                if (ok) {
                    if (!model.count(k)) {
                        if (std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k);
                    } else vt::count("overwrites");
                    model[k] = std::string(reinterpret_cast<char*>(&v), sizeof v);
                }
                vt::count("puts");
            } else if (x < 58) {
                std::string k  = some_key();
                bool        ok = r.chance(50) ? db->remove(arr<N>(k))
                                       : db->remove(reinterpret_cast<const uint8_t*>(k.data()), N);
                VT_CHECK(ok, std::string("entry:remove-refused"), "remove of %s failed", hex(k).c_str());
                if (model.erase(k)) vt::count("removes");
            } else if (x < 92) {
                lookup(some_key(), r.next() & 3, "in between");
            } else if (x < 96) {
                db->flush(r.chance(70));
                vt::count("flushes");
            } else if (x < 98) {
                db.reset();
                db.reset(new RockDBWrapper(path));
                vt::count("reopens");
                sweep("after reopen");
            } else {
                sweep("sweep");
            }
        }
        // concurrent phase on disjoint keys
        if (r.chance(50)) {
            size_t                                      k = 2 + r.below(3);
            std::vector<std::map<std::string, std::string>> part(k);
            std::vector<uint64_t>                       seeds(k);
            for (auto& s : seeds) s = r.next();
            vt::together(k, [&](size_t t) {
                vt::Rng q(seeds[t]);
                for (unsigned i = 0; i < 40; i++) {
                    std::string key = q.bytes(N);
                    key[0]          = static_cast<char>(t); // disjoint
                    V v             = value_of<V>(q.next());
                    if (!db->put(arr<N>(key), v)) vt::fail("entry:put-refused", "concurrent put failed");
                    part[t][key] = std::string(reinterpret_cast<char*>(&v), sizeof v);
                    auto& pick   = q.pick(part[t]);
                    V     w{};
                    bool  ok = db->get(arr<N>(pick.first), w);
                    if (!ok || memcmp(&w, pick.second.data(), sizeof w))
                        vt::fail("entry:concurrent", "own key not readable during concurrent use");
                }
            });
            for (auto& m : part)
                for (auto& e : m) {
                    if (!model.count(e.first)) keys.push_back(e.first);
                    model[e.first] = e.second;
                }
            vt::count("concurrent_puts", 40 * k);
        }
        sweep("at the end");
        db.reset();
        db.reset(new RockDBWrapper(path));
        vt::count("reopens");
        sweep("after the last reopen");
        vt::maximum("live_keys", model.size());
    }
};

// ---- list store
struct FixedSer
{
    std::string serialize(const uint64_t& x)
    {
        return std::string(reinterpret_cast<const char*>(&x), 8);
    }
    bool deserialize(std::string::iterator& b, const std::string::iterator& e, uint64_t& out)
    {
        if (e - b < 8) return false;
        memcpy(&out, &*b, 8);
        b += 8;
        return true;
    }
};
struct StrSer
{
    std::string serialize(const std::string& x)
    {
        uint32_t n = x.size();
        return std::string(reinterpret_cast<char*>(&n), 4) + x;
    }
    bool deserialize(std::string::iterator& b, const std::string::iterator& e, std::string& out)
    {
        if (e - b < 4) return false;
        uint32_t n;
        memcpy(&n, &*b, 4);
        if (static_cast<size_t>(e - b) < 4 + size_t(n)) return false;
        out = std::string(b + 4, b + 4 + n);
        b += 4 + n;
        return true;
    }
};

// a value, unique per draw
static uint64_t draw(vt::Rng& r, uint64_t*)
{
    return r.next();
}
static std::string draw(vt::Rng& r, std::string*)
{
    return r.bytes(r.chance(20) ? 0 : r.below(60));
}

template<size_t N, class T, class Ser>
struct ListHistory
{
    using Store = RockDBListStore<T, Ser>;
    std::string                                       path;
    std::unique_ptr<Store>                            db;
    std::map<std::string, std::list<T>>               model;
    std::vector<std::string>                          keys;
    vt::Rng&                                          r;
    explicit ListHistory(vt::Rng& rr, const std::string& p) : path(p), r(rr)
    {
        db.reset(new Store(path));
    }
    std::string some_key()
    {
        if (!keys.empty() && r.chance(60)) {
            std::string k = keys[r.below(keys.size())];
            if (r.chance(25)) k[r.below(N)] ^= static_cast<char>(1 << r.below(8));
            return k;
        }
        return key_of(r, N);
    }
    void lookup(const std::string& k, unsigned how, const char* when)
    {
        std::list<T> got;
        // what is in the list beforehand must not matter
        for (unsigned i = r.below(3); i > 0; i--) got.push_back(draw(r, static_cast<T*>(nullptr)));
        bool ok;
        Ser  s;
        switch (how % 6) {
        case 0: ok = db->get(k, got); break;
        case 1: ok = db->get(k, got, s); break;
        case 2: ok = db->get(arr<N>(k), got); break;
        case 3: ok = db->get(arr<N>(k), got, s); break;
        case 4: ok = db->get(reinterpret_cast<const uint8_t*>(k.data()), N, got); break;
        default: ok = db->get(reinterpret_cast<const uint8_t*>(k.data()), N, got, s); break;
        }
        vt::eval();
        vt::count("list_lookups");
        auto it = model.find(k);
        if (it == model.end()) {
            VT_CHECK(!ok, std::string("list:absent-found"), "absent key %s found by overload %u (%s)", hex(k).c_str(),
                     how % 6, when);
            VT_CHECK(got.empty(), std::string("list:absent-not-empty"), "lookup of an absent key left %zu elements",
                     got.size());
        } else {
            VT_CHECK(ok, std::string("list:lost"), "key %s not found by overload %u (%s)", hex(k).c_str(), how % 6, when);
            VT_CHECK(!ok || got == it->second, std::string("list:wrong"),
                     "key %s overload %u: got %zu elements, want %zu (%s)", hex(k).c_str(), how % 6, got.size(),
                     it->second.size(), when);
        }
    }
    void sweep(const char* when)
    {
        for (auto& k : keys)
            for (unsigned h = 0; h < 6; h++) lookup(k, h, when);
    }
    void run(unsigned ops)
    {
        for (unsigned i = 0; i < ops; i++) {
            unsigned x = r.below(100);
            if (x < 50) {
                std::string  k = some_key();
                std::list<T> l;
                unsigned     n = r.chance(15) ? 0 : r.chance(10) ? 200 + r.below(500) : r.below(12);
                for (unsigned j = 0; j < n; j++) l.push_back(draw(r, static_cast<T*>(nullptr)));
                Ser  s;
                bool ok = r.chance(50) ? db->put(arr<N>(k), l) : db->put(arr<N>(k), l, s);
                VT_CHECK(ok, std::string("list:put-refused"), "put failed");
                if (!model.count(k)) keys.push_back(k);
                model[k] = l;
                vt::count("list_puts");
                if (n == 0) vt::count("empty_lists");
            } else if (x < 92) {
                lookup(some_key(), r.below(6), "in between");
            } else if (x < 96) {
                db->flush(r.chance(70));
                vt::count("flushes");
            } else if (x < 98) {
                db.reset();
                db.reset(new Store(path));
                vt::count("reopens");
                sweep("after reopen");
            } else sweep("sweep");
        }
        sweep("at the end");
        db.reset();
        db.reset(new Store(path));
        sweep("after the last reopen");
    }
};

template<class V>
static void entries(vt::Rng& r, const std::string& path, unsigned ops, unsigned kind)
{
    switch (kind) {
    case 0:
    case 1: EntryHistory<16, V>(r, path).run(ops); break;
    case 2: EntryHistory<4, V>(r, path).run(ops); break;
    case 3: EntryHistory<32, V>(r, path).run(ops); break;
    default: EntryHistory<300, V>(r, path).run(ops); break;
    }
}

static void c16(long i, vt::Rng& r)
{
    unsigned    kind = r.below(9);
    unsigned    ops  = r.range(60, 260);
    std::string path = vt::opts().dir + "/s" + std::to_string(i);
    vt::begin_case(i, vt::fmt("store kind=%u ops=%u", kind, ops));
    vt::distinct(r.s);
    // RocksDB 8.9's cuckoo table builder keeps the size of the first deleted value
    // of the process in a static variable, so stores with values of different sizes
    // cannot be used in one process: the value type depends on the process.
    if (kind < 5) {
        switch (i % 8) {
        case 0:
        case 1:
        case 2:
        case 3: entries<uint64_t>(r, path, ops, kind); break;
        case 4: entries<std::array<uint8_t, 24>>(r, path, ops, kind); break;
        case 5: entries<std::array<uint8_t, 200>>(r, path, ops, kind); break;
        case 6: entries<uint32_t>(r, path, ops, kind); break;
        default: entries<std::array<uint8_t, 1>>(r, path, ops, kind); break;
        }
    }
    switch (kind) {
    case 0:
    case 1:
    case 2:
    case 3:
    case 4: break;
    case 5: ListHistory<16, uint64_t, FixedSer>(r, path).run(ops); break;
    case 6: ListHistory<8, std::string, StrSer>(r, path).run(ops); break;
    case 7: ListHistory<300, uint64_t, FixedSer>(r, path).run(ops); break;
    default: ListHistory<1, std::string, StrSer>(r, path).run(ops); break;
    }
    if (i < 3) vt::sample(vt::fmt("kind %u, %u operations", kind, ops));
    if (!getenv("VT_KEEP")) rm_rf(path);
}

// ------------------------------------------------------------ killed processes
struct Journal
{
    std::atomic<uint64_t> ready;
    struct
    {
        std::atomic<uint64_t> started, acked;
        char                  pad[48];
    } t[8];
};

static Journal* map_journal(const std::string& p, bool create)
{
    int fd = open(p.c_str(), O_RDWR | (create ? O_CREAT | O_TRUNC : 0), 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Journal))) {
        perror("journal");
        exit(2);
    }
    void* m = mmap(nullptr, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    return static_cast<Journal*>(m);
}

// what operation j of thread t does
struct Op
{
    enum K { PUT, REMOVE, FLUSH } k;
    uint64_t key, val;
};
static Op op_of(uint64_t seed, unsigned t, uint64_t j)
{
    vt::Rng r(seed * 31 + t * 1000003 + j * 7);
    Op      o;
    unsigned x = r.below(100);
    o.k        = x < 75 ? Op::PUT : x < 98 ? Op::REMOVE : Op::FLUSH;
    o.key      = t * 1000 + r.below(40);
    o.val      = j * 16 + t + 1;
    return o;
}
static std::array<uint8_t, 16> karr(uint64_t k)
{
    std::array<uint8_t, 16> a{};
    memcpy(a.data(), &k, 8);
    return a;
}
static std::list<uint64_t> lval(uint64_t v)
{
    std::list<uint64_t> l;
    for (uint64_t i = 0; i < 1 + v % 300; i++) l.push_back(v * 1000 + i);
    return l;
}

using LStore = RockDBListStore<uint64_t, FixedSer>;

static pid_t spawn_child(const char* mode, const std::string& dir, uint64_t seed)
{
    std::string s  = std::to_string(seed);
    pid_t       p  = fork();
    if (p == 0) {
        execl("/proc/self/exe", "store", "--mode", mode, "--dir", dir.c_str(), "--seed", s.c_str(), "--out",
              (dir + "/child.json").c_str(), "--stall", "600", nullptr);
        _exit(127);
    }
    return p;
}

static unsigned threads_of(uint64_t seed)
{
    return 1 + seed % 4;
}

static int c16child(bool lists)
{
    auto&    o = vt::opts();
    Journal* j = map_journal(o.dir + "/journal", false);
    unsigned k = threads_of(o.seed);
    std::unique_ptr<RockDBWrapper> e;
    std::unique_ptr<LStore>        l;
    if (lists) l.reset(new LStore(o.dir + "/db"));
    else e.reset(new RockDBWrapper(o.dir + "/db"));
    j->ready = 1;
    vt::together(k, [&](size_t t) {
        for (uint64_t i = 0; i < 200000; i++) {
            vt::tick();
            Op op = op_of(o.seed, t, i);
            j->t[t].started.store(i + 1);
            bool ok = true;
            if (op.k == Op::FLUSH) {
                if (e) e->flush(i & 1);
                else l->flush(i & 1);
            } else if (lists) ok = l->put(karr(op.key), op.k == Op::PUT ? lval(op.val) : std::list<uint64_t>());
            else ok = op.k == Op::PUT ? e->put(karr(op.key), op.val) : e->remove(karr(op.key));
            if (!ok) _exit(3);
            j->t[t].acked.store(i + 1);
        }
    });
    return 0;
}

// waits for the child to be at some point of its work, kills it
static bool kill_child(pid_t p, Journal* j, vt::Rng& r, unsigned k, std::atomic<uint64_t>* base = nullptr)
{
    (void)base;
    uint64_t target = r.chance(30) ? r.below(20) : r.below(1500);
    unsigned extra  = r.below(400);
    int      st;
    for (;;) {
        uint64_t n = 0;
        for (unsigned t = 0; t < k; t++) n += j->t[t].acked.load();
        if (j->ready.load() && n >= target) break;
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) {
            vt::fail("kill:child", vt::fmt("child ended by itself, status %x (an operation was refused)", st));
            return false;
        }
        vt::tick();
        if (target < 20) sched_yield();
        else usleep(20);
    }
    for (volatile unsigned i = 0; i < extra * 10; i++) {}
    kill(p, SIGKILL);
    waitpid(p, &st, 0);
    return true;
}

static void c16kill(long i, vt::Rng& r)
{
    bool        lists = r.chance(40);
    std::string dir   = vt::opts().dir + "/k" + std::to_string(i);
    mkdir(dir.c_str(), 0755);
    unsigned rounds = 1 + r.below(3);
    // model: key -> acceptable values (0 = absent)
    std::map<uint64_t, std::set<uint64_t>> acc;
    vt::begin_case(i, vt::fmt("kill lists=%d rounds=%u", lists, rounds));
    for (unsigned round = 0; round < rounds; round++) {
        uint64_t cseed = r.next() % 1000000007;
        Journal* j     = map_journal(dir + "/journal", true);
        pid_t    p     = spawn_child(lists ? "c16childl" : "c16child", dir, cseed);
        unsigned k     = threads_of(cseed);
        if (!kill_child(p, j, r, k)) break;
        vt::count("kills");
        uint64_t inflight = 0, ops = 0;
        for (unsigned t = 0; t < k; t++) {
            uint64_t a = j->t[t].acked, s = j->t[t].started;
            ops += a;
            for (uint64_t n = 0; n < s; n++) {
                Op op = op_of(cseed, t, n);
                if (op.k == Op::FLUSH) continue;
                uint64_t v = op.k == Op::PUT ? op.val : 0;
                // values of the different rounds must differ
                if (n < a) acc[op.key] = {v};
                else {
                    if (!acc.count(op.key)) acc[op.key] = {0};
                    if (lists && acc[op.key] == std::set<uint64_t>{0}) acc[op.key].insert(~uint64_t(0));
                    acc[op.key].insert(v);
                    inflight++;
                }
            }
        }
        munmap(j, sizeof *j);
        vt::count("ops_before_kill", ops);
        vt::count("in_flight", inflight);
        vt::maximum("threads", k);
        std::unique_ptr<RockDBWrapper> e;
        std::unique_ptr<LStore>        l;
        try {
            if (lists) l.reset(new LStore(dir + "/db"));
            else e.reset(new RockDBWrapper(dir + "/db"));
        } catch (std::exception& x) {
            vt::fail("kill:reopen", std::string("the store does not open after a kill: ") + x.what());
            break;
        }
        for (unsigned t = 0; t < 4; t++)
            for (uint64_t key = t * 1000; key < t * 1000 + 40; key++) {
                auto it = acc.find(key);
                vt::eval();
                if (lists) {
                    std::list<uint64_t> got;
                    bool                ok = l->get(karr(key), got);
                    bool                good;
                    if (it == acc.end()) good = !ok;
                    else {
                        good = false;
                        for (uint64_t v : it->second) {
                            if (v == ~uint64_t(0)) good |= !ok;
                            else if (v == 0) good |= ok && got.empty();
                            else good |= ok && got == lval(v);
                        }
                        // never put before: absent
                        if (it->second.count(0) && !ok && it->second.size() > 1) good = true;
                    }
                    VT_CHECK(good, std::string("kill:list"), "after a kill, list %llu is neither the last acknowledged nor the one in progress (found=%d, %zu elements)",
                             (unsigned long long)key, ok, got.size());
                    if (it != acc.end() && ok) acc[key] = {got.empty() ? 0 : got.front() / 1000};
                } else {
                    uint64_t v  = 0;
                    bool     ok = e->get(karr(key), v);
                    if (!ok) v = 0;
                    bool good = it == acc.end() ? !ok : it->second.count(v) > 0;
                    VT_CHECK(good, std::string("kill:entry"), "after a kill, key %llu has value %llu (found=%d), acceptable: %zu values, first %llu",
                             (unsigned long long)key, (unsigned long long)v, ok, it == acc.end() ? 0 : it->second.size(),
                             it == acc.end() ? 0ULL : (unsigned long long)*it->second.begin());
                    if (it != acc.end()) acc[key] = {v};
                }
            }
    }
    vt::distinct(r.s);
    rm_rf(dir);
}

// ---------------------------------------------------------------- C17
static void c17(long i, vt::Rng& r)
{
    std::string path = vt::opts().dir + "/c" + std::to_string(i);
    unsigned    ops  = r.range(100, 500);
    vt::begin_case(i, vt::fmt("counter ops=%u", ops));
    vt::distinct(r.s);
    std::unique_ptr<RocksDBCounter> db(new RocksDBCounter(path));
    std::map<std::string, uint32_t> model;
    std::vector<std::string>        keys;
    auto                            some_key = [&]() -> std::string {
        if (!keys.empty() && r.chance(70)) {
            std::string k = keys[r.below(keys.size())];
            if (r.chance(10)) k += '\0';
            if (r.chance(5) && !k.empty()) k.pop_back();
            return k;
        }
        size_t      n = r.below(10) == 0 ? 0 : r.chance(10) ? r.range(200, 400) : r.range(1, 20);
        std::string k = n ? key_of(r, n) : "";
        keys.push_back(k);
        return k;
    };
    auto check = [&](const std::string& k, const char* when) {
        uint32_t v  = 0xdeadbeef;
        bool     ok = db->get(k, v);
        auto     it = model.find(k);
        vt::eval();
        VT_CHECK(ok == (it != model.end()), std::string("counter:presence"), "key %s: found=%d, expected %d (%s)",
                 hex(k).c_str(), ok, it != model.end(), when);
        if (ok && it != model.end())
            VT_CHECK(v == it->second, std::string("counter:value"), "key %s: %u, expected %u (%s)", hex(k).c_str(), v,
                     it->second, when);
    };
    auto sweep = [&](const char* when) {
        for (auto& k : keys) check(k, when);
    };
    for (unsigned n = 0; n < ops; n++) {
        unsigned    x = r.below(100);
        std::string k = some_key();
        if (x < 35) {
            uint32_t v  = 12345;
            bool     ok = db->get_and_increment(k, v);
            uint32_t w  = model.count(k) ? model[k] + 1 : 0;
            model[k]    = w;
            vt::eval();
            vt::count("get_and_increments");
            VT_CHECK(ok && v == w, std::string("counter:increment"), "get_and_increment(%s) -> %d,%u expected %u",
                     hex(k).c_str(), ok, v, w);
        } else if (x < 50) {
            uint32_t d  = r.chance(50) ? 0 : r.below(1000);
            bool     ok = d == 0 && r.chance(50) ? db->increment(k) : db->increment(k, d);
            model[k]    = model.count(k) ? model[k] + 1 : d;
            vt::count("increments");
            VT_CHECK(ok, std::string("counter:increment"), "increment refused");
            check(k, "after increment");
        } else if (x < 60) {
            uint32_t v = r.chance(50) ? static_cast<uint32_t>(r.next()) % 0xfffff000u : r.below(300);
            VT_CHECK(db->set(k, v), std::string("counter:set"), "set refused");
            model[k] = v;
            check(k, "after set");
            vt::count("sets");
        } else if (x < 68) {
            VT_CHECK(db->remove_key(k), std::string("counter:remove"), "remove refused");
            if (model.erase(k)) vt::count("removes");
            check(k, "after remove");
        } else if (x < 90) {
            check(k, "in between");
        } else if (x < 93) {
            db->flush(r.chance(70));
            vt::count("flushes");
        } else if (x < 95) {
            db.reset();
            db.reset(new RocksDBCounter(path));
            vt::count("reopens");
            sweep("after reopen");
        } else if (x < 97) {
            sweep("sweep");
        } else {
            // concurrent increments
            size_t                             th = 2 + r.below(5);
            std::vector<std::string>           ks;
            for (unsigned q = 0; q < 1 + r.below(3); q++) ks.push_back(some_key());
            std::sort(ks.begin(), ks.end());
            ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
            std::vector<std::map<std::string, std::vector<uint32_t>>> got(th);
            std::vector<std::map<std::string, uint32_t>>              incs(th);
            std::vector<uint64_t>                                     seeds(th);
            bool                                                      blind = r.chance(30);
            for (auto& s : seeds) s = r.next();
            vt::together(th, [&](size_t t) {
                vt::Rng q(seeds[t]);
                for (unsigned m = 0; m < 60; m++) {
                    const std::string& kk = ks[q.below(ks.size())];
                    if (blind && q.chance(50)) {
                        if (!db->increment(kk)) vt::fail("counter:increment", "increment refused");
                        incs[t][kk]++;
                    } else {
                        uint32_t v;
                        if (!db->get_and_increment(kk, v)) vt::fail("counter:increment", "refused");
                        got[t][kk].push_back(v);
                    }
                    vt::tick();
                }
            });
            for (auto& kk : ks) {
                std::vector<uint32_t> all;
                uint32_t              ni = 0;
                for (size_t t = 0; t < th; t++) {
                    auto& v = got[t][kk];
                    VT_CHECK(std::is_sorted(v.begin(), v.end()), std::string("counter:order"), "values seen by one thread decrease");
                    all.insert(all.end(), v.begin(), v.end());
                    ni += incs[t][kk];
                }
                if (all.empty() && ni == 0) continue;
                std::sort(all.begin(), all.end());
                bool dup = std::adjacent_find(all.begin(), all.end()) != all.end();
                VT_CHECK(!dup, std::string("counter:repeated"), "concurrent get_and_increment returned a value twice");
                uint32_t first = model.count(kk) ? model[kk] + 1 : 0;
                uint32_t last  = first + all.size() + ni - 1;
                if (!all.empty())
                    VT_CHECK(all.front() >= first && all.back() <= last && (blind || (all.front() == first && all.back() == last)),
                             std::string("counter:concurrent-range"), "values %u..%u, expected within %u..%u", all.front(), all.back(), first, last);
                model[kk] = last;
                check(kk, "after concurrent increments");
                vt::count("concurrent_increments", all.size() + ni);
            }
            vt::maximum("threads", th);
        }
    }
    sweep("at the end");
    db.reset();
    db.reset(new RocksDBCounter(path));
    sweep("after the last reopen");
    // a stored value that cannot be read back must not be taken for absent
    if (r.chance(60) && !model.empty()) {
        db->flush(true);
        db.reset();
        std::vector<std::pair<std::string, std::string>> saved;
        if (DIR* d = opendir(path.c_str())) {
            while (auto* e = readdir(d)) {
                std::string nm = e->d_name;
                if (nm.size() < 4 || nm.substr(nm.size() - 4) != ".sst") continue;
                std::string f = path + "/" + nm, c;
                FILE*       fp = fopen(f.c_str(), "r+");
                char        b[65536];
                size_t      n;
                while ((n = fread(b, 1, sizeof b, fp)) > 0) c.append(b, n);
                saved.emplace_back(f, c);
                fclose(fp);
                // the data blocks come first
                fp = fopen(f.c_str(), "r+");
                for (int q = 0; q < 1; q++) {
                    fseek(fp, q, SEEK_SET);
                    fputc(c[q] ^ 0x55, fp);
                }
                fclose(fp);
            }
            closedir(d);
        }
        try {
            db.reset(new RocksDBCounter(path));
            for (auto& e : model) {
                uint32_t v  = 0;
                bool     ok = db->get_and_increment(e.first, v);
                vt::eval();
                VT_CHECK(!ok || v == e.second + 1, std::string("counter:reset-on-error"),
                         "unreadable counter was %u, get_and_increment returned %u", e.second, v);
                if (ok) e.second = v;
                else vt::count("unreadable_refused");
                uint32_t v2  = 0;
                bool     ok2 = db->increment(e.first, 7);
                if (ok2) e.second++;
                (void)v2;
            }
            vt::count("damaged_stores");
        } catch (std::exception&) {
            vt::count("damaged_stores_refused");
        }
        db.reset();
    }
    if (i < 3) vt::sample(vt::fmt("%u operations, %zu keys", ops, keys.size()));
    if (!getenv("VT_KEEP")) rm_rf(path);
}

// ------------------------------------- concurrent operations on one key
// Short bursts of concurrent operations on one key, judged by a
// linearizability checker: some order of the operations that respects their
// real-time order must explain every result.
struct LOp
{
    enum K { INC, GINC, GET, SET, DEL } k;
    uint64_t arg{0};
    bool     found{false};
    uint64_t val{0};
    uint64_t inv{0}, res{0};
    std::string str() const
    {
        static const char* n[] = {"increment", "get_and_increment", "get", "set", "remove"};
        return vt::fmt("[%lu,%lu] %s(%lu) -> %d,%lu", inv, res, n[k], arg, found, val);
    }
};
struct LState
{
    bool     here{false};
    uint64_t v{0};
    bool     operator<(const LState& o) const
    {
        return here != o.here ? here < o.here : v < o.v;
    }
    // applies the operation; false if its result does not fit
    bool apply(const LOp& o)
    {
        switch (o.k) {
        case LOp::INC:
            v    = here ? v + 1 : o.arg;
            here = true;
            return o.found;
        case LOp::GINC:
            v    = here ? v + 1 : 0;
            here = true;
            return o.found && o.val == v;
        case LOp::GET: return o.found == here && (!here || o.val == v);
        case LOp::SET:
            v    = o.arg;
            here = true;
            return o.found;
        default:
            here = false;
            v    = 0;
            return o.found;
        }
    }
};
static bool linearizable(const std::vector<std::vector<LOp>>& h, LState init)
{
    std::set<std::pair<std::vector<size_t>, LState>> seen;
    std::function<bool(std::vector<size_t>&, LState)> go = [&](std::vector<size_t>& at, LState st) {
        uint64_t first = ~0ull; // the earliest response among the operations left
        bool     left  = false;
        for (size_t t = 0; t < h.size(); t++)
            if (at[t] < h[t].size()) {
                left  = true;
                first = std::min(first, h[t][at[t]].res);
            }
        if (!left) return true;
        if (!seen.insert({at, st}).second) return false;
        for (size_t t = 0; t < h.size(); t++) {
            if (at[t] >= h[t].size() || h[t][at[t]].inv > first) continue;
            LState n = st;
            if (!n.apply(h[t][at[t]])) continue;
            at[t]++;
            if (go(at, n)) return true;
            at[t]--;
        }
        return false;
    };
    std::vector<size_t> at(h.size());
    return go(at, init);
}

template<class Do>
static void bursts(vt::Rng& r, const char* what, unsigned rounds, bool counter, Do op)
{
    size_t                                     th = 2 + r.below(3);
    std::vector<std::vector<std::vector<LOp>>> plan(rounds, std::vector<std::vector<LOp>>(th));
    std::vector<unsigned>                      focus(rounds);
    for (unsigned n = 0; n < rounds; n++)
        for (size_t t = 0; t < th; t++) {
            unsigned shape = r.below(4), k = shape == 0 ? 1 : 1 + r.below(4);
            for (unsigned q = 0; q < k; q++) {
                LOp      o;
                unsigned x = r.below(100);
                if (counter) o.k = x < 30 ? LOp::GINC : x < 50 ? LOp::INC : x < 65 ? LOp::SET : x < 80 ? LOp::DEL : LOp::GET;
                else o.k = x < 45 ? LOp::SET : x < 65 ? LOp::DEL : LOp::GET;
                o.arg = o.k == LOp::INC ? r.below(3) * 10 : (n * 64 + t * 8 + q + 1) * 10;
                plan[n][t].push_back(o);
            }
        }
    std::atomic<uint64_t> clock{0};
    std::atomic<size_t>   arrived{0};
    vt::together(th, [&](size_t t) {
        for (unsigned n = 0; n < rounds; n++) {
            // all threads start a round together
            arrived++;
            while (arrived.load() < (n + 1) * th) {
                if (th > 2) std::this_thread::yield();
            }
            for (auto& o : plan[n][t]) {
                o.inv = clock++;
                op(n, o);
                o.res = clock++;
            }
            vt::tick();
        }
    });
    unsigned overlapping = 0;
    for (unsigned n = 0; n < rounds; n++) {
        LOp last;
        last.k   = LOp::GET;
        last.inv = clock++;
        op(n, last);
        last.res  = clock++;
        auto h    = plan[n];
        bool over = false;
        for (size_t a = 0; a < th; a++)
            for (size_t b = 0; b < a; b++)
                for (auto& x : h[a])
                    for (auto& y : h[b]) over = over || (x.inv < y.res && y.inv < x.res);
        overlapping += over;
        h.push_back({last});
        vt::eval();
        if (!linearizable(h, LState{})) {
            std::string d;
            for (auto& t : h) {
                for (auto& o : t) d += o.str() + "  ";
                d += "| ";
            }
            vt::fail(vt::fmt("%s:not-linearizable", what), "no order of these concurrent operations on one key explains their results: " + d);
            return;
        }
    }
    vt::count("bursts", rounds);
    vt::count("overlapping_bursts", overlapping);
}

static void c17lin(long i, vt::Rng& r)
{
    std::string path = vt::opts().dir + "/l" + std::to_string(i);
    vt::begin_case(i, "concurrent operations on one counter");
    vt::distinct(r.s);
    {
        RocksDBCounter db(path);
        bool           same = r.chance(50);
        bursts(r, "counter", vt::opts().thorough ? 1500 : 500, true, [&](unsigned n, LOp& o) {
            // neighbouring keys, or one used by all after having been removed
            std::string k = same ? vt::fmt("k%u", n) : std::string(n, 'k');
            uint32_t    v = 0;
            switch (o.k) {
            case LOp::INC: o.found = o.arg ? db.increment(k, o.arg) : db.increment(k); break;
            case LOp::GINC: o.found = db.get_and_increment(k, v), o.val = v; break;
            case LOp::GET: o.found = db.get(k, v), o.val = v; break;
            case LOp::SET: o.found = db.set(k, o.arg); break;
            default: o.found = db.remove_key(k);
            }
        });
    }
    if (!getenv("VT_KEEP")) rm_rf(path);
}

static void c16lin(long i, vt::Rng& r)
{
    std::string path = vt::opts().dir + "/l" + std::to_string(i);
    vt::begin_case(i, "concurrent operations on one entry");
    vt::distinct(r.s);
    {
        RockDBWrapper db(path);
        bursts(r, "entry", 120, false, [&](unsigned n, LOp& o) {
            auto     k = karr(n);
            uint64_t v = 0;
            switch (o.k) {
            case LOp::GET: o.found = db.get(k, v), o.val = v; break;
            case LOp::SET: o.found = db.put(k, o.arg); break;
            default: o.found = db.remove(k);
            }
        });
    }
    if (!getenv("VT_KEEP")) rm_rf(path);
}

// ------------------------------------------------- more than small integers hold
static void c17scale(long i, vt::Rng& r)
{
    std::string path = vt::opts().dir + "/n" + std::to_string(i);
    vt::begin_case(i, "many increments, many counters");
    vt::distinct(r.s);
    {
        std::unique_ptr<RocksDBCounter> db(new RocksDBCounter(path));
        const uint32_t                  N = 66000 + r.below(1000);
        for (uint32_t n = 0; n < N; n++) {
            uint32_t v  = 0;
            bool     ok = n % 7 == 3 ? db->increment("hot") : db->get_and_increment("hot", v);
            VT_CHECK(ok && (n % 7 == 3 || v == n), std::string("counter:increment"), "increment %u gave %u", n, v);
            if (n % 64 == 0) vt::tick();
        }
        // the borders of the representation
        std::map<std::string, uint32_t> m;
        for (uint32_t b : {0xfeu, 0xffu, 0xfffeu, 0xffffu, 0xffffffu, 0x7ffffffeu, 0x7fffffffu, 0x80000000u, 0xfffffffdu}) {
            std::string k = vt::fmt("border%x", b);
            VT_CHECK(db->set(k, b), std::string("counter:set"), "set(%u) refused", b);
            uint32_t v = 0;
            VT_CHECK(db->get(k, v) && v == b, std::string("counter:value"), "set to %u, read %u", b, v);
            VT_CHECK(db->get_and_increment(k, v) && v == b + 1, std::string("counter:increment"), "%u incremented to %u", b, v);
            VT_CHECK(db->increment(k) && db->get(k, v) && v == b + 2, std::string("counter:increment"), "%u incremented twice to %u", b, v);
            m[k] = b + 2;
        }
        for (uint32_t n = 0; n < N; n++) {
            VT_CHECK(db->set("key" + std::to_string(n), n * 65537u), std::string("counter:set"), "set refused");
            if (n % 64 == 0) vt::tick();
        }
        db.reset();
        db.reset(new RocksDBCounter(path));
        uint32_t v = 0;
        VT_CHECK(db->get("hot", v) && v == N - 1, std::string("counter:value"), "%u increments gave %u", N, v);
        for (auto& e : m) VT_CHECK(db->get(e.first, v) && v == e.second, std::string("counter:value"), "%s reads %u", e.first.c_str(), v);
        for (uint32_t n = 0; n < N; n++) {
            bool ok = db->get("key" + std::to_string(n), v);
            vt::eval();
            VT_CHECK(ok && v == n * 65537u, std::string("counter:value"), "counter %u of %u reads %d, %u", n, N, ok, v);
        }
        vt::count("increments_of_one_counter", N);
        vt::count("counters", N);
    }
    if (!getenv("VT_KEEP")) rm_rf(path);
}

static void c16scale(long i, vt::Rng& r)
{
    std::string path = vt::opts().dir + "/n" + std::to_string(i);
    vt::begin_case(i, "many entries, long lists");
    vt::distinct(r.s);
    const uint64_t N = 66000 + r.below(2000);
    if (i % 2 == 0) {
        std::unique_ptr<RockDBWrapper> db(new RockDBWrapper(path));
        auto key = [](uint64_t n) { return karr((n + 1) * 0x9e3779b97f4a7c15ull); };
        for (uint64_t n = 0; n < N; n++) {
            VT_CHECK(db->put(key(n), n * n + 1), std::string("entry:put"), "put %lu refused", n);
            if (n % 64 == 0) vt::tick();
        }
        // (lookups among entries that were never flushed are linear in their number)
        db->flush(true);
        for (int pass = 0; pass < 2; pass++) {
            for (uint64_t n = 0; n < N; n++) {
                uint64_t v  = 0;
                bool     ok = db->get(key(n), v);
                vt::eval();
                VT_CHECK(ok && v == n * n + 1, std::string("entry:lost"), "entry %lu of %lu reads %d, %lu (%s)", n, N, ok, v, pass ? "reopened" : "written");
            }
            uint64_t v;
            for (uint64_t n = N; n < N + 200; n++) VT_CHECK(!db->get(key(n), v), std::string("entry:absent-found"), "absent entry found");
            vt::tick();
            if (!pass) {
                db.reset();
                db.reset(new RockDBWrapper(path));
            }
        }
        vt::count("entries", N);
    } else {
        std::unique_ptr<LStore>                  db(new LStore(path));
        std::map<uint64_t, std::list<uint64_t>> m;
        for (uint64_t len : {uint64_t(255), uint64_t(256), uint64_t(65535), uint64_t(65536), N, 4 * N}) {
            std::list<uint64_t> l;
            for (uint64_t q = 0; q < len; q++) l.push_back(r.next());
            VT_CHECK(db->put(karr(len), l), std::string("list:put"), "a list of %lu refused", len);
            m[len] = l;
        }
        for (int pass = 0; pass < 2; pass++) {
            for (auto& e : m) {
                std::list<uint64_t> got;
                bool                ok = db->get(karr(e.first), got);
                vt::eval();
                VT_CHECK(ok && got == e.second, std::string("list:wrong"), "a list of %lu elements reads %d, %zu elements", e.first, ok, got.size());
            }
            if (!pass) {
                db.reset();
                db.reset(new LStore(path));
            }
        }
        vt::count("long_lists", m.size());
    }
    if (!getenv("VT_KEEP")) rm_rf(path);
}

static int c17child()
{
    auto&          o = vt::opts();
    Journal*       j = map_journal(o.dir + "/journal", false);
    unsigned       k = threads_of(o.seed);
    RocksDBCounter db(o.dir + "/db");
    j->ready = 1;
    // every thread counts on the shared keys 0..2, journal slot per thread; the key of
    // operation n is n % 3
    vt::together(k, [&](size_t t) {
        for (uint64_t i = 0; i < 200000; i++) {
            j->t[t].started.store(i + 1);
            std::string key = "key" + std::to_string(i % 3);
            uint32_t    v;
            bool        ok = (i / 3) % 4 == 3 ? db.increment(key) : db.get_and_increment(key, v);
            if (!ok) _exit(3);
            if (i % 97 == 96) db.flush(true);
            j->t[t].acked.store(i + 1);
        }
    });
    return 0;
}

static void c17kill(long i, vt::Rng& r)
{
    std::string dir = vt::opts().dir + "/k" + std::to_string(i);
    mkdir(dir.c_str(), 0755);
    unsigned rounds = 1 + r.below(4);
    vt::begin_case(i, vt::fmt("kill rounds=%u", rounds));
    uint64_t base[3] = {0, 0, 0}; // number of increments known to be stored
    for (unsigned round = 0; round < rounds; round++) {
        uint64_t cseed = r.next() % 1000000007;
        Journal* j     = map_journal(dir + "/journal", true);
        pid_t    p     = spawn_child("c17child", dir, cseed);
        unsigned k     = threads_of(cseed);
        if (!kill_child(p, j, r, k)) break;
        vt::count("kills");
        uint64_t lo[3] = {base[0], base[1], base[2]}, hi[3] = {base[0], base[1], base[2]};
        for (unsigned t = 0; t < k; t++) {
            uint64_t a = j->t[t].acked, s = j->t[t].started;
            for (uint64_t n = 0; n < s; n++) {
                if (n < a) lo[n % 3]++;
                hi[n % 3]++;
            }
            vt::count("increments_before_kill", a);
            vt::count("in_flight", s - a);
        }
        munmap(j, sizeof *j);
        try {
            RocksDBCounter db(dir + "/db");
            for (int q = 0; q < 3; q++) {
                uint32_t v  = 0;
                bool     ok = db.get("key" + std::to_string(q), v);
                uint64_t n  = ok ? uint64_t(v) + 1 : 0;
                vt::eval();
                VT_CHECK(n >= lo[q], std::string("kill:lost-increment"), "%llu increments stored, %llu acknowledged",
                         (unsigned long long)n, (unsigned long long)lo[q]);
                VT_CHECK(n <= hi[q], std::string("kill:extra-increment"), "%llu increments stored, %llu started",
                         (unsigned long long)n, (unsigned long long)hi[q]);
                base[q] = n;
            }
        } catch (std::exception& x) {
            vt::fail("kill:reopen", std::string("the counters do not open after a kill: ") + x.what());
            break;
        }
    }
    vt::distinct(r.s);
    rm_rf(dir);
}

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    sse::logger::set_logger(nullptr);
    auto& o = vt::opts();
    if (o.mode == "c16child") _exit(c16child(false));
    if (o.mode == "c16childl") _exit(c16child(true));
    if (o.mode == "c17child") _exit(c17child());
    bool t = o.thorough;
    if (o.mode == "c16") vt::run_cases(t ? 2000 : 96, c16);
    else if (o.mode == "c16lin") vt::run_cases(t ? 800 : 24, c16lin);
    else if (o.mode == "c17lin") vt::run_cases(t ? 800 : 32, c17lin);
    else if (o.mode == "c16scale") vt::run_cases(t ? 40 : 4, c16scale);
    else if (o.mode == "c17scale") vt::run_cases(t ? 40 : 2, c17scale);
    else if (o.mode == "c16kill") vt::run_cases(t ? 600 : 32, c16kill);
    else if (o.mode == "c17") vt::run_cases(t ? 2000 : 96, c17);
    else if (o.mode == "c17kill") vt::run_cases(t ? 600 : 32, c17kill);
    else return 2;
    return vt::finish();
}
