// C18: thread pool.  C22: encodings, masks, serialisers, iterators.  C24: logging and benchmark records.
#include "fds.hpp"
#include "vt.hpp"

#include <sse/schemes/abstractio/kv_serializer.hpp>
#include <sse/schemes/abstractio/scheduler.hpp>
#include <sse/schemes/utils/concat_iterator.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/thread_pool.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <spdlog/sinks/base_sink.h>
#include <spdlog/sinks/ostream_sink.h>

#include <algorithm>
#include <array>
#include <deque>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <future>
#include <list>
#include <memory>
#include <sys/wait.h>

using namespace sse;

// ------------------------------------------------------------------ C18
struct TaskRec
{
    std::atomic<int>  runs{0};
    std::atomic<bool> finished{false};
    std::atomic<bool> accepted{false};
    std::thread::id   by;
    uint64_t          seq{0};
};

struct Boom : std::runtime_error
{
    explicit Boom(uint64_t i) : std::runtime_error("boom"), id(i)
    {
    }
    uint64_t id;
};

static void nap(vt::Rng& r)
{
    switch (r.below(6)) {
    case 0: std::this_thread::yield(); break;
    case 1: usleep(r.below(200)); break;
    case 2:
        for (volatile unsigned i = 0, n = r.below(3000); i < n; i++) {}
        break;
    default: break;
    }
}

static uint64_t free_fn(uint64_t a, std::string b, std::vector<uint64_t>& out)
{
    out.push_back(a);
    return a * 3 + b.size();
}

static void c18(long idx, vt::Rng& r)
{
    unsigned n       = r.chance(25) ? 1 : r.range(1, 8);
    unsigned k       = r.chance(40) ? 1 : r.range(2, 5);
    unsigned per     = r.range(1, 120);
    unsigned ending  = r.below(5); // 0: wait all, destroy; 1: join; 2: destroy at once; 3: join racing submitters; 4: destroy with blocked tasks released late
    bool     barrier = r.chance(50);
    bool     gaps    = r.chance(40);
    vt::begin_case(idx, vt::fmt("pool threads=%u submitters=%u tasks=%u end=%u barrier=%d", n, k, per, ending, barrier));
    vt::distinct(vt::hash(vt::st().casedesc));

    std::atomic<uint64_t> order{0};
    // records outlive the pool
    std::vector<std::unique_ptr<TaskRec>> recs;
    size_t                                total = size_t(k) * per;
    for (size_t i = 0; i < total * 2 + 64; i++) recs.emplace_back(new TaskRec);
    std::atomic<size_t> subnext{total};
    std::atomic<size_t> throwing{0}, refused{0};
    std::vector<uint64_t> seeds(k);
    for (auto& s : seeds) s = r.next();

    struct Fut
    {
        std::future<uint64_t> f;
        size_t                id;
        bool                  throws;
    };
    std::vector<std::vector<Fut>> futs(k);
    std::mutex                    subm;
    std::vector<Fut>              subf;
    {
        std::unique_ptr<ThreadPool> pool(new ThreadPool(n));
        ThreadPool* const           pp = pool.get(); // usable by tasks while it is being destroyed
        // n blocking tasks at once
        if (barrier) {
            // all of them must be running at the same time for any of them to end
            auto                           in = std::make_shared<std::atomic<unsigned>>(0);
            std::vector<std::future<void>> bf;
            if (gaps) usleep(300); // let the workers fall asleep
            for (unsigned i = 0; i < n; i++)
                bf.push_back(pool->enqueue([in, n] {
                    (*in)++;
                    while (in->load() < n) std::this_thread::yield();
                }));
            for (auto& f : bf) f.get();
            vt::count("barriers");
            vt::maximum("blocking_at_once", n);
        }
        std::atomic<bool> joined{false};
        auto              submit = [&](size_t t) {
            vt::Rng q(seeds[t]);
            for (unsigned i = 0; i < per; i++) {
                size_t   id   = t * per + i;
                unsigned kind = q.below(10);
                TaskRec* rec  = recs[id].get();
                uint64_t s    = q.next();
                bool     thr  = kind < 2;
                bool     sub  = kind == 2;
                auto     body = [&, rec, id, thr, sub, s](uint64_t x) -> uint64_t {
                    rec->runs++;
                    rec->seq = order++;
                    rec->by  = std::this_thread::get_id();
                    vt::Rng z(s);
                    nap(z);
                    if (sub) {
                        // tasks submitted by a task
                        size_t   sid = subnext++;
                        TaskRec* sr  = recs[sid].get();
                        try {
                            auto f = pp->enqueue([sr, sid]() -> uint64_t {
                                sr->runs++;
                                sr->finished = true;
                                return sid * 7;
                            });
                            sr->accepted = true;
                            std::lock_guard<std::mutex> g(subm);
                            subf.push_back({std::move(f), sid, false});
                        } catch (std::runtime_error&) {
                            refused++;
                        }
                    }
                    rec->finished = true;
                    if (thr) throw Boom(id);
                    return x + id;
                };
                try {
                    std::future<uint64_t> f = pp->enqueue(body, uint64_t(5));
                    rec->accepted           = true;
                    if (thr) throwing++;
                    futs[t].push_back({std::move(f), id, thr});
                } catch (std::runtime_error&) {
                    // only a stopped pool may refuse
                    refused++;
                    if (ending != 3) vt::fail("pool:refused", "a running pool refused a task");
                }
                if (gaps) nap(q);
            }
        };
        if (ending == 3) {
            vt::together(k + 1, [&](size_t t) {
                if (t == k) {
                    vt::Rng q(seeds[0] ^ 99);
                    nap(q);
                    nap(q);
                    pool->join();
                    joined = true;
                    size_t undone = 0;
                    (void)undone;
                } else submit(t);
            });
        } else if (k == 1) submit(0);
        else vt::together(k, submit);

        // arguments by value, by reference, member of a class
        if (ending != 3 && r.chance(50)) {
            std::vector<uint64_t> out;
            auto f = pool->enqueue(free_fn, uint64_t(4), std::string("abc"), std::ref(out));
            VT_CHECK(f.get() == 15 && out.size() == 1 && out[0] == 4, std::string("pool:arguments"), "bound arguments");
        }
        auto wait_all = [&] {
            for (auto& v : futs)
                for (auto& f : v) f.f.wait();
        };
        if (ending == 0) wait_all();
        if (ending == 1 || ending == 3) {
            pool->join();
            size_t undone = 0;
            for (auto& x : recs) undone += x->accepted.load() && !x->finished.load();
            VT_CHECK(undone == 0, std::string("pool:join-early"), "join returned with %zu accepted tasks unfinished", undone);
            for (auto& v : futs)
                for (auto& f : v)
                    VT_CHECK(f.f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, std::string("pool:join-early"),
                             "join returned before a future was ready");
            // refused once stopped
            bool threw = false;
            auto ran   = std::make_shared<std::atomic<bool>>(false);
            try {
                pool->enqueue([ran] { ran->store(true); });
            } catch (std::runtime_error&) {
                threw = true;
            }
            VT_CHECK(threw, std::string("pool:stopped-accepts"), "a stopped pool accepted a task");
            if (r.chance(50)) pool->join();
            vt::count("joins");
        }
        if (ending == 4) {
            std::promise<void> gate;
            auto               sf   = gate.get_future().share();
            auto               done = std::make_shared<std::atomic<unsigned>>(0);
            for (unsigned i = 0; i < 2 * n; i++)
                pool->enqueue([sf, done] {
                    sf.wait();
                    (*done)++;
                });
            std::thread opener([&] {
                usleep(500 + seeds[0] % 3000);
                gate.set_value();
            });
            pool.reset();
            VT_CHECK(done->load() == 2 * n, std::string("pool:destroy-early"), "destroyed with %u of %u blocked tasks done", done->load(), 2 * n);
            opener.join();
            vt::count("destroyed_while_blocked");
        }
        pool.reset();
        size_t undone = 0;
        for (auto& x : recs) undone += x->accepted.load() && !x->finished.load();
        VT_CHECK(undone == 0, std::string("pool:destroy-early"), "destroyed with %zu accepted tasks unfinished", undone);
    }
    // every task once
    size_t acc = 0;
    for (size_t i = 0; i < recs.size(); i++) {
        int c = recs[i]->runs.load();
        int w = recs[i]->accepted.load() ? 1 : 0;
        acc += w;
        VT_CHECK(c == w, std::string(c > w ? (w ? "pool:twice" : "pool:refused-ran") : "pool:never"), "task %zu ran %d times, accepted %d", i, c, w);
    }
    vt::eval(acc);
    vt::count("tasks", acc);
    vt::count("refused", refused.load());
    vt::count("throwing_tasks", throwing.load());
    auto get = [&](Fut& f) {
        try {
            uint64_t v = f.f.get();
            uint64_t w = f.id >= total ? f.id * 7 : f.id + 5;
            VT_CHECK(!f.throws && v == w, std::string("pool:result"), "task %zu delivered %llu, expected %llu", f.id, (unsigned long long)v, (unsigned long long)w);
        } catch (Boom& b) {
            VT_CHECK(f.throws && b.id == f.id, std::string("pool:exception"), "task %zu delivered the exception of %llu", f.id, (unsigned long long)b.id);
        } catch (std::future_error&) {
            vt::fail("pool:broken-promise", "the future of an accepted task delivers nothing");
        }
    };
    for (auto& v : futs)
        for (auto& f : v) get(f);
    for (auto& f : subf) get(f);
    vt::count("subtasks", subf.size());
    // order of a one-thread pool
    if (n == 1)
        for (unsigned t = 0; t < k; t++) {
            uint64_t last = 0;
            bool     ok   = true, first = true;
            for (unsigned i = 0; i < per; i++) {
                auto& x = recs[size_t(t) * per + i];
                if (!x->accepted.load()) continue;
                if (!first && x->seq < last) ok = false;
                last  = x->seq;
                first = false;
            }
            VT_CHECK(ok, std::string("pool:order"), "a one-thread pool ran the tasks of a submitter out of order");
            vt::count("one_thread_orders");
        }
    if (idx < 2) vt::sample(vt::st().casedesc);
}

// More tasks at once, and more workers, than small integers hold.
static void c18scale(long idx, vt::Rng& r)
{
    unsigned n     = idx % 4 == 0 ? 1 : idx % 4 == 1 ? 300 : 1 + r.below(8);
    size_t   total = 66000 + r.below(4000);
    unsigned end   = r.below(3);
    vt::begin_case(idx, vt::fmt("pool threads=%u tasks=%zu end=%u", n, total, end));
    vt::distinct(vt::hash(vt::st().casedesc));
    std::vector<std::atomic<uint8_t>> ran(total);
    for (auto& x : ran) x = 0;
    std::atomic<size_t>              next{0};
    std::atomic<bool>                go{false};
    std::atomic<size_t>              in{0};
    bool                             fifo = true;
    std::vector<std::future<size_t>> f;
    {
        ThreadPool pool(n);
        // every worker is held until all tasks are queued
        std::vector<std::future<void>> held;
        for (unsigned i = 0; i < n; i++)
            held.push_back(pool.enqueue([&] {
                in++;
                while (!go.load()) usleep(100);
            }));
        while (in.load() < n) {
            usleep(100);
        }
        vt::count("blocked_workers", n);
        for (size_t i = 0; i < total; i++) {
            f.push_back(pool.enqueue(
                [&, n](size_t k) {
                    ran[k]++;
                    size_t at = next++;
                    if (n == 1 && at != k) fifo = false;
                    return k * 3;
                },
                i));
            if (i % 256 == 0) vt::tick();
        }
        go = true;
        if (end == 0) pool.join();
        else if (end == 1)
            for (auto& h : held) h.get();
    }
    size_t once = 0, results = 0;
    for (auto& x : ran) once += x == 1;
    for (size_t i = 0; i < total; i++) {
        if (f[i].wait_for(std::chrono::seconds(0)) != std::future_status::ready) continue;
        try {
            results += f[i].get() == i * 3;
        } catch (std::exception&) {
        }
    }
    VT_CHECK(once == total, std::string("pool:lost-or-repeated"), "%zu of %zu tasks queued at once ran exactly once", once, total);
    VT_CHECK(results == total, std::string("pool:results"), "%zu of %zu results delivered", results, total);
    VT_CHECK(fifo, std::string("pool:order"), "a pool of one ran %zu tasks out of order", total);
    vt::eval(total);
    vt::count("tasks_queued_at_once", total);
}


// the shared pool, many times in a row with sleeping workers
static void c18global(long idx, vt::Rng& r)
{
    vt::begin_case(idx, "pool global");
    auto&                              p = ThreadPool::global_thread_pool();
    std::vector<std::future<uint64_t>> f;
    unsigned                           m = r.range(1, 60);
    for (unsigned i = 0; i < m; i++) f.push_back(p.enqueue([i] { return uint64_t(i) * i; }));
    for (unsigned i = 0; i < m; i++) {
        VT_CHECK(f[i].get() == uint64_t(i) * i, std::string("pool:result"), "shared pool");
        vt::eval();
    }
    vt::count("global_pool_tasks", m);
}

// ------------------------------------------------------------------ C22
static const char* HX = "0123456789abcdef";
static std::string refhex(const unsigned char* p, size_t n)
{
    std::string s;
    for (size_t i = 0; i < n; i++) {
        s += HX[p[i] >> 4];
        s += HX[p[i] & 15];
    }
    return s;
}
template<class T>
static std::string refint(T v)
{
    using U = typename std::make_unsigned<T>::type;
    U           u = static_cast<U>(v);
    std::string s;
    for (int i = static_cast<int>(sizeof(T)) * 2 - 1; i >= 0; i--) s += HX[(static_cast<uint64_t>(u) >> (4 * i)) & 15];
    return s;
}
template<class T>
static T odd(vt::Rng& r)
{
    switch (r.below(6)) {
    case 0: return 0;
    case 1: return static_cast<T>(~uint64_t(0));
    case 2: return static_cast<T>(uint64_t(1) << r.below(sizeof(T) * 8));
    case 3: return static_cast<T>(r.below(256));
    case 4: return static_cast<T>(r.next() & r.next());
    default: return static_cast<T>(r.next());
    }
}
template<class T, size_t N>
static void hexarr(vt::Rng& r, const char* what)
{
    std::array<T, N> a{};
    std::string      w;
    for (auto& x : a) {
        x = odd<T>(r);
        w += refint<T>(x);
    }
    std::string g = utility::hex_string(a);
    VT_CHECK(g == w, std::string("hex:array-") + what, "got %s want %s", g.c_str(), w.c_str());
    vt::eval();
    vt::count("hex_arrays");
}

template<size_t N>
static void mask(vt::Rng& r)
{
    std::array<uint8_t, N> m{};
    for (auto& x : m) x = odd<uint8_t>(r);
    uint64_t in = odd<uint64_t>(r), w = 0;
    for (int i = 0; i < 8; i++) w = w << 8 | m[i];
    uint64_t g = utility::xor_mask(in, m);
    VT_CHECK(g == (in ^ w), std::string("mask:value"), "xor_mask(%llx) = %llx", (unsigned long long)in, (unsigned long long)g);
    VT_CHECK(utility::xor_mask(g, m) == in, std::string("mask:involution"), "masking twice");
    vt::eval();
    vt::count("masks");
}

struct KVS
{
    // key: string, value: vector<uint32>
    void serialize_key_value(std::ostream& o, const std::string& k, const std::vector<uint32_t>& v)
    {
        calls++;
        uint32_t a = k.size(), b = v.size();
        o.write(reinterpret_cast<char*>(&a), 4);
        o.write(k.data(), a);
        o.write(reinterpret_cast<char*>(&b), 4);
        o.write(reinterpret_cast<const char*>(v.data()), 4 * b);
    }
    std::pair<std::string, std::vector<uint32_t>> deserialize_key_value(std::istream& in)
    {
        calls++;
        std::pair<std::string, std::vector<uint32_t>> p;
        uint32_t                                      a = 0, b = 0;
        in.read(reinterpret_cast<char*>(&a), 4);
        p.first.resize(a);
        in.read(&p.first[0], a);
        in.read(reinterpret_cast<char*>(&b), 4);
        p.second.resize(b);
        in.read(reinterpret_cast<char*>(p.second.data()), 4 * b);
        return p;
    }
    unsigned calls{0};
};
struct KVT
{
    std::string           k;
    std::vector<uint32_t> v;
    const std::string& get_key() const
    {
        return k;
    }
    const std::vector<uint32_t>& get_value() const
    {
        return v;
    }
};

static void kv(vt::Rng& r, long idx)
{
    using Pair = std::pair<std::string, std::vector<uint32_t>>;
    std::vector<Pair> data;
    unsigned          n = r.chance(15) ? 0 : r.below(40);
    for (unsigned i = 0; i < n; i++) {
        Pair p;
        p.first = r.bytes(r.chance(20) ? 0 : r.below(20));
        if (r.chance(20)) p.first += "\xff\xff";
        for (unsigned j = r.chance(20) ? 0 : r.below(30); j > 0; j--) p.second.push_back(odd<uint32_t>(r));
        data.push_back(p);
    }
    std::stringstream ss;
    std::string       fn = vt::opts().dir + "/kv" + std::to_string(idx);
    std::fstream      fs;
    bool              file = r.chance(30);
    if (file) fs.open(fn, std::ios::out | std::ios::binary | std::ios::trunc);
    {
        std::ostream&                                                   o = file ? static_cast<std::ostream&>(fs) : ss;
        abstractio::KVSerializer<std::string, std::vector<uint32_t>, KVS> s(o);
        KVS                                                             in;
        unsigned                                                        mode = r.below(8);
        if (mode == 6) s.serialize_iterable(data);
        else if (mode == 7) {
            s.serialize_iterable(data, in);
            VT_CHECK(in.calls == n, std::string("kv:serializer"), "the given serializer was used %u times for %u pairs", in.calls, n);
        } else
            for (auto& p : data) switch (mode) {
                case 0: s.serialize(p.first, p.second); break;
                case 1: s.serialize(p.first, p.second, in); break;
                case 2: s.serialize(p); break;
                case 3: s.serialize(p, in); break;
                case 4: s.serialize(KVT{p.first, p.second}); break;
                default: s.serialize(KVT{p.first, p.second}, in); break;
                }
    }
    if (file) {
        fs.close();
        fs.open(fn, std::ios::in | std::ios::binary);
    }
    std::istream&     i = file ? static_cast<std::istream&>(fs) : ss;
    std::vector<Pair> back;
    KVS               de;
    unsigned          mode = r.below(4);
    if (mode < 2) {
        std::function<void(std::string, std::vector<uint32_t>)> cb = [&](std::string k, std::vector<uint32_t> v) {
            back.emplace_back(std::move(k), std::move(v));
        };
        if (mode == 0) abstractio::deserialize<std::string, std::vector<uint32_t>, KVS>(i, cb, de);
        else abstractio::deserialize<std::string, std::vector<uint32_t>, KVS>(i, cb);
        VT_CHECK(back == data, std::string("kv:roundtrip"), "%zu pairs written, %zu read back, or other contents", data.size(), back.size());
    } else {
        std::map<std::string, std::vector<uint32_t>> want, got;
        for (auto& p : data) want[p.first] = p.second;
        got = mode == 2 ? abstractio::deserialize_map<std::string, std::vector<uint32_t>, KVS>(i, de)
                        : abstractio::deserialize_map<std::string, std::vector<uint32_t>, KVS>(i);
        VT_CHECK(got == want, std::string("kv:map"), "map of %zu entries read back as %zu, or other contents", want.size(), got.size());
    }
    if (file) unlink(fn.c_str());
    vt::eval();
    vt::count("kv_pairs", n);
}

template<class C>
static void concat(vt::Rng& r, C a, C b)
{
    using V = typename C::value_type;
    std::vector<V> want;
    for (auto& x : a) want.push_back(x);
    for (auto& x : b) want.push_back(x);
    bool post = r.chance(50);
    {
        utility::concat_iterator<C> it(a, b), end(a, b, b.end(), true);
        if (r.chance(40)) it = utility::concat_iterator<C>(a, b, a.begin(), false);
        size_t n = 0;
        bool   ok = true;
        while (it != end && n <= want.size()) {
            if (it == end) ok = false;
            if (n >= want.size() || *it != want[n]) ok = false;
            n++;
            if (post) {
                auto old = it++;
                if (!(old != it)) ok = false;
                if (*old != want[n - 1]) ok = false;
            } else {
                auto& ref = ++it;
                if (&ref != &it) ok = false;
            }
        }
        VT_CHECK(ok && n == want.size() && (it == end), std::string("concat:mutable"), "visited %zu of %zu elements (first container: %zu)", n, want.size(), a.size());
    }
    {
        const C& ca = a;
        const C& cb = b;
        utility::concat_const_iterator<C> it(ca, cb), end(ca, cb, cb.end(), true);
        if (r.chance(40)) it = utility::concat_const_iterator<C>(ca, cb, ca.begin(), false);
        size_t n = 0;
        bool   ok = true;
        while (it != end && n <= want.size()) {
            if (n >= want.size() || *it != want[n]) ok = false;
            n++;
            if (post) it++;
            else ++it;
        }
        VT_CHECK(ok && n == want.size(), std::string("concat:const"), "visited %zu of %zu elements (first container: %zu)", n, want.size(), a.size());
    }
    // starting anywhere
    if (!want.empty()) {
        size_t s  = r.below(want.size());
        bool   p2 = s >= a.size();
        auto   st = p2 ? b.begin() : a.begin();
        std::advance(st, p2 ? s - a.size() : s);
        utility::concat_iterator<C> it(a, b, st, p2), end(a, b, b.end(), true);
        size_t                      n = s;
        bool                        ok = true;
        for (; it != end && n <= want.size(); ++it, ++n) ok = ok && n < want.size() && *it == want[n];
        VT_CHECK(ok && n == want.size(), std::string("concat:from-middle"), "started at %zu, ended at %zu of %zu", s, n, want.size());
        // writing through it
        utility::concat_iterator<C> w(a, b, st, p2);
        V                           nv = want[(s + 1) % want.size()];
        *w                             = nv;
        want[s]                        = nv;
        std::vector<V> now;
        for (auto& x : a) now.push_back(x);
        for (auto& x : b) now.push_back(x);
        VT_CHECK(now == want, std::string("concat:write"), "writing element %zu changed something else", s);
    }
    vt::eval();
    vt::count("concatenations");
    if (a.size() == 0) vt::count("empty_first");
    if (b.size() == 0) vt::count("empty_second");
}

static void c22(long idx, vt::Rng& r)
{
    vt::begin_case(idx, "encodings");
    vt::distinct(r.s);
    for (int rep = 0; rep < 20; rep++) {
        {
            std::string s = r.bytes(r.chance(10) ? 0 : r.chance(10) ? 5000 : r.below(50));
            if (r.chance(20))
                for (auto& c : s) c = static_cast<char>(r.chance(50) ? 0 : 0xff);
            std::string w = refhex(reinterpret_cast<const unsigned char*>(s.data()), s.size());
            VT_CHECK(utility::hex_string(s) == w, std::string("hex:string"), "hex_string of %zu bytes", s.size());
            std::ostringstream o;
            if (&utility::print_hex(o, s) != &o || o.str() != w) vt::fail("hex:print", "print_hex of a string");
            vt::count("hex_strings");
        }
        uint64_t a = odd<uint64_t>(r);
        uint32_t b = odd<uint32_t>(r);
        VT_CHECK(utility::hex_string(a) == refint(a), std::string("hex:u64"), "%llx", (unsigned long long)a);
        VT_CHECK(utility::hex_string(b) == refint(b), std::string("hex:u32"), "%x", b);
        vt::eval(2);
        hexarr<uint8_t, 1>(r, "u8");
        hexarr<uint8_t, 16>(r, "u8");
        hexarr<uint8_t, 33>(r, "u8");
        hexarr<char, 7>(r, "char");
        hexarr<int8_t, 5>(r, "i8");
        hexarr<uint16_t, 5>(r, "u16");
        hexarr<uint32_t, 3>(r, "u32");
        hexarr<uint64_t, 4>(r, "u64");
        hexarr<int32_t, 4>(r, "i32");
        {
            std::array<uint8_t, 20> x{};
            for (auto& y : x) y = odd<uint8_t>(r);
            std::ostringstream o;
            utility::print_hex(o, x);
            VT_CHECK(o.str() == refhex(x.data(), x.size()), std::string("hex:print"), "print_hex of an array");
        }
        mask<8>(r);
        mask<9>(r);
        mask<16>(r);
        mask<32>(r);
        {
            size_t   al = size_t(1) << r.below(20);
            uint64_t x  = r.chance(50) ? r.below(100000) * al : r.next();
            if (r.chance(30)) x = odd<uint64_t>(r);
            VT_CHECK(utility::is_aligned(x, al) == (x % al == 0), std::string("aligned:u64"), "%llu / %zu", (unsigned long long)x, al);
            uint32_t y = static_cast<uint32_t>(x);
            VT_CHECK(utility::is_aligned(y, al) == (y % al == 0), std::string("aligned:u32"), "%u / %zu", y, al);
            auto* p = reinterpret_cast<const char*>(x);
            VT_CHECK(utility::is_aligned(static_cast<const volatile void*>(p), al) == (x % al == 0), std::string("aligned:pointer"), "%p / %zu", p, al);
            int z = static_cast<int>(r.below(5000));
            VT_CHECK(utility::is_aligned(z, al) == (static_cast<size_t>(z) % al == 0), std::string("aligned:int"), "%d / %zu", z, al);
            vt::eval(4);
            vt::count("alignments", 4);
        }
        kv(r, idx);
        size_t na = r.chance(25) ? 0 : r.below(8), nb = r.chance(25) ? 0 : r.below(8);
        switch (r.below(4)) {
        case 0: {
            std::vector<uint64_t> x, y;
            for (size_t i = 0; i < na; i++) x.push_back(r.next());
            for (size_t i = 0; i < nb; i++) y.push_back(r.next());
            concat(r, x, y);
            break;
        }
        case 1: {
            std::list<std::string> x, y;
            for (size_t i = 0; i < na; i++) x.push_back(r.bytes(r.below(20)));
            for (size_t i = 0; i < nb; i++) y.push_back(r.bytes(r.below(20)));
            concat(r, x, y);
            break;
        }
        case 2: {
            std::deque<int> x, y;
            for (size_t i = 0; i < na; i++) x.push_back(static_cast<int>(r.next()));
            for (size_t i = 0; i < nb; i++) y.push_back(static_cast<int>(r.next()));
            concat(r, x, y);
            break;
        }
        default: {
            // no gap between the two: views of equal contents
            std::vector<uint8_t> x(na, 1), y(nb, 1);
            concat(r, x, y);
        }
        }
    }
}

static void c22scale(long idx, vt::Rng& r)
{
    vt::begin_case(idx, "long values, many pairs, several threads");
    vt::distinct(r.s);
    for (size_t n : {size_t(255), size_t(256), size_t(32767), size_t(65535), size_t(65536), 70000 + r.below(100000)}) {
        std::string s = r.bytes(n), w = refhex(reinterpret_cast<const unsigned char*>(s.data()), s.size());
        VT_CHECK(utility::hex_string(s) == w, std::string("hex:string"), "hex_string of %zu bytes", n);
        std::ostringstream o;
        utility::print_hex(o, s);
        VT_CHECK(o.str() == w, std::string("hex:print"), "print_hex of a string of %zu bytes", n);
        vt::count("long_strings");
    }
    hexarr<uint8_t, 70000>(r, "u8");
    hexarr<uint8_t, 256>(r, "u8");
    hexarr<uint16_t, 40000>(r, "u16");
    hexarr<uint64_t, 9000>(r, "u64");
    mask<300>(r);
    {
        using Pair = std::pair<std::string, std::vector<uint32_t>>;
        std::vector<Pair> data(66000 + r.below(2000));
        for (size_t i = 0; i < data.size(); i++) {
            data[i].first = std::to_string(i);
            for (size_t k = i % 5; k > 0; k--) data[i].second.push_back(r.next());
        }
        data[5].first = r.bytes(70000);
        data[6].second.assign(300000, 0xffffffffu);
        std::stringstream                                                 ss;
        abstractio::KVSerializer<std::string, std::vector<uint32_t>, KVS> s(ss);
        s.serialize_iterable(data);
        std::vector<Pair>                                       back;
        std::function<void(std::string, std::vector<uint32_t>)> cb = [&](std::string k, std::vector<uint32_t> v) {
            back.emplace_back(std::move(k), std::move(v));
        };
        std::string all = ss.str();
        abstractio::deserialize<std::string, std::vector<uint32_t>, KVS>(ss, cb);
        VT_CHECK(back == data, std::string("kv:roundtrip"), "%zu pairs written, %zu read back, or other contents", data.size(), back.size());
        std::map<std::string, std::vector<uint32_t>> want;
        for (auto& p : data) want[p.first] = p.second;
        std::stringstream s2(all);
        auto              got = abstractio::deserialize_map<std::string, std::vector<uint32_t>, KVS>(s2);
        VT_CHECK(got == want, std::string("kv:map"), "map of %zu entries read back as %zu, or other contents", want.size(), got.size());
        vt::count("many_pairs", data.size());
        vt::eval(2);
    }
    {
        std::vector<uint64_t> x, y;
        size_t                na = r.below(70000), nb = 70000 - na + r.below(1000);
        if (r.chance(30)) std::swap(na, nb = 0);
        for (size_t i = 0; i < na; i++) x.push_back(r.next());
        for (size_t i = 0; i < nb; i++) y.push_back(r.next());
        concat(r, x, y);
        concat(r, std::list<uint64_t>(x.begin(), x.end()), std::list<uint64_t>(y.begin(), y.end()));
    }
    // the renderings do not share anything
    std::vector<uint64_t> seeds(4);
    for (auto& q : seeds) q = r.next();
    vt::together(4, [&](size_t t) {
        vt::Rng q(seeds[t]);
        for (int k = 0; k < 400; k++) {
            std::string s = q.bytes(q.below(60));
            VT_CHECK(utility::hex_string(s) == refhex(reinterpret_cast<const unsigned char*>(s.data()), s.size()), std::string("hex:string"), "hex_string of %zu bytes, several threads", s.size());
            uint64_t a = odd<uint64_t>(q);
            VT_CHECK(utility::hex_string(a) == refint(a), std::string("hex:u64"), "%llx, several threads", (unsigned long long)a);
            std::array<uint8_t, 20> x{};
            for (auto& z : x) z = odd<uint8_t>(q);
            VT_CHECK(utility::hex_string(x) == refhex(x.data(), x.size()), std::string("hex:array"), "hex_string of an array, several threads");
            mask<8>(q);
        }
    });
    vt::count("concurrent_renderings", 4 * 400);
}

// ------------------------------------------------------------------ C24
struct CountSink : spdlog::sinks::base_sink<std::mutex>
{
    std::vector<std::string> lines;
    void                     sink_it_(const spdlog::details::log_msg& m) override
    {
        lines.emplace_back(m.payload.data(), m.payload.size());
    }
    void flush_() override
    {
    }
};

static void c24(long idx, vt::Rng& r)
{
    vt::begin_case(idx, "logger");
    vt::distinct(r.s);
    // redirect, silence, restore, in any order
    std::shared_ptr<CountSink>      cur;
    std::shared_ptr<spdlog::logger> lg;
    std::vector<std::string>        want;
    spdlog::level::level_enum       lev = spdlog::level::info;
    for (unsigned i = 0; i < 60; i++) {
        switch (r.below(6)) {
        case 0:
            cur = std::make_shared<CountSink>();
            lg  = std::make_shared<spdlog::logger>("l" + std::to_string(idx) + "_" + std::to_string(i), cur);
            want.clear();
            lev = spdlog::level::info;
            logger::set_logger(lg);
            VT_CHECK(logger::logger() == lg, std::string("logger:redirect"), "the configured logger is not the one in use");
            vt::count("redirections");
            break;
        case 1:
            try {
                logger::set_logger(nullptr);
            } catch (std::exception& e) {
                vt::fail("logger:silence", e.what());
            }
            VT_CHECK(logger::logger() != nullptr && logger::logger() != lg, std::string("logger:silence"), "still logging to the old one");
            cur.reset();
            lg.reset();
            vt::count("silenced");
            break;
        case 2:
            if (lg) {
                lev = static_cast<spdlog::level::level_enum>(r.below(6));
                logger::set_logging_level(lev);
                VT_CHECK(lg->level() == lev, std::string("logger:level"), "level %d", static_cast<int>(lev));
            }
            break;
        default: {
            auto        l = static_cast<spdlog::level::level_enum>(r.below(6));
            std::string m = "message " + std::to_string(r.next());
            if (r.chance(20)) m += " {} {0} %s";
            logger::logger()->log(l, m);
            if (cur && l >= lev) want.push_back(m);
            if (cur) VT_CHECK(cur->lines == want, std::string("logger:lost"), "%zu lines in the sink, expected %zu", cur->lines.size(), want.size());
            vt::eval();
            vt::count("messages");
        }
        }
    }
    logger::set_logger(nullptr);
}

static std::string bench_file;
static size_t      bench_lines = 0;

static std::vector<std::string> lines_of(const std::string& f)
{
    std::vector<std::string> v;
    std::ifstream            i(f);
    for (std::string l; std::getline(i, l);) v.push_back(l);
    return v;
}

static void c24bench(long idx, vt::Rng& r)
{
    vt::begin_case(idx, "benchmark");
    unsigned              n = r.range(1, 12);
    std::vector<uint64_t> counts;
    std::vector<double>   bound_ms, inner_ms;
    std::vector<std::string> msgs;
    for (unsigned i = 0; i < n; i++) {
        static const uint64_t special[] = {0, 0, 1, 1, 2, 3, 255, 256, 65535, 65536, 70000, uint64_t(1) << 32, (uint64_t(1) << 32) + 5, uint64_t(1) << 40};
        uint64_t c    = r.chance(50) ? special[r.below(14)] : r.below(100000);
        unsigned how  = r.below(4);
        uint64_t idn  = uint64_t(idx) * 100 + i;
        using clk     = std::chrono::high_resolution_clock;
        auto t0       = clk::now();
        auto t1       = t0;
        {
            static const char* const deco[] = {"", " {}", " {0}", " {", " }", " {{x}}", " {x:d}", " %s", " {3}"};
            msgs.push_back("search " + std::string(r.chance(40) ? deco[r.below(9)] : "") + " " + std::to_string(idn));
            SearchBenchmark b(msgs.back());
            auto            in0 = clk::now();
            if (r.chance(10)) usleep(r.below(3000));
            inner_ms.push_back(std::chrono::duration<double, std::milli>(clk::now() - in0).count());
            switch (how) {
            case 0: b.stop(c); break;
            case 1:
                b.set_count(c);
                b.stop();
                break;
            case 2: b.set_count(c); break;
            default:
                usleep(r.below(500));
                b.stop(c);
                t1 = clk::now();
                usleep(20000); // after the stop: not counted
                if (r.chance(30)) b.stop(c + 1);
                break;
            }
            if (how != 3 && how != 2) t1 = clk::now();
        }
        if (how == 2) t1 = clk::now();
        bound_ms.push_back(std::chrono::duration<double, std::milli>(t1 - t0).count());
        counts.push_back(c);
        vt::eval();
    }
    // the asynchronous sink
    std::vector<std::string> l;
    for (int w = 0; w < 3000; w++) {
        spdlog::get("benchmark")->flush();
        l = lines_of(bench_file);
        if (l.size() >= bench_lines + n) break;
        usleep(2000);
        vt::tick();
    }
    VT_CHECK(l.size() == bench_lines + n, std::string("benchmark:records"), "%zu records for %u benchmarks", l.size() - bench_lines, n);
    for (unsigned i = 0; i < n && bench_lines + i < l.size(); i++) {
        const std::string& s = l[bench_lines + i];
        std::string        m = "\"" + msgs[i] + "\"";
        VT_CHECK(s.find(m) != std::string::npos, std::string("benchmark:message"), "%s", s.c_str());
        auto p = s.find("\"items\" : ");
        VT_CHECK(p != std::string::npos && strtoull(s.c_str() + p + 10, nullptr, 10) == counts[i], std::string("benchmark:count"), "%s, expected %llu items", s.c_str(), (unsigned long long)counts[i]);
        auto   q    = s.find("\"time\" : ");
        auto   q2   = s.find("\"time/item\" : ");
        double time = q == std::string::npos ? -1 : strtod(s.c_str() + q + 9, nullptr);
        double per  = q2 == std::string::npos ? -1 : strtod(s.c_str() + q2 + 14, nullptr);
        VT_CHECK(time >= 0 && per >= 0, std::string("benchmark:time"), "%s", s.c_str());
        VT_CHECK(time <= bound_ms[i] + 1e-3, std::string("benchmark:not-stopped"), "%f ms reported, the interval was at most %f ms", time, bound_ms[i]);
        VT_CHECK(time >= inner_ms[i] - 1e-3, std::string("benchmark:too-short"), "%f ms reported, the interval was at least %f ms", time, inner_ms[i]);
        if (counts[i] <= 1 && time >= 0) VT_CHECK(per == time, std::string("benchmark:per-item"), "%s", s.c_str());
        if (counts[i] > 1 && time >= 0)
            VT_CHECK(per <= time / counts[i] * 1.001 + 1e-9 && per >= time / counts[i] * 0.999 - 1e-9, std::string("benchmark:per-item"), "%s", s.c_str());
        vt::count("records");
    }
    bench_lines = l.size();
}

// ------------------------------------------------------------------ C20
// Several threads use the library's shared services for the first time.  (One
// case per process: a service is used for the first time only once.)
static size_t n_tasks()
{
    size_t n = 0;
    for (auto& e : std::filesystem::directory_iterator("/proc/self/task")) n++;
    return n;
}

static void one_request(abstractio::Scheduler* s, const std::string& f)
{
    int   fd  = open(f.c_str(), O_RDWR | O_CREAT, 0600);
    void* buf = nullptr;
    if (posix_memalign(&buf, 4096, 4096)) return;
    memset(buf, 1, 4096);
    std::atomic<int> done{0};
    s->submit_pwrite(fd, buf, 4096, 0, &done, [](void* d, int64_t) { ++*static_cast<std::atomic<int>*>(d); });
    s->wait_completions();
    VT_CHECK(done.load() == 1, std::string("first:request"), "%d completions", done.load());
    free(buf);
    close(fd);
}

// how many threads the shared pool of the thread-pool schedulers has
static size_t shared_pool_threads(const std::string& dir)
{
    pid_t p = fork();
    if (p == 0) {
        size_t                                 a = n_tasks();
        std::unique_ptr<abstractio::Scheduler> s(abstractio::make_thread_pool_aio_scheduler());
        one_request(s.get(), dir + "/ref");
        for (int i = 0; i < 50; i++) usleep(1000);
        _exit(static_cast<int>(n_tasks() - a));
    }
    int st = 0;
    if (p < 0 || waitpid(p, &st, 0) != p || !WIFEXITED(st)) return 0;
    return WEXITSTATUS(st);
}
static size_t g_pool_threads = 0;

static void c20first(long idx, vt::Rng& r)
{
    vt::begin_case(idx, "first use");
    auto&    o    = vt::opts();
    unsigned k    = r.range(2, 8), what = r.below(4);
    bool     bench = r.chance(50);
    vt::distinct(r.s);
    if (bench) Benchmark::set_benchmark_file(o.dir + "/b.log");
    std::vector<spdlog::logger*> seen(k);
    std::vector<ThreadPool*>     pools(k);
    std::vector<uint64_t>        seeds(k);
    for (auto& x : seeds) x = r.next();
    size_t before = n_tasks();
    vt::together(k, [&](size_t t) {
        vt::Rng q(seeds[t]);
        try {
            if (q.chance(30)) usleep(q.below(100));
            if (what == 0 || what == 3) {
                auto l  = logger::logger();
                seen[t] = l.get();
                l->set_level(spdlog::level::off);
                l->info("{}", t);
                vt::count("first_loggers");
            }
            if (what == 1 || what == 3) {
                auto& p  = ThreadPool::global_thread_pool();
                pools[t] = &p;
                std::vector<std::future<size_t>> fs;
                for (size_t i = 0; i < 20; i++) fs.push_back(p.enqueue([i] { return i; }));
                for (size_t i = 0; i < 20; i++) VT_CHECK(fs[i].get() == i, std::string("first:pool"), "wrong result");
                vt::count("first_pools");
            }
            if (what == 2 || what == 3) {
                std::unique_ptr<abstractio::Scheduler> s(abstractio::make_thread_pool_aio_scheduler());
                one_request(s.get(), o.dir + "/f" + std::to_string(t));
                vt::count("first_schedulers");
            }
            if (bench)
                for (int i = 0; i < 10; i++) {
                    SearchBenchmark b("first " + std::to_string(t));
                    if (q.chance(50)) b.stop(i);
                }
            // from now on used, redirected and silenced by several at once
            if (what != 2)
                for (int i = 0; i < 30; i++) {
                    switch (q.below(4)) {
                    case 0: {
                        auto l = std::make_shared<spdlog::logger>("t" + std::to_string(t) + "_" + std::to_string(i), std::make_shared<CountSink>());
                        logger::set_logger(l);
                        break;
                    }
                    case 1:
                        if (what == 3) logger::set_logger(nullptr);
                        break;
                    default:
                        if (what == 0 || what == 3) logger::logger()->log(spdlog::level::trace, "{}", i);
                    }
                    vt::count("shared_logger_uses");
                }
        } catch (std::exception& e) {
            vt::fail("first:exception", e.what());
        }
    });
    for (unsigned t = 1; t < k; t++) {
        VT_CHECK(pools[t] == pools[0], std::string("first:pool-twice"), "two global pools");
    }
    if (what == 2) {
        size_t now = 0;
        for (int i = 0; i < 2000; i++) {
            now = n_tasks();
            if (now <= before + g_pool_threads) break;
            usleep(1000);
        }
        VT_CHECK(!g_pool_threads || now <= before + g_pool_threads, std::string("first:io-pool-twice"),
                 "%zu threads more, one shared pool has %zu", now - before, g_pool_threads);
        vt::count("shared_pools_counted");
    }
    vt::eval(k);
    logger::set_logger(nullptr);
    if (bench) spdlog::shutdown();
}

int main(int argc, char** argv)
{
    for (int i = 1; i + 1 < argc; i++)
        if (std::string(argv[i]) == "--mode" && std::string(argv[i + 1]) == "c20first") g_pool_threads = shared_pool_threads(".");
    vt::init(argc, argv);
    auto& o = vt::opts();
    bool  t = o.thorough;
    // the pool writes a line to the standard output when destroyed
    std::ofstream null("/dev/null");
    auto*         old = std::cout.rdbuf(null.rdbuf());
    if (o.mode == "c18") {
        vt::run_cases(t ? 20000 : 1600, c18);
        o.mode = "c18global";
        vt::run_cases(t ? 2000 : 200, c18global);
    } else if (o.mode == "c18scale") vt::run_cases(t ? 80 : 4, c18scale);
    else if (o.mode == "c22scale") vt::run_cases(t ? 200 : 4, c22scale);
    else if (o.mode == "c22") vt::run_cases(t ? 20000 : 800, c22);
    else if (o.mode == "c24") {
        vt::run_cases(t ? 4000 : 200, c24);
        bench_file = o.dir + "/bench.log";
        Benchmark::set_benchmark_file(bench_file);
        vt::run_cases(t ? 200 : 24, c24bench);
        spdlog::shutdown();
    } else if (o.mode == "c20first") vt::run_cases(t ? 400 : 48, c20first);
    else return 2;
    std::cout.rdbuf(old);
    return vt::finish();
}
