// C03 / C04: the append-only on-disk vector against a plain model.
#define VT_IOFAULT_IMPL
#include "iofault.hpp"

#include "fds.hpp"

#include <sse/schemes/abstractio/awonvm_vector.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <fcntl.h>
#include <memory>

using namespace sse::abstractio;
using vt::Rng;

template<size_t N>
struct Val
{
    static constexpr size_t kN = N;
    unsigned char           b[N];
};

template<size_t N>
static void fill(Val<N>& v, uint64_t tag)
{
    uint64_t s = tag * 0x9E3779B97F4A7C15ULL + N;
    for (size_t i = 0; i < N; i += 8) {
        uint64_t x = vt::splitmix(s);
        memcpy(v.b + i, &x, std::min<size_t>(8, N - i));
    }
    memcpy(v.b, &tag, std::min<size_t>(8, N));
}
template<size_t N>
static bool same(const Val<N>& v, uint64_t tag)
{
    Val<N> w;
    fill(w, tag);
    return memcmp(&v, &w, N) == 0;
}
template<size_t N>
static uint64_t tag_of(const Val<N>& v)
{
    uint64_t t = 0;
    memcpy(&t, v.b, std::min<size_t>(8, N));
    return t;
}

enum Sched { DEFAULT, POOL, AIO, NONE };

template<class T, size_t A>
static std::unique_ptr<awonvm_vector<T, A>> open_vec(const std::string& path, Sched s, bool direct, unsigned depth)
{
    using V = awonvm_vector<T, A>;
    if (s == DEFAULT) return std::unique_ptr<V>(new V(path, direct));
    std::unique_ptr<Scheduler> sc;
    if (s == POOL) sc.reset(make_thread_pool_aio_scheduler());
    if (s == AIO) sc.reset(make_linux_aio_scheduler(4096, depth));
    return std::unique_ptr<V>(new V(path, std::move(sc), direct));
}

template<class T, size_t A>
struct aligned_val
{
    alignas(A) T v;
};

// Reads through every interface and compares with the model.
template<class T, size_t A>
static void read_all(awonvm_vector<T, A>& v, const std::vector<uint64_t>& model, Rng& g, bool async_ok,
                     const char* when, bool with_threads)
{
    size_t n = model.size();
    VT_CHECK(v.size() == n, "size", "%s: size() is %zu instead of %zu", when, v.size(), n);
    VT_CHECK(n == 0 || v.is_committed(), "not-committed", "%s: the vector is not committed", when);
    if (n == 0 || v.size() != n) return;
    size_t k = std::min<size_t>(n, 12 + g.below(40));
    auto   sync_reads = [&](Rng r) {
        for (size_t i = 0; i < k; i++) {
            size_t x = i == 0 ? 0 : i == 1 ? n - 1 : r.below(n);
            try {
                T t = v.get(x);
                VT_CHECK(same(t, model[x]), "get", "%s: get(%zu) of %zu returned value %llx instead of %llx", when, x,
                         n, (unsigned long long)tag_of(t), (unsigned long long)model[x]);
            } catch (std::exception& e) {
                vt::fail("get-throws", vt::fmt("%s: get(%zu) of %zu: %s", when, x, n, e.what()));
            }
            vt::eval();
        }
        vt::count("sync_reads", k);
    };
    struct Slot
    {
        size_t           idx;
        std::atomic<int> calls{0}, null{0}, bad{0};
    };
    auto async_reads = [&](Rng r, bool batch) {
        auto                  slots = std::make_shared<std::vector<Slot>>(k);
        auto                  done  = std::make_shared<std::atomic<size_t>>(0);
        std::vector<uint64_t> want(k);
        size_t                total = 0;
        auto                  cb    = [&](size_t i) {
            uint64_t w = model[(*slots)[i].idx];
            return [slots, done, i, w](std::unique_ptr<T> p) {
                Slot& s = (*slots)[i];
                s.calls++;
                if (!p) s.null++;
                else if (!same(*p, w)) s.bad++;
                (*done)++;
                vt::tick();
            };
        };
        for (size_t i = 0; i < k; i++) (*slots)[i].idx = r.chance(10) ? n - 1 : r.below(n);
        try {
            if (batch) {
                size_t i = 0;
                while (i < k) {
                    std::vector<typename awonvm_vector<T, A>::GetRequest> q;
                    size_t                                                m = 1 + r.below(k - i);
                    for (size_t j = i; j < i + m; j++) q.emplace_back((*slots)[j].idx, cb(j));
                    v.async_gets(q);
                    i += m;
                    total += m;
                }
            } else {
                for (size_t i = 0; i < k; i++) {
                    v.async_get((*slots)[i].idx, cb(i));
                    total++;
                }
            }
        } catch (std::exception& e) {
            vt::fail("async-throws", vt::fmt("%s: asynchronous read%s of %zu: %s", when, batch ? " (batch)" : "", n, e.what()));
        }
        for (int w = 0; done->load() < total && w < 20000; w++) usleep(1000);
        usleep(100);
        for (size_t i = 0; i < total; i++) {
            Slot& s = (*slots)[i];
            vt::eval();
            VT_CHECK(s.calls == 1, "async-calls", "%s: asynchronous read%s of %zu called back %d times", when,
                     batch ? " (batch)" : "", s.idx, s.calls.load());
            VT_CHECK(!s.null, "async-null", "%s: asynchronous read%s of %zu delivered nothing", when,
                     batch ? " (batch)" : "", s.idx);
            VT_CHECK(!s.bad, "async-value", "%s: asynchronous read%s of %zu delivered another value", when,
                     batch ? " (batch)" : "", s.idx);
        }
        vt::count(batch ? "batch_reads" : "async_reads", total);
    };
    if (with_threads) {
        vt::together(3, [&](size_t t) {
            Rng r(g.s + t + 1);
            if (t == 0 || !async_ok) sync_reads(r);
            else async_reads(r, t == 2);
        });
        g.next();
    } else {
        sync_reads(Rng(g.next()));
        if (async_ok) {
            async_reads(Rng(g.next()), false);
            async_reads(Rng(g.next()), true);
        }
    }
}

template<class T, size_t A>
static void c03(long i, Rng& g)
{
    const bool  page   = A % 4096 == 0;
    std::string path   = vt::opts().dir + vt::fmt("/v%ld", i);
    bool        direct = page && g.chance(50);
    Sched       sc     = static_cast<Sched>(g.below(4));
    unsigned    depth  = 1 + g.below(g.chance(50) ? 2 : 64);
    bool        async_ok = sc == POOL || (page && sc != NONE);
    size_t      phases = 1 + g.below(4);
    iof::Plan   p;
    if (g.chance(50)) p.qmax = depth;
    if (g.chance(40)) p.partial = 10 + g.below(60);
    if (g.chance(40)) p.eagain = 5 + g.below(40);
    if (g.chance(20)) p.late_eagain = 3;
    if (g.chance(30)) p.eintr = 5 + g.below(30);
    if (g.chance(30)) p.delay = 20;
    static const char* sn[] = {"default", "pool", "aio", "none"};
    vt::begin_case(i, vt::fmt("c03 value=%zu align=%zu sched=%s direct=%d phases=%zu depth=%u", sizeof(T), A, sn[sc],
                              direct, phases, depth));
    iof::set_plan(p, g.next());
    auto                  v = open_vec<T, A>(path, sc, direct, depth);
    std::vector<uint64_t> model;
    std::mutex            mm;
    uint64_t              tagbase = (uint64_t(i) << 24) + 1;
    std::atomic<uint64_t> tags{tagbase};
    auto                  append = [&](Rng& r, bool single, size_t expect) {
        aligned_val<T, A> a;
        uint64_t          t  = tags++;
        bool              as = async_ok && r.chance(50);
        fill(a.v, t);
        size_t pos;
        try {
            pos = as ? v->async_push_back(a.v) : v->push_back(a.v);
        } catch (std::exception& e) {
            vt::fail("append-throws", vt::fmt("%s append: %s", as ? "async" : "sync", e.what()));
            return;
        }
        memset(&a.v, 0x77, sizeof(T)); // the caller may reuse its value at once
        vt::eval();
        if (single)
            VT_CHECK(pos == expect, "position", "%s append number %zu returned position %zu", as ? "async" : "sync",
                     expect, pos);
        std::lock_guard<std::mutex> l(mm);
        if (pos >= model.size()) model.resize(std::min<size_t>(pos + 1, 1 << 20), 0);
        if (pos < model.size()) {
            VT_CHECK(model[pos] == 0, "position-twice", "position %zu was returned twice", pos);
            model[pos] = t;
        }
        vt::count(as ? "async_appends" : "sync_appends");
    };
    size_t count = 0, mxn = sizeof(T) > 4096 ? 20 : 40;
    for (size_t ph = 0; ph < phases; ph++) {
        if (g.chance(40)) {
            size_t rsv = g.chance(50) ? count + g.below(80) : g.below(40);
            v->reserve(rsv);
            vt::count("reservations");
        }
        size_t k = g.below(mxn);
        if (g.chance(50)) {
            for (size_t j = 0; j < k; j++) append(g, true, count + j);
        } else {
            size_t   th = 2 + g.below(5);
            uint64_t sd = g.next();
            vt::together(th, [&](size_t t) {
                Rng r(sd + t);
                for (size_t j = k * t / th; j < k * (t + 1) / th; j++) append(r, false, 0);
            });
            vt::count("concurrent_phases");
        }
        count += k;
        VT_CHECK(v->size() == count, "size", "size() is %zu after %zu appends", v->size(), count);
    }
    VT_CHECK(model.size() == count, "positions", "%zu appends returned positions up to %zu", count, model.size());
    for (size_t j = 0; j < model.size(); j++) VT_CHECK(model[j] != 0, "position-hole", "position %zu was never returned", j);
    bool explicit_commit = g.chance(60);
    if (explicit_commit) {
        v->commit();
        read_all<T, A>(*v, model, g, async_ok, "after commit", g.chance(40));
        if (page && count && g.chance(40)) {
            v->set_use_direct_access(!v->use_direct_access());
            read_all<T, A>(*v, model, g, async_ok, "after a mode switch", g.chance(40));
            if (g.chance(50)) {
                v->set_use_direct_access(!v->use_direct_access());
                read_all<T, A>(*v, model, g, async_ok, "after a second mode switch", false);
            }
            vt::count("mode_switches");
        }
        if (g.chance(30)) {
            awonvm_vector<T, A> w(std::move(*v));
            v.reset();
            read_all<T, A>(w, model, g, async_ok, "after a move", g.chance(40));
            vt::count("moves");
        }
    }
    v.reset();
    // what is on disk
    {
        struct stat sb;
        VT_CHECK(stat(path.c_str(), &sb) == 0 && size_t(sb.st_size) == count * sizeof(T), "file-size",
                 "%zu values of %zu bytes make a file of %lld bytes", count, sizeof(T), (long long)sb.st_size);
    }
    size_t reopens = 1 + g.below(2);
    for (size_t r = 0; r < reopens; r++) {
        bool  d2 = page && g.chance(50);
        Sched s2 = static_cast<Sched>(g.below(4));
        auto  w  = open_vec<T, A>(path, s2, d2, depth);
        read_all<T, A>(*w, model, g, s2 == POOL || (page && s2 != NONE), "after a reopen", g.chance(40));
        vt::count("reopens");
    }
    vt::count("faults_injected", iof::injected());
    iof::unwatch_all();
    iof::forget_transfers();
    unlink(path.c_str());
    vt::distinct(g.s);
    if (i < 4) vt::sample(vt::fmt("%zu values of %zu bytes in %zu phases, scheduler %s, direct %d", count, sizeof(T), phases, sn[sc], direct));
}

// ---- C04 -------------------------------------------------------------------

template<class F>
static bool throws(F f)
{
    try {
        f();
    } catch (std::exception&) {
        return true;
    }
    return false;
}

// waits until no callback can be pending any more
static void settle(std::atomic<long>& started, std::atomic<long>& ended)
{
    for (int w = 0; ended.load() < started.load() && w < 20000; w++) usleep(500);
}

static size_t pick_index(Rng& g, size_t n)
{
    switch (g.below(5)) {
    case 0: return n;
    case 1: return n + 1 + g.below(5);
    case 2: return ~size_t(0) - g.below(3);
    case 3: return size_t(1) << (20 + g.below(40));
    default: return n ? g.below(n) : 0;
    }
}

template<class T, size_t A>
static void c04_life(long i, Rng& g)
{
    const bool         page = A % 4096 == 0;
    std::string        path = vt::opts().dir + vt::fmt("/w%ld", i);
    bool               direct = page && g.chance(40);
    Sched              sc     = static_cast<Sched>(g.below(4));
    static const char* sn[]   = {"default", "pool", "aio", "none"};
    size_t             ops    = 10 + g.below(60);
    vt::begin_case(i, vt::fmt("c04life value=%zu align=%zu sched=%s direct=%d ops=%zu", sizeof(T), A, sn[sc], direct, ops));
    iof::set_plan(iof::Plan(), 1);
    // sentinels: nobody may close these
    int  s0 = open("/dev/null", O_RDONLY);
    auto before = fds::snapshot();
    {
        std::vector<uint64_t> model;
        bool                  committed = false;
        uint64_t              tag       = (uint64_t(i) << 20) + 1;
        std::atomic<long>     started{0}, ended{0};
        if (g.chance(30)) {
            // an existing file, possibly with a partial last value
            size_t k  = 1 + g.below(10);
            int    fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            for (size_t j = 0; j < k; j++) {
                T t;
                fill(t, tag);
                model.push_back(tag++);
                if (::pwrite(fd, &t, sizeof t, j * sizeof t) < 0) abort();
            }
            if (g.chance(40) && sizeof(T) > 1)
                if (ftruncate(fd, k * sizeof(T) + 1 + g.below(sizeof(T) - 1))) abort();
            close(fd);
            committed = true;
            vt::count("opened_existing");
        }
        auto v        = open_vec<T, A>(path, sc, direct, 8);
        auto async_ok = [&] { return sc == POOL || (page && sc != NONE); };
        auto state    = [&](const char* what) {
            VT_CHECK(v->size() == model.size(), "life-size", "after %s size() is %zu instead of %zu", what, v->size(), model.size());
            VT_CHECK(v->is_committed() == committed, "life-committed", "after %s is_committed() is %d instead of %d", what, v->is_committed(), committed);
            vt::eval();
        };
        state("opening");
        for (size_t o = 0; o < ops; o++) {
            switch (g.below(12)) {
            case 0:
            case 1: {
                aligned_val<T, A> a;
                fill(a.v, tag);
                if (committed) {
                    VT_CHECK(throws([&] { v->push_back(a.v); }), "append-after-commit", "push_back was accepted after commit");
                    vt::count("illegal_appends");
                } else {
                    size_t pos = 0;
                    VT_CHECK(!throws([&] { pos = v->push_back(a.v); }) && pos == model.size(), "append", "push_back failed or returned %zu instead of %zu", pos, model.size());
                    model.push_back(tag++);
                }
                state("push_back");
                break;
            }
            case 2:
            case 3: {
                aligned_val<T, A> a;
                fill(a.v, tag);
                if (committed || sc == NONE) {
                    VT_CHECK(throws([&] { v->async_push_back(a.v); }), "append-after-commit", "async_push_back was accepted %s", committed ? "after commit" : "without a scheduler");
                    vt::count("illegal_appends");
                } else if (async_ok()) {
                    size_t pos = 0;
                    VT_CHECK(!throws([&] { pos = v->async_push_back(a.v); }) && pos == model.size(), "append", "async_push_back failed or returned %zu instead of %zu", pos, model.size());
                    model.push_back(tag++);
                } else {
                    break;
                }
                state("async_push_back");
                break;
            }
            case 4:
            case 5: {
                size_t x = pick_index(g, model.size());
                bool   legal = committed && x < model.size();
                bool   ok = false, thrown;
                thrown = throws([&] {
                    T t = v->get(x);
                    ok  = same(t, x < model.size() ? model[x] : 0);
                });
                if (legal) VT_CHECK(!thrown && ok, "life-get", "get(%zu) of %zu %s", x, model.size(), thrown ? "threw" : "returned another value");
                else {
                    VT_CHECK(thrown, "illegal-read", "get(%zu) with size %zu, committed %d returned data", x, model.size(), committed);
                    vt::count("illegal_reads");
                }
                state("get");
                break;
            }
            case 6:
            case 7: {
                // an unaligned page may or may not be refused by the kernel back end
                if (!page && sizeof(T) % 512 == 0 && (sc == DEFAULT || sc == AIO)) break;
                bool                batch = g.chance(50);
                std::vector<size_t> xs;
                size_t              m = batch ? 1 + g.below(6) : 1;
                bool                legal = committed && async_ok();
                for (size_t j = 0; j < m; j++) {
                    size_t x = g.chance(70) && !model.empty() ? g.below(model.size()) : pick_index(g, model.size());
                    legal    = legal && x < model.size();
                    xs.push_back(x);
                }
                struct R
                {
                    std::atomic<int> calls{0}, good{0};
                };
                auto rs = std::make_shared<std::vector<R>>(m);
                auto cb = [&](size_t j) {
                    uint64_t w = xs[j] < model.size() ? model[xs[j]] : 0;
                    return [rs, j, w, &ended](std::unique_ptr<T> p) {
                        if (p && same(*p, w)) (*rs)[j].good++;
                        (*rs)[j].calls++;
                        ended++;
                    };
                };
                if (legal) started += m;
                bool thrown = throws([&] {
                    if (batch) {
                        std::vector<typename awonvm_vector<T, A>::GetRequest> q;
                        for (size_t j = 0; j < m; j++) q.emplace_back(xs[j], cb(j));
                        v->async_gets(q);
                    } else {
                        v->async_get(xs[0], cb(0));
                    }
                });
                if (legal && !thrown) settle(started, ended);
                else usleep(200);
                for (size_t j = 0; j < m; j++) {
                    int c = (*rs)[j].calls;
                    if (legal) VT_CHECK(!thrown && c == 1 && (*rs)[j].good == 1, "life-async", "async read of %zu of %zu: thrown %d, %d callbacks, %d right", xs[j], model.size(), thrown, c, (*rs)[j].good.load());
                    else VT_CHECK(c == 0, "illegal-callback", "a refused async read (index %zu, size %zu, committed %d) called back %d times", xs[j], model.size(), committed, c);
                }
                if (!legal) {
                    VT_CHECK(thrown, "illegal-read", "an async read outside the bounds or before commit was accepted (size %zu, committed %d)", model.size(), committed);
                    vt::count("illegal_reads");
                    ended   = 0;
                    started = 0;
                }
                state("async read");
                break;
            }
            case 8: {
                if (!g.chance(30)) break;
                size_t k = 1 + g.below(3);
                while (k--) v->commit();
                committed = true;
                state("commit");
                vt::count("commits");
                break;
            }
            case 9: {
                if (!g.chance(50)) break;
                bool empty = model.empty();
                v.reset();
                if (g.chance(20)) {
                    // open and close once more
                    open_vec<T, A>(path, sc, direct, 8).reset();
                }
                sc     = static_cast<Sched>(g.below(4));
                direct = page && g.chance(40);
                v      = open_vec<T, A>(path, sc, direct, 8);
                committed = !empty;
                state("reopening");
                vt::count("life_reopens");
                break;
            }
            case 10: {
                if (!g.chance(50)) break;
                auto w = std::unique_ptr<awonvm_vector<T, A>>(new awonvm_vector<T, A>(std::move(*v)));
                v.reset(); // the source goes first
                v = std::move(w);
                state("moving");
                vt::count("life_moves");
                break;
            }
            default:
                if (g.chance(50)) {
                    v->reserve(g.below(2 * model.size() + 4));
                    state("reserve");
                } else if (page) {
                    bool f = g.chance(50);
                    v->set_use_direct_access(f);
                    VT_CHECK(v->use_direct_access() == f, "mode", "the access mode was not switched");
                    state("a mode switch");
                }
                break;
            }
        }
        settle(started, ended);
        v.reset();
        // finally everything is on disk
        auto w = open_vec<T, A>(path, NONE, false, 1);
        VT_CHECK(w->size() == model.size(), "life-final", "reopened with %zu values instead of %zu", w->size(), model.size());
        for (size_t x = 0; x < model.size() && x < w->size(); x++) {
            bool ok = false;
            throws([&] { ok = same(w->get(x), model[x]); });
            VT_CHECK(ok, "life-final-value", "value %zu of %zu is wrong in the end", x, model.size());
        }
    }
    auto d = fds::diff(before, fds::snapshot());
    VT_CHECK(d.empty(), "descriptors", "descriptors differ after the vectors are gone:%s", d.c_str());
    close(s0);
    iof::unwatch_all();
    iof::forget_transfers();
    unlink(path.c_str());
    vt::distinct(g.s);
}

template<class T, size_t A>
static void c04_faults(long i, Rng& g)
{
    const bool         page = A % 4096 == 0;
    std::string        path = vt::opts().dir + vt::fmt("/f%ld", i);
    bool               direct = page && g.chance(40);
    Sched              sc     = static_cast<Sched>(g.below(4));
    bool               async_ok = sc == POOL || (page && sc != NONE);
    static const char* sn[]   = {"default", "pool", "aio", "none"};
    iof::Plan          p;
    p.rw_fail  = g.below(30);
    p.rw_short = g.below(30);
    p.ev_fail  = g.below(30);
    p.ev_short = g.below(30);
    p.partial  = g.below(50);
    p.submit_fail = g.chance(40) ? g.below(25) : 0;
    vt::begin_case(i, vt::fmt("c04fault value=%zu align=%zu sched=%s direct=%d fail=%u short=%u evfail=%u evshort=%u submit=%u", sizeof(T), A, sn[sc], direct, p.rw_fail, p.rw_short, p.ev_fail, p.ev_short, p.submit_fail));
    auto before = fds::snapshot();
    if (g.chance(10) && (sc == DEFAULT)) {
        iof::Plan q;
        q.setup_fail = 100;
        iof::set_plan(q, 1);
        bool th = throws([&] { open_vec<T, A>(path, sc, direct, 8); });
        vt::count("failed_openings", th);
    }
    {
        std::map<size_t, uint64_t> model; // successful appends
        uint64_t                   tag = (uint64_t(i) << 20) + 1;
        {
            iof::set_plan(iof::Plan(), 1);
            auto v  = open_vec<T, A>(path, sc, direct, 8);
            int  fd = fds::find(path);
            iof::watch_fd(fd);
            iof::Plan w = p; // asynchronous appends have no way to report: no faults there
            w.ev_fail = w.ev_short = w.submit_fail = 0;
            if (sc == POOL) w.rw_fail = w.rw_short = 0;
            iof::set_plan(w, g.next());
            size_t n = 5 + g.below(30);
            for (size_t j = 0; j < n; j++) {
                aligned_val<T, A> a;
                fill(a.v, tag);
                bool   as = async_ok && g.chance(30);
                size_t pos = 0;
                if (throws([&] { pos = as ? v->async_push_back(a.v) : v->push_back(a.v); })) {
                    vt::count("reported_append_failures");
                } else {
                    VT_CHECK(!model.count(pos), "position-twice", "position %zu was returned twice", pos);
                    model[pos] = tag;
                }
                tag++;
                vt::eval();
            }
            v->commit();
            iof::unwatch_all();
        }
        if (!model.empty()) {
            auto v  = open_vec<T, A>(path, sc, direct, 8);
            int  fd = fds::find(path);
            size_t n  = v->size();
            VT_CHECK(n > model.rbegin()->first, "fault-size", "size %zu after an append at %zu", n, model.rbegin()->first);
            // first without faults: acknowledged values are all there
            for (auto& e : model) {
                bool ok = false;
                throws([&] { ok = same(v->get(e.first), e.second); });
                VT_CHECK(ok, "fault-value", "the value acknowledged at %zu is not there after failures of other appends", e.first);
            }
            iof::watch_fd(fd);
            iof::set_plan(p, g.next());
            size_t cut = n;
            if (g.chance(30)) {
                // somebody truncates the file under the open vector
                cut = g.below(n + 1);
                if (truncate(path.c_str(), cut * sizeof(T) + (sizeof(T) > 2 ? g.below(2) : 0))) abort();
                vt::count("truncated_under_vector");
            }
            std::vector<size_t> keys;
            for (auto& e : model) keys.push_back(e.first);
            auto outcome = [&](size_t x, bool data, bool right, const char* how) {
                vt::eval();
                if (!data) {
                    vt::count("reported_read_failures");
                    return;
                }
                VT_CHECK(x < cut, "read-of-nothing", "%s of %zu returned data although the file ends at %zu", how, x, cut);
                VT_CHECK(right, "failed-read-as-data", "%s of %zu returned wrong data after a failed or short read", how, x);
                vt::count("right_reads_under_faults");
            };
            size_t reads = 10 + g.below(40);
            for (size_t j = 0; j < reads; j++) {
                size_t x = g.pick(keys);
                if (!async_ok || g.chance(35)) {
                    bool right = false, th;
                    th = throws([&] { right = same(v->get(x), model[x]); });
                    outcome(x, !th, right, "get");
                    continue;
                }
                size_t m = 1 + g.below(8);
                bool   batch = g.chance(60);
                if (!batch) m = 1;
                struct R
                {
                    size_t           x;
                    std::atomic<int> calls{0}, null{0}, right{0};
                };
                auto rs = std::make_shared<std::vector<R>>(m);
                auto total = std::make_shared<std::atomic<size_t>>(0);
                std::vector<typename awonvm_vector<T, A>::GetRequest> q;
                for (size_t k = 0; k < m; k++) {
                    (*rs)[k].x = g.pick(keys);
                    uint64_t w = model[(*rs)[k].x];
                    q.emplace_back((*rs)[k].x, [rs, k, w, total](std::unique_ptr<T> pp) {
                        if (!pp) (*rs)[k].null++;
                        else if (same(*pp, w)) (*rs)[k].right++;
                        (*rs)[k].calls++;
                        (*total)++;
                        vt::tick();
                    });
                }
                bool th = throws([&] {
                    if (batch) v->async_gets(q);
                    else v->async_get(q[0].index, q[0].callback);
                });
                q.clear();
                if (!th) {
                    for (int w = 0; total->load() < m && w < 10000; w++) usleep(1000);
                } else {
                    // accepted elements of a partly refused batch may still complete
                    for (int w = 0; iof::outstanding() > 0 && w < 2000; w++) usleep(500);
                    usleep(1000);
                    vt::count("refused_batches");
                }
                for (auto& r : *rs) {
                    int c = r.calls;
                    if (!th) VT_CHECK(c == 1, "fault-calls", "an asynchronous read called back %d times", c);
                    else VT_CHECK(c <= 1, "fault-calls", "a partly refused asynchronous read called back %d times", c);
                    if (c) outcome(r.x, !r.null, r.right, batch ? "async_gets" : "async_get");
                }
            }
            v.reset();
            iof::unwatch_all();
        }
    }
    vt::count("faults_injected", iof::injected());
    iof::unwatch_all();
    iof::forget_transfers();
    auto d = fds::diff(before, fds::snapshot());
    VT_CHECK(d.empty(), "descriptors", "descriptors differ after the vectors are gone:%s", d.c_str());
    unlink(path.c_str());
    vt::distinct(g.s);
}

template<class T, size_t A>
static void one(long i, Rng& g)
{
    if (vt::opts().mode == "c03") c03<T, A>(i, g);
    else if (vt::opts().mode == "c04life") c04_life<T, A>(i, g);
    else c04_faults<T, A>(i, g);
}

// Many entries; indices whose place in the file is beyond 4 GiB
static void c03scale(long i, Rng& g)
{
    std::string path = vt::opts().dir + vt::fmt("/scale%ld", i);
    int         what = static_cast<int>(i % 4);
    Sched       sc   = what == 0 ? NONE : what == 1 ? POOL : what == 2 ? AIO : (g.chance(50) ? AIO : POOL);
    vt::begin_case(i, vt::fmt("%s, %s", what == 3 ? "a file of 5 GiB" : "many entries", sc == NONE ? "synchronous" : sc == POOL ? "pool" : "aio"));
    vt::distinct(g.s);
    if (what == 3) {
        using T      = Val<4096>;
        size_t n     = (size_t(5) << 30) / sizeof(T) + g.below(1000);
        int    fd    = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        size_t low   = 1 + g.below(1000);
        size_t idx[] = {low, low + (size_t(1) << 19), low + (size_t(1) << 20), n - 1};
        if (ftruncate(fd, off_t(n * sizeof(T)))) {
            vt::count("no_large_files");
            close(fd);
            unlink(path.c_str());
            return;
        }
        for (size_t x : idx) {
            T t;
            fill(t, x + 1);
            if (pwrite(fd, &t, sizeof t, off_t(x * sizeof t)) != ssize_t(sizeof t)) abort();
        }
        close(fd);
        {
            auto v = open_vec<T, 4096>(path, sc, g.chance(50), 16);
            VT_CHECK(v->size() == n && v->is_committed(), "size", "size() is %zu instead of %zu", v->size(), n);
            std::atomic<int> calls{0}, bad{0};
            std::vector<typename awonvm_vector<T, 4096>::GetRequest> q;
            auto cb = [&](size_t x) {
                return [&, x](std::unique_ptr<T> p) {
                    if (!p || !same(*p, x + 1)) bad++;
                    calls++;
                };
            };
            for (size_t x : idx) {
                T t = v->get(x);
                VT_CHECK(same(t, x + 1), "get", "get(%zu) of %zu returned another value", x, n);
                v->async_get(x, cb(x));
                q.emplace_back(x, cb(x));
            }
            v->async_gets(q);
            for (int w = 0; calls < 8 && w < 20000; w++) usleep(1000);
            VT_CHECK(calls == 8, "async-calls", "%d callbacks for 8 reads", calls.load());
            VT_CHECK(bad == 0, "async-value", "%d of 8 asynchronous reads delivered another value", bad.load());
            VT_CHECK(throws([&] { v->get(n); }), "out-of-range", "get(%zu) of %zu did not throw", n, n);
        }
        vt::count("far_reads", 12);
        vt::eval(12);
    } else {
        using T  = Val<4096>;
        size_t n = 65530 + g.below(3000);
        std::vector<uint64_t> model(n, ~uint64_t(0));
        size_t                th = what == 0 ? 1 : 3;
        {
            auto v = open_vec<T, 4096>(path, sc, false, 64);
            if (g.chance(50)) v->reserve(n);
            std::atomic<size_t> twice{0}, beyond{0};
            vt::together(th, [&](size_t t) {
                T x;
                for (size_t k = n * t / th; k < n * (t + 1) / th; k++) {
                    fill(x, k + 7);
                    size_t pos = sc == NONE || k % 5 == 0 ? v->push_back(x) : v->async_push_back(x);
                    if (pos >= n) beyond++;
                    else if (__atomic_exchange_n(&model[pos], k + 7, __ATOMIC_RELAXED) != ~uint64_t(0)) twice++;
                    vt::tick();
                }
            });
            VT_CHECK(twice == 0 && beyond == 0, "positions", "%zu positions were handed out twice, %zu beyond %zu", twice.load(), beyond.load(), n);
            v->commit();
            if (!twice && !beyond) {
                read_all<T, 4096>(*v, model, g, sc != NONE, "after many appends", false);
                for (size_t k = 0; k < n; k += 97) VT_CHECK(same(v->get(k), model[k]), "get", "get(%zu) of %zu is another value", k, n);
            }
        }
        if (vt::opts().thorough || g.chance(50)) {
            auto v = open_vec<T, 4096>(path, POOL, false, 16);
            read_all<T, 4096>(*v, model, g, true, "many entries, after a reopen", false);
        }
        vt::count("appends_of_many", n);
        vt::eval(n);
    }
    unlink(path.c_str());
}

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    sse::logger::set_logger(nullptr);
    bool th = vt::opts().thorough;
    // warm the shared pool up, so that descriptors and threads are stable
    {
        std::unique_ptr<Scheduler> s(make_thread_pool_aio_scheduler());
        char                       c;
        int                        fd = open("/dev/zero", O_RDONLY);
        s->submit_pread(fd, &c, 1, 0, nullptr, [](void*, int64_t) {});
        s->wait_completions();
        close(fd);
    }
    if (vt::opts().mode == "c03scale") {
        vt::run_cases(th ? 80 : 4, c03scale);
        return vt::finish();
    }
    vt::run_cases(th ? 12000 : 640, [](long i, Rng& g) {
        switch (g.below(6)) {
        case 0: one<Val<8>, 8>(i, g); break;
        case 1: one<Val<100>, 4>(i, g); break;
        case 2: one<Val<512>, 512>(i, g); break;
        case 3: one<Val<8192>, 4096>(i, g); break;
        default: one<Val<4096>, 4096>(i, g); break;
        }
    });
    return vt::finish();
}
