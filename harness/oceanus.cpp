// C10: the on-disk cuckoo hash table against a plain map.
#define VT_IOFAULT_IMPL
#include "iofault.hpp"

#include "fds.hpp"
#include "scheme.hpp"

#include <sse/schemes/oceanus/oceanus.hpp>

#include <condition_variable>

using namespace sse;
using namespace sse::oceanus;
using vt::Rng;
using Key = std::array<uint8_t, kTableKeySize>;

static Key mk(uint64_t a, uint64_t b)
{
    Key k;
    memcpy(k.data(), &a, 8);
    memcpy(k.data() + 8, &b, 8);
    return k;
}

struct Gen
{
    Rng&          r;
    int           shape;
    uint64_t      m; // table size: multiples collide
    std::set<Key> used;
    uint64_t      hot;
    Gen(Rng& rr, int s, uint64_t size) : r(rr), shape(s), m(std::max<uint64_t>(size, 1)), hot(rr.range(1, 3))
    {
    }
    Key fresh()
    {
        for (;;) {
            uint64_t a = r.next(), b = r.next();
            switch (shape) {
            case 0: break;
            case 1: a = (a % 1000000) * m + r.below(hot); break;             // same first slot
            case 2: b = (b % 1000000) * m + r.below(hot); break;             // same second slot
            case 3:
                a = (a % 1000000) * m + r.below(hot);
                b = (b % 1000000) * m + r.below(hot);
                break; // both
            case 4: // a small universe: numbers, zero included
                a = r.below(6);
                b = r.below(6) + (used.size() > 20 ? r.below(1 << 16) : 0);
                break;
            case 5: // extremes
                a = ~0ULL - r.below(2) - (used.size() > 3 ? r.below(1000) : 0);
                b = ~0ULL - r.below(3) - (used.size() > 3 ? r.below(1000) : 0);
                break;
            default: // keys that differ in one byte only
                a = 0x1111111111111111ULL ^ (r.below(256) << (8 * r.below(8)));
                b = 0x2222222222222222ULL ^ (r.below(256) << (8 * r.below(8)));
            }
            Key k = mk(a, b);
            if (k == mk(~0ULL, ~0ULL)) continue; // reserved: tested on its own
            if (used.insert(k).second) return k;
        }
    }
};

template<size_t P>
static data_type<P> value(uint64_t tag)
{
    data_type<P> v;
    uint64_t     s = tag * 77;
    for (auto& x : v) x = vt::splitmix(s);
    v[0] = tag;
    if (tag % 5 == 0) v.fill(tag % 10 == 0 ? ~0ULL : 0); // looks like an empty slot
    return v;
}

template<size_t P>
static void c10_page(long idx, Rng& r)
{
    vt::CaseDir dir(idx);
    size_t      n      = r.chance(15) ? r.below(4) : r.range(1, vt::opts().thorough ? 800 : 160);
    int         shape  = static_cast<int>(r.below(7));
    double      eps    = std::vector<double>{0., 0.1, 0.5, 1.}[r.below(4)];
    size_t      depth  = std::vector<size_t>{1, 2, 5, 50, 200, 1000}[r.below(6)];
    size_t      decl   = r.chance(70) ? n : r.chance(50) ? n * 2 : r.below(n + 1);
    Gen         g(r, shape, static_cast<uint64_t>(std::ceil((1. + eps / 2.) * double(decl))));
    if (shape == 3) n = std::min<size_t>(n, 12);
    vt::begin_case(idx, vt::fmt("cuckoo page=%zu keys=%zu shape=%d eps=%.1f depth=%zu declared=%zu", P, n, shape, eps, depth, decl));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 3) vt::sample(vt::st().casedesc);

    std::string             path = dir("table");
    std::map<Key, uint64_t> model;
    uint64_t                reported = 0, tag = 1;
    size_t                  fds0 = fds::snapshot().size();
    {
        OceanusBuilder<P> b(path, decl, eps, depth);
        for (size_t i = 0; i < n; i++) {
            Key k     = g.fresh();
            model[k]  = tag;
            bool thr  = vt::throws([&] { b.insert(k, value<P>(tag)); });
            reported += thr;
            tag++;
        }
        if (r.chance(10)) {
            // the key that looks like an empty slot: placed properly, or refused
            Key k = mk(~0ULL, ~0ULL);
            if (!vt::throws([&] { b.insert(k, value<P>(tag)); })) model[k] = tag;
            tag++;
            vt::count("reserved_key_insertions");
        }
        if (r.chance(60)) {
            b.commit();
            if (r.chance(30)) b.commit();
            VT_CHECK(vt::throws([&] { b.insert(g.fresh(), value<P>(1)); }), "insert_after_commit_accepted", "%s", "");
        }
    }
    vt::count("insertions_reported", reported);
    vt::count(reported ? "tables_with_reports" : "tables_complete");
    vt::maximum("load_percent", decl ? n * 100 / (2 * std::max<size_t>(1, size_t(std::ceil((1. + eps / 2.) * double(decl))))) : 0);

    // nothing but the table is left
    std::vector<std::string> left;
    if (DIR* d = ::opendir(dir.path.c_str())) {
        while (dirent* e = ::readdir(d))
            if (e->d_name[0] != '.' || strlen(e->d_name) > 2) left.push_back(e->d_name);
        ::closedir(d);
    }
    VT_CHECK(left.size() == 1 && left[0] == "table", "temporary_file_left", "%zu files: %s", left.size(),
             left.empty() ? "" : (left[0] == "table" && left.size() > 1 ? left[1] : left[0]).c_str());

    for (int round = 0; round < 2; round++) {
        std::unique_ptr<Oceanus<P>> op(new Oceanus<P>(path));
        Oceanus<P>&                 o = *op;
        std::vector<Key>            probe;
        for (auto& kv : model) probe.push_back(kv.first);
        size_t present = probe.size();
        for (int i = 0; i < 20; i++) probe.push_back(g.fresh());
        if (!model.count(mk(~0ULL, ~0ULL))) probe.push_back(mk(~0ULL, ~0ULL));
        (void)present;
        // the same key with its halves swapped, or one bit away
        for (int i = 0; i < 6 && !model.empty(); i++) {
            Key k = probe[r.below(present)];
            if (r.chance(50)) std::rotate(k.begin(), k.begin() + 8, k.end());
            else k[r.below(16)] ^= uint8_t(1u << r.below(8));
            probe.push_back(k);
        }
        std::sort(probe.begin(), probe.end());
        probe.erase(std::unique(probe.begin(), probe.end()), probe.end());
        r.shuffle(probe);
        uint64_t missing = 0;
        std::map<Key, bool> seen_present;
        for (auto& k : probe) {
            auto         it = model.find(k);
            bool         absent = false;
            data_type<P> v;
            try {
                v = o.get(k);
            } catch (const std::out_of_range&) {
                absent = true;
            }
            if (it == model.end()) {
                VT_CHECK(absent, "found_absent_key", "get returned a value for a key that was never inserted (%016llx %016llx)",
                         *(unsigned long long*)k.data(), *(unsigned long long*)(k.data() + 8));
                vt::count("lookups_absent");
            } else if (absent) {
                missing++;
            } else {
                VT_CHECK(v == value<P>(it->second), "wrong_value", "key %llu holds the value of %llu", (unsigned long long)it->second,
                         (unsigned long long)v[0]);
                vt::count("lookups_present");
            }
            seen_present[k] = !absent;
            vt::eval();
        }
        VT_CHECK(missing <= reported, "lost_key", "%llu keys are gone, the builder reported %llu", (unsigned long long)missing,
                 (unsigned long long)reported);
        if (P < 4096) continue; // the kernel-backed scheduler refuses smaller pages
        // asynchronous
        struct Slot
        {
            std::atomic<int> calls{0};
            bool             has{false};
            data_type<P>     v;
        };
        std::vector<Slot>       slots(probe.size());
        std::atomic<size_t>     pending{probe.size()};
        std::mutex              m;
        std::condition_variable cv;
        bool                    direct = r.chance(50);
        o.cuckoo_table.use_direct_IO(direct);
        size_t nth = r.chance(50) ? 1 : r.range(2, 4);
        vt::together(nth, [&](size_t t) {
            for (size_t i = t; i < probe.size(); i += nth) {
                Slot* s  = &slots[i];
                auto  cb = [&, s](std::experimental::optional<data_type<P>> v) {
                    if (s->calls++ == 0) {
                        s->has = static_cast<bool>(v);
                        if (v) s->v = *v;
                    }
                    std::lock_guard<std::mutex> gg(m);
                    if (--pending == 0) cv.notify_all();
                };
                if (direct && nth == 1) o.async_get(probe[i], cb); // switches to direct access
                else o.cuckoo_table.async_get(probe[i], cb);
            }
        });
        {
            std::unique_lock<std::mutex> gg(m);
            cv.wait(gg, [&] { return pending.load() == 0; });
        }
        for (size_t i = 0; i < probe.size(); i++) {
            Slot& s = slots[i];
            VT_CHECK(s.calls == 1, "async_calls", "%d callbacks of one lookup", s.calls.load());
            VT_CHECK(s.has == seen_present[probe[i]], "async_differs", "get %s the key, async_get %s it",
                     seen_present[probe[i]] ? "finds" : "misses", s.has ? "finds" : "misses");
            auto it = model.find(probe[i]);
            if (s.has && it != model.end()) VT_CHECK(s.v == value<P>(it->second), "async_wrong_value", "key %llu", (unsigned long long)it->second);
            vt::count("async_lookups");
            vt::eval();
        }
        // failing reads: one callback each, never a wrong value
        if (round == 1 && !model.empty()) {
            std::atomic<uint64_t> calls{0}, none{0};
            uint64_t              asked = 0, refused = 0;
            for (int fd = 3; fd < 1024; fd++) {
                struct stat a, b;
                if (::stat(path.c_str(), &a) == 0 && ::fstat(fd, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev) iof::watch_fd(fd);
            }
            iof::Plan p;
            p.ev_fail  = static_cast<unsigned>(r.below(30));
            p.ev_short = static_cast<unsigned>(r.below(30));
            p.delay    = static_cast<unsigned>(r.below(20));
            p.submit_fail = r.chance(30) ? static_cast<unsigned>(r.below(20)) : 0;
            iof::set_plan(p, r.next());
            for (auto& kv : model) {
                uint64_t want = kv.second;
                auto     once = std::make_shared<std::atomic<int>>(0);
                try {
                    o.cuckoo_table.async_get(kv.first, [&, once, want](std::experimental::optional<data_type<P>> v) {
                        VT_CHECK(once->fetch_add(1) == 0, "async_calls", "%s", "a second callback");
                        calls++;
                        if (!v) none++;
                        else VT_CHECK(*v == value<P>(want), "async_wrong_value", "%s", "after failing reads");
                    });
                    asked++;
                } catch (const std::exception&) {
                    refused++;
                }
            }
            op.reset(); // waits for them
            iof::set_plan(iof::Plan(), 1);
            iof::unwatch_all();
            iof::forget_transfers();
            VT_CHECK(calls == asked, "async_calls", "%llu lookups, %llu callbacks", (unsigned long long)asked, (unsigned long long)calls.load());
            vt::count("lookups_with_faults", asked);
            vt::count("lookups_failed_reported", none);
            vt::count("lookups_refused", refused);
        }
    }
    size_t fds1 = fds::snapshot().size();
    VT_CHECK(fds1 == fds0, "descriptor_leak", "%zu descriptors before, %zu after", fds0, fds1);
}

// more keys than small integers hold
static void c10scale(long idx, Rng& r)
{
    vt::Quiet        q;
    vt::CaseDir      dir(idx);
    constexpr size_t P = 512;
    const size_t     n = 66000 + r.below(1000);
    vt::begin_case(idx, vt::fmt("cuckoo page=%zu keys=%zu", P, n));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    std::string path = dir("table");
    Gen         g(r, 0, n);
    std::vector<Key> keys;
    uint64_t         reported = 0, missing = 0;
    {
        OceanusBuilder<P> b(path, n, 0.5, 500);
        for (size_t i = 0; i < n; i++) {
            keys.push_back(g.fresh());
            reported += vt::throws([&] { b.insert(keys.back(), value<P>(i)); });
            vt::tick();
        }
    }
    Oceanus<P> o(path);
    for (size_t i = 0; i < n; i++) {
        try {
            VT_CHECK(o.get(keys[i]) == value<P>(i), "wrong_value", "key %zu of %zu", i, n);
        } catch (const std::out_of_range&) {
            missing++;
        }
        vt::eval();
        vt::tick();
    }
    for (size_t i = 0; i < 2000; i++)
        VT_CHECK(vt::throws([&] { o.get(g.fresh()); }), "found_absent_key", "among %zu keys", n);
    VT_CHECK(missing <= reported, "lost_key", "%llu of %zu keys are gone, the builder reported %llu", (unsigned long long)missing, n, (unsigned long long)reported);
    vt::count("many_keys", n);
}

static void c10(long i, Rng& r)
{
    vt::Quiet q;
    if (r.chance(70)) c10_page<4096>(i, r);
    else c10_page<512>(i, r);
}

// moving a builder hands the table over
static void c10move(long idx, Rng& r)
{
    vt::Quiet   q;
    vt::CaseDir dir(idx);
    vt::begin_case(idx, "cuckoomove");
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    using B = CuckooBuilder<512, key_type, data_type<512>, OceanusKeySerializer, OceanusContentSerializer<512>, OceanusCuckooHasher>;
    using H = CuckooHashTable<512, key_type, data_type<512>, OceanusKeySerializer, OceanusContentSerializer<512>, OceanusCuckooHasher>;
    CuckooBuilderParam p;
    p.value_file_path   = dir("tmp");
    p.cuckoo_table_path = dir("table");
    p.max_n_elements    = r.range(1, 40);
    p.epsilon           = 0.5;
    p.max_search_depth  = 200;
    Gen                     g(r, 0, 1);
    std::map<Key, uint64_t> model;
    uint64_t                reported = 0, tag = 1;
    {
        std::unique_ptr<B> b(new B(p));
        for (size_t i = 0; i < p.max_n_elements; i++) {
            if (r.chance(10)) {
                std::unique_ptr<B> c(new B(std::move(*b)));
                b = std::move(c); // destroys the one moved from
                vt::count("moves");
            }
            Key k    = g.fresh();
            model[k] = tag;
            reported += vt::throws([&] { b->insert(k, value<512>(tag)); });
            tag++;
        }
    }
    VT_CHECK(!vt::exists(dir("tmp")), "temporary_file_left", "%s", "after a move");
    H        h(dir("table"));
    uint64_t missing = 0;
    for (auto& kv : model) {
        try {
            VT_CHECK(h.get(kv.first) == value<512>(kv.second), "wrong_value", "%s", "after a move");
        } catch (const std::out_of_range&) {
            missing++;
        }
        vt::eval();
    }
    VT_CHECK(missing <= reported, "lost_key", "%llu of %zu keys are gone after a move, reported %llu", (unsigned long long)missing, model.size(),
             (unsigned long long)reported);
}

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    const auto& m = vt::opts().mode;
    if (m == "c10") vt::run_cases(vt::opts().thorough ? 5000 : 240, c10);
    else if (m == "c10scale") vt::run_cases(vt::opts().thorough ? 40 : 2, c10scale);
    else if (m == "c10move") vt::run_cases(vt::opts().thorough ? 1500 : 80, c10move);
    else return 2;
    return vt::finish();
}
