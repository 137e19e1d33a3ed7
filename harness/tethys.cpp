// C08: the static bucket store; C21: decoding of damaged data; c20: concurrent lookups.
#define VT_IOFAULT_IMPL
#include "iofault.hpp"

#include "scheme.hpp"

#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/tethys_store.hpp>
#include <sse/schemes/tethys/tethys_store_builder.hpp>
#include <sse/schemes/tethys/types.hpp>

#include <sse/crypto/wrapper.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>

#include <condition_variable>
#include <sstream>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                         void (*)(const volatile void*)) __attribute__((weak));

using namespace sse;
using namespace sse::tethys;
using vt::Rng;
using Key = tethys_core_key_type;

// values of an arbitrary size, identified by a number
template<size_t N>
struct Val
{
    unsigned char b[N];
    bool          operator<(const Val& o) const
    {
        return memcmp(b, o.b, N) < 0;
    }
};
template<class T>
struct Make
{
    static T make(uint64_t tag)
    {
        return static_cast<T>(tag);
    }
};
template<size_t N>
struct Make<Val<N>>
{
    static Val<N> make(uint64_t tag)
    {
        Val<N>   v;
        uint64_t s = tag;
        for (size_t i = 0; i < N; i++) {
            if (i % 8 == 0) vt::splitmix(s);
            v.b[i] = static_cast<unsigned char>(s >> (8 * (i % 8)));
        }
        memcpy(v.b, &tag, std::min<size_t>(N, 8));
        return v;
    }
};
template<size_t N>
std::ostream& operator<<(std::ostream& o, const Val<N>& v)
{
    return o << vt::hash(v.b, N);
}

using vt::show;

enum EncKind { SEPARATE, ENCRYPTED };

template<size_t PAGE, class T, EncKind K>
struct Codec;
template<size_t PAGE, class T>
struct Codec<PAGE, T, SEPARATE>
{
    using Enc = encoders::EncodeSeparateEncoder<Key, T, PAGE>;
    using Dec = encoders::EncodeSeparateDecoder<Key, T, PAGE>;
    Enc enc;
    Dec dec;
    explicit Codec(Rng&)
    {
    }
};
template<size_t PAGE, class T>
struct Codec<PAGE, T, ENCRYPTED>
{
    using Enc = encoders::EncryptEncoder<encoders::EncodeSeparateEncoder<Key, T, PAGE>, PAGE>;
    using Dec = encoders::DecryptDecoder<encoders::EncodeSeparateDecoder<Key, T, PAGE>, PAGE>;
    std::array<uint8_t, 32> k;
    Enc                     enc;
    Dec                     dec;
    explicit Codec(Rng& r) : k(key(r)), enc(k), dec(k)
    {
    }
    static std::array<uint8_t, 32> key(Rng& r)
    {
        std::array<uint8_t, 32> a;
        for (auto& c : a) c = static_cast<uint8_t>(r.next());
        return a;
    }
};

// distinct keys whose two halves choose the buckets
struct KeyGen
{
    int           shape;
    Rng&          r;
    size_t        hot;
    std::set<Key> used;
    KeyGen(int s, Rng& rr) : shape(s), r(rr), hot(rr.range(1, 4))
    {
    }
    static Key make(uint64_t a, uint64_t b)
    {
        Key k;
        memcpy(k.data(), &a, 8);
        memcpy(k.data() + 8, &b, 8);
        return k;
    }
    Key fresh()
    {
        for (;;) {
            uint64_t a = r.next(), b = r.next();
            // multiples of this many buckets fall into the same bucket for every
            // table size up to 16
            const uint64_t m = 720720;
            switch (shape) {
            case 0: break;
            case 1: // few buckets on both sides
                a = (a >> 24) % (1ULL << 40) * m + r.below(hot);
                b = (b >> 24) % (1ULL << 40) * m + r.below(hot);
                break;
            case 2: // one bucket on the first side
                a = (a >> 24) % (1ULL << 40) * m;
                break;
            case 3: // one on the second
                b = (b >> 24) % (1ULL << 40) * m;
                break;
            case 4: // small numbers, zero included
                a = r.below(8);
                b = r.below(8) + (used.size() > 40 ? r.below(1 << 20) : 0);
                break;
            default: // all ones and other extremes
                a = ~0ULL - r.below(3);
                b = ~0ULL - r.below(4) - (used.size() > 8 ? r.below(1 << 20) : 0);
            }
            Key k = make(a, b);
            if (used.insert(k).second) return k;
        }
    }
};

template<size_t PAGE, class T, EncKind K>
static void store_case(long idx, Rng& r, const char* name)
{
    using C       = Codec<PAGE, T, K>;
    using Builder = TethysStoreBuilder<PAGE, Key, T, IdentityHasher, typename C::Enc, encoders::EncodeSeparateEncoder<Key, T, PAGE>>;
    using Store   = TethysStore<PAGE, Key, T, IdentityHasher, typename C::Dec>;
    constexpr size_t kMax = Builder::kMaxListSize;

    vt::CaseDir  dir(idx);
    KeyGen       kg(static_cast<int>(r.below(6)), r);
    int          lens  = static_cast<int>(r.below(6));
    size_t       nkeys = r.chance(15) ? r.below(3) : r.range(1, vt::opts().thorough ? 300 : 90);
    if (lens == 1 || lens == 3) nkeys = std::min<size_t>(nkeys, 40);
    const bool scale = vt::opts().mode == "c08scale"; // more lists and values than small integers hold
    if (scale) {
        kg.shape = 0;
        lens     = idx % 2 ? 1 : 6;
        nkeys    = idx % 2 ? 140000 / kMax : 66000 + r.below(2000);
    }
    bool         reused = sizeof(T) >= 4 && r.chance(30); // repeated and header-like values
    uint64_t     tag    = 1;

    std::map<Key, std::vector<T>> model;
    std::vector<Key>              order;
    size_t                        total = 0;
    for (size_t i = 0; i < nkeys; i++) {
        size_t n;
        switch (lens) {
        case 0: n = r.below(4); break;
        case 1: n = kMax - r.below(std::min<size_t>(3, kMax)); break;
        case 2: n = r.below(kMax + 1); break;
        case 3: n = kMax; break;
        case 4: n = r.chance(80) ? r.below(std::min<size_t>(kMax, 6)) : r.below(kMax + 1); break;
        case 6: n = r.chance(1) ? r.below(kMax + 1) : r.below(4); break;
        default: n = r.chance(50) ? 0 : r.below(kMax / 2 + 1);
        }
        std::vector<T> v;
        for (size_t j = 0; j < n; j++) {
            uint64_t t = tag++;
            if (reused && r.chance(40)) t = r.chance(30) ? 0 : r.chance(30) ? ~0ULL : r.below(4);
            v.push_back(Make<T>::make(t));
        }
        total += n + C::Enc::kListControlValues;
        Key k = kg.fresh();
        order.push_back(k);
        model[k] = v;
    }
    double epsilon  = std::vector<double>{0., 0.1, 0.5, 1.}[r.below(4)];
    size_t declared = r.chance(50) ? total : r.chance(50) ? total / r.range(1, 6) : r.chance(30) ? 0 : total * 2;
    if (scale) {
        declared = idx % 2 ? total / 6 : total; // most of it in the overflow file
        epsilon  = 1.;
    }
    TethysStoreBuilderParam p{dir("table"), dir("stash"), declared, epsilon};

    vt::begin_case(idx, vt::fmt("store %s keys=%zu shape=%d lens=%d declared=%zu of %zu eps=%.1f", name, nkeys,
                                kg.shape, lens, declared, total, epsilon));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 3) vt::sample(vt::st().casedesc);
    C codec(r);

    std::set<Key> refused;
    if (r.chance(20)) vt::spew(dir("stash"), r.bytes(r.below(200))); // left over from an earlier build
    {
        Builder b(p);
        for (auto& k : order) {
            if (r.chance(3)) { // too long
                Key              bad = kg.fresh();
                std::vector<T>   v(kMax + 1 + r.below(4), Make<T>::make(7));
                refused.insert(bad);
                VT_CHECK(vt::throws([&] { b.insert_list(bad, v); }), "too_long_accepted",
                         "a list of %zu values was accepted, the limit is %zu", v.size(), kMax);
                vt::count("refused_lists");
            }
            b.insert_list(k, model[k]);
            vt::tick();
        }
        if (scale) vt::count("many_lists", order.size());
        encoders::EncodeSeparateEncoder<Key, T, PAGE> stash_enc;
        b.build(codec.enc, stash_enc);
        VT_CHECK(vt::throws([&] { b.build(codec.enc, stash_enc); }), "second_build_accepted", "%s", "build twice");
        VT_CHECK(vt::throws([&] { b.insert_list(kg.fresh(), {}); }), "insert_after_build_accepted", "%s", "");
    }
    bool has_stash = vt::exists(dir("stash"));
    vt::count(has_stash ? "with_overflow_file" : "without_overflow_file");

    size_t rounds = r.range(1, 2);
    for (size_t round = 0; round < rounds; round++) {
        std::unique_ptr<Store> sp;
        sp.reset(new Store(dir("table"), dir("stash"), codec.dec));
        Store& s = *sp;
        vt::count("opened");

        std::vector<Key> probe = order;
        for (size_t i = 0; i < 10; i++) probe.push_back(kg.fresh());
        for (auto& k : refused) probe.push_back(k);
        r.shuffle(probe);
        if (scale)
            for (auto& k : order) { // all of them once, the rest of the checks on some
                auto w = vt::sorted(model[k]), g = vt::sorted(s.get_list(k, codec.dec));
                VT_CHECK(w.size() == g.size() && (w.empty() || memcmp(w.data(), g.data(), w.size() * sizeof(T)) == 0), "wrong_list:many",
                         "one of %zu lists: %zu values instead of %zu", order.size(), g.size(), w.size());
                vt::eval();
                vt::tick();
            }
        if (scale) probe.resize(std::min<size_t>(probe.size(), 2000));
        auto want = [&](const Key& k) -> std::vector<T> {
            auto it = model.find(k);
            return it == model.end() ? std::vector<T>() : it->second;
        };
        auto cmp = [&](const Key& k, const std::vector<T>& got, const char* how) {
            std::vector<T> w = vt::sorted(want(k)), g = vt::sorted(got);
            if (w.size() == g.size() && (w.empty() || memcmp(w.data(), g.data(), w.size() * sizeof(T)) == 0)) return true;
            vt::fail(std::string("wrong_list:") + how,
                     vt::fmt("%s key %016llx%s: %s", how, *(unsigned long long*)k.data(), model.count(k) ? "" : " (absent)",
                             vt::diff(want(k), got).c_str()));
            return false;
        };
        for (int mode = 0; mode < 2; mode++) {
            bool direct = r.chance(50);
            s.use_direct_IO(direct);
            vt::count(direct ? "direct" : "buffered");
            for (auto& k : probe) {
                auto got = s.get_list(k, codec.dec);
                cmp(k, got, "get_list");
                vt::count(model.count(k) ? "lookups_present" : "lookups_absent");
                vt::eval();
            }
            // the kernel-backed scheduler refuses smaller pages
            if (PAGE < 4096) continue;
            // asynchronous, from one or several threads
            struct Slot
            {
                std::atomic<int>            calls{0};
                std::vector<T>              res;
                std::atomic<int>            bcalls{0};
                std::mutex                  m;
                std::map<size_t, std::shared_ptr<typename Store::payload_type>> buckets;
            };
            std::vector<Slot>       slots(probe.size());
            std::atomic<size_t>     left{2 * probe.size()};
            size_t                  nth = r.chance(50) ? 1 : r.range(2, 4);
            std::mutex              m;
            std::condition_variable cv;
            vt::together(nth, [&](size_t t) {
                for (size_t i = t; i < probe.size(); i += nth) {
                    // (the callbacks may run after this iteration)
                    Slot* sl = &slots[i];
                    s.async_get_list(probe[i], codec.dec, [&, sl](std::vector<T> v) {
                        if (sl->calls++ == 0) sl->res = std::move(v);
                        // (counted with the lock held: the waiting thread
                        // destroys the condition)
                        std::lock_guard<std::mutex> g(m);
                        if (--left == 0) cv.notify_all();
                    });
                    s.async_get_buckets(probe[i], [&, sl](std::unique_ptr<typename Store::payload_type> b, size_t ix) {
                        {
                            std::lock_guard<std::mutex> g(sl->m);
                            sl->buckets[ix] = std::move(b);
                        }
                        if (++sl->bcalls == 2) {
                            std::lock_guard<std::mutex> g(m);
                            if (--left == 0) cv.notify_all();
                        }
                    });
                }
            });
            {
                std::unique_lock<std::mutex> g(m);
                cv.wait(g, [&] { return left.load() == 0; });
            }
            for (size_t i = 0; i < probe.size(); i++) {
                const Key& k = probe[i];
                VT_CHECK(slots[i].calls == 1, "async_calls", "%d callbacks of one lookup", slots[i].calls.load());
                VT_CHECK(slots[i].bcalls == 2, "async_bucket_calls", "%d callbacks", slots[i].bcalls.load());
                cmp(k, slots[i].res, "async_get_list");
                auto bp = s.get_buckets(k);
                auto part = Store::decode_list(k, codec.dec, bp.payload_0, bp.index_0, bp.payload_1, bp.index_1);
                auto w    = vt::sorted(want(k));
                auto g    = vt::sorted(part);
                bool sub  = std::includes(w.begin(), w.end(), g.begin(), g.end());
                VT_CHECK(sub && (has_stash || g.size() == w.size()), "wrong_buckets", "decoded from the buckets: %s",
                         vt::diff(w, g).c_str());
                if (g.size() < w.size()) vt::count(g.empty() ? "lists_in_overflow" : "lists_partly_in_overflow");
                bool same = slots[i].buckets.size() == 2 && slots[i].buckets.count(bp.index_0)
                            && slots[i].buckets.count(bp.index_1) && slots[i].buckets[bp.index_0]
                            && slots[i].buckets[bp.index_1] && *slots[i].buckets[bp.index_0] == bp.payload_0
                            && *slots[i].buckets[bp.index_1] == bp.payload_1;
                VT_CHECK(same, "async_buckets_differ", "%zu buckets", slots[i].buckets.size());
                vt::count("async_lookups");
                vt::eval();
            }
            // destroying the store drains what is still running
            if (mode == 1 && r.chance(50)) {
                std::atomic<int> done{0};
                for (int i = 0; i < 8; i++) {
                    s.async_get_list(probe[i % probe.size()], codec.dec, [&](std::vector<T>) { done++; });
                }
                sp.reset();
                VT_CHECK(done == 8, "lost_callbacks", "%d of 8 callbacks after the store was destroyed", done.load());
                vt::count("destroyed_with_lookups_running");
                break;
            }
        }
    }
}

static void c08scale(long i, Rng& r)
{
    vt::Quiet q;
    if (i % 4 == 1) store_case<4096, uint64_t, ENCRYPTED>(i, r, "4096/u64/encrypted");
    else if (i % 4 == 0) store_case<512, uint64_t, ENCRYPTED>(i, r, "512/u64/encrypted");
    else store_case<1024, Val<12>, SEPARATE>(i, r, "1024/12");
}

static void c08(long i, Rng& r)
{
    vt::Quiet q;
    switch (r.below(9)) {
    case 0: store_case<4096, uint64_t, SEPARATE>(i, r, "4096/u64"); break;
    case 1: store_case<512, uint64_t, ENCRYPTED>(i, r, "512/u64/encrypted"); break;
    case 2: store_case<512, uint32_t, SEPARATE>(i, r, "512/u32"); break;
    case 3: store_case<4096, Val<24>, SEPARATE>(i, r, "4096/24"); break;
    case 4: store_case<1024, Val<12>, ENCRYPTED>(i, r, "1024/12/encrypted"); break;
    case 5: store_case<512, uint64_t, SEPARATE>(i, r, "512/u64"); break;
    case 6:
    case 7: store_case<4096, uint64_t, ENCRYPTED>(i, r, "4096/u64/encrypted"); break;
    default: store_case<1024, Val<5>, SEPARATE>(i, r, "1024/5"); break;
    }
}

// ---------------------------------------------------------------- C08, failing reads
static std::vector<int> fds_on(const std::string& path)
{
    std::vector<int> r;
    struct stat      a, b;
    if (::stat(path.c_str(), &a) != 0) return r;
    for (int fd = 3; fd < 1024; fd++)
        if (::fstat(fd, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev) r.push_back(fd);
    return r;
}

static void c08fault(long idx, Rng& r)
{
    vt::Quiet q;
    constexpr size_t P = 4096;
    using C       = Codec<P, uint64_t, SEPARATE>;
    using Builder = TethysStoreBuilder<P, Key, uint64_t, IdentityHasher, C::Enc>;
    using Store   = TethysStore<P, Key, uint64_t, IdentityHasher, C::Dec>;
    vt::CaseDir                          dir(idx);
    std::map<Key, std::vector<uint64_t>> model;
    KeyGen                               kg(static_cast<int>(r.below(4)), r);
    size_t                               n = r.range(2, 30), total = 0;
    uint64_t                             tag = 1;
    for (size_t i = 0; i < n; i++) {
        std::vector<uint64_t> v(r.below(Builder::kMaxListSize + 1));
        for (auto& x : v) x = tag++;
        total += v.size();
        model[kg.fresh()] = v;
    }
    vt::begin_case(idx, vt::fmt("storefault keys=%zu elements=%zu", n, total));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 2) vt::sample(vt::st().casedesc);
    bool stash_bad = r.chance(40);
    {
        Builder b(TethysStoreBuilderParam{dir("table"), stash_bad ? dir("missing/stash") : dir("stash"),
                                          stash_bad ? total / 4 : total, 0.1});
        for (auto& kv : model) b.insert_list(kv.first, kv.second);
        if (stash_bad) {
            // nothing that does not fit may be dropped silently
            bool threw = vt::throws([&] { b.build(); });
            if (!threw) {
                size_t held = 0;
                Store  s(dir("table"), dir("missing/stash"));
                for (auto& kv : model) held += s.get_list(kv.first).size();
                VT_CHECK(held == total, "overflow_lost", "the overflow file cannot be written, build() reported nothing and %zu of %zu elements are gone",
                         total - held, total);
            } else {
                vt::count("overflow_write_failures");
            }
            vt::eval();
            return;
        }
        b.build();
    }
    std::atomic<uint64_t> calls{0}, empty{0}, right{0};
    uint64_t              expected = 0, thrown = 0;
    {
        Store s(dir("table"), dir("stash"));
        s.use_direct_IO(r.chance(50));
        iof::Plan p;
        p.ev_fail  = static_cast<unsigned>(r.below(30));
        p.ev_short = static_cast<unsigned>(r.below(30));
        p.delay    = static_cast<unsigned>(r.below(20));
        p.eagain   = static_cast<unsigned>(r.below(20));
        p.submit_fail = r.chance(30) ? static_cast<unsigned>(r.below(20)) : 0;
        for (int fd : fds_on(dir("table"))) iof::watch_fd(fd);
        iof::set_plan(p, r.next());
        C::Dec dec;
        for (size_t round = 0; round < 4; round++) {
            for (auto& kv : model) {
                auto once = std::make_shared<std::atomic<int>>(0);
                auto want = vt::sorted(kv.second);
                try {
                    s.async_get_list(kv.first, dec, [&, once, want](std::vector<uint64_t> v) {
                        VT_CHECK(once->fetch_add(1) == 0, "async_calls", "%s", "a second callback");
                        calls++;
                        if (vt::sorted(v) == want) right++;
                        else if (v.empty()) empty++;
                        else vt::fail("wrong_list:failing_read", vt::diff(want, v));
                    });
                    expected++;
                } catch (const std::exception&) {
                    thrown++; // refused, and reported
                }
            }
        }
        iof::set_plan(iof::Plan(), 1);
    }
    iof::unwatch_all();
    iof::forget_transfers();
    // a lookup refused in part never calls back; one that was accepted does, once
    VT_CHECK(calls.load() == expected, "async_calls", "%llu accepted lookups, %llu callbacks", (unsigned long long)expected,
             (unsigned long long)calls.load());
    vt::count("lookups_right", right);
    vt::count("lookups_reported_empty", empty);
    vt::count("lookups_refused", thrown);
    vt::eval(expected);
}

// ---------------------------------------------------------------- C21
struct Mem
{
    // (only the thread that measures)
    static thread_local bool   on;
    static thread_local size_t biggest, total;
    static void hook(const volatile void*, size_t n)
    {
        if (!on) return;
        biggest = std::max(biggest, n);
        total += n;
    }
    static void unhook(const volatile void*)
    {
    }
    static void install()
    {
        if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hook, unhook);
    }
    static void start()
    {
        biggest = total = 0;
        on              = true;
    }
    static void stop()
    {
        on = false;
    }
};
thread_local bool   Mem::on      = false;
thread_local size_t Mem::biggest = 0, Mem::total = 0;

static uint64_t evil(Rng& r, size_t page, size_t vs, size_t remaining)
{
    static const uint64_t k[] = {0, 1, 2, 0x7fffffffffffffffULL, 0x8000000000000000ULL, ~0ULL, ~0ULL - 1, 1ULL << 32, (1ULL << 32) - 1,
                                 1ULL << 61, (1ULL << 61) + 1, 1ULL << 48};
    switch (r.below(8)) {
    case 0: return k[r.below(sizeof k / sizeof *k)];
    case 1: return remaining / vs + r.below(3);
    case 2: return remaining / vs - r.below(5);
    case 3: return page / vs + r.below(5) - 2;
    case 4: return 0 - uint64_t(r.below(1 + page)) / vs;             // jumps backwards
    case 5: return (~0ULL / vs) + 1 + r.below(page);                 // times the size, wraps to something small
    case 6: return (~0ULL / vs) - r.below(page);
    default: return r.below(page);
    }
}

template<size_t PAGE, class T, EncKind K>
static void bucket_case(long idx, Rng& r, const char* name)
{
    using C = Codec<PAGE, T, K>;
    C codec(r);
    vt::begin_case(idx, vt::fmt("bucket %s", name));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    std::array<std::unique_ptr<std::array<uint8_t, PAGE>>, 2> bk;
    struct Rec
    {
        Key            k;
        std::vector<T> v;
        size_t         begin, end;
        int            bucket;
    };
    std::vector<Rec> recs;
    KeyGen           kg(0, r);
    uint64_t         tag = 1;
    constexpr size_t kCtl = C::Enc::kListControlValues / 2; // entries of a header
    for (int b = 0; b < 2; b++) {
        bk[b].reset(new std::array<uint8_t, PAGE>);
        auto&  a   = *bk[b];
        size_t off = codec.enc.start_block_encoding(a.data(), b * 7);
        bool   full = r.chance(50);
        while (recs.size() < 200) {
            size_t room = (PAGE - off) / sizeof(T);
            if (room <= kCtl + 1 || (!full && r.chance(30))) break;
            size_t n = r.range(1, room - kCtl);
            if (r.chance(70)) n = std::min<size_t>(n, r.range(1, 5));
            Rec rec;
            rec.k = kg.fresh();
            for (size_t i = 0; i < n; i++) rec.v.push_back(Make<T>::make(tag++));
            details::Edge e(0, n + 2 * kCtl);
            e.flow     = n + kCtl;
            e.rec_flow = n + kCtl;
            size_t w   = codec.enc.encode(a.data() + off, b * 7, rec.k, rec.v, TethysAssignmentInfo(e, b ? OutgoingEdge : IncomingEdge));
            rec.begin  = off;
            rec.end    = off + w;
            rec.bucket = b;
            off += w;
            recs.push_back(rec);
        }
        codec.enc.finish_block_encoding(a.data(), b * 7, off, PAGE - off);
    }
    for (int round = 0; round < 25; round++) {
        std::array<std::unique_ptr<std::array<uint8_t, PAGE>>, 2> d;
        size_t damage[2] = {PAGE, PAGE};
        size_t ix[2]     = {0, 7};
        for (int b = 0; b < 2; b++) {
            d[b].reset(new std::array<uint8_t, PAGE>(*bk[b]));
            auto& a = *d[b];
            int   how = static_cast<int>(r.below(9));
            auto  put = [&](size_t at, uint64_t v) {
                // in the plaintext: the cipher is a stream cipher, so combine with the old byte
                size_t m = std::min<size_t>(8, PAGE - at);
                if (K == ENCRYPTED) {
                    uint64_t plain = 0;
                    // the record's own length is known: turn it into v
                    for (auto& x : recs)
                        if (x.bucket == b && x.begin == at) plain = x.v.size();
                    v ^= plain;
                    for (size_t i = 0; i < m; i++) a[at + i] ^= uint8_t(v >> (8 * i));
                } else {
                    memcpy(a.data() + at, &v, m);
                }
                damage[b] = std::min(damage[b], at);
            };
            std::vector<size_t> starts;
            for (auto& x : recs)
                if (x.bucket == b) starts.push_back(x.begin);
            switch (how) {
            case 0: // intact
                break;
            case 1: // anything at all
                for (auto& c : a) c = uint8_t(r.next());
                damage[b] = 0;
                break;
            case 2: { // from some point on
                size_t at = r.below(PAGE);
                for (size_t i = at; i < PAGE; i++) a[i] = uint8_t(r.next());
                damage[b] = at;
                break;
            }
            case 3: { // a constant tail
                size_t at = r.below(PAGE);
                int    c  = r.chance(50) ? 0xFF : r.chance(50) ? 0 : int(r.below(256));
                for (size_t i = at; i < PAGE; i++) a[i] = uint8_t(c);
                damage[b] = at;
                break;
            }
            case 4:
            case 5:
            case 6: // chosen lengths
                for (int t = 0; t < 2 && !starts.empty(); t++) {
                    size_t at = starts[r.below(starts.size())];
                    put(at, evil(r, PAGE, sizeof(T), PAGE - at - kCtl * sizeof(T)));
                }
                break;
            case 7: { // every length word
                for (size_t at = 0; at + 8 <= PAGE; at += 8)
                    if (r.chance(20)) put(at, evil(r, PAGE, sizeof(T), PAGE - at));
                break;
            }
            default: // some bits
                for (int t = 0; t < 3; t++) {
                    size_t at = r.below(PAGE);
                    a[at] ^= uint8_t(1u << r.below(8));
                    damage[b] = std::min(damage[b], at);
                }
            }
            if (K == ENCRYPTED && r.chance(5)) {
                ix[b] += r.range(1, 9); // the wrong place: decrypts to garbage
                damage[b] = 0;
            }
        }
        std::vector<Key> ask;
        for (auto& x : recs)
            if (r.chance(40)) ask.push_back(x.k);
        ask.push_back(kg.fresh());
        ask.push_back(KeyGen::make(0, 0));
        ask.push_back(KeyGen::make(~0ULL, ~0ULL));
        for (auto& k : ask) {
            std::vector<T> got;
            bool           threw = false;
            Mem::start();
            try {
                got = codec.dec.decode_buckets(k, *d[0], ix[0], *d[1], ix[1]);
            } catch (const std::exception&) {
                threw = true;
            }
            Mem::stop();
            vt::maximum("largest_allocation", Mem::biggest);
            VT_CHECK(Mem::biggest <= 64 * PAGE, "allocation:bucket", "an allocation of %zu bytes to decode %zu bytes", Mem::biggest, 2 * PAGE);
            if (threw) vt::count("decode_exceptions");
            VT_CHECK(got.size() <= 2 * PAGE / sizeof(T) + 2, "too_many_values", "%zu values out of two buckets of %zu", got.size(), PAGE);
            for (auto& x : recs) {
                if (x.k != k || x.end > damage[x.bucket]) continue;
                // its record, and all before it, are intact: the values come out,
                // whatever follows.  (The other bucket may only add.)
                auto g = vt::sorted(got), w = vt::sorted(x.v);
                VT_CHECK(!threw && std::includes(g.begin(), g.end(), w.begin(), w.end()), "intact_list_lost:bucket",
                         "a list before the damage at %zu: %s", damage[x.bucket], vt::diff(w, g).c_str());
                if (damage[1 - x.bucket] == PAGE) {
                    VT_CHECK(g.size() == w.size(), "invented_values", "%s", vt::diff(w, g).c_str());
                }
                vt::count("lists_before_damage");
            }
            vt::eval();
        }
        vt::count("damaged_buckets", (damage[0] < PAGE) + (damage[1] < PAGE));
    }
}

// a stream or file of overflow entries
template<size_t PAGE, class T, EncKind K>
static void stash_case(long idx, Rng& r, const char* name)
{
    using C = Codec<PAGE, T, K>;
    C codec(r);
    vt::begin_case(idx, vt::fmt("stash %s", name));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    KeyGen kg(0, r);
    struct Rec
    {
        Key            k;
        std::vector<T> v;
        size_t         end;
    };
    std::vector<Rec>   recs;
    std::ostringstream os;
    uint64_t           tag = 1;
    size_t             n = r.below(20);
    for (size_t i = 0; i < n; i++) {
        Rec rec;
        rec.k = kg.fresh();
        rec.v.resize(r.range(1, r.chance(80) ? 6 : 60));
        for (auto& x : rec.v) x = Make<T>::make(tag++);
        details::Edge e(0, rec.v.size() + C::Enc::kListControlValues);
        e.flow = e.rec_flow = 0;
        abstractio::KVSerializer<Key, TethysStashSerializationValue<T>, typename C::Enc> ser(os);
        ser.serialize(rec.k, TethysStashSerializationValue<T>(&rec.v, TethysAssignmentInfo(e, IncomingEdge)), codec.enc);
        rec.end = os.str().size();
        recs.push_back(rec);
    }
    const std::string good = os.str();
    vt::CaseDir       dir(idx);
    for (int round = 0; round < 12; round++) {
        std::string s      = good;
        size_t      damage = s.size();
        switch (r.below(7)) {
        case 0: break;
        case 1:
        case 2:
            damage = r.below(s.size() + 1);
            s.resize(damage);
            break;
        case 3: {
            damage = r.below(s.size() + 1);
            for (size_t i = damage; i < s.size(); i++) s[i] = char(r.next());
            break;
        }
        case 4:
            s += r.bytes(r.below(64));
            break;
        default:
            // a length field chosen at will (it follows the 16 bytes of the key)
            for (int t = 0; t < 2 && !recs.empty(); t++) {
                size_t i  = r.below(recs.size());
                size_t at = (i ? recs[i - 1].end : 0) + sizeof(Key);
                uint64_t v = evil(r, PAGE, sizeof(T), s.size() - at - 8);
                memcpy(&s[at], &v, 8);
                damage = std::min(damage, at);
            }
        }
        bool        file = r.chance(30);
        std::map<Key, std::vector<T>> got;
        bool        threw = false;
        if (file && std::is_same<T, index_type>::value) {
            // through the client, which loads the file when it is opened
            vt::spew(dir("stash"), s);
            try {
                Mem::start();
                std::ifstream in(dir("stash"));
                got = abstractio::deserialize_map<Key, std::vector<T>, typename C::Dec>(in, codec.dec);
                Mem::stop();
            } catch (const std::exception&) {
                Mem::stop();
                threw = true;
            }
        } else {
            std::istringstream in(s);
            Mem::start();
            try {
                got = abstractio::deserialize_map<Key, std::vector<T>, typename C::Dec>(in, codec.dec);
            } catch (const std::exception&) {
                threw = true;
            }
            Mem::stop();
        }
        vt::maximum("largest_stash_allocation", Mem::biggest);
        VT_CHECK(Mem::biggest <= 64 * (s.size() + PAGE) + 65536, "allocation:stash", "an allocation of %zu bytes for a file of %zu", Mem::biggest, s.size());
        VT_CHECK(Mem::total <= 512 * (s.size() + PAGE) + (1 << 20), "allocation:stash", "%zu bytes in all for a file of %zu", Mem::total, s.size());
        size_t values = 0;
        for (auto& kv : got) values += kv.second.size();
        VT_CHECK(values * sizeof(T) <= s.size() + sizeof(T), "invented_values", "%zu values of %zu bytes out of %zu bytes", values, sizeof(T), s.size());
        if (threw) vt::count("stash_exceptions");
        else {
            // damage can only reach what follows it, unless it forges an earlier key
            for (auto& x : recs) {
                if (x.end > damage) continue;
                auto it = got.find(x.k);
                VT_CHECK(it != got.end() && it->second.size() == x.v.size()
                             && memcmp(it->second.data(), x.v.data(), x.v.size() * sizeof(T)) == 0,
                         "intact_list_lost:stash", "a list of %zu values before the damage at %zu", x.v.size(), damage);
                vt::count("stash_lists_before_damage");
            }
        }
        if (damage == good.size() && s.size() == good.size())
            VT_CHECK(!threw && got.size() == recs.size(), "intact_stash_refused", "%zu of %zu lists", got.size(), recs.size());
        vt::count("damaged_stashes", damage < good.size() || s.size() != good.size());
        vt::eval();

        // the same file through a store and a client
        if (round < 2 && std::is_same<T, index_type>::value && PAGE == 512) {
            vt::spew(dir("stash"), s);
            using Builder = TethysStoreBuilder<512, Key, index_type, IdentityHasher, encoders::EncodeSeparateEncoder<Key, index_type, 512>>;
            using Dec     = encoders::EncodeSeparateDecoder<Key, index_type, 512>;
            using Store   = TethysStore<512, Key, index_type, IdentityHasher, Dec>;
            if (!vt::exists(dir("table"))) {
                Builder b(TethysStoreBuilderParam{dir("table"), dir("other"), 4, 0.1});
                b.insert_list(kg.fresh(), {1, 2, 3});
                b.build();
            }
            std::unique_ptr<Store> st;
            bool t2 = vt::throws([&] { st.reset(new Store(dir("table"), dir("stash"))); });
            VT_CHECK(t2 == threw, "store_differs", "the store %s, the stream %s", t2 ? "refused" : "loaded", threw ? "refused" : "loaded");
            if (st)
                for (auto& x : recs) {
                    auto v = st->get_list(x.k);
                    if (x.end <= damage)
                        VT_CHECK(v.size() == x.v.size(), "intact_list_lost:store", "%zu of %zu values", v.size(), x.v.size());
                }
            vt::count("stores_on_damaged_stash");
            if (round == 0) {
                using Client = TethysClient<Dec>;
                std::array<uint8_t, 32> dk{};
                std::unique_ptr<Client> cl;
                bool t3 = vt::throws([&] {
                    cl.reset(new Client(dir("counters"), dir("stash"), crypto::Key<kMasterPrfKeySize>(), dk));
                });
                VT_CHECK(t3 == threw, "client_differs", "the client %s, the stream %s", t3 ? "refused" : "loaded", threw ? "refused" : "loaded");
                if (cl) {
                    // garbage from the server
                    std::vector<typename Client::keyed_bucket_pair_type> pairs(r.below(4));
                    for (auto& p : pairs) {
                        p.key            = kg.fresh();
                        p.buckets.index_0 = r.next();
                        p.buckets.index_1 = r.next();
                        for (auto& c : p.buckets.payload_0) c = uint8_t(r.next());
                        for (auto& c : p.buckets.payload_1) c = uint8_t(r.next());
                    }
                    SearchRequest req = cl->search_request("x", false);
                    auto          res = cl->decode_search_results(req, pairs);
                    VT_CHECK(res.size() <= pairs.size() * 128, "too_many_values", "%zu", res.size());
                    vt::count("clients_on_damaged_stash");
                }
            }
        }
    }
}

static void c21(long i, Rng& r)
{
    vt::Quiet   q;
    static bool once = (Mem::install(), true);
    (void)once;
    if (r.chance(70)) {
        switch (r.below(6)) {
        case 0: bucket_case<512, uint64_t, SEPARATE>(i, r, "512/u64"); break;
        case 1: bucket_case<512, uint64_t, ENCRYPTED>(i, r, "512/u64/encrypted"); break;
        case 2: bucket_case<256, uint32_t, SEPARATE>(i, r, "256/u32"); break;
        case 3: bucket_case<512, Val<24>, SEPARATE>(i, r, "512/24"); break;
        case 4: bucket_case<4096, uint64_t, ENCRYPTED>(i, r, "4096/u64/encrypted"); break;
        default: bucket_case<1024, Val<5>, SEPARATE>(i, r, "1024/5"); break;
        }
    } else {
        switch (r.below(4)) {
        case 0: stash_case<512, uint64_t, ENCRYPTED>(i, r, "512/u64/encrypted"); break;
        case 1: stash_case<512, Val<24>, SEPARATE>(i, r, "512/24"); break;
        default: stash_case<512, uint64_t, SEPARATE>(i, r, "512/u64"); break;
        }
    }
}

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    const auto& m = vt::opts().mode;
    if (m == "c08scale") vt::run_cases(vt::opts().thorough ? 40 : 4, c08scale);
    else if (m == "c08") vt::run_cases(vt::opts().thorough ? 4000 : 250, c08);
    else if (m == "c08fault") vt::run_cases(vt::opts().thorough ? 2000 : 100, c08fault);
    else if (m == "c21") vt::run_cases(vt::opts().thorough ? 20000 : 1200, c21);
    else return 2;
    return vt::finish();
}
