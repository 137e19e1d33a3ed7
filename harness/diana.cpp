// C13: Diana against a multimap.
#include "tokens.hpp"

#include <rocksdb/db.h>
#include <rocksdb/table.h>
#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_server.hpp>

using namespace sse::diana;
using namespace dyn;

static const char* kVariants[] = {"search", "callback", "parallel", "vector", "parallel_callback", "tl_callback"};
constexpr int      kNVariants  = 6;

// number of entries of a closed database; -1 if it cannot be read
static long db_entries(const std::string& path)
{
    rocksdb::Options            o;
    rocksdb::CuckooTableOptions c;
    o.table_factory.reset(rocksdb::NewAdaptiveTableFactory(nullptr, nullptr, nullptr, std::shared_ptr<rocksdb::TableFactory>(rocksdb::NewCuckooTableFactory(c))));
    o.allow_mmap_reads = true;
    rocksdb::DB* d     = nullptr;
    auto         s     = rocksdb::DB::OpenForReadOnly(o, path, &d);
    if (!s.ok()) return -1;
    std::unique_ptr<rocksdb::DB>       own(d);
    rocksdb::ReadOptions               ro;
    ro.total_order_seek = true;
    std::unique_ptr<rocksdb::Iterator> it(d->NewIterator(ro));
    long                               n = 0;
    for (it->SeekToFirst(); it->Valid(); it->Next()) n++;
    if (!it->status().ok()) return -1;
    return n;
}

template<class T>
struct Setup
{
    vt::CaseDir                     dir;
    Bytes                           dk, tk;
    std::unique_ptr<DianaClient<T>> client;
    std::unique_ptr<DianaServer<T>> server;

    Setup(long idx, Rng& r) : dir(idx), dk(bytes32(r)), tk(bytes32(r))
    {
        open_client();
        open_server();
    }
    void open_client()
    {
        client.reset();
        client.reset(new DianaClient<T>(dir("client"), key(dk), key(tk)));
    }
    void open_server()
    {
        server.reset();
        server.reset(new DianaServer<T>(dir("server")));
    }

    // slots: the documents ever inserted for the keyword, in order; a search
    // that gives positions has to give the right ones
    List search(int variant, const SearchRequest& req, bool del, Rng& r, const List& slots)
    {
        Sink    sink;
        uint8_t n   = threads(r);
        auto    cb  = sink.cb();
        auto    lst = [](const std::list<T>& l) { return List(l.begin(), l.end()); };
        switch (variant) {
        case 0: return lst(server->search(req, del));
        case 1: {
            typename DianaServer<T>::basic_callback_type f = [&](T v) { cb(v); };
            server->search(req, f, del);
            return sink.take();
        }
        case 2: return lst(server->search_parallel(req, n, del));
        case 3: {
            // a vector that is empty, or was used before
            std::vector<T> v(r.chance(50) ? 0 : r.below(2 * slots.size() + 3), T(0x77));
            server->search_parallel(req, n, v, del);
            return List(v.begin(), v.end());
        }
        case 4: {
            typename DianaServer<T>::basic_callback_type f = [&](T v) { cb(v); };
            server->search_parallel(req, f, n, del);
            return sink.take();
        }
        default: {
            std::atomic<int>                          bad{0};
            typename DianaServer<T>::tl_callback_type f = [&](size_t i, T v, uint8_t t) {
                if (i >= slots.size() || T(slots[i]) != v || t >= n) bad++;
                cb(v);
            };
            server->search_parallel(req, f, n, del);
            VT_CHECK(bad == 0, "wrong_position", "%d results with a wrong position or thread id", bad.load());
            return sink.take();
        }
        }
    }
};

struct Kw
{
    List slots; // all insertions, in order
    size_t dead{0}; // the first ones were deleted by a search
    List live() const
    {
        return List(slots.begin() + long(dead), slots.end());
    }
};

template<class T>
static void c13(long idx, Rng& r)
{
    vt_crypto_seed(r.next());
    g_hw       = processors(r);
    size_t nkw = r.range(1, 8), nops = r.range(5, vt::opts().thorough ? 150 : 50);
    int    docs = static_cast<int>(r.below(3));
    bool   dels = r.chance(60);
    vt::begin_case(idx, vt::fmt("diana entry=%zu keywords=%zu ops=%zu docs=%d deleting=%d", sizeof(T), nkw, nops, docs, dels));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 3) vt::sample(vt::st().casedesc);
    vt::Quiet                 quiet;
    Setup<T>                  s(idx, r);
    auto                      kws = keywords(r, nkw + 3);
    std::map<std::string, Kw> model;
    uint64_t                  tag = 0;
    std::mutex                mm;
    auto                      doc = [&](Rng& q) -> uint64_t {
        uint64_t t;
        {
            std::lock_guard<std::mutex> g(mm);
            t = ++tag;
        }
        if (docs == 1 && q.chance(50)) t = q.below(4);
        if (docs == 2) t = q.chance(30) ? ~0ULL : q.chance(30) ? 0 : q.next();
        return T(t);
    };
    auto insert = [&](const std::string& w, uint64_t d) {
        s.server->insert(s.client->insertion_request(w, T(d)));
        vt::count("insertions");
    };
    auto search = [&](const std::string& w, int v, bool del, Rng& q) {
        Kw k;
        {
            std::lock_guard<std::mutex> g(mm);
            k = model[w];
        }
        SearchRequest req = s.client->search_request(w, q.chance(50));
        VT_CHECK(s.client->get_match_count(w) == k.slots.size(), "match_count", "%u instead of %zu", s.client->get_match_count(w), k.slots.size());
        std::string how = std::string(kVariants[v]) + (k.dead ? "_after_deletion" : "");
        compare(how, w, k.live(), s.search(v, req, del, q, k.slots));
        if (!del && q.chance(20)) { // the request may be used again
            int u = static_cast<int>(q.below(kNVariants));
            compare(kVariants[u], w, k.live(), s.search(u, req, false, q, k.slots));
            vt::count("requests_reused");
        }
        if (del) {
            std::lock_guard<std::mutex> g(mm);
            if (!k.live().empty()) vt::count("deleting_searches");
            model[w].dead = k.slots.size();
        }
        vt::count(k.slots.empty() ? "searches_unknown" : "searches_known");
        vt::count(kVariants[v]);
        vt::maximum("matches", k.slots.size());
        vt::eval();
    };
    for (size_t o = 0; o < nops; o++) {
        const std::string& w = kws[r.below(nkw)];
        unsigned           k = static_cast<unsigned>(r.below(100));
        if (k < 30) {
            uint64_t d = doc(r);
            insert(w, d);
            model[w].slots.push_back(d);
        } else if (k < 40) {
            size_t cap = !vt::opts().thorough ? 1100 : r.chance(3) ? 70000 : 5000;
            size_t n   = burst(r, model[w].slots.size(), vt::opts().thorough ? 300 : 60, cap);
            for (size_t i = 0; i < n; i++) {
                uint64_t d = doc(r);
                insert(w, d);
                model[w].slots.push_back(d);
            }
            if (n > 60)
                for (int v = 0; v < kNVariants; v++) search(w, v, false, r);
        } else if (k < 52) { // a bulk of insertions, of one or several keywords
            std::list<std::pair<std::string, T>> l;
            size_t                               n = r.below(30);
            for (size_t i = 0; i < n; i++) l.emplace_back(r.chance(50) ? w : kws[r.below(nkw)], T(doc(r)));
            auto reqs = s.client->bulk_insertion_request(l);
            VT_CHECK(reqs.size() == n, "bulk_size", "%zu requests for %zu insertions", reqs.size(), n);
            for (auto& q : reqs) s.server->insert(q);
            for (auto& p : l) model[p.first].slots.push_back(p.second);
            vt::count("bulk_insertions");
        } else if (k < 58) { // several threads insert; positions are not known
            uint64_t                       seed = r.next();
            std::map<std::string, List>    add;
            std::map<std::string, size_t>  from;
            vt::together(r.range(2, 4), [&](size_t t) {
                Rng q(seed + t);
                for (size_t i = 0; i < 5; i++) {
                    const std::string& x = q.chance(70) ? w : kws[q.below(nkw)];
                    uint64_t           d = doc(q);
                    if (q.chance(50)) insert(x, d);
                    else
                        for (auto& u : s.client->bulk_insertion_request({{x, T(d)}})) s.server->insert(u);
                    std::lock_guard<std::mutex> g(mm);
                    add[x].push_back(d);
                }
            });
            for (auto& a : add) { // learn the order, which the threads decided
                List all(model[a.first].slots.size() + a.second.size(), 0);
                List got;
                typename DianaServer<T>::tl_callback_type f = [&](size_t i, T v, uint8_t) {
                    if (i < all.size()) all[i] = v;
                    got.push_back(v);
                };
                s.server->search_parallel(s.client->search_request(a.first), f, 1, false);
                Kw&  kw   = model[a.first];
                List want = kw.live();
                want.insert(want.end(), a.second.begin(), a.second.end());
                compare("after_concurrent_insertions", a.first, want, got);
                for (size_t i = kw.slots.size(); i < all.size(); i++) kw.slots.push_back(all[i]);
            }
            vt::count("concurrent_insertions");
        } else if (k < 78) {
            search(r.chance(85) ? w : kws[nkw + r.below(3)], static_cast<int>(r.below(kNVariants)), dels && r.chance(40), r);
        } else if (k < 84) {
            uint64_t seed = r.next();
            vt::together(r.range(2, 4), [&](size_t t) {
                Rng q(seed + t);
                for (int i = 0; i < 3; i++)
                    search(q.chance(50) ? w : kws[q.below(kws.size())], static_cast<int>(q.below(kNVariants)), false, q);
            });
            vt::count("concurrent_searches");
        } else if (k < 88) {
            s.server->flush_edb();
            vt::count("flushes");
        } else if (k < 93) {
            s.open_client();
            vt::count("client_restarts");
        } else if (k < 97) {
            s.open_server();
            vt::count("server_restarts");
        } else {
            s.client.reset();
            s.server.reset();
            s.open_server();
            s.open_client();
            vt::count("restarts");
        }
    }
    for (auto& w : kws)
        for (int v = 0; v < kNVariants; v++) search(w, v, false, r);
    long live = 0;
    for (auto& kv : model) live += long(kv.second.live().size());
    s.server.reset();
    long n = db_entries(s.dir("server"));
    VT_CHECK(n == live, "database_size", "the database has %ld entries, %ld were inserted and not deleted", n, live);
    vt::count("databases_counted");
}

// more entries of one keyword, and more keywords, than small integers hold
static void c13scale(long idx, Rng& r)
{
    vt_crypto_seed(r.next());
    g_hw = processors(r);
    const size_t n = 65536 + r.below(600);
    vt::begin_case(idx, vt::fmt("diana %zu entries of one keyword, processors=%u", n, g_hw.load()));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    vt::Quiet quiet;
    Setup<uint64_t> s(idx, r);
    List      want;
    for (size_t i = 0; i < n; i++) {
        s.server->insert(s.client->insertion_request("often", i * 3));
        want.push_back(i * 3);
        if (i % 700 == 0) s.server->insert(s.client->insertion_request("other" + std::to_string(i), i));
        vt::tick();
    }
    // (unflushed entries are searched one by one)
    s.server->flush_edb();
    if (r.chance(50)) s.open_client();
    if (r.chance(50)) s.open_server();
    bool all = vt::opts().thorough;
    for (int v = 0; v < kNVariants; v++) {
        if (!all && !r.chance(35)) continue;
        compare(kVariants[v], "often", want, s.search(v, s.client->search_request("often"), false, r, want));
        vt::tick();
        vt::eval();
    }
    for (size_t i = 0; i < n; i += 700) compare("search", "other", {i}, s.search(0, s.client->search_request("other" + std::to_string(i)), false, r, {i}));
    vt::count("entries_of_one_keyword", n);
}

// ------------------------------------------------------------------- C15
struct TokenClient
{
    static constexpr const char*           name = "diana";
    std::string                            d;
    Bytes                                  dk, tk;
    std::unique_ptr<DianaClient<uint64_t>> c;
    TokenClient(const std::string& dir, Rng& r) : d(dir), dk(bytes32(r)), tk(bytes32(r)) {}
    static const char* part(Rng&)
    {
        return "client";
    }
    void create() {}
    void open()
    {
        c.reset(new DianaClient<uint64_t>(d + "/client", key(dk), key(tk)));
    }
    void close()
    {
        c.reset();
    }
    tok::Token insert(const std::string& w, uint64_t doc)
    {
        return tok::str(c->insertion_request(w, doc).token);
    }
    tok::Tokens bulk(const std::vector<std::pair<std::string, uint64_t>>& l)
    {
        tok::Tokens t;
        for (auto& u : c->bulk_insertion_request({l.begin(), l.end()})) t.push_back(tok::str(u.token));
        return t;
    }
    tok::Tokens remove(const std::string&, uint64_t)
    {
        return {};
    }
    tok::Tokens search(const std::string& w)
    {
        SearchRequest q = c->search_request(w, false);
        tok::Tokens   t;
        tok::leaves(q.constrained_rcprf, [&](search_token_key_type st) {
            update_token_type ut;
            uint64_t          mask;
            gen_update_token_mask(st, ut, mask);
            t.push_back(tok::str(ut));
        });
        return t;
    }
};

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    if (!getenv("VT_LOG")) sse::logger::set_logging_level(spdlog::level::off);
    const auto& m = vt::opts().mode;
    // (one entry size per process, see DESIGN.md)
    if (m == "c13") vt::run_cases(vt::opts().thorough ? 4000 : 240, c13<uint64_t>);
    else if (m == "c13small") vt::run_cases(vt::opts().thorough ? 800 : 48, c13<uint32_t>);
    else if (m == "c13scale") vt::run_cases(vt::opts().thorough ? 12 : 1, c13scale);
    else if (!tok::modes<TokenClient>(m)) return 2;
    return vt::finish();
}
