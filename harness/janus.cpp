// C14: Janus against a multimap with deletions; C21: its damaged cache.
#include "tokens.hpp"

#include <rocksdb/db.h>
#include <sse/schemes/janus/janus_client.hpp>
#include <sse/schemes/janus/janus_server.hpp>

using namespace sse::janus;
using namespace dyn;

static const char* kVariants[] = {"search", "parallel", "parallel_callback", "parallel_tl"};
constexpr int      kNVariants  = 4;

struct Setup
{
    vt::CaseDir                  dir;
    Bytes                        mk;
    std::unique_ptr<JanusClient> client;
    std::unique_ptr<JanusServer> server;
    Setup(long idx, Rng& r) : dir(idx), mk(bytes32(r))
    {
        open_client();
        open_server();
    }
    void open_client()
    {
        client.reset();
        client.reset(new JanusClient(dir("c_search"), dir("c_add"), dir("c_del"), key(mk)));
    }
    void open_server()
    {
        server.reset();
        server.reset(new JanusServer(dir("s_add"), dir("s_del"), dir("s_cache")));
    }
    List search(int variant, const std::string& w, Rng& r)
    {
        SearchRequest req = client->search_request(w);
        Sink          sink;
        uint8_t       n   = threads(r);
        auto          lst = [](const std::list<index_type>& l) { return List(l.begin(), l.end()); };
        auto          cb  = sink.cb();
        switch (variant) {
        case 0: return lst(server->search(req));
        case 1: return lst(server->search_parallel(req, n));
        case 2: {
            std::function<void(index_type)> f = cb;
            server->search_parallel(req, n, f);
            return sink.take();
        }
        default: {
            std::atomic<int>                         bad{0};
            std::function<void(index_type, uint8_t)> f = [&](index_type v, uint8_t t) {
                if (t > n) bad++;
                cb(v);
            };
            server->search_parallel(req, n, f);
            VT_CHECK(bad == 0, "wrong_thread_id", "%d results", bad.load());
            return sink.take();
        }
        }
    }
};

struct Kw
{
    List               docs;
    std::set<uint64_t> banned; // deleted since the last search: may not come back before the next one
    bool               searched{false}, deleted{false};
};

// Keywords that become one another when a number is put before or behind them,
// over many searches.
static void c14epochs(long idx, Rng& r)
{
    vt_crypto_seed(r.next());
    g_hw = processors(r);
    std::string base = r.chance(30) ? "" : r.chance(50) ? std::to_string(r.below(1000)) : "kw" + std::to_string(r.below(100));
    size_t      last = vt::opts().thorough ? r.range(20, 300) : r.range(20, 40);
    bool        hex = r.chance(50), behind = r.chance(25);
    vt::begin_case(idx, vt::fmt("janus epochs=%zu of '%s' behind=%d", last, base.c_str(), behind));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    vt::Quiet                quiet;
    Setup                    s(idx, r);
    std::vector<std::string> kws{base};
    for (unsigned d = 0; d < 24; d++) {
        std::string n = hex ? vt::fmt(d < 16 ? "%x" : "%02x", d % 16) : std::to_string(d);
        kws.push_back(behind ? base + n : n + base);
    }
    r.shuffle(kws);
    std::map<std::string, List> model;
    uint64_t                    tag = 0;
    auto insert = [&](const std::string& w) {
        s.server->insert(s.client->insertion_request(w, ++tag));
        model[w].push_back(tag);
        vt::count("insertions");
    };
    auto search = [&](const std::string& w) {
        int v = static_cast<int>(r.below(kNVariants));
        compare(kVariants[v], w, model[w], s.search(v, w, r));
        vt::count("epochs");
        vt::eval();
    };
    // one or two searches of most, so that they are in different epochs
    for (auto& w : kws)
        for (size_t e = w == base ? 0 : r.below(4); e > 0; e--) {
            insert(w);
            search(w);
        }
    for (auto& w : kws) insert(w);
    for (size_t e = 0; e < last; e++) {
        insert(base);
        if (r.chance(20)) {
            uint64_t d = model[base][r.below(model[base].size())];
            s.server->remove(s.client->removal_request(base, d));
            model[base].erase(std::find(model[base].begin(), model[base].end(), d));
        }
        if (r.chance(5)) s.open_client();
        if (r.chance(30)) insert(kws[r.below(kws.size())]);
        search(base);
        if (r.chance(20)) search(kws[r.below(kws.size())]);
    }
    for (auto& w : kws) search(w);
}

static void c14(long idx, Rng& r)
{
    vt_crypto_seed(r.next());
    g_hw       = processors(r);
    size_t nkw = r.range(1, 6), nops = r.range(10, vt::opts().thorough ? 200 : 70);
    size_t universe = r.chance(50) ? r.range(2, 12) : 100000;
    int    style    = static_cast<int>(r.below(3)); // 1: many deletions, 2: few searches
    vt::begin_case(idx, vt::fmt("janus keywords=%zu ops=%zu documents=%zu style=%d", nkw, nops, universe, style));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 3) vt::sample(vt::st().casedesc);
    vt::Quiet                 quiet;
    Setup                     s(idx, r);
    auto                      kws = keywords(r, nkw + 2);
    std::map<std::string, Kw> model;
    std::map<uint64_t, uint64_t> odd;
    auto doc = [&](Kw& k, bool existing) -> uint64_t {
        if (existing && !k.docs.empty() && r.chance(85)) return k.docs[r.below(k.docs.size())];
        uint64_t d = r.below(universe);
        if (d == 1) d = ~0ULL;
        return d;
    };
    // updates on their way to the server, which may see them in another order
    std::vector<std::function<void()>> queue;
    bool                               reorder = r.chance(40);
    auto deliver = [&] {
        if (reorder && queue.size() > 1) {
            r.shuffle(queue);
            vt::count("reordered_updates", queue.size());
        }
        for (auto& q : queue) q();
        queue.clear();
    };
    auto insert = [&](const std::string& w) {
        Kw&      k = model[w];
        uint64_t d = doc(k, false);
        if (k.banned.count(d)) return;
        auto q = s.client->insertion_request(w, d);
        queue.push_back([&s, q] { s.server->insert(q); });
        k.docs.push_back(d);
        vt::count("insertions");
    };
    auto remove = [&](const std::string& w) {
        Kw&      k = model[w];
        uint64_t d = doc(k, true);
        auto     q = s.client->removal_request(w, d);
        queue.push_back([&s, q] { s.server->remove(q); });
        size_t before = k.docs.size();
        k.docs.erase(std::remove(k.docs.begin(), k.docs.end(), d), k.docs.end());
        vt::count(before == k.docs.size() ? "deletions_of_absent" : "deletions");
        if (k.searched && before != k.docs.size()) vt::count("deletions_after_search");
        if (!k.banned.empty()) vt::count("several_deletions_between_searches");
        k.banned.insert(d);
        k.deleted = true;
    };
    auto search = [&](const std::string& w, int v) {
        deliver();
        Kw& k = model[w];
        compare(kVariants[v], w, k.docs, s.search(v, w, r));
        k.banned.clear();
        k.searched = true;
        vt::count(k.docs.empty() ? (k.deleted ? "searches_all_deleted" : "searches_unknown") : "searches_known");
        vt::count(kVariants[v]);
        vt::eval();
    };
    for (size_t o = 0; o < nops; o++) {
        const std::string& w = kws[r.below(nkw)];
        unsigned           k = static_cast<unsigned>(r.below(100));
        if (k < 38) {
            size_t n = r.chance(70) ? 1 : burst(r, model[w].docs.size(), 20, vt::opts().thorough ? 1100 : 513);
            while (n--) insert(w);
            if (!reorder || r.chance(30)) deliver();
        } else if (k < (style == 1 ? 66 : 55)) {
            size_t n = r.chance(70) ? 1 : r.range(2, 6);
            while (n--) remove(w);
            if (!reorder || r.chance(30)) deliver();
        } else if (k < (style == 2 ? 70 : 84)) {
            search(r.chance(90) ? w : kws[nkw + r.below(2)], static_cast<int>(r.below(kNVariants)));
        } else if (k < 88) {
            deliver();
            s.server->flush_edb();
            vt::count("flushes");
        } else if (k < 92) {
            s.open_client();
            vt::count("client_restarts");
        } else if (k < 95) {
            deliver();
            s.open_server();
            vt::count("server_restarts");
        } else if (k < 98) { // several threads update one keyword, each its own documents
            deliver();
            Kw&      kw   = model[w];
            uint64_t seed = r.next();
            size_t   n    = r.range(2, 4);
            std::mutex mm;
            vt::together(n, [&](size_t t) {
                Rng q(seed + t);
                for (int i = 0; i < 6; i++) {
                    uint64_t d = q.below(universe) / n * n + t;
                    if (q.chance(30)) {
                        s.server->remove(s.client->removal_request(w, d));
                        std::lock_guard<std::mutex> g(mm);
                        kw.docs.erase(std::remove(kw.docs.begin(), kw.docs.end(), d), kw.docs.end());
                        kw.banned.insert(d);
                        kw.deleted = true;
                        vt::count("concurrent_deletions");
                    } else {
                        {
                            std::lock_guard<std::mutex> g(mm);
                            if (kw.banned.count(d)) continue;
                        }
                        s.server->insert(s.client->insertion_request(w, d));
                        std::lock_guard<std::mutex> g(mm);
                        kw.docs.push_back(d);
                    }
                }
            });
            vt::count("concurrent_insertions");
        } else {
            deliver();
            s.client.reset();
            s.server.reset();
            s.open_server();
            s.open_client();
            vt::count("restarts");
        }
    }
    for (auto& w : kws)
        for (int v = 0; v < kNVariants; v++) search(w, (v + int(idx)) % kNVariants);
}

// searches on a damaged cache of results
static void c21janus(long idx, Rng& r)
{
    vt_crypto_seed(r.next());
    vt::Quiet quiet;
    Setup     s(idx, r);
    auto      kws = keywords(r, r.range(1, 4));
    vt::begin_case(idx, vt::fmt("damaged janus cache keywords=%zu", kws.size()));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 3) vt::sample(vt::st().casedesc);
    std::map<std::string, List> docs;
    for (auto& w : kws) {
        size_t n = r.range(1, 8);
        for (size_t i = 0; i < n; i++) {
            uint64_t d = r.below(1000);
            s.server->insert(s.client->insertion_request(w, d));
            docs[w].push_back(d);
        }
        (void)s.search(0, w, r);
    }
    s.server.reset();
    size_t damaged = 0;
    {
        rocksdb::Options o;
        rocksdb::DB*     d = nullptr;
        if (!rocksdb::DB::Open(o, s.dir("s_cache"), &d).ok()) {
            vt::count("cache_not_opened");
            return;
        }
        std::unique_ptr<rocksdb::DB>       own(d);
        std::unique_ptr<rocksdb::Iterator> it(d->NewIterator(rocksdb::ReadOptions()));
        std::map<std::string, std::string> all;
        for (it->SeekToFirst(); it->Valid(); it->Next()) all[it->key().ToString()] = it->value().ToString();
        it.reset();
        for (auto& kv : all) {
            if (!r.chance(70)) continue;
            std::string v = kv.second;
            switch (r.below(3)) {
            case 0: v.resize(r.below(v.size() + 1)); break;
            case 1: v += r.bytes(r.below(60)); break;
            default:
                v.resize(r.below(v.size() + 1));
                v += r.bytes(r.below(30));
            }
            own->Put(rocksdb::WriteOptions(), kv.first, v);
            damaged++;
            vt::count("damaged_caches");
        }
    }
    s.open_server();
    for (auto& w : kws)
        for (int v = 0; v < kNVariants; v++) {
            List got;
            bool thr = vt::throws([&] { got = s.search(v, w, r); });
            vt::count(thr ? "searches_refused" : "searches_on_damaged_cache");
            if (!damaged) compare("undamaged", w, docs[w], got);
            vt::eval();
        }
}

// ------------------------------------------------------------------- C15
struct TokenClient
{
    static constexpr const char* name = "janus";
    std::string                  d;
    Bytes                        mk;
    std::unique_ptr<JanusClient> c;
    TokenClient(const std::string& dir, Rng& r) : d(dir), mk(bytes32(r)) {}
    static const char* part(Rng& r)
    {
        static const char* p[] = {"/c_", "c_search", "c_search", "c_add", "c_del"};
        return p[r.below(5)];
    }
    void create() {}
    void open()
    {
        c.reset(new JanusClient(d + "/c_search", d + "/c_add", d + "/c_del", key(mk)));
    }
    void close()
    {
        c.reset();
    }
    tok::Token insert(const std::string& w, uint64_t doc)
    {
        return tok::str(c->insertion_request(w, doc).token);
    }
    tok::Tokens bulk(const std::vector<std::pair<std::string, uint64_t>>& l)
    {
        tok::Tokens t;
        for (auto& p : l) t.push_back(insert(p.first, p.second));
        return t;
    }
    tok::Tokens remove(const std::string& w, uint64_t doc)
    {
        return {tok::str(c->removal_request(w, doc).token)};
    }
    tok::Tokens search(const std::string& w)
    {
        SearchRequest q = c->search_request(w);
        tok::Tokens   t;
        auto          all = [&](const sse::diana::SearchRequest& s, auto sample) {
            tok::leaves(s.constrained_rcprf, [&](sse::diana::search_token_key_type st) {
                sse::diana::update_token_type ut;
                sse::diana::gen_update_token_mask(st, ut, sample);
                t.push_back(tok::str(ut));
            });
        };
        all(q.insertion_search_request, sse::crypto::punct::ciphertext_type());
        all(q.deletion_search_request, sse::crypto::punct::key_share_type());
        return t;
    }
};

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    if (!getenv("VT_LOG")) sse::logger::set_logging_level(spdlog::level::off);
    const auto& m = vt::opts().mode;
    if (m == "c14epochs") vt::run_cases(vt::opts().thorough ? 300 : 24, c14epochs);
    else if (m == "c14") vt::run_cases(vt::opts().thorough ? 4000 : 200, c14);
    else if (m == "c21janus") vt::run_cases(vt::opts().thorough ? 1500 : 96, c21janus);
    else if (!tok::modes<TokenClient>(m)) return 2;
    return vt::finish();
}
