// C12: Sophos against a multimap; C15: its tokens.
#include "tokens.hpp"

#include <sse/schemes/sophos/sophos_client.hpp>
#include <sse/schemes/sophos/sophos_server.hpp>

using namespace sse::sophos;
using namespace dyn;

static const char* kVariants[] = {"search", "callback", "parallel", "light", "parallel_callback", "light_callback"};
constexpr int      kNVariants  = 6;

struct Setup
{
    vt::CaseDir                   dir;
    Bytes                         dk, rk;
    std::string                   sk, pk;
    std::unique_ptr<SophosClient> client;
    std::unique_ptr<SophosServer> server;

    Setup(long idx, Rng& r) : dir(idx), dk(bytes32(r)), rk(bytes32(r))
    {
        sse::crypto::TdpInverse t;
        sk = t.private_key();
        open_client();
        pk = client->public_key();
        open_server();
    }
    void open_client()
    {
        client.reset();
        client.reset(new SophosClient(dir("client"), sk, key(dk), key(rk)));
    }
    void open_server()
    {
        server.reset();
        server.reset(new SophosServer(dir("server"), pk));
    }

    List search(int variant, const std::string& w, Rng& r)
    {
        SearchRequest req = client->search_request(w);
        Sink          sink;
        uint8_t       n = threads(r);
        switch (variant) {
        case 0: {
            auto l = server->search(req);
            return List(l.begin(), l.end());
        }
        case 1: server->search_callback(req, sink.cb()); return sink.take();
        case 2: {
            auto l = server->search_parallel(req, n);
            return List(l.begin(), l.end());
        }
        case 3: {
            auto l = server->search_parallel_light(req, n);
            return List(l.begin(), l.end());
        }
        case 4: server->search_parallel_callback(req, sink.cb(), n, threads(r), threads(r)); return sink.take();
        default: server->search_parallel_light_callback(req, sink.cb(), n); return sink.take();
        }
    }
};

static void c12(long idx, Rng& r)
{
    vt_crypto_seed(r.next());
    g_hw = processors(r);
    size_t nkw = r.range(1, 8), nops = r.range(5, vt::opts().thorough ? 120 : 40);
    int    docs = static_cast<int>(r.below(3));
    vt::begin_case(idx, vt::fmt("sophos keywords=%zu ops=%zu processors=%u docs=%d", nkw, nops, g_hw.load(), docs));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 3) vt::sample(vt::st().casedesc);
    vt::Quiet                   quiet;
    Setup                       s(idx, r);
    auto                        kws = keywords(r, nkw + 3); // the last three are never inserted
    std::map<std::string, List> model;
    uint64_t                    tag = 0;
    std::mutex                  mm;
    auto                        doc = [&](Rng& q) -> uint64_t {
        uint64_t t;
        {
            std::lock_guard<std::mutex> g(mm);
            t = ++tag;
        }
        if (docs == 0) return t;
        if (docs == 1) return q.chance(50) ? q.below(4) : t; // the same document again
        return q.chance(30) ? ~0ULL : q.chance(30) ? 0 : q.next();
    };
    auto insert = [&](const std::string& w, uint64_t d) {
        s.server->insert(s.client->insertion_request(w, d));
        vt::count("insertions");
    };
    auto search = [&](const std::string& w, int v, Rng& q) {
        List got = s.search(v, w, q);
        List want;
        {
            std::lock_guard<std::mutex> g(mm);
            want = model[w];
        }
        compare(kVariants[v], w, want, got);
        vt::count(want.empty() ? "searches_unknown" : "searches_known");
        vt::count(kVariants[v]);
        vt::maximum("matches", want.size());
        vt::eval();
    };
    for (size_t o = 0; o < nops; o++) {
        const std::string& w = kws[r.below(nkw)];
        unsigned           k = static_cast<unsigned>(r.below(100));
        if (k < 40) {
            uint64_t d = doc(r);
            insert(w, d);
            model[w].push_back(d);
        } else if (k < 50) { // a burst on one keyword
            size_t n = burst(r, model[w].size(), 40, vt::opts().thorough ? 1100 : 513);
            for (size_t i = 0; i < n; i++) {
                uint64_t d = doc(r);
                insert(w, d);
                model[w].push_back(d);
            }
            if (n > 40)
                for (int v = 0; v < kNVariants; v++) search(w, v, r);
        } else if (k < 58) { // several threads insert
            uint64_t seed = r.next();
            vt::together(r.range(2, 4), [&](size_t t) {
                Rng q(seed + t);
                for (size_t i = 0; i < 6; i++) {
                    const std::string& x = q.chance(70) ? w : kws[q.below(nkw)];
                    uint64_t           d = doc(q);
                    insert(x, d);
                    std::lock_guard<std::mutex> g(mm);
                    model[x].push_back(d);
                }
            });
            vt::count("concurrent_insertions");
        } else if (k < 78) {
            search(r.chance(85) ? w : kws[nkw + r.below(3)], static_cast<int>(r.below(kNVariants)), r);
        } else if (k < 84) { // several searches at once
            uint64_t seed = r.next();
            vt::together(r.range(2, 4), [&](size_t t) {
                Rng q(seed + t);
                for (int i = 0; i < 3; i++)
                    search(q.chance(50) ? w : kws[q.below(kws.size())], static_cast<int>(q.below(kNVariants)), q);
            });
            vt::count("concurrent_searches");
        } else if (k < 89) { // searches while the keyword grows
            List                  before = model[w];
            std::vector<uint64_t> add;
            for (int i = 0; i < 12; i++) add.push_back(doc(r));
            uint64_t            seed = r.next();
            std::atomic<size_t> begun{0}, ended{0};
            vt::together(2, [&](size_t t) {
                Rng q(seed + t);
                if (t == 0) {
                    for (auto d : add) {
                        begun++;
                        insert(w, d);
                        ended++;
                    }
                } else {
                    for (int i = 0; i < 3; i++) {
                        size_t lo  = ended;
                        int    v   = static_cast<int>(q.below(kNVariants));
                        List   got = vt::sorted(s.search(v, w, q));
                        size_t hi  = begun;
                        List   least(before), most(before);
                        least.insert(least.end(), add.begin(), add.begin() + long(lo));
                        most.insert(most.end(), add.begin(), add.begin() + long(hi));
                        std::sort(least.begin(), least.end());
                        std::sort(most.begin(), most.end());
                        VT_CHECK(std::includes(got.begin(), got.end(), least.begin(), least.end()), "lost_while_growing",
                                 "%s: %s", kVariants[v], vt::diff(least, got).c_str());
                        VT_CHECK(std::includes(most.begin(), most.end(), got.begin(), got.end()), "extra_while_growing", "%s: %s",
                                 kVariants[v], vt::diff(most, got).c_str());
                        vt::eval();
                        vt::count("searches_while_inserting");
                    }
                }
            });
            for (auto d : add) model[w].push_back(d);
        } else if (k < 93) {
            s.open_client();
            vt::count("client_restarts");
        } else if (k < 97) {
            s.open_server();
            vt::count("server_restarts");
        } else {
            s.client.reset();
            s.server.reset();
            if (r.chance(50)) g_hw = processors(r); // another machine
            s.open_server();
            s.open_client();
            vt::count("restarts");
        }
    }
    for (auto& w : kws)
        for (int v = 0; v < kNVariants; v++) search(w, v, r);
    VT_CHECK(s.client->public_key() == s.server->public_key(), "public_keys_differ", "%s", "");
    VT_CHECK(s.client->private_key() == s.sk, "private_key_changed", "%s", "");
}

// more entries of one keyword, and more keywords, than small integers hold
static void c12scale(long idx, Rng& r)
{
    vt_crypto_seed(r.next());
    g_hw = processors(r);
    const size_t n = 65536 + r.below(600);
    vt::begin_case(idx, vt::fmt("sophos %zu entries of one keyword, processors=%u", n, g_hw.load()));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    vt::Quiet quiet;
    Setup     s(idx, r);
    List      want;
    for (size_t i = 0; i < n; i++) {
        s.server->insert(s.client->insertion_request("often", i * 3));
        want.push_back(i * 3);
        if (i % 700 == 0) s.server->insert(s.client->insertion_request("other" + std::to_string(i), i));
        vt::tick();
    }
    // (unflushed entries are searched one by one; reopening flushes)
    if (r.chance(50)) s.open_client();
    s.open_server();
    bool all = vt::opts().thorough;
    for (int v = 0; v < kNVariants; v++) {
        if (!all && !r.chance(60)) continue;
        compare(kVariants[v], "often", want, s.search(v, "often", r));
        vt::tick();
        vt::eval();
    }
    for (size_t i = 0; i < n; i += 700) compare("search", "other", {i}, s.search(0, "other" + std::to_string(i), r));
    vt::count("entries_of_one_keyword", n);
}

// ------------------------------------------------------------------- C15
struct TokenClient
{
    static constexpr const char*  name = "sophos";
    std::string                   d, sk;
    Bytes                         dk, rk;
    std::unique_ptr<SophosClient> c;
    TokenClient(const std::string& dir, Rng& r) : d(dir), dk(bytes32(r)), rk(bytes32(r))
    {
        std::string f = d + "/sk";
        if (FILE* x = fopen(f.c_str(), "r")) {
            char b[10000];
            sk.assign(b, fread(b, 1, sizeof b, x));
            fclose(x);
        } else sk = sse::crypto::TdpInverse().private_key();
    }
    static const char* part(Rng&)
    {
        return "client";
    }
    void create()
    {
        FILE* x = fopen((d + "/sk").c_str(), "w");
        fwrite(sk.data(), 1, sk.size(), x);
        fclose(x);
    }
    void open()
    {
        c.reset(new SophosClient(d + "/client", sk, key(dk), key(rk)));
    }
    void close()
    {
        c.reset();
    }
    tok::Token insert(const std::string& w, uint64_t doc)
    {
        return tok::str(c->insertion_request(w, doc).token);
    }
    tok::Tokens bulk(const std::vector<std::pair<std::string, uint64_t>>& l)
    {
        tok::Tokens t;
        for (auto& p : l) t.push_back(insert(p.first, p.second));
        return t;
    }
    tok::Tokens remove(const std::string&, uint64_t)
    {
        return {};
    }
    tok::Tokens search(const std::string& w)
    {
        SearchRequest q = c->search_request(w);
        tok::Tokens   t;
        if (q.add_count == 0) return t;
        sse::crypto::Tdp tdp(c->public_key());
        for (uint32_t i = 0; i < q.add_count + 3; i++) {
            update_token_type                     ut;
            std::array<uint8_t, kUpdateTokenSize> mask;
            auto                                  k = q.derivation_key;
            gen_update_token_masks(sse::crypto::Prf<kUpdateTokenSize>(sse::crypto::Key<kDerivationKeySize>(k.data())), q.token.data(), ut, mask);
            t.push_back(tok::str(ut));
            q.token = tdp.eval(q.token);
        }
        return t;
    }
};

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    if (!getenv("VT_LOG")) sse::logger::set_logging_level(spdlog::level::off);
    const auto& m = vt::opts().mode;
    if (m == "c12") vt::run_cases(vt::opts().thorough ? 4000 : 240, c12);
    else if (m == "c12scale") vt::run_cases(vt::opts().thorough ? 12 : 1, c12scale);
    else if (!tok::modes<TokenClient>(m)) return 2;
    return vt::finish();
}
