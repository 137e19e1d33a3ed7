// C26: what the server's side sees of the keywords and the documents.
#include "aio_order.hpp"
#include "dyn.hpp"

#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_common.hpp>
#include <sse/schemes/diana/diana_server.hpp>
#include <sse/schemes/janus/janus_client.hpp>
#include <sse/schemes/janus/janus_server.hpp>
#include <sse/schemes/pluto/pluto_builder.hpp>
#include <sse/schemes/pluto/pluto_client.hpp>
#include <sse/schemes/pluto/pluto_server.hpp>
#include <sse/schemes/pluto/rocksdb_store.hpp>
#include <sse/schemes/sophos/sophos_client.hpp>
#include <sse/schemes/sophos/sophos_common.hpp>
#include <sse/schemes/sophos/sophos_server.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>
#include <sse/schemes/tethys/tethys_server.hpp>

#include <functional>
#include <sse/crypto/random.hpp>
#include <unordered_map>
#include <unordered_set>

using namespace dyn;
void vt_crypto_seed(uint64_t s);
extern std::function<void(const uint8_t*, const uint8_t*, const uint8_t*, size_t)> vt_on_stream;

// ------------------------------------------------------------ what is secret
struct Secrets
{
    std::unordered_set<std::string> docs; // 8 bytes, in both byte orders
    std::vector<std::string>        keywords;
    void doc(uint64_t d)
    {
        std::string s(reinterpret_cast<const char*>(&d), 8);
        docs.insert(s);
        docs.insert(std::string(s.rbegin(), s.rend()));
    }
    // the first secret the bytes contain
    bool in(const std::string& b, std::string* what) const
    {
        for (size_t i = 0; i + 8 <= b.size(); i++)
            if (docs.count(b.substr(i, 8))) {
                *what = vt::fmt("a document at byte %zu of %zu", i, b.size());
                return true;
            }
        for (auto& k : keywords) {
            auto p = b.find(k);
            if (p != std::string::npos) {
                *what = vt::fmt("a keyword at byte %zu of %zu", p, b.size());
                return true;
            }
        }
        return false;
    }
};

static void files_of(const std::string& d, std::vector<std::string>& out)
{
    DIR* h = opendir(d.c_str());
    if (!h) {
        if (vt::exists(d)) out.push_back(d);
        return;
    }
    while (dirent* e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        files_of(d + "/" + n, out);
    }
    closedir(h);
}
static void scan_files(const Secrets& s, const std::string& dir, const std::string& key)
{
    std::vector<std::string> f;
    files_of(dir, f);
    for (auto& p : f) {
        std::string b = vt::slurp(p), what;
        VT_CHECK(!s.in(b, &what), key, "%s: %s", p.substr(dir.size() > 20 ? dir.size() - 20 : 0).c_str(), what.c_str());
        vt::count("server_bytes", static_cast<long>(b.size()));
        vt::count("server_files");
    }
}

// ------------------------------------------------------------ dynamic schemes
template<class A>
static std::string raw(const A& a)
{
    return std::string(reinterpret_cast<const char*>(a.data()), a.size());
}
static std::string raw(uint64_t v)
{
    return std::string(reinterpret_cast<const char*>(&v), 8);
}
struct Update
{
    std::string token, payload; // sent to the server
    std::string mask;           // what hides the document (empty: not one of those)
    bool        has_mask() const
    {
        return !mask.empty();
    }
};
struct Search
{
    std::string                     request;
    std::unordered_set<std::string> derived; // the update tokens it gives away
};
static std::string bxor(std::string a, const std::string& b)
{
    for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i];
    return a;
}
template<class C, class F>
static void leaves(const C& c, F f)
{
    for (auto& e : c.ranges()) {
        uint64_t n = std::min<uint64_t>(1ULL << e.height, 3000);
        c.eval_range(e.first, e.first + n - 1, [&](uint64_t, auto v) { f(v); });
    }
}

struct SophosS
{
    static constexpr const char*              name = "sophos";
    std::string                               d, sk, pk;
    Bytes                                     dk, rk;
    std::unique_ptr<sse::sophos::SophosClient> c;
    std::unique_ptr<sse::sophos::SophosServer> s;
    SophosS(const std::string& dir, Rng& r) : d(dir), dk(bytes32(r)), rk(bytes32(r))
    {
        sk = sse::crypto::TdpInverse().private_key();
        open();
        pk = c->public_key();
        s.reset(new sse::sophos::SophosServer(d + "/server", pk));
    }
    void open() { c.reset(); c.reset(new sse::sophos::SophosClient(d + "/client", sk, key(dk), key(rk))); }
    void close() { c.reset(); s.reset(); }
    std::vector<Update> insert(const std::string& w, const std::vector<uint64_t>& l, Rng&)
    {
        std::vector<Update> u;
        for (uint64_t x : l) {
            auto q = c->insertion_request(w, x);
            s->insert(q);
            u.push_back({raw(q.token), raw(q.index), bxor(raw(q.index), raw(x))});
        }
        return u;
    }
    std::vector<Update> remove(const std::string&, uint64_t) { return {}; }
    Search search(const std::string& w)
    {
        Search r;
        auto   q  = c->search_request(w);
        r.request = raw(q.token) + raw(q.derivation_key);
        sse::crypto::Tdp tdp(pk);
        auto             t = q.token;
        for (uint32_t i = 0; i < q.add_count + 2 && q.add_count; i++) {
            sse::sophos::update_token_type                     ut;
            std::array<uint8_t, sse::sophos::kUpdateTokenSize> mask;
            auto                                               k = q.derivation_key;
            sse::sophos::gen_update_token_masks(
                sse::crypto::Prf<sse::sophos::kUpdateTokenSize>(sse::crypto::Key<sse::sophos::kDerivationKeySize>(k.data())), t.data(), ut, mask);
            r.derived.insert(raw(ut));
            t = tdp.eval(t);
        }
        s->search(q);
        return r;
    }
};
// (what Janus stores in Diana: a longer entry)
using Wide = sse::crypto::punct::ciphertext_type;
static_assert(sizeof(Wide) == 64, "");
template<class T>
struct DianaS
{
    static constexpr const char*                        name = sizeof(T) == 8 ? "diana" : "diana_wide";
    std::string                                         d;
    Bytes                                               dk, tk;
    std::unique_ptr<sse::diana::DianaClient<T>>  c;
    std::unique_ptr<sse::diana::DianaServer<T>>  s;
    DianaS(const std::string& dir, Rng& r) : d(dir), dk(bytes32(r)), tk(bytes32(r))
    {
        open();
        s.reset(new sse::diana::DianaServer<T>(d + "/server"));
    }
    void open() { c.reset(); c.reset(new sse::diana::DianaClient<T>(d + "/client", key(dk), key(tk))); }
    void close() { c.reset(); s.reset(); }
    static T value(uint64_t x)
    {
        T t;
        for (size_t i = 0; i < sizeof t; i += 8) memcpy(reinterpret_cast<char*>(&t) + i, &x, 8);
        return t;
    }
    static std::string bytes(const T& t) { return std::string(reinterpret_cast<const char*>(&t), sizeof t); }
    std::vector<Update> insert(const std::string& w, const std::vector<uint64_t>& l, Rng& r)
    {
        std::vector<Update> u;
        auto one = [&](const sse::diana::UpdateRequest<T>& q, uint64_t x) {
            s->insert(q);
            u.push_back({raw(q.token), bytes(q.index), bxor(bytes(q.index), bytes(value(x)))});
        };
        if (r.chance(50)) {
            std::list<std::pair<std::string, T>> b;
            for (uint64_t x : l) b.emplace_back(w, value(x));
            auto qs = c->bulk_insertion_request(b);
            // (all of one keyword: the requests come in the order of the positions)
            size_t i = 0;
            for (auto& q : qs) one(q, l[std::min(i++, l.size() - 1)]);
            vt::count("bulk_insertions");
        } else
            for (uint64_t x : l) one(c->insertion_request(w, value(x)), x);
        return u;
    }
    std::vector<Update> remove(const std::string&, uint64_t) { return {}; }
    Search search(const std::string& w)
    {
        Search r;
        auto   q  = c->search_request(w, false);
        r.request = raw(q.kw_token);
        leaves(q.constrained_rcprf, [&](sse::diana::search_token_key_type st) {
            sse::diana::update_token_type ut;
            T                             mask;
            sse::diana::gen_update_token_mask(st, ut, mask);
            r.derived.insert(raw(ut));
        });
        s->search(q);
        return r;
    }
};
struct JanusS
{
    static constexpr const char*                     name = "janus";
    std::string                                      d;
    Bytes                                            mk;
    std::unique_ptr<sse::janus::JanusClient>         c;
    std::unique_ptr<sse::janus::JanusServer>         s;
    JanusS(const std::string& dir, Rng& r) : d(dir), mk(bytes32(r))
    {
        open();
        ::mkdir((d + "/server").c_str(), 0700);
        s.reset(new sse::janus::JanusServer(d + "/server/add", d + "/server/del", d + "/server/cache"));
    }
    void open() { c.reset(); c.reset(new sse::janus::JanusClient(d + "/c1", d + "/c2", d + "/c3", key(mk))); }
    void close() { c.reset(); s.reset(); }
    // (index is a masked ciphertext: tag, masked document)
    std::vector<Update> insert(const std::string& w, const std::vector<uint64_t>& l, Rng&)
    {
        std::vector<Update> u;
        for (uint64_t x : l) {
            auto q = c->insertion_request(w, x);
            s->insert(q);
            u.push_back({raw(q.token), raw(q.index), ""});
        }
        return u;
    }
    std::vector<Update> remove(const std::string& w, uint64_t x)
    {
        auto q = c->removal_request(w, x);
        s->remove(q);
        return {{raw(q.token), raw(q.index), ""}};
    }
    Search search(const std::string& w)
    {
        Search r;
        auto   q   = c->search_request(w);
        r.request = raw(q.keyword_token) + raw(q.first_key_share).substr(16, 32);
        for (auto* x : {&q.insertion_search_request, &q.deletion_search_request})
            if (x->add_count) r.request += raw(x->kw_token);
        auto all = [&](const sse::diana::SearchRequest& x, auto sample) {
            leaves(x.constrained_rcprf, [&](sse::diana::search_token_key_type st) {
                sse::diana::update_token_type ut;
                sse::diana::gen_update_token_mask(st, ut, sample);
                r.derived.insert(raw(ut));
            });
        };
        all(q.insertion_search_request, sse::crypto::punct::ciphertext_type());
        all(q.deletion_search_request, sse::crypto::punct::key_share_type());
        s->search(q);
        return r;
    }
};

template<class S>
static void dynamic(long idx, Rng& r)
{
    vt_crypto_seed(r.next());
    g_hw       = processors(r);
    size_t nkw = r.range(2, 8), nops = r.range(10, vt::opts().thorough ? 150 : 50);
    vt::begin_case(idx, vt::fmt("what the server of %s sees: keywords=%zu ops=%zu", S::name, nkw, nops));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 6) vt::sample(vt::st().casedesc);
    vt::Quiet   quiet;
    vt::CaseDir dir(idx);
    Secrets     sec;
    // long enough not to appear by chance
    for (size_t i = 0; i < nkw; i++) {
        std::string w = "secret-" + std::to_string(r.next());
        if (r.chance(30)) w = r.bytes(r.range(10, 60));
        if (r.chance(20) && i) w = sec.keywords[i - 1] + std::string(1, char('0' + r.below(3)));
        sec.keywords.push_back(w);
    }
    std::string n = S::name;
    S           s(dir.path, r);
    std::unordered_map<std::string, std::string> chunks; // 8 bytes of updates -> where from
    std::unordered_map<std::string, std::string> tokens; // update token -> keyword
    std::unordered_set<std::string>              masks;
    std::unordered_map<std::string, std::string> searches; // 8 bytes of search requests -> keyword
    std::map<std::string, List>                  present;
    List                                         used;
    std::set<std::string>                        searched;
    size_t                                       size = 0;
    auto observe = [&](const std::string& w, const std::vector<Update>& us, const char* what) {
        for (auto& u : us) {
            std::string all = u.token + u.payload, why;
            VT_CHECK(!sec.in(all, &why), "in_clear:" + n, "%s: %s", what, why.c_str());
            // no two updates have anything in common
            for (size_t i = 0; i + 8 <= all.size(); i += 8) {
                auto e = chunks.emplace(all.substr(i, 8), what);
                VT_CHECK(e.second, "linked:" + n, "8 bytes of a request of %s were already in one of %s", what, e.first->second.c_str());
            }
            if (u.has_mask()) {
                for (size_t i = 0; i + 8 <= u.mask.size(); i += 8) {
                    std::string m = u.mask.substr(i, 8);
                    VT_CHECK(masks.insert(m).second, "mask_reused:" + n, "%s", "two documents are hidden by the same mask");
                    VT_CHECK(u.token.find(m) == std::string::npos, "mask_sent:" + n, "%s", "the mask of a document is part of its update token");
                }
                vt::count("masks");
            }
            // the size tells nothing
            if (!size) size = all.size();
            VT_CHECK(size == all.size(), "size:" + n, "a request of %s has %zu bytes, not %zu", what, all.size(), size);
            tokens[u.token] = w;
            vt::count("updates_seen");
            vt::eval();
        }
    };
    for (size_t o = 0; o < nops; o++) {
        const std::string& w = sec.keywords[r.below(nkw)];
        unsigned           k = static_cast<unsigned>(r.below(100));
        if (k < 55) {
            List l;
            for (size_t i = r.chance(70) ? 1 : r.range(1, 20); i > 0; i--) {
                // the same document under other keywords as well (never twice
                // under one: the scheme does not promise to hide that)
                uint64_t x = !used.empty() && r.chance(30) ? used[r.below(used.size())] : r.next() | 0x0101010101010101ULL;
                auto&    p = present[w];
                if (std::find(p.begin(), p.end(), x) != p.end()) continue;
                p.push_back(x);
                used.push_back(x);
                sec.doc(x);
                l.push_back(x);
            }
            if (!l.empty()) observe(w, s.insert(w, l, r), "an insertion");
        } else if (k < 63) {
            // (a deletion repeats the tag of its insertion only after decryption)
            if (!present[w].empty()) {
                size_t i = r.below(present[w].size());
                observe(w, s.remove(w, present[w][i]), "a deletion");
            }
        } else if (k < 90) {
            Search      q = s.search(w);
            searched.insert(w);
            std::string why;
            VT_CHECK(!sec.in(q.request, &why), "in_clear:" + n, "a search request: %s", why.c_str());
            // (the request for a keyword without entries is empty)
            for (size_t i = 0; i + 8 <= q.request.size() && !q.derived.empty(); i += 8) {
                if (q.request.compare(i, 8, std::string(8, '\0')) == 0) continue; // (a number padded by the stand-in)
                auto e = searches.emplace(q.request.substr(i, 8), w);
                VT_CHECK(e.first->second == w, "linked_search:" + n, "%s", "the search requests of two keywords have 8 bytes in common");
            }
            size_t known = 0;
            for (auto& t : q.derived) {
                auto i = tokens.find(t);
                if (i == tokens.end()) continue;
                known++;
                VT_CHECK(i->second == w, "other_keyword:" + n, "%s", "a search request lets the server compute an update token of another keyword");
            }
            vt::count(known ? "searches_known" : "searches_unknown");
            vt::count("tokens_given_away", known);
            vt::eval();
        } else if (k < 96 || r.chance(70)) {
            s.open();
            vt::count("client_restarts");
        } else {
            for (auto& v : sec.keywords) {
                s.search(v);
                searched.insert(v);
            }
        }
    }
    s.close();
    // what a search returned the server knows, and Janus keeps it
    Secrets never;
    never.keywords = sec.keywords;
    std::unordered_set<uint64_t> found;
    for (auto& p : present)
        if (searched.count(p.first)) found.insert(p.second.begin(), p.second.end());
    for (auto& p : present)
        for (uint64_t x : p.second)
            if (!found.count(x)) never.doc(x);
    scan_files(n == "janus" ? never : sec, dir.path + "/server", "in_clear:" + n + ":files");
}

// ------------------------------------------------------------- static schemes
using namespace sse::tethys;

using Db = std::map<std::string, List>;
// a database of a given total size, with a given distribution
static Db database(Rng& r, size_t total, int shape, size_t longest, Secrets& sec)
{
    Db db;
    while (total > 0) {
        std::string w = "secret-" + std::to_string(r.next());
        if (r.chance(20)) w = r.bytes(r.range(10, 60));
        size_t n = shape == 0 ? 1 : shape == 1 ? longest : shape == 2 ? total : r.range(1, 2 * longest);
        n        = std::min(n, total);
        List& l  = db[w];
        for (size_t i = 0; i < n; i++) {
            l.push_back(r.next() | 0x0101010101010101ULL);
            sec.doc(l.back());
        }
        sec.keywords.push_back(w);
        total -= n;
    }
    return db;
}
// the stream cipher is used once per key and nonce
struct StreamMonitor
{
    std::mutex                                   m;
    std::unordered_map<std::string, std::string> seen;
    StreamMonitor()
    {
        vt_on_stream = [this](const uint8_t* k, const uint8_t* n, const uint8_t* t, size_t len) {
            std::string id(reinterpret_cast<const char*>(k), 32), text(reinterpret_cast<const char*>(t), len);
            id.append(reinterpret_cast<const char*>(n), 8);
            std::lock_guard<std::mutex> g(m);
            auto                        e = seen.emplace(id, text);
            if (!e.second && e.first->second != text)
                vt::fail("keystream_reused", "two blocks were encrypted with the same key and nonce");
            vt::count("blocks_encrypted");
        };
    }
    ~StreamMonitor()
    {
        vt_on_stream = nullptr;
    }
};
static void check_table(const std::string& path, size_t page, const Secrets& sec, const std::vector<std::string>& keys, const char* n)
{
    std::string t = vt::slurp(path), why;
    VT_CHECK(!t.empty(), std::string("no_table:") + n, "%s", "the table is empty");
    VT_CHECK(!sec.in(t, &why), std::string("in_clear:") + n + ":table", "%s", why.c_str());
    for (auto& k : keys) {
        auto p = t.find(k);
        VT_CHECK(p == std::string::npos, std::string("in_clear:") + n + ":table", "the internal key of a keyword at byte %zu", p);
    }
    std::unordered_set<std::string> blocks;
    for (size_t i = 0; i + 16 <= t.size(); i += 16)
        VT_CHECK(blocks.insert(t.substr(i, 16)).second, std::string("not_random:") + n, "bytes %zu to %zu of the table (bucket %zu) already occurred", i,
                 i + 16, i / page);
    vt::count("table_buckets", static_cast<long>(t.size() / page));
    vt::eval();
}

template<size_t P>
static void tethys_page(long idx, Rng& r)
{
    using Enc            = encoders::EncodeSeparateEncoder<tethys_core_key_type, index_type, P>;
    using Builder        = TethysBuilder<P, Enc, Enc>;
    constexpr size_t kMax = Builder::tethys_store_type::kMaxListSize;
    size_t           total = r.range(1, (P == 512 && r.chance(25) ? 300 : 6) * kMax), declared = r.chance(50) ? total + r.below(total) : total;
    double           eps = r.chance(50) ? 0.1 : 0.5;
    vt::begin_case(idx, vt::fmt("what the server of tethys sees: page=%zu entries=%zu declared=%zu", P, total, declared));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    vt::Quiet     quiet;
    size_t        size = 0;
    StreamMonitor mon;
    int           first = static_cast<int>(r.below(4));
    for (int k = 0; k < 2; k++) { // two databases which differ only in what is secret
        vt::CaseDir dir(idx);
        Secrets     sec;
        Db          db = database(r, k && r.chance(30) ? r.range(0, total) : total, (first + k) % 4, kMax, sec);
        Bytes       mk = bytes32(r), ek = bytes32(r);
        {
            TethysStoreBuilderParam p{dir("table"), dir("stash"), declared, eps};
            Builder                 b(p, dir("counters"), key(mk), ek);
            for (auto& kv : db) b.insert_list(kv.first, std::list<uint64_t>(kv.second.begin(), kv.second.end()));
            b.build();
        }
        master_prf_type          prf(key(mk));
        std::vector<std::string> keys;
        for (auto& kv : db) keys.push_back(raw(sse::tethys::details::derive_core_key(prf.prf(kv.first), 0)));
        check_table(dir("table"), P, sec, keys, "tethys");
        size_t n = vt::slurp(dir("table")).size();
        if (k) VT_CHECK(n == size, "size:tethys", "the table has %zu bytes for one database and %zu for another of the same declared size", size, n);
        size = n;
    }
    vt::count("tables_compared");
}

template<size_t P>
static void pluto_page(long idx, Rng& r)
{
    using Par             = sse::pluto::DefaultPlutoParams<P>;
    using Builder         = sse::pluto::PlutoBuilder<Par>;
    constexpr size_t kLen = Par::kPlutoListLength;
    size_t           total = r.range(1, 8 * kLen), tail = total * 2 + 10;
    size_t           blocks = (total + kLen - 1) / kLen, capacity = blocks + r.below(4);
    vt::begin_case(idx, vt::fmt("what the server of pluto sees: page=%zu entries=%zu", P, total));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    vt::Quiet     quiet;
    StreamMonitor mon;
    size_t        size = 0, csize = 0, used = 0;
    int           first = static_cast<int>(r.below(4)), done = 0;
    for (int k = 0; k < 2; k++) {
        vt::CaseDir dir(idx);
        Secrets     sec;
        Db          db = database(r, k && r.chance(30) ? r.range(0, total) : total, (first + k) % 4, kLen, sec);
        Bytes       mk = bytes32(r), ek = bytes32(r);
        bool        threw = vt::throws([&] {
            TethysStoreBuilderParam      p{dir("table"), dir("stash"), tail, 0.3};
            sse::oceanus::CuckooBuilderParam c;
            c.value_file_path   = dir("cuckoo.tmp");
            c.cuckoo_table_path = dir("cuckoo");
            c.max_n_elements    = capacity;
            c.epsilon           = 1.;
            c.max_search_depth  = 200;
            Builder b(total, p, c, key(mk), ek);
            for (auto& kv : db) b.insert_list(kv.first, std::list<uint64_t>(kv.second.begin(), kv.second.end()));
            b.build();
        });
        if (threw) { // (a cuckoo table may not fit: it is then made again with other keys)
            vt::count("unlucky_tables");
            continue;
        }
        check_table(dir("table"), P, sec, {}, "pluto");
        // the blocks that are full
        std::string t = vt::slurp(dir("cuckoo")), why;
        Secrets     full, rest; // (the documents of complete blocks are a known finding)
        rest.keywords = sec.keywords;
        for (auto& kv : db)
            for (size_t i = 0; i < kv.second.size(); i++) (i / kLen < kv.second.size() / kLen ? full : rest).doc(kv.second[i]);
        VT_CHECK(!full.in(t, &why), "in_clear:pluto:full_blocks", "the table of the full blocks: %s", why.c_str());
        VT_CHECK(!rest.in(t, &why), "in_clear:pluto:cuckoo_table", "the table of the full blocks: %s", why.c_str());
        std::map<std::string, size_t> heads;
        for (size_t i = 0; i + P <= t.size(); i += P) heads[t.substr(i, 16)]++;
        size_t most = 0;
        for (auto& h : heads) most = std::max(most, h.second);
        size_t now = heads.size() - (most > 1 ? 1 : 0); // (the empty ones share a head)
        size_t n   = vt::slurp(dir("table")).size();
        if (done++) {
            VT_CHECK(n == size && t.size() == csize, "size:pluto", "tables of %zu and %zu bytes for one database, %zu and %zu for another", size, csize, n,
                     t.size());
            VT_CHECK(now == used, "full_blocks:pluto", "%zu full blocks for one database, %zu for another of the same size", used, now);
            vt::count("tables_compared");
        }
        size  = n;
        csize = t.size();
        used  = now;
    }
}

static void c26(long idx, Rng& r)
{
    switch (idx % 4) {
    case 0: dynamic<SophosS>(idx, r); break;
    case 1: dynamic<DianaS<uint64_t>>(idx, r); break;
    case 2: dynamic<DianaS<Wide>>(idx, r); break;
    default: dynamic<JanusS>(idx, r); break;
    }
}
static void c26static(long idx, Rng& r)
{
    vt_crypto_seed(r.next());
    if (idx % 2) {
        if (r.chance(60)) tethys_page<512>(idx, r);
        else if (r.chance(50)) tethys_page<1024>(idx, r);
        else tethys_page<4096>(idx, r);
    } else {
        if (r.chance(60)) pluto_page<512>(idx, r);
        else if (r.chance(50)) pluto_page<1024>(idx, r);
        else pluto_page<4096>(idx, r);
    }
}

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    const auto& m = vt::opts().mode;
    if (m == "c26") vt::run_cases(vt::opts().thorough ? 4000 : 240, c26);
    else if (m == "c26static") vt::run_cases(vt::opts().thorough ? 3000 : 160, c26static);
    else return 2;
    return vt::finish();
}
