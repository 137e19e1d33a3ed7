// C09, C11: the static encrypted indexes (Tethys, Pluto) against a plain
// inverted index.
#include "aio_order.hpp"
#include "scheme.hpp"

#include <sse/schemes/pluto/pluto_builder.hpp>
#include <sse/schemes/pluto/pluto_client.hpp>
#include <sse/schemes/pluto/pluto_server.hpp>
#include <sse/schemes/pluto/rocksdb_store.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>
#include <sse/schemes/tethys/tethys_server.hpp>

#include <nlohmann/json.hpp>
#include <sse/crypto/random.hpp>

using namespace sse;
using namespace sse::tethys;
using vt::Rng;
using List = std::vector<uint64_t>;
using Db   = std::map<std::string, List>;

using Bytes = std::array<uint8_t, 32>;
static Bytes bytes32(Rng& r)
{
    Bytes b;
    for (auto& x : b) x = static_cast<uint8_t>(r.next());
    return b;
}
// (a key erases the bytes it is made from)
static crypto::Key<32> key(Bytes b)
{
    return crypto::Key<32>(b.data());
}

// a keyword that is not in the database yet
static std::string keyword(Rng& r, const Db& db, bool printable)
{
    for (size_t k = 0;; k++) {
        std::string s;
        switch (k > 30 ? 0 : r.below(8)) {
        case 0: s = "kw" + std::to_string(r.next()); break;
        case 1: s = r.chance(30) ? "" : std::string(1, char('a' + r.below(26))); break;
        case 2: s = db.empty() ? "prefix" : db.begin()->first + "x"; break; // extends another one
        case 3: s = std::string(r.range(1, 3000), 'a'); break;
        case 4: s = printable ? "k\"e\\y\n" + std::to_string(r.below(99)) : std::string("a\0b", 3) + char(r.next()); break;
        case 5: s = printable ? "\xc3\xa9t\xc3\xa9" + std::to_string(r.below(99)) : r.bytes(r.range(1, 40)); break;
        case 6: s = db.empty() ? "k" : db.rbegin()->first.substr(0, db.rbegin()->first.size() / 2); break;
        default: s = "word_" + std::to_string(r.below(500));
        }
        if (printable)
            for (auto& c : s)
                if (static_cast<unsigned char>(c) >= 0x80 && k > 10) c = '?';
        if (printable) { // must be valid text
            try {
                (void)nlohmann::json(s).dump();
            } catch (...) {
                continue;
            }
        }
        if (!db.count(s)) return s;
    }
}

// list lengths around the boundaries of the blocks
static size_t list_length(Rng& r, int shape, size_t m)
{
    switch (shape) {
    case 0: return r.below(4);
    case 1: return m - 1 + r.below(3);
    case 2: return m * r.range(1, 3) + r.below(3) - 1;
    case 3: return r.below(3 * m + 2);
    case 4: return r.chance(85) ? r.below(6) : m * r.range(1, 5);
    case 5: return m * r.range(0, 3);
    default: return r.chance(90) ? r.range(1, 3) : m * r.range(4, 9) + r.below(m);
    }
}

static Db make_db(Rng& r, size_t m, size_t nkw, bool json, int shape)
{
    Db       db;
    uint64_t tag   = r.below(2) ? 0 : r.next();
    bool     odd   = r.chance(30); // documents that look like headers, repetitions
    for (size_t i = 0; i < nkw; i++) {
        std::string w = keyword(r, db, json);
        List        l(list_length(r, shape, m));
        for (auto& d : l) {
            d = ++tag;
            if (odd && r.chance(40)) d = r.chance(30) ? 0 : r.chance(30) ? ~0ULL : r.below(5);
            if (json) d = static_cast<uint32_t>(d);
        }
        db[w] = l;
    }
    const auto& mode = vt::opts().mode;
    if (mode.size() > 5 && mode.substr(mode.size() - 5) == "scale") { // a list longer than small integers count
        List l(65536 + r.below(2000));
        for (auto& d : l) d = json ? static_cast<uint32_t>(++tag) : ++tag;
        db[keyword(r, db, json)] = l;
        vt::count("very_long_lists");
    }
    return db;
}

static void write_json(const std::string& path, const Db& db, Rng& r)
{
    nlohmann::json j = nlohmann::json::object();
    for (auto& kv : db) j[kv.first] = kv.second;
    vt::spew(path, r.chance(50) ? j.dump() : j.dump(2));
}

static void compare(const std::string& w, const List& want, const List& got, bool known, const char* how)
{
    if (vt::sorted(want) == vt::sorted(got)) return;
    vt::fail(std::string("wrong_result:") + how,
             vt::fmt("%s: keyword of %zu bytes%s, list of %zu: %s", how, w.size(), known ? "" : " (never inserted)", want.size(),
                     vt::diff(want, got).c_str()));
}

// the keywords to search: all of the database, and some that are not in it
static std::vector<std::pair<std::string, bool>> probes(Rng& r, const Db& db)
{
    std::vector<std::pair<std::string, bool>> p;
    for (auto& kv : db) p.emplace_back(kv.first, true);
    size_t n = p.size();
    for (size_t i = 0; i < 6; i++) p.emplace_back(keyword(r, db, false), false);
    for (size_t i = 0; i < 4 && n; i++) {
        std::string s = p[r.below(n)].first;
        if (r.chance(50)) s.push_back('\0');
        else if (!s.empty()) s[r.below(s.size())] ^= char(1 << r.below(8));
        if (!db.count(s)) p.emplace_back(s, false);
    }
    r.shuffle(p);
    return p;
}

template<size_t P>
static void c09_page(long idx, Rng& r)
{
    using Enc     = encoders::EncodeSeparateEncoder<tethys_core_key_type, index_type, P>;
    using Dec     = encoders::EncodeSeparateDecoder<tethys_core_key_type, index_type, P>;
    using Builder = TethysBuilder<P, Enc, Enc>;
    using Client  = TethysClient<Dec>;
    using Server  = TethysServer<tethys_server_store_type<P>>;
    constexpr size_t kMax = Builder::tethys_store_type::kMaxListSize;

    vt::Quiet   quiet;
    vt::CaseDir dir(idx);
    int         shape = static_cast<int>(r.below(7));
    bool        json  = r.chance(25);
    size_t      nkw   = r.chance(15) ? r.below(3) : r.range(1, P >= 4096 ? 16 : 50);
    if (vt::opts().thorough && r.chance(30)) nkw *= 4;
    Db     db    = make_db(r, kMax, nkw, json, shape);
    size_t total = 0;
    for (auto& kv : db) total += kv.second.size() + (kv.second.size() / kMax + 1) * Enc::kListControlValues;
    size_t declared = r.chance(50) ? total : r.chance(50) ? total / r.range(1, 6) : r.chance(30) ? 0 : total * 2;
    double epsilon  = std::vector<double>{0., 0.1, 0.3, 1.}[r.below(4)];
    vt::begin_case(idx, vt::fmt("tethys page=%zu keywords=%zu shape=%d json=%d declared=%zu of %zu eps=%.1f", P, nkw, shape, json,
                                declared, total, epsilon));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 3) vt::sample(vt::st().casedesc);

    Bytes mk = bytes32(r), ek = bytes32(r);
    if (r.chance(15)) vt::spew(dir("stash"), r.bytes(r.below(100))); // left over
    {
        TethysStoreBuilderParam p{dir("table"), dir("stash"), declared, epsilon};
        Builder                 b(p, dir("counters"), key(mk), ek);
        if (r.chance(20)) {
            VT_CHECK(!b.load_inverted_index(dir("nofile.json")), "missing_file_loaded", "%s", "a missing file was loaded");
        }
        if (json) {
            write_json(dir("db.json"), db, r);
            VT_CHECK(b.load_inverted_index(dir("db.json")), "json_refused", "%s", "a well-formed index was refused");
            vt::count("json_databases");
        } else {
            for (auto& kv : db) b.insert_list(kv.first, std::list<uint64_t>(kv.second.begin(), kv.second.end()));
        }
        b.build();
        VT_CHECK(vt::throws([&] { b.build(); }), "second_build_accepted", "%s", "");
    }
    vt::count(vt::exists(dir("stash")) ? "with_client_stash" : "without_client_stash");

    size_t rounds = r.range(1, 2);
    for (size_t round = 0; round < rounds; round++) {
        Client client(dir("counters"), dir("stash"), key(mk), ek);
        Server server(dir("table"));
        vt::count("openings");
        auto probe = probes(r, db);
        auto search_one = [&](const std::string& w, bool known, const char* how) {
            auto it   = db.find(w);
            List want = it == db.end() ? List() : it->second;
            auto req  = client.search_request(w, false);
            auto got  = client.decode_search_results(req, server.search(req));
            compare(w, want, got, known, how);
            vt::eval();
            vt::count(known ? "searches_known" : "searches_unknown");
            if (known) {
                if (want.empty()) vt::count("empty_lists");
                else if (want.size() % kMax == 0) vt::count("exact_multiples");
                else if (want.size() > kMax) vt::count("long_lists");
            }
        };
        for (auto& pw : probe) search_one(pw.first, pw.second, "search");
        if (r.chance(30)) {
            // several searches answered at once
            vt::together(r.range(2, 4), [&](size_t t) {
                for (size_t i = t; i < probe.size() && i < 40; i++) search_one(probe[i].first, probe[i].second, "concurrent");
            });
            vt::count("concurrent_rounds");
        }
    }
}
static void c09(long i, Rng& r)
{
    vt_crypto_seed(r.next());
    if (r.chance(60)) c09_page<512>(i, r);
    else if (r.chance(50)) c09_page<1024>(i, r);
    else c09_page<4096>(i, r);
}

// ---------------------------------------------------------------------------

template<class Params>
struct Ht;
template<size_t P>
struct Ht<pluto::DefaultPlutoParams<P>>
{
    static constexpr bool cuckoo = true;
    using Par                    = pluto::DefaultPlutoParams<P>;
    int                   opt;
    explicit Ht(Rng& r) : opt(static_cast<int>(r.below(3)))
    {
    }
    typename Par::ht_builder_type::param_type build(const vt::CaseDir& d, size_t blocks) const
    {
        oceanus::CuckooBuilderParam c;
        c.value_file_path   = d("cuckoo.tmp");
        c.cuckoo_table_path = d("cuckoo");
        c.max_n_elements    = blocks;
        c.epsilon           = opt == 0 ? 0.3 : opt == 1 ? 0.1 : 1.;
        c.max_search_depth  = 200;
        return c;
    }
    typename Par::ht_type::param_type open(const vt::CaseDir& d) const
    {
        return d("cuckoo");
    }
};
template<size_t P>
struct Ht<pluto::RocksDBPlutoParams<P>>
{
    static constexpr bool           cuckoo = false;
    pluto::GenericRocksDBStoreParams p;
    explicit Ht(Rng& r)
    {
        p.rocksdb_options = r.chance(50) ? pluto::GenericRocksDBStoreParams::make_rocksdb_cuckoo_options()
                                         : pluto::GenericRocksDBStoreParams::make_rocksdb_regular_table_options();
    }
    pluto::GenericRocksDBStoreParams build(const vt::CaseDir& d, size_t)
    {
        p.path = d("full_blocks");
        return p;
    }
    pluto::GenericRocksDBStoreParams open(const vt::CaseDir&) const
    {
        return p;
    }
};

template<size_t P>
static void ht_open_regular(Ht<pluto::RocksDBPlutoParams<P>>& h, const pluto::GenericRocksDBStoreParams& p)
{
    h.p = p;
}
template<size_t P>
static void ht_open_regular(Ht<pluto::DefaultPlutoParams<P>>&, const pluto::GenericRocksDBStoreParams&)
{
}

template<class Par>
static void c11_params(long idx, Rng& r, const char* name)
{
    using Dec     = encoders::EncodeSeparateDecoder<tethys_core_key_type, index_type, Par::kPageSize>;
    using Builder = pluto::PlutoBuilder<Par>;
    using Client  = pluto::PlutoClient<Dec>;
    using Server  = pluto::PlutoServer<Par>;
    constexpr size_t kLen = Par::kPlutoListLength;

    vt::Quiet quiet;
    int       shape = static_cast<int>(r.below(7));
    bool      json  = r.chance(20);
    size_t    nkw   = r.chance(15) ? r.below(3) : r.range(1, Par::kPageSize >= 4096 ? 10 : 40);
    if (vt::opts().thorough && r.chance(30)) nkw *= 3;
    Db     db    = make_db(r, kLen, nkw, json, shape);
    size_t total = 0, tail = 0, blocks = 0;
    for (auto& kv : db) {
        total += kv.second.size();
        blocks += kv.second.size() / kLen;
        if (kv.second.size() % kLen) tail += kv.second.size() % kLen + Par::tethys_encoder_type::kListControlValues;
    }
    int    dk       = static_cast<int>(r.below(6)); // how the sizes are declared
    size_t declared = dk < 3 ? total : dk == 3 ? total + r.below(total + 1) : dk == 4 ? total / r.range(2, 6) : 0;
    size_t capacity = std::max((declared + kLen - 1) / kLen, dk < 4 || r.chance(70) ? blocks : size_t(0));
    if (r.chance(20)) tail /= r.range(1, 5);
    vt::begin_case(idx, vt::fmt("pluto %s keywords=%zu shape=%d json=%d entries=%zu declared=%zu blocks=%zu capacity=%zu", name, nkw,
                                shape, json, total, declared, blocks, capacity));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 3) vt::sample(vt::st().casedesc);

    bool enough = capacity >= blocks && capacity >= (declared + kLen - 1) / kLen && capacity > 0;
    for (int attempt = 0;; attempt++) {
        vt::CaseDir dir(idx);
        Ht<Par>     ht(r);
        Bytes       mk = bytes32(r), ek = bytes32(r);
        std::string why;
        bool        threw = vt::throws(
            [&] {
                TethysStoreBuilderParam p{dir("table"), dir("stash"), tail, 0.3};
                Builder                 first(declared, p, ht.build(dir, capacity), key(mk), ek);
                std::unique_ptr<Builder> moved;
                Builder*                 b = &first;
                if (r.chance(30)) {
                    moved.reset(new Builder(std::move(first)));
                    b = moved.get();
                    vt::count("moved_builders");
                }
                if (r.chance(20)) VT_CHECK(!b->load_inverted_index(dir("nofile.json")), "missing_file_loaded", "%s", "");
                if (json) {
                    write_json(dir("db.json"), db, r);
                    // (a failed insertion is reported by the result)
                    if (!b->load_inverted_index(dir("db.json"))) throw std::runtime_error("the index was refused");
                    vt::count("json_databases");
                } else {
                    for (auto& kv : db) b->insert_list(kv.first, std::list<uint64_t>(kv.second.begin(), kv.second.end()));
                }
                b->build();
                vt::count("full_blocks", blocks);
            },
            &why);
        if (threw) {
            // a cuckoo table can be unlucky, or declared too small; nothing else
            vt::count("builds_refused");
            VT_CHECK(Ht<Par>::cuckoo, "build_failed", "the builder failed: %s", why.c_str());
            if (!Ht<Par>::cuckoo) return;
            if (!enough) return;
            VT_CHECK(attempt < 6, "build_never_succeeds", "six builds with different keys failed: %s", why.c_str());
            if (attempt >= 6) return;
            continue;
        }
        vt::count(vt::exists(dir("stash")) ? "with_client_stash" : "without_client_stash");
        size_t rounds = r.range(1, 2);
        for (size_t round = 0; round < rounds; round++) {
            Client client(dir("stash"), key(mk), ek);
            Server server(dir("table"), ht.open(dir));
            vt::count("openings");
            auto search_one = [&](const std::string& w, bool known, const char* how) {
                auto it   = db.find(w);
                List want = it == db.end() ? List() : it->second;
                auto req  = client.search_request(w);
                List got  = client.decode_search_results(req, server.search(req));
                compare(w, want, got, known, how);
                vt::eval();
                vt::count(known ? "searches_known" : "searches_unknown");
                if (known) {
                    if (want.empty()) vt::count("empty_lists");
                    else if (want.size() % kLen == 0) vt::count("exact_multiples");
                    else if (want.size() > kLen) vt::count("long_lists");
                }
            };
            auto probe = probes(r, db);
            for (auto& pw : probe) search_one(pw.first, pw.second, "search");
            if (r.chance(30)) {
                vt::together(r.range(2, 4), [&](size_t t) {
                    for (size_t i = t; i < probe.size() && i < 30; i++) search_one(probe[i].first, probe[i].second, "concurrent");
                });
                vt::count("concurrent_rounds");
            }
        }
        break;
    }
}
static void c11(long i, Rng& r)
{
    vt_crypto_seed(r.next());
    switch (r.below(6)) {
    case 0:
    case 1: c11_params<pluto::DefaultPlutoParams<512>>(i, r, "cuckoo512"); break;
    case 2: c11_params<pluto::DefaultPlutoParams<4096>>(i, r, "cuckoo4096"); break;
    case 3: c11_params<pluto::RocksDBPlutoParams<4096>>(i, r, "rocksdb4096"); break;
    default: c11_params<pluto::RocksDBPlutoParams<512>>(i, r, "rocksdb512"); break;
    }
}

// C21: a server and a client on damaged files
template<class Par>
static void c21_pluto(long idx, Rng& r, const char* name)
{
    using Dec     = encoders::EncodeSeparateDecoder<tethys_core_key_type, index_type, Par::kPageSize>;
    using Builder = pluto::PlutoBuilder<Par>;
    using Client  = pluto::PlutoClient<Dec>;
    using Server  = pluto::PlutoServer<Par>;
    constexpr size_t kLen = Par::kPlutoListLength;
    vt::Quiet   quiet;
    vt::CaseDir dir(idx);
    Db          db     = make_db(r, kLen, r.range(1, 8), false, static_cast<int>(r.below(7)));
    size_t      total  = 0;
    for (auto& kv : db) total += kv.second.size();
    Ht<Par>     ht(r);
    Bytes       mk = bytes32(r), ek = bytes32(r);
    int         how = static_cast<int>(r.below(4));
    vt::begin_case(idx, vt::fmt("damaged pluto %s keywords=%zu entries=%zu damage=%d", name, db.size(), total, how));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 3) vt::sample(vt::st().casedesc);
    if (vt::throws([&] {
            TethysStoreBuilderParam p{dir("table"), dir("stash"), total, 0.3};
            Builder                 b(total, p, ht.build(dir, total / kLen + 2), key(mk), ek);
            for (auto& kv : db) b.insert_list(kv.first, std::list<uint64_t>(kv.second.begin(), kv.second.end()));
            b.build();
        }))
        return;
    // keywords whose own data is untouched
    std::set<std::string> clean;
    if (how == 0 && !Ht<Par>::cuckoo) {
        rocksdb::Options o = pluto::GenericRocksDBStoreParams::make_rocksdb_regular_table_options();
        o.create_if_missing = true;
        pluto::GenericRocksDBStoreParams raw{dir("other_blocks"), o};
        // the same blocks, some of them shorter or longer
        {
            rocksdb::DB* d = nullptr;
            if (!rocksdb::DB::Open(o, raw.path, &d).ok()) return;
            std::unique_ptr<rocksdb::DB> own(d);
            auto                         prf = tethys::master_prf_type(key(mk));
            for (auto& kv : db) {
                bool touched = false;
                for (size_t b = 0; b < kv.second.size() / kLen; b++) {
                    auto        k = tethys::details::derive_core_key(prf.prf(kv.first), b + 1);
                    std::string v(reinterpret_cast<const char*>(kv.second.data() + b * kLen), kLen * 8);
                    if (r.chance(30)) {
                        v.resize(r.chance(50) ? r.below(v.size()) : v.size() + r.range(1, 4000));
                        touched = true;
                        vt::count("damaged_blocks");
                    }
                    own->Put(rocksdb::WriteOptions(), rocksdb::Slice(reinterpret_cast<const char*>(k.data()), k.size()), v);
                }
                if (!touched) clean.insert(kv.first);
            }
        }
        ht = Ht<Par>(r);
        ht_open_regular(ht, raw);
    } else {
        std::string f = dir(how == 1 && Ht<Par>::cuckoo ? "cuckoo" : how == 2 ? "stash" : "table");
        std::string s = vt::slurp(f);
        if (r.chance(30)) {
            s.resize(s.size() ? r.below(s.size()) : 0);
            vt::count("truncated_files");
        }
        for (size_t i = 0; i < s.size() && i < 4000; i++)
            if (r.chance(3)) s[r.below(s.size())] ^= char(1 << r.below(8));
        if (how == 2 && r.chance(50)) s += r.bytes(r.below(300));
        vt::spew(f, s);
        vt::count("damaged_files");
    }
    std::unique_ptr<Client> client;
    std::unique_ptr<Server> server;
    if (vt::throws([&] {
            client.reset(new Client(dir("stash"), key(mk), ek));
            server.reset(new Server(dir("table"), ht.open(dir)));
        })) {
        vt::count("openings_refused");
        return;
    }
    for (auto& kv : db) {
        List got;
        bool thr = vt::throws([&] {
            auto req = client->search_request(kv.first);
            got      = client->decode_search_results(req, server->search(req));
        });
        vt::count(thr ? "searches_refused" : "searches_on_damaged_index");
        vt::eval();
        if (clean.count(kv.first)) {
            VT_CHECK(!thr, "untouched_refused", "%s", "a search whose data is undamaged failed");
            if (!thr) compare(kv.first, kv.second, got, true, "next_to_damage");
            vt::count("searches_next_to_damage");
        }
    }
}
static void c21pluto(long i, Rng& r)
{
    vt_crypto_seed(r.next());
    switch (r.below(3)) {
    case 0: c21_pluto<pluto::DefaultPlutoParams<512>>(i, r, "cuckoo512"); break;
    default: c21_pluto<pluto::RocksDBPlutoParams<512>>(i, r, "rocksdb512"); break;
    }
}

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    if (!getenv("VT_LOG")) sse::logger::set_logging_level(spdlog::level::off);
    const auto& m = vt::opts().mode;
    if (m == "c09scale") vt::run_cases(vt::opts().thorough ? 40 : 6, c09);
    else if (m == "c11scale") vt::run_cases(vt::opts().thorough ? 40 : 6, c11);
    else if (m == "c09") vt::run_cases(vt::opts().thorough ? 4000 : 240, c09);
    else if (m == "c11") vt::run_cases(vt::opts().thorough ? 3000 : 200, c11);
    else if (m == "c21pluto") vt::run_cases(vt::opts().thorough ? 3000 : 160, c21pluto);
    else return 2;
    return vt::finish();
}
