// C25: the client and server runners of Sophos and Diana, over a stand-in for
// gRPC that loses calls and breaks streams, against a multimap.
#include "dyn.hpp"

#include "protos/diana.grpc.pb.h"
#include "protos/sophos.grpc.pb.h"
#define SOPHOS_CLIENT_RUNNER_CPP
#define DIANA_CLIENT_RUNNER_CPP
#include <sse/runners/diana/client_runner.hpp>
#include <sse/runners/diana/server_runner.hpp>
#include <sse/runners/sophos/sophos_client_runner.hpp>
#include <sse/runners/sophos/sophos_server_runner.hpp>

#include <nlohmann/json.hpp>

using namespace dyn;

void vt_crypto_seed(uint64_t s);

struct SophosT
{
    using Client = sse::sophos::SophosClientRunner;
    using Server = sse::sophos::SophosServerRunner;
    using Rpc    = sse::sophos::Sophos;
    using Setup  = sse::sophos::SetupMessage;
    using Search = sse::sophos::SearchRequestMessage;
    using Reply  = sse::sophos::SearchReply;
    using Update = sse::sophos::UpdateRequestMessage;
    static constexpr const char* name = "sophos";
    static std::vector<std::string> key_files() { return {"tdp_sk.key", "derivation_master.key", "rsa_prg.key"}; }
    static std::string              server_key() { return "tdp_pk.key"; }
    // a request no client makes
    static Search bad_search(Rng& r)
    {
        Search      m;
        size_t      t = sse::sophos::kSearchTokenSize, d = sse::sophos::kDerivationKeySize;
        size_t      v[] = {0, 1, t - 1, t + 1, t + 4096};
        size_t      u[] = {0, 1, d - 1, d + 1, d + 4096};
        unsigned    k = static_cast<unsigned>(r.below(3));
        m.set_search_token(r.bytes(k != 1 ? v[r.below(5)] : t));
        m.set_derivation_key(r.bytes(k != 0 ? u[r.below(5)] : d));
        m.set_add_count(static_cast<uint32_t>(r.below(60)));
        return m;
    }
    static size_t token_size() { return sse::sophos::kUpdateTokenSize; }
    static void   bad_setup(Setup& m, Rng& r) { m.set_public_key(r.bytes(r.below(40))); }
    static void   session_list(Client& c, const std::list<std::pair<std::string, uint64_t>>& l)
    {
        for (auto& e : l) c.insert_in_session(e.first, e.second);
    }
};
struct DianaT
{
    using Client = sse::diana::DianaClientRunner;
    using Server = sse::diana::DianaServerRunner;
    using Rpc    = sse::diana::Diana;
    using Setup  = sse::diana::SetupMessage;
    using Search = sse::diana::SearchRequestMessage;
    using Reply  = sse::diana::SearchReply;
    using Update = sse::diana::UpdateRequestMessage;
    static constexpr const char* name = "diana";
    static std::vector<std::string> key_files() { return {"master_derivation.key", "kw_token_master.key", "wrapping.key"}; }
    static std::string              server_key() { return "wrapping.key"; }
    static Search bad_search(Rng& r)
    {
        Search m;
        m.set_kw_token(r.bytes(std::vector<size_t>{0, 1, 15, 16, 17, 31, 32, 33, 4096}[r.below(9)]));
        m.set_constrained_rcprf_rep(r.bytes(r.below(300)));
        m.set_add_count(static_cast<uint32_t>(r.below(60)));
        return m;
    }
    static size_t token_size() { return sse::diana::kUpdateTokenSize; }
    static void   bad_setup(Setup& m, Rng& r) { m.set_wrapping_key(r.bytes(r.chance(50) ? r.below(32) : 33 + r.below(100))); }
    static void   session_list(Client& c, const std::list<std::pair<std::string, uint64_t>>& l) { c.insert_in_session(l); }
};

template<class T>
struct World
{
    vt::CaseDir                          dir;
    std::string                          address;
    std::unique_ptr<typename T::Client>  client;
    std::unique_ptr<typename T::Server>  server;
    bool                                 async{true};
    std::map<std::string, List>          sure, maybe; // acknowledged; perhaps there
    std::mutex                           mm;

    explicit World(long idx) : dir(idx), address("host:" + std::to_string(idx)) {}
    ~World()
    {
        client.reset();
        server.reset();
    }
    void open_server(Rng& r)
    {
        server.reset();
        if (r.chance(50)) server.reset(new typename T::Server(address, dir("server")));
        else {
            grpc::ServerBuilder b;
            b.AddListeningPort(address, grpc::InsecureServerCredentials());
            server.reset(new typename T::Server(b, dir("server")));
        }
        server->set_async_search(async);
    }
    std::shared_ptr<grpc::Channel> channel() { return grpc::CreateChannel(address, grpc::InsecureChannelCredentials()); }
    void open_client()
    {
        client.reset();
        client.reset(new typename T::Client(channel(), dir("client")));
    }
    List known(const std::string& w)
    {
        std::lock_guard<std::mutex> g(mm);
        return sure[w];
    }
    List allowed(const std::string& w)
    {
        std::lock_guard<std::mutex> g(mm);
        List l = sure[w];
        l.insert(l.end(), maybe[w].begin(), maybe[w].end());
        return l;
    }
    void add(const std::string& w, uint64_t d, bool certain)
    {
        std::lock_guard<std::mutex> g(mm);
        (certain ? sure : maybe)[w].push_back(d);
    }
    // what is under way is there in the end
    void settle(std::map<std::string, List>& l)
    {
        std::lock_guard<std::mutex> g(mm);
        for (auto& e : l) {
            auto& m = maybe[e.first];
            for (uint64_t d : e.second) {
                auto it = std::find(m.begin(), m.end(), d);
                if (it != m.end()) m.erase(it);
                sure[e.first].push_back(d);
            }
        }
        l.clear();
    }
    void search(const std::string& w, bool partial = false)
    {
        List low = partial ? List() : known(w), cb;
        auto l   = client->search(w, [&](uint64_t v) { cb.push_back(v); });
        List got(l.begin(), l.end()), high = allowed(w);
        VT_CHECK(cb == got, "callback", "%s: %s", T::name, vt::diff(got, cb).c_str());
        std::sort(got.begin(), got.end());
        std::sort(low.begin(), low.end());
        std::sort(high.begin(), high.end());
        bool all = std::includes(got.begin(), got.end(), low.begin(), low.end());
        bool only = std::includes(high.begin(), high.end(), got.begin(), got.end());
        VT_CHECK(all, std::string("missing:") + T::name, "keyword of %zu bytes, asynchronous=%d: %s", w.size(), async, vt::diff(low, got).c_str());
        VT_CHECK(only, std::string("invented:") + T::name, "keyword of %zu bytes, asynchronous=%d: %s", w.size(), async,
                 vt::diff(high, got).c_str());
        vt::count(low.empty() ? "searches_unknown" : "searches_known");
        vt::count(async ? "searches_async" : "searches_sync");
        vt::maximum("matches", got.size());
        vt::eval();
    }
};

// the plan of the network: what happens to the next calls
static std::mutex  g_plan_m;
static grpc::vt::Loss g_loss;
static void lose(grpc::vt::Loss l)
{
    std::lock_guard<std::mutex> g(g_plan_m);
    g_loss = l;
}

template<class T>
static void refused_requests(World<T>& w, Rng& r, bool set_up)
{
    auto stub = T::Rpc::NewStub(w.channel());
    for (int i = 0; i < 3; i++) {
        grpc::ClientContext     ctx;
        google::protobuf::Empty e;
        grpc::Status            s;
        unsigned                k = static_cast<unsigned>(r.below(set_up ? 4 : 5));
        const char*             what = "";
        if (k == 0) {
            what           = "an update token of another length";
            typename T::Update u;
            size_t n = T::token_size(), v[] = {0, 1, n - 1, n + 1, n + 16, 4096};
            u.set_update_token(r.bytes(v[r.below(6)]));
            u.set_index(r.next());
            s = stub->insert(&ctx, u, &e);
        } else if (k == 1) {
            what           = "a damaged search request";
            auto rd = stub->search(&ctx, T::bad_search(r));
            typename T::Reply rep;
            size_t            n = 0;
            while (rd->Read(&rep)) n++;
            s = rd->Finish();
            VT_CHECK(n == 0, "reply_to_damaged_request", "%s: %zu replies", T::name, n);
        } else if (k == 2) {
            what           = "an update token of another length in a session";
            auto wr = stub->bulk_insert(&ctx, &e);
            typename T::Update u;
            u.set_update_token(r.bytes(T::token_size() + 1 + r.below(300)));
            u.set_index(r.next());
            wr->Write(u);
            wr->WritesDone();
            s = wr->Finish();
        } else if (k == 3) {
            what = "a setup of another kind";
            typename T::Setup m;
            T::bad_setup(m, r);
            // (a public key cannot be told from garbage by its length)
            if (!set_up && T::name[0] == 's') continue;
            s = stub->setup(&ctx, m, &e);
        } else {
            what = "an update before the setup";
            typename T::Update u;
            u.set_update_token(r.bytes(T::token_size()));
            s = stub->insert(&ctx, u, &e);
        }
        VT_CHECK(!s.ok(), std::string("accepted:") + T::name, "%s (set up: %d) was answered with OK", what, set_up);
        vt::count(set_up ? "refused_requests" : "refused_before_setup");
        vt::eval();
    }
}

template<class T>
static void history(long idx, Rng& r)
{
    vt_crypto_seed(r.next());
    g_hw        = r.chance(5) ? 256 : r.chance(5) ? 0 : processors(r);
    size_t nkw  = r.range(1, 6), nops = r.range(4, vt::opts().thorough ? 60 : 24);
    bool   loss = r.chance(35);
    vt::begin_case(idx, vt::fmt("runners of %s keywords=%zu ops=%zu processors=%u losses=%d", T::name, nkw, nops, g_hw.load(), loss));
    vt::distinct(vt::hash(&r.s, sizeof r.s));
    if (idx < 4) vt::sample(vt::st().casedesc);
    vt::Quiet quiet;
    World<T>  w(idx);
    lose({});
    auto                  kws = keywords(r, nkw + 2);
    std::vector<std::string> jkw;
    for (int i = 0; i < 4; i++) jkw.push_back("json" + std::to_string(i));
    std::atomic<uint64_t> tag{0};
    auto doc = [&](Rng& q) -> uint64_t { return q.chance(60) ? ++tag : q.chance(50) ? q.below(4) : q.chance(20) ? ~0ULL : q.next(); };

    w.async = r.chance(60);
    w.open_server(r);
    if (r.chance(30)) refused_requests(w, r, false);
    if (r.chance(10)) { // nobody answers
        w.server->shutdown();
        w.server.reset();
        VT_CHECK(vt::throws([&] { w.open_client(); }), "setup_without_server", "%s", T::name);
        vt::CaseDir::wipe(w.dir("client"));
        w.open_server(r);
        vt::count("setups_without_server");
    }
    w.open_client();
    for (size_t o = 0; o < nops; o++) {
        const std::string& k = kws[r.below(nkw)];
        unsigned           c = static_cast<unsigned>(r.below(100));
        if (c < 25) {
            size_t n = r.chance(20) ? r.range(2, 60) : 1;
            for (size_t i = 0; i < n; i++) {
                uint64_t d = doc(r);
                w.client->insert(k, d);
                w.add(k, d, true);
                vt::count("insertions");
            }
        } else if (c < 30 && loss) { // a lost update
            uint64_t       d = doc(r);
            grpc::vt::Loss l;
            (r.chance(50) ? l.request : l.reply) = true;
            lose(l);
            w.client->insert(k, d);
            lose({});
            if (l.reply) w.add(k, d, false);
            vt::count(l.reply ? "lost_replies" : "lost_requests");
        } else if (c < 35 && loss) { // a lost search, or its results
            grpc::vt::Loss l;
            if (r.chance(50)) l.request = true;
            else l.stream = static_cast<long>(r.below(8));
            lose(l);
            w.search(k, true);
            lose({});
            vt::count("broken_searches");
        } else if (c < 52) { // a session, of several threads
            std::map<std::string, List> mine;
            grpc::vt::Loss              l;
            if (loss && r.chance(30)) l.stream = static_cast<long>(r.below(30));
            lose(l);
            w.client->start_update_session();
            lose({});
            if (r.chance(10)) w.client->start_update_session();
            uint64_t   seed = r.next();
            size_t     nt   = r.range(1, 4);
            std::mutex m;
            vt::together(nt, [&](size_t t) {
                Rng q(seed + t);
                for (size_t i = 0; i < 8; i++) {
                    const std::string& x = q.chance(60) ? k : kws[q.below(nkw)];
                    if (q.chance(15)) {
                        w.search(x, false);
                        vt::count("searches_during_a_session");
                        continue;
                    }
                    std::list<std::pair<std::string, uint64_t>> list;
                    size_t n = q.chance(60) ? 1 : q.range(0, 12);
                    for (size_t j = 0; j < n; j++) {
                        list.emplace_back(q.chance(80) ? x : kws[q.below(nkw)], doc(q));
                        w.add(list.back().first, list.back().second, false);
                        std::lock_guard<std::mutex> g(m);
                        mine[list.back().first].push_back(list.back().second);
                    }
                    if (n == 1 && q.chance(50)) w.client->insert_in_session(list.front().first, list.front().second);
                    else if (n == 1 && nt == 1 && q.chance(50)) w.client->insert(list.front().first, list.front().second);
                    else T::session_list(*w.client, list);
                    vt::count("session_insertions", n);
                }
            });
            if (r.chance(10)) { // the client goes in the middle of a session
                w.client.reset();
                w.open_client();
                vt::count("abandoned_sessions");
            } else {
                w.client->end_update_session();
                if (l.stream < 0) w.settle(mine);
                else vt::count("broken_sessions");
            }
            vt::count("sessions");
        } else if (c < 58) { // a JSON file
            nlohmann::json j = nlohmann::json::object();
            std::map<std::string, List> mine;
            size_t n = r.below(5);
            for (size_t i = 0; i < n; i++) {
                auto& x = jkw[r.below(jkw.size())];
                if (j.count(x)) continue;
                j[x] = nlohmann::json::array();
                size_t len = r.chance(20) ? 0 : r.range(1, 30);
                for (size_t t = 0; t < len; t++) {
                    uint32_t d = static_cast<uint32_t>(doc(r));
                    j[x].push_back(d);
                    mine[x].push_back(d);
                }
            }
            std::string text = j.dump();
            bool        bad  = r.chance(25);
            if (bad) {
                text += "]"; // not JSON: nothing of it may be inserted, or all
                if (r.chance(50)) text = "";
                for (auto& e : mine)
                    for (uint64_t d : e.second) w.add(e.first, d, false);
            }
            vt::spew(w.dir("db.json"), text);
            bool ok = w.client->load_inverted_index(w.dir("db.json"));
            VT_CHECK(ok == !bad, "load_result", "%s: loading %s file: %d", T::name, bad ? "a damaged" : "a good", ok);
            if (!bad) w.settle(mine);
            VT_CHECK(!w.client->load_inverted_index(w.dir("nofile")), "load_result", "%s: a missing file was loaded", T::name);
            // (whatever happened, updates go on as before)
            uint64_t d = doc(r);
            w.client->insert(k, d);
            w.add(k, d, true);
            vt::count(bad ? "damaged_json" : "json");
            for (auto& x : jkw) w.search(x);
        } else if (c < 62) { // out of phase
            w.client->end_update_session();
            VT_CHECK(vt::throws([&] { w.client->insert_in_session(k, 77); }), "session_not_up", "%s", T::name);
            VT_CHECK(vt::throws([&] { T::session_list(*w.client, {{k, 77}, {k, 78}}); }), "session_not_up", "%s (list)", T::name);
            vt::count("out_of_phase");
        } else if (c < 66) { // requests no client makes
            refused_requests(w, r, true);
        } else if (c < 70) { // several searches
            uint64_t seed = r.next();
            vt::together(r.range(2, 4), [&](size_t t) {
                Rng q(seed + t);
                for (int i = 0; i < 3; i++) w.search(kws[q.below(kws.size())]);
            });
            vt::count("concurrent_searches");
        } else if (c < 76) {
            w.async = !w.async;
            w.server->set_async_search(w.async);
        } else if (c < 84) { // restarts
            unsigned which = static_cast<unsigned>(r.range(1, 3));
            if (which & 1) w.client.reset();
            if (which & 2) {
                if (r.chance(50)) w.server->shutdown();
                w.server.reset();
                if (w.client && r.chance(50)) { // the client meets no server
                    w.search(k, true);
                    w.client->insert(k, 5); // lost
                    vt::count("calls_without_server");
                }
                w.open_server(r);
            }
            if (which & 1) w.open_client();
            vt::count("restarts");
        } else {
            w.search(r.chance(85) ? k : kws[nkw + r.below(2)]);
        }
    }
    for (auto& k : kws) w.search(k);
    for (auto& k : jkw) w.search(k);

    // the second setup
    if (r.chance(40)) {
        VT_CHECK(vt::throws([&] { typename T::Client other(w.channel(), w.dir("other")); }), "second_setup", "%s: accepted", T::name);
        for (auto& k : kws) w.search(k);
        vt::count("second_setups");
    }
    // incomplete directories
    w.client.reset();
    w.server.reset();
    if (r.chance(40)) {
        auto        files = T::key_files();
        std::string f = w.dir("client") + "/" + files[r.below(files.size())], s = vt::slurp(f);
        bool        sk = f.find("tdp_sk") != std::string::npos;
        if (r.chance(50) || sk) ::unlink(f.c_str());
        else vt::spew(f, r.chance(50) ? s.substr(0, r.below(s.size())) : s + "x");
        w.open_server(r);
        VT_CHECK(vt::throws([&] { w.open_client(); }), "incomplete_client", "%s: opened without a good %s", T::name, f.c_str());
        vt::spew(f, s);
        w.open_client();
        for (auto& k : kws) w.search(k);
        w.client.reset();
        w.server.reset();
        f = w.dir("server") + "/" + T::server_key();
        s = vt::slurp(f);
        ::unlink(f.c_str());
        VT_CHECK(vt::throws([&] { w.open_server(r); }), "incomplete_server", "%s: opened without its key", T::name);
        vt::spew(f, s);
        w.open_server(r);
        w.open_client();
        for (auto& k : kws) w.search(k);
        w.client.reset();
        w.server.reset();
        vt::count("incomplete_directories");
    }
    if (r.chance(20)) {
        vt::spew(w.dir("plain"), "x");
        VT_CHECK(vt::throws([&] { typename T::Client x(w.channel(), w.dir("plain")); }), "not_a_directory", "%s client", T::name);
        VT_CHECK(vt::throws([&] { typename T::Server x(w.address, w.dir("plain")); }), "not_a_directory", "%s server", T::name);
    }
}

static void c25(long idx, Rng& r)
{
    if (idx % 2) history<SophosT>(idx, r);
    else history<DianaT>(idx, r);
}

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    if (!getenv("VT_LOG")) sse::logger::set_logging_level(spdlog::level::off);
    grpc::vt::plan      = [](const std::string&) { std::lock_guard<std::mutex> g(g_plan_m); return g_loss; };
    grpc::vt::on_misuse = [](const char* w) { vt::fail(std::string("rpc_misuse:") + w, w); };
    grpc::vt::on_status = [](const std::string& m, const grpc::Status& s) { vt::count(s.ok() ? "calls_ok" : "calls_refused"); };
    const auto& m = vt::opts().mode;
    if (m == "c25") vt::run_cases(vt::opts().thorough ? 3000 : 240, c25);
    else return 2;
    return vt::finish();
}
