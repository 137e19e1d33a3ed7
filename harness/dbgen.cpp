// C27: the random database generator against the description of what it makes.
#include "dyn.hpp"

#include "utils/db_generator.hpp"

#include <cmath>
#include <cstring>
#include <map>
#include <unordered_map>

using vt::Rng;

namespace {
struct Doc
{
    // how often the document was given a keyword of each family
    uint8_t  pct[6]{};
    int32_t  pval[6]{-1, -1, -1, -1, -1, -1};
    uint8_t  grp[9]{};
    uint8_t  rnd[5]{};
};

const char* const kPct[6] = {"0.1", "1", "10", "0.1", "1", "10"};
const char* const kGrp[9] = {"Group-10^1", "Group-20", "Group-30", "Group-60", "Group-10^2", "Group-10^3", "Group-10^4", "Group-10^5", "Group-10^6"};
const size_t      kGrpSize[9] = {10, 20, 30, 60, 100, 1000, 10000, 100000, 1000000};
const size_t      kRndSize[5] = {100, 1000, 10000, 100000, 1000000};

// "<number>" and nothing else, without leading zeros
bool number(const std::string& s, uint64_t& v)
{
    if (s.empty() || s.size() > 19 || (s.size() > 1 && s[0] == '0')) return false;
    v = 0;
    for (char c : s) {
        if (c < '0' || c > '9') return false;
        v = v * 10 + uint64_t(c - '0');
    }
    return true;
}

// "a_b_c" into three parts
bool parts(const std::string& s, std::string (&p)[3])
{
    auto a = s.find('_');
    if (a == std::string::npos) return false;
    auto b = s.find('_', a + 1);
    if (b == std::string::npos || s.find('_', b + 1) != std::string::npos) return false;
    p[0] = s.substr(0, a);
    p[1] = s.substr(a + 1, b - a - 1);
    p[2] = s.substr(b + 1);
    return true;
}
} // namespace

static void c27(long idx, Rng& r)
{
    vt::begin_case(idx, "database generator");
    static const size_t   round[] = {0, 1, 2, 7, 9, 10, 11, 19, 20, 21, 99, 100, 101, 999, 1000, 1001, 2000, 6000, 9999, 10000, 10001, 12000, 13333, 13334, 25000};
    static const unsigned hw[]    = {0, 1, 1, 2, 3, 4, 7, 8, 16, 33, 64};
    bool                  big     = vt::opts().thorough ? r.chance(4) : idx % 60 == 17;
    size_t                n       = r.chance(50) ? round[r.below(sizeof round / sizeof *round)] : r.below(r.chance(30) ? 30000 : 3000);
    unsigned              cpus    = hw[r.below(sizeof hw / sizeof *hw)];
    if (big) {
        n    = r.range(100000, 260000);
        cpus = r.range(1, 2);
    }
    g_hw = cpus;
    vt::distinct(n * 131 + cpus);

    std::mutex                           m;
    std::unordered_map<uint64_t, Doc>    docs;
    std::unordered_map<std::string, std::unordered_map<uint64_t, uint32_t>> kws;
    uint64_t                             calls = 0;
    std::string                          odd;
    std::atomic<int>                     inside{0}, peak{0};
    unsigned                             slow = r.chance(20) ? 1 : 0;

    auto cb = [&](const std::string& kw, size_t ind) {
        int now = ++inside;
        int p   = peak.load();
        while (now > p && !peak.compare_exchange_weak(p, now)) {
        }
        if (slow && (ind & 1023) == 0) std::this_thread::yield();
        {
            std::lock_guard<std::mutex> g(m);
            calls++;
            kws[kw][ind]++;
            docs[ind];
        }
        --inside;
    };
    try {
        sse::sophos::gen_db(n, cb);
    } catch (std::exception& e) {
        vt::fail("dbgen:throws", e.what());
        return;
    }
    VT_CHECK(inside.load() == 0, std::string("dbgen:still-running"), "%d callbacks running after the end", inside.load());
    uint64_t end_calls = calls;
    vt::eval(calls);
    vt::count("documents", n);
    vt::count("callbacks", calls);
    if (peak > 1) vt::count("concurrent_callbacks");
    if (cpus == 0) vt::count("unknown_processors");

    // (identifiers are random 64-bit numbers: a repetition would be a defect)
    VT_CHECK(docs.size() == n, std::string("dbgen:documents"), "%zu different documents generated, %zu wanted, %u processors", docs.size(), n, cpus);

    std::map<std::string, std::map<uint64_t, size_t>> group; // "family_thread" -> number -> size
    for (auto& e : kws) {
        const std::string& kw = e.first;
        std::string        p[3];
        uint64_t           v = 0;
        bool               known = parts(kw, p);
        for (auto& o : e.second) VT_CHECK(o.second == 1, std::string("dbgen:pair-twice"), "%s was given %u times to one document", kw.c_str(), o.second);
        if (!known) {
            vt::fail("dbgen:keyword", kw);
            continue;
        }
        int f = -1;
        if (p[2] == "1" || p[2] == "2")
            for (int i = 0; i < 3; i++)
                if (p[0] == kPct[i]) f = i + (p[2] == "2" ? 3 : 0);
        if (f >= 0) {
            uint64_t lim = f % 3 == 0 ? 1000 : f % 3 == 1 ? 100 : 10;
            VT_CHECK(number(p[1], v) && v < lim, std::string("dbgen:percentage-keyword"), "%s", kw.c_str());
            for (auto& o : e.second) {
                Doc& d = docs[o.first];
                d.pct[f]++;
                d.pval[f] = static_cast<int32_t>(v);
            }
            // the share of the documents the keyword's name announces (12 sigma)
            double mean = double(n) / double(lim);
            if (mean >= 200) {
                VT_CHECK(std::fabs(double(e.second.size()) - mean) < 12 * std::sqrt(mean), std::string("dbgen:share"), "%s matches %zu of %zu documents", kw.c_str(), e.second.size(), n);
                vt::count("shares_checked");
            }
            continue;
        }
        uint64_t t = 0, c = 0;
        bool     rnd = p[0].compare(0, 11, "Group-rand-") == 0;
        int      g   = -1;
        if (rnd) {
            for (int i = 0; i < 5; i++)
                if (p[0] == "Group-rand-10^" + std::to_string(i + 2)) g = i;
        } else
            for (int i = 0; i < 9; i++)
                if (p[0] == kGrp[i]) g = i;
        if (g < 0 || !number(p[1], t) || !number(p[2], c)) {
            vt::fail("dbgen:keyword", kw);
            continue;
        }
        VT_CHECK(t < std::max(1u, cpus), std::string("dbgen:thread"), "%s with %u processors", kw.c_str(), cpus);
        if (rnd) {
            VT_CHECK(e.second.size() <= kRndSize[g], std::string("dbgen:random-group-size"), "%s matches %zu documents", kw.c_str(), e.second.size());
            for (auto& o : e.second) {
                Doc& d = docs[o.first];
                VT_CHECK(++d.rnd[g] == 1, std::string("dbgen:two-random-groups"), "a document is in two groups of %s", p[0].c_str());
            }
            static const char* const rn[] = {"random_groups_2", "random_groups_3", "random_groups_4", "random_groups_5", "random_groups_6"};
            vt::count(rn[g]);
            continue;
        }
        VT_CHECK(e.second.size() <= kGrpSize[g], std::string("dbgen:group-size"), "%s matches %zu documents", kw.c_str(), e.second.size());
        group[p[0] + "_" + p[1]][c] = e.second.size();
        for (auto& o : e.second) docs[o.first].grp[g]++;
    }
    // every document has one keyword of each family
    for (auto& e : docs) {
        for (int i = 0; i < 6; i++) VT_CHECK(e.second.pct[i] == 1, std::string("dbgen:percentage"), "a document has %u keywords %s_*_%d", e.second.pct[i], kPct[i], i / 3 + 1);
        for (int i = 0; i < 9; i++) VT_CHECK(e.second.grp[i] == 1, std::string("dbgen:group"), "a document has %u keywords %s", e.second.grp[i], kGrp[i]);
        // a document of the 0.1% keyword x is one of the 1% keyword x mod 100
        for (int i = 0; i < 6; i += 3)
            if (e.second.pct[i] == 1 && e.second.pct[i + 1] == 1 && e.second.pct[i + 2] == 1)
                VT_CHECK(e.second.pval[i] % 100 == e.second.pval[i + 1] && e.second.pval[i + 1] % 10 == e.second.pval[i + 2], std::string("dbgen:nesting"), "%d %d %d", e.second.pval[i], e.second.pval[i + 1], e.second.pval[i + 2]);
    }
    if (n >= 400 * std::max(1u, cpus)) {
        bool any = false;
        for (auto& e : kws) any |= e.first.compare(0, 15, "Group-rand-10^2") == 0;
        VT_CHECK(any, std::string("dbgen:no-random-group"), "no group of 100 random documents among %zu", n);
    }
    // groups are filled one after the other
    for (auto& e : group) {
        std::string fam  = e.first.substr(0, e.first.find('_'));
        size_t      size = 0, next = 0;
        for (int i = 0; i < 9; i++)
            if (fam == kGrp[i]) size = kGrpSize[i];
        for (auto& c : e.second) {
            VT_CHECK(c.first == next, std::string("dbgen:group-numbers"), "%s: group %zu missing", e.first.c_str(), next);
            next = c.first + 1;
            if (&c != &*e.second.rbegin()) {
                VT_CHECK(c.second == size, std::string("dbgen:group-size"), "%s_%llu matches %zu documents", e.first.c_str(), (unsigned long long)c.first, c.second);
                vt::count("complete_groups");
            }
        }
    }
    {
        std::lock_guard<std::mutex> g(m);
        VT_CHECK(calls == end_calls, std::string("dbgen:still-running"), "callbacks after the end");
    }
}

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    sse::logger::set_logging_level(spdlog::level::warn);
    const std::string& mode = vt::opts().mode;
    if (mode == "c27") vt::run_cases(vt::opts().thorough ? 3000 : 180, c27);
    else if (mode == "c27race") vt::run_cases(vt::opts().thorough ? 300 : 20, c27);
    else return 2;
    return vt::finish();
}
