// Common parts of the harnesses of the dynamic schemes.
#pragma once
#include "scheme.hpp"

#include <sse/schemes/utils/logger.hpp>

#include <condition_variable>
#include <sse/crypto/key.hpp>
#include <sse/crypto/random.hpp>
#include <thread>

// The library adapts to the number of processors: let a case choose it.
static std::atomic<unsigned> g_hw{8};
namespace std {
unsigned thread::hardware_concurrency() noexcept
{
    return g_hw.load();
}
} // namespace std

namespace dyn {
using vt::Rng;
using Bytes = std::array<uint8_t, 32>;
using List  = std::vector<uint64_t>;

inline Bytes bytes32(Rng& r)
{
    Bytes b;
    for (auto& x : b) x = static_cast<uint8_t>(r.next());
    return b;
}
// (a key erases the bytes it is made from)
inline sse::crypto::Key<32> key(Bytes b)
{
    return sse::crypto::Key<32>(b.data());
}

inline unsigned processors(Rng& r)
{
    static const unsigned v[] = {1, 2, 3, 4, 8, 8, 16, 64, 127, 128, 200};
    return r.chance(60) ? v[r.below(7)] : v[r.below(sizeof v / sizeof *v)];
}
inline uint8_t threads(Rng& r)
{
    static const uint8_t v[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 33, 64, 130, 255};
    return r.chance(85) ? v[r.below(9)] : v[r.below(sizeof v)];
}

// keywords that are easily confused
inline std::vector<std::string> keywords(Rng& r, size_t n)
{
    std::set<std::string>    s;
    std::vector<std::string> out;
    for (size_t t = 0; out.size() < n; t++) {
        std::string w;
        switch (t > 100 ? 0 : r.below(8)) {
        case 0: w = "kw" + std::to_string(r.next()); break;
        case 1: w = out.empty() ? "" : out[r.below(out.size())] + std::string(1, '\0'); break;
        case 2: w = out.empty() ? "a" : out[r.below(out.size())] + "0"; break;
        case 3: w = std::string(r.range(1, 2000), 'z'); break;
        case 4: w = r.bytes(r.range(1, 40)); break;
        case 5: w = out.empty() ? "b" : out[0].substr(0, out[0].size() / 2); break;
        case 6: w = ""; break;
        default: w = "word" + std::to_string(r.below(40));
        }
        if (s.insert(w).second) out.push_back(w);
    }
    return out;
}

// How many entries to add now: one, or as many as lead to a round number
// (or just beside it).
inline size_t burst(Rng& r, size_t now, size_t most, size_t cap)
{
    static const size_t v[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 257, 256, 511, 512, 513, 768, 1024, 1025, 4096, 65536, 65537};
    if (r.chance(12)) {
        size_t t = v[r.below(sizeof v / sizeof *v)];
        if (t > now && t <= cap) {
            vt::count("round_sizes");
            return t - now;
        }
    }
    return r.range(2, most);
}

inline bool same(const List& a, const List& b)
{
    return vt::sorted(a) == vt::sorted(b);
}
inline void compare(const std::string& how, const std::string& w, const List& want, const List& got)
{
    if (same(want, got)) return;
    vt::fail("wrong_result:" + how, vt::fmt("%s: keyword of %zu bytes: %s", how.c_str(), w.size(), vt::diff(want, got).c_str()));
}

// collects the calls of a callback, from any thread
struct Sink
{
    std::mutex m;
    List       got;
    std::function<void(uint64_t)> cb()
    {
        return [this](uint64_t v) {
            std::lock_guard<std::mutex> g(m);
            got.push_back(v);
        };
    }
    List take()
    {
        std::lock_guard<std::mutex> g(m);
        return std::move(got);
    }
};
} // namespace dyn
