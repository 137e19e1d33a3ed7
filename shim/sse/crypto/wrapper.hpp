#pragma once
#include <sse/crypto/prf.hpp>
#include <sse/crypto/rcprf.hpp>
namespace sse {
namespace crypto {
std::string wrapper_seal(const uint8_t* key, const std::string& in);
std::string wrapper_open(const uint8_t* key, const std::string& in); // throws if altered

class Wrapper
{
public:
    static constexpr size_t kKeySize = 32;
    explicit Wrapper(Key<kKeySize>&& k) : key(std::move(k))
    {
    }
    template<uint16_t N>
    std::vector<uint8_t> wrap(const ConstrainedRCPrf<N>& c) const
    {
        auto&       r = c.ranges();
        std::string s = wrapper_seal(key.data(), std::string(reinterpret_cast<const char*>(r.data()), r.size() * sizeof(rc_range)));
        return std::vector<uint8_t>(s.begin(), s.end());
    }
    template<class T>
    T unwrap(const std::vector<uint8_t>& v) const
    {
        std::string           s = wrapper_open(key.data(), std::string(v.begin(), v.end()));
        std::vector<rc_range> r(s.size() / sizeof(rc_range));
        if (!r.empty()) memcpy(r.data(), s.data(), s.size());
        return T(std::move(r));
    }

private:
    Key<kKeySize> key;
};
} // namespace crypto
} // namespace sse
