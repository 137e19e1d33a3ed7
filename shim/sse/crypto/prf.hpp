#pragma once
#include <sse/crypto/key.hpp>
namespace sse {
namespace crypto {
template<size_t NBYTES>
class Prf
{
public:
    static constexpr uint8_t kKeySize = 32;
    Prf()                             = default;
    explicit Prf(Key<kKeySize>&& k) : key(std::move(k))
    {
    }
    std::array<uint8_t, NBYTES> prf(const unsigned char* in, size_t len) const
    {
        std::array<uint8_t, NBYTES> r;
        raw_hash('P', key.data(), kKeySize, in, len, r.data(), NBYTES);
        return r;
    }
    std::array<uint8_t, NBYTES> prf(const std::string& s) const
    {
        return prf(reinterpret_cast<const unsigned char*>(s.data()), s.size());
    }
    template<size_t L>
    std::array<uint8_t, NBYTES> prf(const std::array<uint8_t, L>& a) const
    {
        return prf(a.data(), L);
    }
    Key<NBYTES> derive_key(const unsigned char* in, size_t len) const
    {
        auto r = prf(in, len);
        return Key<NBYTES>(r.data());
    }
    Key<NBYTES> derive_key(const std::string& s) const
    {
        return derive_key(reinterpret_cast<const unsigned char*>(s.data()), s.size());
    }
    template<size_t L>
    Key<NBYTES> derive_key(const std::array<uint8_t, L>& a) const
    {
        return derive_key(a.data(), L);
    }

private:
    Key<kKeySize> key;
};
} // namespace crypto
} // namespace sse
