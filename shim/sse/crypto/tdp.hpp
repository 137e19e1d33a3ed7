#pragma once
#include <sse/crypto/prf.hpp>
namespace sse {
namespace crypto {
// RSA trapdoor permutation; the modulus is short (fast), the messages have the
// size they have in crypto-tk
struct tdp_key;
class Tdp
{
public:
    static constexpr size_t kMessageSize         = 256;
    static constexpr size_t kStatisticalSecurity = 64;
    static constexpr size_t kRSAPrfSize          = kMessageSize + kStatisticalSecurity / 8;
    using msg                                    = std::array<uint8_t, kMessageSize>;

    explicit Tdp(const std::string& pk);
    virtual ~Tdp();
    Tdp(const Tdp&) = delete;
    std::string public_key() const;
    msg         eval(const msg& in) const;
    msg         generate_array(const Prf<kRSAPrfSize>& prg, const std::string& seed) const;

protected:
    std::unique_ptr<tdp_key> k;
};
class TdpInverse : public Tdp
{
public:
    TdpInverse();
    explicit TdpInverse(const std::string& sk);
    std::string private_key() const;
    msg         invert(const msg& in) const;
    msg         invert_mult(const msg& in, uint32_t order) const;
};
class TdpMultPool : public Tdp
{
public:
    TdpMultPool(const std::string& pk, uint8_t size);
    using Tdp::eval;
    msg     eval(const msg& in, uint8_t order) const;
    uint8_t maximum_order() const
    {
        return max_order;
    }

private:
    uint8_t max_order;
};
} // namespace crypto
} // namespace sse
