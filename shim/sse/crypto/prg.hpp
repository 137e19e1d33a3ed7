#pragma once
#include <sse/crypto/key.hpp>
namespace sse {
namespace crypto {
class Prg
{
public:
    static constexpr uint8_t kKeySize = 32;
    explicit Prg(Key<kKeySize>&& k) : key(std::move(k))
    {
    }
    void derive(size_t len, unsigned char* out) const
    {
        derive(0, len, out);
    }
    void derive(uint32_t offset, size_t len, unsigned char* out) const
    {
        raw_hash('G', key.data(), kKeySize, nullptr, 0, out, len, offset);
    }

private:
    Key<kKeySize> key;
};
} // namespace crypto
} // namespace sse
