#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
namespace sse {
namespace crypto {
// out = the first out_len bytes of an extendable hash of (domain, key, in)
void raw_hash(char domain, const uint8_t* key, size_t key_len, const uint8_t* in, size_t len, uint8_t* out, size_t out_len, uint64_t offset = 0);
class Hash
{
public:
    static constexpr size_t kDigestSize = 64;
    static void             hash(const unsigned char* in, size_t len, size_t out_len, unsigned char* out)
    {
        raw_hash('H', nullptr, 0, in, len, out, out_len);
    }
    static void hash(const unsigned char* in, size_t len, unsigned char* out)
    {
        hash(in, len, kDigestSize, out);
    }
    static std::string hash(const std::string& in)
    {
        std::string r(kDigestSize, '\0');
        hash(reinterpret_cast<const unsigned char*>(in.data()), in.size(), kDigestSize, reinterpret_cast<unsigned char*>(&r[0]));
        return r;
    }
};
} // namespace crypto
} // namespace sse
