// Stand-in for OpenSSE's crypto-tk (a git submodule that is not available here):
// same interface, test-grade cryptography.  Only what the library uses.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include <sse/crypto/hash.hpp>
#include <sse/crypto/random.hpp>

namespace sse {
namespace crypto {

// A key takes over the bytes it is given: the source is erased, as in crypto-tk.
template<size_t N>
class Key
{
public:
    Key() : content(N)
    {
        random_fill(content.data(), N);
    }
    explicit Key(uint8_t* const k) : content(k, k + N)
    {
        memset(k, 0, N);
    }
    Key(const Key&) = delete;
    Key& operator=(const Key&) = delete;
    Key(Key&& k) noexcept      = default;
    Key& operator=(Key&& k) noexcept = default;
    ~Key()                           = default;

    bool is_empty() const
    {
        return content.empty();
    }
    const uint8_t* data() const
    {
        if (content.empty()) throw std::runtime_error("use of an empty key");
        return content.data();
    }

private:
    std::vector<uint8_t> content;
};
} // namespace crypto
} // namespace sse
