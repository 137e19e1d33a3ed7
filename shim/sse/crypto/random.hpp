#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <string>
namespace sse {
namespace crypto {
void random_fill(void* p, size_t n);
template<typename T, size_t N>
std::array<T, N> random_bytes()
{
    std::array<T, N> r;
    random_fill(r.data(), sizeof(T) * N);
    return r;
}
inline std::string random_string(size_t n)
{
    std::string r(n, '\0');
    random_fill(&r[0], n);
    return r;
}
} // namespace crypto
} // namespace sse
// deterministic runs
void vt_crypto_seed(uint64_t s);
