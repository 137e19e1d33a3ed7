#pragma once
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <algorithm>
namespace sse {
namespace crypto {
// range-constrained PRF: a binary tree of keys
using rc_node = std::array<uint8_t, 32>;

struct rc_range
{
    rc_node  key;
    uint64_t height; // 2^height leaves below (64 bits: it is serialised, without padding)
    uint64_t first;
};
rc_node rc_child(const rc_node& k, uint8_t bit);
void    rc_leaf(const rc_node& k, uint8_t* out, size_t n);
void    rc_eval(const rc_range& r, uint64_t min, uint64_t max, const std::function<void(uint64_t, const rc_node&)>& f);
void    rc_cover(const rc_range& r, uint64_t min, uint64_t max, std::vector<rc_range>& out);

template<uint16_t NBYTES>
class ConstrainedRCPrf
{
public:
    explicit ConstrainedRCPrf(std::vector<rc_range>&& e) : elements(std::move(e))
    {
    }
    ConstrainedRCPrf(ConstrainedRCPrf&&) noexcept = default;
    ConstrainedRCPrf& operator=(ConstrainedRCPrf&&) noexcept = default;
    ConstrainedRCPrf(const ConstrainedRCPrf&)                = delete;
    ConstrainedRCPrf& operator=(const ConstrainedRCPrf&) = delete;

    uint64_t min_leaf() const
    {
        return elements.empty() ? ~0UL : elements.front().first;
    }
    uint64_t max_leaf() const
    {
        return elements.empty() ? 0 : elements.back().first + (1UL << elements.back().height) - 1;
    }
    std::array<uint8_t, NBYTES> eval(uint64_t leaf) const
    {
        std::array<uint8_t, NBYTES> r;
        eval_range(leaf, leaf, [&r](uint64_t, std::array<uint8_t, NBYTES> v) { r = v; });
        return r;
    }
    void eval_range(uint64_t min, uint64_t max, const std::function<void(uint64_t, std::array<uint8_t, NBYTES>)>& cb) const
    {
        if (elements.empty() || min > max || min < min_leaf() || max > max_leaf()) throw std::out_of_range("Invalid range for a constrained PRF");
        for (auto& e : elements)
            rc_eval(e, min, max, [&cb](uint64_t l, const rc_node& k) {
                std::array<uint8_t, NBYTES> r;
                rc_leaf(k, r.data(), NBYTES);
                cb(l, r);
            });
    }
    const std::vector<rc_range>& ranges() const
    {
        return elements;
    }

private:
    std::vector<rc_range> elements;
};

template<uint16_t NBYTES>
class RCPrf
{
public:
    static constexpr uint8_t kKeySize = 32;
    RCPrf(Key<kKeySize>&& k, uint8_t height)
    {
        memcpy(root.key.data(), k.data(), kKeySize);
        root.height = height - 1;
        root.first  = 0;
    }
    std::array<uint8_t, NBYTES> eval(uint64_t leaf) const
    {
        if (leaf >> root.height) throw std::out_of_range("Invalid leaf");
        std::array<uint8_t, NBYTES> r;
        rc_eval(root, leaf, leaf, [&r](uint64_t, const rc_node& k) { rc_leaf(k, r.data(), NBYTES); });
        return r;
    }
    ConstrainedRCPrf<NBYTES> constrain(uint64_t min, uint64_t max) const
    {
        if (min > max || (max >> root.height)) throw std::out_of_range("Invalid range");
        std::vector<rc_range> v;
        rc_cover(root, min, max, v);
        return ConstrainedRCPrf<NBYTES>(std::move(v));
    }

private:
    rc_range root;
};
} // namespace crypto
} // namespace sse
