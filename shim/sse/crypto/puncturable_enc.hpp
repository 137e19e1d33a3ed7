#pragma once
#include <sse/crypto/prf.hpp>
namespace sse {
namespace crypto {
namespace punct {
constexpr size_t kTagSize        = 16;
constexpr size_t kMasterKeySize  = 32;
// Both have the same size here: the cuckoo tables of RocksDB 8.9 are damaged when
// entries of different sizes are deleted in one process (see DESIGN.md).
constexpr size_t kCiphertextSize = 64;
constexpr size_t kKeyShareSize   = 64;
using tag_type                   = std::array<uint8_t, kTagSize>;
using ciphertext_type            = std::array<uint8_t, kCiphertextSize>;
using key_share_type             = std::array<uint8_t, kKeyShareSize>;
using punctured_key_type         = std::vector<key_share_type>;
inline tag_type extract_tag(const key_share_type& s)
{
    tag_type t;
    std::copy_n(s.begin(), kTagSize, t.begin());
    return t;
}
} // namespace punct

// Incremental puncturing as in the paper: the initial key share for d punctures
// and the shares 1..d of the punctures add up to the secret; no other
// combination does (decryption then yields garbage).
class PuncturableEncryption
{
public:
    explicit PuncturableEncryption(Key<punct::kMasterKeySize>&& key);
    punct::key_share_type  initial_keyshare(size_t d);
    punct::key_share_type  inc_puncture(size_t d, const punct::tag_type& tag);
    punct::ciphertext_type encrypt(uint64_t m, const punct::tag_type& tag);

private:
    std::array<uint8_t, 32> key_;
};
class PuncturableDecryption
{
public:
    explicit PuncturableDecryption(const punct::punctured_key_type& k);
    bool is_punctured_on_tag(const punct::tag_type& tag) const;
    bool decrypt(const punct::ciphertext_type& ct, uint64_t& m) const;

private:
    punct::punctured_key_type shares;
    std::array<uint8_t, 32>   secret;
};
} // namespace crypto
} // namespace sse
