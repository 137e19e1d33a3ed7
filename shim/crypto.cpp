#include <sodium/crypto_stream_chacha20.h>
#include <sodium/utils.h>
#include <sse/crypto/hash.hpp>
#include <sse/crypto/puncturable_enc.hpp>
#include <sse/crypto/random.hpp>
#include <sse/crypto/rcprf.hpp>
#include <sse/crypto/tdp.hpp>
#include <sse/crypto/wrapper.hpp>
#include <sse/dbparser/json/DBParserJSON.h>

#include <fstream>
#include <functional>
#include <gmp.h>
#include <mutex>
#include <nlohmann/json.hpp>
#include <openssl/sha.h>

static std::mutex rnd_m;
static uint64_t   rnd_s = 1;

void vt_crypto_seed(uint64_t s)
{
    std::lock_guard<std::mutex> g(rnd_m);
    rnd_s = s;
}

static inline uint32_t rotl(uint32_t x, int k)
{
    return (x << k) | (x >> (32 - k));
}

// told of everything that is encrypted with the stream cipher
std::function<void(const uint8_t* key, const uint8_t* nonce, const uint8_t* m, size_t n)> vt_on_stream;

extern "C" {
int crypto_stream_chacha20_xor(unsigned char* c, const unsigned char* m, unsigned long long mlen, const unsigned char* n, const unsigned char* k)
{
    if (m && vt_on_stream) vt_on_stream(k, n, m, mlen);
    uint32_t in[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
    memcpy(in + 4, k, 32);
    memcpy(in + 14, n, 8);
    for (unsigned long long o = 0, b = 0; o < mlen; o += 64, b++) {
        in[12] = static_cast<uint32_t>(b);
        in[13] = static_cast<uint32_t>(b >> 32);
        uint32_t x[16];
        memcpy(x, in, 64);
        auto q = [&x](int a, int b, int c, int d) {
            x[a] += x[b], x[d] = rotl(x[d] ^ x[a], 16);
            x[c] += x[d], x[b] = rotl(x[b] ^ x[c], 12);
            x[a] += x[b], x[d] = rotl(x[d] ^ x[a], 8);
            x[c] += x[d], x[b] = rotl(x[b] ^ x[c], 7);
        };
        for (int r = 0; r < 10; r++) {
            q(0, 4, 8, 12), q(1, 5, 9, 13), q(2, 6, 10, 14), q(3, 7, 11, 15);
            q(0, 5, 10, 15), q(1, 6, 11, 12), q(2, 7, 8, 13), q(3, 4, 9, 14);
        }
        for (int i = 0; i < 16; i++) x[i] += in[i];
        auto* s = reinterpret_cast<unsigned char*>(x);
        for (unsigned i = 0; i < 64 && o + i < mlen; i++) c[o + i] = (m ? m[o + i] : 0) ^ s[i];
    }
    return 0;
}
int crypto_stream_chacha20(unsigned char* c, unsigned long long clen, const unsigned char* n, const unsigned char* k)
{
    return crypto_stream_chacha20_xor(c, nullptr, clen, n, k);
}
void sodium_memzero(void* p, size_t n)
{
    memset(p, 0, n);
    asm volatile("" ::"r"(p) : "memory");
}
}

namespace sse {
namespace crypto {

void random_fill(void* p, size_t n)
{
    std::lock_guard<std::mutex> g(rnd_m);
    auto*                       b = static_cast<uint8_t*>(p);
    for (size_t i = 0; i < n; i++) {
        uint64_t z = (rnd_s += 0x9E3779B97F4A7C15ULL);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        b[i]       = static_cast<uint8_t>((z ^ (z >> 31)) >> 24);
    }
}

void raw_hash(char domain, const uint8_t* key, size_t kl, const uint8_t* in, size_t len, uint8_t* out, size_t out_len, uint64_t off)
{
    std::string buf(1, domain);
    buf.append(reinterpret_cast<const char*>(key), kl);
    buf.append(reinterpret_cast<const char*>(in), len);
    buf.append(8, '\0');
    size_t done = 0;
    while (done < out_len) {
        uint64_t b = (off + done) / 32, o = (off + done) % 32;
        memcpy(&buf[buf.size() - 8], &b, 8);
        uint8_t d[32];
        SHA256(reinterpret_cast<const uint8_t*>(buf.data()), buf.size(), d);
        size_t n = std::min<size_t>(32 - o, out_len - done);
        memcpy(out + done, d + o, n);
        done += n;
    }
}

rc_node rc_child(const rc_node& k, uint8_t bit)
{
    rc_node r;
    raw_hash('N', k.data(), k.size(), &bit, 1, r.data(), r.size());
    return r;
}
void rc_leaf(const rc_node& k, uint8_t* out, size_t n)
{
    raw_hash('L', k.data(), k.size(), nullptr, 0, out, n);
}
void rc_eval(const rc_range& r, uint64_t min, uint64_t max, const std::function<void(uint64_t, const rc_node&)>& f)
{
    uint64_t last = r.first + (1UL << r.height) - 1;
    if (last < min || r.first > max) return;
    if (r.height == 0) {
        f(r.first, r.key);
        return;
    }
    uint64_t half = 1UL << (r.height - 1);
    if (min < r.first + half) rc_eval({rc_child(r.key, 0), static_cast<uint8_t>(r.height - 1), r.first}, min, max, f);
    if (max >= r.first + half) rc_eval({rc_child(r.key, 1), static_cast<uint8_t>(r.height - 1), r.first + half}, min, max, f);
}
void rc_cover(const rc_range& r, uint64_t min, uint64_t max, std::vector<rc_range>& out)
{
    uint64_t last = r.first + (1UL << r.height) - 1;
    if (last < min || r.first > max) return;
    if (min <= r.first && last <= max) {
        out.push_back(r);
        return;
    }
    uint64_t half = 1UL << (r.height - 1);
    rc_cover({rc_child(r.key, 0), static_cast<uint8_t>(r.height - 1), r.first}, min, max, out);
    rc_cover({rc_child(r.key, 1), static_cast<uint8_t>(r.height - 1), r.first + half}, min, max, out);
}

// ------------------------------------------------------------------ TDP
struct Z
{
    mpz_t v;
    Z()
    {
        mpz_init(v);
    }
    ~Z()
    {
        mpz_clear(v);
    }
    Z(const Z&) = delete;
};
struct tdp_key
{
    Z    n, e, d, phi;
    bool priv{false};
};
static Tdp::msg to_msg(const mpz_t v)
{
    Tdp::msg r;
    r.fill(0);
    size_t n = (mpz_sizeinbase(v, 2) + 7) / 8, c = 0;
    if (n > r.size()) throw std::runtime_error("message too long");
    mpz_export(r.data() + r.size() - n, &c, 1, 1, 1, 0, v);
    return r;
}
static void from_msg(const tdp_key& k, const Tdp::msg& m, mpz_t v)
{
    mpz_import(v, m.size(), 1, 1, 1, 0, m.data());
    // as mbedTLS: bad input
    if (mpz_cmp(v, k.n.v) >= 0) throw std::runtime_error("Error when evaluating the RSA permutation: bad input");
}
static std::string hex(const mpz_t v)
{
    char*       s = mpz_get_str(nullptr, 16, v);
    std::string r = s;
    void (*f)(void*, size_t);
    mp_get_memory_functions(nullptr, nullptr, &f);
    f(s, r.size() + 1);
    return r;
}
Tdp::Tdp(const std::string& pk) : k(new tdp_key)
{
    if (pk.empty()) return;
    std::string s = pk;
    auto        c = s.find(':');
    if (s.compare(0, 3, "PK ") || c == std::string::npos || mpz_set_str(k->n.v, s.substr(3, c - 3).c_str(), 16) || mpz_set_str(k->e.v, s.substr(c + 1).c_str(), 16))
        throw std::runtime_error("Error when loading the public key");
}
Tdp::~Tdp() = default;
std::string Tdp::public_key() const
{
    return "PK " + hex(k->n.v) + ":" + hex(k->e.v);
}
Tdp::msg Tdp::eval(const msg& in) const
{
    Z a, b;
    from_msg(*k, in, a.v);
    mpz_powm(b.v, a.v, k->e.v, k->n.v);
    return to_msg(b.v);
}
Tdp::msg Tdp::generate_array(const Prf<kRSAPrfSize>& prg, const std::string& seed) const
{
    auto r = prg.prf(seed);
    Z    a, b;
    mpz_import(a.v, r.size(), 1, 1, 1, 0, r.data());
    mpz_mod(b.v, a.v, k->n.v);
    return to_msg(b.v);
}
TdpInverse::TdpInverse() : Tdp("")
{
    uint8_t b[32];
    Z       p, q, g;
    mpz_set_ui(k->e.v, 65537);
    do {
        random_fill(b, 32);
        b[0] |= 0xC0;
        mpz_import(p.v, 32, 1, 1, 1, 0, b);
        mpz_nextprime(p.v, p.v);
        random_fill(b, 32);
        b[0] |= 0xC0;
        mpz_import(q.v, 32, 1, 1, 1, 0, b);
        mpz_nextprime(q.v, q.v);
        mpz_mul(k->n.v, p.v, q.v);
        mpz_sub_ui(p.v, p.v, 1);
        mpz_sub_ui(q.v, q.v, 1);
        mpz_mul(k->phi.v, p.v, q.v);
        mpz_gcd(g.v, k->phi.v, k->e.v);
    } while (mpz_cmp_ui(g.v, 1));
    mpz_invert(k->d.v, k->e.v, k->phi.v);
    k->priv = true;
}
TdpInverse::TdpInverse(const std::string& sk) : Tdp("")
{
    std::vector<std::string> f(1);
    for (char c : sk)
        if (c == ':') f.emplace_back();
        else f.back() += c;
    if (f.size() != 5 || f[0] != "SK" || mpz_set_str(k->n.v, f[1].c_str(), 16) || mpz_set_str(k->e.v, f[2].c_str(), 16) || mpz_set_str(k->d.v, f[3].c_str(), 16) || mpz_set_str(k->phi.v, f[4].c_str(), 16))
        throw std::runtime_error("Error when loading the private key");
    k->priv = true;
}
std::string TdpInverse::private_key() const
{
    return "SK:" + hex(k->n.v) + ":" + hex(k->e.v) + ":" + hex(k->d.v) + ":" + hex(k->phi.v);
}
Tdp::msg TdpInverse::invert(const msg& in) const
{
    return invert_mult(in, 1);
}
Tdp::msg TdpInverse::invert_mult(const msg& in, uint32_t order) const
{
    if (order == 0) return in;
    Z a, x, b, o;
    from_msg(*k, in, a.v);
    mpz_set_ui(o.v, order);
    mpz_powm(x.v, k->d.v, o.v, k->phi.v);
    mpz_powm(b.v, a.v, x.v, k->n.v);
    return to_msg(b.v);
}
TdpMultPool::TdpMultPool(const std::string& pk, uint8_t size) : Tdp(pk), max_order(size)
{
    if (size == 0) throw std::invalid_argument("Invalid Multiple TDP pool input size. Pool size should be > 0.");
}
Tdp::msg TdpMultPool::eval(const msg& in, uint8_t order) const
{
    if (order == 0 || order > max_order) throw std::invalid_argument("Invalid order for this TDP pool. The input order must be less than the maximum order supported by the pool, and strictly positive.");
    Z a, b, x;
    from_msg(*k, in, a.v);
    mpz_pow_ui(x.v, k->e.v, order);
    mpz_powm(b.v, a.v, x.v, k->n.v);
    return to_msg(b.v);
}

// ------------------------------------------------- puncturable encryption
using pk32 = std::array<uint8_t, 32>;
static pk32 lambda(const pk32& key, uint64_t d)
{
    pk32 r;
    r.fill(0);
    if (d) raw_hash('l', key.data(), 32, reinterpret_cast<uint8_t*>(&d), 8, r.data(), 32);
    return r;
}
static pk32 alpha(const pk32& key)
{
    pk32 r;
    raw_hash('a', key.data(), 32, nullptr, 0, r.data(), 32);
    return r;
}
static pk32 operator^(pk32 a, const pk32& b)
{
    for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i];
    return a;
}
PuncturableEncryption::PuncturableEncryption(Key<punct::kMasterKeySize>&& key)
{
    Key<punct::kMasterKeySize> k(std::move(key));
    memcpy(key_.data(), k.data(), 32);
}
punct::key_share_type PuncturableEncryption::initial_keyshare(size_t d)
{
    punct::key_share_type s;
    s.fill(0);
    pk32 v = alpha(key_) ^ lambda(key_, d);
    std::copy(v.begin(), v.end(), s.begin() + 16);
    return s;
}
punct::key_share_type PuncturableEncryption::inc_puncture(size_t d, const punct::tag_type& tag)
{
    if (d == 0) throw std::invalid_argument("Invalid puncture index: 0");
    punct::key_share_type s;
    s.fill(0);
    std::copy(tag.begin(), tag.end(), s.begin());
    pk32 v = lambda(key_, d) ^ lambda(key_, d - 1);
    std::copy(v.begin(), v.end(), s.begin() + 16);
    return s;
}
static uint64_t pad(const pk32& secret, const punct::tag_type& tag)
{
    uint64_t p;
    raw_hash('m', secret.data(), 32, tag.data(), tag.size(), reinterpret_cast<uint8_t*>(&p), 8);
    return p;
}
punct::ciphertext_type PuncturableEncryption::encrypt(uint64_t m, const punct::tag_type& tag)
{
    punct::ciphertext_type c;
    c.fill(0x5c);
    std::copy(tag.begin(), tag.end(), c.begin());
    uint64_t x = m ^ pad(alpha(key_), tag);
    memcpy(c.data() + 16, &x, 8);
    return c;
}
PuncturableDecryption::PuncturableDecryption(const punct::punctured_key_type& k) : shares(k)
{
    if (k.empty()) throw std::invalid_argument("Empty punctured key");
    secret.fill(0);
    for (auto& s : shares) {
        pk32 v;
        std::copy_n(s.begin() + 16, 32, v.begin());
        secret = secret ^ v;
    }
}
bool PuncturableDecryption::is_punctured_on_tag(const punct::tag_type& tag) const
{
    for (size_t i = 1; i < shares.size(); i++)
        if (punct::extract_tag(shares[i]) == tag) return true;
    return false;
}
bool PuncturableDecryption::decrypt(const punct::ciphertext_type& ct, uint64_t& m) const
{
    auto tag = punct::extract_tag(ct);
    if (is_punctured_on_tag(tag)) return false;
    memcpy(&m, ct.data() + 16, 8);
    m ^= pad(secret, tag);
    return true;
}

// -------------------------------------------------------------- wrapper
std::string wrapper_seal(const uint8_t* key, const std::string& in)
{
    std::string s(in.size() + 8 + 32, '\0');
    auto*       b = reinterpret_cast<uint8_t*>(&s[0]);
    random_fill(b, 8);
    crypto_stream_chacha20_xor(b + 8, reinterpret_cast<const uint8_t*>(in.data()), in.size(), b, key);
    raw_hash('T', key, 32, b, in.size() + 8, b + in.size() + 8, 32);
    return s;
}
std::string wrapper_open(const uint8_t* key, const std::string& in)
{
    if (in.size() < 40) throw std::runtime_error("wrapped object too short");
    auto*   b = reinterpret_cast<const uint8_t*>(in.data());
    uint8_t t[32];
    raw_hash('T', key, 32, b, in.size() - 32, t, 32);
    if (memcmp(t, b + in.size() - 32, 32)) throw std::runtime_error("wrapped object altered");
    std::string r(in.size() - 40, '\0');
    crypto_stream_chacha20_xor(reinterpret_cast<uint8_t*>(&r[0]), b + 8, r.size(), b, key);
    return r;
}
} // namespace crypto
} // namespace sse

namespace dbparser {
DBParserJSON::DBParserJSON(const char* p) : path(p)
{
    std::ifstream f(path);
    if (!f) throw std::runtime_error("cannot open " + path);
}
void DBParserJSON::parse()
{
    std::ifstream f(path);
    auto          j = nlohmann::json::parse(f);
    for (auto it = j.begin(); it != j.end(); ++it) {
        std::list<unsigned> l;
        for (auto& x : it.value()) l.push_back(x.get<unsigned>());
        for (auto& cb : list_cb) cb(it.key(), l);
        for (auto& cb : pair_cb)
            for (unsigned d : l) cb(it.key(), d);
    }
}
} // namespace dbparser
