// Puncturable encryption (as Green and Miers', with incremental shares): a key
// punctured n times is initial_keyshare(n) followed by the shares of punctures
// 1 to n, and decrypts correctly only if it is made of exactly those.
#pragma once
#include <sse/crypto/prf.hpp>
namespace sse {
namespace crypto {
namespace punct {
constexpr size_t kMasterKeySize  = 32;
constexpr size_t kTagSize        = 16;
constexpr size_t kKeyShareSize   = 32 + kTagSize + 1;
constexpr size_t kCiphertextSize = kKeyShareSize; // the last bytes are padding: see DESIGN.md (cuckoo-tombstone-size)
using master_key_type    = Key<kMasterKeySize>;
using tag_type           = std::array<uint8_t, kTagSize>;
using key_share_type     = std::array<uint8_t, kKeyShareSize>;
using punctured_key_type = std::vector<key_share_type>;
using ciphertext_type    = std::array<uint8_t, kCiphertextSize>;
// (of a ciphertext or a key share: they are of the same type)
inline tag_type extract_tag(const ciphertext_type& ct)
{
    tag_type t;
    memcpy(t.data(), ct.data(), kTagSize);
    return t;
}
}
class PuncturableEncryption
{
public:
    explicit PuncturableEncryption(punct::master_key_type&& k) : key_(std::move(k)) {}
    punct::ciphertext_type encrypt(uint64_t m, const punct::tag_type& tag)
    {
        punct::ciphertext_type c;
        c.fill(0);
        memcpy(c.data(), tag.data(), punct::kTagSize);
        standin_random(c.data() + punct::kTagSize, 8);
        std::array<uint8_t, 32> s;
        part(0, s.data(), 6);
        uint8_t mask[8];
        standin_hash(s.data(), 32, 8, c.data(), punct::kTagSize + 8, mask, 8);
        for (int i = 0; i < 8; i++) c[punct::kTagSize + 8 + i] = reinterpret_cast<uint8_t*>(&m)[i] ^ mask[i];
        return c;
    }
    punct::key_share_type initial_keyshare(size_t d)
    {
        punct::key_share_type k;
        k.fill(0);
        uint8_t s[32], l[32];
        part(0, s, 6);
        part(d, l, 7);
        for (int i = 0; i < 32; i++) k[punct::kTagSize + i] = s[i] ^ l[i];
        k[48] = 1;
        return k;
    }
    punct::key_share_type inc_puncture(size_t d, const punct::tag_type& tag)
    {
        if (d == 0) throw std::invalid_argument("Invalid puncture index");
        punct::key_share_type k;
        uint8_t a[32], b[32];
        part(d, a, 7);
        part(d - 1, b, 7);
        for (int i = 0; i < 32; i++) k[punct::kTagSize + i] = a[i] ^ b[i];
        memcpy(k.data(), tag.data(), punct::kTagSize);
        k[48] = 2;
        return k;
    }

private:
    void part(uint64_t d, uint8_t* out, uint64_t domain)
    {
        if (domain == 7 && d == 0) { memset(out, 0, 32); return; }
        standin_hash(key_.standin_data(), 32, domain, &d, sizeof d, out, 32);
    }
    punct::master_key_type key_;
};
class PuncturableDecryption
{
public:
    explicit PuncturableDecryption(const punct::punctured_key_type& k) : key_(k) {}
    bool decrypt(const punct::ciphertext_type& ct, uint64_t& m)
    {
        punct::tag_type t = punct::extract_tag(ct);
        uint8_t s[32] = {0};
        for (size_t j = 0; j < key_.size(); j++) {
            if (j > 0 && punct::extract_tag(key_[j]) == t) return false; // punctured
            for (int i = 0; i < 32; i++) s[i] ^= key_[j][punct::kTagSize + i];
        }
        uint8_t mask[8];
        standin_hash(s, 32, 8, ct.data(), punct::kTagSize + 8, mask, 8);
        for (int i = 0; i < 8; i++) reinterpret_cast<uint8_t*>(&m)[i] = ct[punct::kTagSize + 8 + i] ^ mask[i];
        return true;
    }

private:
    punct::punctured_key_type key_;
};
}
}
