#pragma once
#include <sse/crypto/hash.hpp>
#include <sse/crypto/key.hpp>
#include <sse/crypto/random.hpp>
namespace sse {
namespace crypto {
template<size_t NBYTES> class Prf
{
public:
    static constexpr size_t kKeySize = 32;

private:
    Key<kKeySize> key_;

public:
    Prf() = default;
    explicit Prf(Key<kKeySize>&& key) : key_(std::move(key)) {}
    Prf(const Prf&) = delete;
    Prf& operator=(const Prf&) = delete;
    Prf(Prf&&) = default;
    std::array<uint8_t, NBYTES> prf(const unsigned char* in, size_t len) const
    {
        std::array<uint8_t, NBYTES> r;
        standin_hash(key_.standin_data(), kKeySize, 1, in, len, r.data(), NBYTES);
        return r;
    }
    std::array<uint8_t, NBYTES> prf(const std::string& s) const { return prf(reinterpret_cast<const unsigned char*>(s.data()), s.size()); }
    template<size_t L> std::array<uint8_t, NBYTES> prf(const std::array<uint8_t, L>& a) const { return prf(a.data(), L); }
    Key<NBYTES> derive_key(const unsigned char* in, size_t len) const
    {
        auto r = prf(in, len);
        return Key<NBYTES>(r.data());
    }
    Key<NBYTES> derive_key(const std::string& s) const { return derive_key(reinterpret_cast<const unsigned char*>(s.data()), s.size()); }
    template<size_t L> Key<NBYTES> derive_key(const std::array<uint8_t, L>& a) const { return derive_key(a.data(), L); }
};
template<size_t N> constexpr size_t Prf<N>::kKeySize;
}
}
