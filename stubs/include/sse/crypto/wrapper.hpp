#pragma once
#include <sse/crypto/key.hpp>
#include <sse/crypto/rcprf.hpp>
namespace sse {
namespace crypto {
// Authenticated: what was wrapped under another key, or changed, is refused.
class Wrapper
{
public:
    static constexpr size_t kKeySize = 32;
    explicit Wrapper(Key<kKeySize>&& k) : key_(std::move(k)) {}
    template<class C> std::vector<uint8_t> wrap(const C& c) const
    {
        std::vector<uint8_t> v = c.standin_write();
        uint8_t tag[16];
        standin_hash(key_.standin_data(), kKeySize, 5, v.data(), v.size(), tag, sizeof tag);
        v.insert(v.end(), tag, tag + sizeof tag);
        return v;
    }
    template<class C> C unwrap(const std::vector<uint8_t>& b) const
    {
        uint8_t tag[16];
        if (b.size() < 16) throw std::runtime_error("Unable to unwrap: too short");
        std::vector<uint8_t> v(b.begin(), b.end() - 16);
        standin_hash(key_.standin_data(), kKeySize, 5, v.data(), v.size(), tag, sizeof tag);
        if (memcmp(tag, &b[v.size()], 16) != 0) throw std::runtime_error("Unable to unwrap: verification failed");
        return C::standin_read(v);
    }

private:
    Key<kKeySize> key_;
};
}
}
