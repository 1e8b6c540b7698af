#pragma once
#include <sse/crypto/key.hpp>
namespace sse {
namespace crypto {
class Prg
{
public:
    static constexpr size_t kKeySize = 32;
    explicit Prg(Key<kKeySize>&& k) : key_(std::move(k)) {}
    void derive(size_t offset, size_t len, unsigned char* out) const
    {
        std::vector<uint8_t> b(offset + len);
        standin_hash(key_.standin_data(), kKeySize, 2, nullptr, 0, b.data(), b.size());
        memcpy(out, b.data() + offset, len);
    }
    void derive(size_t len, unsigned char* out) const { derive(0, len, out); }

private:
    Key<kKeySize> key_;
};
}
}
