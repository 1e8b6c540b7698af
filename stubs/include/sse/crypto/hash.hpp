#pragma once
#include <sse/crypto/core.hpp>
namespace sse {
namespace crypto {
class Hash
{
public:
    static constexpr size_t kDigestSize = 64;
    static void hash(const unsigned char* in, size_t len, unsigned char* out) { standin_hash(nullptr, 0, 3, in, len, out, kDigestSize); }
    static void hash(const unsigned char* in, size_t len, size_t out_len, unsigned char* out)
    {
        if (out_len > kDigestSize) throw std::invalid_argument("Invalid output length");
        standin_hash(nullptr, 0, 3, in, len, out, out_len);
    }
    static void hash(const std::string& in, std::string& out)
    {
        out.resize(kDigestSize);
        hash(reinterpret_cast<const unsigned char*>(in.data()), in.size(), reinterpret_cast<unsigned char*>(&out[0]));
    }
    static std::string hash(const std::string& in)
    {
        std::string o;
        hash(in, o);
        return o;
    }
};
}
}
