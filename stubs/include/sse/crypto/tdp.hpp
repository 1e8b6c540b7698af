// A trapdoor permutation whose trapdoor is public: x -> P_id(x).
#pragma once
#include <sse/crypto/prf.hpp>
namespace sse {
namespace crypto {
class Tdp
{
public:
    static constexpr size_t kMessageSize = 256;
    static constexpr size_t kRSAPrfSize  = kMessageSize + 32;
    using array = std::array<uint8_t, kMessageSize>;

    explicit Tdp(const std::string& pk)
    {
        if (pk.size() != 40 || pk.compare(0, 8, "PUBLIC: ") != 0) throw std::runtime_error("Error when initializing the RSA key from public key.");
        id_ = pk.substr(8);
    }
    virtual ~Tdp() = default;
    std::string public_key() const { return "PUBLIC: " + id_; }
    std::string generate(const Prf<kRSAPrfSize>& prg, const std::string& seed) const
    {
        auto a = generate_array(prg, seed);
        return std::string(a.begin(), a.end());
    }
    array generate_array(const Prf<kRSAPrfSize>& prg, const std::string& seed) const
    {
        auto  r = prg.prf(seed);
        array a;
        memcpy(a.data(), r.data(), kMessageSize);
        return a;
    }
    array eval(const array& in) const
    {
        array o;
        standin_permute(id_.data(), id_.size(), in.data(), o.data(), kMessageSize, 1, 0);
        return o;
    }

protected:
    Tdp() = default;
    std::string id_; // 32 characters
};
class TdpInverse : public Tdp
{
public:
    TdpInverse()
    {
        id_.resize(32);
        uint8_t b[16];
        standin_random(b, sizeof b);
        for (int i = 0; i < 32; i++) id_[i] = "0123456789abcdef"[b[i / 2] >> (4 * (i % 2)) & 15];
    }
    explicit TdpInverse(const std::string& sk)
    {
        if (sk.size() != 40 || sk.compare(0, 8, "SECRET: ") != 0) throw std::runtime_error("Error when initializing the RSA key from secret key.");
        id_ = sk.substr(8);
    }
    std::string private_key() const { return "SECRET: " + id_; }
    array invert(const array& in) const { return invert_mult(in, 1); }
    array invert_mult(const array& in, uint32_t order) const
    {
        array o;
        standin_permute(id_.data(), id_.size(), in.data(), o.data(), kMessageSize, order, 1);
        return o;
    }
};
class TdpMultPool : public Tdp
{
public:
    TdpMultPool(const std::string& pk, uint8_t size) : Tdp(pk), size_(size)
    {
        if (size == 0) throw std::invalid_argument("Invalid Multiple TDP pool input size. Pool size should be > 0.");
    }
    using Tdp::eval;
    array eval(const array& in, uint8_t order) const
    {
        if (order == 0 || order > size_)
            throw std::invalid_argument("Invalid order for this TDP pool. The input order must be less than the maximum order supported by the pool, and strictly positive.");
        array o;
        standin_permute(id_.data(), id_.size(), in.data(), o.data(), kMessageSize, order, 0);
        return o;
    }
    uint8_t maximum_order() const { return size_; }
    uint8_t pool_size() const { return size_; }

private:
    uint8_t size_;
};
}
}
