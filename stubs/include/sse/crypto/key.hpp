#pragma once
#include <sse/crypto/core.hpp>
namespace sse {
namespace crypto {
template<size_t N> class Key
{
    std::array<uint8_t, N> k_;
    bool empty_ = false;

public:
    Key() { standin_random(k_.data(), N); }
    explicit Key(uint8_t* const b)
    {
        if (b == nullptr) throw std::invalid_argument("Invalid key: key == NULL");
        memcpy(k_.data(), b, N);
        memset(b, 0, N); // the buffer is erased
    }
    Key(const Key&) = delete;
    Key& operator=(const Key&) = delete;
    Key(Key&& o) noexcept : k_(o.k_), empty_(o.empty_) { o.k_.fill(0); o.empty_ = true; }
    Key& operator=(Key&& o) noexcept
    {
        if (&o != this) { k_ = o.k_; empty_ = o.empty_; o.k_.fill(0); o.empty_ = true; }
        return *this;
    }
    ~Key() { k_.fill(0); }
    const uint8_t* standin_data() const
    {
        if (empty_) throw std::runtime_error("The key was moved away");
        return k_.data();
    }
};
}
}
