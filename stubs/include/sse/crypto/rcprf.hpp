// A range-constrained PRF: leaf i of the tree of a key is F(key, i). A
// constrained key knows which leaves it may evaluate.
#pragma once
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <memory>
namespace sse {
namespace crypto {
struct RCPrfParams
{
    using depth_type = uint8_t;
    static constexpr size_t kKeySize = 32;
};
template<size_t NBYTES> class ConstrainedRCPrfElement {};
template<size_t NBYTES> class ConstrainedRCPrf
{
public:
    static constexpr size_t kKeySize = 32;
    explicit ConstrainedRCPrf(std::vector<std::unique_ptr<ConstrainedRCPrfElement<NBYTES>>>&& e) { if (!e.empty()) throw std::invalid_argument("not supported"); }
    ConstrainedRCPrf(const ConstrainedRCPrf&) = delete;
    ConstrainedRCPrf& operator=(const ConstrainedRCPrf&) = delete;
    ConstrainedRCPrf(ConstrainedRCPrf&&) noexcept = default;
    ConstrainedRCPrf& operator=(ConstrainedRCPrf&&) noexcept = default;
    std::array<uint8_t, NBYTES> eval(uint64_t leaf) const
    {
        check(leaf, leaf);
        std::array<uint8_t, NBYTES> r;
        standin_hash(root_.data(), root_.size(), 4, &leaf, sizeof leaf, r.data(), NBYTES);
        return r;
    }
    void eval_range(uint64_t min_leaf, uint64_t max_leaf, const std::function<void(uint64_t, std::array<uint8_t, NBYTES>)>& callback) const
    {
        check(min_leaf, max_leaf);
        for (uint64_t i = min_leaf;; i++) {
            callback(i, eval(i));
            if (i == max_leaf) break;
        }
    }
    uint64_t min_leaf() const { return min_; }
    uint64_t max_leaf() const { return max_; }
    // serialisation (used by Wrapper)
    std::vector<uint8_t> standin_write() const
    {
        std::vector<uint8_t> v(1 + 16 + 32);
        v[0] = some_;
        memcpy(&v[1], &min_, 8);
        memcpy(&v[9], &max_, 8);
        memcpy(&v[17], root_.data(), 32);
        return v;
    }
    static ConstrainedRCPrf standin_read(const std::vector<uint8_t>& v)
    {
        if (v.size() != 49) throw std::runtime_error("bad representation");
        ConstrainedRCPrf c{{}};
        c.some_ = v[0];
        memcpy(&c.min_, &v[1], 8);
        memcpy(&c.max_, &v[9], 8);
        memcpy(c.root_.data(), &v[17], 32);
        return c;
    }
    ConstrainedRCPrf(const std::array<uint8_t, 32>& root, uint64_t min, uint64_t max) : root_(root), min_(min), max_(max), some_(true) {}

private:
    void check(uint64_t min, uint64_t max) const
    {
        if (min > max) throw std::invalid_argument("Invalid range: min > max");
        if (!some_ || min < min_ || max > max_) throw std::out_of_range("Invalid index: the leaf is out of the constrained range");
    }
    std::array<uint8_t, 32> root_ = {{0}};
    uint64_t min_ = 0, max_ = 0;
    bool some_ = false;
};
template<size_t NBYTES> class RCPrf
{
public:
    static constexpr size_t kKeySize = 32;
    using depth_type = uint8_t;
    RCPrf(Key<kKeySize>&& key, depth_type height) : height_(height) { memcpy(root_.data(), key.standin_data(), 32); }
    std::array<uint8_t, NBYTES> eval(uint64_t leaf) const { return whole().eval(leaf); }
    ConstrainedRCPrf<NBYTES> constrain(uint64_t min, uint64_t max) const
    {
        if (min > max) throw std::invalid_argument("Invalid range: min > max");
        if (max > last()) throw std::out_of_range("Invalid index: leaf index > 2^height");
        return ConstrainedRCPrf<NBYTES>(root_, min, max);
    }
    depth_type tree_height() const { return height_; }

private:
    uint64_t last() const { return height_ >= 65 ? UINT64_MAX : (uint64_t(1) << (height_ - 1)) - 1; }
    ConstrainedRCPrf<NBYTES> whole() const { return ConstrainedRCPrf<NBYTES>(root_, 0, last()); }
    std::array<uint8_t, 32> root_;
    depth_type height_;
};
}
}
