#pragma once
#include <sse/crypto/core.hpp>
namespace sse {
namespace crypto {
inline void random_bytes(size_t n, unsigned char* b) { standin_random(b, n); }
template<typename T, size_t N> void random_bytes(std::array<T, N>& a) { standin_random(a.data(), sizeof(T) * N); }
template<typename T, size_t N> std::array<T, N> random_bytes()
{
    std::array<T, N> a;
    random_bytes(a);
    return a;
}
inline std::string random_string(size_t n)
{
    std::string s(n, 0);
    standin_random(&s[0], n);
    return s;
}
}
}
