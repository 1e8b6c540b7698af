// Stand-in for crypto-tk (absent here): the same interface, deterministic and
// fast. The functions behave as ideal ones would (distinct inputs give distinct
// outputs); they hide nothing. What callers can get wrong is kept: keys are
// moved, a key erases the buffer it is built from, sizes and ranges are
// checked, a punctured key decrypts only with its whole chain of shares.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <list>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

extern "C" {
// out[0..outlen) = F(key, domain, data)
void standin_hash(const void* key, size_t keylen, uint64_t domain, const void* data, size_t len, void* out, size_t outlen);
void standin_random(void* out, size_t len);
void standin_chacha(uint8_t* out, size_t len, const uint8_t* nonce, const uint8_t* key);
// invertible; in and out are n bytes
void standin_permute(const void* key, size_t keylen, const uint8_t* in, uint8_t* out, size_t n, uint64_t times, int inverse);
}

namespace sse {
namespace crypto {
inline void init_crypto_lib() {}
inline void cleanup_crypto_lib() {}
}
}
