// The functions behind the stand-in of crypto-tk. Compiled without
// instrumentation: nothing here is code under test.
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <sys/random.h>

static inline uint64_t rot(uint64_t x, int n) { return x << n | x >> (64 - n); }
static inline uint64_t fin(uint64_t x)
{
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL;
    x ^= x >> 27; x *= 0x94d049bb133111ebULL;
    return x ^ x >> 31;
}
struct St { uint64_t a, b; };
static void absorb(St& s, const uint8_t* p, size_t n)
{
    uint64_t w;
    size_t   m = n;
    for (; n >= 8; p += 8, n -= 8) {
        memcpy(&w, p, 8);
        s.a = fin(s.a ^ w); s.b = rot(s.b, 23) + fin(s.b ^ rot(w, 32)) + s.a;
    }
    w = 0;
    memcpy(&w, p, n);
    s.a = fin(s.a ^ w ^ (uint64_t)m << 56); s.b = rot(s.b, 23) + fin(s.b ^ rot(w, 32) ^ m) + s.a;
}
extern "C" {
void standin_hash(const void* key, size_t keylen, uint64_t domain, const void* data, size_t len, void* out, size_t outlen)
{
    St s = {0x9e3779b97f4a7c15ULL ^ domain, 0xd1b54a32d192ed03ULL + domain};
    absorb(s, (const uint8_t*)key, keylen);
    absorb(s, (const uint8_t*)data, len);
    uint8_t* o = (uint8_t*)out;
    for (uint64_t i = 1; outlen; i++) {
        uint64_t w[2] = {fin(s.a + i * 0x9e3779b97f4a7c15ULL) ^ s.b, fin(s.b + i * 0xd1b54a32d192ed03ULL) ^ rot(s.a, 17)};
        size_t n = outlen < 16 ? outlen : 16;
        memcpy(o, w, n);
        o += n; outlen -= n;
    }
}
void standin_random(void* out, size_t len)
{
    uint8_t* o = (uint8_t*)out;
    while (len) {
        ssize_t r = getrandom(o, len < 256 ? len : 256, 0);
        if (r <= 0) continue;
        o += r; len -= (size_t)r;
    }
}
void standin_chacha(uint8_t* out, size_t len, const uint8_t* nonce, const uint8_t* key)
{
    standin_hash(key, 32, 9, nonce, 8, out, len);
}
void standin_permute(const void* key, size_t keylen, const uint8_t* in, uint8_t* out, size_t n, uint64_t times, int inverse)
{ // two rounds of a Feistel network on the first 32 bytes, with the rest as tweak
    uint8_t k[16];
    standin_hash(key, keylen, 10, in + 32, n - 32, k, 16);
    uint64_t x[4];
    memcpy(x, in, 32);
    uint64_t ka, kb;
    memcpy(&ka, k, 8);
    memcpy(&kb, k + 8, 8);
    for (; times; times--) {
        if (!inverse) {
            x[0] ^= fin(x[2] + ka); x[1] ^= fin(x[3] + kb);
            x[2] ^= fin(x[0] ^ kb ^ rot(x[1], 9)); x[3] ^= fin(x[1] ^ ka ^ rot(x[0], 31));
            x[0] += ka | 1;
        } else {
            x[0] -= ka | 1;
            x[2] ^= fin(x[0] ^ kb ^ rot(x[1], 9)); x[3] ^= fin(x[1] ^ ka ^ rot(x[0], 31));
            x[0] ^= fin(x[2] + ka); x[1] ^= fin(x[3] + kb);
        }
    }
    memcpy(out, x, 32);
    memmove(out + 32, in + 32, n - 32);
}
}
