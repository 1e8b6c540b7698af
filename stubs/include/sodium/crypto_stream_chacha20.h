#pragma once
#include <sse/crypto/core.hpp>
#define crypto_stream_chacha20_KEYBYTES 32U
#define crypto_stream_chacha20_NONCEBYTES 8U
static inline int crypto_stream_chacha20(unsigned char* c, unsigned long long clen, const unsigned char* n, const unsigned char* k)
{
    standin_chacha(c, clen, n, k);
    return 0;
}
static inline int crypto_stream_chacha20_xor(unsigned char* c, const unsigned char* m, unsigned long long len, const unsigned char* n, const unsigned char* k)
{
    unsigned char s[256];
    for (unsigned long long at = 0; at < len;) {
        // one stream, produced in one piece
        unsigned char* whole = len <= sizeof s ? s : new unsigned char[len];
        standin_chacha(whole, len, n, k);
        for (; at < len; at++) c[at] = m[at] ^ whole[at];
        if (whole != s) delete[] whole;
    }
    return 0;
}
