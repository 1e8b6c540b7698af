#pragma once
#include <stddef.h>
#include <string.h>
static inline void sodium_memzero(void* p, size_t n) { memset(p, 0, n); }
