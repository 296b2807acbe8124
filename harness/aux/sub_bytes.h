#include <stddef.h>
#include <stdint.h>
static inline void sub_bytes(char *b, size_t n, uint64_t seed, int any)
{
    uint64_t s = seed * 0x9E3779B97F4A7C15ull + 12345;
    for (size_t i = 0; i < n; ++i)
    {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        unsigned v = (unsigned)(s >> 40);
        b[i] = any ? (char)(v & 255) : (char)(v % 90 < 84 ? 33 + v % 90 : '\n');
    }
}
static inline uint64_t sub_hash(const char *b, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)b[i]) * 1099511628211ull;
    return h;
}
