#include <stdint.h>
/* invertible, every output lane depends on every input lane, different for every number of rounds */
static void cheap64(uint64_t *s, unsigned nr)
{
    uint64_t t = 0x9E3779B97F4A7C15ULL * nr, u; int i;
    for (i = 0; i < 25; i++) t ^= (s[i] << (2 * i + 1)) | (s[i] >> (63 - 2 * i));
    t = (t ^ (t >> 29)) * 0xBF58476D1CE4E5B9ULL;
    for (i = 0; i < 25; i++) { u = s[i] + t; s[i] = (u << 21) | (u >> 43); t = (t ^ s[i]) + 0x94D049BB133111EBULL; t = (t << 9) | (t >> 55); }
}
static void cheap32(uint32_t *s, unsigned nr)
{
    uint32_t t = 0x9E3779B9U * nr, u; int i;
    for (i = 0; i < 12; i++) t ^= (s[i] << (2 * i + 1)) | (s[i] >> (31 - 2 * i));
    t = (t ^ (t >> 15)) * 0x85EBCA6BU;
    for (i = 0; i < 12; i++) { u = s[i] + t; s[i] = (u << 13) | (u >> 19); t = (t ^ s[i]) + 0xC2B2AE35U; t = (t << 7) | (t >> 25); }
}
