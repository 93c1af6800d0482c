/* The two rotation instructions of AMD's XOP set, which no processor here has, in terms of SSE2: x86intrin.h declares them, and the
   code under test then gets these instead. */
#include <x86intrin.h>
#include <stdint.h>
static inline __m128i xv_rot64(__m128i a, __m128i n)
{
    union { __m128i v; uint64_t w[2]; int8_t b[16]; } x, c; int i; x.v = a; c.v = n;
    for (i = 0; i < 2; i++) { unsigned s = (unsigned)(c.b[8 * i] & 63); x.w[i] = s ? x.w[i] << s | x.w[i] >> (64 - s) : x.w[i]; }   /* a negative count rotates right */
    return x.v;
}
static inline __m128i xv_roti64(__m128i a, int n) { n &= 63; return n ? _mm_or_si128(_mm_slli_epi64(a, n), _mm_srli_epi64(a, 64 - n)) : a; }
#undef _mm_rot_epi64
#undef _mm_roti_epi64
#define _mm_rot_epi64(a, n) xv_rot64(a, n)
#define _mm_roti_epi64(a, n) xv_roti64(a, n)
#undef _mm_cmov_si128
#define _mm_cmov_si128(a, b, c) _mm_or_si128(_mm_and_si128(c, a), _mm_andnot_si128(c, b))
