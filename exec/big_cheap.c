/* C27: stand-ins for the permutations, linked over the compact implementation (ld --wrap), so that a call on 4 GiB takes
   about a second: what is checked here is how the constructions cut and count, not the permutation.  big_ref.c has the same. */
#include "big_cheap.h"
void __wrap_KeccakP1600_Permute_24rounds(void *s) { cheap64(s, 24); }
void __wrap_KeccakP1600_Permute_12rounds(void *s) { cheap64(s, 12); }
void __wrap_KeccakP1600_Permute_Nrounds(void *s, unsigned n) { cheap64(s, n); }
void __wrap_Xoodoo_Permute_6rounds(void *s) { cheap32(s, 6); }
void __wrap_Xoodoo_Permute_12rounds(void *s) { cheap32(s, 12); }
