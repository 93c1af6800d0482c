From 5ad39b825253457a01bd8bce10a45543d4fa4763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 01/23] fix: duplex: do not touch the byte before an empty
 output buffer

When the rate is not a multiple of 8 and all output bytes have already been
retrieved, DuplexingGetFurtherOutput() and DuplexingGetFurtherOutputAndAdd()
called with a zero length masked output[-1].
---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index cdacc0a..3af1a61 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -161,7 +161,7 @@ int DuplexingGetFurtherOutput(DuplexInstance *instance, unsigned char *output, u
 
     SnP_ExtractBytes(&instance->state, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen > 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
@@ -175,7 +175,7 @@ int DuplexingGetFurtherOutputAndAdd(DuplexInstance *instance, const unsigned cha
 
     SnP_ExtractAndAddBytes(&instance->state, input, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen > 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
-- 
2.43.0


From a90e41fcf4b87286403618fc9f56e9d57923f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 02/23] fix: duplex: count queued input when checking the
 delimited last bits

Duplexing() checked that delimitedSigmaEnd fits in the rate without taking into
account the bytes already given with DuplexingFeedPartialInput() and friends, so
over-long inputs were accepted and spilled into the padding and the capacity.
---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index 3af1a61..9732642 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -60,8 +60,8 @@ int Duplexing(DuplexInstance *instance, const unsigned char *sigmaBegin, unsigne
         return 1;
     if ((instance->byteInputIndex+sigmaBeginByteLen)*8 > rho_max)
         return 1;
-    if (rho_max - sigmaBeginByteLen*8 < 7) {
-        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - sigmaBeginByteLen*8;
+    if (rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8 < 7) {
+        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8;
         if (delimitedSigmaEnd >= (1 << (maxBitsInDelimitedSigmaEnd+1)))
             return 1;
     }
-- 
2.43.0


From a453cf537348e7a837c5b6972a1c2af741856883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 03/23] fix: ParallelHash: avoid an overflow with very large
 block lengths

Parallellism * blockLen wraps around for block lengths close to SIZE_MAX (e.g.
2^61 bytes with 8-way parallelism, or 2^31 with 2-way on 32-bit platforms), so
that the update function looped forever or read outside the input.
---
 lib/high/Keccak/SP800-185/SP800-185.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index 0c6d4c8..ac1cd4e 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -237,7 +237,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
 #define ParallelHash_Squeeze      JOIN(ParallelHash,_Squeeze)
 
 #define ParallelSpongeFastLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( inputByteLen / Parallellism >= phi->blockLen ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
@@ -263,7 +263,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
     }
 
 #define ParallelSpongeLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( inputByteLen / Parallellism >= phi->blockLen ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
-- 
2.43.0


From 631f7dbeeb25a01695907ee8057e2e66d8344bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 04/23] fix: Xoofff: no aligned 512-bit access to instances
 aligned on less

The AVX512 implementations of Xoodoo x4 and x8 accessed xAccu with instructions
that require 64-byte alignment, while Xoofff.h aligns it on 16 or 32 bytes when
no x16 implementation is selected.
---
 lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c | 8 ++++----
 lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c b/lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c
index d51fbbc..a6e1715 100644
--- a/lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c
+++ b/lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c
@@ -40,7 +40,7 @@ typedef struct
     uint32_t x[16];
 } __m512i;
 
-static void _mm512_mask_store_epi64(void *mem_addr, uint8_t k, __m512i a)
+static void _mm512_mask_storeu_epi64(void *mem_addr, uint8_t k, __m512i a)
 {
     uint64_t *p64 = (uint64_t *)mem_addr;
     unsigned int i;
@@ -51,7 +51,7 @@ static void _mm512_mask_store_epi64(void *mem_addr, uint8_t k, __m512i a)
     }
 }
 
-static __m512i _mm512_maskz_load_epi64(uint8_t k, const void *mem_addr)
+static __m512i _mm512_maskz_loadu_epi64(uint8_t k, const void *mem_addr)
 {
     __m512i r;
     const uint64_t *p64 = (const uint64_t *)mem_addr;
@@ -1092,8 +1092,8 @@ size_t Xooffftimes4_CompressFastLoop(unsigned char *k, unsigned char *x, const u
     x512 = _mm512_inserti64x4 (_mm512_castsi256_si512(x256), _mm256_castsi128_si256(x20), 1);
 
     /*  load xAccu, xor and store 12 lanes */
-    x512 = XOR512(x512, _mm512_maskz_load_epi64(0x3F, x32));
-    _mm512_mask_store_epi64(x32, 0x3F, x512);
+    x512 = XOR512(x512, _mm512_maskz_loadu_epi64(0x3F, x32));
+    _mm512_mask_storeu_epi64(x32, 0x3F, x512);
     DUMP32_12("x32",x32);
 
     /* Save new k */
diff --git a/lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c b/lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c
index d2eaa93..b9a20fc 100644
--- a/lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c
+++ b/lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c
@@ -41,7 +41,7 @@ typedef struct
     uint32_t x[16];
 } __m512i;
 
-static void _mm512_mask_store_epi64(void *mem_addr, uint8_t k, __m512i a)
+static void _mm512_mask_storeu_epi64(void *mem_addr, uint8_t k, __m512i a)
 {
     uint64_t *p64 = (uint64_t *)mem_addr;
     unsigned int i;
@@ -52,7 +52,7 @@ static void _mm512_mask_store_epi64(void *mem_addr, uint8_t k, __m512i a)
     }
 }
 
-static __m512i _mm512_maskz_load_epi64(uint8_t k, const void *mem_addr)
+static __m512i _mm512_maskz_loadu_epi64(uint8_t k, const void *mem_addr)
 {
     __m512i r;
     const uint64_t *p64 = (const uint64_t *)mem_addr;
@@ -1110,8 +1110,8 @@ size_t Xooffftimes8_CompressFastLoop(unsigned char *k, unsigned char *x, const u
     x512 = _mm512_inserti64x4 (_mm512_castsi256_si512(x00), x20, 1);
 
     /*  load xAccu, xor and store 12 lanes */
-    x512 = XOR512(x512, _mm512_maskz_load_epi64(0x3F, x32));
-    _mm512_mask_store_epi64(x32, 0x3F, x512);
+    x512 = XOR512(x512, _mm512_maskz_loadu_epi64(0x3F, x32));
+    _mm512_mask_storeu_epi64(x32, 0x3F, x512);
     DUMP32_12("x32",x32);
 
     /* Save new k */
-- 
2.43.0


From d34635ab57a748222b03117f4fee762cf10a3c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 05/23] fix: Xoodyak ARMv6M: use the byte-wise path when either
 buffer is unaligned

---
 lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s | 4 ++--
 lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s b/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s
index 41981b0..d12d654 100644
--- a/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s
+++ b/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s
@@ -877,7 +877,7 @@ Xoodyak_EncryptFullBlocks_Ret
     ldr     r5, [sp, #XoodyakCrypt_offsetI+8]
     ldr     r4, [sp, #XoodyakCrypt_offsetO+8]
     mov     r0, r4
-    ands    r0, r0, r5
+    orrs    r0, r0, r5
     lsls    r0, r0, #30
     bne     Xoodyak_EncryptFullBlocks_Unaligned
 Xoodyak_EncryptFullBlocks_Aligned
@@ -1047,7 +1047,7 @@ Xoodyak_DecryptFullBlocks_Ret
     ldr     r5, [sp, #XoodyakCrypt_offsetI+8]
     ldr     r4, [sp, #XoodyakCrypt_offsetO+8]
     mov     r0, r4
-    ands    r0, r0, r5
+    orrs    r0, r0, r5
     lsls    r0, r0, #30
     bne     Xoodyak_DecryptFullBlocks_Unaligned
 Xoodyak_DecryptFullBlocks_Aligned
diff --git a/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s b/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s
index 994affa..f11bf8f 100644
--- a/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s
+++ b/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s
@@ -878,7 +878,7 @@ Xoodyak_EncryptFullBlocks_Ret:
     ldr     r5, [sp, #XoodyakCrypt_offsetI+8]
     ldr     r4, [sp, #XoodyakCrypt_offsetO+8]
     mov     r0, r4
-    ands    r0, r0, r5
+    orrs    r0, r0, r5
     lsls    r0, r0, #30
     bne     Xoodyak_EncryptFullBlocks_Unaligned
 Xoodyak_EncryptFullBlocks_Aligned:
@@ -1049,7 +1049,7 @@ Xoodyak_DecryptFullBlocks_Ret:
     ldr     r5, [sp, #XoodyakCrypt_offsetI+8]
     ldr     r4, [sp, #XoodyakCrypt_offsetO+8]
     mov     r0, r4
-    ands    r0, r0, r5
+    orrs    r0, r0, r5
     lsls    r0, r0, #30
     bne     Xoodyak_DecryptFullBlocks_Unaligned
 Xoodyak_DecryptFullBlocks_Aligned:
-- 
2.43.0


From 461a4029579e63639f1ee0a915268f559e5842c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:44 +0000
Subject: [PATCH 06/23] fix: KeccakSum passes the security level to
 KangarooTwelve_Initialize

KangarooTwelve_Initialize takes the security level since KT256 was added;
KeccakSum did not compile any more.
---
 util/KeccakSum/KeccakSum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index f921259..440d6c8 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -67,7 +67,7 @@ int hashInitialize(Instance *instance, const Specifications *specs)
             return 0;
     }
     else if (specs->algorithm == algorithm_K12) {
-        if (KangarooTwelve_Initialize(&instance->k12, specs->hashbitlen/8)) {
+        if (KangarooTwelve_Initialize(&instance->k12, 128, specs->hashbitlen/8)) {
             printf("Incorrect KangarooTwelve parameters.\n");
             return -1;
         }
-- 
2.43.0


From 3851e1bc40b8322dc368032375514f45ed42a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:44 +0000
Subject: [PATCH 07/23] fix: KeccakSum switches back to Keccak after --k12 or
 --ph128/256

The options are processed in order, but --shake128, --sha3-256 and the like
did not select the Keccak sponge again: after --k12 or --ph128 the file was
hashed with KangarooTwelve or ParallelHash under the name of SHA-3.
---
 util/KeccakSum/KeccakSum.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index 440d6c8..ccc31ba 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -269,6 +269,7 @@ int process(int argc, char* argv[])
             }
         }
         else if (strcmp("--shake128", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1344;
             specs.capacity = 256;
             specs.hashbitlen = 264;
@@ -276,6 +277,7 @@ int process(int argc, char* argv[])
             base64 = 1;
         }
         else if (strcmp("--shake256", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1088;
             specs.capacity = 512;
             specs.hashbitlen = 528;
@@ -283,6 +285,7 @@ int process(int argc, char* argv[])
             base64 = 1;
         }
         else if (strcmp("--sha3-224", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1152;
             specs.capacity = 448;
             specs.hashbitlen = 224;
@@ -290,6 +293,7 @@ int process(int argc, char* argv[])
             base64 = 0;
         }
         else if (strcmp("--sha3-256", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1088;
             specs.capacity = 512;
             specs.hashbitlen = 256;
@@ -297,6 +301,7 @@ int process(int argc, char* argv[])
             base64 = 0;
         }
         else if (strcmp("--sha3-384", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 832;
             specs.capacity = 768;
             specs.hashbitlen = 384;
@@ -304,6 +309,7 @@ int process(int argc, char* argv[])
             base64 = 0;
         }
         else if (strcmp("--sha3-512", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 576;
             specs.capacity = 1024;
             specs.hashbitlen = 512;
@@ -314,6 +320,7 @@ int process(int argc, char* argv[])
             specs.delimitedSuffix = 0x01;
         }
         else if (strcmp("--ethereum", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1088;
             specs.capacity = 512;
             specs.hashbitlen = 256;
-- 
2.43.0


From 7deb34f82d0f5339ae0e6536d4d662f17415c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 08/23] fix: ParallelHash counts the input in 64 bits where
 size_t is narrower

---
 lib/high/Keccak/SP800-185/SP800-185.h   | 2 +-
 lib/high/Keccak/SP800-185/SP800-185.inc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.h b/lib/high/Keccak/SP800-185/SP800-185.h
index d5c153b..1b4cc53 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.h
+++ b/lib/high/Keccak/SP800-185/SP800-185.h
@@ -319,7 +319,7 @@ typedef struct {
     size_t fixedOutputLength;
     size_t blockLen;
     size_t queueAbsorbedLen;
-    size_t totalInputSize;
+    uint64_t totalInputSize;
     KCP_Phases phase;
 } ParallelHash_Instance;
 
diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index ac1cd4e..c8ede04 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -433,7 +433,7 @@ int ParallelHash_Final(ParallelHash_Instance *phi, BitSequence * output)
             return 1;
     }
 
-    nBlocks = (phi->totalInputSize / 8 + phi->blockLen - 1) / phi->blockLen;
+    nBlocks = (size_t)((phi->totalInputSize / 8 + phi->blockLen - 1) / phi->blockLen);
     if (KeccakWidth1600_SpongeAbsorb(&phi->finalNode, encbuf, right_encode(encbuf, nBlocks)) != 0) /* Absorb number of blocks */
         return 1;
 
-- 
2.43.0


From cfc0c21ac5d5d0825a4af402dc941089a3e941eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 09/23] fix: Kravatte and Xoofff: ignore the bits beyond the
 end of an input string

The last partial byte of an input string was added to the padding without
removing the bits beyond the string, so that a string followed by such bits
gave the same output as a longer string. WBC-AE deciphering, for one,
accepted associated data shortened by a few bits.
---
 lib/high/Kravatte/Kravatte.c | 2 +-
 lib/high/Xoofff/Xoofff.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Kravatte/Kravatte.c b/lib/high/Kravatte/Kravatte.c
index 6cd49d1..b3192f1 100644
--- a/lib/high/Kravatte/Kravatte.c
+++ b/lib/high/Kravatte/Kravatte.c
@@ -328,7 +328,7 @@ static const unsigned char * Kra_Compress( unsigned char *k, unsigned char *x, c
         message += messageByteLen;
         *messageBitLen %= 8;
         if (*messageBitLen != 0) /* padding */
-            KeccakP1600_AddByte(&state, *message++ | (1 << *messageBitLen), (unsigned int)messageByteLen);
+            KeccakP1600_AddByte(&state, (*message++ & ((1 << *messageBitLen) - 1)) | (1 << *messageBitLen), (unsigned int)messageByteLen);
         else
             KeccakP1600_AddByte(&state, 1, (unsigned int)messageByteLen);
         KeccakP1600_Permute_Nrounds(&state, 6);
diff --git a/lib/high/Xoofff/Xoofff.c b/lib/high/Xoofff/Xoofff.c
index 5069627..2205a62 100644
--- a/lib/high/Xoofff/Xoofff.c
+++ b/lib/high/Xoofff/Xoofff.c
@@ -430,7 +430,7 @@ static const unsigned char * Xoodoo_CompressBlocks( unsigned char *k, unsigned c
         message += messageByteLen;
         *messageBitLen %= 8;
         if (*messageBitLen != 0) /* padding */
-            Xoodoo_AddByte(&state, *message++ | (1 << *messageBitLen), messageByteLen);
+            Xoodoo_AddByte(&state, (*message++ & ((1 << *messageBitLen) - 1)) | (1 << *messageBitLen), messageByteLen);
         else
             Xoodoo_AddByte(&state, 1, messageByteLen);
         Xoodoo_Permute_6rounds(&state);
-- 
2.43.0


From 98222a3358e611762a45457ea40894efb4d4935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 10/23] fix: Kravatte-SANE and Xoofff-SANE: ignore the bits
 beyond the end of a string in the history

Bits beyond the end of the associated data or ciphertext overwrote the bit
that separates the two in the history, so that a ciphertext without associated
data was accepted as associated data without ciphertext. SANSE masks them
already.
---
 lib/high/Kravatte/KravatteModes.c | 4 ++--
 lib/high/Xoofff/XoofffModes.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/high/Kravatte/KravatteModes.c b/lib/high/Kravatte/KravatteModes.c
index 50cc5f7..4a1753b 100644
--- a/lib/high/Kravatte/KravatteModes.c
+++ b/lib/high/Kravatte/KravatteModes.c
@@ -151,11 +151,11 @@ static int Kravatte_SANE_AddToHistory(Kravatte_SANE_Instance *kp, const BitSeque
         dataBitLen = 2;
     }
     else if (dataBitLen <= 6) {
-        lastByte[0] = (BitSequence)(*data | (appendix << dataBitLen) | (kp->e << (dataBitLen + 1)));
+        lastByte[0] = (BitSequence)((*data & ((1 << dataBitLen) - 1)) | (appendix << dataBitLen) | (kp->e << (dataBitLen + 1)));
         dataBitLen += 2;
     }
     else { /* dataBitLen == 7 */
-        lastByte[0] = (BitSequence)(*data | (appendix << 7));
+        lastByte[0] = (BitSequence)((*data & 0x7F) | (appendix << 7));
         if ( Kra(&kp->kravatte, lastByte, 8, KRAVATTE_FLAG_NONE) != 0) {
             return 1;
         }
diff --git a/lib/high/Xoofff/XoofffModes.c b/lib/high/Xoofff/XoofffModes.c
index bc6180b..232e9f5 100644
--- a/lib/high/Xoofff/XoofffModes.c
+++ b/lib/high/Xoofff/XoofffModes.c
@@ -278,11 +278,11 @@ static int XoofffSANE_AddToHistory(XoofffSANE_Instance *xp, const BitSequence *d
         dataBitLen = 2;
     }
     else if (dataBitLen <= 6) {
-        lastByte[0] = (BitSequence)(*data | (appendix << dataBitLen) | (xp->e << (dataBitLen + 1)));
+        lastByte[0] = (BitSequence)((*data & ((1 << dataBitLen) - 1)) | (appendix << dataBitLen) | (xp->e << (dataBitLen + 1)));
         dataBitLen += 2;
     }
     else { /* dataBitLen == 7 */
-        lastByte[0] = (BitSequence)(*data | (appendix << 7));
+        lastByte[0] = (BitSequence)((*data & 0x7F) | (appendix << 7));
         if ( Xoofff_Compress(&xp->xoofff, lastByte, 8, Xoofff_FlagNone) != 0) {
             return 1;
         }
-- 
2.43.0


From ade88991d2b3d55a08673955325314e7b71bebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 11/23] fix: low-level model: lengths that overflow the bounds
 check are refused

---
 doc/Low level model/src/PlSnP.cpp | 8 ++++----
 doc/Low level model/src/SnP.cpp   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/doc/Low level model/src/PlSnP.cpp b/doc/Low level model/src/PlSnP.cpp
index fa5431b..2a6721f 100644
--- a/doc/Low level model/src/PlSnP.cpp	
+++ b/doc/Low level model/src/PlSnP.cpp	
@@ -71,7 +71,7 @@ void PlSnP::AddBytes(unsigned int instanceIndex, const unsigned char *data, unsi
         throw Exception("instance index is out of range");
     else if (offset >= widthInBytes)
         throw Exception("offset must be less than the width in bytes");
-    else if ((offset+length) > widthInBytes)
+    else if (length > (widthInBytes - offset))
         throw Exception("offset+length must be not greater than the width in bytes");
     else {
         for(unsigned int i=0; i<length; i++)
@@ -96,7 +96,7 @@ void PlSnP::OverwriteBytes(unsigned int instanceIndex, const unsigned char *data
         throw Exception("instance index is out of range");
     else if (offset >= widthInBytes)
         throw Exception("offset must be less than the width in bytes");
-    else if ((offset+length) > widthInBytes)
+    else if (length > (widthInBytes - offset))
         throw Exception("offset+length must be not greater than the width in bytes");
     else {
         for(unsigned int i=0; i<length; i++)
@@ -148,7 +148,7 @@ void PlSnP::ExtractBytes(unsigned int instanceIndex, unsigned char *data, unsign
         throw Exception("instance index is out of range");
     else if (offset >= widthInBytes)
         throw Exception("offset must be less than the width in bytes");
-    else if ((offset+length) > widthInBytes)
+    else if (length > (widthInBytes - offset))
         throw Exception("offset+length must be not greater than the width in bytes");
     else {
         for(unsigned int i=0; i<length; i++)
@@ -173,7 +173,7 @@ void PlSnP::ExtractAndAddBytes(unsigned int instanceIndex, const unsigned char *
         throw Exception("instance index is out of range");
     else if (offset >= widthInBytes)
         throw Exception("offset must be less than the width in bytes");
-    else if ((offset+length) > widthInBytes)
+    else if (length > (widthInBytes - offset))
         throw Exception("offset+length must be not greater than the width in bytes");
     else {
         for(unsigned int i=0; i<length; i++)
diff --git a/doc/Low level model/src/SnP.cpp b/doc/Low level model/src/SnP.cpp
index 6a2ea2f..6b9bee5 100644
--- a/doc/Low level model/src/SnP.cpp	
+++ b/doc/Low level model/src/SnP.cpp	
@@ -62,7 +62,7 @@ void SnP::AddBytes(const unsigned char *data, unsigned int offset, unsigned int
 {
     if (offset >= widthInBytes)
         throw Exception("offset must be less than the width in bytes");
-    else if ((offset+length) > widthInBytes)
+    else if (length > (widthInBytes - offset))
         throw Exception("offset+length must be not greater than the width in bytes");
     else {
         for(unsigned int i=0; i<length; i++)
@@ -74,7 +74,7 @@ void SnP::OverwriteBytes(const unsigned char *data, unsigned int offset, unsigne
 {
     if (offset >= widthInBytes)
         throw Exception("offset must be less than the width in bytes");
-    else if ((offset+length) > widthInBytes)
+    else if (length > (widthInBytes - offset))
         throw Exception("offset+length must be not greater than the width in bytes");
     else {
         for(unsigned int i=0; i<length; i++)
@@ -109,7 +109,7 @@ void SnP::ExtractBytes(unsigned char *data, unsigned int offset, unsigned int le
 {
     if (offset >= widthInBytes)
         throw Exception("offset must be less than the width in bytes");
-    else if ((offset+length) > widthInBytes)
+    else if (length > (widthInBytes - offset))
         throw Exception("offset+length must be not greater than the width in bytes");
     else {
         for(unsigned int i=0; i<length; i++)
@@ -121,7 +121,7 @@ void SnP::ExtractAndAddBytes(const unsigned char *input, unsigned char *output,
 {
     if (offset >= widthInBytes)
         throw Exception("offset must be less than the width in bytes");
-    else if ((offset+length) > widthInBytes)
+    else if (length > (widthInBytes - offset))
         throw Exception("offset+length must be not greater than the width in bytes");
     else {
         for(unsigned int i=0; i<length; i++)
-- 
2.43.0


From 1d87d6e8e8810aa5ca9b9eb8baf8e96d7e8c33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 12/23] fix: low-level model: the permutation classes are
 destroyed through a virtual destructor

---
 doc/Low level model/src/Permutations.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doc/Low level model/src/Permutations.h b/doc/Low level model/src/Permutations.h
index 41a9be3..c5b293f 100644
--- a/doc/Low level model/src/Permutations.h	
+++ b/doc/Low level model/src/Permutations.h	
@@ -25,6 +25,10 @@ http://creativecommons.org/publicdomain/zero/1.0/
 class RoundCountParameterizedPermutation {
 public:
     RoundCountParameterizedPermutation() {};
+    /**
+      * Virtual destructor, as the instances are destroyed through pointers to this class.
+      */
+    virtual ~RoundCountParameterizedPermutation() {}
     /**
       * Abstract method that returns the number of bits of its domain and range.
       */
-- 
2.43.0


From b3a909d877e5b25da6c641837243fa703e48888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 13/23] fix: detect the byte order from the compiler where
 brg_endian.h took big-endian ARM and MIPS with GCC for little-endian

---
 lib/common/brg_endian.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/common/brg_endian.h b/lib/common/brg_endian.h
index 7c640b9..4139cc4 100644
--- a/lib/common/brg_endian.h
+++ b/lib/common/brg_endian.h
@@ -103,6 +103,16 @@
 #  define PLATFORM_BYTE_ORDER IS_LITTLE_ENDIAN
 #endif
 
+/*  GCC does not define any of the four forms on some platforms,    */
+/*  e.g., on big-endian ARM or MIPS, but tells the byte order        */
+#if !defined(PLATFORM_BYTE_ORDER) && defined( __BYTE_ORDER__ )
+#  if defined( __ORDER_BIG_ENDIAN__ ) && __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
+#    define PLATFORM_BYTE_ORDER IS_BIG_ENDIAN
+#  elif defined( __ORDER_LITTLE_ENDIAN__ ) && __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
+#    define PLATFORM_BYTE_ORDER IS_LITTLE_ENDIAN
+#  endif
+#endif
+
 /*  if the platform byte order could not be determined, then try to */
 /*  set this define using common machine defines                    */
 #if !defined(PLATFORM_BYTE_ORDER)
-- 
2.43.0


From f0c19ae3d5b0b83d9e64712ac5a9edb84437aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 14/23] fix: KeccakP1600_ExtractAndAddLanes of the 32-bit
 in-place implementation used the wrong half of the input on big-endian
 processors

---
 .../plain-32bits-inplace/KeccakP-1600-inplace32BI.c             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/low/KeccakP-1600/plain-32bits-inplace/KeccakP-1600-inplace32BI.c b/lib/low/KeccakP-1600/plain-32bits-inplace/KeccakP-1600-inplace32BI.c
index 34183ed..6e2a549 100644
--- a/lib/low/KeccakP-1600/plain-32bits-inplace/KeccakP-1600-inplace32BI.c
+++ b/lib/low/KeccakP-1600/plain-32bits-inplace/KeccakP-1600-inplace32BI.c
@@ -418,7 +418,7 @@ void KeccakP1600_ExtractAndAddLanes(const KeccakP1600_plain32_state *state, cons
         laneAsBytes[6] = (high >> 16) & 0xFF;
         laneAsBytes[7] = (high >> 24) & 0xFF;
         ((uint32_t*)(output+lanePosition*8))[0] = ((uint32_t*)(input+lanePosition*8))[0] ^ (*(const uint32_t*)(laneAsBytes+0));
-        ((uint32_t*)(output+lanePosition*8))[1] = ((uint32_t*)(input+lanePosition*8))[0] ^ (*(const uint32_t*)(laneAsBytes+4));
+        ((uint32_t*)(output+lanePosition*8))[1] = ((uint32_t*)(input+lanePosition*8))[1] ^ (*(const uint32_t*)(laneAsBytes+4));
     }
 #endif
 }
-- 
2.43.0


From a83d5c4f6806ec5b9b9d2e3e9b8cc50c1b9e0af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:09 +0000
Subject: [PATCH 15/23] fix: Xoodoo plain: right values on big-endian
 processors, where its guard was void for want of brg_endian.h

---
 lib/low/Xoodoo/plain/Xoodoo-SnP.h       |  5 +++++
 lib/low/Xoodoo/plain/Xoodoo-optimized.c | 29 ++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/lib/low/Xoodoo/plain/Xoodoo-SnP.h b/lib/low/Xoodoo/plain/Xoodoo-SnP.h
index 6fd79cd..61e5f23 100644
--- a/lib/low/Xoodoo/plain/Xoodoo-SnP.h
+++ b/lib/low/Xoodoo/plain/Xoodoo-SnP.h
@@ -19,6 +19,7 @@ http://creativecommons.org/publicdomain/zero/1.0/
 
 #include <stddef.h>
 #include <stdint.h>
+#include "brg_endian.h"
 
 /** For the documentation, see SnP-documentation.h.
  */
@@ -34,7 +35,11 @@ typedef Xoodoo_plain32_state Xoodoo_state;
 
 #define Xoodoo_StaticInitialize()
 void Xoodoo_Initialize(Xoodoo_plain32_state *state);
+#if (PLATFORM_BYTE_ORDER == IS_LITTLE_ENDIAN)
 #define Xoodoo_AddByte(argS, argData, argOffset)    ((uint8_t*)argS)[argOffset] ^= (argData)
+#else
+#define Xoodoo_AddByte(argS, argData, argOffset)    ((uint8_t*)argS)[(argOffset)^3] ^= (argData)
+#endif
 void Xoodoo_AddBytes(Xoodoo_plain32_state *state, const uint8_t *data, unsigned int offset, unsigned int length);
 void Xoodoo_OverwriteBytes(Xoodoo_plain32_state *state, const uint8_t *data, unsigned int offset, unsigned int length);
 void Xoodoo_OverwriteWithZeroes(Xoodoo_plain32_state *state, unsigned int byteCount);
diff --git a/lib/low/Xoodoo/plain/Xoodoo-optimized.c b/lib/low/Xoodoo/plain/Xoodoo-optimized.c
index 1e70388..dea3efc 100644
--- a/lib/low/Xoodoo/plain/Xoodoo-optimized.c
+++ b/lib/low/Xoodoo/plain/Xoodoo-optimized.c
@@ -16,6 +16,7 @@ http://creativecommons.org/publicdomain/zero/1.0/
 
 #include <stdio.h>
 #include <string.h>
+#include "brg_endian.h"
 #include "Xoodoo.h"
 #include "Xoodoo-SnP.h"
 
@@ -108,7 +109,10 @@ void Xoodoo_AddBytes(Xoodoo_plain32_state *argState, const unsigned char *argdat
         }
     }
 #else
-    #error "Not yet implemented"
+    unsigned int i;
+
+    for (i = 0; i < length; ++i)
+        argState->A[(offset+i)/4] ^= (uint32_t)argdata[i] << (8*((offset+i)%4));
 #endif
 }
 
@@ -136,7 +140,13 @@ void Xoodoo_OverwriteBytes(Xoodoo_plain32_state *argstate, const unsigned char *
     else
         memcpy((unsigned char*)argstate+offset, argdata, length);
 #else
-    #error "Not yet implemented"
+    unsigned int i;
+
+    for (i = 0; i < length; ++i) {
+        uint32_t *lane = &argstate->A[(offset+i)/4];
+        unsigned int shift = 8*((offset+i)%4);
+        *lane = (*lane & ~((uint32_t)0xFF << shift)) | ((uint32_t)argdata[i] << shift);
+    }
 #endif
 }
 
@@ -147,7 +157,10 @@ void Xoodoo_OverwriteWithZeroes(Xoodoo_plain32_state *argstate, unsigned int byt
 #if (PLATFORM_BYTE_ORDER == IS_LITTLE_ENDIAN)
     memset(argstate, 0, byteCount);
 #else
-    #error "Not yet implemented"
+    unsigned int i;
+
+    for (i = 0; i < byteCount; ++i)
+        argstate->A[i/4] &= ~((uint32_t)0xFF << (8*(i%4)));
 #endif
 }
 
@@ -158,7 +171,10 @@ void Xoodoo_ExtractBytes(const Xoodoo_plain32_state *state, unsigned char *data,
 #if (PLATFORM_BYTE_ORDER == IS_LITTLE_ENDIAN)
     memcpy(data, (unsigned char*)state+offset, length);
 #else
-    #error "Not yet implemented"
+    unsigned int i;
+
+    for (i = 0; i < length; ++i)
+        data[i] = (unsigned char)(state->A[(offset+i)/4] >> (8*((offset+i)%4)));
 #endif
 }
 
@@ -224,7 +240,10 @@ void Xoodoo_ExtractAndAddBytes(const Xoodoo_plain32_state *argState, const unsig
         }
     }
 #else
-    #error "Not yet implemented"
+    unsigned int i;
+
+    for (i = 0; i < length; ++i)
+        output[i] = input[i] ^ (unsigned char)(argState->A[(offset+i)/4] >> (8*((offset+i)%4)));
 #endif
 }
 
-- 
2.43.0


From a057deae730f7078e086048afcbcc62abf43b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:20 +0000
Subject: [PATCH 16/23] fix: AVR8 Keccak-p[1600]: keep the C variables off the
 byte at SP

The code reserved 40 bytes and used SP to SP+39, but on AVR the byte at SP is
free: an interrupt during the permutation overwrites it and the result is wrong.
Use SP+1 to SP+40.
---
 lib/low/KeccakP-1600/AVR8/KeccakP-1600-avr8-compact.s | 8 +++++---
 lib/low/KeccakP-1600/AVR8/KeccakP-1600-avr8-fast.s    | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/low/KeccakP-1600/AVR8/KeccakP-1600-avr8-compact.s b/lib/low/KeccakP-1600/AVR8/KeccakP-1600-avr8-compact.s
index 85b15d6..ee59aa1 100644
--- a/lib/low/KeccakP-1600/AVR8/KeccakP-1600-avr8-compact.s
+++ b/lib/low/KeccakP-1600/AVR8/KeccakP-1600-avr8-compact.s
@@ -331,8 +331,9 @@ KeccakP1600_Permute:
     in      r0, 0x3F
     cli
     out     sp+1, rZ+1
-    out     sp, rZ                ; Z points to 5 C lanes
+    out     sp, rZ                ; 5 C lanes at SP+1
     out     0x3F, r0
+    adiw    rZ, 1                 ; the byte at SP itself is free for interrupts
 
     ; Variables used in multiple operations
     #define rTemp        2      // 8 regs (2-9)
@@ -376,8 +377,8 @@ Keccak_RoundLoop:
     in      TCminus, sp
     in      TCminus+1, sp+1
     movw    TCplus, TCminus
-    adiw    TCminus, 4*8
-    adiw    TCplus, 1*8
+    adiw    TCminus, 4*8+1
+    adiw    TCplus, 1*8+1
     movw    rY, rpState
 
     ldi     TCcoordX, 0x16
@@ -588,6 +589,7 @@ KeccakRhoPi_RhoDone:
     movw    rY, rpState
     in      rX, sp          ; 5 C lanes
     in      rX+1, sp+1
+    adiw    rX, 1
     movw    rZ, pRound
 
     ldi     CIPTz, 8
diff --git a/lib/low/KeccakP-1600/AVR8/KeccakP-1600-avr8-fast.s b/lib/low/KeccakP-1600/AVR8/KeccakP-1600-avr8-fast.s
index fdb902c..a0d885e 100644
--- a/lib/low/KeccakP-1600/AVR8/KeccakP-1600-avr8-fast.s
+++ b/lib/low/KeccakP-1600/AVR8/KeccakP-1600-avr8-fast.s
@@ -486,8 +486,9 @@ KeccakP1600_Permute:
     in      r0, 0x3F
     cli
     out     sp+1, rZ+1
-    out     sp, rZ          ; Z points to 5 C lanes
+    out     sp, rZ          ; 5 C lanes at SP+1
     out     0x3F, r0
+    adiw    rZ, 1                 ; the byte at SP itself is free for interrupts
 
     ; Variables used in multiple operations
     #define rTemp        2        // 8 regs (2-9)
@@ -610,8 +611,8 @@ Keccak_RoundLoop:
     in      TCminus,   sp
     in      TCminus+1, sp+1
     movw    TCplus,  TCminus
-    adiw    TCminus, 4*8
-    adiw    TCplus,  1*8
+    adiw    TCminus, 4*8+1
+    adiw    TCplus,  1*8+1
     movw    rY, rpState
 
     ldi     TCcoordX, 0x16
@@ -798,6 +799,7 @@ KeccakRhoPi_RhoDone:
 
     in      rX, sp          ; 5 * C
     in      rX+1, sp+1
+    adiw    rX, 1
     movw    rY, rpState
     movw    rZ, pRound
 
-- 
2.43.0


From bd5183cb34ef1ee8ffcd4ee2f9ced79bbda75da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:40 +0000
Subject: [PATCH 17/23] fix: SP800-185: byte lengths of bit strings of 2^n-7
 bits or more wrapped to zero

When BitLength has n bits, (length + 7) / 8 wraps for the last seven lengths,
and KMAC's keyByteLen*8 does too: the customization string, key or output was
then taken as empty.
---
 lib/high/Keccak/SP800-185/SP800-185.inc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index c8ede04..95a262b 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -64,7 +64,7 @@ int cSHAKE_Initialize(cSHAKE_Instance *csk, BitLength outputBitLen, const BitSeq
         /* Absorb encode_string(customization) */
         if (KeccakWidth1600_SpongeAbsorb(&csk->sponge, encbuf, left_encode(encbuf, customBitLen)) != 0)
             return 1;
-        if (KeccakWidth1600_SpongeAbsorb(&csk->sponge, customization, (customBitLen + 7) / 8) != 0) /* allowed to be a bit string, as zero padding is following */
+        if (KeccakWidth1600_SpongeAbsorb(&csk->sponge, customization, customBitLen / 8 + (customBitLen % 8 != 0)) != 0) /* allowed to be a bit string, as zero padding is following */
             return 1;
             
         /* Zero padding up to rate */
@@ -128,7 +128,7 @@ int cSHAKE_Squeeze(cSHAKE_Instance *csk, BitSequence *output, BitLength outputBi
 {
     if (csk->phase != SQUEEZING)
         return 1;
-    if(KeccakWidth1600_SpongeSqueeze(&csk->sponge, output, (outputBitLen + 7) / 8) != 0)
+    if(KeccakWidth1600_SpongeSqueeze(&csk->sponge, output, outputBitLen / 8 + (outputBitLen % 8 != 0)) != 0)
         return 1;
     if ((outputBitLen & 7) !=0) {
         output[outputBitLen / 8] &= (1 << (outputBitLen & 7)) - 1; /* clear unwanted bits */
@@ -174,8 +174,10 @@ int KMAC_Initialize(KMAC_Instance *km, const BitSequence *key, BitLength keyBitL
     bufferLen += left_encode(buffer + bufferLen, keyBitLen);
     if (cSHAKE_Update(&km->csi, buffer, bufferLen*8) != 0)
         return 1;
-    keyByteLen = (keyBitLen + 7) / 8;
-    if (cSHAKE_Update(&km->csi, key, keyByteLen*8) != 0)
+    keyByteLen = keyBitLen / 8 + (keyBitLen % 8 != 0);
+    if (cSHAKE_Update(&km->csi, key, keyBitLen - keyBitLen % 8) != 0)
+        return 1;
+    if ((keyBitLen % 8 != 0) && (cSHAKE_Update(&km->csi, key + keyBitLen / 8, 8) != 0)) /* last byte, followed by zero padding */
         return 1;
     bufferLen = (bufferLen + keyByteLen) % rateInBytes; /* zero padding */
     if (bufferLen != 0) {
@@ -320,7 +322,7 @@ int ParallelHash_Initialize(ParallelHash_Instance *phi, size_t blockByteLen,
     /* Absorb string_encode(customization) */
     if (KeccakWidth1600_SpongeAbsorb(&phi->finalNode, encbuf, left_encode(encbuf, customBitLen)) != 0)
         return 1;
-    if (KeccakWidth1600_SpongeAbsorb(&phi->finalNode, customization, (customBitLen + 7) / 8) != 0)
+    if (KeccakWidth1600_SpongeAbsorb(&phi->finalNode, customization, customBitLen / 8 + (customBitLen % 8 != 0)) != 0)
         return 1;
         
     /* Zero padding up to rate */
@@ -455,7 +457,7 @@ int ParallelHash_Squeeze(ParallelHash_Instance *phi, BitSequence *output, BitLen
 {
     if (phi->phase != SQUEEZING)
         return 1;
-    if (KeccakWidth1600_SpongeSqueeze(&phi->finalNode, output, (outputBitLen + 7) / 8) != 0)
+    if (KeccakWidth1600_SpongeSqueeze(&phi->finalNode, output, outputBitLen / 8 + (outputBitLen % 8 != 0)) != 0)
         return 1;
     if ((outputBitLen & 7) !=0) {
         output[outputBitLen / 8] &= (1 << (outputBitLen & 7)) - 1; /* clear unwanted bits */
-- 
2.43.0


From 08c397f3de52c0af963cd7319ec163e0aa446899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:40 +0000
Subject: [PATCH 18/23] fix: Kravatte, Xoofff: byte lengths of 2^n-7 bits or
 more wrapped to zero

The output was left unwritten, and a rejected plaintext unwiped, when its
length in bits was one of the last seven that BitLength can hold.
---
 lib/high/Kravatte/Kravatte.c      | 2 +-
 lib/high/Kravatte/KravatteModes.c | 4 ++--
 lib/high/Xoofff/Xoofff.c          | 2 +-
 lib/high/Xoofff/XoofffModes.c     | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/high/Kravatte/Kravatte.c b/lib/high/Kravatte/Kravatte.c
index b3192f1..b89f15a 100644
--- a/lib/high/Kravatte/Kravatte.c
+++ b/lib/high/Kravatte/Kravatte.c
@@ -467,7 +467,7 @@ int Vatte(Kravatte_Instance *kv, BitSequence *output, BitLength outputBitLen, in
         }
     }
 
-    outputByteLen = (outputBitLen + 7) / 8;
+    outputByteLen = outputBitLen / 8 + (outputBitLen % 8 != 0);
     #if defined(KeccakP1600times8_implementation)
     #if defined(KeccakF1600times8_FastKravatte_supported)
     ParallelExpandLoopFast( 8 )
diff --git a/lib/high/Kravatte/KravatteModes.c b/lib/high/Kravatte/KravatteModes.c
index 4a1753b..82efa79 100644
--- a/lib/high/Kravatte/KravatteModes.c
+++ b/lib/high/Kravatte/KravatteModes.c
@@ -219,7 +219,7 @@ int Kravatte_SANE_Unwrap(Kravatte_SANE_Instance *kp, const BitSequence *cipherte
     kp->e ^= 1;
      /* Wipe plaintext on tag difference */
     if ( memcmp( tagPrime, tag, Kravatte_SANE_TagLength) != 0) {
-        memset(plaintext, 0, (dataBitLen + 7) / 8);
+        memset(plaintext, 0, dataBitLen / 8 + (dataBitLen % 8 != 0));
         return 1;
     }
     return 0;
@@ -348,7 +348,7 @@ int Kravatte_SANSE_Unwrap(Kravatte_SANSE_Instance *kp, const BitSequence *cipher
     /* if T' != T then */
     if ( memcmp( tagPrime, tag, sizeof(tagPrime)) != 0) {
         /* wipe P, return error! */
-        memset(plaintext, 0, (dataBitLen + 7) / 8);
+        memset(plaintext, 0, dataBitLen / 8 + (dataBitLen % 8 != 0));
         return 1;
     }
     /* else return P */
diff --git a/lib/high/Xoofff/Xoofff.c b/lib/high/Xoofff/Xoofff.c
index 2205a62..ce04aa3 100644
--- a/lib/high/Xoofff/Xoofff.c
+++ b/lib/high/Xoofff/Xoofff.c
@@ -569,7 +569,7 @@ int Xoofff_Expand(Xoofff_Instance *xp, BitSequence *output, BitLength outputBitL
         }
     }
 
-    outputByteLen = (outputBitLen + 7) / 8;
+    outputByteLen = outputBitLen / 8 + (outputBitLen % 8 != 0);
     #if defined(XKCP_has_Xoodootimes16)
     #if defined(Xoodootimes16_FastXoofff_supported)
     ParallelExpandLoopFast( 16 )
diff --git a/lib/high/Xoofff/XoofffModes.c b/lib/high/Xoofff/XoofffModes.c
index 232e9f5..465ca97 100644
--- a/lib/high/Xoofff/XoofffModes.c
+++ b/lib/high/Xoofff/XoofffModes.c
@@ -345,7 +345,7 @@ int XoofffSANE_Unwrap(XoofffSANE_Instance *xp, const BitSequence *ciphertext, Bi
     xp->e ^= 1;
      /* Wipe plaintext on tag difference */
     if ( memcmp( tagPrime, tag, XoofffSANE_TagLength) != 0) {
-        memset(plaintext, 0, (dataBitLen + 7) / 8);
+        memset(plaintext, 0, dataBitLen / 8 + (dataBitLen % 8 != 0));
         return 1;
     }
     return 0;
@@ -475,7 +475,7 @@ int XoofffSANSE_Unwrap(XoofffSANSE_Instance *xp, const BitSequence *ciphertext,
     /* if T' != T then */
     if ( memcmp( tagPrime, tag, sizeof(tagPrime)) != 0) {
         /* wipe P, return error! */
-        memset(plaintext, 0, (dataBitLen + 7) / 8);
+        memset(plaintext, 0, dataBitLen / 8 + (dataBitLen % 8 != 0));
         return 1;
     }
     /* else return P */
-- 
2.43.0


From 0d793104b2b852f901bef640ab7e160a245c3d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:31 +0000
Subject: [PATCH 19/23] fix: WBC: the split of messages within a block of the
 longest BitLength can express

The sum n + l + 2 + b - 1 wrapped for such lengths, so the message was split
elsewhere than specified.
---
 lib/high/Kravatte/KravatteModes.c | 2 +-
 lib/high/Xoofff/XoofffModes.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Kravatte/KravatteModes.c b/lib/high/Kravatte/KravatteModes.c
index 82efa79..bf18422 100644
--- a/lib/high/Kravatte/KravatteModes.c
+++ b/lib/high/Kravatte/KravatteModes.c
@@ -365,7 +365,7 @@ static BitLength Kravatte_WBC_Split(BitLength n)
     if (n <= (2 * Kravatte_WBC_b - (Kravatte_WBC_l + 2)))
         nL = Kravatte_WBC_l * ((n + Kravatte_WBC_l) / (2*Kravatte_WBC_l));
     else {
-        q = (n + Kravatte_WBC_l + 2 + (Kravatte_WBC_b - 1)) / Kravatte_WBC_b;
+        q = n / Kravatte_WBC_b + (n % Kravatte_WBC_b + Kravatte_WBC_l + 2 + (Kravatte_WBC_b - 1)) / Kravatte_WBC_b;
         for (x = 1; (BitLength)(1 << x) < q; ++x)
             ; /* empty */
         --x;
diff --git a/lib/high/Xoofff/XoofffModes.c b/lib/high/Xoofff/XoofffModes.c
index 465ca97..475a687 100644
--- a/lib/high/Xoofff/XoofffModes.c
+++ b/lib/high/Xoofff/XoofffModes.c
@@ -59,7 +59,7 @@ static BitLength XoofffWBC_Split(BitLength n)
     if (n <= (2 * XoofffWBC_b - (XoofffWBC_l + 2)))
         nL = XoofffWBC_l * ((n + XoofffWBC_l) / (2*XoofffWBC_l));
     else {
-        q = (n + XoofffWBC_l + 2 + (XoofffWBC_b - 1)) / XoofffWBC_b;
+        q = n / XoofffWBC_b + (n % XoofffWBC_b + XoofffWBC_l + 2 + (XoofffWBC_b - 1)) / XoofffWBC_b;
         for (x = 1; (BitLength)(1 << x) < q; ++x)
             ; /* empty */
         --x;
-- 
2.43.0


From b7b68e7f1cf26d933f0d8497254ac9172723a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:34 +0000
Subject: [PATCH 20/23] fix: KeccakP-1600-times8 AVX512 with 4 rounds unrolled
 did not compile

The functions for KangarooTwelve leaves lacked the loop variable and semicolons
which the looped rounds12 needs.
---
 .../AVX512/KeccakP-1600-times8-SIMD512.c           | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
index 9784f5a..03fc875 100644
--- a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
+++ b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
@@ -1209,6 +1209,9 @@ void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned c
 {
     KeccakP_DeclareVars;
     unsigned int j;
+    #if (KeccakP1600times8_unrolling < 12)
+    unsigned int i;
+    #endif
     const uint64_t *outputAsLanes = (const uint64_t *)output;
     __m256i index;
     __m512i t0, t1, t2, t3, t4, t5, t6, t7;
@@ -1219,14 +1222,14 @@ void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned c
     index = LOAD8_32(7*(chunkSize / 8), 6*(chunkSize / 8), 5*(chunkSize / 8), 4*(chunkSize / 8), 3*(chunkSize / 8), 2*(chunkSize / 8), 1*(chunkSize / 8), 0*(chunkSize / 8));
     for(j = 0; j < (chunkSize - KT128_rateInBytes); j += KT128_rateInBytes) {
         XORdata21(_, index, (const uint64_t *)input);
-        rounds12
+        rounds12;
         input += KT128_rateInBytes;
     }
 
     XORdata16(_, index, (const uint64_t *)input);
     XOReq(_me, CONST_64(0x0BULL));
     XOReq(_sa, CONST_64(0x8000000000000000ULL));
-    rounds12
+    rounds12;
 
     index = LOAD8_32(7*4, 6*4, 5*4, 4*4, 3*4, 2*4, 1*4, 0*4);
     STORE_SCATTER8_64(outputAsLanes+0, index, _ba);
@@ -1239,6 +1242,9 @@ void KeccakP1600times8_KT256ProcessLeaves(const unsigned char *input, unsigned c
 {
     KeccakP_DeclareVars;
     unsigned int j;
+    #if (KeccakP1600times8_unrolling < 12)
+    unsigned int i;
+    #endif
     const uint64_t *outputAsLanes = (const uint64_t *)output;
     __m256i index;
     __m512i t0, t1, t2, t3, t4, t5, t6, t7;
@@ -1249,14 +1255,14 @@ void KeccakP1600times8_KT256ProcessLeaves(const unsigned char *input, unsigned c
     index = LOAD8_32(7*(chunkSize / 8), 6*(chunkSize / 8), 5*(chunkSize / 8), 4*(chunkSize / 8), 3*(chunkSize / 8), 2*(chunkSize / 8), 1*(chunkSize / 8), 0*(chunkSize / 8));
     for(j = 0; j < (chunkSize - KT256_rateInBytes); j += KT256_rateInBytes) {
         XORdata17(_, index, (const uint64_t *)input);
-        rounds12
+        rounds12;
         input += KT256_rateInBytes;
     }
 
     XORdata4(_, index, (const uint64_t *)input);
     XOReq(_bu, CONST_64(0x0BULL));
     XOReq(_me, CONST_64(0x8000000000000000ULL));
-    rounds12
+    rounds12;
 
     index = LOAD8_32(7*8, 6*8, 5*8, 4*8, 3*8, 2*8, 1*8, 0*8);
     STORE_SCATTER8_64(outputAsLanes+0, index, _ba);
-- 
2.43.0


From 5154259b571aab879aad1f4588a062f951f7e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:24 +0000
Subject: [PATCH 21/23] fix: Xoodoo SSE2: Xoodyak's full blocks did not compile
 on i386 without SSE4.1

---
 lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
index 3306823..c0f7592 100644
--- a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
+++ b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
@@ -350,8 +350,8 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
         *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_cvtsi128_si32(_mm_srli_si128(a1,4));
         a1 = _mm_set_epi32(
             // preserve high words
-            _mm_cvtsi128_si32(_mm_srli_si128(a1,12), 3),
-            _mm_cvtsi128_si32(_mm_srli_si128(a1,8), 2),
+            _mm_cvtsi128_si32(_mm_srli_si128(a1,12)),
+            _mm_cvtsi128_si32(_mm_srli_si128(a1,8)),
             *((uint32_t*)(I+20)),
             *((uint32_t*)(I+16)));
 #else
-- 
2.43.0


From ee0b90e1b8c62a8a9ada9e34d4e53c5e074b636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:24 +0000
Subject: [PATCH 22/23] fix: Kravatte with AVX2 or AVX512 on i386: 64-bit lanes
 were put together with a logical or

---
 lib/low/KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c  | 2 +-
 .../KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/low/KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c b/lib/low/KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c
index a3e3a86..6372df1 100644
--- a/lib/low/KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c
+++ b/lib/low/KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c
@@ -1156,7 +1156,7 @@ size_t KeccakP1600times4_12rounds_FastLoop_Absorb(KeccakP1600times4_states *stat
 
 #if defined(__i386__) || defined(_M_IX86)
 #define _mm256_extract_epi64(a, index) \
-    ((uint64_t)_mm256_extract_epi32((a), (index)*2) || ((uint64_t)_mm256_extract_epi32((a), (index)*2+1) << 32))
+    ((uint64_t)(uint32_t)_mm256_extract_epi32((a), (index)*2) | ((uint64_t)(uint32_t)_mm256_extract_epi32((a), (index)*2+1) << 32))
 #endif
 
 #define ExtrAccu( lanes, p, argIndex ) p[argIndex] ^= _mm256_extract_epi64(lanes, 0) ^ _mm256_extract_epi64(lanes, 1) \
diff --git a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
index 03fc875..53be079 100644
--- a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
+++ b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
@@ -1336,7 +1336,7 @@ ALIGN(32) static const uint32_t     oGatherScatter[]= {0*25, 1*25, 2*25, 3*25, 4
 
 #if defined(__i386__) || defined(_M_IX86)
 #define _mm256_extract_epi64(a, index) \
-    ((uint64_t)_mm256_extract_epi32((a), (index)*2) || ((uint64_t)_mm256_extract_epi32((a), (index)*2+1) << 32))
+    ((uint64_t)(uint32_t)_mm256_extract_epi32((a), (index)*2) | ((uint64_t)(uint32_t)_mm256_extract_epi32((a), (index)*2+1) << 32))
 #endif
 
 size_t KeccakP1600times8_KravatteCompress(uint64_t *xAccu, uint64_t *kRoll, const unsigned char *input, size_t inputByteLen)
-- 
2.43.0


From 3af5982deb51f977a7fd585bda2b5e9bf366d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:18 +0000
Subject: [PATCH 23/23] fix: Xoofff with Xoodoo AVX512 and no parallel
 implementation: the instance was not aligned for the 128-bit loads it is read
 with

---
 lib/high/Xoofff/Xoofff.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/high/Xoofff/Xoofff.h b/lib/high/Xoofff/Xoofff.h
index ea3c61f..1f7cf44 100644
--- a/lib/high/Xoofff/Xoofff.h
+++ b/lib/high/Xoofff/Xoofff.h
@@ -69,7 +69,11 @@ typedef enum
     #endif
 #else
     #define XoodooMaxParallellism   1
-    #define XoodooAlignment         4
+    #if defined(Xoodoo_stateAlignment) && (Xoodoo_stateAlignment > 4)
+        #define XoodooAlignment     Xoodoo_stateAlignment
+    #else
+        #define XoodooAlignment     4
+    #endif
 #endif
 
 typedef struct {
-- 
2.43.0

