#include "exec.h"
#include "config.h"
#if defined(XKCP_has_FIPS202)
#include "SimpleFIPS202.h"
#include "KeccakHash.h"
static int f_fips(xctx *c, xop *x)
{
    unsigned char *o = x->out[0].p, *in = x->in[0].p; size_t on = x->out[0].n, n = x->in[0].n;
    (void)c;
    switch (x->i[0]) {
    case F_SHAKE128: x->ret = SHAKE128(o, on, in, n); return 0;
    case F_SHAKE256: x->ret = SHAKE256(o, on, in, n); return 0;
    case F_SHA3_224: x->ret = SHA3_224(o, in, n); return 0;
    case F_SHA3_256: x->ret = SHA3_256(o, in, n); return 0;
    case F_SHA3_384: x->ret = SHA3_384(o, in, n); return 0;
    case F_SHA3_512: x->ret = SHA3_512(o, in, n); return 0;
    }
    return 1;
}
const xmod xv_mod_fips = { M_FIPS, f_fips, 0, 1 };
static int f_hash(xctx *c, xop *x)
{
    Keccak_HashInstance *s = INST(Keccak_HashInstance, M_HASH, x->slot);
    switch (x->sub) {
    case S_SINIT:
        switch (x->i[4]) {   /* 0: plain call; 1..6: the convenience macros */
        case 0: x->ret = Keccak_HashInitialize(s, (unsigned)x->i[0], (unsigned)x->i[1], (unsigned)x->i[2], (unsigned char)x->i[3]); return 0;
        case 1: x->ret = Keccak_HashInitialize_SHAKE128(s); return 0;
        case 2: x->ret = Keccak_HashInitialize_SHAKE256(s); return 0;
        case 3: x->ret = Keccak_HashInitialize_SHA3_224(s); return 0;
        case 4: x->ret = Keccak_HashInitialize_SHA3_256(s); return 0;
        case 5: x->ret = Keccak_HashInitialize_SHA3_384(s); return 0;
        case 6: x->ret = Keccak_HashInitialize_SHA3_512(s); return 0;
        }
        return 1;
    case S_UPD: x->ret = Keccak_HashUpdate(s, x->in[0].p, (BitLength)x->i[0]); return 0;
    case S_FINAL: x->ret = Keccak_HashFinal(s, x->out[0].p); return 0;
    case S_SQZ: x->ret = Keccak_HashSqueeze(s, x->out[0].p, (BitLength)x->i[0]); return 0;
    }
    return 1;
}
const xmod xv_mod_hash = { M_HASH, f_hash, sizeof(Keccak_HashInstance), __alignof__(Keccak_HashInstance) };
#endif
#if defined(XKCP_has_Sponge_Keccak)
#include "KeccakSponge.h"
static int f_sponge(xctx *c, xop *x)
{
    KeccakWidth1600_SpongeInstance *s = INST(KeccakWidth1600_SpongeInstance, M_SPONGE, x->slot);
    switch (x->sub) {
    case S_ONESHOT: x->ret = KeccakWidth1600_Sponge((unsigned)x->i[0], (unsigned)x->i[1], x->in[0].p, x->in[0].n, (unsigned char)x->i[2], x->out[0].p, x->out[0].n); return 0;
    case S_SINIT: x->ret = KeccakWidth1600_SpongeInitialize(s, (unsigned)x->i[0], (unsigned)x->i[1]); return 0;
    case S_UPD: x->ret = KeccakWidth1600_SpongeAbsorb(s, x->in[0].p, x->in[0].n); return 0;
    case S_LASTBITS: x->ret = KeccakWidth1600_SpongeAbsorbLastFewBits(s, (unsigned char)x->i[0]); return 0;
    case S_SQZ: x->ret = KeccakWidth1600_SpongeSqueeze(s, x->out[0].p, x->out[0].n); return 0;
    }
    return 1;
}
const xmod xv_mod_sponge = { M_SPONGE, f_sponge, sizeof(KeccakWidth1600_SpongeInstance), __alignof__(KeccakWidth1600_SpongeInstance) };
#endif
#if defined(XKCP_has_TurboSHAKE)
#include "TurboSHAKE.h"
static int f_turbo(xctx *c, xop *x)
{
    TurboSHAKE_Instance *s = INST(TurboSHAKE_Instance, M_TURBO, x->slot);
    switch (x->sub) {
    case S_ONESHOT: x->ret = TurboSHAKE((unsigned)x->i[0], x->in[0].p, x->in[0].n, (unsigned char)x->i[1], x->out[0].p, x->out[0].n); return 0;
    case S_SINIT: x->ret = TurboSHAKE_Initialize(s, (unsigned)x->i[0]); return 0;
    case S_UPD: x->ret = TurboSHAKE_Absorb(s, x->in[0].p, x->in[0].n); return 0;
    case S_LASTBITS: x->ret = TurboSHAKE_AbsorbDomainSeparationByte(s, (unsigned char)x->i[0]); return 0;
    case S_SQZ: x->ret = TurboSHAKE_Squeeze(s, x->out[0].p, x->out[0].n); return 0;
    }
    return 1;
}
const xmod xv_mod_turbo = { M_TURBO, f_turbo, sizeof(TurboSHAKE_Instance), __alignof__(TurboSHAKE_Instance) };
#endif
#if defined(XKCP_has_KangarooTwelve)
#include "KangarooTwelve.h"
static int f_k12(xctx *c, xop *x)
{
    KangarooTwelve_Instance *s = INST(KangarooTwelve_Instance, M_K12, x->slot);
    switch (x->sub) {
    case S_ONESHOT: x->ret = KangarooTwelve((int)x->i[0], x->in[0].p, x->in[0].n, x->out[0].p, x->out[0].n, x->in[1].p, x->in[1].n); return 0;
    case S_ONESHOT2:
        if (x->i[0] == 128) x->ret = KT128(x->in[0].p, x->in[0].n, x->out[0].p, x->out[0].n, x->in[1].p, x->in[1].n);
        else x->ret = KT256(x->in[0].p, x->in[0].n, x->out[0].p, x->out[0].n, x->in[1].p, x->in[1].n);
        return 0;
    case S_SINIT: x->ret = KangarooTwelve_Initialize(s, (int)x->i[0], (size_t)x->i[1]); return 0;
    case S_UPD: x->ret = KangarooTwelve_Update(s, x->in[0].p, x->in[0].n); return 0;
    case S_FINAL: x->ret = KangarooTwelve_Final(s, x->out[0].p, x->in[0].p, x->in[0].n); return 0;
    case S_SQZ: x->ret = KangarooTwelve_Squeeze(s, x->out[0].p, x->out[0].n); return 0;
    }
    return 1;
}
const xmod xv_mod_k12 = { M_K12, f_k12, sizeof(KangarooTwelve_Instance), __alignof__(KangarooTwelve_Instance) };
#endif
#if defined(XKCP_has_Duplex_Keccak)
#include "KeccakDuplex.h"
static int f_duplex(xctx *c, xop *x)
{
    KeccakWidth1600_DuplexInstance *s = INST(KeccakWidth1600_DuplexInstance, M_DUPLEX, x->slot);
    switch (x->sub) {
    case S_DINIT: x->ret = KeccakWidth1600_DuplexInitialize(s, (unsigned)x->i[0], (unsigned)x->i[1]); return 0;
    case S_DUPLEX: x->ret = KeccakWidth1600_Duplexing(s, x->in[0].p, (unsigned)x->in[0].n, x->out[0].p, (unsigned)x->out[0].n, (unsigned char)x->i[0]); return 0;
    case S_FEED: x->ret = KeccakWidth1600_DuplexingFeedPartialInput(s, x->in[0].p, (unsigned)x->in[0].n); return 0;
    case S_FEEDZ: x->ret = KeccakWidth1600_DuplexingFeedZeroes(s, (unsigned)x->i[0]); return 0;
    case S_OVW: x->ret = KeccakWidth1600_DuplexingOverwritePartialInput(s, x->in[0].p, (unsigned)x->in[0].n); return 0;
    case S_OVWZ: x->ret = KeccakWidth1600_DuplexingOverwriteWithZeroes(s, (unsigned)x->i[0]); return 0;
    case S_GETOUT: x->ret = KeccakWidth1600_DuplexingGetFurtherOutput(s, x->out[0].p, (unsigned)x->out[0].n); return 0;
    case S_GETOUTADD: x->ret = KeccakWidth1600_DuplexingGetFurtherOutputAndAdd(s, x->in[0].p, x->out[0].p, (unsigned)x->out[0].n); return 0;
    }
    return 1;
}
const xmod xv_mod_duplex = { M_DUPLEX, f_duplex, sizeof(KeccakWidth1600_DuplexInstance), __alignof__(KeccakWidth1600_DuplexInstance) };
#endif
#if defined(XKCP_has_PRG_Keccak)
#include "KeccakPRG.h"
static int f_prg(xctx *c, xop *x)
{
    KeccakWidth1600_SpongePRG_Instance *s = INST(KeccakWidth1600_SpongePRG_Instance, M_PRG, x->slot);
    switch (x->sub) {
    case S_PINIT: x->ret = KeccakWidth1600_SpongePRG_Initialize(s, (unsigned)x->i[0]); return 0;
    case S_PFEED: x->ret = KeccakWidth1600_SpongePRG_Feed(s, x->in[0].p, (unsigned)x->in[0].n); return 0;
    case S_PFETCH: x->ret = KeccakWidth1600_SpongePRG_Fetch(s, x->out[0].p, (unsigned)x->out[0].n); return 0;
    case S_PFORGET: x->ret = KeccakWidth1600_SpongePRG_Forget(s); return 0;
    }
    return 1;
}
const xmod xv_mod_prg = { M_PRG, f_prg, sizeof(KeccakWidth1600_SpongePRG_Instance), __alignof__(KeccakWidth1600_SpongePRG_Instance) };
#endif
#if defined(XKCP_has_SP800_185)
#include "SP800-185.h"
/* lengths in bits come in i[]; in0 = message, in1 = key / name, in2 = customization */
#define CSH(B) \
static int f_cshake##B(xctx *c, xop *x) \
{ \
    cSHAKE_Instance *s = INST(cSHAKE_Instance, M_CSHAKE##B, x->slot); \
    switch (x->sub) { \
    case S_ONESHOT: x->ret = cSHAKE##B(x->in[0].p, (BitLength)x->i[0], x->out[0].p, (BitLength)x->i[3], x->in[1].p, (BitLength)x->i[1], x->in[2].p, (BitLength)x->i[2]); return 0; \
    case S_SINIT: x->ret = cSHAKE##B##_Initialize(s, (BitLength)x->i[0], x->in[0].p, (BitLength)x->i[1], x->in[1].p, (BitLength)x->i[2]); return 0; \
    case S_UPD: x->ret = cSHAKE##B##_Update(s, x->in[0].p, (BitLength)x->i[0]); return 0; \
    case S_FINAL: x->ret = cSHAKE##B##_Final(s, x->out[0].p); return 0; \
    case S_SQZ: x->ret = cSHAKE##B##_Squeeze(s, x->out[0].p, (BitLength)x->i[0]); return 0; \
    } \
    return 1; \
} \
const xmod xv_mod_cshake##B = { M_CSHAKE##B, f_cshake##B, sizeof(cSHAKE_Instance), __alignof__(cSHAKE_Instance) }; \
static int f_kmac##B(xctx *c, xop *x) \
{ \
    KMAC_Instance *s = INST(KMAC_Instance, M_KMAC##B, x->slot); \
    switch (x->sub) { \
    case S_ONESHOT: x->ret = KMAC##B(x->in[1].p, (BitLength)x->i[1], x->in[0].p, (BitLength)x->i[0], x->out[0].p, (BitLength)x->i[3], x->in[2].p, (BitLength)x->i[2]); return 0; \
    case S_SINIT: x->ret = KMAC##B##_Initialize(s, x->in[0].p, (BitLength)x->i[1], (BitLength)x->i[0], x->in[1].p, (BitLength)x->i[2]); return 0; \
    case S_UPD: x->ret = KMAC##B##_Update(s, x->in[0].p, (BitLength)x->i[0]); return 0; \
    case S_FINAL: x->ret = KMAC##B##_Final(s, x->out[0].p); return 0; \
    case S_SQZ: x->ret = KMAC##B##_Squeeze(s, x->out[0].p, (BitLength)x->i[0]); return 0; \
    } \
    return 1; \
} \
const xmod xv_mod_kmac##B = { M_KMAC##B, f_kmac##B, sizeof(KMAC_Instance), __alignof__(KMAC_Instance) }; \
/* tuples: in0 = concatenation of the elements, in1 = u32 bit length of each element, in2 = customization */ \
static int f_tuple##B(xctx *c, xop *x) \
{ \
    TupleHash_Instance *s = INST(TupleHash_Instance, M_TUPLE##B, x->slot); \
    TupleElement te[64]; size_t n = 0, off = 0; \
    if (x->sub == S_ONESHOT || x->sub == S_UPD) \
        for (; n < x->in[1].n / 4 && n < 64; n++) { const unsigned char *q = x->in[1].p + 4 * n; uint32_t l = q[0] | (uint32_t)q[1] << 8 | (uint32_t)q[2] << 16 | (uint32_t)q[3] << 24; te[n].input = x->in[0].p + off; te[n].inputBitLen = l; off += (l + 7) / 8; } \
    switch (x->sub) { \
    case S_ONESHOT: x->ret = TupleHash##B(te, n, x->out[0].p, (BitLength)x->i[3], x->in[2].p, (BitLength)x->i[2]); return 0; \
    case S_SINIT: x->ret = TupleHash##B##_Initialize(s, (BitLength)x->i[0], x->in[0].p, (BitLength)x->i[2]); return 0; \
    case S_UPD: x->ret = TupleHash##B##_Update(s, te, n); return 0; \
    case S_FINAL: x->ret = TupleHash##B##_Final(s, x->out[0].p); return 0; \
    case S_SQZ: x->ret = TupleHash##B##_Squeeze(s, x->out[0].p, (BitLength)x->i[0]); return 0; \
    } \
    return 1; \
} \
const xmod xv_mod_tuple##B = { M_TUPLE##B, f_tuple##B, sizeof(TupleHash_Instance), __alignof__(TupleHash_Instance) }; \
static int f_para##B(xctx *c, xop *x) \
{ \
    ParallelHash_Instance *s = INST(ParallelHash_Instance, M_PARA##B, x->slot); \
    switch (x->sub) { \
    case S_ONESHOT: x->ret = ParallelHash##B(x->in[0].p, (BitLength)x->i[0], (size_t)x->i[1], x->out[0].p, (BitLength)x->i[3], x->in[1].p, (BitLength)x->i[2]); return 0; \
    case S_SINIT: x->ret = ParallelHash##B##_Initialize(s, (size_t)x->i[1], (BitLength)x->i[0], x->in[0].p, (BitLength)x->i[2]); return 0; \
    case S_UPD: x->ret = ParallelHash##B##_Update(s, x->in[0].p, (BitLength)x->i[0]); return 0; \
    case S_FINAL: x->ret = ParallelHash##B##_Final(s, x->out[0].p); return 0; \
    case S_SQZ: x->ret = ParallelHash##B##_Squeeze(s, x->out[0].p, (BitLength)x->i[0]); return 0; \
    } \
    return 1; \
} \
const xmod xv_mod_para##B = { M_PARA##B, f_para##B, sizeof(ParallelHash_Instance), __alignof__(ParallelHash_Instance) };
CSH(128)
CSH(256)
#endif
