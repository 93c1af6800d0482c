/* C27: runs a case with the library */
#include "big.h"
#include "config.h"
#include "KeccakSponge.h"
#include "KeccakHash.h"
#include "SimpleFIPS202.h"
#include "TurboSHAKE.h"
#include "SP800-185.h"
#include "KangarooTwelve.h"
#include "KeccakPRG.h"
#include "Kravatte.h"
#include "KravatteModes.h"
#ifdef XKCP_has_Xoodyak
#include "Xoodyak.h"
#endif
#include "big_ff.inc"
static int run_sponge(const bcase *c)
{
    static KeccakWidth1600_SpongeInstance s; int i;
    if (IS("sponge1")) {
        const bop *a = big_find(c, 'A'), *o = big_find(c, 'S');
        IN(IDX(c, a), (__extension__({ OUT("output", o, KeccakWidth1600_Sponge((unsigned)c->p[0], (unsigned)c->p[1], in, a->n, (u8)c->p[2], out, n_)); 0; })));
        return 0;
    }
    big_ret("init", KeccakWidth1600_SpongeInitialize(&s, (unsigned)c->p[0], (unsigned)c->p[1]));
    for (i = 0; i < c->nops; i++) { const bop *o = &c->o[i];
        if (o->op == 'A') IN(i, KeccakWidth1600_SpongeAbsorb(&s, in, o->n));
        else if (o->op == 'L') big_ret("last", KeccakWidth1600_SpongeAbsorbLastFewBits(&s, (u8)o->n));
        else OUT("output", o, KeccakWidth1600_SpongeSqueeze(&s, out, n_));
    }
    return 0;
}
static int run_fips(const bcase *c)
{
    const bop *a = big_find(c, 'A'), *o = big_find(c, 'S'); u8 *in = big_in(c, IDX(c, a));
    switch (c->p[0]) {
    case 0: OUT("output", o, SHAKE128(out, n_, in, a->n)); break;
    case 1: OUT("output", o, SHAKE256(out, n_, in, a->n)); break;
    case 2: OUT("output", o, SHA3_224(out, in, a->n)); break;
    case 3: OUT("output", o, SHA3_256(out, in, a->n)); break;
    case 4: OUT("output", o, SHA3_384(out, in, a->n)); break;
    default: OUT("output", o, SHA3_512(out, in, a->n)); break;
    }
    return 0;
}
static int run_hash(const bcase *c)
{
    static Keccak_HashInstance s; const bop *f = big_find(c, 'F'); int i;
    big_ret("init", Keccak_HashInitialize(&s, (unsigned)c->p[0], (unsigned)c->p[1], (unsigned)(f->n * 8), (u8)c->p[3]));
    for (i = 0; i < c->nops; i++) { const bop *o = &c->o[i];
        if (o->op == 'A') IN(i, Keccak_HashUpdate(&s, in, BITS(o)));
        else if (o->op == 'F') OUT("final", o, Keccak_HashFinal(&s, out));
        else OUT("output", o, Keccak_HashSqueeze(&s, out, BITS(o)));
    }
    return 0;
}
static int run_turbo(const bcase *c)
{
    static TurboSHAKE_Instance s; int i;
    if (IS("turbo1")) {
        const bop *a = big_find(c, 'A'), *o = big_find(c, 'S'); u8 *in = big_in(c, IDX(c, a));
        OUT("output", o, TurboSHAKE((unsigned)c->p[0], in, a->n, (u8)c->p[1], out, n_));
        return 0;
    }
    big_ret("init", TurboSHAKE_Initialize(&s, (unsigned)c->p[0]));
    for (i = 0; i < c->nops; i++) { const bop *o = &c->o[i];
        if (o->op == 'A') IN(i, TurboSHAKE_Absorb(&s, in, o->n));
        else if (o->op == 'L') big_ret("last", TurboSHAKE_AbsorbDomainSeparationByte(&s, (u8)o->n));
        else OUT("output", o, TurboSHAKE_Squeeze(&s, out, n_));
    }
    return 0;
}
#define SP(B) \
static int run_sp##B(const bcase *c) \
{ \
    const bop *f = big_find(c, 'F'), *cu = big_find(c, 'C'), *nm = big_find(c, 'N'), *k = big_find(c, 'K'), *a = big_find(c, 'A'); int i, n = 0, r; u8 *C, *N, *K; \
    static cSHAKE_Instance cs; static KMAC_Instance km; static TupleHash_Instance th; static ParallelHash_Instance ph; TupleElement te[64]; BitLength L = BITS(f); \
    C = cu ? big_in(c, IDX(c, cu)) : NULL; if (!cu) cu = &zero; N = nm ? big_in(c, IDX(c, nm)) : NULL; if (!nm) nm = &zero; K = k ? big_in(c, IDX(c, k)) : NULL; if (!k) k = &zero; \
    if (IS("csh1")) { u8 *in = big_in(c, IDX(c, a)); OUT("final", f, cSHAKE##B(in, BITS(a), out, L, N, BITS(nm), C, BITS(cu))); return 0; } \
    if (IS("kmac1")) { u8 *in = big_in(c, IDX(c, a)); OUT("final", f, KMAC##B(K, BITS(k), in, BITS(a), out, L, C, BITS(cu))); return 0; } \
    if (IS("par1")) { u8 *in = big_in(c, IDX(c, a)); OUT("final", f, ParallelHash##B(in, BITS(a), (size_t)c->p[1], out, L, C, BITS(cu))); return 0; } \
    if (IS("tup1")) { for (i = 0; i < c->nops; i++) if (c->o[i].op == 'A') { te[n].input = big_in(c, i); te[n++].inputBitLen = BITS(&c->o[i]); } \
        OUT("final", f, TupleHash##B(te, n, out, L, C, BITS(cu))); return 0; } \
    if (IS("csh")) r = cSHAKE##B##_Initialize(&cs, L, N, BITS(nm), C, BITS(cu)); else if (IS("kmac")) r = KMAC##B##_Initialize(&km, K, BITS(k), L, C, BITS(cu)); \
    else if (IS("tup")) r = TupleHash##B##_Initialize(&th, L, C, BITS(cu)); else r = ParallelHash##B##_Initialize(&ph, (size_t)c->p[1], L, C, BITS(cu)); \
    big_ret("init", r); \
    for (i = 0; i < c->nops; i++) { const bop *o = &c->o[i]; \
        if (o->op == 'A') { u8 *in = big_in(c, i); \
            if (IS("csh")) r = cSHAKE##B##_Update(&cs, in, BITS(o)); else if (IS("kmac")) r = KMAC##B##_Update(&km, in, BITS(o)); \
            else if (IS("tup")) { te[0].input = in; te[0].inputBitLen = BITS(o); r = TupleHash##B##_Update(&th, te, 1); } else r = ParallelHash##B##_Update(&ph, in, BITS(o)); \
            big_ret("update", r); big_in_done(c, i, in); } \
        else if (o->op == 'F') OUT("final", o, IS("csh") ? cSHAKE##B##_Final(&cs, out) : IS("kmac") ? KMAC##B##_Final(&km, out) : IS("tup") ? TupleHash##B##_Final(&th, out) : ParallelHash##B##_Final(&ph, out)); \
        else if (o->op == 'S') OUT("output", o, IS("csh") ? cSHAKE##B##_Squeeze(&cs, out, BITS(o)) : IS("kmac") ? KMAC##B##_Squeeze(&km, out, BITS(o)) : IS("tup") ? TupleHash##B##_Squeeze(&th, out, BITS(o)) : ParallelHash##B##_Squeeze(&ph, out, BITS(o))); \
    } \
    return 0; \
}
SP(128)
SP(256)
static int run_k12(const bcase *c)
{
    static KangarooTwelve_Instance s; const bop *f = big_find(c, 'F'), *cu = big_find(c, 'C'), *a = big_find(c, 'A'); int i; u8 *C = cu ? big_in(c, IDX(c, cu)) : NULL;
    if (!cu) cu = &zero;
    if (IS("k121")) {
        u8 *in = big_in(c, IDX(c, a));
        if (c->p[0] == 128) OUT("final", f, KT128(in, a->n, out, n_, C, cu->n)); else OUT("final", f, KT256(in, a->n, out, n_, C, cu->n));
        return 0;
    }
    big_ret("init", KangarooTwelve_Initialize(&s, (int)c->p[0], f->n));
    for (i = 0; i < c->nops; i++) { const bop *o = &c->o[i];
        if (o->op == 'A') IN(i, KangarooTwelve_Update(&s, in, o->n));
        else if (o->op == 'F') OUT("final", o, KangarooTwelve_Final(&s, out, C, cu->n));
        else if (o->op == 'S') OUT("output", o, KangarooTwelve_Squeeze(&s, out, n_));
    }
    return 0;
}
static int run_prg(const bcase *c)
{
    static KeccakWidth1600_SpongePRG_Instance s; int i;
    big_ret("init", KeccakWidth1600_SpongePRG_Initialize(&s, (unsigned)c->p[0]));
    for (i = 0; i < c->nops; i++) { const bop *o = &c->o[i];
        if (o->op == 'A') IN(i, KeccakWidth1600_SpongePRG_Feed(&s, in, (unsigned)o->n));
        else if (o->op == 'G') big_ret("forget", KeccakWidth1600_SpongePRG_Forget(&s));
        else OUT("output", o, KeccakWidth1600_SpongePRG_Fetch(&s, out, (unsigned)n_));
    }
    return 0;
}
FF(Kravatte, Kravatte_, Kravatte_MaskDerivation, Kra, Vatte, Kravatte)
int ff_Xoofff(const bcase *c);
#ifdef XKCP_has_Xoodyak
static int run_xdk(const bcase *c)
{
    static Xoodyak_Instance s; int i;
    if (c->p[0]) Xoodyak_Initialize(&s, big_key, 16, big_key + 16, 8, big_key + 24, 3); else Xoodyak_Initialize(&s, NULL, 0, NULL, 0, NULL, 0);
    for (i = 0; i < c->nops; i++) { const bop *o = &c->o[i]; u8 *in;
        switch (o->op) {
        case 'A': IN(i, (Xoodyak_Absorb(&s, in, o->n), 0)); break;
        case 'S': OUT("squeeze", o, (Xoodyak_Squeeze(&s, out, n_), 0)); break;
        case 'K': OUT("key", o, (Xoodyak_SqueezeKey(&s, out, n_), 0)); break;
        case 'R': Xoodyak_Ratchet(&s); break;
        case 'E': in = big_in(c, i); OUT("ciphertext", o, (Xoodyak_Encrypt(&s, in, out, n_), 0)); big_in_done(c, i, in); break;
        case 'D': in = big_in(c, i); OUT("plaintext", o, (Xoodyak_Decrypt(&s, in, out, n_), 0)); big_in_done(c, i, in); break;
        }
    }
    return 0;
}
#endif
int big_run(const bcase *c, int standin)
{
    if (IS("sponge") || IS("sponge1")) return run_sponge(c);
    if (IS("fips")) return run_fips(c);
    if (IS("hash")) return run_hash(c);
    if (IS("turbo") || IS("turbo1")) return run_turbo(c);
    if (IS("csh") || IS("csh1") || IS("kmac") || IS("kmac1") || IS("tup") || IS("tup1") || IS("par") || IS("par1")) return c->p[0] == 128 ? run_sp128(c) : run_sp256(c);
    if (IS("k12") || IS("k121")) return run_k12(c);
    if (IS("prg")) return run_prg(c);
    if (IS("kravatte")) return ff_Kravatte(c);
#ifdef XKCP_has_Xoofff
    if (IS("xoofff")) return ff_Xoofff(c);
#endif
#ifdef XKCP_has_Xoodyak
    if (IS("xoodyak")) return run_xdk(c);
#endif
    return 1;
}
