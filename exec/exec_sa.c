/* The stand-alone C programs (SA_MORE, SA_READABLE, SA_TWEET) and the Rust KangarooTwelve (SA_RUST), one per executor. */
#include "exec.h"
#if defined(SA_MORE) || defined(SA_READABLE)
#ifdef SA_MORE
typedef unsigned long long LEN; typedef unsigned long long OLEN;
#else
typedef unsigned int LEN; typedef int OLEN;
#endif
void Keccak(unsigned r, unsigned c, const unsigned char *in, unsigned long long inLen, unsigned char sfx, unsigned char *out, unsigned long long outLen);
void FIPS202_SHAKE128(const unsigned char *in, LEN inLen, unsigned char *out, OLEN outLen);
void FIPS202_SHAKE256(const unsigned char *in, LEN inLen, unsigned char *out, OLEN outLen);
void FIPS202_SHA3_224(const unsigned char *in, LEN inLen, unsigned char *out);
void FIPS202_SHA3_256(const unsigned char *in, LEN inLen, unsigned char *out);
void FIPS202_SHA3_384(const unsigned char *in, LEN inLen, unsigned char *out);
void FIPS202_SHA3_512(const unsigned char *in, LEN inLen, unsigned char *out);
static int f_fips(xctx *c, xop *x)
{
    unsigned char *o = x->out[0].p, *in = x->in[0].p; size_t on = x->out[0].n, n = x->in[0].n;
    switch (x->i[0]) {
    case F_SHAKE128: FIPS202_SHAKE128(in, n, o, on); return 0;
    case F_SHAKE256: FIPS202_SHAKE256(in, n, o, on); return 0;
    case F_SHA3_224: FIPS202_SHA3_224(in, n, o); return 0;
    case F_SHA3_256: FIPS202_SHA3_256(in, n, o); return 0;
    case F_SHA3_384: FIPS202_SHA3_384(in, n, o); return 0;
    case F_SHA3_512: FIPS202_SHA3_512(in, n, o); return 0;
    }
    return 1;
}
const xmod xv_mod_safips = { M_SAFIPS, f_fips, 0, 1 };
static int f_keccak(xctx *c, xop *x)
{
    Keccak((unsigned)x->i[0], 1600 - (unsigned)x->i[0], x->in[0].p, x->in[0].n, (unsigned char)x->i[1], x->out[0].p, x->out[0].n);
    return 0;
}
const xmod xv_mod_sakeccak = { M_SAKECCAK, f_keccak, 0, 1 };
#endif
#ifdef SA_TWEET
typedef unsigned long long u64; typedef unsigned char u8;
int crypto_hash_shake128(u8 *h, u64 d, const u8 *m, u64 n);
int crypto_hash_shake256(u8 *h, u64 d, const u8 *m, u64 n);
int crypto_hash_sha3224(u8 *h, const u8 *m, u64 n);
int crypto_hash_sha3256(u8 *h, const u8 *m, u64 n);
int crypto_hash_sha3384(u8 *h, const u8 *m, u64 n);
int crypto_hash_sha3512(u8 *h, const u8 *m, u64 n);
static int f_fips(xctx *c, xop *x)
{
    unsigned char *o = x->out[0].p, *in = x->in[0].p; size_t on = x->out[0].n, n = x->in[0].n;
    switch (x->i[0]) {
    case F_SHAKE128: x->ret = crypto_hash_shake128(o, on, in, n); return 0;
    case F_SHAKE256: x->ret = crypto_hash_shake256(o, on, in, n); return 0;
    case F_SHA3_224: x->ret = crypto_hash_sha3224(o, in, n); return 0;
    case F_SHA3_256: x->ret = crypto_hash_sha3256(o, in, n); return 0;
    case F_SHA3_384: x->ret = crypto_hash_sha3384(o, in, n); return 0;
    case F_SHA3_512: x->ret = crypto_hash_sha3512(o, in, n); return 0;
    }
    return 1;
}
const xmod xv_mod_safips = { M_SAFIPS, f_fips, 0, 1 };
#endif
#ifdef SA_RUST
void xv_rust_k12(const unsigned char *m, size_t n, const unsigned char *c, size_t cn, unsigned char *o, size_t on);
static int f_k12(xctx *c, xop *x)
{
    xv_rust_k12(x->in[0].p, x->in[0].n, x->in[1].p, x->in[1].n, x->out[0].p, x->out[0].n);
    return 0;
}
const xmod xv_mod_sak12 = { M_SAK12, f_k12, 0, 1 };
#endif
