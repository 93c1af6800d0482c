// The library's interface implemented with the reference model of drv/, so that the unit tests of the repository (whose expected values
// do not come from this directory) judge the model.  Instances are looked up by address; the memory passed in is not used.
#include <map>
#include "../../drv/model.hpp"
#include "../../drv/ffmodel.hpp"
extern "C" {
#include "config.h"
#include "KeccakSponge.h"
#include "KeccakDuplex.h"
#include "KeccakPRG.h"
#include "SimpleFIPS202.h"
#include "KeccakHash.h"
#include "SP800-185.h"
#include "TurboSHAKE.h"
#include "KangarooTwelve.h"
#include "KravatteModes.h"
#define NOT_INITIALIZED_YET X_NOT_INITIALIZED_YET
#define COMPRESSING X_COMPRESSING
#define EXPANDING X_EXPANDING
#define EXPANDED X_EXPANDED
#include "XoofffModes.h"
#include "Xoodyak.h"
}
using namespace model;
typedef const unsigned char *Pi; typedef unsigned char *Po;
static Bytes by(const void *p, size_t n) { return n ? Bytes((Pi)p, (Pi)p + n) : Bytes(); }
static Bits bi(const void *p, size_t n) { return Bits(by(p, (n + 7) / 8), n); }
static void put(Po o, const Bytes &b) { if (b.size()) memcpy(o, b.data(), b.size()); }
template <class T> static T &at(const void *p) { static std::map<const void *, T> m; return m[p]; }
struct Hash { Sponge sp; Bits m; size_t fixed = 0; unsigned d = 0; };
struct Kt { int sec; Bytes m; size_t out; Sponge sp; };
struct S185 { Bits m, K, N, S; std::vector<Bits> t; size_t L = 0, blk = 0, given = 0; Bits all; };
extern "C" {
XKCP_DeclareSpongeFunctions(TurboSHAKE)
#define SPONGE(P, NR) \
int P##_SpongeInitialize(P##_SpongeInstance *i, unsigned r, unsigned c) { if (r + c != 1600 || r % 8 || !r) return 1; at<Sponge>(i) = Sponge(r / 8, NR); return 0; } \
int P##_SpongeAbsorb(P##_SpongeInstance *i, Pi p, size_t n) { Sponge &s = at<Sponge>(i); if (s.squeezing) return 1; s.absorb(p, n); return 0; } \
int P##_SpongeAbsorbLastFewBits(P##_SpongeInstance *i, unsigned char d) { Sponge &s = at<Sponge>(i); if (!d || s.squeezing) return 1; s.finish(d); return 0; } \
int P##_SpongeSqueeze(P##_SpongeInstance *i, Po o, size_t n) { at<Sponge>(i).squeeze(o, n); return 0; } \
int P##_Sponge(unsigned r, unsigned c, Pi in, size_t n, unsigned char d, Po o, size_t m) { if (r + c != 1600 || r % 8 || !r || !d) return 1; Sponge s(r / 8, NR); s.absorb(in, n); s.finish(d); s.squeeze(o, m); return 0; }
SPONGE(KeccakWidth1600, 24) SPONGE(TurboSHAKE, 12)

// (the unit tests look at the indices, and set one of them)
}
struct Dx { KeccakWidth1600_DuplexInstance *i; Duplex &d; Dx(KeccakWidth1600_DuplexInstance *x) : i(x), d(at<Duplex>(x)) { d.in = i->byteInputIndex; d.out = i->byteOutputIndex; } ~Dx() { i->byteInputIndex = d.in; i->byteOutputIndex = d.out; } Duplex &operator*() { return d; } };
extern "C" {
int KeccakWidth1600_DuplexInitialize(KeccakWidth1600_DuplexInstance *i, unsigned r, unsigned c) { return (*Dx(i)).init(r, c); }
int KeccakWidth1600_Duplexing(KeccakWidth1600_DuplexInstance *i, Pi s, unsigned n, Po z, unsigned m, unsigned char d) { Bytes o(m); int r = (*Dx(i)).duplexing(by(s, n), o, d); if (!r) put(z, o); return r; }
int KeccakWidth1600_DuplexingFeedPartialInput(KeccakWidth1600_DuplexInstance *i, Pi p, unsigned n) { return (*Dx(i)).feed(by(p, n)); }
int KeccakWidth1600_DuplexingFeedZeroes(KeccakWidth1600_DuplexInstance *i, unsigned n) { return (*Dx(i)).feedZeroes(n); }
int KeccakWidth1600_DuplexingOverwritePartialInput(KeccakWidth1600_DuplexInstance *i, Pi p, unsigned n) { return (*Dx(i)).overwrite(by(p, n)); }
int KeccakWidth1600_DuplexingOverwriteWithZeroes(KeccakWidth1600_DuplexInstance *i, unsigned n) { return (*Dx(i)).overwriteZeroes(n); }
int KeccakWidth1600_DuplexingGetFurtherOutput(KeccakWidth1600_DuplexInstance *i, Po o, unsigned n) { Bytes z(n); int r = (*Dx(i)).further(z); if (!r) put(o, z); return r; }
int KeccakWidth1600_DuplexingGetFurtherOutputAndAdd(KeccakWidth1600_DuplexInstance *i, Pi p, Po o, unsigned n) { Bytes z(n); int r = (*Dx(i)).furtherAdd(by(p, n), z); if (!r) put(o, z); return r; }
int KeccakWidth1600_SpongePRG_Initialize(KeccakWidth1600_SpongePRG_Instance *i, unsigned c) { return (at<Prg>(i) = Prg()).init(c); }
int KeccakWidth1600_SpongePRG_Feed(KeccakWidth1600_SpongePRG_Instance *i, Pi p, unsigned n) { return at<Prg>(i).feed(by(p, n)); }
int KeccakWidth1600_SpongePRG_Fetch(KeccakWidth1600_SpongePRG_Instance *i, Po o, unsigned n) { put(o, at<Prg>(i).fetch(n)); return 0; }
int KeccakWidth1600_SpongePRG_Forget(KeccakWidth1600_SpongePRG_Instance *i) { return at<Prg>(i).forget(); }

HashReturn Keccak_HashInitialize(Keccak_HashInstance *i, unsigned r, unsigned c, unsigned n, unsigned char d) { if (r + c != 1600 || r % 8 || !r || !d) return KECCAK_FAIL; Hash &h = at<Hash>(i) = Hash(); h.sp = Sponge(r / 8, 24); h.fixed = n; h.d = d; return KECCAK_SUCCESS; }
HashReturn Keccak_HashUpdate(Keccak_HashInstance *i, Pi p, BitLength n) { Hash &h = at<Hash>(i); h.sp.absorb(p, n / 8); if (n % 8) h.m = bi(p + n / 8, n % 8); return KECCAK_SUCCESS; }
HashReturn Keccak_HashFinal(Keccak_HashInstance *i, Po o) { Hash &h = at<Hash>(i); absorbBitsAndFinish(h.sp, h.m, h.d); h.sp.squeeze(o, h.fixed / 8); return KECCAK_SUCCESS; }
HashReturn Keccak_HashSqueeze(Keccak_HashInstance *i, Po o, BitLength n) { at<Hash>(i).sp.squeeze(o, n / 8); return KECCAK_SUCCESS; }
#define FIPS(NAME, R, D) int NAME(Po o, size_t m, Pi p, size_t n) { put(o, keccakHash(R, 24, Bits(by(p, n)), D, m)); return 0; }
FIPS(SHAKE128, 168, 0x1F) FIPS(SHAKE256, 136, 0x1F)
#define FIPSH(NAME, R, M) int NAME(Po o, Pi p, size_t n) { put(o, keccakHash(R, 24, Bits(by(p, n)), 6, M)); return 0; }
FIPSH(SHA3_224, 144, 28) FIPSH(SHA3_256, 136, 32) FIPSH(SHA3_384, 104, 48) FIPSH(SHA3_512, 72, 64)

int KangarooTwelve_Initialize(KangarooTwelve_Instance *i, int sec, size_t n) { if (sec != 128 && sec != 256) return 1; Kt &k = at<Kt>(i); k.sec = sec; k.m.clear(); k.out = n; return 0; }
int KangarooTwelve_Update(KangarooTwelve_Instance *i, Pi p, size_t n) { Kt &k = at<Kt>(i); k.m = k.m + by(p, n); return 0; }
int KangarooTwelve_Final(KangarooTwelve_Instance *i, Po o, Pi c, size_t n) { Kt &k = at<Kt>(i); k.sp = k12Final(k.sec, k.m, by(c, n)); if (k.out) k.sp.squeeze(o, k.out); return 0; }
int KangarooTwelve_Squeeze(KangarooTwelve_Instance *i, Po o, size_t n) { at<Kt>(i).sp.squeeze(o, n); return 0; }
int KangarooTwelve(int sec, Pi p, size_t n, Po o, size_t m, Pi c, size_t cn) { if (!m || (sec != 128 && sec != 256)) return 1; k12Final(sec, by(p, n), by(c, cn)).squeeze(o, m); return 0; }
int KT128(Pi p, size_t n, Po o, size_t m, Pi c, size_t cn) { return KangarooTwelve(128, p, n, o, m, c, cn); }
int KT256(Pi p, size_t n, Po o, size_t m, Pi c, size_t cn) { return KangarooTwelve(256, p, n, o, m, c, cn); }

// Bits beyond the end of a customization string are outside the function's domain, but the unit tests of cSHAKE have them: the library
// puts them where the padding is.
struct Cust { Bits s; unsigned stray = 0; };
static Cust cu(const void *p, size_t n) { Cust c; c.s = bi(p, n); if (n % 8) c.stray = ((Pi)p)[n / 8] ^ c.s.b[n / 8]; return c; }
static Bits cshakeStray(unsigned sec, const Bits &x, size_t L, const Bits &N, const Cust &S)
{
    if (!S.stray) return cshake(sec, x, L, N, S.s);
    unsigned rate = sec == 128 ? 168 : 136; Bytes pad = bytepad(encodeString(N) + encodeString(S.s), rate);
    pad[leftEncode(rate).size() + encodeString(N).n / 8 + leftEncode(S.s.n).size() + S.s.n / 8] ^= S.stray;
    Sponge sp(rate, 24); sp.absorb(pad); absorbBitsAndFinish(sp, x, 0x04); return Bits(sp.squeeze((L + 7) / 8), L);
}
#define SP(B) \
int cSHAKE##B(Pi p, BitLength n, Po o, BitLength L, Pi N, BitLength nn, Pi S, BitLength sn) { put(o, cshakeStray(B, bi(p, n), L, bi(N, nn), cu(S, sn)).b); return 0; } \
int cSHAKE##B##_Initialize(cSHAKE_Instance *i, BitLength L, Pi N, BitLength nn, Pi S, BitLength sn) { S185 &t = at<S185>(i) = S185(); t.L = L; t.N = bi(N, nn); t.S = bi(S, sn); at<Cust>(i) = cu(S, sn); return 0; } \
int cSHAKE##B##_Update(cSHAKE_Instance *i, Pi p, BitLength n) { at<S185>(i).m.append(bi(p, n)); return 0; } \
int cSHAKE##B##_Final(cSHAKE_Instance *i, Po o) { S185 &t = at<S185>(i); if (t.L) put(o, cshakeStray(B, t.m, t.L, t.N, at<Cust>(i)).b); return 0; } \
int cSHAKE##B##_Squeeze(cSHAKE_Instance *i, Po o, BitLength L) { S185 &t = at<S185>(i); if (t.all.n < t.given + L) t.all = cshakeStray(B, t.m, 2 * (t.given + L) + 4096, t.N, at<Cust>(i)); put(o, t.all.sub(t.given, L).b); t.given += L; return 0; } \
int KMAC##B(Pi K, BitLength kn, Pi p, BitLength n, Po o, BitLength L, Pi S, BitLength sn) { put(o, kmac(B, bi(K, kn), bi(p, n), L, false, bi(S, sn)).b); return 0; } \
int KMAC##B##_Initialize(KMAC_Instance *i, Pi K, BitLength kn, BitLength L, Pi S, BitLength sn) { S185 &t = at<S185>(i) = S185(); t.L = L; t.K = bi(K, kn); t.S = bi(S, sn); return 0; } \
int KMAC##B##_Update(KMAC_Instance *i, Pi p, BitLength n) { at<S185>(i).m.append(bi(p, n)); return 0; } \
int KMAC##B##_Final(KMAC_Instance *i, Po o) { S185 &t = at<S185>(i); if (t.L) put(o, kmac(B, t.K, t.m, t.L, false, t.S).b); return 0; } \
int KMAC##B##_Squeeze(KMAC_Instance *i, Po o, BitLength L) { S185 &t = at<S185>(i); if (t.all.n < t.given + L) t.all = kmac(B, t.K, t.m, 2 * (t.given + L) + 4096, true, t.S); put(o, t.all.sub(t.given, L).b); t.given += L; return 0; } \
int ParallelHash##B(Pi p, BitLength n, size_t bl, Po o, BitLength L, Pi S, BitLength sn) { put(o, parallelHash(B, bi(p, n), bl, L, false, bi(S, sn)).b); return 0; } \
int ParallelHash##B##_Initialize(ParallelHash_Instance *i, size_t bl, BitLength L, Pi S, BitLength sn) { S185 &t = at<S185>(i) = S185(); t.L = L; t.blk = bl; t.S = bi(S, sn); return 0; } \
int ParallelHash##B##_Update(ParallelHash_Instance *i, Pi p, BitLength n) { at<S185>(i).m.append(bi(p, n)); return 0; } \
int ParallelHash##B##_Final(ParallelHash_Instance *i, Po o) { S185 &t = at<S185>(i); if (t.L) put(o, parallelHash(B, t.m, t.blk, t.L, false, t.S).b); return 0; } \
int ParallelHash##B##_Squeeze(ParallelHash_Instance *i, Po o, BitLength L) { S185 &t = at<S185>(i); if (t.all.n < t.given + L) t.all = parallelHash(B, t.m, t.blk, 2 * (t.given + L) + 4096, true, t.S); put(o, t.all.sub(t.given, L).b); t.given += L; return 0; } \
static std::vector<Bits> tup##B(const TupleElement *t, size_t n) { std::vector<Bits> r; while (n--) { r.push_back(bi(t->input, t->inputBitLen)); t++; } return r; } \
int TupleHash##B(const TupleElement *e, size_t n, Po o, BitLength L, Pi S, BitLength sn) { put(o, tupleHash(B, tup##B(e, n), L, false, bi(S, sn)).b); return 0; } \
int TupleHash##B##_Initialize(TupleHash_Instance *i, BitLength L, Pi S, BitLength sn) { S185 &t = at<S185>(i) = S185(); t.L = L; t.S = bi(S, sn); return 0; } \
int TupleHash##B##_Update(TupleHash_Instance *i, const TupleElement *e, size_t n) { S185 &t = at<S185>(i); for (auto &x : tup##B(e, n)) t.t.push_back(x); return 0; } \
int TupleHash##B##_Final(TupleHash_Instance *i, Po o) { S185 &t = at<S185>(i); if (t.L) put(o, tupleHash(B, t.t, t.L, false, t.S).b); return 0; } \
int TupleHash##B##_Squeeze(TupleHash_Instance *i, Po o, BitLength L) { S185 &t = at<S185>(i); if (t.all.n < t.given + L) t.all = tupleHash(B, t.t, 2 * (t.given + L) + 4096, true, t.S); put(o, t.all.sub(t.given, L).b); t.given += L; return 0; }
SP(128) SP(256)

#define FF(I, T, MASK, C, E, CE, P, WP, F1, F2, F3) \
static int fl##T(int f) { return (f & F1 ? FF_INIT : 0) | (f & F2 ? FF_LAST : 0) | (f & F3 ? FF_SHORT : 0); } \
int MASK(I *i, Pi K, BitLength n) { return (at<Farfalle<T>>(i) = Farfalle<T>()).mask(bi(K, n)); } \
int C(I *i, Pi p, BitLength n, int f) { return at<Farfalle<T>>(i).compress(bi(p, n), fl##T(f)); } \
int E(I *i, Po o, BitLength n, int f) { Bits z; int r = at<Farfalle<T>>(i).expand(z, n, fl##T(f)); if (!r) put(o, z.b); return r; } \
int CE(I *i, Pi p, BitLength n, Po o, BitLength m, int f) { f |= F2; int r = C(i, p, n, f); return r ? r : E(i, o, m, f); } \
int P##SANE_Initialize(P##SANE_Instance *i, Pi K, BitLength n, Pi N, BitLength m, Po tag) { put(tag, at<Sane<T>>(i).init(bi(K, n), bi(N, m))); return 0; } \
int P##SANE_Wrap(P##SANE_Instance *i, Pi p, Po c, BitLength n, Pi a, BitLength m, Po tag) { Bytes t; Bits C = at<Sane<T>>(i).wrap(bi(p, n), bi(a, m), t); put(c, C.b); put(tag, t); return 0; } \
int P##SANE_Unwrap(P##SANE_Instance *i, Pi c, Po p, BitLength n, Pi a, BitLength m, Pi tag) { Bits x; bool ok = at<Sane<T>>(i).unwrap(bi(c, n), bi(a, m), by(tag, 16), x); if (ok) put(p, x.b); return !ok; } \
int P##SANSE_Initialize(P##SANSE_Instance *i, Pi K, BitLength n) { at<Sanse<T>>(i).init(bi(K, n)); return 0; } \
int P##SANSE_Wrap(P##SANSE_Instance *i, Pi p, Po c, BitLength n, Pi a, BitLength m, Po tag) { Bytes t; Bits C = at<Sanse<T>>(i).wrap(bi(p, n), bi(a, m), t); put(c, C.b); put(tag, t); return 0; } \
int P##SANSE_Unwrap(P##SANSE_Instance *i, Pi c, Po p, BitLength n, Pi a, BitLength m, Pi tag) { Bits x; bool ok = at<Sanse<T>>(i).unwrap(bi(c, n), bi(a, m), by(tag, 32), x); if (ok) put(p, x.b); return !ok; } \
int WP##WBC_Encipher(I *i, Pi p, Po c, BitLength n, Pi w, BitLength m) { Wbc<T> b; b.k = at<Farfalle<T>>(i); put(c, b.encipher(bi(p, n), bi(w, m)).b); return 0; } \
int WP##WBC_Decipher(I *i, Pi c, Po p, BitLength n, Pi w, BitLength m) { Wbc<T> b; b.k = at<Farfalle<T>>(i); put(p, b.decipher(bi(c, n), bi(w, m)).b); return 0; } \
int WP##WBCAE_Encipher(I *i, Po p, Po c, BitLength n, Pi w, BitLength m) { Wbc<T> b; b.k = at<Farfalle<T>>(i); Bits x = bi(p, n); for (int j = 0; j < 128; j++) x.push(0); put(p, x.b); put(c, b.encipher(x, bi(w, m)).b); return 0; } \
int WP##WBCAE_Decipher(I *i, Pi c, Po p, BitLength n, Pi w, BitLength m) { Wbc<T> b; b.k = at<Farfalle<T>>(i); Bits x = b.decipher(bi(c, n + 128), bi(w, m)); for (size_t j = n; j < x.n; j++) if (x.at(j)) return 1; put(p, x.b); return 0; }
FF(Kravatte_Instance, KravatteT, Kravatte_MaskDerivation, Kra, Vatte, Kravatte, Kravatte_, Kravatte_, KRAVATTE_FLAG_INIT, KRAVATTE_FLAG_LAST_PART, KRAVATTE_FLAG_SHORT)
FF(Xoofff_Instance, XoofffT, Xoofff_MaskDerivation, Xoofff_Compress, Xoofff_Expand, Xoofff, Xoofff, Xoofff, Xoofff_FlagInit, Xoofff_FlagLastPart, Xoofff_FlagXoofffie)

void Xoodyak_Initialize(Xoodyak_Instance *i, const uint8_t *K, size_t kn, const uint8_t *id, size_t in, const uint8_t *c, size_t cn) { (at<Cyclist>(i) = Cyclist()).init(by(K, kn), by(id, in), by(c, cn)); }
void Xoodyak_Absorb(Xoodyak_Instance *i, const uint8_t *p, size_t n) { at<Cyclist>(i).absorb(by(p, n)); }
void Xoodyak_Encrypt(Xoodyak_Instance *i, const uint8_t *p, uint8_t *c, size_t n) { put(c, at<Cyclist>(i).crypt(by(p, n), false)); }
void Xoodyak_Decrypt(Xoodyak_Instance *i, const uint8_t *c, uint8_t *p, size_t n) { put(p, at<Cyclist>(i).crypt(by(c, n), true)); }
void Xoodyak_Squeeze(Xoodyak_Instance *i, uint8_t *o, size_t n) { put(o, at<Cyclist>(i).squeezeAny(n, 0x40)); }
void Xoodyak_SqueezeKey(Xoodyak_Instance *i, uint8_t *o, size_t n) { put(o, at<Cyclist>(i).squeezeAny(n, 0x20)); }
void Xoodyak_Ratchet(Xoodyak_Instance *i) { at<Cyclist>(i).ratchet(); }
}
