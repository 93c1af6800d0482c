// Reference models, written from the specifications (FIPS 202, SP 800-185, RFC 9861 / KangarooTwelve, the duplex and sponge
// papers, Farfalle, Xoodoo cookbook) and from nothing in the code under test.  Slow and simple on purpose.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <cstring>
#include <algorithm>
#include <array>
namespace model {
typedef std::vector<uint8_t> Bytes;

inline Bytes operator+(const Bytes &a, const Bytes &b) { Bytes r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
inline Bytes str(const char *s) { return Bytes(s, s + strlen(s)); }

// ---- bit strings, least significant bit of each byte first
struct Bits {
    Bytes b; size_t n = 0;
    Bits() {}
    Bits(const Bytes &x) : b(x), n(x.size() * 8) {}
    Bits(const Bytes &x, size_t bits) : b(x.begin(), x.begin() + (bits + 7) / 8), n(bits) { if (n % 8) b.back() &= (uint8_t)((1u << (n % 8)) - 1); }
    int at(size_t i) const { return (b[i / 8] >> (i % 8)) & 1; }
    void push(int v) { if (n % 8 == 0) b.push_back(0); if (v) b[n / 8] |= (uint8_t)(1u << (n % 8)); n++; }
    void append(const Bits &o) {
        if (n % 8 == 0) { b.insert(b.end(), o.b.begin(), o.b.end()); n += o.n; }
        else for (size_t i = 0; i < o.n; i++) push(o.at(i));
    }
    Bits sub(size_t from, size_t len) const {
        Bits r;
        if (from % 8 == 0) { r.b.assign(b.begin() + from / 8, b.begin() + (from + len + 7) / 8); r.n = len; if (len % 8) r.b.back() &= (uint8_t)((1u << (len % 8)) - 1); }
        else for (size_t i = 0; i < len; i++) r.push(at(from + i));
        return r;
    }
};
inline Bits bits(std::initializer_list<int> l) { Bits r; for (int v : l) r.push(v); return r; }
inline Bits operator+(const Bits &a, const Bits &c) { Bits r(a); r.append(c); return r; }
inline Bits bxor(const Bits &a, const Bits &c) { Bits r(a); for (size_t i = 0; i < r.b.size(); i++) r.b[i] ^= c.b[i]; return r; }

// ---- Keccak-p[1600, nr]
struct KConst {
    uint64_t rc[24]; unsigned rho[25];
    KConst() {
        unsigned R = 1;                                     // rc(t) of FIPS 202, algorithm 5
        auto bit = [&]() { unsigned o = R & 1; R <<= 1; if (R & 0x100) R ^= 0x171; return o; };
        for (int i = 0; i < 24; i++) { rc[i] = 0; for (int j = 0; j < 7; j++) if (bit()) rc[i] |= 1ULL << ((1 << j) - 1); }
        unsigned x = 1, y = 0; rho[0] = 0;
        for (unsigned t = 0; t < 24; t++) { rho[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; unsigned Y = (2 * x + 3 * y) % 5; x = y; y = Y; }
    }
};
inline const KConst &kc() { static const KConst k; return k; }
inline uint64_t rol64(uint64_t a, unsigned n) { n %= 64; return n ? (a << n) | (a >> (64 - n)) : a; }
inline uint32_t rol32(uint32_t a, unsigned n) { n %= 32; return n ? (a << n) | (a >> (32 - n)) : a; }
inline void keccakp(uint64_t A[25], unsigned nr)
{
    for (unsigned i = 24 - nr; i < 24; i++) {
        uint64_t C[5], B[25];
        for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
        for (int x = 0; x < 5; x++) { uint64_t D = C[(x + 4) % 5] ^ rol64(C[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) A[x + 5 * y] ^= D; }
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y + 5 * ((2 * x + 3 * y) % 5)] = rol64(A[x + 5 * y], kc().rho[x + 5 * y]);
        for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
        A[0] ^= kc().rc[i];
    }
}
inline void keccakp(uint8_t s[200], unsigned nr)
{
    uint64_t A[25];
    for (int i = 0; i < 25; i++) { A[i] = 0; for (int j = 0; j < 8; j++) A[i] |= (uint64_t)s[8 * i + j] << (8 * j); }
    keccakp(A, nr);
    for (int i = 0; i < 25; i++) for (int j = 0; j < 8; j++) s[8 * i + j] = (uint8_t)(A[i] >> (8 * j));
}
// ---- Xoodoo[nr]
inline void xoodoo(uint8_t s[48], unsigned nr)
{
    static const uint32_t rc[12] = { 0x58, 0x38, 0x3C0, 0xD0, 0x120, 0x14, 0x60, 0x2C, 0x380, 0xF0, 0x1A0, 0x12 };
    uint32_t a[3][4], b[3][4];
    for (int y = 0; y < 3; y++) for (int x = 0; x < 4; x++) { a[y][x] = 0; for (int j = 0; j < 4; j++) a[y][x] |= (uint32_t)s[16 * y + 4 * x + j] << (8 * j); }
    for (unsigned i = 12 - nr; i < 12; i++) {
        uint32_t p[4], e[4];
        for (int x = 0; x < 4; x++) p[x] = a[0][x] ^ a[1][x] ^ a[2][x];
        for (int x = 0; x < 4; x++) e[x] = rol32(p[(x + 3) % 4], 5) ^ rol32(p[(x + 3) % 4], 14);
        for (int y = 0; y < 3; y++) for (int x = 0; x < 4; x++) a[y][x] ^= e[x];
        for (int x = 0; x < 4; x++) { b[0][x] = a[0][x]; b[1][x] = a[1][(x + 3) % 4]; b[2][x] = rol32(a[2][x], 11); }
        b[0][0] ^= rc[i];
        for (int x = 0; x < 4; x++) for (int y = 0; y < 3; y++) a[y][x] = b[y][x] ^ (~b[(y + 1) % 3][x] & b[(y + 2) % 3][x]);
        for (int x = 0; x < 4; x++) { uint32_t t1 = rol32(a[1][x], 1); e[x] = rol32(a[2][(x + 2) % 4], 8); a[1][x] = t1; }
        for (int x = 0; x < 4; x++) a[2][x] = e[x];
    }
    for (int y = 0; y < 3; y++) for (int x = 0; x < 4; x++) for (int j = 0; j < 4; j++) s[16 * y + 4 * x + j] = (uint8_t)(a[y][x] >> (8 * j));
}

// ---- sponge with pad10*1; `dsuffix` = suffix bits followed by a 1 (the delimiter convention of the API)
struct Sponge {
    uint8_t s[200]; unsigned rate, nr; size_t pos = 0; bool squeezing = false; size_t total = 0;   // rate in bytes
    Sponge(unsigned rateBytes = 168, unsigned rounds = 24) : rate(rateBytes), nr(rounds) { memset(s, 0, 200); }
    void absorb(const uint8_t *p, size_t n) { while (n--) { s[pos++] ^= *p++; if (pos == rate) { keccakp(s, nr); pos = 0; } total++; } }
    void absorb(const Bytes &b) { absorb(b.data(), b.size()); }
    // delimiter: bits of d below its top set bit are appended to the message, the top bit is the first padding bit
    void finish(unsigned d)
    {
        // message bits are whole bytes here; at most 7 suffix bits plus the first padding bit fit in this byte
        s[pos] ^= (uint8_t)d;
        if (d >= 0x80 && pos == rate - 1) { keccakp(s, nr); }
        s[rate - 1] ^= 0x80;
        keccakp(s, nr); pos = 0; squeezing = true;
    }
    void squeeze(uint8_t *o, size_t n) { if (!squeezing) finish(0x01); while (n--) { if (pos == rate) { keccakp(s, nr); pos = 0; } *o++ = s[pos++]; } }
    Bytes squeeze(size_t n) { Bytes r(n); squeeze(r.data(), n); return r; }
};
// message given in bits, suffix given as delimiter byte: up to 7+7 bits spill over at most two bytes
inline void absorbBitsAndFinish(Sponge &sp, const Bits &m, unsigned dsuffix)
{
    Bits f(m);
    int top = 7; while (!(dsuffix >> top & 1)) top--;
    for (int i = 0; i < top; i++) f.push(dsuffix >> i & 1);
    size_t full = f.n / 8;
    sp.absorb(f.b.data(), full);
    unsigned last = f.n % 8 ? f.b[full] : 0;
    last |= 1u << (f.n % 8);
    sp.finish(last);
}
inline Bytes keccakHash(unsigned rateBytes, unsigned nr, const Bits &m, unsigned dsuffix, size_t outBytes)
{
    Sponge sp(rateBytes, nr); absorbBitsAndFinish(sp, m, dsuffix); return sp.squeeze(outBytes);
}

// ---- SP 800-185
inline Bytes leftEncode(uint64_t v) { Bytes r; int n = 1; while (n < 8 && (v >> (8 * n))) n++; r.push_back((uint8_t)n); for (int i = n - 1; i >= 0; i--) r.push_back((uint8_t)(v >> (8 * i))); return r; }
inline Bytes rightEncode(uint64_t v) { Bytes r; int n = 1; while (n < 8 && (v >> (8 * n))) n++; for (int i = n - 1; i >= 0; i--) r.push_back((uint8_t)(v >> (8 * i))); r.push_back((uint8_t)n); return r; }
inline Bits encodeString(const Bits &s) { return Bits(leftEncode(s.n)) + s; }
inline Bytes bytepad(Bits x, unsigned w) { Bits z = Bits(leftEncode(w)) + x; while (z.n % 8) z.push(0); while (z.b.size() % w) { z.b.push_back(0); z.n += 8; } return z.b; }
struct CShake {       // the absorbing part of cSHAKE with everything known
    static Bits out(unsigned sec, const Bits &x, size_t outBits, const Bits &N, const Bits &S)
    {
        unsigned rate = sec == 128 ? 168 : 136;
        Sponge sp(rate, 24);
        unsigned d = 0x1F;
        if (N.n || S.n) { sp.absorb(bytepad(encodeString(N) + encodeString(S), rate)); d = 0x04; }
        absorbBitsAndFinish(sp, x, d);
        return Bits(sp.squeeze((outBits + 7) / 8), outBits);
    }
};
inline Bits cshake(unsigned sec, const Bits &x, size_t L, const Bits &N, const Bits &S) { return CShake::out(sec, x, L, N, S); }
inline Bits kmac(unsigned sec, const Bits &K, const Bits &x, size_t L, bool xof, const Bits &S)
{
    Bits X = Bits(bytepad(encodeString(K), sec == 128 ? 168 : 136)) + x + Bits(rightEncode(xof ? 0 : L));
    return cshake(sec, X, L, Bits(str("KMAC")), S);
}
inline Bits tupleHash(unsigned sec, const std::vector<Bits> &t, size_t L, bool xof, const Bits &S)
{
    Bits z; for (auto &e : t) z.append(encodeString(e));
    z.append(Bits(rightEncode(xof ? 0 : L)));
    return cshake(sec, z, L, Bits(str("TupleHash")), S);
}
inline Bits parallelHash(unsigned sec, const Bits &x, size_t B, size_t L, bool xof, const Bits &S)
{
    Bits z = Bits(leftEncode(B)); size_t n = 0;
    for (size_t off = 0; off < x.n; n++) { size_t l = (B >= (x.n - off + 7) / 8) ? x.n - off : B * 8; z.append(cshake(sec, x.sub(off, l), sec * 2, Bits(), Bits())); off += l; }
    z.append(Bits(rightEncode(n))); z.append(Bits(rightEncode(xof ? 0 : L)));
    return cshake(sec, z, L, Bits(str("ParallelHash")), S);
}

// ---- TurboSHAKE and KangarooTwelve
inline Bytes turboShake(unsigned rate, const Bytes &m, unsigned D, size_t n) { Sponge s(rate, 12); s.absorb(m); s.finish(D); return s.squeeze(n); }
inline Bytes lengthEncode(uint64_t x) { Bytes r; while (x) { r.insert(r.begin(), (uint8_t)x); x >>= 8; } r.push_back((uint8_t)r.size()); return r; }
// the final-node sponge, ready to squeeze
inline Sponge k12Final(unsigned sec, const Bytes &M, const Bytes &C)
{
    unsigned rate = sec == 128 ? 168 : 136; size_t cv = sec == 128 ? 32 : 64, B = 8192;
    Bytes S = M + C + lengthEncode(C.size());
    Sponge sp(rate, 12);
    if (S.size() <= B) { sp.absorb(S); sp.finish(0x07); return sp; }
    sp.absorb(S.data(), B);
    Bytes pad = { 3, 0, 0, 0, 0, 0, 0, 0 }; sp.absorb(pad);
    size_t n = 0;
    for (size_t o = B; o < S.size(); o += B, n++) { Bytes c(S.begin() + o, S.begin() + std::min(S.size(), o + B)); sp.absorb(turboShake(rate, c, 0x0B, cv)); }
    sp.absorb(lengthEncode(n)); Bytes ff = { 0xFF, 0xFF }; sp.absorb(ff);
    sp.finish(0x06);
    return sp;
}

// ---- duplex object with the partial-input interface
struct Duplex {
    uint8_t s[200]; unsigned rate = 0; unsigned in = 0, out = 0;    // rate in bits; in/out in bytes
    bool alive = false;
    unsigned rhoMax() const { return rate - 2; }
    unsigned rateBytes() const { return (rate + 7) / 8; }
    int init(unsigned r, unsigned c) { if ((uint64_t)r + c != 1600 || r <= 2 || r > 1600) return 1; rate = r; memset(s, 0, 200); in = 0; out = rateBytes(); alive = true; return 0; }
    static unsigned delimBits(unsigned d) { unsigned t = 0; while (d >> (t + 1)) t++; return t; }    // bits before the top one
    uint8_t outByte(unsigned i) const { uint8_t v = s[i]; if (8 * (i + 1) > rate) v &= (uint8_t)((1u << (rate % 8)) - 1); return v; }
    int duplexing(const Bytes &sig, Bytes &z, unsigned d)
    {
        if (d == 0) return 1;
        uint64_t total = (uint64_t)(in + sig.size()) * 8;
        if (total + delimBits(d) > rhoMax()) return 1;
        if (z.size() > rateBytes()) return 1;
        for (uint8_t v : sig) s[in++] ^= v;
        // sigma || delimiter bits || first padding bit, then the second padding bit at the end of the rate
        for (int i = 0; i < 8; i++) if (d >> i & 1) { size_t p = (size_t)in * 8 + i; s[p / 8] ^= (uint8_t)(1u << (p % 8)); }
        s[(rate - 1) / 8] ^= (uint8_t)(1u << ((rate - 1) % 8));
        keccakp(s, 24);
        for (size_t i = 0; i < z.size(); i++) z[i] = outByte((unsigned)i);
        in = 0; out = (unsigned)z.size();
        return 0;
    }
    bool room(uint64_t n) const { return (in + n) * 8 <= rhoMax(); }
    int feed(const Bytes &b) { if (!room(b.size())) return 1; for (uint8_t v : b) s[in++] ^= v; return 0; }
    int feedZeroes(uint64_t n) { if (!room(n)) return 1; in += (unsigned)n; return 0; }
    int overwrite(const Bytes &b) { if (!room(b.size())) return 1; for (uint8_t v : b) s[in++] = v; return 0; }
    int overwriteZeroes(uint64_t n) { if (in != 0 || !room(n)) return 1; for (uint64_t i = 0; i < n; i++) s[i] = 0; in = (unsigned)n; return 0; }
    int further(Bytes &z) { if (z.size() > rateBytes() - out) return 1; for (auto &v : z) v = outByte(out++); return 0; }
    int furtherAdd(const Bytes &a, Bytes &z)
    {
        if (z.size() > rateBytes() - out) return 1;
        for (size_t i = 0; i < z.size(); i++) { unsigned idx = out++; uint8_t v = a[i] ^ s[idx]; if (8 * (idx + 1) > rate) v &= (uint8_t)((1u << (rate % 8)) - 1); z[i] = v; }
        return 0;
    }
};
// ---- sponge-based pseudo-random generator
struct Prg {
    Duplex d; unsigned rho = 0;
    int init(unsigned c) { if (c > 1590) return 1; unsigned rate = 1600 - c, r = (rate - 2) / 8; if (r == 0 || r >= 200) return 1; rho = r; d.init(rate, c); d.out = rho; return 0; }
    void block() { Bytes none; d.duplexing(Bytes(), none, 1); }
    int feed(const Bytes &b) { for (uint8_t v : b) { d.s[d.in++] ^= v; if (d.in == rho) block(); } d.out = rho; return 0; }
    Bytes fetch(size_t n) { Bytes r; while (r.size() < n) { if (d.out >= rho) block(); r.push_back(d.outByte(d.out++)); } return r; }
    bool canForget() const { return rho * 8 >= 1600 - d.rate; }
    int forget() { if (!canForget()) return 1; block(); d.overwriteZeroes(rho); block(); d.out = rho; return 0; }
};

// ---- Farfalle
struct KravatteT {
    static const unsigned W = 200;
    static void perm(uint8_t *s) { keccakp(s, 6); }
    static uint64_t ld(const uint8_t *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
    static void st(uint8_t *p, uint64_t v) { for (int i = 0; i < 8; i++) p[i] = (uint8_t)(v >> (8 * i)); }
    static void rollc(uint8_t *s) { uint64_t x[5]; for (int i = 0; i < 5; i++) x[i] = ld(s + 160 + 8 * i);
        uint64_t n = rol64(x[0], 7) ^ x[1] ^ (x[1] >> 3); for (int i = 0; i < 4; i++) x[i] = x[i + 1]; x[4] = n; for (int i = 0; i < 5; i++) st(s + 160 + 8 * i, x[i]); }
    static void rolle(uint8_t *s) { uint64_t x[10]; for (int i = 0; i < 10; i++) x[i] = ld(s + 120 + 8 * i);
        uint64_t n = rol64(x[0], 7) ^ rol64(x[1], 18) ^ (x[2] & (x[1] >> 1)); for (int i = 0; i < 9; i++) x[i] = x[i + 1]; x[9] = n; for (int i = 0; i < 10; i++) st(s + 120 + 8 * i, x[i]); }
};
struct XoofffT {
    static const unsigned W = 48;
    static void perm(uint8_t *s) { xoodoo(s, 6); }
    static uint32_t ld(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
    static void st(uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = (uint8_t)(v >> (8 * i)); }
    static void roll(uint8_t *s, bool e) {
        uint32_t a[12], b[12]; for (int i = 0; i < 12; i++) a[i] = ld(s + 4 * i);
        if (!e) a[0] ^= (a[0] << 13) ^ rol32(a[4], 3); else a[0] = rol32(a[0], 5) ^ rol32(a[4], 13) ^ (a[8] & a[4]) ^ 7;
        for (int i = 0; i < 4; i++) { b[i] = a[4 + i]; b[4 + i] = a[8 + i]; b[8 + i] = a[(i + 1) % 4]; }
        for (int i = 0; i < 12; i++) st(s + 4 * i, b[i]);
    }
    static void rollc(uint8_t *s) { roll(s, false); }
    static void rolle(uint8_t *s) { roll(s, true); }
};
enum { FF_INIT = 1, FF_LAST = 2, FF_SHORT = 4 };
template <class T> struct Farfalle {
    typedef std::array<uint8_t, T::W> St;
    St k{}, roll{}, x{}, y{}; Bits q; Bytes outq; bool compressing = false, expanding = false;
    static const unsigned b = T::W * 8;
    int mask(const Bits &K) { if (K.n >= b) return 1; Bits p(K); p.push(1); p.b.resize(T::W, 0); memcpy(k.data(), p.b.data(), T::W); T::perm(k.data()); roll = k; x.fill(0); q = Bits(); compressing = true; expanding = false; return 0; }
    void block(const uint8_t *p) { St s = roll; for (unsigned i = 0; i < T::W; i++) s[i] ^= p[i]; T::perm(s.data()); for (unsigned i = 0; i < T::W; i++) x[i] ^= s[i]; T::rollc(roll.data()); }
    int compress(const Bits &m, int flags)
    {
        if (!(flags & FF_LAST) && m.n % 8) return 1;
        if (flags & FF_INIT) { roll = k; x.fill(0); q = Bits(); }
        if (!compressing) { compressing = true; expanding = false; q = Bits(); }
        q.append(m);
        size_t o = 0; while (q.n - o >= b) { block(q.b.data() + o / 8); o += b; } if (o) q = q.sub(o, q.n - o);
        if (flags & FF_LAST) { q.push(1); q.b.resize(T::W, 0); block(q.b.data()); T::rollc(roll.data()); q = Bits(); }
        return 0;
    }
    int expand(Bits &o, size_t n, int flags)
    {
        if (!(flags & FF_LAST) && n % 8) return 1;
        if (compressing) { if (q.n) return 1; y = x; if (!(flags & FF_SHORT)) T::perm(y.data()); compressing = false; expanding = true; outq.clear(); }
        else if (!expanding) return 1;
        Bytes r; size_t nb = (n + 7) / 8;
        while (outq.size() < nb) { St s = y; T::perm(s.data()); for (unsigned i = 0; i < T::W; i++) outq.push_back(s[i] ^ roll[i]); T::rolle(y.data()); }
        r.assign(outq.begin(), outq.begin() + nb); outq.erase(outq.begin(), outq.begin() + nb);
        o = Bits(r, n);
        if (flags & FF_LAST) expanding = false;
        return 0;
    }
    // the pure function F_K(strings; ...) on a sequence of strings
    static Bits F(const St &key, const std::vector<Bits> &strings, size_t off, size_t n, bool shrt = false)
    {
        Farfalle f; f.k = key; f.compressing = true; f.roll = key; f.x.fill(0);
        for (auto &s : strings) f.compress(s, FF_LAST);
        Bits o; f.expand(o, off + n, FF_LAST | (shrt ? FF_SHORT : 0));
        return o.sub(off, n);
    }
};

// ---- Xoodyak (Cyclist)
struct Cyclist {
    uint8_t s[48]; bool keyed = false, up = true; unsigned Ra = 16, Rs = 16;
    void down(const uint8_t *X, size_t n, uint8_t Cd) { for (size_t i = 0; i < n; i++) s[i] ^= X[i]; s[n] ^= 1; s[47] ^= keyed ? Cd : (Cd & 1); up = false; }
    void Up(uint8_t *Y, size_t n, uint8_t Cu) { if (keyed) s[47] ^= Cu; xoodoo(s, 12); if (n) memcpy(Y, s, n); up = true; }
    void absorbAny(const Bytes &X, unsigned r, uint8_t Cd)
    { size_t o = 0; do { size_t l = std::min((size_t)r, X.size() - o); if (!up) Up(nullptr, 0, 0); down(X.data() + o, l, Cd); Cd = 0; o += l; } while (o < X.size()); }
    void init(const Bytes &K, const Bytes &id, const Bytes &counter)
    { memset(s, 0, 48); keyed = false; up = true; Ra = Rs = 16;
      if (K.size()) { keyed = true; Ra = 44; Rs = 24; Bytes x = K + id; x.push_back((uint8_t)id.size()); absorbAny(x, Ra, 2); if (counter.size()) absorbAny(counter, 1, 0); } }
    void absorb(const Bytes &X) { absorbAny(X, Ra, 3); }
    Bytes crypt(const Bytes &I, bool dec)
    { Bytes O; size_t o = 0; uint8_t Cu = 0x80; do { size_t l = std::min((size_t)24, I.size() - o); uint8_t Y[48]; Up(Y, l, Cu); Cu = 0; Bytes P(l);
        for (size_t i = 0; i < l; i++) { uint8_t v = I[o + i] ^ Y[i]; O.push_back(v); P[i] = dec ? v : I[o + i]; } down(P.data(), l, 0); o += l; } while (o < I.size()); return O; }
    Bytes squeezeAny(size_t n, uint8_t Cu)
    { Bytes O(n); size_t l = std::min(n, (size_t)Rs); Up(O.data(), l, Cu); while (l < n) { down(nullptr, 0, 0); size_t k = std::min(n - l, (size_t)Rs); Up(O.data() + l, k, 0); l += k; } return O; }
    void ratchet() { Bytes r = squeezeAny(16, 0x10); absorbAny(r, Ra, 0); }
};
} // namespace model
