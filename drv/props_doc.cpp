// The C++ model of the low-level interfaces in the doc directory
#include "core.hpp"
using namespace model;
namespace {
// Keccak-p[25w, nr] for any lane size, from FIPS 202
struct KP {
    unsigned w, nominal; uint64_t mask;
    explicit KP(unsigned kind) : w(1u << kind), nominal(12 + 2 * kind), mask(w == 64 ? ~0ULL : (1ULL << w) - 1) {}
    uint64_t rol(uint64_t a, unsigned n) const { n %= w; a &= mask; return n ? ((a << n) | (a >> (w - n))) & mask : a; }
    static unsigned off(unsigned x, unsigned y) { if (!x && !y) return 0; unsigned a = 1, b = 0; for (unsigned t = 0; t < 24; t++) { if (a == x && b == y) return (t + 1) * (t + 2) / 2; unsigned n = (2 * a + 3 * b) % 5; a = b; b = n; } return 0; }
    uint64_t rc(long i) const { i = ((i % 255) + 255) % 255; uint64_t r = 0; for (unsigned j = 0; (1u << j) <= w; j++) if (bit((unsigned)(j + 7 * i))) r |= 1ULL << ((1u << j) - 1); return r; }
    static int bit(unsigned t) { t %= 255; unsigned R = 1; for (unsigned i = 0; i < t; i++) { R <<= 1; if (R & 0x100) R ^= 0x171; } return R & 1; }
    void theta(uint64_t *A) const { uint64_t C[5]; for (int x = 0; x < 5; x++) { C[x] = 0; for (int y = 0; y < 5; y++) C[x] ^= A[x + 5 * y]; } for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x + 5 * y] ^= C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1); }
    void rho(uint64_t *A) const { for (unsigned x = 0; x < 5; x++) for (unsigned y = 0; y < 5; y++) A[x + 5 * y] = rol(A[x + 5 * y], off(x, y)); }
    void pi(uint64_t *A) const { uint64_t B[25]; memcpy(B, A, sizeof B); for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x + 5 * y] = B[(x + 3 * y) % 5 + 5 * x]; }
    void chi(uint64_t *A) const { uint64_t B[25]; memcpy(B, A, sizeof B); for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]); }
    void round(uint64_t *A, long i) const { theta(A); rho(A); pi(A); chi(A); A[0] ^= rc(i); }
    void apply(uint8_t *s, unsigned nr) const
    {
        uint64_t A[25]; for (unsigned i = 0; i < 25; i++) { A[i] = 0; for (unsigned z = 0; z < w; z++) A[i] |= (uint64_t)(s[(i * w + z) / 8] >> ((i * w + z) % 8) & 1) << z; }
        for (unsigned i = nominal - nr; i < nominal; i++) round(A, i);
        memset(s, 0, (25 * w + 7) / 8); for (unsigned i = 0; i < 25; i++) for (unsigned z = 0; z < w; z++) s[(i * w + z) / 8] |= (A[i] >> z & 1) << ((i * w + z) % 8);
    }
};
struct Kind {
    unsigned kind, bits, W, lane, nominal;
    explicit Kind(unsigned k) : kind(k), bits(k < 7 ? 25u << k : 384), W((bits + 7) / 8), lane(k < 7 ? (1u << k) / 8 : 4), nominal(k < 7 ? 12 + 2 * k : 12) {}
    unsigned top() const { return bits % 8 ? (1u << bits % 8) - 1 : 255; }          // the bits of the last byte that exist
    void perm(uint8_t *s, unsigned nr) const { if (kind < 7) { if (kind == 6) keccakp(s, nr); else KP(kind).apply(s, nr); } else xoodoo(s, nr); }
};
int64_t hashOf(const std::string &s) { int64_t h = 0; for (unsigned char c : s) h = (h * 131 + c) & 0xFFFFFFFFFFFF; return h; }
int64_t S64(long v) { return (int64_t)v; }

// offset, length and whether the call has to be accepted
bool offLen(Ch &c, const Kind &K, unsigned &off, unsigned &len)
{
    unsigned W = K.W, lane = K.lane ? K.lane : 1;
    switch (c.below(8)) {
    case 0: off = 0; len = W; break;
    case 1: off = 0; len = c.below(W + 1); break;
    case 2: off = c.below(W / lane) * lane; len = c.below((W - off) / lane + 1) * lane; break;
    case 3: off = c.below(W); len = W - off; break;
    case 4: off = c.below(W); len = W - off + 1 + c.below(c.below(2) ? 3 : 300); break;
    case 5: off = W + c.below(c.below(2) ? 2 : 300); len = c.below(3); break;
    case 6: off = 1 + c.below(W - 1); len = 0u - c.below(off + 1); break;         // the sum does not fit in 32 bits
    default: off = c.below(W); len = c.below(W - off + 1);
    }
    return off < W && len <= W - off;
}
Bytes fit(Bytes d, const Kind &K, unsigned off) { if (off + d.size() == K.W && d.size()) d.back() &= K.top(); return d; }

void history(Ch &c, Case &k, bool par)
{
    unsigned kind = c.below(3) ? 7 - c.below(2) : c.below(8), P = par ? 1 + c.below(c.below(3) ? 4 : 16) : 1, base = par ? P_ : 0; if (kind == 7 || kind == 6) kind = 13 - kind;
    Kind K(kind); uint64_t mask = 0; unsigned def = kind < 7 ? K.nominal : 6, lane = K.lane;
    Op &o0 = k.add(M_DOC, base + S_INIT); bool refused = false, part = false; unsigned perms = 0, n = 0; k.label("width-" + std::to_string(K.bits)); if (par) k.label("parallel");
    if (par || c.below(3) == 2) { mask = 1 + c.below(0x7FFFFFFF); if (c.below(2)) mask = ((1ULL << K.nominal) - 1) << 1; def = c.below(K.nominal + 1); }
    if (par && !lane) lane = 1;
    o0.I(kind).I(mask).I(lane).I(def).I(P);
    if (!mask) mask = ((1ULL << K.nominal) - 1) << 1;
    std::vector<Bytes> st(P, Bytes(K.W, 0));
    if (c.below(4) == 3) { for (unsigned q = 0; q < (par ? 4u : 3u); q++) { Op &o = k.add(M_DOC, S_DQUERY); int64_t e[] = { K.bits, def, lane, P }; if (par) o.I(3).I(q); else o.I(q); o.ret_(e[q]); } k.label("queries"); }
    while (c.more() && n++ < 20) {
        unsigned off, len, j = c.below(P); bool in = true; if (par && c.below(12) == 11) { j = P + c.below(3); in = false; }
        uint8_t *s = in ? st[j].data() : nullptr;
        auto fin = [&](Op &o, bool ok) { o.ret_(ok ? 0 : -1); if (!ok) { refused = true; k.label("refused"); } };
        switch (c.below(15)) {
        case 0: case 1: case 2: case 3: {
            bool ow = c.below(2), ok = offLen(c, K, off, len) && in; Bytes d = fit(data(c, ok ? len : len < 1000 ? len : c.below(K.W)), K, off); Op &o = k.add(M_DOC, base + (ow ? S_OVERWRITE : S_ADDBYTES)); place(c, o); o.I(off).I(len).I(j).in_(d);
            if (ok) for (unsigned b = 0; b < len; b++) s[off + b] = ow ? d[b] : s[off + b] ^ d[b];
            part |= ok && lane && (len % lane || off % lane); fin(o, ok); break; }
        case 4: { unsigned z = c.below(6) == 5 ? K.W + 1 + c.below(200) : c.below(K.W + 1); bool ok = in && z <= K.W; Op &o = k.add(M_DOC, base + S_OVERZERO); o.I(z).I(0).I(j); if (ok) memset(s, 0, z); fin(o, ok); break; }
        case 5: { off = c.below(4) == 3 ? K.W + c.below(3) : c.below(K.W); bool ok = in && off < K.W; unsigned b = c.below(256) & (off == K.W - 1 ? K.top() : 255); Op &o = k.add(M_DOC, base + S_ADDBYTE); o.I(off).I(b).I(j); if (ok) s[off] ^= (uint8_t)b; fin(o, ok); break; }
        case 6: case 7: case 8: {
            bool N = c.below(2); unsigned nr = N ? c.below(8) == 7 ? c.below(34) : 1 + c.below(K.nominal) : def; bool ok = nr <= K.nominal && (!N || mask >> nr & 1);
            Op &o = k.add(M_DOC, base + S_PERM); o.I(N).I(nr); if (ok) { for (auto &t : st) K.perm(t.data(), nr); perms += nr > 0; k.label("rounds-" + std::to_string(nr)); } fin(o, ok); break; }
        case 9: case 10: {
            bool add = c.below(2), ok = offLen(c, K, off, len) && in; Op &o = k.add(M_DOC, base + (add ? S_EXTRACTADD : S_EXTRACT)); place(c, o); o.I(off).I(len).I(j); size_t sz = len < 1000 ? len : 0;
            Bytes d = add ? data(c, sz) : Bytes(), e(sz, o.fill); bool ip = add && c.below(2); if (add) o.in_(d); if (ip) { o.flags |= FL_INPLACE; e = d; }
            if (ok) for (unsigned b = 0; b < len; b++) e[b] = s[off + b] ^ (add ? d[b] : 0);
            part |= ok && lane && (len % lane || off % lane); o.exp(e); fin(o, ok); break; }
        case 11: case 12: if (!par) {
            if (!lane) break;
            unsigned L = K.W / lane, lc = c.below(8) == 7 ? L + 1 + c.below(4) : 1 + c.below(L); size_t z = lc * lane * c.below(6) + c.below(2) * c.below(lc * lane); bool ok = lc <= L || z < lc * lane; Bytes d = data(c, z); size_t p = 0;
            bool can = def <= K.nominal; if (!can) break;
            Op &o = k.add(M_DOC, S_FASTLOOP); place(c, o); o.I(lc).in_(d);
            if (ok) while (z - p >= lc * lane) { for (unsigned b = 0; b < lc * lane; b++) s[b] ^= d[p + b]; K.perm(s, def); p += lc * lane; perms++; }
            o.ret_(ok ? (int64_t)p : -1); if (!ok) { refused = true; k.label("refused"); } k.label("fastloop"); break;
        } else {
            unsigned L = K.W / lane, lc = c.below(8) == 7 ? L + 1 + c.below(4) : c.below(L + 1), lo = lc + (c.below(2) ? c.below(L + 20) : 0), what = c.below(4); if (lc * lane > K.W + 8) lc = K.W / lane + 1; bool ok = lc * lane <= K.W; if (lo < lc) lo = lc;
            size_t z = ((size_t)(P - 1) * lo + lc) * lane; if (!lc) z = 0; Bytes d = what == 2 ? Bytes() : data(c, z);
            auto at = [&](unsigned q, unsigned b) -> uint8_t & { return d[(size_t)q * lo * lane + b]; };
            if (what < 2) { if (ok && lc * lane == K.W && z) for (unsigned q = 0; q < P; q++) at(q, K.W - 1) &= K.top(); Op &o = k.add(M_DOC, base + (what ? S_OVERLANES : S_ADDLANES)); place(c, o); o.I(lc).I(lo).in_(d); if (ok) for (unsigned q = 0; q < P; q++) for (unsigned b = 0; b < lc * lane; b++) st[q][b] = what ? at(q, b) : st[q][b] ^ at(q, b); fin(o, ok); }
            else { Op &o = k.add(M_DOC, base + (what == 3 ? S_EXTRACTADDLANES : S_EXTRACTLANES)); place(c, o); o.I(lc).I(lo); bool ip = what == 3 && c.below(2); Bytes e(z, o.fill); if (ip) { e = d; o.flags |= FL_INPLACE; } if (what == 3) o.in_(d);
                if (ok) for (unsigned q = 0; q < P; q++) for (unsigned b = 0; b < lc * lane; b++) e[(size_t)q * lo * lane + b] = st[q][b] ^ (what == 3 ? at(q, b) : 0);
                o.exp(e); fin(o, ok); }
            k.label("lanes-all"); break;
        }
        default: { Op &o = k.add(M_DOC, base + S_INIT); o.I(100).ret_(0); for (auto &t : st) t.assign(K.W, 0); break; }
        }
    }
    for (unsigned q = 0; q < P; q++) { Op &o = k.add(M_DOC, base + S_EXTRACT); o.I(0).I(K.W).I(q).exp(st[q]).ret_(0); }
    k.nontrivial = perms && (part || refused);
}
typedef uint32_t X3[3][4];
void xl(const Bytes &b, X3 a) { for (int y = 0; y < 3; y++) for (int x = 0; x < 4; x++) { a[y][x] = 0; for (int j = 0; j < 4; j++) a[y][x] |= (uint32_t)b[16 * y + 4 * x + j] << (8 * j); } }
Bytes xb(X3 a) { Bytes r(48); for (int y = 0; y < 3; y++) for (int x = 0; x < 4; x++) for (int j = 0; j < 4; j++) r[16 * y + 4 * x + j] = (uint8_t)(a[y][x] >> (8 * j)); return r; }
// every step of the round, each defined on single bits
Bytes xstep(unsigned st, const Bytes &in, long p1, long p2)
{
    auto bit = [&](long x, long y, long z) { x = (x % 4 + 4) % 4; z = (z % 32 + 32) % 32; long i = 32 * (4 * y + x) + z; return in[i / 8] >> (i % 8) & 1; };
    auto par = [&](long x, long z) { return bit(x, 0, z) ^ bit(x, 1, z) ^ bit(x, 2, z); };
    Bytes r(48, 0);
    for (long y = 0; y < 3; y++) for (long x = 0; x < 4; x++) for (long z = 0; z < 32; z++) {
        int v = 0;
        switch (st) {
        case 0: v = bit(x, y, z) ^ par(x - 1, z - 5) ^ par(x - 1, z - 14); break;
        case 1: v = y == 0 ? bit(x, 0, z) : y == 1 ? bit(x - 1, 1, z) : bit(x, 2, z - 11); break;
        case 2: v = bit(x, y, z) ^ ((bit(x, (y + 1) % 3, z) ^ 1) & bit(x, (y + 2) % 3, z)); break;
        case 3: v = y == 0 ? bit(x, 0, z) : y == 1 ? bit(x, 1, z - 1) : bit(x - 2, 2, z - 8); break;
        case 8: v = bit(x, y, z) ^ par(x + 1, z + 5) ^ par(x + 1, z + 14); break;
        case 10: v = bit(x - p1, y, z - p2); break;
        }
        long i = 32 * (4 * y + x) + z; r[i / 8] |= v << (i % 8);
    }
    return r;
}
void steps(Ch &c, Case &k)
{
    unsigned n = 0; k.nontrivial = true; k.label("steps");
    do switch (c.below(10)) {
    case 0: case 1: {
        unsigned kind = c.below(7), st = c.below(7); KP K(kind); Bytes d = data(c, 200), e(200); uint64_t A[25]; long r = (long)c.below(700) - 350; if (st == 6) r = (long)c.below(300) - 150; if (st == 5 && c.below(2)) r = c.below(24);
        for (int i = 0; i < 25; i++) { A[i] = 0; for (int j = 0; j < 8; j++) A[i] |= (uint64_t)d[8 * i + j] << (8 * j); A[i] &= K.mask; for (int j = 0; j < 8; j++) d[8 * i + j] = (uint8_t)(A[i] >> (8 * j)); }
        switch (st) { case 0: K.theta(A); break; case 1: K.rho(A); break; case 2: K.pi(A); break; case 3: K.chi(A); break; case 4: A[0] ^= K.rc(r); break; case 5: K.round(A, r); break; case 6: A[0] = K.rol(A[0], (unsigned)((r % (long)K.w + K.w) % K.w)); break; }
        for (int i = 0; i < 25; i++) for (int j = 0; j < 8; j++) e[8 * i + j] = (uint8_t)(A[i] >> (8 * j));
        Op &o = k.add(M_DOC, S_KSTEP); o.I(kind).I(st).I((uint64_t)r).in_(d).exp(e).ret_(0); k.label("Keccak-step-" + std::to_string(st)); break; }
    case 2: { unsigned kind = c.below(7); long r = (long)c.below(1200) - 600; Op &o = k.add(M_DOC, S_KCONST); o.I(kind).I((uint64_t)r).ret_((int64_t)KP(kind).rc(r)); break; }
    case 3: { long a = (long)c.below(41) - 20, b = (long)c.below(41) - 20, x = (a % 5 + 5) % 5, y = (b % 5 + 5) % 5; Op &o = k.add(M_DOC, S_KINDEX); o.I((uint64_t)a).I((uint64_t)b).ret_(x + 5 * y + (x << 8) + (y << 16) + ((2 * x + 3 * y) % 5 << 24)); break; }
    case 4: { // permutations on a buffer; too many rounds are refused
        unsigned kind = c.below(8); Kind K(kind); unsigned nr = c.below(6) == 5 ? c.below(40) : c.below(K.nominal + 1); Bytes d = fit(data(c, K.W), K, 0), e(d); Op &o = k.add(M_DOC, S_KAPPLY); if (nr <= K.nominal) { K.perm(e.data(), nr); o.ret_(K.W); } else { e.assign(K.W, o.fill); o.ret_(-1); k.label("refused"); } o.I(kind).I(nr).in_(d).exp(e); break; }
    case 5: case 6: {
        unsigned st = c.below(12); long p1 = 0, p2 = 0; Bytes d = data(c, 48), e; if (st == 10) { p1 = (long)c.below(20) - 10; p2 = (long)c.below(140) - 70; }
        if (st < 4 || st == 8 || st == 10) e = xstep(st, d, p1, p2);
        else if (st == 6) { e = d; d = xstep(2, e, 0, 0); }
        else if (st == 9) { e = d; d = xstep(8, e, 0, 0); }
        else if (st < 8) { e = d; d = xstep(st - 4, e, 0, 0); }
        else { p1 = c.next(); Bytes t = xstep(1, xstep(0, d, 0, 0), 0, 0); for (int j = 0; j < 4; j++) t[j] ^= (uint8_t)((uint32_t)p1 >> (8 * j)); p1 = (long)(uint32_t)p1; e = xstep(3, xstep(2, t, 0, 0), 0, 0); }
        Op &o = k.add(M_DOC, S_XSTEP); o.I(st).I((uint64_t)p1).I((uint64_t)p2).in_(d).exp(e).ret_(0); k.label("Xoodoo-step-" + std::to_string(st)); break; }
    case 7: { // positions: where a step takes a bit
        unsigned w = c.below(6); long a = (long)c.below(41) - 20, y = (long)c.below(11) - 4, z = (long)c.below(300) - 150, d = (long)c.below(41) - 20, X = a, Y = (y % 3 + 3) % 3, Z = z;
        switch (w) { case 0: X += Y == 1; Z += Y == 2 ? 11 : 0; break; case 1: X += Y == 2 ? 2 : 0; Z += Y == 1 ? 1 : Y == 2 ? 8 : 0; break; case 2: X -= Y == 1; Z -= Y == 2 ? 11 : 0; break; case 3: X -= Y == 2 ? 2 : 0; Z -= Y == 1 ? 1 : Y == 2 ? 8 : 0; break; case 4: X = a + d; Z = y + z; Y = 0; break; }
        X = (X % 4 + 4) % 4; Z = (Z % 32 + 32) % 32; Op &o = k.add(M_DOC, S_XPOS); o.I(w).I((uint64_t)a).I((uint64_t)y).I((uint64_t)z).I((uint64_t)d).ret_(X | Y << 8 | Z << 16); break; }
    case 8: {
        unsigned w = c.below(7), a = c.below(4), y = c.below(3), z = c.below(32), v = c.below(w < 3 ? 2 : 8); long dy = (long)c.below(14) - 6; Bytes d = data(c, 48); X3 A; xl(d, A); int64_t r = 0; unsigned col = (A[0][a] >> z & 1) | (A[1][a] >> z & 1) << 1 | (A[2][a] >> z & 1) << 2;
        switch (w) {
        case 0: case 1: r = A[y][a] >> z & 1; A[y][a] = (A[y][a] & ~(1u << z)) | v << z; break;
        case 2: r = A[y][a]; A[y][a] ^= 1u << z; break;
        case 3: case 4: r = col; for (int q = 0; q < 3; q++) { if (w == 3) A[q][a] &= ~(1u << z); A[q][a] ^= (v >> q & 1) << z; } break;
        case 5: { long q = (dy % 3 + 3) % 3; for (int b = 0; b < 3; b++) r |= (int64_t)(v >> b & 1) << ((b + q) % 3); break; }
        case 6: { v = c.below(50); std::string t; for (int b = 0; b < 32; b++) { unsigned e = (A[0][a] >> b & 1) | (A[1][a] >> b & 1) << 1 | (A[2][a] >> b & 1) << 2; t += e ? (char)('0' + e) : '.'; } while (t.size() < v) t += ' '; r = hashOf(t); break; }
        }
        Op &o = k.add(M_DOC, S_XBIT); o.I(w).I(a).I(y).I(z).I(v).I((uint64_t)dy).in_(d).exp(xb(A)).ret_(r); break; }
    default:
        switch (c.below(4)) {
        case 0: { unsigned w = c.below(5); Bytes d = data(c, 48), t = data(c, 48), e(48); bool zero = true; for (int i = 0; i < 48; i++) { e[i] = w == 0 ? d[i] ^ t[i] : w == 1 ? d[i] & t[i] : w == 2 ? d[i] | t[i] : w == 3 ? 0 : t[i]; zero &= !e[i]; } Op &o = k.add(M_DOC, S_XLANES); o.I(w).in_(d).in_(t).exp(e).ret_(zero); break; }
        case 1: { unsigned nr = c.below(6) == 5 ? c.below(20) : c.below(13); Bytes d = data(c, 48), e(d); Op &o = k.add(M_DOC, S_XPERM); if (nr <= 12) { xoodoo(e.data(), nr); o.ret_(0); } else { e.assign(48, o.fill); o.ret_(-1); k.label("refused"); } o.I(nr).in_(d).exp(e); break; }
        case 2: { unsigned w = c.below(3) ? 25u << c.below(8) : c.below(4000); bool ok = false; for (int i = 0; i < 7; i++) ok |= w == 25u << i; Op &o = k.add(M_DOC, S_DQUERY); o.I(5).I(w).ret_(ok ? (int64_t)w : -1); k.label("width"); break; }
        default: { unsigned kind = c.below(8), w = c.below(4); Kind K(kind); Op &o = k.add(M_DOC, S_DQUERY);
            if (w < 2) { if (kind == 7) kind = 6, K = Kind(6); o.I(6).I(kind).I(w).ret_(w ? K.nominal : 1 << kind); }
            else o.I(4).I(kind).I(w == 3).ret_(w == 3 ? hashOf(kind < 7 ? "Keccak-p[" + std::to_string(K.bits) + "]" : "Xoodoo[4\xC3\x97" "3\xC3\x97" "32, e0=2, e1=8, t1=5, t2=14, t3=1, w1=11]") : K.bits); break; }
        }
    } while (c.more() && ++n < 8);
}
} // namespace
void gen_C26(Ch &c, Case &k)
{
    uint32_t w = c.below(5);
    if (w < 2) history(c, k, false); else if (w < 4) history(c, k, true); else steps(c, k);
}
