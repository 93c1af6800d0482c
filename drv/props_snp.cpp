#include "core.hpp"
using namespace model;
namespace {
template <unsigned W> struct SnpModel { uint8_t s[W]; bool init = false; };
template <unsigned W> void permN(uint8_t *s, unsigned nr) { if (W == 200) keccakp(s, nr); else xoodoo(s, nr); }

// offset and length inside the state, with lane-boundary bias
void offLen(Ch &c, unsigned W, unsigned lane, unsigned &off, unsigned &len)
{
    switch (c.below(6)) {
    case 0: off = 0; len = W; return;
    case 1: off = 0; len = c.below(W + 1); return;
    case 2: off = c.below(W / lane) * lane; len = c.below((W - off) / lane + 1) * lane; return;
    case 3: off = c.below(W); len = W - off; return;
    case 4: off = c.below(W); len = std::min(W - off, c.below(2 * lane + 1)); return;
    default: off = c.below(W); len = c.below(W - off + 1);
    }
}
template <unsigned W> void snpHistory(Ch &c, Case &k, unsigned mod, unsigned lane, bool useN, unsigned maxN)
{
    SnpModel<W> st[3]; unsigned ns = 1 + c.below(3); bool part = false; unsigned perms = 0;
    for (unsigned j = 0; j < ns; j++) { Op &o = k.add(mod, S_SCRUB, j); o.I(c.below(256)); k.add(mod, S_INIT, j); memset(st[j].s, 0, W); st[j].init = true; }
    unsigned n = 0;
    while (c.more() && n++ < 24) {
        unsigned j = c.below(ns); uint8_t *s = st[j].s; unsigned off, len;
        switch (c.below(16)) {
        case 0: case 1: case 2: { offLen(c, W, lane, off, len); Bytes d = data(c, len); Op &o = k.add(mod, S_ADDBYTES, j); place(c, o); o.I(off).in_(d); for (unsigned i = 0; i < len; i++) s[off + i] ^= d[i]; part |= len % lane || off % lane; break; }
        case 3: case 4: { offLen(c, W, lane, off, len); Bytes d = data(c, len); Op &o = k.add(mod, S_OVERWRITE, j); place(c, o); o.I(off).in_(d); for (unsigned i = 0; i < len; i++) s[off + i] = d[i]; part |= len % lane || off % lane; break; }
        case 5: { unsigned z = c.below(4) ? c.below(W + 1) : c.below(W / lane + 1) * lane; Op &o = k.add(mod, S_OVERZERO, j); o.I(z); memset(s, 0, z); part |= z % lane; break; }
        case 6: { off = c.below(W); unsigned b = c.below(256); Op &o = k.add(mod, S_ADDBYTE, j); o.I(off).I(b); s[off] ^= (uint8_t)b; break; }
        case 7: case 8: case 9: case 10: {
            Op &o = k.add(mod, S_PERM, j); unsigned nr = 12; perms++;
            uint32_t w = c.below(useN ? 6 : 3);
            if (w == 0) { o.I(PERM_12); nr = 12; } else if (w < 3) { if (W == 200) { o.I(PERM_24); nr = 24; } else { o.I(PERM_6); nr = 6; } } else { nr = 1 + c.below(maxN); o.I(PERM_N).I(nr); k.label("rounds-" + std::to_string(nr)); }
            permN<W>(s, nr); break; }
        case 11: { offLen(c, W, lane, off, len); Op &o = k.add(mod, S_EXTRACT, j); place(c, o); o.flags |= FL_CONSTI; o.I(off).exp(Bytes(s + off, s + off + len)); part |= len % lane || off % lane; break; }
        case 12: { offLen(c, W, lane, off, len); Bytes d = data(c, len), e(d); Op &o = k.add(mod, S_EXTRACTADD, j); place(c, o); o.flags |= FL_CONSTI; if (c.below(2)) o.flags |= FL_INPLACE; for (unsigned i = 0; i < len; i++) e[i] ^= s[off + i]; o.I(off).in_(d).exp(e); part |= len % lane || off % lane; break; }
        case 13: if (W == 200) {
            bool f12 = c.below(2); unsigned lanes = c.below(3) ? c.pick({ 21u, 17u, 16u, 18u, 13u, 9u, 1u, 24u, 25u }) : 1 + c.below(25);
            size_t nb = c.below(24) == 23 ? c.below(70000 / (lanes * 8)) : c.below(12), len2 = nb * lanes * 8 + c.below(4) * c.below(lanes * 8); Bytes d = data(c, len2);
            Op &o = k.add(mod, f12 ? S_FASTLOOP12 : S_FASTLOOP, j); place(c, o); o.I(lanes).in_(d); size_t p = 0;
            while (len2 - p >= lanes * 8) { for (unsigned i = 0; i < lanes * 8; i++) s[i] ^= d[p + i]; permN<W>(s, f12 ? 12 : 24); p += lanes * 8; }
            o.ret_((int64_t)p); perms += p > 0; k.label("fastloop"); if (p) k.label("fastloop-lanes-" + std::to_string(lanes)); }
            break;
        case 14: { unsigned t = c.below(ns); if (t != j) { Op &o = k.add(mod, S_CLONE, j); o.slot2 = (uint8_t)t; st[t] = st[j]; k.label("clone"); } break; }
        default: { Op &o = k.add(mod, S_INIT, j); (void)o; memset(s, 0, W); break; }
        }
    }
    for (unsigned j = 0; j < ns; j++) { Op &o = k.add(mod, S_EXTRACT, j); place(c, o); o.flags |= FL_CONSTI; o.I(0).exp(Bytes(st[j].s, st[j].s + W)); }
    k.nontrivial = part && perms;
    if (part) k.label("partial-lane"); if (perms > 1) k.label("several-permutations");
}

template <unsigned W> void plsnpHistory(Ch &c, Case &k, unsigned mod, unsigned P, unsigned lane)
{
    struct M { std::vector<uint8_t> s; }; M st[2]; unsigned ns = 1 + c.below(2), L = W / lane; bool multi = false; unsigned perms = 0;
    for (unsigned j = 0; j < ns; j++) { Op &o = k.add(mod, S_SCRUB, j); o.I(c.below(256)); k.add(mod, S_INIT, j); st[j].s.assign(P * W, 0); }
    unsigned n = 0;
    while (c.more() && n++ < 16) {
        unsigned j = c.below(ns), q = c.below(P), off, len; uint8_t *a = st[j].s.data(), *s = a + q * W;
        switch (c.below(18)) {
        case 0: case 1: { offLen(c, W, lane, off, len); Bytes d = data(c, len); Op &o = k.add(mod, S_ADDBYTES, j); place(c, o); o.I(q).I(off).in_(d); for (unsigned i = 0; i < len; i++) s[off + i] ^= d[i]; break; }
        case 2: { offLen(c, W, lane, off, len); Bytes d = data(c, len); Op &o = k.add(mod, S_OVERWRITE, j); place(c, o); o.I(q).I(off).in_(d); for (unsigned i = 0; i < len; i++) s[off + i] = d[i]; break; }
        case 3: { unsigned z = c.below(W + 1); Op &o = k.add(mod, S_OVERZERO, j); o.I(q).I(z); memset(s, 0, z); break; }
        case 4: { off = c.below(W); unsigned b = c.below(256); Op &o = k.add(mod, S_ADDBYTE, j); o.I(q).I(off).I(b); s[off] ^= (uint8_t)b; break; }
        case 5: { offLen(c, W, lane, off, len); Op &o = k.add(mod, S_EXTRACT, j); place(c, o); o.flags |= FL_CONSTI; o.I(q).I(off).exp(Bytes(s + off, s + off + len)); break; }
        case 6: { offLen(c, W, lane, off, len); Bytes d = data(c, len), e(d); Op &o = k.add(mod, S_EXTRACTADD, j); place(c, o); o.flags |= FL_CONSTI; if (c.below(2)) o.flags |= FL_INPLACE; for (unsigned i = 0; i < len; i++) e[i] ^= s[off + i]; o.I(q).I(off).in_(d).exp(e); break; }
        case 7: case 8: case 9: case 10: case 11: case 12: {
            unsigned lc = c.below(4) ? c.below(L + 1) : L, lo = c.below(4) == 3 ? lc + c.below(200) : c.below(3) == 2 ? L : lc + c.below(L + 1);
            unsigned kind = c.below(4); size_t n0 = lc ? ((size_t)(P - 1) * lo + lc) * lane : 0;
            k.label("lanes-all"); if (lc && lc < L) k.label("lanes-all-partial"); multi |= lc > 0;
            if (kind < 2) {
                Bytes d = data(c, n0); Op &o = k.add(mod, kind ? S_OVERLANES : S_ADDLANES, j); place(c, o); o.I(lc).I(lo).in_(d);
                for (unsigned i = 0; i < P && lc; i++) for (unsigned b = 0; b < lc * lane; b++) { uint8_t v = d[(size_t)i * lo * lane + b]; a[i * W + b] = kind ? v : a[i * W + b] ^ v; }
            } else {
                Bytes d = kind == 3 ? data(c, n0) : Bytes(); Op &o = k.add(mod, kind == 3 ? S_EXTRACTADDLANES : S_EXTRACTLANES, j); place(c, o); o.flags |= FL_CONSTI; o.I(lc).I(lo);
                bool ip = kind == 3 && c.below(2); Bytes e(n0, o.fill); if (ip) e = d;
                for (unsigned i = 0; i < P && lc; i++) for (unsigned b = 0; b < lc * lane; b++) { size_t z = (size_t)i * lo * lane + b; e[z] = a[i * W + b] ^ (kind == 3 ? d[z] : 0); }
                if (kind == 3) o.in_(d); if (ip) o.flags |= FL_INPLACE; o.exp(e);
            }
            break; }
        case 13: case 14: {
            Op &o = k.add(mod, S_PERM, j); unsigned nr = 12; uint32_t w = c.below(W == 200 ? 4 : 2); perms++;
            if (w == 0) { o.I(PERM_12); } else if (w == 1) { o.I(PERM_6); nr = 6; } else if (w == 2) { o.I(PERM_24); nr = 24; } else { o.I(PERM_4); nr = 4; }
            for (unsigned i = 0; i < P; i++) permN<W>(a + i * W, nr); k.label("permute-all-" + std::to_string(nr)); break; }
        case 15: case 16: if (W == 200) {
            bool f12 = c.below(2); unsigned lanes = c.below(3) ? c.pick({ 21u, 17u, 16u, 18u, 13u, 9u, 1u, 24u }) : 1 + c.below(24);
            size_t op = c.below(4) == 3 ? lanes + c.below(150) : c.below(3) == 2 ? lanes * (1 + c.below(8)) : lanes + c.below(12);
            size_t need = op * (P - 1) + lanes, os = c.below(3) == 2 ? 1 + c.below((uint32_t)need) : c.below(2) ? lanes : (op == lanes ? need : lanes);
            size_t len2 = c.below(8) == 7 ? c.below((uint32_t)(need * 8)) : need * 8 + (c.below(40) == 39 ? c.below(70000 / (unsigned)(os * 8) + 1) : c.below(6)) * os * 8 + c.below(2) * c.below((uint32_t)(os * 8));
            Bytes d = data(c, len2); Op &o = k.add(mod, f12 ? S_FASTLOOP12 : S_FASTLOOP, j); place(c, o); o.I(lanes).I(op).I(os).in_(d); size_t p = 0;
            while (len2 >= p && len2 - p >= need * 8) { for (unsigned i = 0; i < P; i++) { for (unsigned b = 0; b < lanes * 8; b++) a[i * W + b] ^= d[p + i * op * 8 + b]; permN<W>(a + i * W, f12 ? 12 : 24); } p += os * 8; }
            o.ret_((int64_t)p); perms += p > 0; multi |= p > 0; k.label("fastloop"); if (p > os * 8) k.label("fastloop-iterated"); }
            break;
        default: { unsigned t = c.below(ns); if (t != j) { Op &o = k.add(mod, S_CLONE, j); o.slot2 = (uint8_t)t; st[t] = st[j]; k.label("clone"); } else { k.add(mod, S_INIT, j); st[j].s.assign(P * W, 0); } break; }
        }
    }
    for (unsigned j = 0; j < ns; j++) for (unsigned q = 0; q < P; q++) { Op &o = k.add(mod, S_EXTRACT, j); o.flags |= FL_CONSTI; o.I(q).I(0).exp(Bytes(&st[j].s[q * W], &st[j].s[q * W] + W)); }
    k.nontrivial = multi && perms;
}
void kravFast(Ch &c, Case &k, unsigned mod, unsigned P)
{
    uint8_t x[200], r[200]; Bytes a = data(c, 200), b = data(c, 200); memcpy(x, a.data(), 200); memcpy(r, b.data(), 200);
    size_t n = P * 200 * (1 + (c.below(16) == 15 ? c.below(100) : c.below(3))) + c.below(3) * c.below(P * 200), done = n / (P * 200) * (P * 200);
    k.nontrivial = true;
    if (c.below(2)) {
        Bytes d = data(c, n); Op &o = k.add(mod, S_FARCOMP); place(c, o); o.in_(d).in_(a).in_(b);
        for (size_t p = 0; p < done; p += 200) { uint8_t s[200]; for (int i = 0; i < 200; i++) s[i] = d[p + i] ^ r[i]; keccakp(s, 6); for (int i = 0; i < 200; i++) x[i] ^= s[i]; KravatteT::rollc(r); }
        o.exp(Bytes(x, x + 200)).exp(Bytes(r, r + 200)).ret_((int64_t)done); k.label("kravatte-compress");
    } else {
        Op &o = k.add(mod, S_FAREXP); place(c, o); o.in_(a).in_(b); Bytes e(n, o.fill);
        for (size_t p = 0; p < done; p += 200) { uint8_t s[200]; memcpy(s, x, 200); keccakp(s, 6); for (int i = 0; i < 200; i++) e[p + i] = s[i] ^ r[i]; KravatteT::rolle(x); }
        o.exp(Bytes(x, x + 200)).exp(e).ret_((int64_t)done); k.label("kravatte-expand");
    }
}
void xffFast(Ch &c, Case &k, unsigned mod, unsigned P)
{
    k.nontrivial = true; uint32_t w = c.below(5);
    if (w == 4) {
        size_t bits = c.below(3) ? c.below(700) : c.below(2200); Bytes d = data(c, (bits + 7) / 8), t = data(c, (bits + 7) / 8), e(t); Op &o = k.add(mod, S_ADDIS); place(c, o);
        for (size_t i = 0; i < e.size(); i++) e[i] ^= d[i]; if (bits % 8) e.back() &= (1 << bits % 8) - 1;
        o.I(bits).in_(d).in_(t); o.exp(e); k.label("add-bit-string"); return;
    }
    uint8_t x[48], r[48]; Bytes a = data(c, 48), b = data(c, 48); memcpy(x, a.data(), 48); memcpy(r, b.data(), 48);
    size_t B = P * 48, n = B * (1 + (c.below(16) == 15 ? c.below(70000 / (unsigned)B) : c.below(6))) + c.below(3) * c.below((uint32_t)B), done = n / B * B;
    if (w < 2) {
        Bytes d = data(c, n); Op &o = k.add(mod, S_FARCOMP); place(c, o); o.in_(d).in_(a).in_(b);
        for (size_t p = 0; p < done; p += 48) { uint8_t s[48]; for (int i = 0; i < 48; i++) s[i] = d[p + i] ^ r[i]; xoodoo(s, 6); for (int i = 0; i < 48; i++) x[i] ^= s[i]; XoofffT::rollc(r); }
        o.exp(Bytes(x, x + 48)).exp(Bytes(r, r + 48)).ret_((int64_t)done); k.label("xoofff-compress");
    } else {
        Op &o = k.add(mod, S_FAREXP); place(c, o); o.in_(a).in_(b); Bytes e(n, o.fill);
        for (size_t p = 0; p < done; p += 48) { uint8_t s[48]; memcpy(s, x, 48); xoodoo(s, 6); for (int i = 0; i < 48; i++) e[p + i] = s[i] ^ r[i]; XoofffT::rolle(x); }
        o.exp(Bytes(x, x + 48)).exp(e).ret_((int64_t)done); k.label("xoofff-expand");
    }
}
void ktLeaves(Ch &c, Case &k)
{
    bool is128 = c.below(2) == 0; Bytes d = data(c, 8 * 8192), e; Op &o = k.add(M_P1600X8, is128 ? S_KT128L : S_KT256L); place(c, o); o.in_(d); k.nontrivial = true; k.label("kt-leaves");
    for (int i = 0; i < 8; i++) e = e + turboShake(is128 ? 168 : 136, Bytes(d.begin() + i * 8192, d.begin() + (i + 1) * 8192), 0x0B, is128 ? 32 : 64);
    o.exp(e);
}
void fullBlocks(Ch &c, Case &k)
{
    uint8_t s[48]; memset(s, 0, 48); k.add(M_XOO, S_INIT);
    { Bytes d = data(c, 48); Op &o = k.add(M_XOO, S_OVERWRITE); o.I(0).in_(d); memcpy(s, d.data(), 48); }
    unsigned n = 0; k.label("xoodyak-full-blocks"); k.nontrivial = true;
    do {
        unsigned kind = c.below(6), R = kind == 0 ? 44 : kind == 1 || kind == 3 ? 16 : 24; size_t nb = 1 + (c.below(60) == 59 ? c.below(4500) : c.below(6)), len = nb * R + c.below(2) * c.below(R);
        if (kind < 2) { Bytes d = data(c, len); Op &o = k.add(M_XOO, kind ? S_FB_ABSH : S_FB_ABSK); place(c, o); o.in_(d).ret_((int64_t)(nb * R)); for (size_t b = 0; b < nb; b++) { xoodoo(s, 12); for (unsigned i = 0; i < R; i++) s[i] ^= d[b * R + i]; s[R] ^= 1; } }
        else if (kind < 4) { Op &o = k.add(M_XOO, kind == 3 ? S_FB_SQH : S_FB_SQK); place(c, o); Bytes e(len, o.fill); for (size_t b = 0; b < nb; b++) { s[0] ^= 1; xoodoo(s, 12); memcpy(&e[b * R], s, R); } o.exp(e).ret_((int64_t)(nb * R)); }
        else { Bytes d = data(c, len); Op &o = k.add(M_XOO, kind == 4 ? S_FB_ENC : S_FB_DEC); place(c, o); Bytes e(len, o.fill);
            for (size_t b = 0; b < nb; b++) { xoodoo(s, 12); for (unsigned i = 0; i < R; i++) { uint8_t v = s[i] ^ d[b * R + i]; e[b * R + i] = v; s[i] = kind == 4 ? v : d[b * R + i]; } s[R] ^= 1; } o.in_(d).exp(e).ret_((int64_t)(nb * R)); }
    } while (c.more() && ++n < 8);
    Op &o = k.add(M_XOO, S_EXTRACT); o.I(0).exp(Bytes(s, s + 48));
}
} // namespace

void gen_C01(Ch &c, Case &k) { snpHistory<200>(c, k, M_P1600, 8, true, 24); }
void gen_C02(Ch &c, Case &k)
{
    uint32_t w = c.below(16);
    if (w == 15) { ktLeaves(c, k); return; }
    if (w >= 13) { unsigned P = c.below(2) ? 4 : 8; kravFast(c, k, P == 4 ? M_P1600X4 : M_P1600X8, P); return; }
    unsigned v = c.below(3); plsnpHistory<200>(c, k, M_P1600X2 + v, 2u << v, 8); k.label("x" + std::to_string(2u << v));
}
void gen_C03(Ch &c, Case &k)
{
    uint32_t w = c.below(10);
    if (w >= 8) { unsigned v = c.below(4); xffFast(c, k, v ? M_XOOX4 + v - 1 : M_XOO, v ? 2u << v : 1); return; }
    if (w < 2) { snpHistory<48>(c, k, M_XOO, 4, false, 12); k.label("single"); }
    else if (w < 4) { snpHistory<48>(c, k, M_XOO, 4, true, 12); k.label("single-n-rounds"); }
    else if (w == 4) fullBlocks(c, k);
    else { plsnpHistory<48>(c, k, M_XOOX4 + (w - 5), 4u << (w - 5), 4); k.label("x" + std::to_string(4u << (w - 5))); }
}
