#include "core.hpp"
using namespace model;
static std::string S(size_t v) { return std::to_string(v); }
static size_t bigMax(Ch &c, size_t small, size_t big) { return c.below(12) == 11 ? big : small; }

// ---- FIPS 202 one-shot functions
void gen_C04(Ch &c, Case &k)
{
    static const struct { unsigned rate, d, out; } F[6] = { { 168, 0x1F, 0 }, { 136, 0x1F, 0 }, { 144, 6, 28 }, { 136, 6, 32 }, { 104, 6, 48 }, { 72, 6, 64 } };
    unsigned n = 0; grow(c, k);
    do {
        unsigned f = c.below(6); size_t len = lenClass(c, { F[f].rate, 8 }, bigMax(c, 900, 9000)), out = F[f].out ? F[f].out : lenClass(c, { F[f].rate, 8 }, bigMax(c, 700, 4000));
        Bytes m = data(c, len); Op &o = k.add(M_FIPS, S_ONESHOT); place(c, o);
        if (c.below(4) == 3) o.flags |= FL_NULLZERO;
        o.I(f).in_(m).exp(keccakHash(F[f].rate, 24, Bits(m), F[f].d, out)).ret_(0);
        k.nontrivial |= len >= F[f].rate - 1 || len % 8; k.label("function-" + S(f)); if (len % F[f].rate == F[f].rate - 1) k.label("padding-in-one-byte"); if (len >= F[f].rate) k.label("multi-block-input"); if (len && len % F[f].rate == 0) k.label("whole-blocks"); if (out > F[f].rate) k.label("multi-block-output");
    } while (c.more() && ++n < 4);
}

// splits n bytes into consecutive pieces: mostly few, sometimes many, sometimes empty ones
static std::vector<size_t> pieces(Ch &c, size_t n, size_t block, unsigned maxPieces = 6)
{
    std::vector<size_t> r; size_t left = n; unsigned k = c.below(maxPieces);
    while (k-- && left) { size_t p; switch (c.below(6)) { case 0: p = 0; break; case 1: p = 1 + c.below(9); break; case 2: p = block * (1 + c.below((uint32_t)(left / block + 1))); break; case 3: p = c.below((uint32_t)block + 2); break; default: p = c.below((uint32_t)left + 1); } p = std::min(p, left); r.push_back(p); left -= p; }
    r.push_back(left); if (c.below(8) == 7) r.push_back(0);
    return r;
}

// ---- sponge family: incremental histories on several interleaved instances
struct SpSlot { bool ready = false; Sponge sp; bool cut = false; };
static void spongeHistory(Ch &c, Case &k, bool turbo)
{
    grow(c, k); unsigned mod = turbo ? M_TURBO : M_SPONGE, nr = turbo ? 12 : 24; SpSlot s[3]; unsigned ns = 1 + c.below(3), n = 0; bool multi = false, split = false;
    auto pickRate = [&](unsigned &rate, unsigned &cap) {
        if (turbo) { cap = c.below(3) ? c.pick({ 256u, 512u }) : 8 * c.below(65); rate = 1600 - cap; }
        else { uint32_t w = c.below(4); rate = w == 0 ? c.pick({ 1344u, 1088u, 1152u, 832u, 576u }) : w == 1 ? 64 * (1 + c.below(25)) : 8 * (1 + c.below(200)); cap = 1600 - rate; }
    };
    for (unsigned j = 0; j < ns; j++) { Op &o = k.add(mod, S_SCRUB, j); o.I(c.below(256)); }
    while (c.more() && n++ < c.lim(16)) {
        unsigned j = c.below(ns); SpSlot &t = s[j]; uint32_t w = c.act(12);
        if (!t.ready || w == 11) {
            unsigned rate, cap; pickRate(rate, cap); Op &o = k.add(mod, S_SINIT, j);
            if (turbo) o.I(cap); else o.I(rate).I(cap);
            o.ret_(0); t.ready = true; t.cut = false; t.sp = Sponge(rate / 8, nr); k.label(rate % 64 ? "rate-not-lane-multiple" : "rate-lane-multiple"); continue;
        }
        if (w == 10) { unsigned u = c.below(ns); if (u != j) { Op &o = k.add(mod, S_CLONE, j); o.slot2 = (uint8_t)u; s[u] = t; k.label("copy"); } continue; }
        if (w == 9) {
            // one-shot call in between
            unsigned rate, cap; pickRate(rate, cap); Bytes m = data(c, lenClass(c, { rate / 8, 8 }, 700)); unsigned d = c.below(4) ? c.pick({ 0x1Fu, 0x06u, 0x04u, 0x01u, 0x0Bu, 0x80u, 0x7Fu, 0xFFu }) : 1 + c.below(255); size_t out = lenClass(c, { rate / 8, 8 }, 500);
            Op &o = k.add(mod, S_ONESHOT); place(c, o); if (turbo) o.I(cap).I(d); else o.I(rate).I(cap).I(d);
            o.in_(m).exp(keccakHash(rate / 8, nr, Bits(m), d, out)).ret_(0); k.label("one-shot"); multi |= m.size() >= rate / 8; continue;
        }
        if (w < 5) {
            size_t len = lenClass(c, { t.sp.rate, t.sp.rate - t.sp.pos, 8 }, bigMax(c, 800, 8000)); Bytes m = data(c, len); Op &o = k.add(mod, S_UPD, j); place(c, o); o.in_(m);
            if (t.sp.squeezing) { o.ret_(1); o.flags |= FL_CONSTI; k.label("absorb-after-squeeze"); }
            else { o.ret_(0); split |= t.sp.pos && t.sp.pos + len >= t.sp.rate; multi |= t.sp.pos + len >= t.sp.rate; t.sp.absorb(m); }
        } else if (w == 5) {
            if (!t.sp.squeezing && c.below(3) == 2) { size_t len = t.sp.rate - 1 - t.sp.pos + t.sp.rate * c.below(2); Bytes m = data(c, len); Op &u = k.add(mod, S_UPD, j); place(c, u); u.in_(m).ret_(0); t.sp.absorb(m); }
            unsigned d = c.below(3) ? c.pick({ 0x1Fu, 0x06u, 0x80u, 0x81u, 0x01u, 0xFFu }) : 1 + c.below(255); Op &o = k.add(mod, S_LASTBITS, j); o.I(d);
            if (t.sp.squeezing) { o.ret_(1); o.flags |= FL_CONSTI; } else { o.ret_(0); if (d >= 0x80 && t.sp.pos == t.sp.rate - 1) k.label("padding-spills-over"); if (t.sp.pos == t.sp.rate - 1) k.label("padding-in-last-byte"); t.sp.finish(d); }
        } else {
            size_t out = lenClass(c, { t.sp.rate, t.sp.squeezing ? t.sp.rate - t.sp.pos : 8, 8 }, bigMax(c, 700, 5000)); Op &o = k.add(mod, S_SQZ, j); place(c, o); bool was = t.sp.squeezing; size_t p0 = was ? t.sp.pos : 0;
            o.exp(t.sp.squeeze(out)).ret_(0); multi |= p0 + out > t.sp.rate; if (was) k.label("squeeze-continued");
        }
    }
    k.nontrivial = multi; if (split) k.label("block-completed-from-partial");
}
void gen_C05(Ch &c, Case &k) { spongeHistory(c, k, false); }
void gen_C07(Ch &c, Case &k) { spongeHistory(c, k, true); }

// ---- Keccak_Hash: bit-level messages
struct HSlot { bool ready = false, last = false, final = false; Sponge sp; Bits m; unsigned d = 0, fixed = 0; bool sq = false; };
void gen_C06(Ch &c, Case &k)
{
    grow(c, k); HSlot s[3]; unsigned ns = 1 + c.below(3), n = 0; bool bitlevel = false, out2 = false;
    static const struct { unsigned rate, out, d; } P[6] = { { 1344, 0, 0x1F }, { 1088, 0, 0x1F }, { 1152, 224, 6 }, { 1088, 256, 6 }, { 832, 384, 6 }, { 576, 512, 6 } };
    for (unsigned j = 0; j < ns; j++) { Op &o = k.add(M_HASH, S_SCRUB, j); o.I(c.below(256)); }
    while (c.more() && n++ < c.lim(18)) {
        unsigned j = c.below(ns); HSlot &t = s[j]; uint32_t w = c.act(12);
        if (!t.ready || w == 11) {
            unsigned which = c.below(8), rate, out, d; Op &o = k.add(M_HASH, S_SINIT, j); t = HSlot(); t.ready = true;
            if (which < 6) { rate = P[which].rate; out = P[which].out; d = P[which].d; o.I(rate).I(1600 - rate).I(out).I(d).I(c.below(2) ? which + 1 : 0); }
            else { rate = 8 * (1 + c.below(200)); out = 8 * c.below(80); d = 1 + c.below(255); o.I(rate).I(1600 - rate).I(out).I(d).I(0); }
            o.ret_(0); t.sp = Sponge(rate / 8, 24); t.d = d; t.fixed = out; k.label(which < 6 ? "standard" : "custom-parameters"); continue;
        }
        if (w == 10) { unsigned u = c.below(ns); if (u != j) { Op &o = k.add(M_HASH, S_CLONE, j); o.slot2 = (uint8_t)u; s[u] = t; k.label("copy"); } continue; }
        if (w < 6 && !t.final && !t.last) {
            size_t len = lenClass(c, { t.sp.rate, t.sp.rate - t.sp.pos, 8 }, bigMax(c, 700, 5000)) * 8; if (c.below(4) == 3) { len += 1 + c.below(7); if (c.below(3) == 2) len = len % 8 + 8 * (t.sp.rate - 1 - t.sp.pos + t.sp.rate * c.below(2)); }
            Bytes d = data(c, (len + 7) / 8); Op &o = k.add(M_HASH, S_UPD, j); place(c, o); o.I(len).in_(d).ret_(0);     // bits above the last one may be anything
            if (len % 8) { bitlevel = true; t.last = true; k.label("message-bits-mod-8=" + S(len % 8)); }
            Bits b(d, len); t.sp.absorb(b.b.data(), len / 8); if (len % 8) t.m = b.sub(len - len % 8, len % 8);
        } else if (w < 9 && !t.final) {
            size_t fo = t.fixed / 8; Op &o = k.add(M_HASH, S_FINAL, j); place(c, o);
            if (t.last && t.sp.pos == t.sp.rate - 1) k.label("partial-byte-at-block-end");
            absorbBitsAndFinish(t.sp, t.m, t.d); o.exp(t.sp.squeeze(fo)).ret_(0); t.final = true; if (fo > t.sp.rate) out2 = true;
        } else if (t.final) {
            size_t out = lenClass(c, { t.sp.rate, t.sp.rate - t.sp.pos, 8 }, bigMax(c, 600, 4000)); bool bad = c.below(12) == 11; Op &o = k.add(M_HASH, S_SQZ, j); place(c, o); o.I(out * 8 + (bad ? 1 + c.below(7) : 0));
            if (bad) { o.flags |= FL_CONSTI; o.keep(out + 1).ret_(1); k.label("squeeze-odd-bits"); }
            else { o.exp(t.sp.squeeze(out)).ret_(0); k.label("squeeze"); if (out > t.sp.rate) out2 = true; }
        }
    }
    k.nontrivial = bitlevel || out2;
}

// ---- SP 800-185: cSHAKE, KMAC, TupleHash, ParallelHash
static Bits clean(Ch &c, size_t bits) { return dataBits(c, bits); }
// strings whose length in bits takes three or four bytes
static size_t longLen(Ch &c, Case &k) { static const int d[] = { 0, -1, 1, 8, -2, 100, -37, 500 }; bool huge = c.below(48) == 47; if (huge) { k.noqemu = true; k.label("string-of-2MiB"); } else k.label("string-of-8KiB"); return (huge ? 1u << 21 : 8192) + d[c.below(8)]; }
static size_t outLen(Ch &c, Case &k, size_t rate, bool &odd) { size_t b = (c.below(40) == 39 ? longLen(c, k) : lenClass(c, { rate, 32, 8 }, 400)) * 8; if (b == 0) b = 8; odd = c.below(6) == 5; if (odd) b -= 1 + c.below(7); return b; }
struct S185 { bool ready = false, fin = false, done = false, part = false, xof = false; Bits m, K, N, S; std::vector<Bits> tup; size_t L = 0, B = 0, given = 0; };

static Bits s185Out(unsigned kind, unsigned sec, const S185 &t, size_t n)
{
    switch (kind) {
    case 0: return cshake(sec, t.m, n, t.N, t.S);
    case 1: return kmac(sec, t.K, t.m, n, t.xof, t.S);
    case 2: return tupleHash(sec, t.tup, n, t.xof, t.S);
    default: return parallelHash(sec, t.m, t.B, n, t.xof, t.S);
    }
}
static size_t pickBlock(Ch &c, size_t max) { size_t b = 8; unsigned k = c.below(3) ? c.below(8) : c.below(14); while (k-- && b < max) b *= 2; return b; }
static void s185History(Ch &c, Case &k, unsigned kind, unsigned sec)
{
    unsigned mod = (kind == 0 ? M_CSHAKE128 : kind == 1 ? M_KMAC128 : kind == 2 ? M_TUPLE128 : M_PARA128) + (sec == 256), rate = sec == 128 ? 168 : 136;
    if (c.below(120) == 119) lengthen(c, k);
    S185 s[2]; unsigned ns = 1 + c.below(2), n = 0; bool rich = false;
    // only cSHAKE takes messages that end in a partial byte
    auto msgBits = [&](size_t max) { return lenClass(c, { rate, 8, 64 }, max) * 8; };
    auto optBits = [&](size_t max, bool odd) { size_t b = c.below(3) == 0 ? 0 : (c.below(24) == 23 ? longLen(c, k) : lenClass(c, { rate, 32, 8 }, max)) * 8; if (odd && c.below(4) == 3) b += 1 + c.below(7); return b; };
    for (unsigned j = 0; j < ns; j++) { Op &o = k.add(mod, S_SCRUB, j); o.I(c.below(256)); }
    while (c.more() && n++ < c.lim(14)) {
        unsigned j = c.below(ns); S185 &t = s[j]; uint32_t w = c.act(12);
        if (w == 11) {
            // one-shot
            S185 u; u.xof = false; bool odd; size_t L = outLen(c, k, rate, odd); u.S = clean(c, optBits(200, true));
            Bytes msg; std::vector<uint64_t> ints; Op op;
            if (kind == 0) u.N = clean(c, optBits(100, false));
            if (kind == 1) u.K = clean(c, optBits(200, true));
            if (kind == 3) { u.B = pickBlock(c, 4096); }
            if (kind == 2) { unsigned cnt = c.below(7); Bytes cat, lens; for (unsigned q = 0; q < cnt; q++) { size_t l = (c.below(4) ? c.below(40) : c.below(16) == 15 ? longLen(c, k) : lenClass(c, { rate, 8 }, 400)) * 8; Bytes d = data(c, l / 8); u.tup.push_back(Bits(d, l)); cat = cat + d; put32(lens, (uint32_t)l); }
                Op &o = k.add(mod, S_ONESHOT); place(c, o); o.I(0).I(0).I(u.S.n).I(L).in_(cat).in_(lens).in_(u.S.b).exp(s185Out(kind, sec, u, L).b).ret_(0); rich |= cnt > 1; k.label("one-shot"); continue; }
            size_t mb = kind == 3 ? std::min<size_t>(lenClass(c, { u.B, u.B * 8, 8 }, std::min<size_t>(20000, u.B * 40)), 20000) * 8 : msgBits(bigMax(c, 600, 4000));
            if (kind == 0 && c.below(4) == 3) mb += 1 + c.below(7);
            Bytes d = data(c, (mb + 7) / 8); u.m = Bits(d, mb);
            Op &o = k.add(mod, S_ONESHOT); place(c, o);
            if (kind == 0) o.I(mb).I(u.N.n).I(u.S.n).I(L).in_(d).in_(u.N.b).in_(u.S.b);
            if (kind == 1) o.I(mb).I(u.K.n).I(u.S.n).I(L).in_(d).in_(u.K.b).in_(u.S.b);
            if (kind == 3) o.I(mb).I(u.B).I(u.S.n).I(L).in_(d).in_(u.S.b);
            o.exp(s185Out(kind, sec, u, L).b).ret_(0); rich = true; k.label("one-shot"); if (mb % 8) k.label("partial-byte-message"); continue;
        }
        if (!t.ready || w == 10) {
            t = S185(); t.ready = true; bool odd; t.L = c.below(2) ? 0 : outLen(c, k, rate, odd); t.xof = t.L == 0; t.S = clean(c, optBits(200, true));
            if (kind == 0) t.N = clean(c, optBits(100, false)); if (kind == 1) t.K = clean(c, optBits(bigMax(c, 200, 2000), true)); if (kind == 3) t.B = pickBlock(c, 1 << 16);
            Op &o = k.add(mod, S_SINIT, j); place(c, o);
            if (kind == 0) o.I(t.L).I(t.N.n).I(t.S.n).in_(t.N.b).in_(t.S.b);
            else if (kind == 1) o.I(t.L).I(t.K.n).I(t.S.n).in_(t.K.b).in_(t.S.b);
            else if (kind == 2) o.I(t.L).I(0).I(t.S.n).in_(t.S.b);
            else o.I(t.L).I(t.B).I(t.S.n).in_(t.S.b);
            o.ret_(0); if (t.S.n % 8 || t.K.n % 8) k.label("partial-byte-key-or-customization"); k.label(t.xof ? "xof" : "fixed-length"); if (!t.S.n && !t.N.n && kind == 0) k.label("plain-shake"); continue;
        }
        if (w == 9) { unsigned u = c.below(ns); if (u != j) { Op &o = k.add(mod, S_CLONE, j); o.slot2 = (uint8_t)u; s[u] = t; k.label("copy"); } continue; }
        if (w < 5 && !t.fin && !t.part) {
            if (kind == 2) {
                unsigned cnt = c.below(5); Bytes cat, lens; for (unsigned q = 0; q < cnt; q++) { size_t l = (c.below(4) ? c.below(40) : c.below(16) == 15 ? longLen(c, k) : lenClass(c, { rate, 8 }, 400)) * 8; Bytes d = data(c, l / 8); t.tup.push_back(Bits(d, l)); cat = cat + d; put32(lens, (uint32_t)l); }
                Op &o = k.add(mod, S_UPD, j); place(c, o); o.in_(cat).in_(lens).ret_(0); rich |= t.tup.size() > 1; continue;
            }
            size_t mb; if (kind == 3) mb = std::min<size_t>(lenClass(c, { t.B, t.B * (1 + c.below(16)), t.B - t.m.n / 8 % t.B, 8 }, std::min<size_t>(12000, t.B * 40)), 12000) * 8; else mb = msgBits(bigMax(c, 500, 4000));
            if (t.m.n / 8 + mb / 8 > 40000) continue;
            if (kind == 0 && c.below(3) == 2) mb += 1 + c.below(7);
            Bytes d = data(c, (mb + 7) / 8); size_t before = t.m.n; Op &o = k.add(mod, S_UPD, j); place(c, o); o.I(mb).in_(d).ret_(0); t.m.append(Bits(d, mb)); t.part = mb % 8; if (t.part) k.label("partial-byte-message");
            if (kind == 3) { size_t b0 = before / 8 % t.B; if (b0 && b0 + mb / 8 >= t.B) k.label("block-completed-from-partial"); if (mb / 8 >= t.B * 8) k.label("eight-blocks-at-once"); else if (mb / 8 >= t.B * 2) k.label("two-blocks-at-once"); rich |= t.m.n / 8 >= 2 * t.B; }
            else rich |= t.m.n / 8 >= rate;
        } else if (w < 8 && !t.fin) {
            Op &o = k.add(mod, S_FINAL, j); place(c, o); t.fin = true;
            if (t.xof) o.exp(Bytes()).ret_(0); else { o.exp(s185Out(kind, sec, t, t.L).b).ret_(0); t.done = true; }
            if (kind == 3 && t.m.n == 0) k.label("empty-message");
        } else if (t.fin && t.xof && !t.done) {
            bool odd; size_t L = outLen(c, k, rate, odd); if (c.below(6) == 5) L = 0; Op &o = k.add(mod, S_SQZ, j); place(c, o);
            Bits all = s185Out(kind, sec, t, t.given + L); o.I(L).exp(all.sub(t.given, L).b).ret_(0); t.given += L; if (L % 8) t.done = true; rich |= t.given > 8 * rate; k.label("xof-squeeze");
        }
    }
    k.nontrivial = rich;
}
void gen_C08(Ch &c, Case &k) { unsigned kind = c.below(3), sec = c.below(2) ? 256 : 128; static const char *n[] = { "cSHAKE", "KMAC", "TupleHash" }; k.label(std::string(n[kind]) + S(sec)); grow(c, k); s185History(c, k, kind, sec); }
void gen_C09(Ch &c, Case &k)
{
    unsigned sec = c.below(2) ? 256 : 128; k.label("ParallelHash" + S(sec));
    if (c.below(20) == 19) {    // block length far above the data: a single leaf, whatever its size
        unsigned sh = c.below(2) ? 26 + c.below(6) : c.below(2) ? 60 + c.below(4) : 20 + c.below(44); k.only64 = sh >= 32; Bytes d = data(c, lenClass(c, { 168, 8 }, 600)); S185 u; u.B = (size_t)1 << sh; u.m = Bits(d);
        if (c.below(2)) { Op &o = k.add(sec == 128 ? M_PARA128 : M_PARA256, S_ONESHOT); o.I(u.m.n).I(u.B).I(0).I(256).in_(d).in_(Bytes()).exp(s185Out(3, sec, u, 256).b).ret_(0); }
        else { unsigned mod = sec == 128 ? M_PARA128 : M_PARA256; k.add(mod, S_SINIT).I(256).I(u.B).I(0).in_(Bytes()).ret_(0); for (size_t p = 0; p < d.size();) { size_t l = 1 + c.below((uint32_t)(d.size() - p)); k.add(mod, S_UPD).I(l * 8).in_(Bytes(d.begin() + p, d.begin() + p + l)).ret_(0); p += l; } k.add(mod, S_FINAL).exp(s185Out(3, sec, u, 256).b).ret_(0); }
        k.nontrivial = true; k.label("huge-block-length"); return;
    }
    if (c.below(300) == 299) {  // more blocks than fit in one or two bytes of the encoded count
        S185 u; u.B = 8 << c.below(2); bool wide = c.below(3) == 2; size_t blocks = (wide ? 65536 : 256) + c.below(3) - 1, len = blocks * u.B - c.below(3); k.noqemu = wide; Bytes d = data(c, len); u.m = Bits(d); u.L = 256; unsigned mod = sec == 128 ? M_PARA128 : M_PARA256;
        k.add(mod, S_SINIT).I(256).I(u.B).I(0).in_(Bytes()).ret_(0); for (size_t p = 0; p < len;) { size_t l = std::min<size_t>(len - p, 1 + c.below((uint32_t)len)); k.add(mod, S_UPD).I(l * 8).in_(Bytes(d.begin() + p, d.begin() + p + l)).ret_(0); p += l; } k.add(mod, S_FINAL).exp(s185Out(3, sec, u, 256).b).ret_(0);
        k.nontrivial = true; k.label(wide ? "65536-blocks" : "256-blocks"); return;
    }
    grow(c, k); s185History(c, k, 3, sec);
}

// ---- KangarooTwelve
struct KSlot { bool ready = false, fin = false, done = false; Bytes m, C; unsigned sec = 128; size_t fixed = 0; Sponge sp; };
static size_t k12Len(Ch &c, Bytes &) { uint32_t w = c.below(16); if (w < 6) return lenClass(c, { 168, 136, 8 }, 1000); if (w < 13) return lenClass(c, { 8192 }, 40000); return lenClass(c, { 8192, 16384, 65536, 8192 * 9 }, 160000); }
void gen_C10(Ch &c, Case &k)
{
    grow(c, k); KSlot s[2]; unsigned ns = 1 + c.below(2), n = 0; bool tree = false, vast = c.below(400) == 399; size_t budget = vast ? 2600000 : 170000; if (vast) { k.noqemu = true; k.label("256-chunks"); }
    for (unsigned j = 0; j < ns; j++) { Op &o = k.add(M_K12, S_SCRUB, j); o.I(c.below(256)); }
    while (c.more() && n++ < c.lim(12)) {
        unsigned j = c.below(ns); KSlot &t = s[j]; uint32_t w = c.act(12); Bytes dummy;
        if (w == 11) {
            unsigned sec = c.below(2) ? 256 : 128; size_t len = k12Len(c, dummy), cl = c.below(3) ? 0 : lenClass(c, { 168, 256 }, 600); if (c.below(24) == 23) cl = lenClass(c, { 8192, 65536 }, 70000);
            if (vast) len = 8192 * (256 + c.below(3)) + c.below(3) - 1;
            // sizes around the chunk border counting the customization string and its length
            if (c.below(6) == 5) { size_t enc = lengthEncode(cl).size(); size_t tot = 8192 * (1 + c.below(3)); if (tot > cl + enc + 2) len = tot - cl - enc + c.below(3) - 1; }
            if (len > budget) continue; budget -= len;
            size_t out = 1 + lenClass(c, { 32, 168, 136 }, bigMax(c, 300, 2000)); Bytes m = data(c, len), C = data(c, cl); Op &o = k.add(M_K12, c.below(2) ? S_ONESHOT2 : S_ONESHOT); place(c, o);
            o.I(sec).in_(m).in_(C).exp(k12Final(sec, m, C).squeeze(out)).ret_(0); tree |= len + cl > 8192; k.label("one-shot"); k.label(sec == 128 ? "KT128" : "KT256"); continue;
        }
        if (!t.ready || w == 10) { t = KSlot(); t.ready = true; t.sec = c.below(2) ? 256 : 128; t.fixed = c.below(2) ? 1 + lenClass(c, { 32, 168 }, 400) : 0; Op &o = k.add(M_K12, S_SINIT, j); o.I(t.sec).I(t.fixed).ret_(0); k.label(t.sec == 128 ? "KT128" : "KT256"); continue; }
        if (w == 9) { unsigned u = c.below(ns); if (u != j) { Op &o = k.add(M_K12, S_CLONE, j); o.slot2 = (uint8_t)u; s[u] = t; k.label("copy"); } continue; }
        if (w < 5 && !t.fin) {
            size_t len = c.below(3) == 2 ? (8192 - t.m.size() % 8192) + c.below(3) - 1 : k12Len(c, dummy); if (vast && t.m.size() < 2000000) { len = 8192 * (256 + c.below(3)) + c.below(3) - 1; if (c.below(2)) len -= t.m.size(); } if (len > budget) continue; budget -= len;
            Bytes m = data(c, len); Op &o = k.add(M_K12, S_UPD, j); place(c, o); o.in_(m).ret_(0); if (t.m.size() % 8192 && t.m.size() % 8192 + len >= 8192) k.label("chunk-completed-from-partial"); if (len >= 8 * 8192) k.label("eight-chunks-at-once"); t.m = t.m + m;
        } else if (w < 7 && !t.fin) {
            size_t cl = c.below(2) ? 0 : lenClass(c, { 168, 256 }, 600); if (c.below(12) == 11) cl = lenClass(c, { 8192, 65536 }, 70000);
            Bytes C = data(c, cl); t.sp = k12Final(t.sec, t.m, C); t.fin = true; Op &o = k.add(M_K12, S_FINAL, j); place(c, o); o.in_(C);
            tree |= t.m.size() + cl > 8192; if (t.m.size() + cl + lengthEncode(cl).size() == 8192) k.label("exactly-one-chunk"); if (t.m.size() + cl + lengthEncode(cl).size() == 8193) k.label("one-byte-over-a-chunk");
            if (t.fixed) { o.exp(t.sp.squeeze(t.fixed)).ret_(0); t.done = true; } else o.exp(Bytes()).ret_(0);
        } else if (t.fin && !t.done) { size_t out = lenClass(c, { 32, 168, 136 }, bigMax(c, 400, 3000)); Op &o = k.add(M_K12, S_SQZ, j); place(c, o); o.exp(t.sp.squeeze(out)).ret_(0); k.label("xof-squeeze"); }
    }
    k.nontrivial = tree; if (tree) k.label("several-chunks");
}
