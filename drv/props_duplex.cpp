#include "core.hpp"
using namespace model;
static std::string S(size_t v) { return std::to_string(v); }

// ---- the duplex construction with its partial-input interface, any rate in bits
static unsigned pickRate(Ch &c)
{
    switch (c.below(6)) {
    case 0: return c.pick({ 1026u, 1027u, 1344u, 1088u, 576u, 1600u });
    case 1: return 8 * (1 + c.below(200)) + 2;                      // the largest input is a whole number of bytes
    case 2: return 3 + c.below(30);
    case 3: return 1600 - c.below(20);
    default: return 3 + c.below(1598);
    }
}
void gen_C11(Ch &c, Case &k)
{
    if (c.below(120) == 119) lengthen(c, k);
    Duplex s[3]; unsigned ns = 1 + c.below(3), n = 0, calls = 0; bool partial = false, edge = false;
    for (unsigned j = 0; j < ns; j++) k.add(M_DUPLEX, S_SCRUB, j).I(c.below(256));
    while (c.more() && n++ < c.lim(22)) {
        unsigned j = c.below(ns); Duplex &t = s[j]; uint32_t w = c.act(16);
        if (!t.alive || w == 15) { unsigned r = pickRate(c); if (r > 1600) r = 1600; t = Duplex(); t.init(r, 1600 - r); k.add(M_DUPLEX, S_DINIT, j).I(r).I(1600 - r).ret_(0); k.label(r % 8 ? "rate-not-byte-multiple" : "rate-byte-multiple"); continue; }
        if (w == 14) { unsigned u = c.below(ns); if (u != j) { Op &o = k.add(M_DUPLEX, S_CLONE, j); o.slot2 = (uint8_t)u; s[u] = t; k.label("copy"); } continue; }
        unsigned room = t.rhoMax() / 8 - t.in, left = t.rateBytes() - t.out;
        // a length within, at or just above what is allowed
        auto len = [&](unsigned max) { switch (c.below(6)) { case 0: return max; case 1: return max + 1; case 2: return 0u; case 3: return max ? max - 1 : 0; default: return c.below(max + 1); } };
        if (w < 5) {
            unsigned l = len(room), zl = c.below(3) ? c.below(t.rateBytes() + 1) : len(t.rateBytes()); Bytes sig = data(c, l), z(zl); unsigned free_ = (t.in + l) * 8 <= t.rhoMax() ? t.rhoMax() - (t.in + l) * 8 : 0;
            unsigned d; switch (c.below(5)) { case 0: d = 1; break; case 1: d = 1 + c.below(255); break; case 2: d = free_ < 7 ? 1u << free_ | c.below(1u << free_) : 0x80 | c.below(128); break; case 3: d = free_ < 7 ? 2u << free_ | c.below(2u << free_) : 0xFF; break; default: d = 1 + c.below(16); }
            Duplex u = t; bool q = t.in > 0; int r = u.duplexing(sig, z, d); Op &o = k.add(M_DUPLEX, S_DUPLEX, j); place(c, o); o.I(d).in_(sig).ret_(r);
            if (r) { o.flags |= FL_CONSTI; o.keep(zl); k.label("duplexing-refused"); if (q) k.label("duplexing-refused-with-queued-input"); }
            else { o.exp(z); t = u; calls++; partial |= q; edge |= free_ < 7; if (free_ < 7) k.label("trailing-bits-limited"); if (z.size() == t.rateBytes() && t.rate % 8) k.label("output-mask"); }
        } else if (w < 7) {
            unsigned l = len(room); Bytes b = data(c, l); Op &o = k.add(M_DUPLEX, S_FEED, j); place(c, o); int r = t.feed(b); o.in_(b).ret_(r); if (r) o.flags |= FL_CONSTI; k.label(r ? "feed-refused" : "feed");
        } else if (w == 7) {
            unsigned l = len(room); int r = t.feedZeroes(l); Op &o = k.add(M_DUPLEX, S_FEEDZ, j); o.I(l).ret_(r); if (r) o.flags |= FL_CONSTI;
        } else if (w == 8) {
            unsigned l = len(room); Bytes b = data(c, l); Op &o = k.add(M_DUPLEX, S_OVW, j); place(c, o); int r = t.overwrite(b); o.in_(b).ret_(r); if (r) o.flags |= FL_CONSTI; else k.label("overwrite");
        } else if (w == 9) {
            unsigned l = len(t.rhoMax() / 8); int r = t.overwriteZeroes(l); Op &o = k.add(M_DUPLEX, S_OVWZ, j); o.I(l).ret_(r); if (r) o.flags |= FL_CONSTI; else k.label("overwrite-zeroes");
        } else if (w < 12) {
            unsigned l = len(left); Bytes z(l); Op &o = k.add(M_DUPLEX, S_GETOUT, j); place(c, o); int r = t.further(z); o.ret_(r); if (r) { o.flags |= FL_CONSTI; o.keep(l); } else { o.exp(z); k.label("further-output"); if (t.out == t.rateBytes() && t.rate % 8) k.label(l ? "output-mask" : "empty-output-after-all"); edge |= t.out == t.rateBytes(); }
        } else {
            unsigned l = len(left); Bytes a = data(c, l), z(l); Op &o = k.add(M_DUPLEX, S_GETOUTADD, j); place(c, o); int r = t.furtherAdd(a, z); o.in_(a).ret_(r); bool in = c.below(2); if (in) o.flags |= FL_INPLACE;
            if (r) { o.flags |= FL_CONSTI; if (in) o.exp(a); else o.keep(l); } else { o.exp(z); k.label("further-output-and-add"); edge |= t.out == t.rateBytes(); }
        }
    }
    k.nontrivial = calls >= 2 && (partial || edge);
}

// ---- the sponge-based pseudo-random generator
void gen_C12(Ch &c, Case &k)
{
    grow(c, k); struct P { bool ready = false; Prg g; } s[3]; unsigned ns = 1 + c.below(3), n = 0; bool multi = false;
    for (unsigned j = 0; j < ns; j++) k.add(M_PRG, S_SCRUB, j).I(c.below(256));
    while (c.more() && n++ < c.lim(20)) {
        unsigned j = c.below(ns); P &t = s[j]; uint32_t w = c.act(14);
        if (!t.ready || w == 13) {
            unsigned cap; switch (c.below(4)) { case 0: cap = c.pick({ 254u, 510u, 256u, 512u, 574u, 798u }); break; case 1: cap = c.below(1591); break; case 2: cap = 1590 - c.below(40); break; default: cap = 780 + c.below(40); }
            bool bad = c.below(12) == 11; if (bad) cap = 1591 + c.below(3000); Op &o = k.add(M_PRG, S_PINIT, j); o.I(cap).ret_(bad); if (bad) { o.flags |= FL_CONSTI; k.label("initialize-refused"); } else { t.g = Prg(); t.g.init(cap); t.ready = true; k.label(t.g.canForget() ? "forget-allowed" : "forget-not-allowed"); } continue;
        }
        if (w == 12) { unsigned u = c.below(ns); if (u != j) { Op &o = k.add(M_PRG, S_CLONE, j); o.slot2 = (uint8_t)u; s[u] = t; k.label("copy"); } continue; }
        unsigned rho = t.g.rho;
        if (w < 5) { size_t l = lenClass(c, { rho, rho - t.g.d.in, 8 }, c.cap ? 60 : c.below(8) ? 500 : 4000); Bytes b = data(c, l); Op &o = k.add(M_PRG, S_PFEED, j); place(c, o); multi |= t.g.d.in + l >= rho; t.g.feed(b); o.in_(b).ret_(0); }
        else if (w < 10) { size_t l = lenClass(c, { rho, t.g.d.out < rho ? rho - t.g.d.out : rho, 8 }, c.cap ? 60 : c.below(8) ? 500 : 4000); Op &o = k.add(M_PRG, S_PFETCH, j); place(c, o); multi |= t.g.d.out < rho && l > rho - t.g.d.out; if (t.g.d.in) k.label("fetch-with-queued-input"); o.exp(t.g.fetch(l)).ret_(0); }
        else { Op &o = k.add(M_PRG, S_PFORGET, j); int r = t.g.forget(); o.ret_(r); if (r) o.flags |= FL_CONSTI; k.label(r ? "forget-refused" : "forget"); multi |= !r; }
    }
    k.nontrivial = multi;
}
