#include "core.hpp"
using namespace model;

// ---- Xoodyak: histories in hash and keyed mode on several interleaved instances
void gen_C19(Ch &c, Case &k)
{
    grow(c, k); struct P { bool ready = false; Cyclist y; } s[3]; unsigned ns = 1 + c.below(3), n = 0; bool blocks = false; unsigned keyedOps = 0;
    for (unsigned j = 0; j < ns; j++) k.add(M_XDK, S_SCRUB, j).I(c.below(256));
    while (c.more() && n++ < c.lim(20)) {
        unsigned j = c.below(ns); P &t = s[j]; uint32_t w = c.act(18);
        if (!t.ready || w == 17) {
            bool keyed = c.below(4) != 3; Bytes K, id, ctr; if (keyed) { unsigned kl = c.below(3) ? 16 : 1 + c.below(43), il = c.below(2) ? 0 : c.below(44 - kl); K = data(c, kl); id = data(c, il); if (c.below(2)) ctr = data(c, c.below(20)); }
            Op &o = k.add(M_XDK, S_XINIT, j); place(c, o); if (c.below(2)) o.flags |= FL_NULLZERO; o.in_(K).in_(id).in_(ctr); t.y = Cyclist(); t.y.init(K, id, ctr); t.ready = true; k.label(keyed ? "keyed" : "hash"); if (ctr.size()) k.label("counter"); if (K.size() + id.size() == 43) k.label("longest-key-and-id"); continue;
        }
        if (w == 16) { unsigned u = c.below(ns); if (u != j) { Op &o = k.add(M_XDK, S_CLONE, j); o.slot2 = (uint8_t)u; s[u] = t; k.label("copy"); } continue; }
        size_t len = lenClass(c, { 24, 44, 16, 8 }, c.below(6) == 5 ? 2000 : 260); bool keyed = t.y.keyed; unsigned r = keyed ? 24 : 16;
        if (w < 4) { Bytes x = data(c, len); Op &o = k.add(M_XDK, S_XABS, j); place(c, o); o.in_(x); t.y.absorb(x); blocks |= len > 2 * t.y.Ra + 0u || len > (keyed ? 88 : 32); k.label("absorb"); }
        else if (w < 8 || !keyed) { Op &o = k.add(M_XDK, S_XSQ, j); place(c, o); o.exp(t.y.squeezeAny(len, 0x40)); blocks |= len > 2 * r; k.label("squeeze"); }
        else if (w < 13) { Bytes x = data(c, len); bool dec = c.below(2); Op &o = k.add(M_XDK, dec ? S_XDEC : S_XENC, j); place(c, o); o.in_(x).exp(t.y.crypt(x, dec)); blocks |= len > 48; k.label(dec ? "decrypt" : "encrypt"); keyedOps++; }
        else if (w == 13) { Op &o = k.add(M_XDK, S_XSQK, j); place(c, o); o.exp(t.y.squeezeAny(len, 0x20)); blocks |= len > 48; k.label("squeeze-key"); }
        else { k.add(M_XDK, S_XRAT, j); t.y.ratchet(); k.label("ratchet"); keyedOps++; }
    }
    k.nontrivial = blocks && n >= 3;
}
