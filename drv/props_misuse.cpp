#include "core.hpp"
using namespace model;
void gen_C05(Ch &, Case &); void gen_C06(Ch &, Case &); void gen_C07(Ch &, Case &); void gen_C08(Ch &, Case &); void gen_C09(Ch &, Case &); void gen_C10(Ch &, Case &);
void gen_C11(Ch &, Case &); void gen_C12(Ch &, Case &); void gen_C13(Ch &, Case &); void gen_C14(Ch &, Case &); void gen_C15(Ch &, Case &); void gen_C16(Ch &, Case &); void gen_C17(Ch &, Case &); void gen_C18(Ch &, Case &);

// ---- calls with invalid parameters or in the wrong phase, anywhere in a valid history: refused, and as if they had not been made.
// The phase of every instance is followed from the valid operations; a refused call is then inserted with the instance declared
// constant and the outputs declared untouched.
namespace {
enum Ph { NONE = 0, ABS, PART, FIN, SQZ };
struct Tracker {
    std::map<std::pair<unsigned, unsigned>, Ph> ph;
    Ph &at(unsigned m, unsigned s) { return ph[{ m, s }]; }
    static bool fixedLen(const Op &o) { return o.i.size() && o.i[0]; }
    std::map<std::pair<unsigned, unsigned>, bool> fixed;
    void see(const Op &o)
    {
        unsigned m = o.op / 64, s = o.op % 64; if (o.checkRet && o.ret) return;
        if (s == S_CLONE) { ph[{ m, o.slot2 }] = ph[{ m, o.slot }]; fixed[{ m, o.slot2 }] = fixed[{ m, o.slot }]; return; }
        if (s == S_SCRUB) { ph[{ m, o.slot }] = NONE; return; }
        Ph &p = at(m, o.slot);
        if (m == M_SPONGE || m == M_TURBO || m == M_HASH) {
            if (s == S_SINIT) p = ABS; else if (s == S_UPD) { if (m == M_HASH && o.i[0] % 8) p = PART; } else if (s == S_LASTBITS || s == S_FINAL || s == S_SQZ) p = SQZ;
        } else if (m >= M_CSHAKE128 && m <= M_PARA256) {
            if (s == S_SINIT) { p = ABS; fixed[{ m, o.slot }] = o.i[0] != 0; } else if (s == S_UPD) { if (m <= M_CSHAKE256 && o.i[0] % 8) p = PART; }
            else if (s == S_FINAL) p = fixed[{ m, o.slot }] ? FIN : SQZ; else if (s == S_SQZ && o.i[0] % 8) p = FIN;
        } else if (m == M_K12) {
            if (s == S_SINIT) { p = ABS; fixed[{ m, o.slot }] = o.i[1] != 0; } else if (s == S_FINAL) p = fixed[{ m, o.slot }] ? FIN : SQZ;
        } else if (m == M_DUPLEX) { if (s == S_DINIT) p = ABS; }
        else if (m == M_PRG) { if (s == S_PINIT) p = ABS; }
        else if (m == M_KRA || m == M_XFF || m == M_KRAWBC || m == M_XFFWBC) { if (s == S_MASK) p = ABS; }
    }
};
Bytes few(Ch &c) { return data(c, c.below(3) ? c.below(9) : c.below(300)); }

// one refused call, or false if this module has none to offer
bool refused(Ch &c, unsigned m, unsigned slot, Ph p, Op &o, Case &k)
{
    o.slot = (uint8_t)slot; o.flags |= FL_CONSTI; o.ret_(1); size_t z = c.below(2) ? c.below(20) : c.below(400); const char *what = ""; uint32_t w = c.below(4);
    auto sub = [&](unsigned s, const char *t) { o.op = OPC(m, s); what = t; };
    auto done = [&]() { place(c, o); for (auto &x : o.out) if (x.cmp) x.exp = Bytes(x.size, o.fill); k.label(what); return true; };
    switch (m) {
    case M_SPONGE: {
        auto badRate = [&](uint64_t &r, uint64_t &cap) { switch (c.below(6)) { case 0: r = 0; cap = 1600; break; case 1: r = 1 + c.below(1599); if (r % 8 == 0) r++; cap = 1600 - r; break; case 2: r = 8 * (1 + c.below(200)); cap = 1600 - r + 8 * (1 + c.below(9)); break; case 3: r = 8 * (1 + c.below(199)); cap = 1600 - r - 1; break; case 4: r = 1608 + 8 * c.below(500); cap = (uint32_t)(1600 - r); break; default: r = 1600 - 64 * c.below(25); cap = 0x80000000u; if (r == 1600) cap = 8; } };
        uint64_t r, cap;
        if (w == 0) { badRate(r, cap); sub(S_SINIT, "sponge: bad rate or capacity"); o.I(r).I(cap); }
        else if (w == 1) { Bytes b = few(c); sub(S_ONESHOT, "sponge: bad parameters in one-shot call"); uint64_t d = 0x1F; if (c.below(2)) badRate(r, cap); else { r = 1088; cap = 512; d = 0; } o.I(r).I(cap).I(d).in_(b).keep(z); o.flags &= ~FL_CONSTI; }
        else if (p == ABS) { sub(S_LASTBITS, "sponge: empty delimited bits"); o.I(0); }
        else if (p == SQZ) { if (w == 2) { sub(S_UPD, "sponge: absorb after squeezing"); o.in_(few(c)); } else { sub(S_LASTBITS, "sponge: last bits after squeezing"); o.I(c.below(256)); } }
        else return false;
        return done(); }
    case M_TURBO: {
        uint64_t cap = c.below(2) ? 520 + 8 * c.below(200) : c.below(512); if (cap <= 512 && cap % 8 == 0) cap++; if (c.below(8) == 7) cap = 0xFFFFFFF8u;
        if (w == 0) { sub(S_SINIT, "TurboSHAKE: bad capacity"); o.I(cap); }
        else if (w == 1) { Bytes b = few(c); sub(S_ONESHOT, "TurboSHAKE: bad parameters in one-shot call"); if (c.below(2)) o.I(cap).I(0x1F); else o.I(256).I(0); o.in_(b).keep(z); o.flags &= ~FL_CONSTI; }
        else if (p == ABS) { sub(S_LASTBITS, "TurboSHAKE: empty domain separation byte"); o.I(0); }
        else if (p == SQZ) { if (w == 2) { sub(S_UPD, "TurboSHAKE: absorb after squeezing"); o.in_(few(c)); } else { sub(S_LASTBITS, "TurboSHAKE: domain separation after squeezing"); o.I(c.below(256)); } }
        else return false;
        return done(); }
    case M_HASH:
        if (w == 0) { sub(S_SINIT, "Keccak_Hash: bad parameters"); switch (c.below(3)) { case 0: o.I(1088).I(512).I(256).I(0).I(0); break; case 1: o.I(1087).I(513).I(256).I(6).I(0); break; default: o.I(1088).I(520).I(256).I(6).I(0); } }
        else if (p == SQZ) { if (w == 1) { Bytes b = few(c); size_t n = b.size() * 8; if (n && c.below(2)) n -= c.below(8); if (b.size() || true) { sub(S_UPD, "Keccak_Hash: update after final"); o.I(n).in_(b); } } else if (w == 2) { sub(S_FINAL, "Keccak_Hash: final twice"); o.keep(64); } else { sub(S_SQZ, "Keccak_Hash: squeeze of part of a byte"); o.I(8 * z + 1 + c.below(7)).keep(z + 1); } }
        else if (p == ABS || p == PART) { sub(S_SQZ, "Keccak_Hash: squeeze of part of a byte"); o.I(8 * z + 1 + c.below(7)).keep(z + 1); }
        else return false;
        return done();
    case M_CSHAKE128: case M_CSHAKE256: case M_KMAC128: case M_KMAC256: case M_TUPLE128: case M_TUPLE256: case M_PARA128: case M_PARA256: {
        unsigned kind = (m - M_CSHAKE128) / 2;
        auto update = [&](bool oddBits) { Bytes b = few(c); if (oddBits && b.empty()) b = Bytes(1, 0x55); size_t n = b.size() * 8; if (oddBits) n -= 1 + c.below(7); o.op = OPC(m, S_UPD);
            if (kind == 2) { Bytes l; put32(l, (uint32_t)n); o.in_(b).in_(l); } else o.I(n).in_(b); };
        bool d2 = c.below(2); if (p == PART) w = 3;
        if (w == 0 && kind == 0) { Bytes nm = data(c, 1 + c.below(20)), cu = few(c); sub(S_SINIT, "cSHAKE: name ending inside a byte"); o.I(256).I(nm.size() * 8 - 1 - c.below(7)).I(cu.size() * 8).in_(nm).in_(cu); return done(); }
        if (w == 0 && kind == 3) { uint64_t B = c.below(3) == 0 ? c.below(8) : 8 + c.below(5000); if (B >= 8 && !(B & (B - 1))) B++; if (c.below(2)) { Bytes cu = few(c); sub(S_SINIT, "ParallelHash: bad block length"); o.I(256).I(B).I(cu.size() * 8).in_(cu); } else { Bytes b = few(c), cu = few(c); sub(S_ONESHOT, "ParallelHash: bad block length in one-shot call"); o.I(b.size() * 8).I(B).I(cu.size() * 8).I(8 * z + 8).in_(b).in_(cu).keep(z + 1); o.flags &= ~FL_CONSTI; } return done(); }
        if (w == 1) { Bytes b = few(c), q = few(c), cu = few(c); sub(S_ONESHOT, "SP 800-185: no output asked of a one-shot call"); o.flags &= ~FL_CONSTI;
            if (kind < 2) o.I(b.size() * 8).I(q.size() * 8).I(cu.size() * 8).I(0).in_(b).in_(q).in_(cu).keep(z);
            else if (kind == 2) { Bytes l; put32(l, (uint32_t)b.size() * 8); o.I(0).I(0).I(cu.size() * 8).I(0).in_(b).in_(l).in_(cu).keep(z); }
            else o.I(b.size() * 8).I(8).I(cu.size() * 8).I(0).in_(b).in_(cu).keep(z);
            return done(); }
        if (p == ABS) {
            if (kind > 0 && w == 2) { what = "SP 800-185: update ending inside a byte"; update(true); return done(); }
            sub(S_SQZ, "SP 800-185: squeeze before final"); o.I(8 * z).keep(z); return done();
        }
        if (p == PART) { if (d2) { what = "cSHAKE: update after a message ending inside a byte"; update(c.below(2)); } else { sub(S_SQZ, "SP 800-185: squeeze before final"); o.I(8 * z).keep(z); } return done(); }
        if (p == FIN || p == SQZ) {
            if (w == 0) { what = "SP 800-185: update after final"; update(kind == 0 && c.below(2)); }
            else if (w == 2 || p == SQZ) { sub(S_FINAL, "SP 800-185: final twice"); o.keep(z); }
            else { sub(S_SQZ, "SP 800-185: squeeze after the end of the output"); o.I(8 * z).keep(z); }
            return done();
        }
        return false; }
    case M_K12: {
        int64_t lv[8] = { 0, 64, 127, 129, 255, 257, 512, -128 }; uint64_t sec = (uint64_t)lv[c.below(8)];
        if (w == 0) { sub(S_SINIT, "KangarooTwelve: bad security level"); o.I(sec).I(c.below(50)); }
        else if (w == 1) { Bytes b = few(c), cu = few(c); sub(S_ONESHOT, "KangarooTwelve: bad parameters in one-shot call"); o.flags &= ~FL_CONSTI; bool none = c.below(2); if (none) { o.I(c.below(2) ? 128 : 256).in_(b).in_(cu); o.keep(0); } else { o.I(sec).in_(b).in_(cu); o.keep(1 + z); } }
        else if (p == ABS) { sub(S_SQZ, "KangarooTwelve: squeeze before final"); o.keep(z); }
        else if (p == SQZ || p == FIN) { uint32_t u = c.below(3); if (u == 0) { sub(S_UPD, "KangarooTwelve: update after final"); o.in_(few(c)); } else if (u == 1 || p == SQZ) { sub(S_FINAL, "KangarooTwelve: final twice"); o.in_(few(c)); o.keep(z); } else { sub(S_SQZ, "KangarooTwelve: squeeze after the end of the output"); o.keep(z); } }
        else return false;
        return done(); }
    case M_DUPLEX: {
        if (w == 0 || p == NONE) { uint64_t r, cap; switch (c.below(4)) { case 0: r = c.below(3); cap = 1600 - r; break; case 1: r = 1601 + c.below(3000); cap = (uint32_t)(1600 - r); break; case 2: r = 3 + c.below(1598); cap = 1600 - r + 1 + c.below(100); break; default: r = 3 + c.below(1590); cap = 1600 - r - 1; } sub(S_DINIT, "duplex: bad rate or capacity"); o.I(r).I(cap); return done(); }
        if (w == 1) { Bytes b = data(c, c.below(2)); sub(S_DUPLEX, "duplex: empty delimited bits"); o.I(0).in_(b).keep(c.below(4)); return done(); }
        unsigned big = 201 + c.below(100);
        switch (c.below(6)) {
        case 0: sub(S_DUPLEX, "duplex: input longer than the rate"); o.I(1).in_(data(c, big)).keep(c.below(4)); break;
        case 1: sub(S_DUPLEX, "duplex: output longer than the rate"); o.I(1).in_(Bytes()).keep(big); break;
        case 2: sub(S_FEED, "duplex: partial input longer than the rate"); o.in_(data(c, big)); break;
        case 3: sub(S_FEEDZ, "duplex: partial input longer than the rate"); o.I(big); break;
        case 4: sub(S_OVW, "duplex: partial input longer than the rate"); o.in_(data(c, big)); break;
        default: if (c.below(2)) { sub(S_GETOUT, "duplex: further output longer than the rate"); o.keep(big); } else { Bytes b = data(c, big); sub(S_GETOUTADD, "duplex: further output longer than the rate"); o.in_(b).keep(big); }
        }
        return done(); }
    case M_PRG: sub(S_PINIT, "PRG: capacity too large"); o.I(1591 + c.below(5000)); return done();
    case M_KRA: case M_XFF: {
        size_t W = m == M_KRA ? 1600 : 384;
        if (w < 2 || p == NONE) { size_t n = W + c.below(2) * c.below(64); sub(S_MASK, "Farfalle: key of the block length or more"); o.I(n).in_(data(c, (n + 7) / 8)); }
        else if (w == 2) { size_t n = lenClass(c, { W / 8, W }, 2 * W) * 8 + 1 + c.below(7); sub(S_COMPRESS, "Farfalle: part ending inside a byte that is not the last"); int fl = 0; o.I(n).I(0).I(c.below(2) ? 1 /* init */ : fl).in_(data(c, (n + 7) / 8)); }
        else { size_t n = z * 8 + 1 + c.below(7); sub(S_EXPAND, "Farfalle: part ending inside a byte that is not the last"); o.I(n).I(0).I(0).keep((n + 7) / 8); }
        return done(); }
    case M_KRAWBC: case M_XFFWBC: { size_t W = m == M_KRAWBC ? 1600 : 384, n = W + c.below(20); sub(S_MASK, "Farfalle: key of the block length or more"); o.I(n).in_(data(c, (n + 7) / 8)); return done(); }
    case M_KRASANE: case M_XFFSANE: case M_KRASANSE: case M_XFFSANSE: {
        // this may leave the instance it was asked to set up in any state: use one that nobody else has
        size_t W = m < M_XFF ? 1600 : 384, n = W + c.below(20); o.slot = 7; o.flags &= ~FL_CONSTI; sub(S_INITIALIZE, "Farfalle: key of the block length or more"); o.I(n);
        if (m == M_KRASANE || m == M_XFFSANE) o.I(128).in_(data(c, (n + 7) / 8)).in_(Bytes(16, 1)).keep(16); else o.in_(data(c, (n + 7) / 8));
        return done(); }
    }
    return false;
}
}
void gen_C21(Ch &c, Case &k)
{
    static const struct { Gen g; unsigned w; } G[] = { { gen_C05, 3 }, { gen_C06, 2 }, { gen_C07, 3 }, { gen_C08, 4 }, { gen_C09, 2 }, { gen_C10, 2 }, { gen_C11, 3 }, { gen_C12, 1 }, { gen_C13, 2 }, { gen_C16, 2 }, { gen_C14, 1 }, { gen_C17, 1 }, { gen_C15, 1 }, { gen_C18, 1 } };
    // the insertions draw from a stream of their own, so that the valid history stays the same when they shrink
    std::vector<uint32_t> own; unsigned tot = 0, q; for (auto &g : G) tot += g.w;
    q = c.below(tot); size_t g = 0; while (q >= G[g].w) q -= G[g++].w;
    unsigned n = 2 + c.below(90); while (n-- && c.more()) own.push_back(c.next());
    Case v; G[g].g(c, v);
    if (v.ops.empty()) return;
    std::set<unsigned> mods; for (auto &o : v.ops) mods.insert(o.op / 64);
    std::vector<unsigned> ml(mods.begin(), mods.end());
    Tracker t; Ch d(own); unsigned ins = 0, late = 0;
    k.only64 = v.only64; k.noqemu = v.noqemu; k.base.push_back(v);
    for (auto &o : v.ops) {
        k.ops.push_back(o); t.see(o);
        if (o.op % 64 == S_SCRUB) continue;
        while (d.more() && d.below(3) == 2) { unsigned m = ml[d.below((uint32_t)ml.size())], slot = d.below(4) ? o.slot : d.below(3); Op r; Ph p = t.at(m, slot); if (!refused(d, m, slot, p, r, k)) break; if (r.i.size() && r.i[0] > 0xFFFFFFFFu && m != M_K12) k.only64 = true; r.note = "refused"; k.ops.push_back(r); ins++; late |= p != NONE; }
    }
    k.nontrivial = ins && late;
}

// ---- everything: any history of any module
__attribute__((weak)) void gen_C01(Ch &, Case &); __attribute__((weak)) void gen_C02(Ch &, Case &); __attribute__((weak)) void gen_C03(Ch &, Case &); __attribute__((weak)) void gen_C04(Ch &, Case &); __attribute__((weak)) void gen_C19(Ch &, Case &); __attribute__((weak)) void gen_C20(Ch &, Case &);
static Gen anyGen(Ch &c, std::string *name = nullptr)
{
    static const struct { const char *n; Gen g; unsigned w; } G[] = { { "SnP Keccak-p[1600]", gen_C01, 2 }, { "parallel Keccak-p[1600]", gen_C02, 2 }, { "SnP Xoodoo", gen_C03, 2 }, { "FIPS 202", gen_C04, 2 }, { "sponge", gen_C05, 2 }, { "Keccak_Hash", gen_C06, 2 }, { "TurboSHAKE", gen_C07, 1 },
        { "SP 800-185", gen_C08, 3 }, { "ParallelHash", gen_C09, 2 }, { "KangarooTwelve", gen_C10, 2 }, { "duplex", gen_C11, 3 }, { "PRG", gen_C12, 2 }, { "Kravatte", gen_C13, 2 }, { "Kravatte sessions", gen_C14, 2 }, { "Kravatte-WBC", gen_C15, 2 },
        { "Xoofff", gen_C16, 2 }, { "Xoofff sessions", gen_C17, 2 }, { "Xoofff-WBC", gen_C18, 2 }, { "Xoodyak", gen_C19, 3 }, { "forgeries", gen_C20, 2 }, { "refused calls", gen_C21, 4 } };
    unsigned tot = 0; for (auto &g : G) tot += g.w;
    unsigned q = c.below(tot); size_t g = 0; while (q >= G[g].w) q -= G[g++].w;
    if (name) *name = G[g].n;
    return G[g].g;
}
void gen_C22(Ch &c, Case &k)
{
    std::string n; Gen g = anyGen(c, &n); g(c, k); k.labels.clear(); k.label(n); k.safety = true;
    size_t bytes = 0; for (auto &o : k.ops) for (auto &b : o.in) bytes += b.size();
    for (auto &o : k.ops) for (auto &b : o.out) bytes += b.size;
    k.nontrivial = k.ops.size() >= 2 && bytes > 0;
}
// ---- the same on a selection of services and implementations (tools/conf.py)
void gen_C28(Ch &c, Case &k)
{
    gen_C22(c, k); k.safety = false; k.base.clear();
}
// ---- several threads, each with instances of its own
void gen_C23(Ch &c, Case &k)
{
    unsigned n = 2 + c.below(7); bool same = c.below(2); std::string nm; Gen g0 = anyGen(c, &nm); size_t each = (c.v.size() - std::min(c.v.size(), c.i)) / n + 1; std::set<std::string> kinds;
    for (unsigned j = 0; j < n; j++) {
        std::vector<uint32_t> own; for (size_t q = 0; q < each && c.more(); q++) own.push_back(c.next());
        Ch d(own); Case l; std::string ln = nm; Gen g = same ? g0 : anyGen(d, &ln); g(d, l); if (l.ops.empty()) continue;
        k.only64 |= l.only64; k.label(ln); kinds.insert(ln);
        // half of the lanes do their work twice, to overlap for longer
        if (d.v.size() && d.v[0] & 1 && l.ops.size() < 12) { auto a = l.ops; l.ops.insert(l.ops.end(), a.begin(), a.end()); }
        for (auto &o : l.ops) k.ops.push_back(o);      // so that the capabilities and sizes are known
        k.lanes.push_back(l);
    }
    k.base = k.lanes;
    k.label(std::to_string(k.lanes.size()) + "-threads"); if (kinds.size() == 1) k.label("all-threads-same-function");
    k.nontrivial = k.lanes.size() >= 2;
    if (k.lanes.empty()) k.ops.clear();
}
