#include "core.hpp"
using namespace model;
static std::string S(size_t v) { return std::to_string(v); }
static size_t bigMax(Ch &c, size_t small, size_t big) { return c.below(12) == 11 ? big : small; }
static const struct { unsigned rate, d, out; } F[6] = { { 168, 0x1F, 0 }, { 136, 0x1F, 0 }, { 144, 6, 28 }, { 136, 6, 32 }, { 104, 6, 48 }, { 72, 6, 64 } };
static std::string hexOf(const Bytes &b) { static const char *h = "0123456789abcdef"; std::string r; for (auto x : b) { r += h[x >> 4]; r += h[x & 15]; } return r; }
static std::string b64(const Bytes &b)
{
    static const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r;
    for (size_t i = 0; i < b.size(); i += 3) { uint32_t n = (uint32_t)b[i] << 16; if (i + 1 < b.size()) n |= (uint32_t)b[i + 1] << 8; if (i + 2 < b.size()) n |= b[i + 2]; r += a[n >> 18]; r += a[n >> 12 & 63]; r += i + 1 < b.size() ? a[n >> 6 & 63] : '='; r += i + 2 < b.size() ? a[n & 63] : '='; }
    return r;
}
static Bytes toB(const std::string &s) { return Bytes(s.begin(), s.end()); }
static void cli(Op &o, const std::vector<std::string> &args, const Bytes f[3], const std::string &out)
{
    std::string a; for (size_t i = 0; i < args.size(); i++) a += (i ? "\n" : "") + args[i];
    o.in_(toB(a)).in_(f[0]).in_(f[1]).in_(f[2]).exp(toB(out)).ret_((int64_t)out.size() << 8);
}

// ---- the Standalone directory
void gen_C24(Ch &c, Case &k)
{
    unsigned what = c.below(8), n = 0;
    if (what < 3) {
        if (c.below(200) == 199) { c.vast = c.below(2) ? 65536 : 8192; c.vastLeft = 1; k.label("lengths-around-" + S(c.vast)); }
        do {
            unsigned f = c.below(6); size_t len = lenClass(c, { F[f].rate, 8 }, bigMax(c, 500, 3000)), out = F[f].out ? F[f].out : lenClass(c, { F[f].rate, 8 }, bigMax(c, 400, 2000));
            Bytes m = data(c, len); Op &o = k.add(M_SAFIPS, S_ONESHOT); place(c, o); o.I(f).in_(m).exp(keccakHash(F[f].rate, 24, Bits(m), F[f].d, out)).ret_(0);
            k.nontrivial |= len >= F[f].rate - 1 || out > F[f].rate; k.label("function-" + S(f)); if (len % F[f].rate == F[f].rate - 1) k.label("padding-in-one-byte"); if (len && len % F[f].rate == 0) k.label("whole-blocks"); if (out > F[f].rate) k.label("multi-block-output");
        } while (c.more() && ++n < 4);
    } else if (what < 5) {
        do {
            unsigned rate = c.below(3) ? 8 * (1 + c.below(200)) : 64 * (1 + c.below(25)), d = c.below(3) ? c.pick({ 0x1Fu, 0x06u, 0x80u, 0x81u, 0x01u, 0xFFu }) : 1 + c.below(255);
            size_t R = rate / 8, mx = std::min<size_t>(600, 6 * R + 8), len = c.below(3) == 2 ? R - 1 + R * c.below(3) : lenClass(c, { R, 8 }, mx), out = lenClass(c, { R, 8 }, mx);
            Bytes m = data(c, len); Op &o = k.add(M_SAKECCAK, S_ONESHOT); place(c, o); o.I(rate).I(d).in_(m).exp(keccakHash((unsigned)R, 24, Bits(m), d, out)).ret_(0);
            k.nontrivial |= len >= R - 1 || out > R; k.label("generic-rate"); if (d >= 0x80 && len % R == R - 1) k.label("padding-spills-over");
        } while (c.more() && ++n < 3);
    } else if (what < 7) {
        size_t budget = 90000;
        do {
            size_t cl = c.below(3) ? 0 : lenClass(c, { 168, 256, 65536 }, 66000), enc = lengthEncode(cl).size(), len, b = 8192 * (1 + c.below(6));
            switch (c.below(5)) { case 0: len = lenClass(c, { 168, 8 }, 600); break; case 1: len = b > cl + enc + 2 ? b - cl - enc + c.below(5) - 2 : c.below(200); break; case 2: len = b + c.below(3) - 1; break; case 3: { size_t l = b + 168 * c.below(8) + c.below(3); len = l > cl + enc + 1 ? l - cl - enc - 1 : 0; break; } default: len = c.below(40000); }
            if (len + cl > budget) break; budget -= len + cl;
            size_t out = lenClass(c, { 32, 168 }, bigMax(c, 300, 2000)); Bytes m = data(c, len), C = data(c, cl); Op &o = k.add(M_SAK12, S_ONESHOT); place(c, o);
            o.in_(m).in_(C).exp(k12Final(128, m, C).squeeze(out)).ret_(0); k.nontrivial |= len + cl > 8192; k.label(len + cl + enc <= 8192 ? "single-chunk" : "several-chunks"); if ((len + cl + enc) % 8192 == 0) k.label("chunk-exactly-full"); if (cl) k.label("customization");
        } while (c.more() && ++n < 3);
    } else {
        // KeccakSum.py: options and file names in any order, options hold until the next one
        static const char *opt[] = { "--shake128", "--shake256", "--sha3-224", "--sha3-256", "--sha3-384", "--sha3-512" };
        Bytes f[3]; unsigned fn = 0; bool base = true; std::vector<std::string> args; std::string out; unsigned a = 1 + c.below(7);
        for (int i = 0; i < 2; i++) f[i] = data(c, lenClass(c, { 72, 104, 136, 144, 168 }, 500));
        while (a-- && c.more()) {
            uint32_t w = c.below(8);
            if (w < 3) { fn = c.below(6); base = fn < 2; args.push_back(opt[fn]); }
            else if (w == 3) { base = c.below(2); args.push_back(base ? "--base64" : "--hex"); }
            else { unsigned i = c.below(2); args.push_back("f" + S(i + 1)); Bytes h = keccakHash(F[fn].rate, 24, Bits(f[i]), F[fn].d, F[fn].out ? F[fn].out : fn ? 66 : 33); out += (base ? b64(h) : hexOf(h)) + "  f" + S(i + 1) + "\n"; k.nontrivial = true; }
        }
        Op &o = k.add(M_SACLI, 0); cli(o, args, f, out); k.label("KeccakSum.py");
    }
}

// ---- util/KeccakSum
void gen_C25(Ch &c, Case &k)
{
    static const char *opt[] = { "--shake128", "--shake256", "--sha3-224", "--sha3-256", "--sha3-384", "--sha3-512" };
    unsigned ops = 1 + c.below(2);
    while (ops--) {
        enum { KEC, K12, PH } alg = KEC; unsigned rate = 168, d = 0x1F, sec = 128, B = 8192; size_t outBits = 264; bool base = true, named = false; int last = -1, switches = 0; size_t budget = 300000;
        Bytes f[3]; std::vector<std::string> args; std::string out; unsigned a = 1 + c.below(9);
        for (int i = 0; i < 3; i++) { f[i] = data(c, lenClass(c, { 72, 136, 168, 8192, 65536 }, c.below(6) == 5 ? 140000 : c.below(3) ? 700 : 20000)); }
        auto digest = [&](const Bytes &m) {
            Bytes h = alg == KEC ? keccakHash(rate, 24, Bits(m), d, outBits / 8) : alg == K12 ? k12Final(128, m, Bytes()).squeeze(outBits / 8) : parallelHash(sec, Bits(m), B, outBits, false, Bits()).b;
            return base ? b64(h) : hexOf(h);
        };
        while (a-- && c.more()) {
            uint32_t w = c.below(16);
            if (w < 4) { unsigned fn = c.below(6); if (last > 5) k.label("back-to-Keccak"); switches += last >= 0; last = (int)fn; alg = KEC; rate = F[fn].rate; d = F[fn].d; outBits = F[fn].out ? 8 * F[fn].out : fn ? 528 : 264; base = fn < 2; args.push_back(opt[fn]); k.label(opt[fn]); }
            else if (w == 4) { switches += last >= 0; last = 6; alg = K12; outBits = 264; base = true; args.push_back(c.below(2) ? "--kangarootwelve" : "--k12"); k.label("--k12"); }
            else if (w == 5) { switches += last >= 0; last = 7; alg = PH; sec = c.below(2) ? 256 : 128; outBits = sec == 128 ? 264 : 528; B = 8192; base = true; args.push_back(sec == 128 ? "--ph128" : "--ph256"); k.label("--ph"); }
            else if (w == 6) { unsigned e = c.below(2); if (e) { switches += last >= 0; last = 3; alg = KEC; rate = 136; d = 1; outBits = 256; base = false; args.push_back("--ethereum"); k.label("--ethereum"); } else if (alg == KEC) { d = 1; args.push_back("--no-suffix"); k.label("--no-suffix"); } }
            else if (w == 7) { outBits = 8 * (1 + lenClass(c, { 33, rate }, c.below(6) == 5 ? 5000 : 400)); args.push_back(c.below(2) ? "--outputbits" : "-n"); args.push_back(S(outBits)); k.label("--outputbits"); }
            else if (w == 8 && alg == PH) { B = 1u << c.below(18); if (B < 8) B = 8; args.push_back("-B"); args.push_back(S(B)); k.label("-B"); }
            else if (w == 9) { base = c.below(2); args.push_back(base ? "--base64" : "--hex"); }
            else if (w == 10) { Bytes s = data(c, c.below(3) ? c.below(40) : c.below(400)); for (auto &x : s) if (x == 0 || x == '\n' || x >= 127 || x < 32) x = (uint8_t)(33 + x % 90); std::string t(s.begin(), s.end()); args.push_back("--string"); args.push_back(t); out += digest(s) + "  \"" + t + "\"\n"; k.label("--string"); k.nontrivial |= switches > 0; }
            else { unsigned i = c.below(8) == 7 && !named ? 2 : c.below(2); if (f[i].size() > budget) continue; budget -= f[i].size(); std::string nm = i == 2 ? "-" : "f" + S(i + 1); out += digest(f[i]) + "  " + nm + "\n"; args.push_back(nm); if (i == 2) k.label("stdin"); named = true; k.nontrivial |= switches > 0 || f[i].size() >= 65536; if (f[i].size() > 65536) k.label("several-reads"); }
        }
        if (!named) { out += digest(f[2]) + "  -\n"; k.label("stdin"); }
        Op &o = k.add(M_KSUM, 0);
        cli(o, args, f, out);
    }
}
