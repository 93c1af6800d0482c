#include "ffmodel.hpp"
using namespace model;
static std::string S(size_t v) { return std::to_string(v); }
template <class T> struct Par;
template <> struct Par<KravatteT> { static const unsigned prf = M_KRA, sane = M_KRASANE, sanse = M_KRASANSE, wbc = M_KRAWBC, big = 20; };
template <> struct Par<XoofffT> { static const unsigned prf = M_XFF, sane = M_XFFSANE, sanse = M_XFFSANSE, wbc = M_XFFWBC, big = 44; };

template <class T> static size_t blocksLen(Ch &c, bool bitsToo, size_t cut = 0)      // bits
{
    const size_t W = T::W; size_t n;
    if (cut && c.below(4) == 3) n = cut + c.below(3) - 1;                              // exactly up to a border
    else n = lenClass(c, { W, W, W * 4, W * 8, W * 16, 8 }, c.below(6) == 5 ? W * Par<T>::big : W * 5);
    n *= 8; if (bitsToo && c.below(3) == 2) n += 1 + c.below(7);
    return n;
}
template <class T> static Bits pickKey(Ch &c) { size_t n; switch (c.below(4)) { case 0: n = 128 + 128 * c.below(2); break; case 1: n = c.below(T::W * 8); break; case 2: n = T::W * 8 - 1 - c.below(10); break; default: n = 8 * c.below(T::W); } return dataBits(c, n); }

// bits of the last byte beyond the end of the string are not part of it: whatever they are, nothing changes
static Bytes stray(Ch &c, Case &k, const Bits &x) { Bytes b = x.b; if (x.n % 8 && c.below(3) == 2) { b.back() |= (uint8_t)(c.next() << (x.n % 8)); k.label("bits-beyond-the-end-set"); } return b; }

// ---- the pseudo-random function, incremental use
template <class T> static void prf(Ch &c, Case &k)
{
    grow(c, k); const unsigned m = Par<T>::prf; const size_t b = T::W * 8;
    struct P { bool ready = false; Farfalle<T> f; size_t done = 0; } s[3]; unsigned ns = 1 + c.below(3), n = 0; bool multi = false;
    for (unsigned j = 0; j < ns; j++) k.add(m, S_SCRUB, j).I(c.below(256));
    while (c.more() && n++ < c.lim(18)) {
        unsigned j = c.below(ns); P &t = s[j]; uint32_t w = c.act(16);
        if (!t.ready || w == 15) { Bits K = pickKey<T>(c); Op &o = k.add(m, S_MASK, j); place(c, o); o.I(K.n).in_(stray(c, k, K)).ret_(0); t = P(); t.f.mask(K); t.ready = true; if (K.n % 8) k.label("key-partial-byte"); continue; }
        if (w == 14) { unsigned u = c.below(ns); if (u != j) { Op &o = k.add(m, S_CLONE, j); o.slot2 = (uint8_t)u; s[u] = t; k.label("copy"); } continue; }
        if (w < 6) {
            int fl = (c.below(4) == 3 ? FF_INIT : 0) | (c.below(2) ? FF_LAST : 0); size_t q = (fl & FF_INIT) || !t.f.compressing ? 0 : t.f.q.n / 8;
            size_t len = blocksLen<T>(c, fl & FF_LAST, q ? T::W - q : 0); Bits x = dataBits(c, len); Op &o = k.add(m, S_COMPRESS, j); place(c, o); o.I(x.n).I(0).I(fl).in_(stray(c, k, x)).ret_(0);
            multi |= q * 8 + len >= 2 * b; if (q && q * 8 + len >= b) k.label("block-completed-from-queue"); if (len % 8) k.label("input-partial-byte"); if (q * 8 + len >= 8 * b) k.label("eight-blocks");
            t.f.compress(x, fl);
        } else if (w < 12) {
            int fl = (c.below(3) == 2 ? FF_LAST : 0) | (c.below(4) == 3 ? FF_SHORT : 0); size_t left = t.f.expanding && t.f.outq.size() ? t.f.outq.size() : 0;
            size_t len = blocksLen<T>(c, fl & FF_LAST, left); Op &o = k.add(m, S_EXPAND, j); place(c, o); Bits z; bool cont = t.f.expanding; int r = t.f.expand(z, len, fl); o.I(len).I(0).I(fl).ret_(r);
            if (r) { o.flags |= FL_CONSTI; o.keep((len + 7) / 8); k.label("expand-refused"); }
            else { o.exp(z.b); multi |= len >= 2 * b; k.label(cont ? left ? "expand-continued-from-queue" : "expand-continued" : fl & FF_SHORT ? "expand-short" : "expand"); if (len % 8) k.label("output-partial-byte"); if (len >= 8 * b) k.label("eight-blocks"); }
        } else {
            int fl = (c.below(2) ? FF_INIT : 0) | (c.below(3) == 2 ? FF_SHORT : 0) | (c.below(2) ? FF_LAST : 0); Bits x = dataBits(c, blocksLen<T>(c, true)), z; size_t len = blocksLen<T>(c, true);
            Op &o = k.add(m, S_FARFALLE, j); place(c, o); t.f.compress(x, fl | FF_LAST); t.f.expand(z, len, fl | FF_LAST); o.I(x.n).I(len).I(fl).in_(stray(c, k, x)).exp(z.b).ret_(0); multi |= x.n >= 2 * b || len >= 2 * b; k.label("compress-and-expand");
        }
    }
    k.nontrivial = multi;
}
void gen_C13(Ch &c, Case &k) { prf<KravatteT>(c, k); }
void gen_C16(Ch &c, Case &k) { prf<XoofffT>(c, k); }

// ---- sessions.  One interface for SANE and SANSE.
template <class T, bool SIV> struct Session {
    Sane<T> a; Sanse<T> b;
    static const bool siv = SIV; static const unsigned mod = SIV ? Par<T>::sanse : Par<T>::sane, tagLen = SIV ? 32 : 16;
    void start(Case &k, Ch &c, unsigned slot, const Bits &K, const Bits &N)
    {
        Op &o = k.add(mod, S_INITIALIZE, slot); place(c, o); o.I(K.n);
        if (SIV) { b.init(K); o.in_(stray(c, k, K)).ret_(0); } else { Bytes t = a.init(K, N); o.I(N.n).in_(stray(c, k, K)).in_(stray(c, k, N)).exp(t).ret_(0); }
    }
    Bits wrap(const Bits &P, const Bits &A, Bytes &tag) { return SIV ? b.wrap(P, A, tag) : a.wrap(P, A, tag); }
    bool unwrap(const Bits &C, const Bits &A, const Bytes &tag, Bits &P) { return SIV ? b.unwrap(C, A, tag, P) : a.unwrap(C, A, tag, P); }
};
struct Msg { Bits P, A, C; Bytes tag; };
template <class T> static size_t msgLen(Ch &c) { switch (c.below(5)) { case 0: return 0; case 1: return c.below(8 * T::W); default: return blocksLen<T>(c, true); } }
template <class Se> static void wrapOp(Case &k, Ch &c, unsigned slot, Se &se, Msg &m)
{
    m.C = se.wrap(m.P, m.A, m.tag); Op &o = k.add(Se::mod, S_WRAP, slot); place(c, o); if (c.below(4) == 3) o.flags |= FL_NULLZERO; o.I(m.P.n).I(m.A.n).in_(stray(c, k, m.P)).in_(stray(c, k, m.A)).exp(m.C.b).exp(m.tag).ret_(0);
}
template <class Se> static bool unwrapOp(Case &k, Ch &c, unsigned slot, Se &se, const Bits &C, const Bits &A, const Bytes &tag, const Bytes *rc = 0, const Bytes *ra = 0)
{
    Bits P; bool ok = se.unwrap(C, A, tag, P); Op &o = k.add(Se::mod, S_UNWRAP, slot); place(c, o); if (c.below(4) == 3) o.flags |= FL_NULLZERO; o.I(C.n).I(A.n).in_(rc ? *rc : stray(c, k, C)).in_(ra ? *ra : stray(c, k, A)).in_(tag).exp(ok ? P.b : Bytes(P.b.size(), 0)).ret_(ok ? 0 : 1); return ok;
}
// ---- alterations
static Bits flip(Ch &c, const Bits &x) { Bits r(x); if (r.n) { size_t p; switch (c.below(4)) { case 0: p = r.n - 1 - c.below((uint32_t)std::min<size_t>(8, r.n)); break; case 1: p = c.below((uint32_t)std::min<size_t>(64, r.n)); break; default: p = c.below((uint32_t)r.n); } r.b[p / 8] ^= (uint8_t)(1u << (p % 8)); } return r; }
static Bits resize(Ch &c, const Bits &x) { Bits r(x); switch (c.below(4)) { case 0: r.push(c.below(2)); return r; case 1: return r.n ? r.sub(0, r.n - 1) : r; case 2: for (unsigned i = 0; i < 8; i++) r.push(0); return r; default: return r.n >= 8 ? r.sub(0, r.n - 8) : r; } }
// shorter by a few bits, with the byte that holds the end keeping the bits cut off, and any bits beyond
static bool shorten(Ch &c, Bits &x, Bytes &raw) { if (x.n % 8 < 2) return false; raw = x.b; if (c.below(4)) raw.back() |= (uint8_t)(c.next() << (x.n % 8)); x = x.sub(0, x.n - 1 - c.below((uint32_t)(x.n % 8 - 1))); return true; }
// differences that a comparison written by hand might miss: those that cancel in a sum or an exclusive or of bytes, that keep the set of bytes, or that a comparison
// of part of the bytes does not see
static void alterBytes(Ch &c, uint8_t *t, unsigned n)
{
    unsigned i = c.below(n), j = (i + 1 + c.below(n - 1)) % n; uint8_t d = (uint8_t)(1 + c.below(255));
    if (c.below(2)) j = i ^ (n > 8 ? 1u << c.below(4) : 1) % n; if (i == j || j >= n) j = (i + 1) % n;
    switch (c.below(8)) {
    case 0: t[i] ^= d; t[j] ^= d; break;
    case 1: t[i] += d; t[j] -= d; break;
    case 2: std::swap(t[i], t[j]); break;
    case 3: std::rotate(t, t + 1 + c.below(n - 1), t + n); break;
    case 4: for (unsigned q = 0; q < n; q++) t[q] ^= d; break;
    case 5: t[i] ^= d; break;
    case 6: { unsigned h = c.below(2) ? n / 2 : c.below(n); for (unsigned q = h; q < n; q++) t[q] ^= (uint8_t)(1 + c.below(255)); break; }
    default: { unsigned h = c.below(2) ? n / 2 : 1 + c.below(n - 1); for (unsigned q = 0; q < h; q++) t[q] ^= (uint8_t)(1 + c.below(255)); break; }
    }
}
template <class T, bool SIV> static void sessions(Ch &c, Case &k)
{
    grow(c, k); typedef Session<T, SIV> Se; struct D { bool ready = false; Se x, y; std::vector<Msg> pend; bool rev = false; unsigned count = 0; } d[2]; unsigned ns = 1 + c.below(2), n = 0; bool rich = false;
    for (unsigned j = 0; j < 2 * ns; j++) k.add(Se::mod, S_SCRUB, j).I(c.below(256));
    while (c.more() && n++ < c.lim(14)) {
        unsigned j = c.below(ns); D &t = d[j]; uint32_t w = c.act(12);
        if (!t.ready || w == 11) { t = D(); t.ready = true; Bits K = pickKey<T>(c), N = dataBits(c, c.below(3) ? 128 : c.below(T::W * 20)); t.x.start(k, c, 2 * j, K, N); t.y.start(k, c, 2 * j + 1, K, N); if (K.n % 8 || N.n % 8) k.label("key-or-nonce-partial-byte"); continue; }
        unsigned a = 2 * j + t.rev, b = 2 * j + !t.rev; Se &from = t.rev ? t.y : t.x, &to = t.rev ? t.x : t.y;
        if (t.pend.empty() || (w < 5 && t.pend.size() < 3)) {
            if (t.pend.empty() && c.below(3) == 2) { t.rev = !t.rev; k.label("direction-changed"); continue; }
            Msg m; m.P = dataBits(c, msgLen<T>(c)); m.A = dataBits(c, msgLen<T>(c)); wrapOp(k, c, a, from, m); t.pend.push_back(m);
            if (!m.P.n && !m.A.n) k.label("both-empty"); else if (!m.P.n) k.label("no-plaintext"); else if (!m.A.n) k.label("no-associated-data"); if (m.P.n % 8) k.label("plaintext-bits-mod-8=" + S(m.P.n % 8)); if (m.A.n % 8) k.label("associated-data-partial-byte"); rich |= t.count > 0 && (m.P.n % 8 || m.A.n % 8 || m.P.n > T::W * 8); t.count++;
        } else {
            Msg m = t.pend[0]; t.pend.erase(t.pend.begin());
            if (c.below(5) == 4) { // a message that is rejected counts too: the session goes on as specified; with only the tag altered, both sides still agree afterwards
                switch (c.below(6)) { case 4: m.A = flip(c, m.A); break; case 5: m.C = flip(c, m.C); break; default: alterBytes(c, m.tag.data(), (unsigned)m.tag.size()); }
                if (!unwrapOp(k, c, b, to, m.C, m.A, m.tag)) { k.label("rejected-and-continued"); rich = true; continue; }
            } else k.label(unwrapOp(k, c, b, to, m.C, m.A, m.tag) ? "unwrap" : "unwrap-after-a-difference");
        }
    }
    k.nontrivial = rich;
}
void gen_C14(Ch &c, Case &k) { if (c.below(2)) { k.label("SANSE"); sessions<KravatteT, true>(c, k); } else { k.label("SANE"); sessions<KravatteT, false>(c, k); } }
void gen_C17(Ch &c, Case &k) { if (c.below(2)) { k.label("SANSE"); sessions<XoofffT, true>(c, k); } else { k.label("SANE"); sessions<XoofffT, false>(c, k); } }

// ---- wide block cipher, with and without authentication
template <class T> static size_t wbcLen(Ch &c, size_t extra)
{
    const size_t b = T::W * 8; size_t n;
    if (c.vastLeft && c.below(2)) { c.vastLeft--; n = (c.vast * (1 + c.below(2)) + c.below(5) - 2) * 8; if (c.below(2)) n += c.below(8); return n - extra * c.below(2); }
    switch (c.below(6)) {
    case 0: n = c.below(64); break;
    case 1: n = 2 * b - 10 + c.below(9) - 4; break;                                    // the two splitting rules meet here
    case 2: { size_t q = 2 + c.below(Par<T>::big - 2); n = q * b - 10 + c.below(7) - 3; break; }      // number of blocks changes
    case 3: n = b * (1 + c.below(4)) + c.below(33) - 16; break;
    case 4: n = c.below(b * Par<T>::big); break;
    default: n = c.below(3 * b);
    }
    if (c.below(2)) n = n / 8 * 8;
    return n > extra ? n - extra : n;
}
template <class T> static void wbc(Ch &c, Case &k)
{
    grow(c, k); const unsigned m = Par<T>::wbc; struct P { bool ready = false; Wbc<T> w; } s[2]; unsigned ns = 1 + c.below(2), n = 0; bool rich = false;
    for (unsigned j = 0; j < ns; j++) k.add(m, S_SCRUB, j).I(c.below(256));
    while (c.more() && n++ < 8) {
        unsigned j = c.below(ns); P &t = s[j]; uint32_t w = c.below(10);
        if (!t.ready || w == 9) { Bits K = pickKey<T>(c); Op &o = k.add(m, S_MASK, j); place(c, o); o.I(K.n).in_(stray(c, k, K)).ret_(0); t.w.k = Farfalle<T>(); t.w.k.mask(K); t.ready = true; continue; }
        if (w == 8) { unsigned u = c.below(ns); if (u != j) { Op &o = k.add(m, S_CLONE, j); o.slot2 = (uint8_t)u; s[u] = t; k.label("copy"); } continue; }
        bool ae = w >= 4; size_t nb = wbcLen<T>(c, ae ? 128 : 0); Bits P = dataBits(c, nb), W = dataBits(c, msgLen<T>(c));
        size_t tot = nb + (ae ? 128 : 0); rich |= tot > 2 * T::W * 8 - 10 || nb % 8; k.label(tot <= 2 * T::W * 8 - 10 ? "short-split" : "long-split"); if (nb % 8) k.label("partial-byte"); if (nb < 16) k.label("tiny");
        if (!ae) {
            Bits C = t.w.encipher(P, W); bool enc = w < 2; Op &o = k.add(m, enc ? S_ENC : S_DEC, j); place(c, o); o.I(nb).I(W.n).in_(stray(c, k, enc ? P : C)).in_(stray(c, k, W)).exp(enc ? C.b : P.b).ret_(0); k.label(enc ? "encipher" : "decipher");
        } else {
            Bits Z = P; for (int i = 0; i < 128; i++) Z.push(0);
            Bits C = t.w.encipher(Z, W); size_t bytes = (nb + 7) / 8;
            if (w < 6) { Bytes buf = stray(c, k, P) + prng(c.next(), 16); Op &o = k.add(m, S_AENC, j); place(c, o); o.I(nb).I(W.n).in_(buf).in_(stray(c, k, W)).exp(C.b).any(bytes + 16).ret_(0); k.label("authenticated-encipher"); }
            else { Op &o = k.add(m, S_ADEC, j); place(c, o); o.I(nb).I(W.n).in_(stray(c, k, C)).in_(stray(c, k, W)).exp(Z.b).ret_(0); for (size_t i = 0; i < Z.b.size(); i++) o.out[0].care.push_back(i < bytes); k.label("authenticated-decipher"); }
        }
    }
    k.nontrivial = rich;
}
void gen_C15(Ch &c, Case &k) { wbc<KravatteT>(c, k); }
void gen_C18(Ch &c, Case &k) { wbc<XoofffT>(c, k); }

// ---- every forged or misplaced message is refused, leaves no plaintext, and the genuine one is still accepted afterwards
template <class T, bool SIV> static void forge(Ch &c, Case &k)
{
    grow(c, k, 250); typedef Session<T, SIV> Se; Se x, y; Bits K = pickKey<T>(c), N = dataBits(c, 128); unsigned n = 0; std::vector<Msg> old;
    for (unsigned j = 0; j < 4; j++) k.add(Se::mod, S_SCRUB, j).I(c.below(256));
    x.start(k, c, 0, K, N); y.start(k, c, 1, K, N);
    do {
        Msg m; m.P = dataBits(c, msgLen<T>(c)); m.A = dataBits(c, msgLen<T>(c));
        if (c.below(8) == 7) { // a tag that begins with a zero byte, where the comparison of strings would stop
            m.P = dataBits(c, c.below(80)); m.A = dataBits(c, 8 + c.below(80)); uint32_t v = 0; bool found = false;
            for (; v < 1500 && !found; v++) { Msg q(m); Se z(x); q.A.b[0] = (uint8_t)v; if (q.A.n >= 16) q.A.b[1] = (uint8_t)(v >> 8); z.wrap(q.P, q.A, q.tag); if (!q.tag[0]) { m.A = q.A; found = true; } }
            if (found) k.label("tag-begins-with-zero");
        }
        wrapOp(k, c, 0, x, m);
        unsigned tries = 1 + c.below(4);
        while (tries--) {
            Bits C = m.C, A = m.A; Bytes tag = m.tag; Se z(y); unsigned slot = 2; const char *what;
            Op &cl = k.add(Se::mod, S_CLONE, 1); cl.slot2 = 2;
            Bytes raw; const Bytes *rc = 0, *ra = 0;
            switch (c.below(15)) {
            case 12: case 13: case 14: alterBytes(c, tag.data(), (unsigned)tag.size()); what = "tag-bytes"; break;
            case 10: if (shorten(c, C, raw)) rc = &raw; what = "ciphertext-end-moved-inside-byte"; break;
            case 11: if (shorten(c, A, raw)) ra = &raw; what = "associated-data-end-moved-inside-byte"; break;
            case 0: C = flip(c, C); what = "ciphertext-bit"; break;
            case 1: A = flip(c, A); what = "associated-data-bit"; break;
            case 2: case 3: { Bits t2 = flip(c, Bits(tag)); tag = t2.b; what = "tag-bit"; break; }
            case 4: C = resize(c, C); what = "ciphertext-length"; break;
            case 5: A = resize(c, A); what = "associated-data-length"; break;
            case 6: std::swap(C, A); if (A.n % 8 && c.below(2)) { raw = A.b; raw.back() |= (uint8_t)(c.next() << (A.n % 8)); ra = &raw; } what = "swapped-data-and-associated-data"; break;
            case 7: if (old.size()) { const Msg &q = old[c.below((uint32_t)old.size())]; C = q.C; A = q.A; tag = q.tag; } what = "replayed-message"; break;
            case 8: { Bits K2 = flip(c, K), N2 = N; if (!SIV && c.below(2)) { K2 = K; N2 = flip(c, N); } z.start(k, c, 3, K2, N2); slot = 3; what = "other-key-or-nonce"; break; }
            default: tag = data(c, tag.size()); what = "unrelated-tag"; break;
            }
            bool ok = unwrapOp(k, c, slot, z, C, A, tag, rc, ra); k.label(ok ? "unchanged" : what); if (!ok) k.nontrivial = true; if (!ok && C.n) k.label("plaintext-wiped");
        }
        unwrapOp(k, c, 1, y, m.C, m.A, m.tag); old.push_back(m); k.label("genuine-accepted");
    } while (c.more() && ++n < 5);
}
template <class T> static void forgeWbc(Ch &c, Case &k)
{
    grow(c, k, 250); const unsigned mo = Par<T>::wbc; Bits K = pickKey<T>(c); Wbc<T> w; w.k.mask(K); unsigned n = 0;
    { Op &o = k.add(mo, S_MASK, 0); place(c, o); o.I(K.n).in_(stray(c, k, K)).ret_(0); }
    do {
        size_t nb = wbcLen<T>(c, 128); Bits P = dataBits(c, nb), W = dataBits(c, msgLen<T>(c)), Z = P; for (int i = 0; i < 128; i++) Z.push(0);
        Bits C = w.encipher(Z, W), C2 = C, W2 = W; size_t nb2 = nb; const char *what; Bytes rw;
        switch (c.below(9)) {
        case 7: case 8: { // redundancy wrong in chosen bytes
            Bytes r(16, 0); alterBytes(c, r.data(), 16); Bits Y = P; Y.append(Bits(r)); C2 = w.encipher(Y, W); what = "redundancy-bytes"; break; }
        case 6: shorten(c, W2, rw); what = "associated-data-end-moved-inside-byte"; break;
        case 0: case 1: C2 = flip(c, C); what = "ciphertext-bit"; break;
        case 2: W2 = flip(c, W); what = "associated-data-bit"; break;
        case 3: W2 = resize(c, W); what = "associated-data-length"; break;
        case 4: { // redundancy wrong in a single chosen bit
            Bits Y = Z; size_t p = nb + c.below(128); Y.b[p / 8] ^= (uint8_t)(1u << (p % 8)); C2 = w.encipher(Y, W); what = "one-redundancy-bit"; break; }
        default: C2 = dataBits(c, C.n); what = "unrelated-ciphertext"; break;
        }
        Bits D = w.decipher(C2, W2); bool ok = true; for (size_t i = nb2; i < D.n; i++) ok &= !D.at(i);
        { Op &o = k.add(mo, S_ADEC, 0); place(c, o); o.I(nb2).I(W2.n).in_(stray(c, k, C2)).in_(rw.size() ? rw : stray(c, k, W2)).exp(ok ? D.b : Bytes(D.b.size(), 0)).ret_(ok ? 0 : 1); if (ok) for (size_t i = 0; i < D.b.size(); i++) o.out[0].care.push_back(i < (nb2 + 7) / 8); }
        k.label(ok ? "unchanged" : what); if (!ok) { k.nontrivial = true; k.label("plaintext-wiped"); }
        { Op &o = k.add(mo, S_ADEC, 0); place(c, o); o.I(nb).I(W.n).in_(stray(c, k, C)).in_(stray(c, k, W)).exp(Z.b).ret_(0); for (size_t i = 0; i < Z.b.size(); i++) o.out[0].care.push_back(i < (nb + 7) / 8); k.label("genuine-accepted"); }
    } while (c.more() && ++n < 5);
}
void gen_C20(Ch &c, Case &k)
{
    switch (c.below(6)) {
    case 0: k.label("Kravatte-SANE"); forge<KravatteT, false>(c, k); break;
    case 1: k.label("Kravatte-SANSE"); forge<KravatteT, true>(c, k); break;
    case 2: k.label("Xoofff-SANE"); forge<XoofffT, false>(c, k); break;
    case 3: k.label("Xoofff-SANSE"); forge<XoofffT, true>(c, k); break;
    case 4: k.label("Kravatte-WBC-AE"); forgeWbc<KravatteT>(c, k); break;
    default: k.label("Xoofff-WBC-AE"); forgeWbc<XoofffT>(c, k); break;
    }
}
