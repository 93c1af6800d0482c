// Deck-function modes over Farfalle, written on whole strings (no queues, no phases).
#pragma once
#include "core.hpp"
namespace model {
template <class T> struct Deck {               // F_K(string sequence), appended to and read at an offset
    Farfalle<T> f;
    int key(const Bits &K) { return f.mask(K); }
    void add(const Bits &s) { f.compress(s, FF_LAST); }
    Bits out(size_t off, size_t n, bool shrt = false) const { Farfalle<T> g(f); Bits o; g.expand(o, off + n, FF_LAST | (shrt ? FF_SHORT : 0)); return o.sub(off, n); }
};
inline Bits add2(const Bits &s, std::initializer_list<int> l) { return s + bits(l); }

template <class T> struct Sane {
    Deck<T> d; int e = 0; static const size_t t = 128;
    Bytes init(const Bits &K, const Bits &N) { d = Deck<T>(); d.key(K); d.add(N); e = 0; return d.out(0, t).b; }
    Bits crypt(const Bits &x) const { return bxor(x, d.out(t, x.n)); }
    Bytes absorb(const Bits &A, const Bits &C) { if (A.n || !C.n) d.add(add2(A, { 0, e })); if (C.n) d.add(add2(C, { 1, e })); e ^= 1; return d.out(0, t).b; }
    Bits wrap(const Bits &P, const Bits &A, Bytes &tag) { Bits C = crypt(P); tag = absorb(A, C); return C; }
    bool unwrap(const Bits &C, const Bits &A, const Bytes &tag, Bits &P) { P = crypt(C); Bytes t2 = absorb(A, C); return t2 == tag; }
};
template <class T> struct Sanse {
    Deck<T> d; int e = 0; static const size_t t = 256;
    void init(const Bits &K) { d = Deck<T>(); d.key(K); e = 0; }
    Bits wrap(const Bits &P, const Bits &A, Bytes &tag)
    {
        Bits C;
        if (A.n || !P.n) d.add(add2(A, { 0, e }));
        if (P.n) { Deck<T> a(d), b(d); a.add(add2(P, { 0, 1, e })); tag = a.out(0, t).b; b.add(add2(Bits(tag), { 1, 1, e })); C = bxor(P, b.out(0, P.n)); d = a; }
        else tag = d.out(0, t).b;
        e ^= 1; return C;
    }
    bool unwrap(const Bits &C, const Bits &A, const Bytes &tag, Bits &P)
    {
        P = Bits();
        if (A.n || !C.n) d.add(add2(A, { 0, e }));
        if (C.n) { Deck<T> b(d); b.add(add2(Bits(tag), { 1, 1, e })); P = bxor(C, b.out(0, C.n)); d.add(add2(P, { 0, 1, e })); }
        e ^= 1; return d.out(0, t).b == tag;
    }
};
template <class T> struct Wbc {
    Farfalle<T> k; static const size_t b = T::W * 8, l = 8;
    static size_t split(size_t n)
    {
        if (n <= 2 * b - (l + 2)) return l * ((n + l) / (2 * l));
        size_t q = (n + l + 2 + b - 1) / b, x = 0; while (((size_t)1 << (x + 1)) < q) x++;
        return (q - ((size_t)1 << x)) * b - l;
    }
    Bits H(const Bits &s, size_t n) const { Deck<T> d; d.f = k; d.add(s); return d.out(0, n, true); }
    Bits F(const Bits &W, const Bits &s, size_t n) const { Deck<T> d; d.f = k; d.add(W); d.add(s); return d.out(0, n); }
    static void xorInto(Bits &a, const Bits &m) { for (size_t i = 0; i < m.b.size(); i++) a.b[i] ^= m.b[i]; }
    Bits encipher(const Bits &P, const Bits &W) const
    {
        size_t nL = split(P.n), nR = P.n - nL; Bits L = P.sub(0, nL), R = P.sub(nL, nR);
        xorInto(R, H(add2(L, { 0 }), std::min(b, nR))); xorInto(L, F(W, add2(R, { 1 }), nL)); xorInto(R, F(W, add2(L, { 0 }), nR)); xorInto(L, H(add2(R, { 1 }), std::min(b, nL)));
        return L + R;
    }
    Bits decipher(const Bits &C, const Bits &W) const
    {
        size_t nL = split(C.n), nR = C.n - nL; Bits L = C.sub(0, nL), R = C.sub(nL, nR);
        xorInto(L, H(add2(R, { 1 }), std::min(b, nL))); xorInto(R, F(W, add2(L, { 0 }), nR)); xorInto(L, F(W, add2(R, { 1 }), nL)); xorInto(R, H(add2(L, { 0 }), std::min(b, nR)));
        return L + R;
    }
};
}
