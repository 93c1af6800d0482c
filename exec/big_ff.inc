#define IS(s) (!strcmp(c->fn, s))
#define BITS(o) ((BitLength)((o)->n * 8 + (o)->bits))
#define BYTES(o) ((o)->n + ((o)->bits ? 1 : 0))
#define OUT(what, o, call) do { uint64_t n_ = BYTES(o); u8 *out = big_out(n_); int r_ = (call); big_ret(what, r_); if (!r_) big_print(what, out, n_); big_out_done(out, n_); } while (0)
#define IN(i, call) do { u8 *in = big_in(c, i); int r_ = (call); big_ret("input", r_); big_in_done(c, i, in); } while (0)
static const bop zero = { 0, 0, 0, 0 };

/* Farfalle: D = associated data or tweak for the W (wrap, encipher) after it; U = undo the last W and compare */
#define FF(P, M, MASK, COMP, EXP, ONE) \
int ff_##P(const bcase *c) \
{ \
    static P##_Instance s, s2; static M##SANE_Instance a, a2; static M##SANSE_Instance b, b2; u8 tag[64]; int i, j, r, m = (int)c->p[0]; \
    /* 0: deck function  1: SANE  2: SANSE  3: WBC  4: WBC-AE  5: deck function in one call */ \
    memset(tag, 0, 64); \
    switch (m) { \
    case 1: r = M##SANE_Initialize(&a, big_key, 256, big_nonce, 100, tag); r |= M##SANE_Initialize(&a2, big_key, 256, big_nonce, 100, tag); break; \
    case 2: r = M##SANSE_Initialize(&b, big_key, 256); r |= M##SANSE_Initialize(&b2, big_key, 256); break; \
    default: r = MASK(&s, big_key, 256); \
    } \
    big_ret("init", r); \
    for (i = 0; i < c->nops; i++) { const bop *o = &c->o[i], *d; u8 *in, *ad, *out, *p2; uint64_t n; \
        switch (o->op) { \
        case 'A': if (m == 5) { const bop *w = &c->o[i + 1]; in = big_in(c, i); OUT("output", w, ONE(&s, in, BITS(o), out, BITS(w), (int)w->x)); big_in_done(c, i, in); i++; } \
                  else IN(i, COMP(&s, in, BITS(o), (int)o->x)); break; \
        case 'S': OUT("output", o, EXP(&s, out, BITS(o), (int)o->x)); break; \
        case 'W': \
            d = i && c->o[i - 1].op == 'D' ? &c->o[i - 1] : &zero; ad = d->op ? big_in(c, i - 1) : NULL; in = big_in(c, i); n = BYTES(o) + (m == 4 ? 16 : 0); out = big_out(n); \
            if (m == 4) { u8 *cp = big_out(n); memcpy(cp, in, BYTES(o)); r = M##WBCAE_Encipher(&s, cp, out, BITS(o), ad, BITS(d)); big_out_done(cp, n); } \
            else r = m == 1 ? M##SANE_Wrap(&a, in, out, BITS(o), ad, BITS(d), tag) : m == 2 ? M##SANSE_Wrap(&b, in, out, BITS(o), ad, BITS(d), tag) : M##WBC_Encipher(&s, in, out, BITS(o), ad, BITS(d)); \
            big_ret("wrap", r); big_print("ciphertext", out, n); if (m <= 2) big_print("tag", tag, m == 1 ? 16 : 32); \
            if (o->x) {     /* and back, with the receiver's instance */ \
                p2 = big_out(n); \
                r = m == 1 ? M##SANE_Unwrap(&a2, out, p2, BITS(o), ad, BITS(d), tag) : m == 2 ? M##SANSE_Unwrap(&b2, out, p2, BITS(o), ad, BITS(d), tag) \
                  : m == 4 ? M##WBCAE_Decipher(&s, out, p2, BITS(o), ad, BITS(d)) : M##WBC_Decipher(&s, out, p2, BITS(o), ad, BITS(d)); \
                big_ret("unwrap", r); printf("plaintext %s\n", memcmp(p2, in, BYTES(o)) ? "differs" : "is the same"); big_out_done(p2, n); \
            } \
            big_out_done(out, n); big_in_done(c, i, in); if (ad) big_in_done(c, i - 1, ad); break; \
        } \
    } \
    (void)j; (void)s2; \
    return 0; \
}
