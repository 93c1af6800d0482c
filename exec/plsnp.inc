/* PlSnP module: XP, XST, XMOD, XFN, XPAR; X_FL24, X_FL12, X_HAS4, X_HAS24, X_HASN, X_KRAV, X_XFFF (prefix), X_KT128, X_KT256 */
#define J0(a, b) a##b
#define J(a, b) J0(a, b)
static int XFN(xctx *c, xop *x)
{
    XST *s = INST(XST, XMOD, x->slot);
    unsigned i0 = (unsigned)x->i[0], i1 = (unsigned)x->i[1];
    switch (x->sub) {
    case S_INIT: J(XP, _StaticInitialize)(); J(XP, _InitializeAll)(s); return 0;
    case S_ADDBYTE: { unsigned char b = (unsigned char)x->i[2]; J(XP, _AddByte)(s, i0, b, i1); return 0; }
    case S_ADDBYTES: J(XP, _AddBytes)(s, i0, x->in[0].p, i1, (unsigned)x->in[0].n); return 0;
    case S_OVERWRITE: J(XP, _OverwriteBytes)(s, i0, x->in[0].p, i1, (unsigned)x->in[0].n); return 0;
    case S_OVERZERO: J(XP, _OverwriteWithZeroes)(s, i0, i1); return 0;
    case S_EXTRACT: J(XP, _ExtractBytes)(s, i0, x->out[0].p, i1, (unsigned)x->out[0].n); return 0;
    case S_EXTRACTADD: J(XP, _ExtractAndAddBytes)(s, i0, x->in[0].p, x->out[0].p, i1, (unsigned)x->out[0].n); return 0;
    case S_ADDLANES: J(XP, _AddLanesAll)(s, x->in[0].p, i0, i1); return 0;
    case S_OVERLANES: J(XP, _OverwriteLanesAll)(s, x->in[0].p, i0, i1); return 0;
    case S_EXTRACTLANES: J(XP, _ExtractLanesAll)(s, x->out[0].p, i0, i1); return 0;
    case S_EXTRACTADDLANES: J(XP, _ExtractAndAddLanesAll)(s, x->in[0].p, x->out[0].p, i0, i1); return 0;
    case S_PERM:
        switch (x->i[0]) {
#ifdef X_HASN
        case PERM_N: J(XP, _PermuteAll_Nrounds)(s, i1); return 0;
#endif
        case PERM_6: J(XP, _PermuteAll_6rounds)(s); return 0;
        case PERM_12: J(XP, _PermuteAll_12rounds)(s); return 0;
#ifdef X_HAS24
        case PERM_4: J(XP, _PermuteAll_4rounds)(s); return 0;
        case PERM_24: J(XP, _PermuteAll_24rounds)(s); return 0;
#endif
        default: return 1;
        }
#ifndef X_FL24
#ifdef X_HAS24
    case S_FASTLOOP: { size_t l = (size_t)i0 * 8, n = x->in[0].n, o = 0; unsigned k;
        while (n - o >= ((size_t)i1 * (XPAR - 1) + i0) * 8 && n >= o) {
            for (k = 0; k < XPAR; k++) J(XP, _AddBytes)(s, k, x->in[0].p + o + (size_t)k * i1 * 8, 0, (unsigned)l);
            J(XP, _PermuteAll_24rounds)(s); o += (size_t)x->i[2] * 8; }
        x->ret = (int64_t)o; return 0; }
#endif
#else
    case S_FASTLOOP: x->ret = (int64_t)X_FL24(s, i0, i1, (unsigned)x->i[2], x->in[0].p, x->in[0].n); return 0;
#endif
#ifndef X_FL12
    case S_FASTLOOP12: { size_t l = (size_t)i0 * 8, n = x->in[0].n, o = 0; unsigned k;
        while (n - o >= ((size_t)i1 * (XPAR - 1) + i0) * 8 && n >= o) {
            for (k = 0; k < XPAR; k++) J(XP, _AddBytes)(s, k, x->in[0].p + o + (size_t)k * i1 * 8, 0, (unsigned)l);
            J(XP, _PermuteAll_12rounds)(s); o += (size_t)x->i[2] * 8; }
        x->ret = (int64_t)o; return 0; }
#else
    case S_FASTLOOP12: x->ret = (int64_t)X_FL12(s, i0, i1, (unsigned)x->i[2], x->in[0].p, x->in[0].n); return 0;
#endif
#ifdef X_KRAV
    /* in0: data, in1: xAccu (200), in2: kRoll (200); out0: xAccu, out1: kRoll */
    case S_FARCOMP: {
        uint64_t xa[25], kr[25];
        memcpy(xa, x->in[1].p, 200); memcpy(kr, x->in[2].p, 200);
        x->ret = (int64_t)J(XP, _KravatteCompress)(xa, kr, x->in[0].p, x->in[0].n);
        memcpy(x->out[0].p, xa, 200); memcpy(x->out[1].p, kr, 200);
        return 0; }
    case S_FAREXP: {
        uint64_t xa[25], kr[25];
        memcpy(xa, x->in[0].p, 200); memcpy(kr, x->in[1].p, 200);
        x->ret = (int64_t)J(XP, _KravatteExpand)(xa, kr, x->out[1].p, x->out[1].n);
        memcpy(x->out[0].p, xa, 200);
        return memcmp(kr, x->in[1].p, 200) ? (x->ret = -99, 0) : 0; }
#endif
#ifdef X_KT128
    case S_KT128L: X_KT128(x->in[0].p, x->out[0].p); return 0;
#endif
#ifdef X_KT256
    case S_KT256L: X_KT256(x->in[0].p, x->out[0].p); return 0;
#endif
#ifdef X_XFFF
#define X_BULK (48 * XPAR)
    /* Farfalle bulk operations of Xoofff; they may leave data that is not aligned to the caller (returning less than all blocks): the rest is
       then offered again, aligned. in0: data, in1: xAccu (48), in2: kRoll (48); out0: xAccu, out1: kRoll */
    case S_FARCOMP: {
        XV_A64 unsigned char xa[48]; XV_A64 unsigned char kr[48];
        memcpy(xa, x->in[1].p, 48); memcpy(kr, x->in[2].p, 48);
        size_t r = J(X_XFFF, _CompressFastLoop)(kr, xa, x->in[0].p, x->in[0].n), z = x->in[0].n - r;
        if (r <= x->in[0].n && z >= X_BULK) { void *t = aligned_alloc(64, (z + 63) & ~(size_t)63); memcpy(t, x->in[0].p + r, z); r += J(X_XFFF, _CompressFastLoop)(kr, xa, (unsigned char *)t, z); free(t); }
        x->ret = (int64_t)r;
        memcpy(x->out[0].p, xa, 48); memcpy(x->out[1].p, kr, 48);
        return 0; }
    case S_FAREXP: {
        XV_A64 unsigned char ya[48]; XV_A64 unsigned char kr[48];
        memcpy(ya, x->in[0].p, 48); memcpy(kr, x->in[1].p, 48);
        size_t r = J(X_XFFF, _ExpandFastLoop)(ya, kr, x->out[1].p, x->out[1].n), z = x->out[1].n - r;
        if (r <= x->out[1].n && z >= X_BULK) { void *t = aligned_alloc(64, (z + 63) & ~(size_t)63); memcpy(t, x->out[1].p + r, z); r += J(X_XFFF, _ExpandFastLoop)(ya, kr, (unsigned char *)t, z); memcpy(x->out[1].p + (x->out[1].n - z), t, z); free(t); }
        x->ret = (int64_t)r;
        memcpy(x->out[0].p, ya, 48);
        return memcmp(kr, x->in[1].p, 48) ? (x->ret = -99, 0) : 0; }
    case S_ADDIS:
        memcpy(x->out[0].p, x->in[1].p, x->in[1].n);
        J(X_XFFF, _AddIs)(x->out[0].p, x->in[0].p, (size_t)x->i[0]);
        if (x->i[0] & 7) x->out[0].p[x->out[0].n - 1] &= (unsigned char)((1 << (x->i[0] & 7)) - 1);
        return 0;
#endif
    default: return 1;
    }
}
#undef J0
#undef J
#undef XP
#undef XST
#undef XMOD
#undef XFN
#undef XPAR
#undef X_HAS24
#undef X_HASN
#undef X_FL24
#undef X_FL12
#undef X_KRAV
#undef X_KT128
#undef X_KT256
#undef X_XFFF
#undef X_BULK
