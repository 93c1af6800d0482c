/* SnP module: XP = prefix, XST = state type, XMOD = module number, XFN = function name, XW = width in bytes */
#define J0(a, b) a##b
#define J(a, b) J0(a, b)
#ifndef X_LANE
#define X_LANE 8
#endif
static int XFN(xctx *c, xop *x)
{
    XST *s = INST(XST, XMOD, x->slot);
    (void)s;
    switch (x->sub) {
    case S_INIT: J(XP, _StaticInitialize)(); J(XP, _Initialize)(s); return 0;
    case S_ADDBYTE: { unsigned off = (unsigned)x->i[0]; unsigned char b = (unsigned char)x->i[1]; J(XP, _AddByte)(s, b, off); return 0; }
    case S_ADDBYTES: J(XP, _AddBytes)(s, x->in[0].p, (unsigned)x->i[0], (unsigned)x->in[0].n); return 0;
    case S_OVERWRITE: J(XP, _OverwriteBytes)(s, x->in[0].p, (unsigned)x->i[0], (unsigned)x->in[0].n); return 0;
    case S_OVERZERO: J(XP, _OverwriteWithZeroes)(s, (unsigned)x->i[0]); return 0;
    case S_EXTRACT: J(XP, _ExtractBytes)(s, x->out[0].p, (unsigned)x->i[0], (unsigned)x->out[0].n); return 0;
    case S_EXTRACTADD: J(XP, _ExtractAndAddBytes)(s, x->in[0].p, x->out[0].p, (unsigned)x->i[0], (unsigned)x->out[0].n); return 0;
    case S_PERM:
        switch (x->i[0]) {
#if !defined(X_NO_NR)
        case PERM_N: J(XP, _Permute_Nrounds)(s, (unsigned)x->i[1]); return 0;
#endif
        case PERM_12: J(XP, _Permute_12rounds)(s); return 0;
#ifdef X_HAS24
        case PERM_24: J(XP, _Permute_24rounds)(s); return 0;
#endif
#ifdef X_HAS6
        case PERM_6: J(XP, _Permute_6rounds)(s); return 0;
#endif
        default: return 1;
        }
    /* a target without the fast loop does the same through the elementary calls, so that histories stay comparable */
#ifndef X_FL24
#if defined(X_HAS24)
    case S_FASTLOOP: { size_t l = (size_t)x->i[0] * X_LANE, n = x->in[0].n, o = 0;
        while (n - o >= l) { J(XP, _AddBytes)(s, x->in[0].p + o, 0, (unsigned)l); J(XP, _Permute_24rounds)(s); o += l; }
        x->ret = (int64_t)o; return 0; }
#endif
#else
    case S_FASTLOOP: x->ret = (int64_t)X_FL24(s, (unsigned)x->i[0], x->in[0].p, x->in[0].n); return 0;
#endif
#ifndef X_FL12
    case S_FASTLOOP12: { size_t l = (size_t)x->i[0] * X_LANE, n = x->in[0].n, o = 0;
        while (n - o >= l) { J(XP, _AddBytes)(s, x->in[0].p + o, 0, (unsigned)l); J(XP, _Permute_12rounds)(s); o += l; }
        x->ret = (int64_t)o; return 0; }
#else
    case S_FASTLOOP12: x->ret = (int64_t)X_FL12(s, (unsigned)x->i[0], x->in[0].p, x->in[0].n); return 0;
#endif
#ifdef X_CYCLIST
    case S_FB_ABSK: x->ret = (int64_t)Xoodyak_AbsorbKeyedFullBlocks(s, x->in[0].p, x->in[0].n); return 0;
    case S_FB_ABSH: x->ret = (int64_t)Xoodyak_AbsorbHashFullBlocks(s, x->in[0].p, x->in[0].n); return 0;
    case S_FB_SQK: x->ret = (int64_t)Xoodyak_SqueezeKeyedFullBlocks(s, x->out[0].p, x->out[0].n); return 0;
    case S_FB_SQH: x->ret = (int64_t)Xoodyak_SqueezeHashFullBlocks(s, x->out[0].p, x->out[0].n); return 0;
    case S_FB_ENC: x->ret = (int64_t)Xoodyak_EncryptFullBlocks(s, x->in[0].p, x->out[0].p, x->in[0].n); return 0;
    case S_FB_DEC: x->ret = (int64_t)Xoodyak_DecryptFullBlocks(s, x->in[0].p, x->out[0].p, x->in[0].n); return 0;
#endif
#ifdef X_XFFF
#define X_BULK (48 * 1)
    /* Farfalle bulk operations of Xoofff; they may leave data that is not aligned to the caller (returning less than all blocks): the rest is
       then offered again, aligned. in0: data, in1: xAccu (48), in2: kRoll (48); out0: xAccu, out1: kRoll */
    case S_FARCOMP: {
        XV_A64 unsigned char xa[48]; XV_A64 unsigned char kr[48];
        memcpy(xa, x->in[1].p, 48); memcpy(kr, x->in[2].p, 48);
        size_t r = J(X_XFFF, _CompressFastLoop)(kr, xa, x->in[0].p, x->in[0].n), z = x->in[0].n - r;
        if (r <= x->in[0].n && z >= X_BULK) { void *t = aligned_alloc(64, (z + 63) & ~(size_t)63); memcpy(t, x->in[0].p + r, z); r += J(X_XFFF, _CompressFastLoop)(kr, xa, (unsigned char *)t, z); free(t); }
        x->ret = (int64_t)r;
        memcpy(x->out[0].p, xa, 48); memcpy(x->out[1].p, kr, 48);
        return 0; }
    case S_FAREXP: {
        XV_A64 unsigned char ya[48]; XV_A64 unsigned char kr[48];
        memcpy(ya, x->in[0].p, 48); memcpy(kr, x->in[1].p, 48);
        size_t r = J(X_XFFF, _ExpandFastLoop)(ya, kr, x->out[1].p, x->out[1].n), z = x->out[1].n - r;
        if (r <= x->out[1].n && z >= X_BULK) { void *t = aligned_alloc(64, (z + 63) & ~(size_t)63); memcpy(t, x->out[1].p + r, z); r += J(X_XFFF, _ExpandFastLoop)(ya, kr, (unsigned char *)t, z); memcpy(x->out[1].p + (x->out[1].n - z), t, z); free(t); }
        x->ret = (int64_t)r;
        memcpy(x->out[0].p, ya, 48);
        return memcmp(kr, x->in[1].p, 48) ? (x->ret = -99, 0) : 0; }
    case S_ADDIS:
        memcpy(x->out[0].p, x->in[1].p, x->in[1].n);
        J(X_XFFF, _AddIs)(x->out[0].p, x->in[0].p, (size_t)x->i[0]);
        if (x->i[0] & 7) x->out[0].p[x->out[0].n - 1] &= (unsigned char)((1 << (x->i[0] & 7)) - 1);
        return 0;
#endif
    default: return 1;
    }
}
#undef J0
#undef J
#undef XP
#undef XST
#undef XMOD
#undef XFN
#undef X_NO_NR
#undef X_HAS24
#undef X_HAS6
#undef X_FL24
#undef X_FL12
#undef X_CYCLIST
#undef X_XFFF
#undef X_BULK
