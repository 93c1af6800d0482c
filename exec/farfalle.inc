/* Farfalle-based functions.  P_* macros name the functions of Kravatte or Xoofff.
   i0 = data bits, i1 = associated-data (or tweak) bits, i2 = flags */
static int P_FPRF(xctx *c, xop *x)
{
    P_INST *s = INST(P_INST, P_MPRF, x->slot);
    switch (x->sub) {
    case S_MASK: x->ret = P_MASK(s, x->in[0].p, (BitLength)x->i[0]); return 0;
    case S_COMPRESS: x->ret = P_COMPRESS(s, x->in[0].p, (BitLength)x->i[0], (int)x->i[2]); return 0;
    case S_EXPAND: x->ret = P_EXPAND(s, x->out[0].p, (BitLength)x->i[0], (int)x->i[2]); return 0;
    case S_FARFALLE: x->ret = P_BOTH(s, x->in[0].p, (BitLength)x->i[0], x->out[0].p, (BitLength)x->i[1], (int)x->i[2]); return 0;
    }
    return 1;
}
static int P_FSANE(xctx *c, xop *x)
{
    P_ISANE *s = INST(P_ISANE, P_MSANE, x->slot);
    switch (x->sub) {
    case S_INITIALIZE: x->ret = P_NSANE(_Initialize)(s, x->in[0].p, (BitLength)x->i[0], x->in[1].p, (BitLength)x->i[1], x->out[0].p); return 0;
    case S_WRAP: x->ret = P_NSANE(_Wrap)(s, x->in[0].p, x->out[0].p, (BitLength)x->i[0], x->in[1].p, (BitLength)x->i[1], x->out[1].p); return 0;
    case S_UNWRAP: x->ret = P_NSANE(_Unwrap)(s, x->in[0].p, x->out[0].p, (BitLength)x->i[0], x->in[1].p, (BitLength)x->i[1], x->in[2].p); return 0;
    }
    return 1;
}
static int P_FSANSE(xctx *c, xop *x)
{
    P_ISANSE *s = INST(P_ISANSE, P_MSANSE, x->slot);
    switch (x->sub) {
    case S_INITIALIZE: x->ret = P_NSANSE(_Initialize)(s, x->in[0].p, (BitLength)x->i[0]); return 0;
    case S_WRAP: x->ret = P_NSANSE(_Wrap)(s, x->in[0].p, x->out[0].p, (BitLength)x->i[0], x->in[1].p, (BitLength)x->i[1], x->out[1].p); return 0;
    case S_UNWRAP: x->ret = P_NSANSE(_Unwrap)(s, x->in[0].p, x->out[0].p, (BitLength)x->i[0], x->in[1].p, (BitLength)x->i[1], x->in[2].p); return 0;
    }
    return 1;
}
static int P_FWBC(xctx *c, xop *x)
{
    P_INST *s = INST(P_INST, P_MWBC, x->slot);
    switch (x->sub) {
    case S_MASK: x->ret = P_NWBC(_Initialize)(s, x->in[0].p, (BitLength)x->i[0]); return 0;
    case S_ENC: x->ret = P_NWBC(_Encipher)(s, x->in[0].p, x->out[0].p, (BitLength)x->i[0], x->in[1].p, (BitLength)x->i[1]); return 0;
    case S_DEC: x->ret = P_NWBC(_Decipher)(s, x->in[0].p, x->out[0].p, (BitLength)x->i[0], x->in[1].p, (BitLength)x->i[1]); return 0;
    /* out1 is a working copy of the plaintext buffer: the function uses the room after the data for its redundancy */
    case S_AENC: memcpy(x->out[1].p, x->in[0].p, x->in[0].n);
        x->ret = P_NWBCAE(_Encipher)(s, x->out[1].p, x->out[0].p, (BitLength)x->i[0], x->in[1].p, (BitLength)x->i[1]); return 0;
    case S_ADEC: x->ret = P_NWBCAE(_Decipher)(s, x->in[0].p, x->out[0].p, (BitLength)x->i[0], x->in[1].p, (BitLength)x->i[1]); return 0;
    }
    return 1;
}
