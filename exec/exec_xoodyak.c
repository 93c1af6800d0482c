#include "exec.h"
#include "config.h"
#ifdef XKCP_has_Xoodyak
#include <stddef.h>
#include "Xoodyak.h"
static int f_xdk(xctx *c, xop *x)
{
    Xoodyak_Instance *s = INST(Xoodyak_Instance, M_XDK, x->slot);
    switch (x->sub) {
    case S_XINIT: Xoodyak_Initialize(s, x->in[0].p, x->in[0].n, x->in[1].p, x->in[1].n, x->in[2].p, x->in[2].n); return 0;
    case S_XABS: Xoodyak_Absorb(s, x->in[0].p, x->in[0].n); return 0;
    case S_XENC: Xoodyak_Encrypt(s, x->in[0].p, x->out[0].p, x->in[0].n); return 0;
    case S_XDEC: Xoodyak_Decrypt(s, x->in[0].p, x->out[0].p, x->in[0].n); return 0;
    case S_XSQ: Xoodyak_Squeeze(s, x->out[0].p, x->out[0].n); return 0;
    case S_XSQK: Xoodyak_SqueezeKey(s, x->out[0].p, x->out[0].n); return 0;
    case S_XRAT: Xoodyak_Ratchet(s); return 0;
    }
    return 1;
}
const xmod xv_mod_xdk = { M_XDK, f_xdk, sizeof(Xoodyak_Instance), __alignof__(Xoodyak_Instance) };
#endif
