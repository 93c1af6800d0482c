#ifndef XV_EXEC_H
#define XV_EXEC_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include "ops.h"

#define MAXI 12
#define MAXB 4
#define NSLOT 8
typedef struct { unsigned char *p; size_t n; } xbuf;
typedef struct { unsigned op, sub, slot, slot2, flags, ni, nb, no; uint64_t i[MAXI]; xbuf in[MAXB], out[MAXB]; int64_t ret; } xop;
typedef struct { unsigned char *base; size_t cap; unsigned char *lo, *hi; } xarena;
typedef struct {
    struct { unsigned char *mem; size_t map; unsigned char *p; size_t n; } inst[M_COUNT][NSLOT];
    xarena ar[2 * MAXB];
    unsigned char *snap; size_t snapn;
} xctx;

typedef int (*xfn)(xctx *, xop *);      /* 0: done, 1: operation not supported by this target */
typedef struct { unsigned module; xfn fn; size_t size; size_t align; } xmod;

void *xv_inst(xctx *c, unsigned module, unsigned slot, size_t size, size_t align);
#define INST(type, module, slot) ((type *)xv_inst(c, module, slot, sizeof(type), __alignof__(type)))
#endif
