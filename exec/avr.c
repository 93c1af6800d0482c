/* A target on AVR8: XKCP and the executor's modules compiled for that processor (avr_image.h, avr_mods.h: written by avr_image.py), run
   by an interpreter of its instruction set. Each operation copies its instance and buffers into the memory of the imaginary processor, where
   only those bytes, the stack and the program's variables may be touched, runs the module's function and copies the results back.
   Every operation uses other addresses, and interrupts, which use the stack below SP, come while it runs. */
#include <stdio.h>
#include <setjmp.h>
#include "exec.h"
#include "avr_image.h"

static const uint8_t image[] = { AVR_TEXT }, data[] = { AVR_DATA 0 };
#define R_OK_ 1
#define W_OK_ 2
enum { C = 1, Z = 2, N = 4, V = 8, S = 16, H = 32, T = 64, I = 128 };   /* flags F */
static uint8_t R[32], mem[65536], perm[65536], F;      
static uint16_t pc, sp;
static jmp_buf late;
#define STACK 0xFF00
#define STACKSIZE 12288
#define END 0xFFF0

static void die(const char *why, unsigned a)
{
    fprintf(stderr, "avr: %s (address 0x%04x, pc 0x%04x, sp 0x%04x)\n", why, a, 2 * pc, sp);
    abort();
}
static uint8_t ld(uint16_t a) { if (a < 32) return R[a]; if (!(perm[a] & R_OK_)) die("reads outside its arguments and stack", a); return mem[a]; }
static void st(uint16_t a, uint8_t v) { if (a < 32) { R[a] = v; return; } if (!(perm[a] & W_OK_)) die("writes outside its arguments and stack", a); mem[a] = v; }
static void push(uint8_t v) { sp--; if (!(perm[(uint16_t)(sp + 1)] & W_OK_)) die("stack too deep", sp); mem[(uint16_t)(sp + 1)] = v; }
static uint8_t pop(void) { sp++; if (!(perm[sp] & R_OK_)) die("takes more from the stack than it put there", sp); return mem[sp]; }
static uint16_t word(uint16_t w)
{
    unsigned a = 2u * w - AVR_BASE;
    if (2u * w < AVR_BASE || a + 1 >= sizeof image) die("runs outside the code", 2u * w);
    return image[a] | image[a + 1] << 8;
}
static uint8_t lpm(uint16_t a)
{
    if (a < AVR_BASE || a - AVR_BASE >= sizeof image) die("reads outside the constants", a);
    return image[a - AVR_BASE];
}
#define PAIR(r) ((uint16_t)(R[r] | R[(r) + 1] << 8))
static void setpair(int r, uint16_t v) { R[r] = (uint8_t)v; R[r + 1] = v >> 8; }
static void flags(uint8_t mask, uint8_t set) { F = (F & ~mask) | (set & mask); }
static uint8_t nzs(uint8_t r, int v) { uint8_t f = (r & 0x80 ? N : 0) | (r ? 0 : Z) | (v ? V : 0); if (!!(f & N) != !!v) f |= S; return f; }
static uint8_t add(uint8_t a, uint8_t b, int c)
{
    unsigned s = a + b + c; uint8_t r = (uint8_t)s;
    flags(C | Z | N | V | S | H, nzs(r, (~(a ^ b) & (a ^ r)) >> 7 & 1) | (s >> 8 ? C : 0) | ((a & 15) + (b & 15) + c > 15 ? H : 0));
    return r;
}
static uint8_t sub(uint8_t a, uint8_t b, int c, int keepz)
{
    int s = a - b - c; uint8_t r = (uint8_t)s, f = nzs(r, ((a ^ b) & (a ^ r)) >> 7 & 1) | (s < 0 ? C : 0) | ((a & 15) - (b & 15) - c < 0 ? H : 0);
    if (keepz && !(F & Z)) f &= ~Z;
    flags(C | Z | N | V | S | H, f);
    return r;
}
static uint8_t logic(uint8_t r) { flags(Z | N | V | S, nzs(r, 0)); return r; }
static uint8_t shift(uint8_t r, int c) { uint8_t f = nzs(r, !!(r & 0x80) != c) | (c ? C : 0); flags(C | Z | N | V | S, f); return r; }
static uint8_t io(unsigned a) { if (a == 0x3D) return (uint8_t)sp; if (a == 0x3E) return sp >> 8; if (a == 0x3F) return F; die("uses a device", a); return 0; }
static void ioset(unsigned a, uint8_t v) { if (a == 0x3D) sp = (sp & 0xFF00) | v; else if (a == 0x3E) sp = (sp & 0xFF) | v << 8; else if (a == 0x3F) F = v; else die("uses a device", a); }
static int two(uint16_t o) { return (o & 0xFE0E) == 0x940C || (o & 0xFE0E) == 0x940E || (o & 0xFC0F) == 0x9000; }

/* the compiler's run-time library; memory functions */
static uint16_t instance;
static void builtin(int n)
{
    uint16_t d = PAIR(24), a = PAIR(22), k = PAIR(20), i; int r = 0; uint64_t x, y;
    switch (n) {
    case 0: if (!a) die("divides by zero", 0); setpair(22, d / a); setpair(24, d % a); break;               /* __udivmodhi4 */
    case 1:                                                                                                /* __udivdi3, __umoddi3 */
    case 2: memcpy(&x, R + 18, 8); memcpy(&y, R + 10, 8); if (!y) die("divides by zero", 0); x = n == 1 ? x / y : x % y; memcpy(R + 18, &x, 8); break;
    case 3: { uint32_t u, v; memcpy(&u, R + 22, 4); memcpy(&v, R + 18, 4); if (!v) die("divides by zero", 0); v = u / v; memcpy(&y, R + 18, 4); u -= v * (uint32_t)y; memcpy(R + 18, &v, 4); memcpy(R + 22, &u, 4); break; }   /* __udivmodsi4 */
    case 4: for (i = 0; i < k; i++) st(d + i, ld(a + i)); break;                                            /* memcpy */
    case 5: if ((uint16_t)(d - a) < k) for (i = k; i-- > 0;) st(d + i, ld(a + i)); else for (i = 0; i < k; i++) st(d + i, ld(a + i)); break;
    case 6: for (i = 0; i < k; i++) st(d + i, (uint8_t)a); break;                                           /* memset */
    case 7: for (i = 0; i < k && !r; i++) r = ld(d + i) - ld(a + i); setpair(24, r); break;                /* memcmp */
    case 8: for (i = 0; ld(d + i); i++) ; setpair(24, i); break;                                            /* strlen */
    case 9: setpair(24, d * a); break;                                                                     /* __mulhi3 */
    case 10: { uint32_t u, v; memcpy(&u, R + 22, 4); memcpy(&v, R + 18, 4); u *= v; memcpy(R + 22, &u, 4); break; }   /* __mulsi3 */
    case 11: memcpy(&x, R + 18, 8); memcpy(&y, R + 10, 8); x *= y; memcpy(R + 18, &x, 8); break;            /* __muldi3 */
    case 12: R[24] *= R[22]; break;                                                                        /* __mulqi3 */
    case 13: a = R[22]; if (!a) die("divides by zero", 0); d = R[24]; R[24] = d / a; R[25] = d % a; break;  /* __udivmodqi4 */
    case 14: setpair(24, instance); break;                                                                 /* xv_inst */
    default: die("a function that is not there", n);
    }
}

static void run(void)
{
    long steps; int when = 7, on = 0;
    for (steps = 0; pc != END; steps++) {
        uint16_t o = word(pc), k; int d, r, q, skip = 0; uint8_t a, b;
        if (steps > 100000000L) longjmp(late, 1);      /* more than is worth while here */
        if (F & I && on && --when < 0) {                         /* an interrupt uses the stack; not right after the flag is set */
            int n; for (n = 0; n < 24; n++) if (perm[(uint16_t)(sp - n)]) mem[(uint16_t)(sp - n)] = 0xC5;
            when = 59 + (steps & 3);
        }
        on = F & I;
        pc++;
        d = o >> 4 & 31; r = (o & 15) | (o >> 5 & 16);
        switch (o >> 12) {
        case 0: case 1: case 2:
            switch (o >> 10) {
            case 0:
                if (o == 0) break;
                if ((o & 0xFF00) == 0x0100) { int x = (o >> 4 & 15) * 2, y = (o & 15) * 2; R[x] = R[y]; R[x + 1] = R[y + 1]; break; }
                if ((o & 0xFF00) == 0x0200) { k = (int8_t)R[16 + (o >> 4 & 15)] * (int8_t)R[16 + (o & 15)]; setpair(0, k); flags(C | Z, (k >> 15 ? C : 0) | (k ? 0 : Z)); break; }
                die("instruction not known", o); break;
            case 1: sub(R[d], R[r], F & C, 1); break;                     /* cpc */
            case 2: R[d] = sub(R[d], R[r], F & C, 1); break;              /* sbc */
            case 3: R[d] = add(R[d], R[r], 0); break;
            case 4: skip = R[d] == R[r]; break;                           /* cpse */
            case 5: sub(R[d], R[r], 0, 0); break;                         /* cp */
            case 6: R[d] = sub(R[d], R[r], 0, 0); break;
            case 7: R[d] = add(R[d], R[r], F & C); break;
            case 8: R[d] = logic(R[d] & R[r]); break;
            case 9: R[d] = logic(R[d] ^ R[r]); break;
            case 10: R[d] = logic(R[d] | R[r]); break;
            case 11: R[d] = R[r]; break;
            }
            break;
#define K8 (uint8_t)((o >> 4 & 0xF0) | (o & 15))
#define D16 (16 + (o >> 4 & 15))
        case 3: sub(R[D16], K8, 0, 0); break;
        case 4: R[D16] = sub(R[D16], K8, F & C, 1); break;
        case 5: R[D16] = sub(R[D16], K8, 0, 0); break;
        case 6: R[D16] = logic(R[D16] | K8); break;
        case 7: R[D16] = logic(R[D16] & K8); break;
        case 8: case 10:
            q = (o & 7) | (o >> 7 & 0x18) | (o >> 8 & 0x20);
            k = PAIR(o & 8 ? 28 : 30) + q;
            if (o & 0x200) st(k, R[d]); else R[d] = ld(k);
            break;
        case 9:
            if ((o & 0xFC00) == 0x9000) {
                int w = o >> 9 & 1, p, pre = 0, post = 0;
                switch (o & 15) {
                case 0: k = word(pc++); if (w) st(k, R[d]); else R[d] = ld(k); goto done;
                case 1: p = 30; post = 1; break;   case 2: p = 30; pre = 1; break;
                case 9: p = 28; post = 1; break;   case 10: p = 28; pre = 1; break;
                case 12: p = 26; break;            case 13: p = 26; post = 1; break;   case 14: p = 26; pre = 1; break;
                case 15: if (w) push(R[d]); else R[d] = pop(); goto done;
                case 4: if (w) die("instruction not known", o); R[d] = lpm(PAIR(30)); goto done;
                case 5: if (w) die("instruction not known", o); k = PAIR(30); R[d] = lpm(k); setpair(30, k + 1); goto done;
                default: die("instruction not known", o);
                }
                k = PAIR(p) - pre;
                if (w) st(k, R[d]); else { a = ld(k); }
                if (pre || post) setpair(p, k + post);
                if (!w) R[d] = a;
done:           break;
            }
            if ((o & 0xFC00) == 0x9C00) { k = R[d] * R[r]; setpair(0, k); flags(C | Z, (k >> 15 ? C : 0) | (k ? 0 : Z)); break; }
            if ((o & 0xFF00) == 0x9600 || (o & 0xFF00) == 0x9700) {
                int x = 24 + (o >> 3 & 6); uint16_t v = PAIR(x), n, imm = (o & 15) | (o >> 2 & 0x30); int c, ov;
                if (o & 0x100) { n = v - imm; c = n > v; ov = v >> 15 && !(n >> 15); } else { n = v + imm; c = n < v; ov = !(v >> 15) && n >> 15; }
                setpair(x, n);
                flags(C | Z | N | V | S, (c ? C : 0) | (n ? 0 : Z) | (n >> 15 ? N : 0) | (ov ? V : 0) | ((n >> 15) != ov ? S : 0));
                break;
            }
            if ((o & 0xFE00) == 0x9400) {
                switch (o & 15) {
                case 0: R[d] = ~R[d]; logic(R[d]); F |= C; break;
                case 1: R[d] = sub(0, R[d], 0, 0); break;
                case 2: R[d] = R[d] << 4 | R[d] >> 4; break;
                case 3: R[d]++; flags(Z | N | V | S, nzs(R[d], R[d] == 0x80)); break;
                case 5: a = R[d]; R[d] = shift(a >> 1 | (a & 0x80), a & 1); break;
                case 6: a = R[d]; R[d] = shift(a >> 1, a & 1); break;
                case 7: a = R[d]; R[d] = shift(a >> 1 | (F & C ? 0x80 : 0), a & 1); break;
                case 10: R[d]--; flags(Z | N | V | S, nzs(R[d], R[d] == 0x7F)); break;
                case 12: case 13: pc = word(pc); break;
                case 14: case 15: k = word(pc); pc++; push((uint8_t)pc); push(pc >> 8); pc = k; break;
                case 8:
                    if ((o & 0xFF8F) == 0x9408) F |= 1 << (o >> 4 & 7);
                    else if ((o & 0xFF8F) == 0x9488) F &= ~(1 << (o >> 4 & 7));
                    else if (o == 0x9508) { pc = pop() << 8; pc |= pop(); }
                    else if (o == 0x95C8) R[0] = lpm(PAIR(30));
                    else die("instruction not known", o);
                    break;
                case 9:
                    if (o == 0x9409) pc = PAIR(30);
                    else if (o == 0x9509) { push((uint8_t)pc); push(pc >> 8); pc = PAIR(30); }
                    else die("instruction not known", o);
                    break;
                default: die("instruction not known", o);
                }
                break;
            }
            die("instruction not known", o); break;
        case 11:
            k = (o & 15) | (o >> 5 & 0x30);
            if (o & 0x800) ioset(k, R[d]); else R[d] = io(k);
            break;
        case 12: case 13:
            q = o & 0xFFF; if (q & 0x800) q -= 0x1000;
            if (o & 0x1000) { push((uint8_t)pc); push(pc >> 8); }
            pc += q;
            break;
        case 14: R[D16] = K8; break;
        case 15:
            if (!(o & 0x800)) {
                q = o >> 3 & 0x7F; if (q & 0x40) q -= 0x80;
                if (!!(F & 1 << (o & 7)) == !(o & 0x400)) pc += q;
            }
            else if (o & 8) builtin((o >> 1 & 0xF8) | (o & 7));
            else if ((o & 0xFE00) == 0xF800) R[d] = (R[d] & ~(1 << (o & 7))) | (F & T ? 1 << (o & 7) : 0);
            else if ((o & 0xFE00) == 0xFA00) flags(T, R[d] >> (o & 7) & 1 ? T : 0);
            else skip = (R[d] >> (o & 7) & 1) == (o >> 9 & 1);           /* sbrc, sbrs */
            break;
        }
        if (skip) pc += two(word(pc)) ? 2 : 1;
    }
}


static uint16_t put(uint16_t at, unsigned h, unsigned n) { at += 1 + h % 37; if (at + n + 1u > STACK - STACKSIZE) return 0; return at; }

/* the module's function at word address fn; xop as avr-gcc lays it out: eight unsigned, uint64_t i[12], four and four buffers, int64_t ret */
static int avr_op(xctx *c, xop *x, unsigned fn, unsigned size)
{
    uint16_t at = AVR_RAM + sizeof data + AVR_BSS, xo, in[MAXB], out[MAXB], *const w[2] = { in, out }; unsigned k, h = 2166136261u; uint8_t before[32]; unsigned char *ip = NULL;
    for (k = 0; k < x->ni; k++) { if (x->i[k] > 0xFFFF) return 1; h = (h ^ (unsigned)x->i[k]) * 16777619u; }        /* more than an unsigned int or a size_t can hold */
    for (k = 0; k < x->nb; k++) { if (x->in[k].n > 0x6000) return 1; h = (h ^ (unsigned)x->in[k].n) * 16777619u; if (x->in[k].n) h = (h ^ x->in[k].p[0]) * 16777619u; }
    for (k = 0; k < x->no; k++) if (x->out[k].n > 0x6000) return 1;
    if (AVR_BITS(x->op / 64)) for (k = 0; k < x->nb + x->no; k++) if ((k < x->nb ? x->in[k].n : x->out[k - x->nb].n) > 8191) return 1;   /* lengths in bits that are not arguments */
    if (size) {
        ip = xv_inst(c, x->op / 64, x->slot, size, 1);
        if (!(instance = put(at, h >> 3, size))) return 1;
        at = instance + size;
    }
    if (!(xo = put(at, h >> 7, 152))) return 1;
    at = xo + 152;
    for (k = 0; k < x->nb + x->no; k++) {
        int o = k >= x->nb; unsigned j = o ? k - x->nb : k; xbuf *b = o ? &x->out[j] : &x->in[j];
        if (o && j == 0 && x->nb && b->p == x->in[0].p && b->p) { out[0] = in[0]; continue; }                            /* in place */
        if (!b->p) { w[o][j] = 0; continue; }
        if (!(w[o][j] = put(at, h >> (3 * k & 15), (unsigned)b->n))) return 1;
        at = w[o][j] + b->n;
    }
    memset(perm, 0, sizeof perm);
    memcpy(mem + AVR_RAM, data, sizeof data); memset(mem + AVR_RAM + sizeof data - 1, 0, AVR_BSS);
    memset(perm + AVR_RAM, R_OK_ | W_OK_, sizeof data - 1 + AVR_BSS);
    if (size) { memcpy(mem + instance, ip, size); memset(perm + instance, R_OK_ | W_OK_, size); }
    memset(mem + xo, 0, 152); memset(perm + xo, R_OK_ | W_OK_, 152);
#define W16(a, v) (mem[a] = (uint8_t)(v), mem[(a) + 1] = (uint8_t)((v) >> 8))
    { unsigned v[8] = { x->op, x->sub, x->slot, x->slot2, x->flags, x->ni, x->nb, x->no }; for (k = 0; k < 8; k++) W16(xo + 2 * k, v[k]); }
    for (k = 0; k < x->ni; k++) memcpy(mem + xo + 16 + 8 * k, &x->i[k], 8);
    for (k = 0; k < x->nb; k++) {
        W16(xo + 112 + 4 * k, in[k]); W16(xo + 114 + 4 * k, x->in[k].n);
        if (in[k]) { memcpy(mem + in[k], x->in[k].p, x->in[k].n); memset(perm + in[k], R_OK_, x->in[k].n); }
    }
    for (k = 0; k < x->no; k++) {
        W16(xo + 128 + 4 * k, out[k]); W16(xo + 130 + 4 * k, x->out[k].n);
        if (out[k]) { memcpy(mem + out[k], x->out[k].p, x->out[k].n); memset(perm + out[k], R_OK_ | W_OK_, x->out[k].n); }
    }
    memset(mem + STACK - STACKSIZE, h >> 8, STACKSIZE + 1); memset(perm + STACK - STACKSIZE, R_OK_ | W_OK_, STACKSIZE + 1);
    for (k = 0; k < 32; k++) R[k] = (uint8_t)(h >> (k % 24)) * 37 + k;
    setpair(24, 0); setpair(22, xo);
    R[1] = 0; F = I; sp = STACK; pc = END; push((uint8_t)pc); push(pc >> 8);
    memcpy(before, R, sizeof before);
    if (setjmp(late)) return 1;
    pc = fn; run();
    if (sp != STACK) die("leaves the stack pointer elsewhere", sp);
    if (R[1]) die("leaves r1 other than zero", R[1]);
    if (!(F & I)) die("leaves the interrupts off", F);
    for (k = 2; k < 30; k++) if ((k < 18 || k > 27) && R[k] != before[k]) die("changes a register it must keep", k);
    if (size) memcpy(ip, mem + instance, size);
    for (k = 0; k < x->no; k++) if (out[k]) memcpy(x->out[k].p, mem + out[k], x->out[k].n);
    memcpy(&x->ret, mem + xo + 144, 8);
    return (int16_t)PAIR(24);
}
#define MOD(name, module, fn, size) static int name##_fn(xctx *c, xop *x) { return avr_op(c, x, fn, size); } const xmod name = { module, name##_fn, size, 1 };
#include "avr_mods.h"
