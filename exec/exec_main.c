/* Executor: reads cases (sequences of operations on the real XKCP functions) on stdin, runs them in guarded buffers, and
   writes back return values and output bytes.  One process per XKCP target. */
#define _GNU_SOURCE
#include <stdio.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#ifdef XV_THREADS
#include <pthread.h>
#endif
#include "exec.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define XV_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#define XV_MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define XV_ASAN 1
#endif
#ifdef XV_ASAN
#include <sanitizer/asan_interface.h>
#endif

#ifdef XV_MSAN
#define POISON(p, n) __msan_poison(p, n)       /* what nobody has written yet */
#define WIPED(p, n) __msan_unpoison(p, n)
#else
#define POISON(p, n) (void)0
#define WIPED(p, n) (void)0
#endif

#define PG 65536u      /* multiple of every page size in use */
#define CAN 64u

static void die(const char *m) { fprintf(stderr, "executor: %s\n", m); _exit(3); }

static int rd(void *p, size_t n)
{
    unsigned char *b = p;
    while (n) { ssize_t k = read(0, b, n); if (k == 0) return 0; if (k < 0) { if (errno == EINTR) continue; return 0; } b += k; n -= k; }
    return 1;
}
static void wr(const void *p, size_t n)
{
    const unsigned char *b = p;
    while (n) { ssize_t k = write(1, b, n); if (k < 0) { if (errno == EINTR) continue; _exit(4); } b += k; n -= k; }
}

static unsigned char *guarded(size_t n, size_t *cap, size_t *map)
{
    size_t c = (n + PG - 1) / PG * PG;
    unsigned char *m;
    if (c == 0) c = PG;
    m = mmap(NULL, c + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) die("mmap");
    if (mprotect(m + PG, c, PROT_READ | PROT_WRITE)) die("mprotect");
    *cap = c;
    if (map) *map = c + 2 * PG;
    return m + PG;
}

void *xv_inst(xctx *c, unsigned module, unsigned slot, size_t size, size_t align)
{
    unsigned char *b; size_t cap;
    if (c->inst[module][slot].p) return c->inst[module][slot].p;
    if (align < 1) align = 1;
    b = guarded(size + CAN + 2 * align, &cap, NULL);
    c->inst[module][slot].mem = b;
    c->inst[module][slot].map = cap;
    c->inst[module][slot].p = b + (cap - size) / align * align;
    /* every other instance has no more than the alignment its type asks for */
    if (align > 1 && (slot & 1) == 0 && ((uintptr_t)c->inst[module][slot].p & align) == 0) c->inst[module][slot].p -= align;
    c->inst[module][slot].n = size;
    memset(c->inst[module][slot].p - CAN, 0xC3, CAN);
    memset(c->inst[module][slot].p, 0xB7, size);
    memset(c->inst[module][slot].p + size, 0xC4, (size_t)(b + cap - c->inst[module][slot].p) - size);
    POISON(c->inst[module][slot].p, size);
    return c->inst[module][slot].p;
}

static unsigned char *place(xctx *c, unsigned k, size_t n, int start, unsigned mis)
{
    xarena *a = &c->ar[k];
    if (a->cap < n + 2 * CAN + 8 || !a->base) {
        if (a->base) munmap(a->base - PG, a->cap + 2 * PG);
        a->base = guarded(n + 2 * CAN + 8, &a->cap, NULL);
    }
    a->lo = a->base; a->hi = a->base + a->cap;
    return start ? a->base + mis : a->base + a->cap - n;
}

#ifdef XV_MSAN
__attribute__((no_sanitize("memory")))
#endif
static int differ(const unsigned char *a, const unsigned char *b, size_t n) { size_t j; for (j = 0; j < n; j++) if (a[j] != b[j]) return 1; return 0; }

static unsigned char canb(size_t j) { return (unsigned char)(0x5A ^ (j * 37)); }
static void can_set(xarena *a, unsigned char *p, size_t n)
{
    size_t j;
    for (j = 1; j <= CAN && p - j >= a->lo; j++) p[-(ptrdiff_t)j] = canb(j);
    for (j = 0; j < CAN && p + n + j < a->hi; j++) p[n + j] = canb(j + 100);
}
static int can_bad(xarena *a, unsigned char *p, size_t n)
{
    size_t j;
    for (j = 1; j <= CAN && p - j >= a->lo; j++) if (p[-(ptrdiff_t)j] != canb(j)) return 1;
    for (j = 0; j < CAN && p + n + j < a->hi; j++) if (p[n + j] != canb(j + 100)) return 1;
    return 0;
}

#ifndef XV_ASAN
static void __attribute__((noinline)) dirty_stack(unsigned char v)
{
    volatile unsigned char b[12288];
    memset((void *)b, v, sizeof b);
    __asm__ volatile("" :: "r"(b) : "memory");
}
#else
static void dirty_stack(unsigned char v) { (void)v; }
#endif

extern const xmod xv_mod_p1600 __attribute__((weak));
extern const xmod xv_mod_p1600x2 __attribute__((weak));
extern const xmod xv_mod_p1600x4 __attribute__((weak));
extern const xmod xv_mod_p1600x8 __attribute__((weak));
extern const xmod xv_mod_xoo __attribute__((weak));
extern const xmod xv_mod_xoox4 __attribute__((weak));
extern const xmod xv_mod_xoox8 __attribute__((weak));
extern const xmod xv_mod_xoox16 __attribute__((weak));
extern const xmod xv_mod_fips __attribute__((weak));
extern const xmod xv_mod_sponge __attribute__((weak));
extern const xmod xv_mod_hash __attribute__((weak));
extern const xmod xv_mod_turbo __attribute__((weak));
extern const xmod xv_mod_cshake128 __attribute__((weak));
extern const xmod xv_mod_cshake256 __attribute__((weak));
extern const xmod xv_mod_kmac128 __attribute__((weak));
extern const xmod xv_mod_kmac256 __attribute__((weak));
extern const xmod xv_mod_tuple128 __attribute__((weak));
extern const xmod xv_mod_tuple256 __attribute__((weak));
extern const xmod xv_mod_para128 __attribute__((weak));
extern const xmod xv_mod_para256 __attribute__((weak));
extern const xmod xv_mod_k12 __attribute__((weak));
extern const xmod xv_mod_duplex __attribute__((weak));
extern const xmod xv_mod_prg __attribute__((weak));
extern const xmod xv_mod_kra __attribute__((weak));
extern const xmod xv_mod_krasane __attribute__((weak));
extern const xmod xv_mod_krasanse __attribute__((weak));
extern const xmod xv_mod_krawbc __attribute__((weak));
extern const xmod xv_mod_xff __attribute__((weak));
extern const xmod xv_mod_xffsane __attribute__((weak));
extern const xmod xv_mod_xffsanse __attribute__((weak));
extern const xmod xv_mod_xffwbc __attribute__((weak));
extern const xmod xv_mod_xdk __attribute__((weak));
extern const xmod xv_mod_safips __attribute__((weak));
extern const xmod xv_mod_sakeccak __attribute__((weak));
extern const xmod xv_mod_sak12 __attribute__((weak));
extern const xmod xv_mod_doc __attribute__((weak));
static const xmod *const all_mods[] = {
    &xv_mod_p1600,
    &xv_mod_p1600x2,
    &xv_mod_p1600x4,
    &xv_mod_p1600x8,
    &xv_mod_xoo,
    &xv_mod_xoox4,
    &xv_mod_xoox8,
    &xv_mod_xoox16,
    &xv_mod_fips,
    &xv_mod_sponge,
    &xv_mod_hash,
    &xv_mod_turbo,
    &xv_mod_cshake128,
    &xv_mod_cshake256,
    &xv_mod_kmac128,
    &xv_mod_kmac256,
    &xv_mod_tuple128,
    &xv_mod_tuple256,
    &xv_mod_para128,
    &xv_mod_para256,
    &xv_mod_k12,
    &xv_mod_duplex,
    &xv_mod_prg,
    &xv_mod_kra,
    &xv_mod_krasane,
    &xv_mod_krasanse,
    &xv_mod_krawbc,
    &xv_mod_xff,
    &xv_mod_xffsane,
    &xv_mod_xffsanse,
    &xv_mod_xffwbc,
    &xv_mod_xdk,
    &xv_mod_safips,
    &xv_mod_sakeccak,
    &xv_mod_sak12,
    &xv_mod_doc,
};
static const xmod *mods[M_COUNT];

typedef struct { unsigned char *p; size_t n, cap; } obuf;
static void put(obuf *o, const void *p, size_t n)
{
    if (o->n + n > o->cap) { o->cap = (o->n + n) * 2 + 4096; o->p = realloc(o->p, o->cap); if (!o->p) die("oom"); }
    memcpy(o->p + o->n, p, n); o->n += n;
}

static void onsig(int s)
{
    /* a crash inside the library: say so and stop; the driver knows which operation was next */
    unsigned char r[9] = { ST_CRASH, 0, 0, 0, 0, 0, 0, 0, 0 };
    (void)r;
    static const char m[] = "executor: crashed on a signal\n";
    (void)!write(2, m, sizeof m - 1);
    signal(s, SIG_DFL);
    _exit(100 + s);
}

/* the protocol is little-endian */
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
#define LE32(v) __builtin_bswap32(v)
#define LE64(v) __builtin_bswap64(v)
#else
#define LE32(v) (v)
#define LE64(v) (v)
#endif
static const unsigned char *u32(const unsigned char *p, uint32_t *v) { memcpy(v, p, 4); *v = LE32(*v); return p + 4; }
static const unsigned char *u64(const unsigned char *p, uint64_t *v) { memcpy(v, p, 8); *v = LE64(*v); return p + 8; }

/* runs one case, appends the results to o; returns nothing */
static void run_case(xctx *c, const unsigned char *p, size_t n, obuf *o)
{
    const unsigned char *e = p + n; int off = 0;
    while (p < e) {
        xop x; uint32_t v, k, fill; unsigned char st = ST_OK; const unsigned char *src[MAXB]; int64_t ret; unsigned m;
        memset(&x, 0, sizeof x);
        p = u32(p, &v); x.op = v;
        p = u32(p, &v); x.slot = v & 255; x.slot2 = (v >> 8) & 255; fill = (v >> 16) & 255;
        p = u32(p, &v); x.flags = v;
        p = u32(p, &v); x.ni = v & 255; x.nb = (v >> 8) & 255; x.no = (v >> 16) & 255;
        if (x.ni > MAXI || x.nb > MAXB || x.no > MAXB || x.slot >= NSLOT || x.slot2 >= NSLOT) die("bad record");
        for (k = 0; k < x.ni; k++) p = u64(p, &x.i[k]);
        for (k = 0; k < x.nb; k++) {
            p = u32(p, &v);
            x.in[k].n = v; src[k] = p;
            x.in[k].p = place(c, k, v, x.flags & FL_START, (x.flags >> (FL_MIS_SHIFT + 3 * k)) & 7);
            can_set(&c->ar[k], x.in[k].p, v);
            memcpy(x.in[k].p, p, v);
            p += v;
        }
        for (k = 0; k < x.no; k++) {
            p = u32(p, &v);
            x.out[k].n = v;
            if (k == 0 && (x.flags & FL_INPLACE)) {
                x.out[0].p = x.in[0].p;
                continue;
            }
            x.out[k].p = place(c, MAXB + k, v, x.flags & FL_START, (x.flags >> (FL_MIS_SHIFT + 3 * (x.nb + k))) & 7);
            can_set(&c->ar[MAXB + k], x.out[k].p, v);
            memset(x.out[k].p, (int)fill, v);
        }
        m = x.op / 64; x.sub = x.op % 64;
        dirty_stack((unsigned char)(fill * 7 + 1));
        if (m >= M_COUNT || !mods[m] || off) { st = ST_UNSUPPORTED; off = 1; }        /* nor is what follows */
        else {
            const xmod *md = mods[m];
            unsigned char *ip = NULL;
            xop y = x;
            if (md->size) ip = xv_inst(c, m, x.slot, md->size, md->align);
            if (x.sub == S_CLONE) { memcpy(xv_inst(c, m, x.slot2, md->size, md->align), ip, md->size); }
            else if (x.sub == S_SCRUB) { memset(ip, (int)x.i[0], md->size); POISON(ip, md->size); }
            else {
                unsigned char *nz = NULL;
                if ((x.flags & FL_CONSTI) && ip) {
                    if (c->snapn < md->size) { c->snap = realloc(c->snap, md->size); c->snapn = md->size; }
                    memcpy(c->snap, ip, md->size);
                    WIPED(c->snap, md->size);
                }
                if (x.flags & FL_NULLZERO) {
                    for (k = 0; k < x.nb; k++) if (!y.in[k].n) y.in[k].p = nz;
                    for (k = 0; k < x.no; k++) if (!y.out[k].n) y.out[k].p = nz;
                }
                if (md->fn(c, &y)) { st = ST_UNSUPPORTED; off = 1; }
                x.ret = y.ret;
                if (st == ST_OK) {
                    if ((x.flags & FL_CONSTI) && ip && differ(c->snap, ip, md->size)) st = ST_INSTMODIFIED;
                    if (ip) for (k = 1; k <= CAN; k++) if (ip[-(ptrdiff_t)k] != 0xC3) st = ST_INSTCANARY;
                    if (ip) { const unsigned char *e = c->inst[m][x.slot].mem + c->inst[m][x.slot].map, *q = ip + md->size; for (; q < e; q++) if (*q != 0xC4) st = ST_INSTCANARY; }
                    for (k = 0; k < x.nb; k++) {
                        if (k == 0 && (x.flags & FL_INPLACE)) { if (can_bad(&c->ar[0], x.in[0].p, x.in[0].n)) st = ST_OUTCANARY; continue; }
                        if ((x.in[k].n && memcmp(x.in[k].p, src[k], x.in[k].n)) || can_bad(&c->ar[k], x.in[k].p, x.in[k].n)) st = ST_INMODIFIED;
                    }
                    for (k = 0; k < x.no; k++) {
                        if (k == 0 && (x.flags & FL_INPLACE)) continue;
                        if (can_bad(&c->ar[MAXB + k], x.out[k].p, x.out[k].n)) st = ST_OUTCANARY;
                    }
                }
            }
        }
#ifdef XV_MSAN
        for (k = 0; k < x.no; k++) { if (st == ST_OK && x.out[k].n && __msan_test_shadow(x.out[k].p, x.out[k].n) >= 0) st = ST_UNINIT; WIPED(x.out[k].p, x.out[k].n); }
        WIPED(&x.ret, sizeof x.ret);
#endif
        put(o, &st, 1);
        ret = (int64_t)LE64((uint64_t)x.ret); put(o, &ret, 8);
        for (k = 0; k < x.no; k++) put(o, x.out[k].p, x.out[k].n);
    }
}

static unsigned char *rdmsg(uint32_t *n, unsigned char **buf, size_t *cap)
{
    if (!rd(n, 4)) return NULL;
    *n = LE32(*n);
    if (*cap < *n) { *cap = *n * 2; *buf = realloc(*buf, *cap); if (!*buf) die("oom"); }
    if (!rd(*buf, *n)) return NULL;
    return *buf;
}

#ifdef XV_THREADS
typedef struct { xctx *c; unsigned char *p; uint32_t n; obuf o; pthread_barrier_t *b; } job;
static void *jobmain(void *a)
{
    job *j = a;
    pthread_barrier_wait(j->b);
    run_case(j->c, j->p, j->n, &j->o);
    return NULL;
}
#define MAXT 16
#endif

int main(int argc, char **argv)
{
    unsigned k;
    uint32_t magic = LE32(0x584B4350);
    unsigned char caps[M_COUNT];
    (void)argc; (void)argv;
#ifndef XV_ASAN
    { static char alt[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
      sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGFPE, &sa, NULL); }
#else
    (void)onsig;
#endif
    memset(caps, 0, sizeof caps);
    for (k = 0; k < sizeof all_mods / sizeof *all_mods; k++) if (all_mods[k]) { mods[all_mods[k]->module] = all_mods[k]; caps[all_mods[k]->module] = 1; }
    wr(&magic, 4);
    { uint32_t n = LE32(M_COUNT); wr(&n, 4); }
    wr(caps, sizeof caps);
#ifndef XV_THREADS
    {
        xctx *c = calloc(1, sizeof *c);
        unsigned char *buf = NULL; size_t cap = 0; uint32_t n;
        obuf o; memset(&o, 0, sizeof o);
        while (rdmsg(&n, &buf, &cap)) {
            uint32_t on;
            o.n = 0;
            run_case(c, buf, n, &o);
            on = LE32((uint32_t)o.n);
            wr(&on, 4); wr(o.p, o.n);
        }
    }
#else
    {
        /* message: u32 count, then count cases; all of them run concurrently, each in its own thread and context */
        static xctx *cs[MAXT];
        uint32_t cnt, on;
        job js[MAXT];
        memset(js, 0, sizeof js);
        for (k = 0; k < MAXT; k++) cs[k] = calloc(1, sizeof(xctx));
        while (rd(&cnt, 4)) {
            pthread_t th[MAXT]; pthread_barrier_t b;
            if (cnt > MAXT) die("count");
            pthread_barrier_init(&b, NULL, cnt);
            for (k = 0; k < cnt; k++) {
                if (!rd(&js[k].n, 4)) _exit(0);
                js[k].p = realloc(js[k].p, js[k].n + 1);
                if (!rd(js[k].p, js[k].n)) _exit(0);
                js[k].c = cs[k]; js[k].b = &b; js[k].o.n = 0;
            }
            for (k = 0; k < cnt; k++) if (pthread_create(&th[k], NULL, jobmain, &js[k])) die("thread");
            for (k = 0; k < cnt; k++) pthread_join(th[k], NULL);
            pthread_barrier_destroy(&b);
            for (k = 0; k < cnt; k++) { on = (uint32_t)js[k].o.n; wr(&on, 4); wr(js[k].o.p, on); }
        }
    }
#endif
    return 0;
}
