/* C27: very long inputs and outputs.  A case is one line
       function p0,p1,p2,p3 op:bytes[.bits][/x] op:...
   Both big_xkcp.c (the library) and big_ref.c (the reference) run a case and print a fingerprint of every output.
   Inputs are windows of one small pseudo-random buffer mapped over and over (its length is no power of two). */
#ifndef BIG_H
#define BIG_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
typedef unsigned char u8;
typedef struct { char op; uint64_t n; unsigned bits, x; } bop;      /* n whole bytes and `bits` more bits */
typedef struct { char fn[16]; uint64_t p[4]; int nops; bop o[64]; } bcase;
#define PAGES 521
#define PERIOD ((uint64_t)PAGES * 4096)
static int big_fd = -1;
static u8 big_base[PAGES * 4096];

static void big_fail(const char *what) { printf("harness %s\n", what); fflush(stdout); _exit(77); }
static void big_setup(void)
{
    uint64_t s = 0x9E3779B97F4A7C15ULL; size_t i;
    for (i = 0; i < PERIOD; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; big_base[i] = (u8)(s >> 24); }
    big_fd = memfd_create("in", 0);
    if (big_fd < 0 || write(big_fd, big_base, PERIOD) != (ssize_t)PERIOD) big_fail("memfd");
}
/* read-only window of n bytes plus bits; the unused bits of the last byte are zero */
static u8 *big_in(const bcase *c, int i)
{
    uint64_t n = c->o[i].n, off = (uint64_t)i * 4099 + c->o[i].n % 61; unsigned b = c->o[i].bits;
    if (big_fd < 0) big_setup();
    if (b) while (big_base[(off + n) % PERIOD] >> b) off++;
    uint64_t total = (off + n + 1 + PERIOD - 1) / PERIOD * PERIOD, a;
    if (total > (size_t)-1) big_fail("space");
    u8 *m = mmap(NULL, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) big_fail("space");
    for (a = 0; a < total; a += PERIOD) if (mmap(m + a, PERIOD, PROT_READ, MAP_SHARED | MAP_FIXED, big_fd, 0) == MAP_FAILED) big_fail("map");
    return m + off;
}
static void big_in_done(const bcase *c, int i, u8 *p)
{
    uint64_t n = c->o[i].n, off = (uint64_t)i * 4099 + n % 61; unsigned b = c->o[i].bits;
    if (b) while (big_base[(off + n) % PERIOD] >> b) off++;
    munmap(p - off, (off + n + 1 + PERIOD - 1) / PERIOD * PERIOD);
}
/* room for exactly n bytes before an inaccessible page */
static u8 *big_out(uint64_t n)
{
    uint64_t t = (n + 4095) / 4096 * 4096;
    if (t + 4096 > (size_t)-1) big_fail("space");
    u8 *m = mmap(NULL, t + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) big_fail("memory");
    mprotect(m + t, 4096, PROT_NONE);
#ifdef MADV_HUGEPAGE
    if (t >= 1 << 24) madvise(m, t, MADV_HUGEPAGE);
#endif
    return m + (t - n);
}
static void big_out_done(u8 *p, uint64_t n) { uint64_t t = (n + 4095) / 4096 * 4096; munmap(p - (t - n), t + 4096); }
static uint64_t big_print(const char *what, const u8 *p, uint64_t n)
{
    uint64_t h = 0x1234567 + n, i = 0, w, g[4] = { 1, 2, 3, 4 }; u8 e[16]; int k;
    for (; i + 32 <= n; i += 32) for (k = 0; k < 4; k++) { memcpy(&w, p + i + 8 * k, 8); g[k] = (g[k] ^ w) * 0x9FB21C651E98DF25ULL; g[k] ^= g[k] >> 32; }
    for (k = 0; k < 4; k++) { h = (h ^ g[k]) * 0x9FB21C651E98DF25ULL; h ^= h >> 32; }
    for (; i + 8 <= n; i += 8) { memcpy(&w, p + i, 8); h = (h ^ w) * 0x9FB21C651E98DF25ULL; h ^= h >> 32; }
    for (; i < n; i++) { h = (h ^ p[i]) * 0x9FB21C651E98DF25ULL; h ^= h >> 32; }
    printf("%s %llu bytes %016llx ", what, (unsigned long long)n, (unsigned long long)h);
    memset(e, 0, 16); memcpy(e, p, n < 16 ? n : 16); for (k = 0; k < 16; k++) printf("%02x", e[k]);
    printf("\n"); fflush(stdout);
    return h;
}
static void big_ret(const char *what, int r) { if (r) { printf("%s returns %d\n", what, r); fflush(stdout); } }
static int big_parse(const char *s, bcase *c)
{
    int k = 0; char *e;
    memset(c, 0, sizeof *c);
    while (*s && *s != ' ' && k < 15) c->fn[k++] = *s++;
    if (*s++ != ' ') return 1;
    for (k = 0; k < 4; k++) { c->p[k] = strtoull(s, &e, 10); s = e; if (*s != ',') break; s++; }
    while (*s == ' ') s++;
    while (*s && c->nops < 64) {
        bop *o = &c->o[c->nops++];
        o->op = *s++; if (*s++ != ':') return 1;
        o->n = strtoull(s, &e, 10); s = e;
        if (*s == '.') { o->bits = (unsigned)strtoul(s + 1, &e, 10); s = e; }
        if (*s == '/') { o->x = (unsigned)strtoul(s + 1, &e, 10); s = e; }
        while (*s == ' ' || *s == '\n') s++;
    }
    return 0;
}
static const bop *big_find(const bcase *c, char op) { int i; for (i = 0; i < c->nops; i++) if (c->o[i].op == op) return &c->o[i]; return NULL; }
#define IDX(C_, O_) ((int)((O_) - (C_)->o))
static const u8 big_key[40] = "0123456789abcdefghijklmnopqrstuvwxyz+-*";
static const u8 big_nonce[16] = "twelve bytes\x0b";        /* 100 bits */
#ifndef BIG_NOMAIN
int big_run(const bcase *c, int cheap);
static void big_crash(int s) { char b[] = "signal 00\n"; b[7] = (char)('0' + s / 10); b[8] = (char)('0' + s % 10); fflush(stdout); if (write(1, b, 10)) {} _exit(0); }
int main(int argc, char **argv)
{
    static bcase c; static u8 alt[65536]; stack_t ss; struct sigaction sa; int sig[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, 0 }, i;
    struct rlimit rl = { 0, 0 };
    if (argc < 2 || big_parse(argv[1], &c)) big_fail("arguments");
    setrlimit(RLIMIT_CORE, &rl);
    memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
    memset(&sa, 0, sizeof sa); sa.sa_handler = big_crash; sa.sa_flags = SA_ONSTACK;
    for (i = 0; sig[i]; i++) sigaction(sig[i], &sa, NULL);
    if (big_run(&c, argc > 2)) big_fail("case");
    printf("done\n");
    return 0;
}
#endif
#endif
