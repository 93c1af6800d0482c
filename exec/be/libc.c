/* The few C library functions the executors and XKCP need, for big-endian ARM processors under qemu: there is no big-endian
   C library on this machine. */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>

#ifdef __aarch64__
enum { N_READ = 63, N_WRITE = 64, N_EXIT = 94, N_MUNMAP = 215, N_MMAP = 222, N_MPROTECT = 226 };
static long sys(long n, long a, long b, long c, long d, long e, long f)
{
    register long x8 __asm__("x8") = n, x0 __asm__("x0") = a, x1 __asm__("x1") = b, x2 __asm__("x2") = c, x3 __asm__("x3") = d, x4 __asm__("x4") = e, x5 __asm__("x5") = f;
    __asm__ volatile("svc 0" : "+r"(x0) : "r"(x8), "r"(x1), "r"(x2), "r"(x3), "r"(x4), "r"(x5) : "memory", "cc"); return x0;
}
#else
enum { N_READ = 3, N_WRITE = 4, N_EXIT = 248, N_MUNMAP = 91, N_MMAP = 192, N_MPROTECT = 125 };
static long sys(long n, long a, long b, long c, long d, long e, long f)
{
    register long r7 __asm__("r7") = n, r0 __asm__("r0") = a, r1 __asm__("r1") = b, r2 __asm__("r2") = c, r3 __asm__("r3") = d, r4 __asm__("r4") = e, r5 __asm__("r5") = f;
    __asm__ volatile("svc 0" : "+r"(r0) : "r"(r7), "r"(r1), "r"(r2), "r"(r3), "r"(r4), "r"(r5) : "memory", "cc"); return r0;
}
#endif
static int err; int *__errno_location(void) { return &err; }
static long ok(long r) { if (r < 0 && r > -4096) { err = (int)-r; return -1; } return r; }
ssize_t read(int f, void *p, size_t n) { return ok(sys(N_READ, f, (long)p, (long)n, 0, 0, 0)); }
ssize_t write(int f, const void *p, size_t n) { return ok(sys(N_WRITE, f, (long)p, (long)n, 0, 0, 0)); }
void _exit(int s) { for (;;) sys(N_EXIT, s, 0, 0, 0, 0, 0); }
void exit(int s) { _exit(s); }
void abort(void) { _exit(134); }
/* the file is -1 and the offset 0 always, so the offset's unit does not matter */
void *mmap(void *p, size_t n, int pr, int fl, int fd, off_t off) { return (void *)ok(sys(N_MMAP, (long)p, (long)n, pr, fl, fd, 0)); }
int munmap(void *p, size_t n) { return (int)ok(sys(N_MUNMAP, (long)p, (long)n, 0, 0, 0, 0)); }
int mprotect(void *p, size_t n, int pr) { return (int)ok(sys(N_MPROTECT, (long)p, (long)n, pr, 0, 0, 0)); }

void *memcpy(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; while (n--) { *a++ = *b++; __asm__ volatile("" ::: "memory"); } return d; }
void *memmove(void *d, const void *s, size_t n)
{
    unsigned char *a = d; const unsigned char *b = s;
    if (a < b) return memcpy(d, s, n);
    while (n--) { a[n] = b[n]; __asm__ volatile("" ::: "memory"); }
    return d;
}
void *memset(void *d, int v, size_t n) { unsigned char *a = d; while (n--) { *a++ = (unsigned char)v; __asm__ volatile("" ::: "memory"); } return d; }
int memcmp(const void *p, const void *q, size_t n) { const unsigned char *a = p, *b = q; for (; n--; a++, b++) if (*a != *b) return *a - *b; return 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) { n++; __asm__ volatile("" ::: "memory"); } return n; }

void *malloc(size_t n)
{
    size_t c = (n + 16 + 65535) / 65536 * 65536; size_t *m = mmap(0, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return 0;
    m[0] = c; m[1] = n; return (unsigned char *)m + 16;
}
void free(void *p) { if (p) { size_t *m = (size_t *)((unsigned char *)p - 16); munmap(m, m[0]); } }
void *calloc(size_t a, size_t b) { return malloc(a * b); }
void *realloc(void *p, size_t n)
{
    void *q = malloc(n);
    if (p && q) { size_t o = ((size_t *)((unsigned char *)p - 16))[1]; memcpy(q, p, o < n ? o : n); free(p); }
    return q;
}

FILE *stderr, *stdout;
int fprintf(FILE *f, const char *s, ...) { write(2, s, strlen(s)); return 0; }
int printf(const char *s, ...) { write(2, s, strlen(s)); return 0; }
int puts(const char *s) { write(2, s, strlen(s)); return 0; }
size_t fwrite(const void *p, size_t a, size_t b, FILE *f) { write(2, p, a * b); return b; }
int sigaltstack(const stack_t *a, stack_t *b) { return 0; }
int sigaction(int s, const struct sigaction *a, struct sigaction *b) { return 0; }
__sighandler_t signal(int s, __sighandler_t h) { return 0; }
void __stack_chk_fail(void) { _exit(135); } void *__stack_chk_guard;
void __assert_fail(const char *a, const char *b, unsigned c, const char *d) { write(2, a, strlen(a)); _exit(136); }

#ifdef __arm__
/* what the compiler calls on 32 bits */
uint64_t udiv(uint64_t a, uint64_t b, uint64_t *r) __asm__("xv_udiv");
uint64_t udiv(uint64_t a, uint64_t b, uint64_t *r)
{
    uint64_t q = 0, m = 0; int i;
    for (i = 63; i >= 0; i--) { int top = (int)(m >> 63); m = m << 1 | (a >> i & 1); if (top || m >= b) { m -= b; q |= (uint64_t)1 << i; } }
    *r = m; return q;
}
uint64_t xv_uldivmod(uint64_t a, uint64_t b, uint64_t *r) { return udiv(a, b, r); }
__attribute__((naked)) void __aeabi_uldivmod(void)
{
    __asm__ volatile("push {r4, lr}\n sub sp, sp, #16\n add r4, sp, #8\n str r4, [sp]\n bl xv_uldivmod\n ldrd r2, r3, [sp, #8]\n add sp, sp, #16\n pop {r4, pc}");
}
int raise(int s) { _exit(100 + s); }
#endif
int main(int, char **);
void _start(void) { _exit(main(0, 0)); }
