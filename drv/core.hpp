// Driver core: choice-sequence decoding, cases, executor processes, checking.
#pragma once
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <unordered_set>
#include "model.hpp"
extern "C" {
#include "../exec/ops.h"
}
using model::Bytes; using model::Bits;

// ---------------------------------------------------------------- choices
struct Ch {
    const std::vector<uint32_t> &v; size_t i = 0;
    size_t vast = 0; unsigned vastLeft = 0;         // in a few cases some lengths are far above the usual maximum
    explicit Ch(const std::vector<uint32_t> &x) : v(x) {}
    // in a few cases the history is long: its first choices are drawn, and the others come from a seed among them
    unsigned cap = 0; uint32_t seed = 0, stick = 0; size_t ext = 0; bool stuck = false;
    static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint32_t next() { return i < v.size() ? v[i++] : cap ? (uint32_t)mix((uint64_t)seed << 32 | ext++) : 0; }
    bool more() const { return i < v.size() || cap; }
    unsigned lim(unsigned n) const { return cap ? cap : n; }                // number of steps
    // one of n kinds of steps, the last two of which are to start afresh or to copy; in long histories most are of the same kind as the one before
    uint32_t act(uint32_t n)
    {
        if (!cap) return below(n);
        if (!stuck || below(60) == 59) { stuck = true; stick = below(n - 2); }
        return below(60) == 59 ? below(n) : stick;
    }
    uint32_t below(uint32_t n) { return n ? next() % n : 0; }                // 0 is the simplest value
    uint32_t range(uint32_t a, uint32_t b) { return a + below(b - a + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }   // false when exhausted
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below((uint32_t)l.size())); }
    template <class T> T pickv(const std::vector<T> &l) { return l[below((uint32_t)l.size())]; }
};
inline uint64_t mix64(uint64_t z) { z += 0x9E3779B97F4A7C15ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
inline Bytes prng(uint64_t seed, size_t n) { Bytes r(n); uint64_t x = seed; for (size_t i = 0; i < n; i += 8) { uint64_t v = mix64(x++); for (size_t j = 0; j < 8 && i + j < n; j++) r[i + j] = (uint8_t)(v >> (8 * j)); } return r; }
// bytes of a chosen length: zeroes, ones, one bit, a counter, or random
inline Bytes data(Ch &c, size_t n)
{
    uint32_t m = c.below(8), s = c.next();
    Bytes r(n, 0);
    switch (m) {
    case 0: return r;
    case 1: std::fill(r.begin(), r.end(), 0xFF); return r;
    case 2: if (n) r[s / 8 % n] = (uint8_t)(1u << (s % 8)); return r;
    case 3: for (size_t i = 0; i < n; i++) r[i] = (uint8_t)(s + i); return r;
    default: return prng(((uint64_t)m << 32) | s, n);
    }
}
inline Bits dataBits(Ch &c, size_t n) { return Bits(data(c, (n + 7) / 8), n); }
// length near a multiple of one of the given block sizes, or small, or anything up to max
inline size_t lenClass(Ch &c, std::initializer_list<size_t> blocks, size_t max)
{
    size_t r;
    if (c.vastLeft && c.below(3) == 2) { c.vastLeft--; static const int dl[] = { 0, -1, 1, 8, -8, 40, -100, 300 }; return c.vast * (1 + c.below(2)) + dl[c.below(8)]; }
    if (c.cap && c.below(8)) return c.below(c.below(2) ? 4 : 40);
    switch (c.below(8)) {
    case 0: r = c.below(4); break;
    case 1: r = c.below(64); break;
    case 2: case 3: case 4: case 5: {
        size_t b = *(blocks.begin() + c.below((uint32_t)blocks.size())); if (!b) b = 8;
        size_t k = c.below(4) ? c.below(4) : c.below((uint32_t)(max / b + 1));
        long d = (long)c.below(8); static const long dl[8] = { 0, -1, 1, -2, 2, -8, 8, 3 };
        long v = (long)(k * b) + dl[d]; r = v < 0 ? 0 : (size_t)v; break; }
    case 6: r = c.below((uint32_t)(max / 4 + 1)); break;
    default: r = c.below((uint32_t)max + 1);
    }
    return std::min(r, max);
}

// ---------------------------------------------------------------- cases
struct Out { uint32_t size; Bytes exp; std::vector<uint8_t> care; bool cmp; };
struct Op {
    unsigned op = 0; uint8_t slot = 0, slot2 = 0, fill = 0xA5; uint32_t flags = 0; std::vector<uint64_t> i; std::vector<Bytes> in; std::vector<Out> out;
    bool checkRet = false; int64_t ret = 0; std::string note;
    Op &I(uint64_t v) { i.push_back(v); return *this; }
    Op &in_(const Bytes &b) { in.push_back(b); return *this; }
    Op &exp(const Bytes &b) { out.push_back(Out{ (uint32_t)b.size(), b, {}, true }); return *this; }
    Op &keep(size_t n) { out.push_back(Out{ (uint32_t)n, Bytes(n, fill), {}, true }); return *this; }      // must stay as it was
    Op &any(size_t n) { out.push_back(Out{ (uint32_t)n, {}, {}, false }); return *this; }
    Op &ret_(int64_t r) { checkRet = true; ret = r; return *this; }
    Op &note_(const std::string &s) { note = s; return *this; }
};
struct Case {
    std::vector<Op> ops; bool nontrivial = false; bool only64 = false; bool noqemu = false; std::map<std::string, int> labels; std::string title;
    bool safety = false;             // judged for memory safety only
    std::vector<Case> base;          // what has to work for this case to say anything about its property
    std::vector<Case> lanes;         // for several threads: what each of them does (ops is then their concatenation)
    Op &add(unsigned m, unsigned s, unsigned slot = 0) { ops.emplace_back(); Op &o = ops.back(); o.op = OPC(m, s); o.slot = (uint8_t)slot; return o; }
    void label(const std::string &s) { labels[s] = 1; }
};
// lengths that do not fit in 16 bits, counted in bits or in bytes, and some that do not fit in 24
inline void lengthen(Ch &c, Case &k)
{
    unsigned n = c.below(900); c.seed = c.next(); c.cap = 30 + n; if (c.cap > 100) k.noqemu = true; k.label(n > 300 ? "more-than-330-steps" : "more-than-30-steps");
}
inline void grow(Ch &c, Case &k, unsigned odds = 120)
{
    unsigned g = c.below(odds); if (g == odds - 2) lengthen(c, k); if (g != odds - 1) return;
    unsigned w = c.below(24); c.vast = w < 8 ? 8192 : w < 23 ? 65536 : 1u << 21; c.vastLeft = w < 23 ? 3 : 1; if (w == 23) k.noqemu = true; k.label("lengths-around-" + std::to_string(c.vast));
}
// buffer placement: some at the front guard page with a chosen misalignment
inline void place(Ch &c, Op &o)
{
    uint32_t r = c.next();
    o.fill = (uint8_t)(0xA5 ^ (r >> 24)); 
    if (r & 1) { o.flags |= FL_START; o.flags |= ((r >> 1) & 0xFFFFF) << FL_MIS_SHIFT; }
}
inline const char *modName(unsigned m)
{
    static const char *n[] = { "Keccak-p[1600]", "Keccak-p[1600]x2", "Keccak-p[1600]x4", "Keccak-p[1600]x8", "Xoodoo", "Xoodoox4", "Xoodoox8", "Xoodoox16", "FIPS202", "Sponge", "Hash", "TurboSHAKE",
        "cSHAKE128", "cSHAKE256", "KMAC128", "KMAC256", "TupleHash128", "TupleHash256", "ParallelHash128", "ParallelHash256", "K12", "Duplex", "PRG", "Kravatte", "Kravatte-SANE", "Kravatte-SANSE", "Kravatte-WBC",
        "Xoofff", "Xoofff-SANE", "Xoofff-SANSE", "Xoofff-WBC", "Xoodyak", "Standalone-FIPS202", "Standalone-Keccak", "Standalone-K12", "KeccakSum.py", "KeccakSum", "C++-model" };
    return m < M_COUNT ? n[m] : "?";
}
inline std::string subName(unsigned op)
{
    unsigned m = op / 64, s = op % 64;
    if (s == S_CLONE) return "copy-instance"; if (s == S_SCRUB) return "scrub-instance";
    static const char *snp[] = { "Initialize", "AddByte", "AddBytes", "OverwriteBytes", "OverwriteWithZeroes", "Permute", "ExtractBytes", "ExtractAndAddBytes", "FastLoop24", "FastLoop12", "AddLanesAll", "OverwriteLanesAll", "ExtractLanesAll", "ExtractAndAddLanesAll", "FarfalleCompress", "FarfalleExpand", "AbsorbKeyedFullBlocks", "AbsorbHashFullBlocks", "SqueezeKeyedFullBlocks", "SqueezeHashFullBlocks", "EncryptFullBlocks", "DecryptFullBlocks", "KT128ProcessLeaves", "KT256ProcessLeaves" };
    static const char *spg[] = { "OneShot", "Initialize", "Update", "LastBits", "Final", "Squeeze", "OneShot2" };
    static const char *dup[] = { "Initialize", "Duplexing", "FeedPartialInput", "FeedZeroes", "OverwritePartialInput", "OverwriteWithZeroes", "GetFurtherOutput", "GetFurtherOutputAndAdd" };
    static const char *prg_[] = { "Initialize", "Feed", "Fetch", "Forget" };
    static const char *ff[] = { "MaskDerivation", "Compress", "Expand", "Compress+Expand", "Initialize", "Wrap", "Unwrap", "Encipher", "Decipher", "AE-Encipher", "AE-Decipher" };
    static const char *xd[] = { "Initialize", "Absorb", "Encrypt", "Decrypt", "Squeeze", "SqueezeKey", "Ratchet" };
    if (m <= M_XOOX16) return s < 24 ? snp[s] : "?";
    if (m <= M_K12) return s < 7 ? spg[s] : "?";
    if (m == M_DUPLEX) return s < 8 ? dup[s] : "?";
    if (m == M_PRG) return s < 4 ? prg_[s] : "?";
    static const char *doc[] = { "query", "KeccakP.apply", "KeccakP.step", "KeccakP.getRoundConstant", "KeccakP.index", "Xoodoo.step", "Xoodoo.permute", "Xoodoo.position", "XoodooState.bits", "XoodooLanes" };
    if (m == M_DOC) return s >= S_DQUERY ? s < S_DQUERY + 10 ? doc[s - S_DQUERY] : "?" : s >= P_ ? std::string("Pl.") + snp[s - P_] : snp[s];
    if (m > M_XDK) return "run";
    if (m < M_XDK) return s < 11 ? ff[s] : "?";
    return s < 7 ? xd[s] : "?";
}
inline std::string hex(const uint8_t *p, size_t n, size_t max = 48) { std::string r; char b[4]; for (size_t i = 0; i < n && i < max; i++) { snprintf(b, 4, "%02x", p[i]); r += b; } if (n > max) r += "...(" + std::to_string(n) + "B)"; return r; }
inline std::string opText(const Op &o, bool full = false)
{
    std::string r = std::string(modName(o.op / 64)) + "." + subName(o.op) + "[" + std::to_string(o.slot) + (o.op % 64 == S_CLONE ? "->" + std::to_string(o.slot2) : "") + "](";
    bool f = true;
    for (auto v : o.i) { if (!f) r += ","; f = false; r += std::to_string(v); }
    for (auto &b : o.in) { if (!f) r += ","; f = false; r += full ? "in:" + hex(b.data(), b.size(), 4096) : std::to_string(b.size()) + "B"; }
    for (auto &b : o.out) { if (!f) r += ","; f = false; r += "->" + std::to_string(b.size) + "B"; if (full && b.cmp) r += ":" + hex(b.exp.data(), b.exp.size(), 256); }
    r += ")"; if (o.checkRet) r += "=" + std::to_string(o.ret);
    if (o.flags & FL_START) r += "{start}"; if (o.flags & FL_INPLACE) r += "{inplace}"; if (o.flags & FL_CONSTI) r += "{const}";
    if (o.note.size()) r += " #" + o.note;
    return r;
}
inline void put32(Bytes &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back((uint8_t)(v >> (8 * i))); }
inline void put64(Bytes &b, uint64_t v) { for (int i = 0; i < 8; i++) b.push_back((uint8_t)(v >> (8 * i))); }
inline Bytes serialize(const Case &c, int fillxor = 0)
{
    Bytes b; put32(b, 0);
    if (c.lanes.size()) { b.clear(); put32(b, (uint32_t)c.lanes.size()); for (auto &l : c.lanes) { Bytes x = serialize(l, fillxor); b.insert(b.end(), x.begin(), x.end()); } return b; }
    for (auto &o : c.ops) {
        put32(b, o.op); put32(b, o.slot | o.slot2 << 8 | (uint32_t)(uint8_t)(o.fill ^ fillxor) << 16); put32(b, o.flags); put32(b, (uint32_t)(o.i.size() | o.in.size() << 8 | o.out.size() << 16));
        for (auto v : o.i) put64(b, v);
        for (auto &x : o.in) { put32(b, (uint32_t)x.size()); b.insert(b.end(), x.begin(), x.end()); }
        for (auto &x : o.out) put32(b, x.size);
    }
    uint32_t n = (uint32_t)b.size() - 4; memcpy(b.data(), &n, 4);
    return b;
}
inline uint64_t hashBytes(const Bytes &b) { uint64_t h = 1469598103934665603ULL; for (uint8_t v : b) { h ^= v; h *= 1099511628211ULL; } return h; }

// ---------------------------------------------------------------- executors
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Executor {
    std::string name, path; bool qemu = false, is32 = false, threads = false; pid_t pid = -1; int wfd = -1, rfd = -1; std::vector<uint8_t> caps; unsigned sent = 0;
    std::vector<std::shared_ptr<Bytes>> log; std::string err; double cap = 40;
    unsigned long ran = 0, skipped = 0; bool dead = false;
    bool start()
    {
        int a[2], b[2];
        if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) return false;
        pid = fork();
        if (pid == 0) {
            dup2(a[0], 0); dup2(b[1], 1);
            int e = open(("/dev/null"), O_WRONLY); if (getenv("XV_EXECERR")) e = open(getenv("XV_EXECERR"), O_WRONLY | O_CREAT | O_APPEND, 0600); dup2(e, 2);
            struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
            setenv("ASAN_OPTIONS", "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_segv=1", 1);
            setenv("MSAN_OPTIONS", "exitcode=99", 1); setenv("UBSAN_OPTIONS", "exitcode=99:print_stacktrace=1", 1);
            setenv("TSAN_OPTIONS", "exitcode=99:halt_on_error=1:report_signal_unsafe=0", 1);
            const char *q = nullptr;
            if (name.find("@armv") != std::string::npos || name.find("@thumb") != std::string::npos) q = "qemu-arm-static";
            if (name.find("@aarch64") != std::string::npos) q = "qemu-aarch64-static";
            if (name.find("@be32") != std::string::npos) q = "qemu-armeb-static";
            if (name.find("@be64") != std::string::npos) q = "qemu-aarch64_be-static";
            if (q) execlp(q, q, path.c_str(), (char *)0); else execl(path.c_str(), path.c_str(), (char *)0);
            _exit(127);
        }
        close(a[0]); close(b[1]); wfd = a[1]; rfd = b[0];
        fcntl(wfd, F_SETPIPE_SZ, 1 << 20); fcntl(rfd, F_SETPIPE_SZ, 1 << 20);
        uint32_t h[2];
        if (!rd(h, 8) || h[0] != 0x584B4350 || h[1] != M_COUNT) { stop(); return false; }
        caps.resize(M_COUNT);
        if (!rd(caps.data(), M_COUNT)) { stop(); return false; }
        sent = 0; log.clear();
        return true;
    }
    void stop() { if (wfd >= 0) close(wfd); if (rfd >= 0) close(rfd); wfd = rfd = -1; if (pid > 0) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); } pid = -1; }
    std::string reap() { int st = 0; std::string r = "no answer"; if (pid > 0) { for (int i = 0; i < 200; i++) { pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) { pid = -1; if (WIFEXITED(st)) { int e = WEXITSTATUS(st); r = e == 99 ? "sanitizer report" : e > 100 && e < 140 ? std::string("crash: ") + strsignal(e - 100) : "exit status " + std::to_string(e); } else if (WIFSIGNALED(st)) r = std::string("killed by signal: ") + strsignal(WTERMSIG(st)); break; } usleep(5000); } } stop(); return r; }
    bool rd(void *p, size_t n)
    {
        char *b = (char *)p; double t0 = now();
        while (n) {
            struct pollfd f = { rfd, POLLIN, 0 };
            int k = poll(&f, 1, 1000);
            if (k < 0 && errno != EINTR) return false;
            if (k <= 0) { if (now() - t0 > cap) { err = "timeout"; return false; } continue; }
            ssize_t r = read(rfd, b, n);
            if (r <= 0) { err = "eof"; return false; }
            b += r; n -= r;
        }
        return true;
    }
    bool wr(const void *p, size_t n) { const char *b = (const char *)p; while (n) { ssize_t r = write(wfd, b, n); if (r < 0) { if (errno == EINTR) continue; err = "eof"; return false; } b += r; n -= r; } return true; }
    bool send(const std::shared_ptr<Bytes> &mp) { const Bytes &m = *mp; if (pid < 0 && !start()) { err = "start"; return false; } err = ""; sent++; log.push_back(mp); return wr(m.data(), m.size()); }
    bool recv(Bytes &r) { uint32_t n; if (!rd(&n, 4)) return false; r.resize(n); return n == 0 || rd(r.data(), n); }
    bool can(const Case &c) const { if (threads != (c.lanes.size() > 0)) return false; for (auto &o : c.ops) if (!caps[o.op / 64]) return false; return true; }
};

// compares a reply with the expectations; "" = fine
inline std::string judge(const Case &c, const Bytes &r, bool *unsupported, bool safety = false)
{
    static const char *st[] = { "", "unsupported", "wrote outside the declared output", "modified a read-only argument", "modified an instance passed as const", "wrote outside the instance", "left uninitialised data in an output" };
    size_t p = 0;
    for (size_t k = 0; k < c.ops.size(); k++) {
        const Op &o = c.ops[k]; std::string where = "op " + std::to_string(k) + " " + opText(o) + ": ";
        if (p + 9 > r.size()) return where + "short reply";
        uint8_t s = r[p]; int64_t ret; memcpy(&ret, &r[p + 1], 8); p += 9;
        if (s == ST_UNSUPPORTED) { *unsupported = true; return ""; }
        if (s && !(safety && s == ST_INSTMODIFIED)) return where + (s < 7 ? st[s] : "bad status");
        if (safety) { for (auto &x : o.out) p += x.size; continue; }
        if (o.checkRet && ret != o.ret) return where + "returned " + std::to_string(ret) + ", expected " + std::to_string(o.ret);
        for (size_t j = 0; j < o.out.size(); j++) {
            const Out &x = o.out[j];
            if (p + x.size > r.size()) return where + "short reply";
            if (x.cmp && x.exp.size() == x.size && memcmp(&r[0] + p, x.exp.data(), x.size)) {
                bool bad = false; size_t d = 0;
                for (size_t q = 0; q < x.size; q++) if (r[p + q] != x.exp[q] && (x.care.empty() || x.care[q])) { bad = true; d = q; break; }
                if (bad) return where + "output " + std::to_string(j) + " differs at byte " + std::to_string(d) + ": got " + hex(&r[p + d], x.size - d, 16) + " expected " + hex(&x.exp[d], x.size - d, 16);
            }
            p += x.size;
        }
    }
    return "";
}
inline std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r + "\""; }

typedef void (*Gen)(Ch &, Case &);
struct Prop { const char *id; Gen gen; unsigned maxChoices; };
extern const std::vector<Prop> &allProps();
