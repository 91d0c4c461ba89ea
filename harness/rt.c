/* Run-time side of the harness: natively, symbolic inputs come from a tape.
   The symbolic executor replaces every rsx_ function, getrandom and clock_gettime. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

static uint64_t *tape;
static size_t ntape, pos;
static int loaded, expect_panic;
static FILE *obs;
static uint64_t vary;

static void load(void) {
    if (loaded) return;
    loaded = 1;
    const char *p = getenv("RSX_TAPE");
    if (!p) { fprintf(stderr, "RSX_TAPE is not set\n"); _exit(90); }
    FILE *f = fopen(p, "r");
    if (!f) { perror(p); _exit(90); }
    size_t cap = 64;
    tape = malloc(cap * sizeof *tape);
    unsigned long long v;
    while (fscanf(f, "%llu", &v) == 1) {
        if (ntape == cap) tape = realloc(tape, (cap *= 2) * sizeof *tape);
        tape[ntape++] = v;
    }
    fclose(f);
    /* other inputs of the same kind: choices as on the tape, plain characters varied */
    const char *y = getenv("RSX_VARY");
    if (y) vary = strtoull(y, 0, 10) * 2 + 1;
    const char *o = getenv("RSX_OBS");
    if (o) obs = fopen(o, "w");
}
static uint64_t next(void) {
    load();
    if (pos >= ntape) { fprintf(stderr, "tape exhausted\n"); _exit(91); }
    return tape[pos++];
}
static uint64_t draw(void) {
    vary += 0x9e3779b97f4a7c15;
    uint64_t z = vary;
    z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9;
    z = (z ^ z >> 27) * 0x94d049bb133111eb;
    return (z ^ z >> 31) >> 8;
}
static uint8_t byte(void) {
    uint8_t x = (uint8_t)next();
    if (vary && x < 128) {
        uint64_t r = draw();
        if (r % 3) x = (uint8_t)("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[r / 3 % 64]);
        else x = (uint8_t)(r / 3 % 128);
        tape[pos - 1] = x;
    }
    return x;
}
static void failed(void) {
    if (vary) {
        fprintf(stderr, "TAPE:");
        for (size_t i = 0; i < ntape; i++) fprintf(stderr, " %llu", (unsigned long long)tape[i]);
        fprintf(stderr, "\n");
    }
    fflush(stderr);
    if (obs) fflush(obs);
}
uint8_t rsx_u8(void) { return byte(); }
uint64_t rsx_u64(void) { return next(); }
void rsx_bytes(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = byte(); }
uint32_t rsx_choose(uint32_t n) {
    uint64_t v = next();
    if (v >= n) { fprintf(stderr, "choice out of range\n"); _exit(92); }
    return (uint32_t)v;
}
void rsx_assume(uint8_t c) { if (!c) { fprintf(stderr, "assumption not met\n"); _exit(93); } }
static void dump(const char *t, const uint8_t *p, size_t n) {
    fprintf(stderr, "  %s (%zu bytes): \"", t, n);
    for (size_t i = 0; i < n; i++) {
        if (p[i] >= 32 && p[i] < 127 && p[i] != '\\' && p[i] != '"') fputc(p[i], stderr);
        else fprintf(stderr, "\\x%02x", p[i]);
    }
    fprintf(stderr, "\"\n");
}
void rsx_assert(uint8_t c, uint32_t id) {
    if (!c) { fprintf(stderr, "ASSERTION %u FAILED\n", id); failed(); _exit(77); }
}
void rsx_assert_eq(const uint8_t *a, size_t na, const uint8_t *b, size_t nb, uint32_t id) {
    if (na != nb || memcmp(a, b, na)) {
        fprintf(stderr, "ASSERTION %u FAILED: not equal\n", id);
        dump("got     ", a, na);
        dump("expected", b, nb);
        failed();
        _exit(77);
    }
}
void rsx_expect_panic(uint32_t n) { expect_panic = (int)n; }
/* called from the panic hook */
void rsx_panicked(void) {
    if (obs) fflush(obs);
    if (expect_panic) { fprintf(stderr, "panicked as expected\n"); _exit(0); }
    fprintf(stderr, "UNEXPECTED PANIC\n");
    failed();
    _exit(78);
}
void rsx_observe(const uint8_t *p, size_t n) {
    load();
    if (!obs) return;
    for (size_t i = 0; i < n; i++) fprintf(obs, "%02x", p[i]);
    fputc('\n', obs);
    fflush(obs);
}
void rsx_reach(uint32_t id) { (void)id; }
void rsx_digest_syms(uint32_t a, uint32_t b) { (void)a; (void)b; }
uint64_t rsx_concrete(uint64_t v) { return v; }
uint32_t rsx_native(void) { return 1; }

static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
void rsx_sha1_compress(uint32_t *st, const uint8_t *p, size_t n) {
    for (; n; n--, p += 64) {
        uint32_t w[80];
        for (int i = 0; i < 16; i++)
            w[i] = (uint32_t)p[4*i] << 24 | (uint32_t)p[4*i+1] << 16 | (uint32_t)p[4*i+2] << 8 | p[4*i+3];
        for (int i = 16; i < 80; i++) w[i] = rol(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1);
        uint32_t a = st[0], b = st[1], c = st[2], d = st[3], e = st[4];
        for (int i = 0; i < 80; i++) {
            uint32_t f, k;
            if (i < 20) f = (b & c) | (~b & d), k = 0x5a827999;
            else if (i < 40) f = b ^ c ^ d, k = 0x6ed9eba1;
            else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8f1bbcdc;
            else f = b ^ c ^ d, k = 0xca62c1d6;
            uint32_t t = rol(a, 5) + f + e + k + w[i];
            e = d; d = c; c = rol(b, 30); b = a; a = t;
        }
        st[0] += a; st[1] += b; st[2] += c; st[3] += d; st[4] += e;
    }
}

/* Environment inputs. */
static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
static uint32_t armed, ndrawn, nclock, since;
static int clock_set;
static uint64_t clock_base, clock_step, clock_nsec;
void rsx_set_clock(uint64_t b, uint64_t d, uint64_t n) { clock_set = 1; clock_base = b; clock_step = d; clock_nsec = n; }
static uint8_t drawn[1 << 16];
void rsx_arm_env(uint32_t n) { armed = n; since = ndrawn; }
uint32_t rsx_ndrawn(void) { return ndrawn; }
uint32_t rsx_nclock(void) { return nclock; }
uint8_t rsx_drawn(uint32_t i) {
    if (i >= ndrawn) { fprintf(stderr, "not so many bytes drawn\n"); _exit(94); }
    return drawn[i];
}
ssize_t getrandom(void *p, size_t n, unsigned flags) {
    if (!armed) return raw(SYS_getrandom, (long)p, (long)n, flags, 0, 0, 0);
    for (size_t i = 0; i < n; i++) {
        uint32_t k = ndrawn - since;
        uint8_t b = armed & 2 ? (uint8_t)(k * 37 + 11) : (uint8_t)next();
        if (armed >> 8 && (armed >> 8) - 1 >> 3 == k) b ^= 1 << ((armed >> 8) - 1 & 7);
        if (ndrawn < sizeof drawn) drawn[ndrawn++] = b;
        ((uint8_t *)p)[i] = b;
    }
    return (ssize_t)n;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!armed) return (int)raw(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
    nclock++;
    if (clock_set) {
        ts->tv_sec = (time_t)clock_base;
        clock_base += clock_step;
        ts->tv_nsec = (long)clock_nsec;
        return 0;
    }
    ts->tv_sec = armed & 4 ? (time_t)(1600000000 + nclock) : (time_t)(int64_t)next();
    ts->tv_nsec = 123456789;
    return 0;
}
long syscall(long n, ...) {
    va_list v;
    long a[6];
    va_start(v, n);
    for (int i = 0; i < 6; i++) a[i] = va_arg(v, long);
    va_end(v);
    if (n == SYS_getrandom) return getrandom((void *)a[0], (size_t)a[1], (unsigned)a[2]);
    return raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
