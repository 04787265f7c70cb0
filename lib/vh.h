/* Harness support: one contract, two readings.
   VH_PROOF : translated by goto-cc, every VH_ASSERT is a proof obligation for CBMC over an input buffer of any length.
   otherwise: compiled by gcc with ASan/UBSan against the unmodified sources; the same assertions are executed on
              enumerated and seeded random inputs (used to find a concrete failing input, and as bounded stand-in). */
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <assert.h>

#ifndef VH_TAIL
#define VH_TAIL 0          /* 1: a NUL byte sits behind the buffer */
#endif
#ifndef VH_MINN
#define VH_MINN 0
#endif
#ifndef VH_MAXN
#define VH_MAXN (((size_t)1)<<40)
#endif
#ifndef VH_P
#define VH_P 1             /* number of parameter values */
#endif
#ifndef VH_ALPHABET
#define VH_ALPHABET "a \n"
#endif
#ifndef VH_NOISE
#define VH_NOISE 24        /* one in VH_NOISE appended tokens is followed by overwriting a random byte */
#endif
#ifndef VH_EXLEN
#define VH_EXLEN 6         /* exhaustive up to this length (time permitting) */
#endif
#ifndef VH_RNDLEN
#define VH_RNDLEN 40
#endif

static void vh_body(const char *in, size_t n, size_t g, unsigned p);

#ifdef VH_PROOF
size_t nondet_size_t(void);
unsigned nondet_unsigned(void);
int nondet_int(void);
char nondet_char(void);
_Bool nondet_bool(void);
#define VH_ASSUME(c) __CPROVER_assume(c)
#define VH_ASSERT(name, c) __CPROVER_assert((c), name)
/* reachability is asked of small inputs only (reachable for a small input = reachable), so that its model stays small */
_Bool vh_small;
#define VH_LIM(x) __CPROVER_assume((x) <= (vh_small ? 24 : VH_MAXN))
#define VH_KNOWN(id, c) __CPROVER_assume(c)
#define VH_COVER(name) __CPROVER_assert(!vh_small, "COVER " name)
#ifdef VH_BOUND
#define VH_LIMIT VH_BOUND
size_t vh_cex_n; unsigned vh_cex_p; size_t vh_cex_g; char vh_cex_b[VH_BOUND+1];
#else
#define VH_LIMIT VH_MAXN
#endif
void harness(void)
{
    size_t n = nondet_size_t();
    vh_small = nondet_bool();
    __CPROVER_assume(n >= VH_MINN && n <= VH_LIMIT);
    VH_LIM(n);
#ifdef VH_BOUND
    char *b = malloc(VH_BOUND + 1);
    __CPROVER_assume(b != 0);
    for (int k = 0; k < VH_BOUND; k++) { char c = nondet_char(); b[k] = c; vh_cex_b[k] = c; }
    if (VH_TAIL) b[n] = 0;
#else
    char *b = malloc(n + VH_TAIL);
    __CPROVER_assume(b != 0);
    if (VH_TAIL) b[n] = 0;
#endif
    size_t g = nondet_size_t();
    unsigned p = nondet_unsigned();
#ifdef VH_PART
    __CPROVER_assume(p == VH_PART);
    p = VH_PART;
#else
    __CPROVER_assume(p < VH_P);
#endif
#ifdef VH_BOUND
    vh_cex_n = n; vh_cex_p = p; vh_cex_g = g;
#endif
    vh_body(b, n, g, p);
    VH_COVER("harness end reachable");
}
#else
#include <stdio.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
static const char *vh_in; static size_t vh_n, vh_g; static unsigned vh_p;
static unsigned long vh_evals, vh_skips, vh_covers;
static int vh_skipflag;
void __sanitizer_set_death_callback(void (*cb)(void));
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=0:handle_abort=0:exitcode=3:allocator_may_return_null=1:quarantine_size_mb=1:malloc_context_size=0"; }
const char *__ubsan_default_options(void) { return "print_stacktrace=0:halt_on_error=1:exitcode=3"; }
static void vh_report(const char *what)
{
    fprintf(stdout, "FAIL what=[%s] p=%u g=%zu in=", what, vh_p, vh_g);
    for (size_t i = 0; i < vh_n; i++) fprintf(stdout, "%02x", (unsigned char)vh_in[i]);
    fprintf(stdout, "\n"); fflush(stdout);
}
static void vh_death(void) { vh_report("sanitizer report (memory error or undefined behaviour)"); }
/* libubsan does not run the death callback of libasan: report from its own hook (reports are fatal, so this runs once) */
void __ubsan_on_report(void) { vh_report("sanitizer report (undefined behaviour)"); }
static void vh_sig(int s) { vh_report(s == SIGABRT ? "abort (assertion in the code)" : s == SIGALRM ? "does not terminate" : "crash"); _exit(3); }
#define VH_ASSUME(c) do { if (!(c)) { vh_skips++; return; } } while (0)
#define VH_ASSERT(name, c) do { if (!(c)) { vh_report(name); _exit(3); } } while (0)
#define VH_COVER(name) do { vh_covers++; } while (0)
/* a listed finding: shown, not a violation */
#define VH_KNOWN(id, c) do { static int seen_; if (!(c)) { if (!seen_) { printf("KNOWN %s\n", id); fflush(stdout); } seen_ = 1; vh_skips++; return; } } while (0)
static void vh_one(const char *src, size_t n, unsigned p, size_t g)
{
    char *b = malloc(n + VH_TAIL ? n + VH_TAIL : 1);
    memcpy(b, src, n);
    if (VH_TAIL) b[n] = 0;
    vh_in = b; vh_n = n; vh_p = p; vh_g = g;
    vh_evals++;
    if ((vh_evals & 1023) == 1) alarm(20);
    vh_body(b, n, g, p);
    free(b);
}
static void vh_all(const char *src, size_t n)
{
    for (unsigned p = 0; p < VH_P; p++)
#ifdef VH_NO_G
        vh_one(src, n, p, 0);
#else
        for (size_t g = 0; g <= n; g++) vh_one(src, n, p, g);
#endif
}
static double vh_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
static uint64_t vh_rs;
static uint64_t vh_rnd(void) { vh_rs ^= vh_rs << 13; vh_rs ^= vh_rs >> 7; vh_rs ^= vh_rs << 17; return vh_rs; }
int main(int argc, char **argv)
{
#ifdef VH_TOKENS
    static const char *const toks[] = { VH_TOKENS };
    size_t A = sizeof(toks) / sizeof(toks[0]);
#else
    static const char alpha[] = VH_ALPHABET;
    size_t A = sizeof(alpha) - 1;
    static char single[256][2]; static const char *toks[256];
    for (size_t k = 0; k < A; k++) { single[k][0] = alpha[k]; toks[k] = single[k]; }
#endif
    __sanitizer_set_death_callback(vh_death);
    signal(SIGABRT, vh_sig); signal(SIGALRM, vh_sig); signal(SIGSEGV, vh_sig);
    signal(SIGFPE, vh_sig); signal(SIGBUS, vh_sig); signal(SIGILL, vh_sig);
    if (argc >= 5 && !strcmp(argv[1], "replay"))
    {
        size_t n = strlen(argv[4]) / 2; char *b = malloc(n + 1);
        for (size_t i = 0; i < n; i++) { unsigned v; sscanf(argv[4] + 2*i, "%2x", &v); b[i] = (char)v; }
        vh_one(b, n, (unsigned)strtoul(argv[2], 0, 0), strtoull(argv[3], 0, 0));
        printf("OK replay\n");
        return 0;
    }
    vh_rs = strtoull(argv[1], 0, 0) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    double end = vh_now() + atof(argv[2]);
    double mid = vh_now() + atof(argv[2]) * 0.6;
    int complete = -1;
    char buf[4096];
    for (size_t len = VH_MINN; len <= VH_EXLEN; len++)
    {
        size_t ix[64] = {0};
        int full = 0;
        unsigned long cnt = 0;
        for (;;)
        {
            size_t at = 0;
            for (size_t k = 0; k < len; k++) { const char *t = toks[ix[k]]; size_t l = *t ? strlen(t) : 1; memcpy(buf + at, t, l); at += l; }
            if (at >= VH_MINN) vh_all(buf, at);
            if ((++cnt & 63) == 0 && vh_now() > mid) break;
            size_t k = 0;
            while (k < len && ++ix[k] == A) { ix[k] = 0; k++; }
            if (k == len) { full = 1; break; }
        }
        if (!full) break;
        complete = (int)len;
    }
    unsigned long ex = vh_evals;
    while (vh_now() < end)
    {
        for (int rep = 0; rep < 16; rep++)
        {
            size_t n = VH_MINN + vh_rnd() % (VH_RNDLEN + 1 - VH_MINN), at = 0;
            for (size_t k = 0; k < n && at + 64 < sizeof(buf); k++)
            {
                const char *t = toks[vh_rnd() % A]; size_t l = *t ? strlen(t) : 1;
                memcpy(buf + at, t, l); at += l;
                if (vh_rnd() % VH_NOISE == 0) { buf[at > 0 ? vh_rnd() % at : 0] = (char)vh_rnd(); }
            }
            n = at;
            vh_all(buf, n);
        }
    }
    printf("OK evaluations=%lu skipped=%lu covers=%lu exhaustive_len=%d exhaustive_evals=%lu\n", vh_evals, vh_skips, vh_covers, complete, ex);
    return 0;
}
#endif
#endif
