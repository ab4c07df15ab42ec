#include "vp.h"
/* allocation used by the code under check: may fail (a logged choice) */
#ifndef VP_MALLOC_MAX
#define VP_MALLOC_MAX VP_MAX(1UL << 26, 1UL << 46)
#endif
int vp_alloc_fails = 1;      /* harness may set to 0: allocation never fails */
int vp_alloc_failed;         /* ghost: some allocation has failed */
static int vp_oom(size_t n)
{
    if (n > VP_MALLOC_MAX) { vp_alloc_failed = 1; return 1; }
    if (!vp_alloc_fails) return 0;
#ifdef VP_NATIVE
    if (nd_range(0, 31) != 31) return 0;
#else
    if (nd_range(0, 31) != 31) return 0;
#endif
    vp_alloc_failed = 1;
    return 1;
}
int vp_live;                 /* ghost: blocks allocated (a harness that redirects free counts them down) */
void *vp_malloc(size_t n) { if (vp_oom(n)) return NULL; vp_live++; return malloc(n); }
void *vp_calloc(size_t a, size_t b) { if (b && a > VP_MALLOC_MAX / b) { vp_alloc_failed = 1; return NULL; } if (vp_oom(a * b)) return NULL; vp_live++; return calloc(a, b); }
void *vp_realloc(void *p, size_t n) { return vp_oom(n) ? NULL : realloc(p, n); }
void vp_cleanse(void *p, size_t n) { if (n) memset(p, 0, n); }
char *vp_strdup(const char *s)
{
    size_t n = strlen(s); char *p;
    if (vp_oom(n + 1)) return NULL;
    vp_live++;
    p = malloc(n + 1); memcpy(p, s, n + 1); return p;
}

#ifdef VP_CBMC
unsigned long vp_nd_log;
unsigned long nd_u64(void) { unsigned long v = nondet_vp_ulong(); vp_nd_log = v; return v; }
unsigned long nd_range(unsigned long lo, unsigned long hi)
{ unsigned long v = nondet_vp_ulong(); __CPROVER_assume(v >= lo && v <= hi); vp_nd_log = v; return v; }
int nd_int(void) { return (int)(unsigned int)nd_range(0, UINT_MAX); }
#ifdef VP_PROOF
char *nd_buf(size_t n) { char *p = __CPROVER_allocate(n, 0); return p; }
void nd_fill(char *p, size_t n) { if (n) __CPROVER_havoc_slice(p, n); }
#else
char *nd_buf(size_t n) { char *p = __CPROVER_allocate(n, 0); for (size_t i = 0; i < n; i++) p[i] = (char)nd_u8(); return p; }
void nd_fill(char *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (char)nd_u8(); }
#endif
#else
/* native: values from VP_TRACE (one decimal per line), or VP_N samples from a
 * PRNG seeded by VP_SEED; sample i is reproduced by VP_ONLY=i */
#include <unistd.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <signal.h>
#include <execinfo.h>
extern void vp_native_harness(void);
static FILE *trace, *rec; static int have_trace; static uint64_t rng;
static sigjmp_buf again; static volatile unsigned long rejected, passed;
static volatile unsigned long *cur;
static uint64_t next_rng(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }
unsigned long nd_range(unsigned long lo, unsigned long hi)
{
    unsigned long v;
    if (have_trace) {
        if (fscanf(trace, "%lu", &v) != 1) v = lo;
        if (v < lo || v > hi) { printf("VP_DIVERGED\n"); fflush(stdout); _exit(5); }
    } else if (lo == hi) v = lo;
    else {
        uint64_t r = next_rng();
        if (hi - lo == ULONG_MAX) v = r;
        else if (hi - lo > 64 && (r >> 60) == 0) v = lo;
        else if (hi - lo > 64 && (r >> 60) == 1) v = hi;
        else v = lo + (r >> 8) % (hi - lo + 1);
    }
    if (rec) { fprintf(rec, "%lu\n", v); fflush(rec); }
    return v;
}
unsigned long nd_u64(void)
{
    if (have_trace) return nd_range(0, ULONG_MAX);
    switch (next_rng() % 4) {
    case 0: return nd_range(0, 300);
    case 1: { unsigned long v = (unsigned long)-(long)(next_rng() % 300); if (rec) { fprintf(rec, "%lu\n", v); fflush(rec); } return v; }
    default: return nd_range(0, ULONG_MAX);
    }
}
int nd_int(void)
{
    if (!have_trace && next_rng() % 2) { unsigned v = (unsigned)(int)(next_rng() % 41) - 20u; if (rec) { fprintf(rec, "%u\n", v); fflush(rec); } return (int)v; }
    return (int)(unsigned)nd_range(0, UINT_MAX);
}
char *nd_buf(size_t n) { char *p = malloc(n); if (!p) _exit(4); nd_fill(p, n); return p; }
void nd_fill(char *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (char)nd_u8(); }
void vp_native_assert(int c, const char *id)
{ if (!c) { printf("VP_FAIL %s\n", id); fflush(stdout); _exit(42); } }
void vp_native_assume(int c)
{
    if (c) return;
    if (have_trace || rec) { printf("VP_ASSUME_FALSE\n"); fflush(stdout); _exit(3); }
    rejected++; siglongjmp(again, 1);
}
void vp_native_cover(const char *id) { (void)id; }
void vp_native_unsupported(const char *id) { printf("VP_UNSUPPORTED %s\n", id); fflush(stdout); _exit(6); }
void vp_abandon(void) { rejected++; siglongjmp(again, 1); }
/* assert() in the code under check */
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{ printf("VP_FAIL assertion %s (%s:%u %s)\n", e, f, l, fn); fflush(stdout); _exit(42); }
extern int vp_native_alt(int, char **) __attribute__((weak));   /* the harness binary started again as another program */
int main(int argc, char **argv)
{
    if (vp_native_alt && getenv("VP_ALT")) return vp_native_alt(argc, argv);
    const char *t = getenv("VP_TRACE"), *s = getenv("VP_SEED"), *r = getenv("VP_RECORD"), *n = getenv("VP_N"), *o = getenv("VP_ONLY"), *c = getenv("VP_CUR"), *ms = getenv("VP_MS");
    unsigned long N = n ? strtoul(n, 0, 10) : 1, i, seed = s ? strtoul(s, 0, 10) : 1, lo = 0;
    static unsigned long dummy; cur = &dummy;
    if (t) { trace = fopen(t, "r"); if (!trace) return 7; have_trace = 1; N = 1; }
    if (r) rec = fopen(r, "w");
    if (o) { lo = strtoul(o, 0, 10); N = lo + 1; }
    if (c) { int fd = open(c, O_RDWR | O_CREAT, 0644); if (ftruncate(fd, 4096)) return 7; cur = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
    struct timespec { long a, b; }; (void)ms;
    for (i = lo; i < N; i++) {
        *cur = i;
        rng = 0x9E3779B97F4A7C15ULL ^ (seed * 0xD1342543DE82EF95ULL + i * 0xA0761D6478BD642FULL + 1);
        for (int k = 0; k < 4; k++) next_rng();
        if (!sigsetjmp(again, 0)) { vp_native_harness(); passed++; }
    }
    printf("VP_PASS samples=%lu passed=%lu rejected=%lu\n", i - lo, passed, rejected); fflush(stdout);
    _exit(0);
}
#endif
