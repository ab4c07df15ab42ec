/* Contracts of ssl_write_message and ssl_read_message (mlle_ssl.c).  OpenSSL's
 * SSL_read/SSL_write/SSL_get_error/SSL_pending/SSL_want are assumed contracts. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_ssl.h"
#ifndef MSG_SIZE
#define MSG_SIZE 1024
#endif
int vp_ph_ssl_write, vp_ph_ssl_read;
#ifdef VP_CBMC
char *vp_fresh(size_t n) { char *p = __CPROVER_allocate(n, 0); return p; }
#endif
static SSL *const the_ssl = (SSL *)16;

/* ---- write ---- */
int g_written, g_tries, g_last_err;
int g_last_ret; static int g_flushed; static const char *g_msg; static size_t g_len;
int vp_SSL_write(SSL *s, const void *b, int n)
{
    VP_ASSERT(s == the_ssl, "write.connection");
    VP_ASSERT(!g_written, "write.not-repeated-after-success");
    VP_ASSERT(b == g_msg && n >= 0 && (size_t)n == g_len, "write.whole-message");
#ifdef VP_NATIVE
    if (g_tries > 40) VP_ASSUME(0);
#endif
    g_tries = g_tries ? 2 : 1;
    switch (nd_range(0, 3)) {
    case 0: g_last_ret = 0; break;
    case 1: g_last_ret = -1; break;
    case 2: g_last_ret = nd_bool() ? -1 : -2; break;
    default: g_last_ret = n; g_written = n > 0;
    }
    g_last_err = g_last_ret > 0 ? SSL_ERROR_NONE : (int)nd_range(1, 9);
    return g_last_ret;
}
int vp_SSL_get_error(const SSL *s, int r) { VP_ASSERT(s == the_ssl, "ssl.connection"); VP_ASSERT(r == g_last_ret, "ssl.get-error-of-last-result"); return g_last_err; }
int vp_fflush(FILE *f) { if (f == NULL || f == stdout) g_flushed = g_written; return 0; }
static int g_nerr;   /* OpenSSL keeps at most 16 errors */
unsigned long vp_ERR_get_error(void) { if (g_nerr <= 0) return 0; g_nerr--; return 1; }
const char *vp_ERR_reason_error_string(unsigned long e) { return nd_bool() ? "reason" : NULL; }
void h_ssl_write(void)
{
    size_t n = nd_range(0, VP_MAX(2000, 2147483647UL)), k;
    char *m = nd_buf(n ? n : 1), old = 0;
    g_written = g_tries = g_last_err = g_last_ret = g_flushed = 0; vp_ph_ssl_write = 0; g_nerr = (int)nd_range(0, 16);
    k = nd_u64(); if (n) { k %= n; old = m[k]; }
    g_msg = m; g_len = n;
    int r = ssl_write_message(the_ssl, m, n);
    VP_ASSERT(g_tries > 0, "write.attempted");
    VP_ASSERT((r > 0) == (g_written != 0), "write.success-reported-exactly");
    VP_ASSERT(r > 0 ? (size_t)r == n : r == -1, "write.return-value");
    VP_ASSERT(r > 0 || g_last_ret == 0 || g_last_err != SSL_ERROR_WANT_WRITE, "write.repeated-when-asked-to");
    VP_ASSERT(!g_written || g_flushed, "write.flushed");
    VP_ASSERT(n == 0 || m[k] == old, "write.message-unchanged");
    if (r > 0) VP_COVER("write.ok"); else VP_COVER("write.failed");
#ifdef VP_NATIVE
    free(m);
#endif
}

/* ---- read ---- */
size_t g_total, g_K, g_want_more; unsigned char g_byte; static int g_pending, g_want; static int g_failed;
#ifdef VP_NATIVE
static unsigned char *g_stream; static size_t g_cap;
#endif
int vp_SSL_read(SSL *s, void *b, int n)
{
    size_t k;
    VP_ASSERT(s == the_ssl, "read.connection");
    VP_ASSERT(n > 0, "read.room");
    VP_ASSERT(g_want_more, "read.stops-at-message-end");
    VP_ASSERT(!g_failed, "read.not-continued-after-failure");
#ifdef VP_CBMC
    VP_ASSERT(__CPROVER_w_ok(b, n), "read.buffer-valid");
#endif
    if (nd_range(0, 7) == 7) {
        g_last_ret = -(int)nd_range(0, 2);
        g_last_err = (int)nd_range(1, 9);
        g_failed = g_last_err != SSL_ERROR_WANT_READ && g_last_err != SSL_ERROR_WANT_WRITE;
        return g_last_ret;
    }
    k = nd_range(1, (unsigned long)n);
    VP_ASSUME(g_total + k <= VP_MAX(100000UL, 1UL << 30));
#ifdef VP_CBMC
    __CPROVER_havoc_slice(b, k);
    if (g_K >= g_total && g_K < g_total + k) g_byte = ((unsigned char *)b)[g_K - g_total];
#else
    nd_fill(b, k);
    if (g_total + k > g_cap) { g_cap = 2 * (g_total + k); g_stream = realloc(g_stream, g_cap); }
    memcpy(g_stream + g_total, b, k);
    memset((char *)b + k, 0xEE, n - k);
#endif
    g_total += k;
    g_pending = nd_bool() ? 0 : (int)nd_range(0, 16384);
    g_want = nd_range(0, 3) == 3 ? SSL_READING : SSL_NOTHING;
    g_want_more = g_pending > 0 || g_want == SSL_READING;
    g_last_ret = (int)k; g_last_err = 0;
    return (int)k;
}
int vp_SSL_pending(const SSL *s) { VP_ASSERT(s == the_ssl, "read.connection"); return g_pending; }
int vp_SSL_want(const SSL *s) { VP_ASSERT(s == the_ssl, "read.connection"); return g_want; }
#ifdef CHECK_WIPE
#ifdef VP_NATIVE
#include <malloc.h>
#endif
void vp_free(void *p)
{
    if (p) {
#ifdef VP_CBMC
        size_t n = __CPROVER_OBJECT_SIZE(p), k; __CPROVER_assume(k < n);
        VP_ASSERT(((char *)p)[k] == 0, "wipe.received-data-cleared-before-free");
#else
        size_t n = malloc_usable_size(p);
        for (size_t k = 0; k < n; k++) VP_ASSERT(((char *)p)[k] == 0, "wipe.received-data-cleared-before-free");
#endif
        VP_COVER("wipe.free");
    }
    free(p);
}
#endif
void h_ssl_read(void)
{
    char *msg = NULL; int ec = 0, r;
    g_total = 0; g_byte = 0; g_pending = 0; g_want = SSL_NOTHING; g_failed = 0; g_want_more = 1; vp_ph_ssl_read = 0; g_last_ret = g_last_err = 0;
    g_K = nd_u64();
    vp_alloc_failed = 0;
    r = ssl_read_message(the_ssl, &msg, &ec);
    if (r < 0) {
        VP_ASSERT(r == -1, "read.failure-code");
        VP_ASSERT(g_failed || vp_alloc_failed, "read.fails-only-on-failure");
        VP_ASSERT(!g_failed || ec == g_last_err, "read.error-code-reported");
        VP_COVER("read.failed");
    } else {
        VP_ASSERT(!g_failed && !vp_alloc_failed, "read.failure-reported");
        VP_ASSERT(r > 0 && (size_t)r == g_total, "read.count");
        VP_ASSERT(!g_want_more, "read.until-message-end");
#ifdef VP_CBMC
        VP_ASSERT(__CPROVER_r_ok(msg, (size_t)r), "read.buffer-holds-message");
        VP_ASSERT(g_K >= g_total || (unsigned char)msg[g_K] == g_byte, "read.bytes-in-order");
#else
        VP_ASSERT(memcmp(msg, g_stream, g_total) == 0, "read.bytes-in-order");
        free(msg);
#endif
        VP_COVER("read.ok");
    }
}
#ifdef VP_NATIVE
void vp_native_harness(void) { VP_ENTRY(); }
#endif
