/* Contracts of the message senders in mlle_io.c: exactly one message, whose text
 * is NAME [SP number] [SP length] LF payload, for every command, number and
 * payload.  ssl_write_message is replaced by its contract (proved in u_ssl.c). */
#include "vp.h"
#include "spec_protocol.h"
#include "libcrypto-compat.h"
#include "mlle_io.h"
static SSL *const the_ssl = (SSL *)16;
static const struct spec_cmd *g_c; static int g_has_num, g_has_len; static long g_num; static size_t g_plen; static const char *g_payload; static size_t g_k;
static int g_sent, g_ret;
static char *g_msg_obj; static size_t g_msg_n;
#ifdef VP_CBMC
/* The expected command line g_E[0..g_elen) is NAME [SP dec(number)] [SP dec(length)] LF,
 * dec being an uninterpreted function from values to texts of 1..20 characters.
 * Contract of snprintf: a format whose pieces are those of the command line, with
 * equal values, yields that text; with other values, some other text. */
static unsigned char g_E[64]; static size_t g_elen, g_j; static unsigned long g_absnum;
static void make_line(void)
{
    size_t kn = nd_range(1, 20), kl = nd_range(1, 20);
    g_absnum = g_num < 0 ? 0UL - (unsigned long)g_num : (unsigned long)g_num;
    g_elen = g_c->len + (g_has_num ? 1 + (g_num < 0) + kn : 0) + (g_has_len ? 1 + kl : 0) + 1;
    for (int i = 0; i < 64; i++) { unsigned char c; __CPROVER_assume(c != 0); g_E[i] = c; }
}
int snprintf(char *buf, size_t size, const char *fmt, ...)
{
    va_list ap; int step = 0, ok = 1;   /* 0 name, 1 SP, 2 number, 3 SP, 4 length, 5 LF, 6 end */
    size_t n;
    va_start(ap, fmt);
    for (; *fmt; fmt++) {
        if (step == 1 && !g_has_num) step = 3;
        if (step == 3 && !g_has_len) step = 5;
        if (*fmt != '%') {
            if (step != 1 && step != 3 && step != 5) VP_UNSUPPORTED("snprintf pieces");
            ok &= *fmt == (step == 5 ? '\n' : ' ');
        } else {
            int lng = 0; fmt++;
            while (*fmt == 'l' || *fmt == 'z') { lng = 1; fmt++; }
            if (*fmt == 's') {
                const char *s = va_arg(ap, const char *);
                if (step != 0) VP_UNSUPPORTED("snprintf pieces");
                for (unsigned i = 0; i < SPEC_MAXNAME + 1; i++) { if (i <= g_c->len) ok &= s[i] == g_c->name[i]; if (!ok) break; }
            } else if (*fmt == 'd' || *fmt == 'u') {
                unsigned long v; int neg = 0;
                if (*fmt == 'u') v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
                else { long w = lng ? va_arg(ap, long) : va_arg(ap, int); neg = w < 0; v = neg ? 0UL - (unsigned long)w : (unsigned long)w; }
                if (step == 2) ok &= v == g_absnum && neg == (g_num < 0);
                else if (step == 4) ok &= v == g_plen && !neg;
                else VP_UNSUPPORTED("snprintf pieces");
            } else VP_UNSUPPORTED("snprintf conversion");
        }
        step++;
    }
    va_end(ap);
    if (step != 6) VP_UNSUPPORTED("snprintf pieces");
    if (ok) n = g_elen; else { VP_ASSERT(0, "send.command-line"); __CPROVER_assume(n < 64); }
    if (size) {
        size_t last = n < size ? n : size - 1;
        __CPROVER_assert(__CPROVER_w_ok(buf, last + 1), "snprintf: output within destination");
        if (__CPROVER_DYNAMIC_OBJECT(buf)) { if (g_j < last) buf[g_j] = g_E[g_j]; }
        else for (size_t i = 0; i < 64; i++) if (i < last) buf[i] = g_E[i];
        buf[last] = 0;
    }
    return (int)n;
}
#else
/* decimal text at m[*pos]: canonical (no plus, no leading zero), value v */
static void spec_decimal(const char *m, size_t n, size_t *pos, int neg, unsigned long v)
{
    unsigned long x = 0; size_t p = *pos, d = 0;
    if (neg) { VP_ASSERT(p < n && m[p] == '-', "send.number-sign"); p++; }
    for (int i = 0; i < 20; i++) {
        if (p >= n || m[p] < '0' || m[p] > '9') break;
        VP_ASSERT(!(d == 1 && x == 0), "send.number-canonical");
        x = x * 10 + (unsigned)(m[p] - '0'); p++; d++;
    }
    VP_ASSERT(d > 0 && x == v, "send.number-value");
    *pos = p;
}
#endif
int ssl_write_message(SSL *ssl, char *m, size_t n)
{
    size_t pos = 0;
    VP_ASSERT(ssl == the_ssl, "send.connection");
    VP_ASSERT(!g_sent, "send.one-message");
    g_sent = 1; g_msg_obj = m; g_msg_n = n;
#ifdef VP_CBMC
    VP_ASSERT(__CPROVER_r_ok(m, n), "send.message-readable");
#endif
#ifdef VP_CBMC
    pos = g_elen;
    VP_ASSERT(pos <= n, "send.command-line-length");
    VP_ASSERT(g_j >= pos || (unsigned char)m[g_j] == g_E[g_j], "send.command-line");
#else
    for (unsigned i = 0; i < SPEC_MAXNAME; i++)
        if (i < g_c->len) VP_ASSERT(i < n && m[i] == g_c->name[i], "send.name");
    pos = g_c->len;
    if (g_has_num) {
        VP_ASSERT(pos < n && m[pos] == ' ', "send.separator"); pos++;
        spec_decimal(m, n, &pos, g_num < 0, g_num < 0 ? 0UL - (unsigned long)g_num : (unsigned long)g_num);
    }
    if (g_has_len) {
        VP_ASSERT(pos < n && m[pos] == ' ', "send.separator"); pos++;
        spec_decimal(m, n, &pos, 0, g_plen);
    }
    VP_ASSERT(pos < n && m[pos] == '\n', "send.end-of-line"); pos++;
#endif
    VP_ASSERT(n - pos == g_plen, "send.total-length");
    if (g_plen) {
#ifdef VP_CBMC
        VP_ASSERT(m[pos + g_k] == g_payload[g_k], "send.payload");
#else
        VP_ASSERT(memcmp(m + pos, g_payload, g_plen) == 0, "send.payload");
#endif
    }
    VP_COVER("send.sent");
    g_ret = nd_bool() ? (int)n : -1;
    return g_ret;
}
#ifdef VP_CBMC
/* memcpy, memset and snprintf to the heap: the quantified clauses of their
 * contracts are instantiated at the bytes of the message read later: byte g_j of
 * the command line, byte g_k of the payload and byte g_w (wipe obligation). */
static size_t g_w;
#ifdef CHECK_WIPE
#define NT 3
#define TRK { g_j, g_elen + g_k, g_w }
#else
#define NT 2
#define TRK { g_j, g_elen + g_k }
#endif
void *vp_memcpy(void *dst, const void *src, size_t n)
{
    __CPROVER_assert(__CPROVER_w_ok(dst, n), "memcpy: destination writable");
    __CPROVER_assert(__CPROVER_r_ok(src, n), "memcpy: source readable");
    size_t o = __CPROVER_POINTER_OFFSET(dst), t[NT] = TRK; char *base = (char *)dst - o, v[NT]; int h[NT];
    for (int i = 0; i < NT; i++) { h[i] = t[i] >= o && t[i] - o < n; if (h[i]) v[i] = ((const char *)src)[t[i] - o]; }
    if (n) __CPROVER_havoc_slice(dst, n);
    for (int i = 0; i < NT; i++) if (h[i]) base[t[i]] = v[i];
    return dst;
}
void *vp_memset(void *dst, int c, size_t n)
{
    __CPROVER_assert(__CPROVER_w_ok(dst, n), "memset: destination writable");
    size_t o = __CPROVER_POINTER_OFFSET(dst), t[NT] = TRK; char *base = (char *)dst - o;
    if (n) __CPROVER_havoc_slice(dst, n);
    for (int i = 0; i < NT; i++) if (t[i] >= o && t[i] - o < n) base[t[i]] = (char)c;
    return dst;
}
#else
void *vp_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *vp_memset(void *d, int c, size_t n) { return memset(d, c, n); }
#endif
void vp_cleanse_t(void *p, size_t n) { vp_memset(p, 0, n); }   /* OPENSSL_cleanse */
#ifdef CHECK_WIPE
#ifdef VP_NATIVE
#include <malloc.h>
#endif
void vp_free(void *p)
{
    if (p && g_sent) {
#ifdef VP_CBMC
        /* byte g_w of the message, if there is one */
        if (g_w < g_elen + g_plen) VP_ASSERT(((char *)p)[g_w] == 0, "wipe.sent-message-cleared-before-free");
#else
        size_t n = malloc_usable_size(p);
        if (p == g_msg_obj) for (size_t k = 0; k < g_msg_n && k < n; k++) VP_ASSERT(((char *)p)[k] == 0, "wipe.sent-message-cleared-before-free");
#endif
        VP_COVER("wipe.free");
    }
    free(p);
}
#endif
static char *payload(size_t n, int str)
{
    char *p = nd_buf(n + 1);
#ifdef VP_CBMC
    if (str) { p[n] = 0; }
#else
    if (str) { for (size_t i = 0; i < n; i++) if (!p[i]) p[i] = 'x'; p[n] = 0; }
#endif
    return p;
}
#ifdef VP_CBMC
/* strlen of the payload string: its contract */
static size_t g_slen; static char *g_str;
size_t strlen(const char *s)
{
    if (g_str && s == g_str) return g_slen;
    size_t i = 0; while (s[i]) i++; return i;
}
#endif
void h_send(void)
{
#ifdef VP_SEND_FORM
    unsigned f = VP_SEND_FORM;
#else
    unsigned f = (unsigned)nd_range(0, 5);
#endif
    unsigned ci = (unsigned)nd_range(0, SPEC_NCMD - 1); int r = 0;
    size_t n = nd_range(0, VP_MAX(600, 2147480000UL)); char *p = NULL;
#ifdef VP_NATIVE
    if (nd_range(0, 200) == 0) n = nd_range(0, 70000);
#endif
    g_sent = 0; g_has_num = g_has_len = 0; g_plen = 0; g_num = 0; g_payload = NULL; g_ret = 0; vp_alloc_failed = 0;
    g_c = &spec_cmds[ci];
    g_num = nd_long(); g_has_num = f == 1 || f >= 4; g_has_len = f >= 2; if (f >= 2) g_plen = n;
    int isnull = f == 5 && nd_range(0, 7) == 0;
    if (isnull) g_plen = 0;
    if (f == 5) g_c = &spec_cmds[SPEC_NCMD - 1];
#ifdef VP_CBMC
    make_line(); g_j = nd_range(0, 63); g_w = nd_u64();
#endif
    if (f == 0) mlle_send_simple_form(the_ssl, g_c->id);
    else if (f == 1) { r = mlle_send_number_form(the_ssl, g_c->id, g_num); }
    else {
        p = payload(n, f == 3 || f == 5);
#ifdef VP_CBMC
        g_str = p; g_slen = n;
#endif
        g_payload = p; if (n) g_k = nd_range(0, n - 1);
        if (f == 2) mlle_send_length_form(the_ssl, g_c->id, n, p);
        else if (f == 3) mlle_send_string(the_ssl, g_c->id, p);
        else {
            if (f == 4) mlle_send_number_and_length_form(the_ssl, g_c->id, g_num, n, p);
            else {
                if (isnull) { mlle_send_error(the_ssl, g_num, NULL); }
                else mlle_send_error(the_ssl, g_num, p);
            }
        }
    }
    VP_ASSERT(g_sent || vp_alloc_failed, "send.sent-unless-out-of-memory");
    if (f == 1) VP_ASSERT(r == g_ret, "send.result-reported");
#ifdef VP_NATIVE
    free(p);
#endif
}
#ifdef VP_NATIVE
void vp_native_harness(void) { VP_ENTRY(); }
#endif
