/* Executable models of C library functions CBMC's own library lacks.
 * They are assumed contracts on libc (trusted); native replay uses the real libc. */
#include "vp.h"
#ifdef VP_CBMC
#include <ctype.h>
#include <strings.h>

#ifndef VP_STR_CAP
#define VP_STR_CAP 64
#endif

size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
#ifndef VP_OWN_MEMCHR
void *memchr(const void *s, int c, size_t n)
{ const unsigned char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
#endif
char *strndup(const char *s, size_t n)
{ size_t l = strnlen(s, n); char *p = malloc(l + 1); if (!p) return 0; memcpy(p, s, l); p[l] = 0; return p; }
size_t strspn(const char *s, const char *set)
{ size_t i = 0; for (;; i++) { const char *t = set; while (*t && *t != s[i]) t++; if (!s[i] || !*t) return i; } }
#ifdef VP_OWN_STRCSPN
size_t strcspn(const char *s, const char *set);
#else
size_t strcspn(const char *s, const char *set)
{ size_t i = 0; for (;; i++) { const char *t = set; while (*t && *t != s[i]) t++; if (!s[i] || *t) return i; } }
#endif
char *strpbrk(const char *s, const char *set) { size_t i = strcspn(s, set); return s[i] ? (char *)s + i : 0; }
#ifndef VP_OWN_STRTOK
char *strtok_r(char *s, const char *delim, char **save)
{
    char *t;
    if (!s) s = *save;
    s += strspn(s, delim);
    if (!*s) { *save = s; return 0; }
    t = s;
    s += strcspn(s, delim);
    if (*s) { *s = 0; *save = s + 1; } else *save = s;
    return t;
}
static char *vp_tok;
char *strtok(char *s, const char *delim) { return strtok_r(s, delim, &vp_tok); }
char *strsep(char **sp, const char *delim)
{ char *s = *sp; size_t i; if (!s) return 0; i = strcspn(s, delim); if (s[i]) { s[i] = 0; *sp = s + i + 1; } else *sp = 0; return s; }
#endif

/* decimal text of v, most significant digit first: digits chosen, then
 * constrained by sum d_i*10^i == v; returns the digit count */
static int vp_digits(unsigned long v, char *d)
{
    int k; unsigned long x = 0;
    __CPROVER_assume(k >= 1 && k <= 20);
    for (int i = 0; i < 20; i++) {
        if (i >= k) break;
        unsigned char c; __CPROVER_assume(c <= 9);
        __CPROVER_assume(!(i == 0 && k > 1 && c == 0));
        __CPROVER_assume(x < 1844674407370955161UL || (x == 1844674407370955161UL && c <= 5));
        x = x * 10 + c;
        d[i] = '0' + c;
    }
    __CPROVER_assume(x == v);
    return k;
}

/* reads an optional sign and decimal digits like strtol base 10 */
static int vp_scan_long(const char *s, long *out, const char **end)
{
    size_t i = 0; int neg = 0, any = 0, clamp = 0; unsigned long x = 0;
    while (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) i++;
    if (s[i] == '-') { neg = 1; i++; } else if (s[i] == '+') i++;
    while (s[i] >= '0' && s[i] <= '9') {
        unsigned c = s[i] - '0'; any = 1;
        if (x > 922337203685477580UL || (x == 922337203685477580UL && c > (unsigned)(neg ? 8 : 7))) clamp = 1;
        else x = x * 10 + c;
        i++;
    }
    *end = s + (any ? i : 0);
    if (!any) { *out = 0; return 0; }
    *out = clamp ? (neg ? LONG_MIN : LONG_MAX) : (neg ? (x == 9223372036854775808UL ? LONG_MIN : -(long)x) : (long)x);
    return 1;
}
#ifndef VP_OWN_SCANF
int sscanf(const char *s, const char *fmt, ...)
{
    va_list ap; const char *e; long v; int n = 0;
    va_start(ap, fmt);
    while (*fmt) {
        if (*fmt != '%') VP_UNSUPPORTED("sscanf format");
        fmt++;
        if (*fmt == 'l' && fmt[1] == 'd') {
            size_t j = 0; while (s[j] == ' ' || (s[j] >= 9 && s[j] <= 13)) j++;
            if (!s[j]) { va_end(ap); return n ? n : -1; }
            if (!vp_scan_long(s, &v, &e)) { va_end(ap); return n; }
            *va_arg(ap, long *) = v; n++; s = e; fmt += 2;
        } else if (*fmt == 'd') {
            size_t j = 0; while (s[j] == ' ' || (s[j] >= 9 && s[j] <= 13)) j++;
            if (!s[j]) { va_end(ap); return n ? n : -1; }
            if (!vp_scan_long(s, &v, &e)) { va_end(ap); return n; }
            *va_arg(ap, int *) = (int)v; n++; s = e; fmt += 1;
        } else if (*fmt == 'c') {
            if (!*s) { va_end(ap); return n ? n : -1; }
            *va_arg(ap, char *) = *s; n++; s++; fmt++;
        } else VP_UNSUPPORTED("sscanf conversion");
    }
    va_end(ap);
    return n;
}
long strtol(const char *s, char **end, int base)
{ long v; const char *e; if (base != 10 && base != 0) VP_UNSUPPORTED("strtol base"); vp_scan_long(s, &v, &e); if (end) *end = (char *)e; return v; }
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
#endif

#ifdef VP_PRINTF_CHEAP
/* only termination and frame: text of arbitrary content, up to VP_PRINTF_CHEAP bytes */
int vsnprintf(char *buf, size_t size, const char *fmt, va_list ap)
{
    size_t n; __CPROVER_assume(n <= VP_PRINTF_CHEAP);
    if (size) {
        size_t last = n < size ? n : size - 1;
        __CPROVER_assert(__CPROVER_w_ok(buf, last + 1), "snprintf: output within destination");
        __CPROVER_havoc_slice(buf, last + 1);
        buf[last] = 0;
    }
    return (int)n;
}
int snprintf(char *buf, size_t size, const char *fmt, ...)
{ va_list ap; int n; va_start(ap, fmt); n = vsnprintf(buf, size, fmt, ap); va_end(ap); return n; }
#define VP_OWN_PRINTF
#endif
#ifdef VP_PRINTF_TEXT
/* exact text up to VP_PRINTF_TEXT bytes; the decimal text of a number is the
 * uninterpreted function vp_dec_text, which the unit's specification also uses */
int vp_dec_text(unsigned long v, char d[20]);
#define PUT(c) do { char c_ = (c); __CPROVER_assert(pos < VP_PRINTF_TEXT, "UNSUPPORTED:text longer than the model"); __CPROVER_assume(pos < VP_PRINTF_TEXT); T[pos] = c_; pos++; } while (0)
int vsnprintf(char *buf, size_t size, const char *fmt, va_list ap)
{
    size_t pos = 0; char d[20], T[VP_PRINTF_TEXT];
    for (; *fmt; fmt++) {
        if (*fmt != '%') { PUT(*fmt); continue; }
        fmt++;
        int lng = 0;
        while (*fmt == 'l' || *fmt == 'z') { lng = 1; fmt++; }
        if (*fmt == 's') { const char *s = va_arg(ap, const char *); for (size_t i = 0; s[i]; i++) PUT(s[i]); }
        else if (*fmt == 'd' || *fmt == 'u') {
            unsigned long v; int neg = 0;
            if (*fmt == 'u') v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
            else { long w = lng ? va_arg(ap, long) : va_arg(ap, int); neg = w < 0; v = neg ? -(unsigned long)w : (unsigned long)w; }
            if (neg) PUT('-');
            int k = vp_dec_text(v, d);
            for (int i = 0; i < 20; i++) if (i < k) PUT(d[i]);
        } else if (*fmt == 'c') { int c = va_arg(ap, int); PUT((char)c); }
        else if (*fmt == '%') PUT('%');
        else VP_UNSUPPORTED("printf conversion");
    }
    if (size) {
        size_t last = pos < size ? pos : size - 1;
        __CPROVER_assert(__CPROVER_w_ok(buf, last + 1), "snprintf: output within destination");
        for (size_t i = 0; i < VP_PRINTF_TEXT; i++) if (i < last) buf[i] = T[i];
        buf[last] = 0;
    }
    return (int)pos;
}
#undef PUT
int snprintf(char *buf, size_t size, const char *fmt, ...)
{ va_list ap; int n; va_start(ap, fmt); n = vsnprintf(buf, size, fmt, ap); va_end(ap); return n; }
int sprintf(char *buf, const char *fmt, ...)
{ va_list ap; int n; va_start(ap, fmt); n = vsnprintf(buf, 1UL << 40, fmt, ap); va_end(ap); return n; }
#define VP_OWN_PRINTF
#endif
#ifndef VP_OWN_PRINTF
/* printf family: the exact text, for the conversions the code uses.
 * In VP_PRINTF_LEN mode only length, termination and frame are modelled
 * (contents arbitrary): an over-approximation used where text is irrelevant. */
static size_t vp_slen(const char *s)
{
#ifdef VP_PRINTF_LEN
    size_t i = 0;
    while (i < VP_STR_CAP && s[i]) i++;
    if (i < VP_STR_CAP) return i;
    size_t n; __CPROVER_assume(n >= VP_STR_CAP && n < 1000000000UL);
    return n;
#else
    return strlen(s);
#endif
}
#ifdef VP_PRINTF_LEN
#define PUT(c) (pos++)
#else
#define PUT(c) do { if (pos < lim) buf[pos] = (c); pos++; } while (0)
#endif
static size_t vp_vfmt(char *buf, size_t lim, const char *fmt, va_list ap)
{
    size_t pos = 0; char d[20];
    for (; *fmt; fmt++) {
        if (*fmt != '%') { PUT(*fmt); continue; }
        fmt++;
        int lng = 0;
        while (*fmt == 'l' || *fmt == 'z') { lng = 1; fmt++; }
        if (*fmt == 's') {
            const char *s = va_arg(ap, const char *);
#ifdef VP_PRINTF_LEN
            pos += vp_slen(s ? s : "(null)");
#else
            if (!s) s = "(null)";
            for (size_t i = 0; s[i]; i++) PUT(s[i]);
#endif
        } else if (*fmt == 'd' || *fmt == 'i' || *fmt == 'u') {
            unsigned long v; int neg = 0, k;
            if (*fmt == 'u') v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
            else { long w = lng ? va_arg(ap, long) : va_arg(ap, int); neg = w < 0; v = neg ? -(unsigned long)w : (unsigned long)w; }
#ifdef VP_PRINTF_LEN
            __CPROVER_assume(k >= 1 && k <= 20); pos += neg + k;
#else
            if (neg) PUT('-');
            k = vp_digits(v, d);
            for (int i = 0; i < 20; i++) { if (i >= k) break; PUT(d[i]); }
#endif
        } else if (*fmt == 'c') { int c = va_arg(ap, int); PUT((char)c);
        } else if (*fmt == '%') { PUT('%');
        } else if (*fmt == 'x' && !lng) {
            unsigned v = va_arg(ap, unsigned); int on = 0;
            for (int sh = 28; sh >= 0; sh -= 4) { unsigned h = (v >> sh) & 15; if (h || on || sh == 0) { on = 1; PUT(h < 10 ? '0' + h : 'a' + h - 10); } }
        } else VP_UNSUPPORTED("printf conversion");
    }
    return pos;
}
int vsnprintf(char *buf, size_t size, const char *fmt, va_list ap)
{
    if (size) __CPROVER_assert(__CPROVER_w_ok(buf, 1), "snprintf: destination writable");
    size_t n = vp_vfmt(buf, size, fmt, ap);
    if (size) {
        size_t last = n < size ? n : size - 1;
        __CPROVER_assert(__CPROVER_w_ok(buf, last + 1), "snprintf: output within destination");
#ifdef VP_PRINTF_LEN
        __CPROVER_havoc_slice(buf, last + 1);
#endif
        buf[last] = 0;
    }
    return (int)n;
}
int snprintf(char *buf, size_t size, const char *fmt, ...)
{ va_list ap; int n; va_start(ap, fmt); n = vsnprintf(buf, size, fmt, ap); va_end(ap); return n; }
int sprintf(char *buf, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    size_t n = vp_vfmt(buf, SIZE_MAX, fmt, ap); va_end(ap);
    __CPROVER_assert(__CPROVER_w_ok(buf, n + 1), "sprintf: output within destination");
    buf[n] = 0; return (int)n;
}
#ifdef VP_PRINTF_LEN
int asprintf(char **p, const char *fmt, ...)
{ size_t n; __CPROVER_assume(n < 1000000000UL); char *b = malloc(n + 1); if (!b) return -1; b[n] = 0; *p = b; return (int)n; }
#else
int vasprintf(char **p, const char *fmt, va_list ap)
{ char *b = malloc(VP_STR_CAP * 4); if (!b) return -1; size_t n = vp_vfmt(b, VP_STR_CAP * 4, fmt, ap); if (n >= VP_STR_CAP * 4) VP_UNSUPPORTED("asprintf size"); b[n] = 0; *p = b; return (int)n; }
int asprintf(char **p, const char *fmt, ...)
{ va_list ap; int n; va_start(ap, fmt); n = vasprintf(p, fmt, ap); va_end(ap); return n; }
#endif
#endif
#endif
