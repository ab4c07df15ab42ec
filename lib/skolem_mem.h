/* memcpy/memset contracts whose quantified postcondition is instantiated only at
 * the tracked byte positions vp_trk[] (relative to the start of the destination
 * object).  Use only where obligations read destination bytes at those positions.
 * Native: the real functions. */
#ifndef SKOLEM_MEM_H
#define SKOLEM_MEM_H
#ifdef VP_UNWOUND
#define VP_NTRK 8
#else
#define VP_NTRK 4
#endif
#ifdef VP_CBMC
static size_t vp_trk[VP_NTRK];
void *vp_memcpy(void *dst, const void *src, size_t n)
{
    __CPROVER_assert(__CPROVER_w_ok(dst, n), "memcpy: destination writable");
    __CPROVER_assert(__CPROVER_r_ok(src, n), "memcpy: source readable");
    size_t o = __CPROVER_POINTER_OFFSET(dst); char *base = (char *)dst - o;
    char v[VP_NTRK]; int h[VP_NTRK];
    for (int i = 0; i < VP_NTRK; i++) { h[i] = vp_trk[i] >= o && vp_trk[i] - o < n; if (h[i]) v[i] = ((const char *)src)[vp_trk[i] - o]; }
    if (n) __CPROVER_havoc_slice(dst, n);   /* all other bytes: arbitrary */
    for (int i = 0; i < VP_NTRK; i++) if (h[i]) base[vp_trk[i]] = v[i];
    return dst;
}
void *vp_memset(void *dst, int c, size_t n)
{
    __CPROVER_assert(__CPROVER_w_ok(dst, n), "memset: destination writable");
    size_t o = __CPROVER_POINTER_OFFSET(dst); char *base = (char *)dst - o;
    if (n) __CPROVER_havoc_slice(dst, n);
    for (int i = 0; i < VP_NTRK; i++) if (vp_trk[i] >= o && vp_trk[i] - o < n) base[vp_trk[i]] = (char)c;
    return dst;
}
#else
void *vp_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *vp_memset(void *d, int c, size_t n) { return memset(d, c, n); }
#endif
void vp_cleanse_t(void *p, size_t n) { vp_memset(p, 0, n); }   /* OPENSSL_cleanse */
#endif
