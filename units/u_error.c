/* Contracts of mlle_error.c: an error carries the domain, code and text it was given, the text
 * always terminated; it is moved, not copied, by propagation and released exactly once. */
#include "vp.h"
#include "mlle_error.h"
static char *g_text; static size_t g_T, g_k;        /* the text the format and its arguments stand for */
static const char *g_fmt; static int g_calls;
#ifdef VP_CBMC
int vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    size_t w = n ? (g_T < n - 1 ? g_T : n - 1) : 0;
    VP_ASSERT(f == g_fmt, "error.format-given"); VP_ASSERT(n == 0 || __CPROVER_w_ok(b, n), "error.text-within-its-buffer"); g_calls++;
    if (n) { __CPROVER_havoc_slice(b, n); b[w] = 0; if (g_k < w) b[g_k] = g_text[0]; }
    return (int)g_T;
}
char *ct_strdup(const char *s)
{
    char *p; if (s != g_text) VP_UNSUPPORTED("strdup of another text");
    p = vp_malloc(g_T + 1); if (!p) return NULL;
    __CPROVER_havoc_slice(p, g_T + 1); p[g_T] = 0; if (g_k < g_T) p[g_k] = s[g_k]; return p;
}
#endif
void vp_free(void *p) { if (p) { vp_live--; free(p); } }
static void check(struct mlle_error *e, int d, int c, int literal)
{
    char *m;
    VP_ASSERT(mlle_error_get_domain(e) == d && mlle_error_get_code(e) == c && mlle_error_get_cause(e) == NULL, "error.domain-and-code");
    m = mlle_error_get_message(e);
    if (!m) { VP_ASSERT(vp_alloc_failed || !g_text, "error.text-kept"); return; }
    VP_ASSERT(g_text != NULL, "error.no-text-no-message");
    VP_ASSERT(m != g_text && m != g_fmt, "error.own-copy-of-the-text");
#ifdef VP_CBMC
    size_t w = __CPROVER_OBJECT_SIZE(m);
    if (literal) VP_ASSERT(w == g_T + 1 && m[g_T] == 0 && (g_k >= g_T || m[g_k] == g_text[g_k]), "error.literal-text");
    else { VP_ASSERT(w >= 2048 || w > g_T, "error.room-for-the-text"); w = g_T < w - 1 ? g_T : w - 1; VP_ASSERT(m[w] == 0 && (g_k >= w || m[g_k] == g_text[0]), "error.formatted-text"); }
#else
    size_t n = strlen(m); VP_ASSERT(strncmp(m, g_text, n) == 0 && (n == g_T || !literal && n >= 2047), literal ? "error.literal-text" : "error.formatted-text");
#endif
}
void h_error(void)
{
    struct mlle_error *e = NULL, *f = NULL; int d = nd_int(), c = nd_int(), literal = nd_bool(), via = (int)nd_range(0, 2), slot = nd_bool();
    vp_alloc_failed = vp_live = 0; g_calls = 0; g_T = nd_range(0, VP_MAX(5000, 1UL << 30)); g_k = nd_u64();
#ifdef VP_CBMC
    if (literal) { g_text = nd_buf(g_T + 1); g_text[g_T] = 0; } else g_text = nd_buf(1);
    g_fmt = nd_buf(1); if (literal && nd_bool()) g_text = NULL;
#else
    g_text = nd_buf(g_T + 1); for (size_t i = 0; i < g_T; i++) if (!g_text[i]) g_text[i] = '%'; g_text[g_T] = 0; g_fmt = "%s"; if (literal && nd_bool() && nd_bool()) { free(g_text); g_text = NULL; }
#endif
    if (literal && via == 0) mlle_error_set_literal(slot ? &e : NULL, d, c, g_text);
    else if (literal) { e = mlle_error_new_literal(d, c, g_text); if (via == 2) { mlle_error_propagate(slot ? &f : NULL, e); VP_ASSERT(f == (slot ? e : NULL), "error.propagated"); e = f; f = NULL; } else slot = 1; }
    else if (via == 0) mlle_error_set(slot ? &e : NULL, d, c, g_fmt, g_text);
    else { e = mlle_error_new(d, c, g_fmt, g_text); if (via == 2) { mlle_error_propagate(slot ? &f : NULL, e); VP_ASSERT(f == (slot ? e : NULL), "error.propagated"); e = f; f = NULL; } else slot = 1; }
    if (!slot) { VP_ASSERT(e == NULL, "error.no-slot-no-error"); VP_COVER("error.no-slot"); }
    else if (!e) { VP_ASSERT(vp_alloc_failed, "error.set"); VP_COVER("error.oom"); }
    else {
        check(e, d, c, literal); VP_COVER("error.set");
        mlle_error_free(&e); VP_ASSERT(e == NULL, "error.freed");
    }
    mlle_error_free(&e); mlle_error_free(NULL);
    VP_ASSERT(vp_live == 0, "error.everything-released");
#ifdef VP_NATIVE
    free(g_text);
#endif
}
void vp_native_harness(void) { vp_alloc_fails = 1; VP_ENTRY(); }
