/* Contract of mlle_demask_key: the key is combined with exactly the mask of the
 * directory the file is in: the mask in its package.moc, or that of the parent
 * directory when there is none; package.moc itself uses the parent's mask. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_cr_decrypt.h"
#include "mlle_cr_context.h"
#include "mlle_error.h"
FILE *mlle_log;
int vp_ph_demask_path, vp_ph_mask_path;
const char *g_rel; size_t g_n, g_L, g_k;
static int g_ispkg, g_cached, g_exists, g_reads, g_decs, g_recs, g_recfail, g_decfail; static char *g_full; static size_t g_size; static char *g_file;
static struct mlle_cr_context *CTX; static struct mlle_key_mask_map item; static unsigned char key0j, Pj, Dj; static size_t g_j; /* any one byte of the key */
static struct mlle_error *const E = (struct mlle_error *)96; static int g_errfreed;
static int sep(char c) { return c == '/' || c == '\\'; }
/* the text has g_n bytes and its last separator is at g_L */
int path_facts(size_t i) { return i > g_n || (i == g_n ? g_rel[i] == 0 : g_rel[i] != 0 && (!sep(g_rel[i]) || i <= g_L)); }
static int is_dir(const char *p) { return p[g_L] == 0 && (g_k >= g_L || p[g_k] == g_rel[g_k]); }
static int lit(const char *p, const char *t) { for (int i = 0; i < 13; i++) { if (p[i] != t[i]) return 0; if (!t[i]) return 1; } return 1; }
static int is_pkg(const char *p) { return (g_k >= g_L || p[g_k] == g_rel[g_k]) && lit(p + g_L, g_L ? "/package.moc" : "package.moc"); }
int vp_strcasecmp(const char *a, const char *b)
{
    const char *base = g_L ? g_rel + g_L + 1 : g_rel;
    if (a == base) { const char *t = a; a = b; b = t; }
    if (b != base || !lit(a, "package.moc")) VP_UNSUPPORTED("strcasecmp arguments");
    if (g_ispkg) return 0; int r; __CPROVER_assume(r != 0); return r;
}
void *vp_hash_find(const void *head, const char *p)
{
    VP_ASSERT(head == CTX->keymask_map, "mask.cache-of-this-context");
    VP_ASSERT(g_L ? is_dir(p) : p[0] == '/' && p[1] == 0, "mask.looks-up-directory");
    VP_ASSERT(!g_ispkg, "mask.package-file-not-masked-by-its-own-directory");
    return g_cached ? &item : NULL;
}
void *vp_hash_add(void *head, const char *p, size_t n, void *it) { VP_UNSUPPORTED("adds to the cache"); return head; }
int snprintf(char *buf, size_t size, const char *fmt, ...)
{
    size_t n; va_list ap;
    if (!(fmt[0] == '%' && fmt[1] == 's' && fmt[2] == '/' && fmt[3] == '%' && fmt[4] == 's' && fmt[5] == 0)) VP_UNSUPPORTED("snprintf format");
    va_start(ap, fmt); const char *a = va_arg(ap, const char *), *b = va_arg(ap, const char *); va_end(ap);
    VP_ASSERT(a == CTX->basedir, "mask.below-library-directory"); VP_ASSERT(is_pkg(b), "mask.package-file-of-directory");
    VP_ASSERT(__CPROVER_w_ok(buf, size) && size >= 4096, "mask.full-path-room"); g_full = buf;
    __CPROVER_assume(n < size); buf[n] = 0; return (int)n;
}
char *mlle_io_read_file(const char *p, size_t *size, struct mlle_error **e)
{
    VP_ASSERT(p == g_full && p && *e == NULL, "mask.reads-package-file-of-directory"); g_reads++;
    if (!g_exists) { *e = E; return NULL; }
    g_size = nd_range(0, 1UL << 30); g_file = nd_buf(g_size + 1); *size = g_size; return g_file;
}
void mlle_error_free(struct mlle_error **e) { if (*e) { VP_ASSERT(*e == E && !g_errfreed, "mask.error-freed"); g_errfreed = 1; *e = NULL; } }
static int keep_key(const unsigned char *k) { return k[g_j] == key0j; }
static unsigned char *g_key;
int ct_decrypt(mlle_cr_context *c, const char *rel, char *in, size_t n, char *out)
{
    VP_ASSERT(c == CTX && is_pkg(rel) && in == g_file && n == g_size && !g_ispkg, "mask.decrypts-package-file-of-directory");
    VP_ASSERT(n == 0 || __CPROVER_w_ok(out, n), "mask.decrypt-room");
    g_decs++;
    if (n < 48 + 32 || nd_bool()) { g_decfail = 1; return -1; }
    size_t r = nd_range(0, n - 80); __CPROVER_havoc_object(out); out[r + g_j] = (char)Dj;
    return (int)r;
}
/* the contract itself, for the recursive calls: name in the directory above */
int ct_demask(mlle_cr_context *c, const char *rel, unsigned char *key)
{
    VP_ASSERT(c == CTX && key == g_key && keep_key(key), "mask.parent-of-this-key");
    VP_ASSERT(g_ispkg ? g_L && is_dir(rel) : is_pkg(rel) && !g_exists && !g_cached, "mask.parent-directory");
    g_recs++;
    if (nd_bool()) { g_recfail = 1; return -1; }
    if (g_L) { __CPROVER_havoc_object(key); key[g_j] = key0j ^ Pj; }
    return g_ispkg ? (int)nd_range(0, 1) : 1;
}
int real_demask(mlle_cr_context *, const char *, unsigned char *);
void h_demask(void)
{
    static unsigned char key[33]; size_t n = nd_range(0, 10000); int r, none = nd_bool();
    char *rel = nd_buf(n + 1); rel[n] = 0; g_rel = rel; g_n = n; g_k = nd_u64(); g_L = none ? 0 : nd_range(0, n);
    VP_ASSUME(g_L == 0 || (g_L < n && sep(rel[g_L]))); VP_ASSUME(path_facts(0) && path_facts(g_k));
    g_ispkg = nd_bool(); VP_ASSUME(!g_ispkg || n == (g_L ? g_L + 1 : 0) + 11 && (g_L || !sep(rel[0])));
    g_cached = nd_bool(); g_exists = nd_bool(); CTX = malloc(sizeof *CTX + 8); CTX->keymask_map = nd_bool() ? &item : NULL;
    g_j = nd_range(0, 31); __CPROVER_havoc_object(key); __CPROVER_havoc_object(item.key_mask); key0j = key[g_j]; Pj = nd_u8(); Dj = nd_u8();
    g_key = key; vp_alloc_failed = 0; mlle_log = NULL;
#ifdef VP_UNWOUND
    VP_ASSUME(n <= 14); for (int i = 0; i <= 14; i++) VP_ASSUME(path_facts(i));
#endif
    r = real_demask(CTX, rel, key);
    if (n > 4096 - 13) { VP_ASSERT(r == -1 && !g_reads && !g_recs, "mask.too-long-refused"); VP_COVER("mask.too-long"); return; }
    if (r < 0) { VP_ASSERT(g_recfail || g_decfail || vp_alloc_failed, "mask.fails-only-on-failure"); VP_COVER("mask.failed"); return; }
    VP_ASSERT(r == g_ispkg, "mask.result");
    unsigned char m = g_ispkg ? (g_L ? Pj : 0) : g_cached ? (unsigned char)item.key_mask[g_j] : g_exists ? Dj : g_L ? Pj : 0;
    VP_ASSERT(key[g_j] == (unsigned char)(key0j ^ m), "mask.key-bound-to-directory");
    VP_ASSERT(!g_recfail && !g_decfail, "mask.failure-reported");
    if (g_ispkg) VP_COVER("mask.package"); else if (g_cached) VP_COVER("mask.cached"); else if (g_exists) VP_COVER("mask.read"); else VP_COVER("mask.inherited");
}
