/* Contract of mlle_store_keymask: the mask at the end of a package.moc is filed under
 * exactly the directory of that file, once. */
#include "vp.h"
#include <stddef.h>
#include "libcrypto-compat.h"
#include "mlle_cr_decrypt.h"
#include "mlle_cr_context.h"
#include "mlle_error.h"
#include "skolem_mem.h"
FILE *mlle_log;
static char *g_rel; static size_t g_n, g_L, g_k, g_j; static int g_found, g_added; static struct mlle_cr_context *CTX; static struct mlle_key_mask_map item; static char mask[32];
static struct mlle_key_mask_map *head0, *head1; static int fill;
size_t vp_strlen(const char *s) { if (s != g_rel) VP_UNSUPPORTED("strlen argument"); return g_n; }
static int is_dir(const char *p) { return g_L ? p[g_L] == 0 && (g_k >= g_L || p[g_k] == g_rel[g_k]) : p[0] == '/' && p[1] == 0; }
void *vp_hash_find(const void *head, const char *p)
{ VP_ASSERT(head == head0, "mask.cache-of-this-context"); VP_ASSERT(is_dir(p), "mask.looks-up-directory"); return g_found ? &item : NULL; }
void *vp_hash_add(void *head, const char *p, size_t n, void *it)
{
    struct mlle_key_mask_map *m = it;
    VP_ASSERT(head == head0 && !g_added && !g_found, "mask.stored-once");
    VP_ASSERT(m->relpath == p && __CPROVER_r_ok(p, n + 1) && n == (g_L ? g_L : 1), "mask.stored-key-length");
    VP_ASSERT(g_L ? g_k >= g_L || p[g_k] == g_rel[g_k] : p[0] == '/', "mask.stored-under-directory");
    VP_ASSERT(m->key_mask[g_j] == mask[g_j], "mask.stored-mask");
    g_added = 1; return head1;
}
int mlle_store_keymask(mlle_cr_context *, const char *, const char *);
void h_store(void)
{
    size_t n = nd_range(11, 4083); VP_ASSUME(n == 11 || n >= 13);
    g_rel = nd_buf(n + 1); g_rel[n] = 0; g_n = n; g_L = n == 11 ? 0 : n - 12; g_k = nd_range(0, 5000); g_j = nd_range(0, 31);
    __CPROVER_havoc_object(mask); vp_trk[0] = g_L ? g_k : 0; vp_trk[1] = offsetof(struct mlle_key_mask_map, buffer) + (g_L ? g_k : 0); vp_trk[2] = offsetof(struct mlle_key_mask_map, key_mask) + g_j; vp_trk[3] = 5001;
    CTX = malloc(sizeof *CTX + 8); head0 = nd_bool() ? &item : NULL; head1 = (void *)&fill; CTX->keymask_map = head0; g_found = nd_bool(); vp_alloc_failed = 0; mlle_log = NULL;
    int r = mlle_store_keymask(CTX, g_rel, mask);
    VP_ASSERT(r == 0 || (r == -1 && vp_alloc_failed && !g_added), "mask.store-fails-only-without-memory");
    VP_ASSERT(r < 0 || g_added == !g_found, "mask.stored"); VP_ASSERT(CTX->keymask_map == (g_added ? head1 : head0), "mask.cache-updated");
    if (g_added) VP_COVER("mask.added"); if (r < 0) VP_COVER("mask.nomem");
}
