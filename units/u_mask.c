/* Contract of mlle_mask_key: the encrypting side binds the key to the directory the
 * way mlle_demask_key undoes it: a file uses the mask of its directory, which is the
 * new mask its package.mo gets, or that of the parent directory. */
#include "vp.h"
#include <stddef.h>
#include "libcrypto-compat.h"
#include "mlle_cr_decrypt.h"
#include "mlle_cr_context.h"
#include "mlle_error.h"
#include "skolem_mem.h"
FILE *mlle_log;
int vp_ph_demask_path, vp_ph_mask_path;
const char *g_rel; size_t g_n, g_L, g_k; static size_t g_j;
static int g_ispkg, g_found, g_added, g_recs, g_recfail, g_rand, g_fail; static struct mlle_cr_context *CTX; static struct mlle_key_mask_map item, *head0, *head1, *g_item; static int fill;
static unsigned char key0j, Pj, Rj, *g_key, *g_store, g_itemj;
static int sep(char c) { return c == '/' || c == '\\'; }
int path_facts(size_t i) { return i > g_n || (i == g_n ? g_rel[i] == 0 : g_rel[i] != 0 && (!sep(g_rel[i]) || i <= g_L)); }
static int dir_text(const char *p) { return g_L ? g_k >= g_L || p[g_k] == g_rel[g_k] : p[0] == '/'; }
static int is_dir(const char *p) { return dir_text(p) && p[g_L ? g_L : 1] == 0; }
static int lit(const char *p, const char *t) { for (int i = 0; i < 13; i++) { if (p[i] != t[i]) return 0; if (!t[i]) return 1; } return 1; }
int vp_strcasecmp(const char *a, const char *b)
{
    const char *base = g_L ? g_rel + g_L + 1 : g_rel;
    if (a == base) { const char *t = a; a = b; b = t; }
    if (b != base || !lit(a, "package.mo")) VP_UNSUPPORTED("strcasecmp arguments");
    if (g_ispkg) return 0; int r; __CPROVER_assume(r != 0); return r;
}
void *vp_hash_find(const void *head, const char *p)
{ VP_ASSERT(head == head0, "mask.cache-of-this-context"); VP_ASSERT(is_dir(p), "mask.looks-up-directory"); return g_found ? &item : NULL; }
void *vp_hash_add(void *head, const char *p, size_t n, void *it)
{
    struct mlle_key_mask_map *m = it;
    VP_ASSERT(head == head0 && !g_added && !g_found, "mask.stored-once");
    VP_ASSERT(m->relpath == p && __CPROVER_r_ok(p, n + 1) && n == (g_L ? g_L : 1), "mask.stored-key-length");
    VP_ASSERT(dir_text(p), "mask.stored-under-directory");
    VP_ASSERT((unsigned char)m->key_mask[g_j] == (g_ispkg ? Rj : g_L ? Pj : 0), "mask.stored-mask");
    VP_ASSERT(!g_ispkg || g_rand == 1, "mask.random-mask");
    g_added = 1; g_item = it; return head1;
}
int RAND_bytes(unsigned char *b, int n)
{
    VP_ASSERT(b == g_store && n == 32 && g_ispkg, "mask.random-mask");
    if (nd_bool()) { g_fail = 1; return nd_bool() ? 0 : -1; }
    g_rand++; __CPROVER_havoc_slice(b, 32); Rj = b[g_j]; return 1;
}
int ct_mask(mlle_cr_context *c, const char *rel, unsigned char *key, unsigned char *store)
{
    VP_ASSERT(c == CTX && g_L && is_dir(rel), "mask.parent-directory");
    VP_ASSERT(g_ispkg ? key == g_key && key[g_j] == key0j : !g_found && key != g_key && key[g_j] == 0, "mask.parent-of-this-key");
    g_recs++;
    if (nd_bool()) { g_recfail = 1; return nd_bool() ? -1 : 1; }
    key[g_j] ^= Pj; return 0;
}
int real_mask(mlle_cr_context *, const char *, unsigned char *, unsigned char *);
void h_mask(void)
{
    static unsigned char key[33], store[32]; size_t n = nd_range(0, 6000); int r, none = nd_bool();
    char *rel = nd_buf(n + 1); rel[n] = 0; g_rel = rel; g_n = n; g_k = nd_range(0, 7000); g_L = none ? 0 : nd_range(0, n); g_j = nd_range(0, 31);
    VP_ASSUME(g_L == 0 || (g_L < n && sep(rel[g_L]) && rel[0] != '/')); VP_ASSUME(path_facts(0) && path_facts(g_k));
#ifdef LONGPATH
    VP_ASSUME(n >= 4096);
#else
    VP_ASSUME(n < 4096);
#endif
    g_ispkg = nd_bool(); VP_ASSUME(!g_ispkg || n == (g_L ? g_L + 1 : 0) + 10 && (g_L || !sep(rel[0])));
    vp_trk[0] = offsetof(struct mlle_key_mask_map, buffer) + (g_L ? g_k : 0); vp_trk[1] = offsetof(struct mlle_key_mask_map, key_mask) + g_j; vp_trk[2] = g_j; vp_trk[3] = offsetof(struct mlle_key_mask_map, buffer) + (g_L ? g_L : 1);
    __CPROVER_havoc_object(key); __CPROVER_havoc_object(item.key_mask); key0j = key[g_j]; Pj = nd_u8(); g_itemj = (unsigned char)item.key_mask[g_j];
    CTX = malloc(sizeof *CTX + 8); head0 = nd_bool() ? &item : NULL; head1 = (void *)&fill; CTX->keymask_map = head0; g_found = nd_bool(); VP_ASSUME(!g_found || head0);
    g_key = key; g_store = store; vp_alloc_failed = 0; mlle_log = NULL;
    r = real_mask(CTX, rel, key, store);
    if (r < 0) { VP_ASSERT(g_recfail || g_fail || vp_alloc_failed || (g_ispkg && g_found), "mask.fails-only-on-failure"); VP_ASSERT(!g_added, "mask.failure-stores-nothing"); VP_COVER("mask.failed"); return; }
    VP_ASSERT(!g_recfail && !g_fail && !(g_ispkg && g_found), "mask.failure-reported");
    VP_ASSERT(r == g_ispkg && g_added == !g_found, "mask.result"); VP_ASSERT(CTX->keymask_map == (g_added ? head1 : head0), "mask.cache-updated");
    unsigned char m = g_ispkg ? (g_L ? Pj : 0) : g_found ? g_itemj : g_L ? Pj : 0;
    VP_ASSERT(key[g_j] == (unsigned char)(key0j ^ m), "mask.key-bound-to-directory");
    VP_ASSERT(!g_ispkg || store[g_j] == Rj, "mask.new-mask-for-the-file");
    if (g_ispkg) VP_COVER("mask.package"); else if (g_found) VP_COVER("mask.cached"); else VP_COVER("mask.inherited");
}
