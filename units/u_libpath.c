/* Contract of mlle_lve_libpath: the library path kept is the announced path without
 * trailing separators (at least one character); one reply; failures leave no library. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_lve.h"
#include "mlle_io.h"
#include "mlle_lve_libpath.h"
#include "mlle_license_manager.h"
#include "mlle_lve_feature.h"
#include <sys/stat.h>
#include "skolem_mem.h"
static SSL *const the_ssl = (SSL *)16;
static struct mlle_lve_ctx ctx; static struct mlle_command cmd;
int vp_ph_trim_slash; char *g_data; size_t g_n, g_t, g_k;    /* path of g_n bytes, g_t of them kept */
static int g_replies, g_yes, g_err, g_created, g_badcr, g_global, g_globalfail, g_statted, g_statbad; static long g_code;
static mlle_cr_context *const CR = (mlle_cr_context *)32;
static struct mlle_license *const L = (struct mlle_license *)64; static char g_msg[2];
static struct mlle_error *const E = (struct mlle_error *)96;
static int slash(char c) { return c == '/' || c == '\\'; }
/* the definition of g_t, instantiated at i */
int trim_fact(size_t i) { return i >= g_n || (i >= g_t ? slash(g_data[i]) : i != g_t - 1 || g_t == 1 || !slash(g_data[i])); }
static void check_path(const char *p, const char *what)
{
    VP_ASSERT(p == ctx.libpath && p != NULL, "lib.path-pointer");
    VP_ASSERT(__CPROVER_r_ok(p, g_t + 1) && p[g_t] == 0, "lib.path-length");
    if (g_k < g_t) VP_ASSERT(p[g_k] == g_data[g_k], "lib.path-exact");
}
mlle_cr_context *mlle_cr_create(const char *p) { check_path(p, "create"); g_created++; if (nd_bool()) { g_badcr = 1; return NULL; } return CR; }
int vp_stat(const char *p, struct stat *s) { check_path(p, "stat"); g_statted++; g_statbad = nd_bool(); if (g_statbad && nd_bool()) return -1; struct stat z; *s = z; __CPROVER_assume(g_statbad == !(s->st_mode & S_IFDIR)); return 0; }
void mlle_send_error(SSL *s, long code, const char *t) { VP_ASSERT(s == the_ssl, "lib.connection"); g_replies++; g_err = 1; g_code = code; VP_ASSERT(t != NULL || vp_alloc_failed, "lib.error-text"); }
void mlle_send_simple_form(SSL *s, enum mlle_protocol_command_id id) { VP_ASSERT(s == the_ssl, "lib.connection"); g_replies++; g_yes = id == MLLE_PROTOCOL_YES_CMD; }
int mlle_lve_setup_licensing(struct mlle_lve_ctx *l, struct mlle_error **e) { VP_ASSERT(l == &ctx, "lib.context"); if (nd_bool()) { *e = E; g_globalfail = 1; return 0; } l->lic_mgr = L; return 1; }
int mlle_license_checkout_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e)
{
    VP_ASSERT(m == L && n == 3 && f[0] == 'G' && f[1] == 'L' && f[2] == 'F', "global.feature-name"); g_global++;
    if (nd_bool()) { *e = E; g_globalfail = 1; return 0; }
    return 1;
}
char *mlle_error_get_message(struct mlle_error *e) { VP_ASSERT(e == E, "lib.error"); return g_msg; }
void mlle_error_free(struct mlle_error **e) { *e = NULL; }
void h_libpath(void)
{
    int cli = nd_bool(), r, app; size_t n = nd_range(0, 1UL << 30);
    g_data = nd_buf(n + 1); g_n = n; g_t = nd_range(1, 1UL << 30); VP_ASSUME(n == 0 || g_t <= n); g_k = nd_u64(); vp_ph_trim_slash = 0;
    VP_ASSUME(trim_fact(n - 1) && trim_fact(g_t - 1));
#ifdef VP_UNWOUND
    VP_ASSUME(n <= 5); for (int i = 0; i < 5; i++) VP_ASSUME(trim_fact(i));      /* the definition of g_t, at every position */
    vp_trk[4] = 0; vp_trk[5] = 1; vp_trk[6] = 2; vp_trk[7] = 3;
#endif
    vp_trk[0] = g_k; vp_trk[1] = n - 1; vp_trk[2] = g_t - 1; vp_trk[3] = g_t;
    ctx.ssl = cli ? NULL : the_ssl; ctx.libpath = NULL; ctx.lic_mgr = NULL; ctx.tool_approved = app = nd_bool(); ctx.cr_context = NULL;
    cmd.length = n; cmd.data = n == 0 && nd_bool() ? NULL : g_data; vp_alloc_failed = 0;
    r = mlle_lve_libpath(&ctx, &cmd, cli);
    VP_ASSERT(g_replies == !cli, "lib.exactly-one-reply");
    VP_ASSERT(cmd.data == NULL || cmd.data == g_data, "lib.command-unchanged");
    if (n == 0 || vp_alloc_failed && !g_created || g_badcr) {
        VP_ASSERT(ctx.libpath == NULL && r == 0, "lib.failure-leaves-no-library");
        VP_ASSERT(cli || g_err, "lib.failure-answered");
        if (n == 0) VP_ASSERT(cli || g_code == MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR, "lib.missing-path");
        VP_ASSERT(ctx.tool_approved == app, "lib.approval-unchanged");
        VP_COVER("lib.failed");
    } else {
        check_path(ctx.libpath, "result");
        VP_ASSERT(ctx.path_size == g_t, "lib.path-size");
        VP_ASSERT(ctx.cr_context == CR && g_created == 1, "lib.decryption-for-this-library");
        if (g_globalfail) {
            VP_ASSERT(!ctx.tool_approved && app, "global.refusal-revokes-approval");
            VP_ASSERT(cli || g_err && g_code == MLLE_PROTOCOL_LICENSE_ERROR, "global.refusal-answered");
        } else {
            VP_ASSERT(ctx.tool_approved == app, "lib.approval-unchanged");
#ifdef MLLE_GLOBAL_LICENSE_FEATURE
            VP_ASSERT(g_global == app, "global.checked-out-for-approved-tools");
#endif
            VP_ASSERT(cli || g_yes, "lib.yes");
            VP_ASSERT(g_statted && (r != 0) == !g_statbad, "lib.directory-checked");
        }
        VP_COVER("lib.ok");
    }
}
