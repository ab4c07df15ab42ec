/* Contracts of the FEATURE/RETURNFEATURE/LICENSE/RETURNLICENSE/TOOLS handlers: the
 * answer is the license manager's decision. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_lve.h"
#include "mlle_io.h"
#include "mlle_license_manager.h"
#include "mlle_lve_feature.h"
#include "mlle_lve_license.h"
#include "mlle_lve_tools.h"
static SSL *const the_ssl = (SSL *)16;
static struct mlle_lve_ctx ctx; static struct mlle_command cmd;
static struct mlle_license *const L = (struct mlle_license *)64;
static struct mlle_error *const E = (struct mlle_error *)96; static char msg_obj[2] = "m"; static char lib[2];
static int g_new, g_newfail, g_check, g_kind, g_granted, g_freed, g_replies, g_rkind; static long g_code;
enum { R_NONE, R_SIMPLE, R_STRING, R_ERROR, R_NUMBER };
static enum mlle_protocol_command_id g_rid; static const char *g_text;
struct mlle_license *mlle_license_new(const char *p, struct mlle_error **e)
{
    VP_ASSERT(p == lib && e && *e == NULL, "license.for-the-library"); g_new++;
    if (nd_bool()) { *e = E; g_newfail = 1; return NULL; }
    return L;
}
static int decide(int kind, struct mlle_license *m, size_t n, const char *f, struct mlle_error **e)
{
    VP_ASSERT(m == L, "license.manager"); VP_ASSERT(n == cmd.length && f == cmd.data, "license.feature-exact"); VP_ASSERT(e && *e == NULL, "license.error-slot");
    g_check++; g_kind = kind; g_granted = nd_bool();
    if (!g_granted) *e = E;
    return g_granted;
}
int mlle_license_checkout_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e) { return decide(1, m, n, f, e); }
int mlle_license_checkin_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e) { return decide(2, m, n, f, e); }
char *mlle_error_get_message(struct mlle_error *e) { VP_ASSERT(e == E && !g_freed, "license.error-message-of-this-error"); return msg_obj; }
void mlle_error_free(struct mlle_error **e) { if (e && *e) { VP_ASSERT(*e == E && !g_freed, "license.error-freed-once"); g_freed = 1; *e = NULL; } }
static void reply(SSL *s, int k) { VP_ASSERT(s == the_ssl, "license.connection"); g_replies++; g_rkind = k; }
void mlle_send_error(SSL *s, long code, const char *t) { reply(s, R_ERROR); g_code = code; g_text = t; VP_ASSERT(!g_freed, "license.text-still-valid"); }
void mlle_send_string(SSL *s, enum mlle_protocol_command_id id, const char *t) { reply(s, R_STRING); g_rid = id; g_text = t; VP_ASSERT(!g_freed, "license.text-still-valid"); }
void mlle_send_length_form(SSL *s, enum mlle_protocol_command_id id, size_t n, const char *t) { VP_ASSERT(t != msg_obj || n == 1, "license.whole-text"); mlle_send_string(s, id, t); }
void mlle_send_number_and_length_form(SSL *s, enum mlle_protocol_command_id id, long code, size_t n, const char *t) { VP_ASSERT(id == MLLE_PROTOCOL_ERROR_CMD && (t != msg_obj || n == 1), "license.whole-text"); mlle_send_error(s, code, t); }
void mlle_send_simple_form(SSL *s, enum mlle_protocol_command_id id) { reply(s, R_SIMPLE); g_rid = id; }
int mlle_send_number_form(SSL *s, enum mlle_protocol_command_id id, long n) { reply(s, R_NUMBER); g_rid = id; return 1; }
void h_feature(void)
{
    int op = (int)nd_range(0, 5), had, r = 0;    /* 5: checkout from the command line */
    ctx.ssl = op == 5 ? NULL : the_ssl; ctx.libpath = lib; ctx.lic_mgr = nd_bool() ? L : NULL; had = ctx.lic_mgr != NULL;
    cmd.length = nd_u64(); cmd.data = msg_obj + 1;
    if (op == 0) r = mlle_lve_feature(&ctx, &cmd, 0);
    else if (op == 1) r = mlle_lve_returnfeature(&ctx, &cmd);
    else if (op == 2) mlle_lve_license(&ctx, &cmd);
    else if (op == 3) mlle_lve_returnlicense(&ctx, &cmd);
    else if (op == 4) mlle_lve_tools(&ctx);
    else r = mlle_lve_feature(&ctx, &cmd, 1);
    VP_ASSERT(g_replies == (op != 5), "license.exactly-one-reply");
    VP_ASSERT(ctx.libpath == lib && ctx.ssl == (op == 5 ? NULL : the_ssl), "license.context-unchanged");
    if (op == 2 || op == 3) { VP_ASSERT(g_rkind == R_SIMPLE && g_rid == MLLE_PROTOCOL_NOTSIMPLE_CMD && !g_new && !g_check, "license.not-simple"); return; }
    if (op == 4) { VP_ASSERT(g_rkind != R_ERROR && !g_new && !g_check, "license.tools"); return; }
    VP_ASSERT(g_new == !had && (had ? ctx.lic_mgr == L : ctx.lic_mgr == (g_newfail ? NULL : L)), "license.manager-created-once");
    if (g_newfail) {
        VP_ASSERT(!g_check && r == 0, "license.no-decision-without-manager");
        if (op != 5) VP_ASSERT(g_rkind == R_ERROR && g_code == MLLE_PROTOCOL_LICENSE_ERROR && g_text == msg_obj, "license.setup-failure-reported");
        VP_COVER("license.setup-failed");
    } else {
        VP_ASSERT(g_check == 1 && g_kind == (op == 1 ? 2 : 1), "license.decided-by-license-manager");
        VP_ASSERT((r != 0) == g_granted, "license.result");
        if (op == 5) return;
        if (g_granted) VP_ASSERT(g_rkind == R_SIMPLE && g_rid == MLLE_PROTOCOL_YES_CMD, "license.yes-exactly-when-granted");
        else if (op == 0) VP_ASSERT(g_rkind == R_STRING && g_rid == MLLE_PROTOCOL_NO_CMD && g_text == msg_obj, "license.no-with-reason");
        else VP_ASSERT(g_rkind == R_ERROR && g_code == MLLE_PROTOCOL_LICENSE_ERROR && g_text == msg_obj, "license.error-with-reason");
        VP_COVER("license.decided");
    }
    VP_ASSERT(!g_check || g_granted || g_freed, "license.error-freed");
}
