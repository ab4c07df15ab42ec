/* Contract of mlle_lve_handle_command (with mlle_next_state inlined): one step of
 * the protocol automaton.  Every callee is replaced by its contract. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_lve.h"
#include "mlle_io.h"
#include "mlle_lve_tools.h"
#include "mlle_lve_libpath.h"
#include "mlle_lve_license.h"
#include "mlle_lve_feature.h"
#include "mlle_lve_file.h"
#include "spec_protocol.h"
static SSL *const the_ssl = (SSL *)16;
enum { H_TOOLS = 1, H_LIB, H_FEATURE, H_RETURNFEATURE, H_LICENSE, H_RETURNLICENSE, H_FILE };
static struct mlle_lve_ctx ctx; static struct mlle_command cmd;
static int g_replies, g_handler, g_calls, g_err, g_extracted, g_complete, g_vreply; static long g_errcode; static char *g_buffer; static size_t g_buflen;
static char data_obj[8];
size_t extract_data(struct mlle_command **c, char *buffer, size_t n)
{
    VP_ASSERT(*c == &cmd && buffer == g_buffer && n == g_buflen, "handle.payload-of-this-message");
    VP_ASSERT(cmd.data == NULL, "handle.no-stale-payload");
    g_extracted++;
    if (nd_range(0, 3) == 0) { g_complete = 0; cmd.data = NULL; return 0; }
    size_t got = nd_range(0, cmd.length);
    g_complete = got == cmd.length;
    cmd.data = __CPROVER_allocate(8, 0);
    return got;
}
void mlle_send_error(SSL *s, long code, const char *t) { VP_ASSERT(s == the_ssl, "handle.connection"); g_replies++; g_err = 1; g_errcode = code; VP_ASSERT(t != NULL, "handle.error-text"); }
void mlle_send_simple_form(SSL *s, enum mlle_protocol_command_id id) { g_replies++; }
int mlle_send_number_form(SSL *s, enum mlle_protocol_command_id id, long n) { VP_ASSERT(s == the_ssl, "handle.connection"); g_replies++; g_vreply = id == MLLE_PROTOCOL_VERSION_CMD && n == 1; return 1; }
static void handler(int h, struct mlle_lve_ctx *l, const struct mlle_command *c)
{ VP_ASSERT(l == &ctx && c == &cmd, "handle.arguments"); g_calls++; g_handler = h; g_replies++; VP_ASSERT(c->data != NULL && g_complete, "handle.only-complete-payload"); }
int mlle_lve_tools(struct mlle_lve_ctx *l) { VP_ASSERT(l == &ctx, "handle.arguments"); g_calls++; g_handler = H_TOOLS; g_replies++; return 1; }
int mlle_lve_libpath(struct mlle_lve_ctx *l, const struct mlle_command *c, const int cli)
{ handler(H_LIB, l, c); VP_ASSERT(!cli, "handle.answers-the-tool"); l->libpath = nd_bool() ? NULL : __CPROVER_allocate(2, 0); return nd_bool(); }
int mlle_lve_feature(struct mlle_lve_ctx *l, const struct mlle_command *c, const int cli) { handler(H_FEATURE, l, c); VP_ASSERT(!cli, "handle.answers-the-tool"); return nd_bool(); }
int mlle_lve_returnfeature(struct mlle_lve_ctx *l, const struct mlle_command *c) { handler(H_RETURNFEATURE, l, c); return nd_bool(); }
int mlle_lve_license(struct mlle_lve_ctx *l, const struct mlle_command *c) { handler(H_LICENSE, l, c); return 0; }
int mlle_lve_returnlicense(struct mlle_lve_ctx *l, const struct mlle_command *c) { handler(H_RETURNLICENSE, l, c); return 0; }
int mlle_lve_file(struct mlle_lve_ctx *l, const struct mlle_command *c) { handler(H_FILE, l, c); return nd_bool(); }
int snprintf(char *buf, size_t size, const char *fmt, ...)
{
    size_t n; __CPROVER_assume(n <= 60);   /* only command names are inserted one by one */
    if (size) { size_t last = n < size ? n : size - 1; __CPROVER_assert(__CPROVER_w_ok(buf, last + 1), "snprintf: output within destination"); buf[last] = 0; }
    return (int)n;
}
void h_handle(void)
{
    enum mlle_lve_state s = (enum mlle_lve_state)nd_range(1, 4), r; char err[4096];
    int c = (int)nd_range(0, SPEC_NCMD - 1), h = 0; size_t buflen = nd_range(1, 1UL << 30);
    enum mlle_protocol_command_id id = spec_cmds[c].id; enum mlle_lve_state to = s;
    ctx.ssl = the_ssl;
    ctx.libpath = s == MLLE_LVE_STATE_LICENSE ? __CPROVER_allocate(2, 0) : NULL;   /* invariant: a library is set exactly in this state */
    cmd.id = id; cmd.number = 0; cmd.length = 0; cmd.data = NULL;
    if (spec_cmds[c].form == SF_NUMBER || spec_cmds[c].form == SF_NUMLEN) cmd.number = nd_long();
    if (spec_cmds[c].form == SF_LENGTH || spec_cmds[c].form == SF_NUMLEN) cmd.length = nd_range(0, LONG_MAX);
    long number = cmd.number;
    g_buffer = nd_buf(buflen); g_buflen = buflen;
    r = mlle_lve_handle_command(&ctx, s, &cmd, err, sizeof err, g_buffer, buflen);
    int in_order = 1, code = 0;
    switch (id) {
    case MLLE_PROTOCOL_VERSION_CMD: in_order = s == MLLE_LVE_STATE_VERSION; if (in_order) { if (number >= 1) to = MLLE_LVE_STATE_TOOLS; else code = MLLE_PROTOCOL_VERSION_TOO_LOW_ERROR; } break;
    case MLLE_PROTOCOL_TOOLS_CMD: in_order = s == MLLE_LVE_STATE_TOOLS; h = H_TOOLS; to = MLLE_LVE_STATE_LIB; break;
    case MLLE_PROTOCOL_LIB_CMD: in_order = s == MLLE_LVE_STATE_TOOLS || s == MLLE_LVE_STATE_LIB; h = H_LIB; if (g_handler == H_LIB && ctx.libpath) to = MLLE_LVE_STATE_LICENSE; break;
    case MLLE_PROTOCOL_FEATURE_CMD: in_order = s == MLLE_LVE_STATE_LICENSE; h = H_FEATURE; break;
    case MLLE_PROTOCOL_RETURNFEATURE_CMD: in_order = s == MLLE_LVE_STATE_LICENSE; h = H_RETURNFEATURE; break;
    case MLLE_PROTOCOL_LICENSE_CMD: in_order = s == MLLE_LVE_STATE_LICENSE; h = H_LICENSE; break;
    case MLLE_PROTOCOL_RETURNLICENSE_CMD: in_order = s == MLLE_LVE_STATE_LICENSE; h = H_RETURNLICENSE; break;
    case MLLE_PROTOCOL_FILE_CMD: in_order = s == MLLE_LVE_STATE_LICENSE; h = H_FILE; break;
    default: in_order = 0;
    }
    int payload_ok = spec_cmds[c].form != SF_LENGTH || g_complete;
    VP_ASSERT(g_replies == 1, "handle.exactly-one-reply");
    VP_ASSERT(cmd.data == NULL, "handle.payload-released");
    if (!in_order || !payload_ok) {
        VP_ASSERT(r == s, "handle.rejected-command-keeps-state");
        VP_ASSERT(g_calls == 0, "handle.rejected-command-has-no-effect");
        VP_ASSERT(g_err && g_errcode == MLLE_PROTOCOL_COMMAND_NOT_UNDERSTOOD_ERROR, "handle.rejected-command-error-1");
        VP_COVER("handle.rejected");
    } else {
        VP_ASSERT(r == to, "handle.next-state");
        VP_ASSERT(g_calls == (h != 0) && g_handler == h, "handle.right-handler");
        if (code) VP_ASSERT(g_err && g_errcode == code, "handle.version-too-low");
        else if (!h) VP_ASSERT(!g_err && g_vreply, "handle.version-reply");
        VP_COVER("handle.served");
    }
    VP_ASSERT((r == MLLE_LVE_STATE_LICENSE) == (ctx.libpath != NULL), "handle.library-set-exactly-in-license-state");
}
