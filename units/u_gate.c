/* Contract of mlle_lve_validate_pubkey / validate: the tool is approved exactly when
 * it presented a public key equal to one of the embedded tool keys. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_lve.h"
#include "mlle_lve_pubkey.h"
#include "public_key_tool.h"
char *global_tool_pub_key; int vp_tool_num;
static struct mlle_lve_ctx ctx;
static unsigned char (*g_keys)[VP_TOOL_LEN]; static int g_ready, g_eq[VP_TOOL_MAX], g_cleared, g_compared;
void vp_tool_init(unsigned char k[VP_TOOL_MAX][VP_TOOL_LEN]) { g_keys = k; g_ready = 1; }
void vp_tool_clear(unsigned char k[VP_TOOL_MAX][VP_TOOL_LEN]) { VP_ASSERT(k == g_keys, "gate.clears-its-keys"); g_ready = 0; g_cleared = 1; }
/* strcmp: 0 exactly when the texts are equal; g_eq[i]: the presented key equals key i */
int vp_strcmp(const char *a, const char *b)
{
    if (a != global_tool_pub_key) { const char *t = a; a = b; b = t; }
    if (a != global_tool_pub_key || a == NULL) VP_UNSUPPORTED("strcmp on something else than the presented key");
    for (int i = 0; i < VP_TOOL_MAX; i++)
        if (g_keys && b == (const char *)g_keys[i]) {
            VP_ASSERT(g_ready && i < vp_tool_num, "gate.compares-with-an-embedded-key");
            if (g_eq[i]) return 0;
            int r; __CPROVER_assume(r != 0); return r;
        }
    VP_UNSUPPORTED("strcmp on something else than an embedded key");
    return 1;
}
void h_gate(void)
{
    int want = 0;
    vp_tool_num = (int)nd_range(1, VP_TOOL_MAX);
    global_tool_pub_key = nd_bool() ? NULL : nd_buf(2);
    for (int i = 0; i < VP_TOOL_MAX; i++) { g_eq[i] = nd_bool(); if (global_tool_pub_key && i < vp_tool_num && g_eq[i]) want = 1; }
    ctx.tool_approved = nd_int();
    mlle_lve_validate_pubkey(&ctx);
    VP_ASSERT((ctx.tool_approved != 0) == want, "gate.approved-exactly-when-key-embedded");
    if (!want) VP_ASSERT(ctx.tool_error_type == MLLE_PROTOCOL_TOOL_NOT_ALLOWED_ERROR && ctx.tool_error_msg != NULL, "gate.refusal-recorded");
    VP_ASSERT(g_cleared && !g_ready, "gate.embedded-keys-cleared");
    if (want) VP_COVER("gate.approved"); else VP_COVER("gate.refused");
}
