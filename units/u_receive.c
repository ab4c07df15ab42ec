/* Contract of mlle_lve_receive: serves messages until the connection ends, each
 * with exactly one reply before the next is read; the automaton state is threaded
 * from one message to the next.  Callees are replaced by their contracts. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_lve.h"
#include "mlle_io.h"
#include "mlle_parse_command.h"
#include "mlle_lve_pubkey.h"
static SSL *const the_ssl = (SSL *)16;
int vp_ph_lve_receive;
static struct mlle_lve_ctx ctx;
int g_validated, g_reply_due, g_parsed, g_ended, g_down; enum mlle_lve_state g_state; char *g_msg; size_t g_len, g_k;
static size_t nx_len; 
void mlle_lve_validate_pubkey(struct mlle_lve_ctx *l) { VP_ASSERT(l == &ctx, "receive.arguments"); g_validated = 1; }
char *vp_fresh(size_t n) { char *p = __CPROVER_allocate(n, 0); return p; }
int ssl_read_message(SSL *s, char **b, int *e)
{
    VP_ASSERT(s == the_ssl, "receive.connection");
    VP_ASSERT(g_validated, "receive.tool-validated-first");
    VP_ASSERT(!g_reply_due, "receive.every-message-answered");
    VP_ASSERT(!g_ended, "receive.stops-at-the-end");
    if (nd_bool()) { g_ended = 1; *e = nd_int(); return LE_EOF; }
    g_len = nd_range(1, 1UL << 30); g_msg = vp_fresh(g_len); g_k = nd_range(0, g_len - 1);
    g_reply_due = 1; g_parsed = 0; vp_alloc_failed = 0; *b = g_msg;
    return (int)g_len;
}
int vp_SSL_get_shutdown(const SSL *s) { VP_ASSERT(s == the_ssl, "receive.connection"); if (nd_bool()) return 0; VP_ASSERT(!g_reply_due, "receive.every-message-answered"); g_ended = 1; return (int)nd_range(1, 3); }
enum mlle_grammar_error_t mlle_parse_command(char *str, struct mlle_command *c, char *err, size_t n)
{
    VP_ASSERT(g_reply_due && !g_parsed, "receive.parses-each-message-once");
    VP_ASSERT(__CPROVER_r_ok(str, g_len + 1) && str[g_len] == 0, "receive.text-terminated");
    VP_ASSERT(str[g_k] == g_msg[g_k], "receive.text-is-the-message");
    VP_ASSERT(__CPROVER_rw_ok(err, n), "receive.error-buffer");
    g_parsed = 1;
    c->id = MLLE_PROTOCOL_UNDEFINED_CMD; c->number = 0; c->length = 0; c->data = NULL;
    if (nd_bool()) return (enum mlle_grammar_error_t)nd_range(LE_UNKNOWN_ERROR, LE_NEGATIVE_LENGTH);
    c->id = (enum mlle_protocol_command_id)nd_range(1, MLLE_PROTOCOL_COMMAND_ID_SIZE - 1); c->number = nd_long(); c->length = nd_range(0, LONG_MAX);
    g_parsed = 2;
    return LE_VALID_GRAMMAR;
}
enum mlle_lve_state ct_handle(struct mlle_lve_ctx *l, enum mlle_lve_state s, struct mlle_command *c, char *err, size_t errn, char *b, size_t n)
{
    VP_ASSERT(l == &ctx && b == g_msg && n == g_len, "receive.handles-this-message");
    VP_ASSERT(g_parsed == 2, "receive.handles-only-wellformed");
    VP_ASSERT(s == g_state, "receive.state-threaded");
    VP_ASSERT(c->data == NULL && c->id > 0 && c->id < MLLE_PROTOCOL_COMMAND_ID_SIZE, "receive.command");
    VP_ASSERT(g_reply_due, "receive.one-reply"); g_reply_due = 0;
    VP_COVER("receive.handled");
    g_state = (enum mlle_lve_state)nd_range(1, 4);
    return g_state;
}
void mlle_send_error(SSL *s, long code, const char *t)
{
    VP_ASSERT(s == the_ssl, "receive.connection");
    VP_ASSERT(g_reply_due && (g_parsed == 1 || (!g_parsed && vp_alloc_failed)), "receive.error-only-for-malformed"); g_reply_due = 0;
    VP_ASSERT(code == MLLE_PROTOCOL_COMMAND_NOT_UNDERSTOOD_ERROR || (!g_parsed && code == MLLE_PROTOCOL_OTHER_ERROR), "receive.malformed-error-1");
    if (!g_parsed) VP_COVER("receive.no-memory");
    VP_COVER("receive.malformed");
}
#include "skolem_mem.h"
void *vp_rcv_memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_assert(__CPROVER_w_ok(d, n), "memcpy: destination writable"); __CPROVER_assert(__CPROVER_r_ok(s, n), "memcpy: source readable");
    char v_; if (g_k < n) v_ = ((const char *)s)[g_k];
    if (n) __CPROVER_havoc_slice(d, n);
    if (g_k < n) ((char *)d)[g_k] = v_;
    return d;
}
void h_receive(void)
{
    ctx.ssl = the_ssl; ctx.libpath = NULL; vp_alloc_failed = 0;
    g_validated = g_reply_due = g_parsed = g_ended = 0; g_state = MLLE_LVE_STATE_VERSION; vp_ph_lve_receive = 0;
    mlle_lve_receive(&ctx);
    VP_ASSERT(g_ended && !g_reply_due && g_validated, "receive.serves-until-the-end");
    VP_COVER("receive.returns");
}
