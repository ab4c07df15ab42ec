/* Contract of the tool library (mlle_licensing.c): each call sends exactly its
 * request, once, and its result says what the reply said; a failure sets the error
 * (with the reply's own text); replies that are not handed out are released.
 * mlle_read_command by contract (unit readcmd), mlle_send_* by contract (units send_*). */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_io.h"
#include "mlle_types.h"
#include "mlle_protocol.h"
#include "mlle_licensing.h"
#include "mlle_utils.h"
#include "skolem_mem.h"
static SSL *const the_ssl = (SSL *)16;
static int g_sent, g_sendfail, g_read, g_readfail, g_id, g_err, g_code, g_domain, g_released, g_op; static long g_number, g_sentno; static size_t g_len; static char *g_data; static char *g_text; static const char *g_errtext; static enum mlle_protocol_command_id g_cmd;
static int g_dummy_err; static size_t g_slen;
#ifdef VP_NATIVE
static char g_copy[64];
#endif
enum { OP_VERSION, OP_LIB, OP_FEATURE, OP_RETFEATURE, OP_LICENSE, OP_RETLICENSE, OP_FILE, OP_N };
static const enum mlle_protocol_command_id request[OP_N] = { MLLE_PROTOCOL_VERSION_CMD, MLLE_PROTOCOL_LIB_CMD, MLLE_PROTOCOL_FEATURE_CMD, MLLE_PROTOCOL_RETURNFEATURE_CMD, MLLE_PROTOCOL_LICENSE_CMD, MLLE_PROTOCOL_RETURNLICENSE_CMD, MLLE_PROTOCOL_FILE_CMD };
static int has_payload(int id) { return mlle_command_info[id].msg_form == MLLE_PROTOCOL_LENGTH_MSG_FORM || mlle_command_info[id].msg_form == MLLE_PROTOCOL_NUMBER_AND_LENGTH_MSG_FORM; }
int mlle_send_number_form(SSL *s, enum mlle_protocol_command_id c, long n)
{
    VP_ASSERT(s == the_ssl, "tool.connection"); VP_ASSERT(!g_sent && !g_read, "tool.one-request");
    g_sent = 1; g_cmd = c; g_sentno = n;
    if (nd_range(0, 7) == 7) { g_sendfail = 1; return -1; }
    return (int)nd_range(1, 60);
}
void mlle_send_string(SSL *s, enum mlle_protocol_command_id c, const char *t)
{
    VP_ASSERT(s == the_ssl, "tool.connection"); VP_ASSERT(!g_sent && !g_read, "tool.one-request");
    g_sent = 1; g_cmd = c;
#ifdef VP_CBMC
    if (t != g_text) VP_UNSUPPORTED("request text passed in another buffer");
#else
    VP_ASSERT(t != NULL && strcmp(t, g_text) == 0, "tool.request-text");
#endif
}
#ifdef VP_CBMC
/* snprintf for formats of plain text and %s (command names): exact length, text arbitrary */
int snprintf(char *b, size_t n, const char *f, ...)
{
    size_t l = 0; va_list a; va_start(a, f);
    for (int i = 0; f[i]; i++) {
        if (f[i] != '%') { l++; continue; }
        i++;
        if (f[i] != 's') VP_UNSUPPORTED("snprintf format");
        const char *t = va_arg(a, const char *); size_t j; for (j = 0; t[j] && j < 40; j++); l += j;
    }
    va_end(a);
    if (n) { size_t w = l < n ? l : n - 1; VP_ASSERT(__CPROVER_w_ok(b, w + 1), "snprintf: output within destination"); __CPROVER_havoc_slice(b, w + 1); b[w] = 0; }
    return (int)l;
}
static void set_err(struct mlle_error **e, int d, int c)
{
    g_err++; g_code = c; g_domain = d;
    if (e) { VP_ASSERT(*e == NULL, "tool.error-slot-empty"); *e = (struct mlle_error *)&g_dummy_err; }
}
void mlle_error_set_literal(struct mlle_error **e, int d, int c, const char *m)
{
    set_err(e, d, c); g_errtext = m;
    if (m == g_data && m) VP_ASSERT(!g_released, "tool.text-still-there");
}
void mlle_error_set(struct mlle_error **e, int d, int c, const char *f, ...)
{
    set_err(e, d, c); g_errtext = NULL;
    if (g_read && !g_readfail && (g_id == MLLE_PROTOCOL_ERROR_CMD || g_id == MLLE_PROTOCOL_NO_CMD)) {
        int conv = 0; for (int i = 0; f[i] && i < 90; i++) conv += f[i] == '%';
        if (conv >= 1) { va_list a; va_start(a, f); const char *t = va_arg(a, const char *); va_end(a); g_errtext = t; if (t == g_data) VP_ASSERT(!g_released, "tool.text-still-there"); }
    }
}
void vp_free(void *p)
{
    if (p && p == g_data) { VP_ASSERT(!g_released, "tool.freed-once"); g_released = 1; }
    free(p);
}
#else
#include <malloc.h>
void vp_free(void *p) { if (p && p == g_data) { VP_ASSERT(!g_released, "tool.freed-once"); g_released = 1; memset(p, 0x5a, g_len); } free(p); }
#endif
int mlle_read_command(SSL *s, struct mlle_command *c, struct mlle_error **e)
{
    VP_ASSERT(s == the_ssl, "tool.connection"); VP_ASSERT(g_sent && !g_sendfail, "tool.reply-read-after-request"); VP_ASSERT(!g_read, "tool.one-reply-per-request");
    VP_ASSERT(e == NULL || *e == NULL, "tool.error-slot-empty");
    VP_ASSERT(c->data == NULL, "tool.command-fresh");
    g_read = 1; c->id = MLLE_PROTOCOL_UNDEFINED_CMD; c->number = 0; c->length = 0; c->data = NULL;
    if (nd_range(0, 7) == 7) { g_readfail = 1; g_err++;
#ifdef VP_CBMC
        if (e) *e = (struct mlle_error *)&g_dummy_err;
#else
        g_err--; mlle_error_set_literal(e, 1, 1, "read");
#endif
        return 0; }
    g_id = (int)nd_range(1, MLLE_PROTOCOL_COMMAND_ID_SIZE - 1);
    c->id = (enum mlle_protocol_command_id)g_id; c->number = g_number = mlle_command_info[g_id].msg_form == MLLE_PROTOCOL_NUMBER_MSG_FORM || mlle_command_info[g_id].msg_form == MLLE_PROTOCOL_NUMBER_AND_LENGTH_MSG_FORM ? nd_long() : 0;
    if (has_payload(g_id)) {
        g_len = nd_range(0, VP_MAX(60, 1UL << 40)); g_data = nd_buf(g_len + 1); g_data[g_len] = 0;
#ifdef VP_NATIVE
        for (size_t i = 0; i < g_len; i++) g_data[i] = g_op == OP_FILE && g_id == MLLE_PROTOCOL_FILECONT_CMD ? (char)nd_u8() : (char)nd_range(32, 126);
#endif
#ifdef VP_NATIVE
        memcpy(g_copy, g_data, g_len + 1 > 63 ? 63 : g_len + 1); g_copy[63] = 0;
#endif
        c->length = g_len; c->data = g_data;
    }
    return 1;
}
void h_tool(void)
{
    struct mlle_connections con = {0}; struct mlle_error *e = NULL, **pe; int op = (int)nd_range(0, OP_N - 1), r, want, min = nd_int(), max = nd_int(); struct mlle_file_contents *fc = NULL;
    con.ssl = the_ssl; con.fd_to_child = con.fd_from_child = -1;
    g_sent = g_sendfail = g_read = g_readfail = g_err = g_code = g_released = g_id = 0; g_data = NULL; g_len = 0; g_errtext = NULL; g_op = op; vp_alloc_failed = 0; g_number = 0; g_domain = 0;
    pe = nd_bool() ? &e : NULL;
    g_slen = nd_range(0, VP_MAX(30, 1UL << 40)); g_text = nd_buf(g_slen + 1); g_text[g_slen] = 0;
#ifdef VP_NATIVE
    for (size_t i = 0; i < g_slen; i++) if (!g_text[i]) g_text[i] = 'x';
#endif
    if (op == OP_VERSION) r = mlle_tool_version(&con, min, max, pe);
    else if (op == OP_LIB) r = mlle_tool_libpath(&con, g_text, pe);
    else if (op == OP_FEATURE) r = mlle_tool_feature(&con, g_text, pe);
    else if (op == OP_RETFEATURE) r = mlle_tool_returnfeature(&con, g_text, pe);
    else if (op == OP_LICENSE) r = mlle_tool_license(&con, g_text, pe);
    else if (op == OP_RETLICENSE) r = mlle_tool_returnlicense(&con, g_text, pe);
    else { fc = mlle_tool_file(&con, g_text, pe); r = fc != NULL; }
    VP_ASSERT(g_sent && g_cmd == request[op], "tool.sends-its-request");
    VP_ASSERT(op != OP_VERSION || g_sentno == max, "tool.offers-highest-version");
    VP_ASSERT(g_sendfail || g_read, "tool.waits-for-reply");
    want = g_sendfail || g_readfail ? 0 : op == OP_VERSION ? g_id == MLLE_PROTOCOL_VERSION_CMD && g_number >= min && g_number <= max : op == OP_FILE ? g_id == MLLE_PROTOCOL_FILECONT_CMD : g_id == MLLE_PROTOCOL_YES_CMD;
    if (op == OP_FILE && vp_alloc_failed) want = 0;
    VP_ASSERT(r == want, "tool.result-is-what-the-reply-said");
    if (r) {
        VP_ASSERT(e == NULL, "tool.success-without-error");
#ifdef VP_CBMC
        VP_ASSERT(!g_err, "tool.success-without-error");
#endif
        if (op == OP_FILE) { VP_ASSERT(fc->file_size == g_len && fc->read_offset == 0 && fc->buffer == g_data && !g_released, "tool.file-contents"); VP_COVER("tool.file"); }
        else VP_COVER("tool.yes");
    } else {
#ifdef VP_CBMC
        VP_ASSERT(g_err == 1, "tool.failure-sets-error");
        if (!g_sendfail && !g_readfail && g_id == MLLE_PROTOCOL_ERROR_CMD) { VP_ASSERT(g_errtext == g_data, "tool.error-carries-text"); VP_COVER("tool.error"); }
        if (!g_readfail && !g_sendfail && (op == OP_FEATURE || op == OP_LICENSE)) {
            if (g_id == MLLE_PROTOCOL_NO_CMD) { VP_ASSERT(g_code == MLLE_TOOL_ERROR_NO_LICENSE && g_domain == MLLE_ERROR_DOMAIN_TOOL, "tool.refusal-code"); VP_ASSERT(g_errtext == g_data, "tool.refusal-carries-reason"); VP_COVER("tool.no"); }
            else if (op == OP_LICENSE && g_id == MLLE_PROTOCOL_NOTSIMPLE_CMD) VP_ASSERT(g_code == MLLE_TOOL_ERROR_NOT_SIMPLIFIED && g_domain == MLLE_ERROR_DOMAIN_TOOL, "tool.not-simplified-code");
            else VP_ASSERT(g_code != MLLE_TOOL_ERROR_NO_LICENSE && g_code != MLLE_TOOL_ERROR_NOT_SIMPLIFIED, "tool.refusal-code");
        }
#else
        VP_ASSERT(pe == NULL || e != NULL || vp_alloc_failed, "tool.failure-sets-error");
        if (e && !vp_alloc_failed) {
            const char *m = mlle_error_get_message(e); int code = mlle_error_get_code(e);
            VP_ASSERT(m != NULL, "tool.failure-sets-error");
            if (!g_sendfail && !g_readfail && g_id == MLLE_PROTOCOL_ERROR_CMD) VP_ASSERT(strstr(m, g_copy) != NULL, "tool.error-carries-text");
            if (!g_readfail && !g_sendfail && (op == OP_FEATURE || op == OP_LICENSE)) {
                if (g_id == MLLE_PROTOCOL_NO_CMD) { VP_ASSERT(code == MLLE_TOOL_ERROR_NO_LICENSE && mlle_error_get_domain(e) == MLLE_ERROR_DOMAIN_TOOL, "tool.refusal-code"); VP_ASSERT(strcmp(m, g_copy) == 0, "tool.refusal-carries-reason"); }
                else if (op == OP_LICENSE && g_id == MLLE_PROTOCOL_NOTSIMPLE_CMD) VP_ASSERT(code == MLLE_TOOL_ERROR_NOT_SIMPLIFIED && mlle_error_get_domain(e) == MLLE_ERROR_DOMAIN_TOOL, "tool.not-simplified-code");
                else VP_ASSERT(code != MLLE_TOOL_ERROR_NO_LICENSE && code != MLLE_TOOL_ERROR_NOT_SIMPLIFIED, "tool.refusal-code");
            }
        }
#endif
    }
    VP_ASSERT(g_data == NULL || g_released || (op == OP_FILE && r), "tool.reply-released");
#ifdef VP_NATIVE
    mlle_error_free(&e); if (fc) { free(fc->buffer); free(fc); } free(g_text);
#endif
}

/* ---- reading the contents of a file: one call from any reachable state ---- */
static size_t r_size, r_off, r_k; static char *r_buf;
static int inv(const struct mlle_file_contents *f, size_t off) { return f->file_size == r_size && (f->buffer == NULL ? f->read_offset == r_size && off == r_size : f->buffer == r_buf && f->read_offset == off && off <= r_size); }
void h_readbytes(void)
{
    struct mlle_file_contents *f = malloc(sizeof *f); size_t n = nd_range(0, VP_MAX(20, 1UL << 40)), r, left, want; char *out; int gone;
    r_size = nd_range(0, VP_MAX(50, 1UL << 40)); r_off = nd_range(0, r_size); gone = r_off == r_size && nd_bool();
    g_data = r_buf = nd_buf(r_size + 1); g_released = 0; g_len = r_size; out = nd_buf(n); r_k = nd_u64();
    f->file_size = r_size; f->read_offset = r_off; f->buffer = gone ? NULL : r_buf;
    left = r_size - r_off; want = n < left ? n : left;
#ifdef VP_CBMC
    vp_trk[0] = vp_trk[1] = vp_trk[2] = vp_trk[3] = r_k; char exp_ = 0; if (r_k < want) exp_ = r_buf[r_off + r_k]; char old_ = 0; if (r_k < n) old_ = out[r_k];
#else
    char ex[64]; memcpy(ex, r_buf + r_off, want); char old[64]; memcpy(old, out, n);
#endif
    VP_ASSERT(mlle_tool_get_file_size(f) == r_size, "fileread.size");
    r = mlle_tool_read_bytes(f, out, n);
    if (left == 0) {
        VP_ASSERT(r == (size_t)-1, "fileread.end"); VP_ASSERT(inv(f, r_size), "fileread.state"); VP_COVER("fileread.end");
#ifdef VP_CBMC
        VP_ASSERT(r_k >= n || out[r_k] == old_, "fileread.nothing-else-written");
#endif
    } else {
        VP_ASSERT(r == want, "fileread.count");
        VP_ASSERT(inv(f, r_off + want), "fileread.state");
#ifdef VP_CBMC
        if (r_k < want) VP_ASSERT(out[r_k] == exp_, "fileread.bytes-in-order");
        else if (r_k < n) VP_ASSERT(out[r_k] == old_, "fileread.nothing-else-written");
#else
        VP_ASSERT(memcmp(out, ex, want) == 0, "fileread.bytes-in-order"); VP_ASSERT(memcmp(out + want, old + want, n - want) == 0, "fileread.nothing-else-written");
#endif
        VP_COVER("fileread.some");
    }
    VP_ASSERT((f->buffer == NULL) == (g_released || gone), "fileread.freed-exactly-when-done");
    struct mlle_file_contents *f2 = f;
    mlle_file_contents_free(&f2); VP_ASSERT(f2 == NULL && (g_released || gone), "fileread.released");
    mlle_file_contents_free(&f2); mlle_file_contents_free(NULL);
#ifdef VP_NATIVE
    if (gone) free(r_buf); free(out);
    /* the whole file in arbitrary pieces */
    { size_t z = nd_range(0, 50), at = 0; char src[50], got[80]; f = malloc(sizeof *f); nd_fill(src, z); g_data = malloc(z + 1); g_released = 0; g_len = z; memcpy(g_data, src, z); f->file_size = z; f->read_offset = 0; f->buffer = g_data;
      for (int i = 0; i < 60; i++) { size_t k = nd_range(at < z ? 1 : 0, 20), q = mlle_tool_read_bytes(f, got + at, k); if (q == (size_t)-1) { VP_ASSERT(at == z, "fileread.end"); break; } VP_ASSERT(q <= k && at + q <= z && (q > 0 || k == 0), "fileread.count"); at += q; VP_ASSERT(i < 59, "fileread.end"); }
      VP_ASSERT(at == z && memcmp(src, got, z) == 0, "fileread.bytes-in-order"); VP_ASSERT(mlle_tool_get_file_size(f) == z, "fileread.size"); mlle_file_contents_free(&f); VP_ASSERT(g_released, "fileread.released"); }
#endif
}
#ifdef VP_NATIVE
struct mlle_connections *mlle_spawn(const char *n, struct mlle_error **e) { return NULL; }
int ssl_setup_tool(struct mlle_connections **l, struct mlle_error **e) { return 0; }
int tool_perform_handshake(struct mlle_connections **l, struct mlle_error **e) { return 0; }
void vp_native_harness(void) { VP_ENTRY(); }
#endif
