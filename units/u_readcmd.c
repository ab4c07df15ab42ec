/* Contract of mlle_read_command: a reply is delivered to the caller complete, with
 * exactly its bytes, or not at all; a failure sets the error; every received
 * message is released, and cleared first.
 * ssl_read_message, mlle_parse_command and extract_data are replaced by their
 * contracts (units ssl_read, parse, extract); natively they are the real ones
 * behind a scripted connection. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_io.h"
#include "mlle_utils.h"
#include "mlle_parse_command.h"
#include "skolem_mem.h"
static SSL *const the_ssl = (SSL *)16;
int vp_ph_read_more;
size_t g_total, g_k, g_w, g_ann, g_dlen; char g_exp; char *g_msg; size_t g_mlen; int g_live, g_fail, g_nread, g_parsed, g_err, g_extracted, g_form; size_t g_skip, g_lastn;
static int g_dummy_err;
void mlle_error_set_literal(struct mlle_error **e, int d, int c, const char *m)
{
    g_err++; VP_ASSERT(vp_text(m), "readcmd.error-text");
    if (e) { VP_ASSERT(*e == NULL, "readcmd.error-slot-empty"); *e = (struct mlle_error *)&g_dummy_err; }
#ifdef VP_NATIVE
    if (m) strlen(m);
#endif
}
void ssl_get_error_string(int c, char *b, size_t n)
{
#ifdef VP_CBMC
    VP_ASSERT(n > 0 && __CPROVER_w_ok(b, n), "readcmd.error-buffer");
#endif
    b[0] = 0;
}
static int has_payload(int id) { return mlle_command_info[id].msg_form == MLLE_PROTOCOL_LENGTH_MSG_FORM || mlle_command_info[id].msg_form == MLLE_PROTOCOL_NUMBER_AND_LENGTH_MSG_FORM; }
#ifdef VP_CBMC
int g_id; long g_number; static void *g_tok;
char *vp_fresh(size_t n) { char *p = __CPROVER_allocate(n, 0); return p; }
int ssl_read_message(SSL *s, char **b, int *e)
{
    VP_ASSERT(s == the_ssl, "readcmd.connection");
    VP_ASSERT(!g_live, "readcmd.message-released");
    VP_ASSERT(!g_fail && !g_err, "readcmd.stops-after-failure");
    VP_ASSERT(g_nread == 0 || (g_extracted && g_total < g_ann), "readcmd.reads-no-more-than-announced");
    if (nd_bool()) { g_fail = 1; *e = nd_int(); return -1; }
    size_t n = nd_range(1, 1UL << 30);
    g_msg = __CPROVER_allocate(n, 0); g_mlen = n; g_live = 1; *b = g_msg;
    if (g_nread) {
        if (g_k >= g_total && g_k - g_total < n && g_k < g_ann) g_exp = g_msg[g_k - g_total];
        g_total = n > g_ann - g_total ? g_ann : g_total + n;
        g_nread = 2;
    } else g_nread = 1;
    return (int)n;
}
void vp_free(void *p)
{
    if (p) {
        if (p == g_msg) { VP_ASSERT(g_live, "readcmd.freed-once"); g_live = 0; }
        if ((p == g_msg || p == g_tok) && g_w < g_mlen) VP_ASSERT(((char *)p)[g_w] == 0, "wipe.received-reply-cleared-before-free");
    }
    free(p);
}
enum mlle_grammar_error_t ct_parse(char *str, struct mlle_command *c, char *err, size_t n)
{
    VP_ASSERT(g_nread == 1 && !g_parsed && g_live, "readcmd.parses-the-first-message");
    VP_ASSERT(__CPROVER_r_ok(str, g_mlen + 1) && str[g_mlen] == 0, "readcmd.text-terminated");
    VP_ASSERT(g_w >= g_mlen || str[g_w] == g_msg[g_w], "readcmd.text-is-the-message");
    VP_ASSERT(n > 0 && __CPROVER_rw_ok(err, n), "readcmd.error-buffer");
    __CPROVER_havoc_slice(str, g_mlen);   /* tokenizing writes into the text */
    g_parsed = 1; g_tok = str;
    c->id = MLLE_PROTOCOL_UNDEFINED_CMD; c->number = 0; c->length = 0; c->data = NULL;
    err[0] = 0;
    if (nd_bool()) { g_fail = 1; return (enum mlle_grammar_error_t)nd_range(LE_UNKNOWN_ERROR, LE_NEGATIVE_LENGTH); }
    g_id = (int)nd_range(1, MLLE_PROTOCOL_COMMAND_ID_SIZE - 1); g_number = nd_long(); g_ann = 0;
    if (has_payload(g_id)) g_ann = nd_range(0, LONG_MAX);
    c->id = (enum mlle_protocol_command_id)g_id; c->number = g_number; c->length = g_ann;
    return LE_VALID_GRAMMAR;
}
size_t ct_extract(struct mlle_command **c, char *b, size_t n)
{
    VP_ASSERT(g_parsed && !g_fail && g_live && b == g_msg && n == g_mlen && !g_extracted, "readcmd.extracts-from-the-first-message");
    VP_ASSERT((*c)->length == g_ann && (*c)->id == (enum mlle_protocol_command_id)g_id && (*c)->data == NULL, "readcmd.command-kept");
    g_extracted = 1;
    if (nd_bool() || g_ann >= (1UL << 40)) { g_fail = 1; return 0; }
    size_t head = nd_range(1, n), take = n - head < g_ann ? n - head : g_ann;
    char *d = __CPROVER_allocate(g_ann + 1, 0);
    if (g_k < take) { d[g_k] = b[head + g_k]; g_exp = d[g_k]; }
    d[g_ann] = 0; (*c)->data = d; g_total = take; g_dlen = g_ann;
    return take;
}
void h_readcmd(void)
{
    struct mlle_command c = {0}; struct mlle_error *e = NULL; int with = nd_bool(), r;
    g_total = g_mlen = g_ann = 0; g_live = g_fail = g_nread = g_parsed = g_err = g_extracted = 0; vp_ph_read_more = 0; g_msg = NULL; g_tok = NULL; vp_alloc_failed = 0;
    g_k = nd_u64(); g_w = nd_u64(); vp_trk[0] = g_k; vp_trk[1] = g_w; vp_trk[2] = vp_trk[3] = g_k;
    r = mlle_read_command(the_ssl, &c, with ? &e : NULL);
    VP_ASSERT(!g_live, "readcmd.message-released");
    if (r) {
        VP_ASSERT(r == 1 && !g_fail && !g_err && g_nread > 0 && g_parsed, "readcmd.success-only-if-all-arrived");
        VP_ASSERT(c.id == (enum mlle_protocol_command_id)g_id && c.number == g_number && c.length == g_ann, "readcmd.command");
        VP_ASSERT(has_payload(g_id) == g_extracted, "readcmd.payload-exactly-when-announced");
        if (g_extracted) {
            VP_ASSERT(g_total == g_ann, "readcmd.complete");
            VP_ASSERT(__CPROVER_r_ok(c.data, g_ann + 1) && c.data[g_ann] == 0, "readcmd.terminated");
            VP_ASSERT(g_k >= g_ann || c.data[g_k] == g_exp, "readcmd.bytes");
            VP_COVER("readcmd.payload");
            if (g_nread > 1) VP_COVER("readcmd.several-messages");
        } else VP_ASSERT(c.data == NULL, "readcmd.no-payload");
    } else {
        VP_ASSERT(g_err == 1 && (!with || e != NULL), "readcmd.failure-sets-error");
        VP_ASSERT(g_fail || vp_alloc_failed || g_mlen > 16400, "readcmd.fails-only-on-failure");
        VP_ASSERT(c.data == NULL, "readcmd.nothing-delivered-on-failure");
        VP_COVER("readcmd.failed");
    }
}
#else
/* ---- native: a scripted connection ---- */
static char *st; static size_t st_n, st_at, st_first; static int st_endfail; static void *live[512]; static int nlive;
int ssl_read_message(SSL *s, char **b, int *e)
{
    VP_ASSERT(s == the_ssl, "readcmd.connection");
    VP_ASSERT(!g_live, "readcmd.message-released");
    g_nread++;
    if (st_at >= st_n || nd_range(0, 60) == 60) { g_fail = 1; *e = (int)nd_range(1, 6); return -1; }
    size_t n = st_at == 0 ? st_first : nd_range(1, st_n - st_at < 16384 ? st_n - st_at : 16384);
    g_msg = malloc(n); memcpy(g_msg, st + st_at, n); g_mlen = n; g_live = 1; st_at += n; *b = g_msg;
    return (int)n;
}
#include <malloc.h>
void vp_free(void *p)
{
    if (p && p == g_msg) {
        VP_ASSERT(g_live, "readcmd.freed-once"); g_live = 0;
        for (size_t i = 0; i < g_mlen; i++) VP_ASSERT(g_msg[i] == 0, "wipe.received-reply-cleared-before-free");
    }
    free(p);
}
void h_readcmd(void)
{
    struct mlle_command c = {0}; struct mlle_error *e = NULL; int with = nd_bool(), r, id, lf, form; char line[200]; long num = nd_long(); size_t ann, extra, hn;
    g_live = g_fail = g_nread = g_err = 0; g_msg = NULL; vp_alloc_failed = 0; st_at = 0;
    id = (int)nd_range(1, MLLE_PROTOCOL_COMMAND_ID_SIZE - 1); form = mlle_command_info[id].msg_form; lf = nd_range(0, 7) != 7;
    int bad = nd_range(0, 15) == 15;
    ann = 0;
    if (has_payload(id)) { ann = nd_bool() ? nd_range(0, 40) : nd_range(0, 60000); }
    int missing = ann > 0 && nd_range(0, 7) == 7; size_t sent = missing ? nd_range(0, ann - 1) : ann; extra = !missing && has_payload(id) && nd_range(0, 7) == 7 ? nd_range(1, 20) : 0;
    if (form == MLLE_PROTOCOL_SIMPLE_MSG_FORM) sprintf(line, "%s", mlle_command_info[id].name);
    else if (form == MLLE_PROTOCOL_NUMBER_MSG_FORM) sprintf(line, "%s %ld", mlle_command_info[id].name, num);
    else if (form == MLLE_PROTOCOL_LENGTH_MSG_FORM) sprintf(line, "%s %lu", mlle_command_info[id].name, ann);
    else sprintf(line, "%s %ld %lu", mlle_command_info[id].name, num, ann);
    if (bad) line[nd_range(0, strlen(mlle_command_info[id].name) - 1)] = '_';
    if (lf) strcat(line, "\n");
    hn = strlen(line);
    if (!lf) { sent = 0; extra = 0; missing = ann > 0; }
    st_n = hn + sent + extra; st = malloc(st_n); memcpy(st, line, hn); nd_fill(st + hn, sent + extra);
    if (st_n - hn && nd_bool()) st[hn + nd_range(0, st_n - hn - 1)] = '\n';
    if (st_n - hn && nd_bool()) st[hn + nd_range(0, st_n - hn - 1)] = 0;
    st_first = nd_range(hn, st_n < 16384 ? st_n : 16384);
    r = mlle_read_command(the_ssl, &c, with ? &e : NULL);
    VP_ASSERT(!g_live, "readcmd.message-released");
    int must_fail = g_fail || vp_alloc_failed || bad || missing || (!lf && has_payload(id));
    if (r) {
        VP_ASSERT(!must_fail && !g_err, "readcmd.success-only-if-all-arrived");
        VP_ASSERT(c.id == (enum mlle_protocol_command_id)id && c.length == ann, "readcmd.command");
        VP_ASSERT(form != MLLE_PROTOCOL_NUMBER_MSG_FORM && form != MLLE_PROTOCOL_NUMBER_AND_LENGTH_MSG_FORM || c.number == num, "readcmd.command");
        if (has_payload(id)) {
            VP_ASSERT(c.data != NULL && malloc_usable_size(c.data) >= ann + 1, "readcmd.terminated");
            VP_ASSERT(memcmp(c.data, st + hn, ann) == 0, "readcmd.bytes"); VP_ASSERT(c.data[ann] == 0, "readcmd.terminated");
        } else VP_ASSERT(c.data == NULL, "readcmd.no-payload");
    } else {
        VP_ASSERT(must_fail, "readcmd.fails-only-on-failure");
        VP_ASSERT(g_err == 1 && (!with || e != NULL), "readcmd.failure-sets-error");
        VP_ASSERT(c.data == NULL, "readcmd.nothing-delivered-on-failure");
    }
    free(c.data); free(st); free(g_live ? g_msg : NULL);
}
void vp_native_harness(void) { VP_ENTRY(); }
#endif
