/* Contract of mlle_lve_file: nothing is read for a tool that is not approved; the
 * file read is <library>/<path>, never through '..'; the answer is its contents
 * (decrypted when its extension is moc) or one error. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_lve.h"
#include "mlle_io.h"
#include "mlle_lve_file.h"
static SSL *const the_ssl = (SSL *)16;
static struct mlle_lve_ctx ctx; static struct mlle_command cmd;
int vp_ph_parent_element;
char *g_rel; size_t g_rn, g_p; int g_has;   /* path text of g_rn bytes; g_has: some element is '..', g_p is the start of the first one */
static size_t g_dot; static int g_hasdot, g_moc; static char *lib; static size_t g_ln;
static char *g_path; static size_t g_pathlen;
static int g_reads, g_decs, g_replies, g_err, g_sent, g_readfail, g_decfail, g_freed; static long g_code;
static size_t g_size, g_psize, g_k, g_pk; static char *g_in, *g_out; static char g_byte, g_pbyte;
static mlle_cr_context *const CR = (mlle_cr_context *)32;
static struct mlle_error *const E = (struct mlle_error *)96; static char g_msg[2];
static int sep(char c) { return c == '/' || c == '\\'; }
/* element '..' starts at i */
static int parent_at(size_t i) { return i < g_rn && g_rn - i >= 2 && g_rel[i] == '.' && g_rel[i + 1] == '.' && (i + 2 == g_rn || sep(g_rel[i + 2])); }
int elem_start(size_t i) { return i == 0 || sep(g_rel[i - 1]); }
/* no '..' element starts at i, unless it is (at or after) the first one */
int parent_fact(size_t i) { return !elem_start(i) || !parent_at(i) || (g_has && i >= g_p); }
size_t strcspn(const char *s, const char *set)
{
    if (!(set[0] == '/' && set[1] == '\\' && set[2] == 0 || set[0] == '\\' && set[1] == '/' && set[2] == 0) || !__CPROVER_same_object(s, g_rel)) VP_UNSUPPORTED("strcspn arguments");
    size_t o = (size_t)(s - g_rel), n;
    VP_ASSERT(o <= g_rn, "file.scan-within-path");
    __CPROVER_assume(n <= g_rn - o && (o + n == g_rn || sep(g_rel[o + n])));
    /* bytes before it are not separators: instantiated where the argument needs it */
    __CPROVER_assume(n == 0 || !sep(g_rel[o])); __CPROVER_assume(n < 2 || !sep(g_rel[o + 1])); __CPROVER_assume(n < 3 || !sep(g_rel[o + 2]));
    __CPROVER_assume(!(g_has && g_p > o && n > g_p - 1 - o));
    __CPROVER_assume(o + n + 1 >= g_rn || g_rel[o + n + 1] != 0);   /* the text has g_rn bytes */
    return n;
}
char *vp_strrchr(const char *s, int c) { if (s != g_rel || c != '.') VP_UNSUPPORTED("strrchr arguments"); return g_hasdot ? g_rel + g_dot : NULL; }
int vp_strcasecmp(const char *a, const char *b)
{
    if (!g_hasdot || a != g_rel + g_dot + 1 || (b[0] | 32) != 'm' || (b[1] | 32) != 'o' || (b[2] | 32) != 'c' || b[3]) VP_UNSUPPORTED("strcasecmp arguments");
    if (g_moc) return 0;
    int r; __CPROVER_assume(r != 0); return r;
}
int snprintf(char *buf, size_t size, const char *fmt, ...)
{
    size_t n; va_list ap;
    if (fmt[0] == '%' && fmt[1] == 's' && fmt[2] == '/' && fmt[3] == '%' && fmt[4] == 's' && fmt[5] == 0) {
        va_start(ap, fmt); const char *a = va_arg(ap, const char *), *b = va_arg(ap, const char *); va_end(ap);
        if (a != lib || b != g_rel) VP_UNSUPPORTED("path pieces");
        n = g_ln + 1 + g_rn; g_path = buf; g_pathlen = n < size ? n : size ? size - 1 : 0;
    } else __CPROVER_assume(n < 1UL << 31);   /* messages: any text */
    if (size) { size_t last = n < size ? n : size - 1; __CPROVER_assert(__CPROVER_w_ok(buf, last + 1), "snprintf: output within destination"); buf[last] = 0; }
    return (int)n;
}
char *vp_io_read_file(const char *p, size_t *size, struct mlle_error **e)
{
    VP_ASSERT(ctx.tool_approved, "gate.unapproved-tool-reads-nothing");
    VP_ASSERT(!g_has, "file.inside-library");
    VP_ASSERT(p == g_path && p != NULL && g_pathlen == g_ln + 1 + g_rn, "file.path-exact");
    VP_ASSERT(e && *e == NULL, "file.error-slot");
    g_reads++;
    if (nd_bool()) { g_readfail = 1; *e = E; return NULL; }
    g_size = nd_range(0, (1UL << 31) - 300); g_in = __CPROVER_allocate(g_size + 1, 0); g_k = nd_u64(); if (g_k < g_size) g_byte = g_in[g_k];
    *size = g_size;
    return g_in;
}
int mlle_cr_decrypt(mlle_cr_context *c, const char *r, char *in, size_t n, char *out)
{
    VP_ASSERT(ctx.tool_approved, "gate.unapproved-tool-gets-nothing");
    VP_ASSERT(g_hasdot && g_moc, "file.decrypt-only-encrypted");
    VP_ASSERT(c == CR && r == g_rel && in == g_in && n == g_size, "file.decrypt-arguments");
    VP_ASSERT(__CPROVER_w_ok(out, n + 1), "file.decrypt-room");
    g_decs++;
    if (nd_bool()) { g_decfail = 1; return -(int)nd_range(1, 5); }
    g_psize = nd_range(0, n); if (g_psize) __CPROVER_havoc_slice(out, g_psize); g_out = out; if (g_k < g_psize) g_pbyte = out[g_k];
    return (int)g_psize;
}
char *mlle_error_get_message(struct mlle_error *e) { VP_ASSERT(e == E && !g_freed, "file.error"); return g_msg; }
void mlle_error_free(struct mlle_error **e) { VP_ASSERT(*e == E && !g_freed, "file.error-freed-once"); g_freed = 1; *e = NULL; }
void mlle_send_error(SSL *s, long code, const char *t) { VP_ASSERT(s == the_ssl && !g_freed, "file.connection"); g_replies++; g_err = 1; g_code = code; VP_ASSERT(!g_readfail || t == g_msg, "file.read-error-reason"); }
void mlle_send_length_form(SSL *s, enum mlle_protocol_command_id id, size_t n, const char *d)
{
    VP_ASSERT(s == the_ssl && id == MLLE_PROTOCOL_FILECONT_CMD, "file.answer");
    VP_ASSERT(ctx.tool_approved, "gate.only-approved-tools-get-files");
    g_replies++; g_sent = 1;
    VP_ASSERT(g_reads == 1 && !g_readfail && !g_decfail && g_decs == (g_hasdot && g_moc), "file.only-after-success");
    VP_ASSERT(n == (g_decs ? g_psize : g_size) && __CPROVER_r_ok(d, n), "file.contents-length");
    VP_ASSERT(g_k >= n || d[g_k] == (g_decs ? g_pbyte : g_byte), "file.contents");
}
void h_file(void)
{
    size_t rn = nd_range(0, 1UL << 30), extra = nd_range(0, 1UL << 20); int app = nd_bool();
    g_rn = rn; g_rel = nd_buf(rn + extra + 1); g_rel[rn] = 0; g_has = nd_bool(); g_p = nd_u64();
    VP_ASSUME(!g_has || (g_p < rn && elem_start(g_p) && parent_at(g_p)));
    VP_ASSUME(parent_fact(0) && (rn == 0 || g_rel[0] != 0));
    g_hasdot = nd_bool(); g_dot = nd_u64(); g_moc = nd_bool(); VP_ASSUME(!g_hasdot || (g_dot < rn && g_rel[g_dot] == '.')); VP_ASSUME(!g_moc || (g_hasdot && g_dot + 4 == rn));
    g_ln = nd_range(0, 1UL << 30); lib = nd_buf(g_ln + 1);
    ctx.ssl = the_ssl; ctx.libpath = lib; ctx.path_size = g_ln; ctx.tool_approved = app; ctx.cr_context = CR; ctx.tool_error_type = (enum mlle_protocol_error_id)nd_range(1, 9); ctx.tool_error_msg = g_msg + 1;
    cmd.data = g_rel; cmd.length = rn + extra; vp_alloc_failed = 0; vp_ph_parent_element = 0;
#ifdef VP_UNWOUND
    VP_ASSUME(rn <= 7); for (int i = 0; i < 7; i++) VP_ASSUME((size_t)i >= rn || g_rel[i] != 0 && parent_fact(i));
#endif
    mlle_lve_file(&ctx, &cmd);
    VP_ASSERT(g_replies == 1, "file.exactly-one-reply");
    VP_ASSERT(ctx.libpath == lib && ctx.path_size == g_ln && ctx.tool_approved == app && ctx.cr_context == CR && cmd.data == g_rel, "file.context-unchanged");
    if (!app) { VP_ASSERT(g_err && !g_sent && g_reads == 0 && g_decs == 0, "gate.unapproved-tool-gets-nothing"); VP_ASSERT(g_code == (long)ctx.tool_error_type, "gate.refusal-code"); VP_COVER("file.unapproved"); return; }
    if (vp_alloc_failed && !g_sent) { VP_ASSERT(g_err && g_code == MLLE_PROTOCOL_OTHER_ERROR, "file.out-of-memory-answered"); return; }
    if (g_has) { VP_ASSERT(g_err && g_code == MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR && g_reads == 0, "file.parent-refused"); VP_COVER("file.parent"); return; }
    VP_ASSERT(g_reads == 1, "file.read-once");
    if (g_readfail) { VP_ASSERT(g_err && g_code == MLLE_PROTOCOL_FILE_IO_ERROR, "file.io-error"); VP_COVER("file.ioerror"); }
    else if (g_decfail) { VP_ASSERT(g_err && g_code == MLLE_PROTOCOL_OTHER_ERROR, "file.decrypt-error"); VP_COVER("file.decerror"); }
    else { VP_ASSERT(g_sent, "file.served"); VP_COVER("file.served"); }
}
