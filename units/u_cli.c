/* Contract of the library executable's main (lve.c) and mlle_lve_shutdown: the command line checkout
 * succeeds exactly when the license manager grants the named feature for the named library; without
 * that option the executable serves one session.  Callees by contract.  Texts are tracked by identity:
 * copying functions register their full copies. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_lve.h"
#include "mlle_lve_feature.h"
#include "mlle_lve_libpath.h"
#include "mlle_parse_command.h"
#include "mlle_protocol.h"
int lve_main(int argc, char **argv);
enum { K_OTHER, K_CHECKOUT, K_LIBPATH, K_VERSION, K_HELP };
enum { NARG = 6 };
/* every text the code handles is an object of this kind (all functions that look inside are contracts) */
struct txt { size_t len, cap, n; int id, kind, msg, set; int pid; size_t plen; };   /* msg: 1 LIB, 2 FEATURE; declared length n, payload pid of length plen */
static struct txt A[NARG];
static int fresh_id = 100, g_fail;
static struct txt *known(const char *p) { struct txt *t = (struct txt *)p; VP_ASSERT(p != NULL && t->set, "cli.text-set"); return t; }
size_t vp_strlen(const char *p) { return known(p)->len; }
void *ct_malloc(size_t n) { struct txt *t; if (nd_range(0, 9) == 0) { vp_alloc_failed = 1; return NULL; } t = malloc(sizeof *t); t->set = 0; t->cap = n; return t; }
void vp_free(void *p) { free(p); }
int vp_strcmp(const char *a, const char *b)
{
    int k = b[2] == 'c' ? K_CHECKOUT : b[2] == 'l' ? K_LIBPATH : b[2] == 'v' ? K_VERSION : b[2] == 'h' ? K_HELP : -1; if (k < 0 || b[0] != '-' || b[1] != '-') VP_UNSUPPORTED("strcmp with another text");
    if (known(a)->kind == k) return 0; return nd_bool() ? 1 : -1;
}
static void copy(char *d, size_t z, const char *s)
{
    struct txt *x = (struct txt *)d, *y = known(s); VP_ASSERT(z > 0 && z <= x->cap, "cli.copy-within-the-buffer");
    x->len = y->len < z ? y->len : z - 1; x->id = x->len == y->len ? y->id : fresh_id++; x->kind = K_OTHER; x->msg = 0; x->set = 1;
}
int snprintf(char *d, size_t z, const char *f, ...)
{
    va_list ap; const char *s;
    if (f[0] != '%' || f[1] != 's' || f[2] != 0) VP_UNSUPPORTED("snprintf format");
    va_start(ap, f); s = va_arg(ap, const char *); va_end(ap); copy(d, z, s); return (int)known(s)->len;
}
char *vp_strcpy(char *d, const char *s) { copy(d, known(s)->len + 1, s); return d; }
void *vp_memcpy(void *d, const void *s, size_t n) { if (n != known(s)->len + 1) VP_UNSUPPORTED("memcpy of a part"); copy(d, n, s); return d; }
static int same(const char *a, const char *b) { int i; for (i = 0; i < 16 && a[i] && a[i] == b[i]; i++) ; return a[i] == b[i]; }
static struct txt *clone(struct txt *x) { struct txt *t = malloc(sizeof *t); *t = *x; t->set = 1; return t; }
int asprintf(char **p, const char *f, ...)
{
    va_list ap; const char *s; size_t n; int m; struct txt *t, *y; if (nd_range(0, 9) == 0) { g_fail = 1; *p = NULL; return -1; }
    m = same(f, "LIB %zu\n%s") ? 1 : same(f, "FEATURE %zu\n%s") ? 2 : 0; if (!m) VP_UNSUPPORTED("asprintf format");
    va_start(ap, f); n = va_arg(ap, size_t); s = va_arg(ap, const char *); va_end(ap); y = known(s);
    t = malloc(sizeof *t); t->len = y->len + 12; t->cap = t->len + 1; t->kind = K_OTHER; t->id = fresh_id++; t->set = 1; t->msg = m; t->n = n; t->pid = y->id; t->plen = y->len; *p = (char *)t; return (int)t->len;
}
char *ct_strdup(const char *s) { struct txt *y = known(s); if (nd_range(0, 9) == 0) { vp_alloc_failed = 1; return NULL; } return (char *)clone(y); }
/* mlle_parse_command: LIB/FEATURE with the declared length; destroys its input */
enum mlle_grammar_error_t mlle_parse_command(char *b, struct mlle_command *c, char *e, size_t n)
{
    struct txt *t = known(b); VP_ASSERT(__CPROVER_w_ok(e, n), "cli.error-buffer"); if (!t->msg) VP_UNSUPPORTED("parsing another text");
    c->id = t->msg == 1 ? MLLE_PROTOCOL_LIB_CMD : MLLE_PROTOCOL_FEATURE_CMD; c->length = t->n; c->data = NULL; t->set = 0; return LE_VALID_GRAMMAR;
}
/* extract_data: points at the payload of the message the command was parsed from */
static struct txt g_pay[2];
size_t extract_data(struct mlle_command **c, char *b, size_t len)
{
    struct txt *t = known(b), *y;
    VP_ASSERT((*c)->id == (t->msg == 1 ? MLLE_PROTOCOL_LIB_CMD : MLLE_PROTOCOL_FEATURE_CMD) && (*c)->length == t->n, "cli.command-of-that-message"); VP_ASSERT(len == t->len, "cli.message-length");
    if (t->n > t->plen) { (*c)->data = NULL; return 0; }
    y = &g_pay[t->msg - 1]; y->set = 1; y->len = t->n; y->id = t->n == t->plen ? t->pid : fresh_id++; (*c)->data = (char *)y;
    if (t->n == 0 && nd_bool()) { (*c)->data = NULL; g_fail = 1; }
    return t->n;
}
static int g_lib, g_feat, g_lib_ans, g_feat_ans, want_feat, want_lib; static int g_setup, g_hand, g_recv, g_shut, g_freed; static char g_sslobj, g_lic;
int mlle_lve_libpath(struct mlle_lve_ctx *x, const struct mlle_command *c, const int cli)
{
    VP_ASSERT(cli, "cli.no-connection"); VP_ASSERT(x->ssl == NULL, "cli.no-connection"); g_lib++; VP_ASSERT(g_lib == 1 && !g_feat, "cli.library-first");
    VP_ASSERT(want_lib >= 0 && c->id == MLLE_PROTOCOL_LIB_CMD && c->data != NULL && c->length == A[want_lib].len && known(c->data)->id == A[want_lib].id, "cli.named-library");
    return g_lib_ans = nd_bool();
}
int mlle_lve_feature(struct mlle_lve_ctx *x, const struct mlle_command *c, const int cli)
{
    VP_ASSERT(cli && x->ssl == NULL, "cli.no-connection"); g_feat++; VP_ASSERT(g_feat == 1 && g_lib == 1 && g_lib_ans, "cli.feature-of-an-accepted-library");
    VP_ASSERT(want_feat >= 0 && c->id == MLLE_PROTOCOL_FEATURE_CMD && c->data != NULL && c->length == A[want_feat].len && known(c->data)->id == A[want_feat].id, "cli.named-feature");
    x->lic_mgr = (struct mlle_license *)&g_lic; return g_feat_ans = nd_bool();
}
int vp_fprintf(FILE *f, const char *fmt, ...) { return 0; } int vp_printf(const char *fmt, ...) { return 0; } int vp_fflush(FILE *f) { return 0; }
void mlle_log_open(const char *v) { }
int ssl_setup_lve(struct mlle_lve_ctx *x) { VP_ASSERT(x->in_stream == stdin && x->out_stream == stdout, "session.streams"); g_setup++; if (nd_bool()) return 0; x->ssl = (SSL *)&g_sslobj; return 1; }
int lve_perform_handshake(struct mlle_lve_ctx *x) { VP_ASSERT(g_setup == 1 && x->ssl == (SSL *)&g_sslobj, "session.setup-first"); g_hand = nd_bool(); return g_hand; }
int ct_receive(struct mlle_lve_ctx *x) { VP_ASSERT(g_hand, "gate.no-command-before-the-handshake"); VP_ASSERT(x->tool_approved == 0 && x->libpath == NULL, "gate.starts-unapproved"); g_recv++; if (nd_bool()) { x->libpath = malloc(4); x->lic_mgr = (struct mlle_license *)&g_lic; } return 1; }
int vp_SSL_shutdown(SSL *s) { VP_ASSERT(s == (SSL *)&g_sslobj && !g_shut, "session.shutdown"); g_shut++; return 1; }
void vp_SSL_free(SSL *s) { if (s) { VP_ASSERT(s == (SSL *)&g_sslobj && !g_freed, "session.freed-once"); g_freed++; } }
static int g_licfree; void mlle_license_free(struct mlle_license *l) { VP_ASSERT(l == (struct mlle_license *)&g_lic && !g_licfree, "session.license-manager-freed-once"); g_licfree++; }
void h_cli(void)
{
    char *argv[NARG + 1]; int argc = (int)nd_range(1, NARG), i, r, bad = 0, checkout = 0, lib = 0, early = -1; want_feat = want_lib = -1;
    for (i = 0; i <= NARG; i++) argv[i] = NULL;
    for (i = 0; i < argc; i++) { A[i].len = nd_range(0, VP_MAX(500, 1UL << 30)); A[i].cap = A[i].len + 1; A[i].id = i; A[i].set = 1; A[i].msg = 0; A[i].kind = (int)nd_range(K_OTHER, K_HELP); argv[i] = (char *)&A[i]; }
    /* what the command line says */
    for (i = 1; i < argc && !bad && early < 0; i++) switch (A[i].kind) {
        case K_CHECKOUT: if (checkout || i + 1 >= argc) bad = 1; else { checkout = 1; want_feat = ++i; } break;
        case K_LIBPATH: if (lib || i + 1 >= argc) bad = 1; else { lib = 1; want_lib = ++i; } break;
        case K_VERSION: case K_HELP: early = i; break;
        default: bad = 1;
    }
    r = lve_main(argc, argv);
    if (early >= 0 && !bad) { VP_ASSERT(argc != 2 || r == 0 || vp_alloc_failed, "cli.version-and-help-succeed-alone"); VP_ASSERT(argc == 2 || r != 0, "cli.only-alone"); }
    if (bad || early >= 0 || (checkout && !lib)) { VP_ASSERT(bad ? r != 0 : 1, "cli.bad-command-line-fails"); VP_ASSERT(!g_lib && !g_feat && !g_setup, "cli.nothing-done"); VP_COVER("cli.usage"); return; }
    if (checkout) {
        VP_ASSERT((r == 0) == (g_lib == 1 && g_lib_ans && g_feat == 1 && g_feat_ans), "cli.success-exactly-when-granted");
        VP_ASSERT(r == 0 || g_fail || vp_alloc_failed || (g_lib && !g_lib_ans) || (g_feat && !g_feat_ans), "cli.fails-only-when-refused"); VP_ASSERT(!g_setup && !g_recv, "cli.no-session");
        if (r == 0) VP_COVER("cli.granted"); else VP_COVER("cli.refused"); return;
    }
    if (vp_alloc_failed && !g_setup) { VP_ASSERT(r != 0, "cli.out-of-memory"); return; }
    VP_ASSERT(g_setup == 1 && !g_lib && !g_feat, "session.once"); VP_ASSERT(g_recv == g_hand, "session.served-exactly-after-the-handshake"); VP_ASSERT(g_freed == g_shut && g_freed <= 1 && (!g_recv || g_freed), "session.connection-closed"); VP_ASSERT(r == 0, "session.status");
    if (g_recv) VP_COVER("session.served"); else VP_COVER("session.not-connected");
}
