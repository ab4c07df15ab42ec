/* Bounded stand-in and replay for the LVE side: whole sessions (histories of
 * messages) run through the real mlle_lve_receive, parser, handlers and senders;
 * TLS, the license manager, decryption and file access are stand-ins that record
 * what they are asked.  CHK selects the obligations of one property. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_lve.h"
#include "mlle_io.h"
#include "mlle_license_manager.h"
#include "mlle_error.h"
#include "spec_parse.h"
#include "public_key_tool.h"
#include <sys/stat.h>
#include <ctype.h>
enum { STATE = 1, REPLY = 2, GATE = 4, FILES = 8, LICENSES = 16, SENT = 32, GLOBALLIC = 64 };
#ifndef CHK
#define CHK 255
#endif
#define MUST(cls, c, id) do { if ((CHK) & (cls)) VP_ASSERT(c, id); } while (0)
static SSL *const the_ssl = (SSL *)16;
char *global_tool_pub_key; int vp_tool_num;
static char keys[VP_TOOL_MAX][VP_TOOL_LEN];
void vp_tool_init(unsigned char k[VP_TOOL_MAX][VP_TOOL_LEN]) { for (int i = 0; i < VP_TOOL_MAX; i++) memcpy(k[i], keys[i], VP_TOOL_LEN); }
void vp_tool_clear(unsigned char k[VP_TOOL_MAX][VP_TOOL_LEN]) { memset(k, 0, VP_TOOL_MAX * VP_TOOL_LEN); }

/* what the current message has to lead to */
enum { S_VERSION = 1, S_TOOLS, S_LIB, S_LICENSE };
struct expect { int cmd; long num; int anytext; const char *text; size_t len; } ex;   /* reply */
static int S, approved, replies, delivered, left, stop, cur_cmd, cur_ok, cur_inorder;
static char pay[4096]; static size_t npay; static long cur_num;
static char libpath[600]; static int have_lib, lib_bad, lib_msg; static size_t nlib;
static int lic_made, lic_fail; static char lic_obj;
static int n_read, n_decrypt, n_checkout, n_checkin, n_new, n_create;
static char filedata[3000], plain[3000], errtext[2600]; static size_t nfile; static int nplain;
static mlle_cr_context *const the_cr = (mlle_cr_context *)32;
static int id_of(int c) { return (int)spec_cmds[c].id; }
static char *rel(void) { return pay; }
static int parent(const char *p) { while (*p) { size_t l = strcspn(p, "/\\"); if (l == 2 && p[0] == '.' && p[1] == '.') return 1; p += l; if (*p) p++; } return 0; }
static void text(const char *t) { snprintf(errtext, sizeof errtext, "%s", t); }
static void want(int cmd, long num) { ex.cmd = cmd; ex.num = num; ex.anytext = 1; ex.text = NULL; ex.len = 0; }
static void want_text(int cmd, long num, const char *t, size_t n) { want(cmd, num); ex.anytext = 0; ex.text = t; ex.len = n; }
static const char *rnd_text(void) { static char b[300]; size_t n = nd_range(0, 3) ? nd_range(1, 40) : nd_range(0, 299); for (size_t i = 0; i < n; i++) { b[i] = nd_range(0, 5) ? (char)nd_range(32, 126) : (char)nd_range(1, 255); } b[n] = 0; return b; }

/* the message the tool sends next: updates the reference automaton and the expected reply */
static size_t make_message(char *m)
{
    struct spec_line l; size_t n, i; int c = -1, in_order = nd_range(0, 9) < 7;
    static const int lic[] = { MLLE_PROTOCOL_FEATURE_CMD, MLLE_PROTOCOL_RETURNFEATURE_CMD, MLLE_PROTOCOL_LICENSE_CMD, MLLE_PROTOCOL_RETURNLICENSE_CMD, MLLE_PROTOCOL_FILE_CMD, MLLE_PROTOCOL_FILE_CMD };
    if (in_order) c = spec_index(S == S_VERSION ? MLLE_PROTOCOL_VERSION_CMD : S == S_TOOLS ? (nd_bool() ? MLLE_PROTOCOL_TOOLS_CMD : MLLE_PROTOCOL_LIB_CMD) : S == S_LIB ? MLLE_PROTOCOL_LIB_CMD : lic[nd_range(0, 5)]);
    else if (nd_range(0, 4)) c = (int)nd_range(0, SPEC_NCMD - 1);
    if (c >= 0 && nd_range(0, 9)) {   /* well formed */
        size_t k = 0; char *p = m;
        if (spec_cmds[c].form == SF_LENGTH || spec_cmds[c].form == SF_NUMLEN) {
            static const char *const paths[] = { "a.mo", "P/package.moc", "x.MOC", "d/../s.mo", "..", "a..b/c.moc", "../etc/passwd", "sub\\..\\k", "f", ".moc", "moc", "x.moc.txt", "a/..", "..moc", "a.b/c", "/abs", "...", "./a", "dir.moc/x" };
            const char *t = nd_range(0, 2) ? paths[nd_range(0, sizeof paths / sizeof *paths - 1)] : NULL;
            if (t) { k = strlen(t); memcpy(pay, t, k); }
            else { k = nd_range(0, 30); for (i = 0; i < k; i++) pay[i] = "ab./\\m oc\n\x80Z"[nd_range(0, 11)]; }
            if (id_of(c) == MLLE_PROTOCOL_LIB_CMD) while (nd_range(0, 3) == 0 && k < 40) pay[k++] = nd_bool() ? '/' : '\\';
            if (nd_range(0, 49) == 0) { size_t e = nd_range(0, 500); memset(pay + k, 'l', e); k += e; }
        }
        for (i = 0; i < 2; i++) if (nd_range(0, 29) == 0) *p++ = '\n';
        p += sprintf(p, "%s", spec_cmds[c].name);
        if (spec_cmds[c].form == SF_NUMBER || spec_cmds[c].form == SF_NUMLEN) p += sprintf(p, " %ld", nd_range(0, 3) ? (long)nd_range(1, 3) : nd_long());
        if (spec_cmds[c].form == SF_LENGTH || spec_cmds[c].form == SF_NUMLEN) p += sprintf(p, " %zu", nd_range(0, 9) ? k : nd_range(0, 9) ? nd_range(0, k + 4) : (size_t)(nd_u64() >> 1));
        if (nd_range(0, 29)) *p++ = '\n';
        memcpy(p, pay, k); p += k; n = p - m;
    } else if (nd_bool()) n = gen_line(m, 900, c);
    else { n = nd_range(1, 40); nd_fill(m, n); }
    if (n == 0) { m[0] = '\n'; n = 1; }
    if (nd_range(0, 49) == 0) n = nd_range(1, n);
    if (nd_range(0, 49) == 0) { m[nd_range(0, n - 1)] = nd_bool() ? '\n' : (char)nd_u8(); }
    /* reference semantics */
    spec_parse(m, n, &l);
    cur_cmd = -1; cur_ok = 0; cur_inorder = 0; npay = 0; want(MLLE_PROTOCOL_ERROR_CMD, 1);
    n_read = n_decrypt = n_checkout = n_checkin = n_new = n_create = 0;
    if (l.e != LE_VALID_GRAMMAR) return n;
    cur_cmd = id_of(l.cmd); cur_num = l.val[0];
    switch (cur_cmd) {
    case MLLE_PROTOCOL_VERSION_CMD: cur_inorder = S == S_VERSION; break;
    case MLLE_PROTOCOL_TOOLS_CMD: cur_inorder = S == S_TOOLS; break;
    case MLLE_PROTOCOL_LIB_CMD: cur_inorder = S == S_TOOLS || S == S_LIB; break;
    case MLLE_PROTOCOL_FEATURE_CMD: case MLLE_PROTOCOL_RETURNFEATURE_CMD: case MLLE_PROTOCOL_LICENSE_CMD: case MLLE_PROTOCOL_RETURNLICENSE_CMD: case MLLE_PROTOCOL_FILE_CMD: cur_inorder = S == S_LICENSE; break;
    }
    if (!cur_inorder) return n;
    if (spec_cmds[l.cmd].form == SF_LENGTH) {
        size_t b = 0; while (b < n && m[b] == '\n') b++;
        char *d = memchr(m + b, '\n', n - b);
        if (!d || (size_t)(m + n - (d + 1)) < (size_t)l.val[0]) return n;
        npay = (size_t)l.val[0]; memmove(pay, d + 1, npay); pay[npay] = 0;
        if (cur_cmd == MLLE_PROTOCOL_LIB_CMD && memchr(pay, 0, npay)) VP_ASSUME(0);
    }
    cur_ok = 1;
    switch (cur_cmd) {
    case MLLE_PROTOCOL_VERSION_CMD: if (cur_num < 1) want(MLLE_PROTOCOL_ERROR_CMD, 2); else { want(MLLE_PROTOCOL_VERSION_CMD, 1); S = S_TOOLS; } break;
    case MLLE_PROTOCOL_TOOLS_CMD: want(0, 0); S = S_LIB; break;
    case MLLE_PROTOCOL_LIB_CMD: want(MLLE_PROTOCOL_ERROR_CMD, 4); if (!npay) lib_bad = 1; break;    /* empty path; otherwise decided in mlle_cr_create */
    case MLLE_PROTOCOL_LICENSE_CMD: case MLLE_PROTOCOL_RETURNLICENSE_CMD: want(MLLE_PROTOCOL_NOTSIMPLE_CMD, 0); break;
    case MLLE_PROTOCOL_FILE_CMD:
        want(MLLE_PROTOCOL_ERROR_CMD, 0);
        if (approved && parent(rel())) want(MLLE_PROTOCOL_ERROR_CMD, 4);
        break;
    case MLLE_PROTOCOL_FEATURE_CMD: case MLLE_PROTOCOL_RETURNFEATURE_CMD: want(-1, 0); break;   /* set by the license manager stand-in */
    }
    return n;
}
static void settle(void)
{
    if (!delivered) return;
    MUST(REPLY, replies == 1, "reply.exactly-one-per-message");
    if (cur_cmd < 0) return;
    int fc = cur_ok && (cur_cmd == MLLE_PROTOCOL_FEATURE_CMD), rf = cur_ok && cur_cmd == MLLE_PROTOCOL_RETURNFEATURE_CMD, fi = cur_ok && cur_cmd == MLLE_PROTOCOL_FILE_CMD, li = cur_ok && cur_cmd == MLLE_PROTOCOL_LIB_CMD;
#ifdef MLLE_GLOBAL_LICENSE_FEATURE
    MUST(STATE, n_checkin == 0 || rf, "state.no-effect-out-of-order");
#else
    MUST(STATE, (n_checkout == 0 || fc) && (n_checkin == 0 || rf) && (n_new == 0 || fc || rf), "state.no-effect-out-of-order");
    MUST(LICENSES, lic_fail ? n_checkout + n_checkin == 0 : n_checkout == fc && n_checkin == rf, "license.decided-by-license-manager");
#endif
    MUST(STATE, (n_read == 0 || fi) && (n_decrypt == 0 || fi) && (n_create == 0 || li), "state.no-effect-out-of-order");
    MUST(GATE, approved || (n_read == 0 && n_decrypt == 0), "gate.unapproved-tool-reads-nothing");
    MUST(FILES, !fi || !approved || n_read == !parent(rel()), "file.read-once");
}
int ssl_read_message(SSL *s, char **b, int *e)
{
    static char m[5000]; size_t n;
    VP_ASSERT(s == the_ssl, "session.connection");
    settle();
    MUST(REPLY, !stop, "reply.no-read-after-shutdown");
    delivered = 0; replies = 0;
    if (left-- <= 0) { *e = SSL_ERROR_ZERO_RETURN; stop = 1; return -1; }
    n = make_message(m); delivered = 1;
    *b = malloc(n); memcpy(*b, m, n);
    return (int)n;
}
int vp_SSL_get_shutdown(const SSL *s) { if (nd_range(0, 39) == 0) { settle(); delivered = 0; stop = 1; return 2; } return 0; }
int ssl_write_message(SSL *s, char *m, size_t n)
{
    struct spec_line l; char *d; size_t np = 0; int id;
    VP_ASSERT(s == the_ssl, "session.connection");
    replies++;
    MUST(REPLY, delivered && replies == 1, "reply.exactly-one-per-message");
    if (replies > 1) return (int)n;
    d = memchr(m, '\n', n);
    MUST(SENT, d != NULL, "sent.command-line");
    if (!d) return (int)n;
    spec_parse(m, (size_t)(d - m) + 1, &l); d++; np = n - (size_t)(d - m);
    MUST(SENT, l.e == LE_VALID_GRAMMAR, "sent.wellformed");
    if (l.e != LE_VALID_GRAMMAR) return (int)n;
    enum spec_form f = spec_cmds[l.cmd].form; id = id_of(l.cmd);
    MUST(SENT, np == (f == SF_LENGTH ? (size_t)l.val[0] : f == SF_NUMLEN ? (size_t)l.val[1] : 0), "sent.announced-length");
    int err1 = id == MLLE_PROTOCOL_ERROR_CMD && l.val[0] == 1;
    if (!cur_ok) { MUST(STATE | REPLY, err1, "state.not-understood-answered-with-error-1"); MUST(GATE, id == MLLE_PROTOCOL_ERROR_CMD, "gate.rejected-message"); return (int)n; }
    MUST(STATE, !err1, "state.in-order-command-served");
    if (id == MLLE_PROTOCOL_FILECONT_CMD) {
        MUST(GATE, approved, "gate.only-approved-tools-get-files");
        MUST(FILES, cur_cmd == MLLE_PROTOCOL_FILE_CMD, "file.only-on-request");
    }
    if (cur_cmd == MLLE_PROTOCOL_FILE_CMD) {
        if (!approved) { MUST(GATE, id == MLLE_PROTOCOL_ERROR_CMD && (lib_bad || l.val[0] == 5), "gate.refusal-is-an-error"); return (int)n; }
        MUST(FILES, id == ex.cmd, "file.answer");
        if (ex.cmd == MLLE_PROTOCOL_ERROR_CMD) MUST(FILES, l.val[0] == ex.num, "file.error-code");
        if (!ex.anytext) MUST(FILES, np == ex.len && memcmp(d, ex.text, np) == 0, "file.contents");
        return (int)n;
    }
    if (cur_cmd == MLLE_PROTOCOL_FEATURE_CMD || cur_cmd == MLLE_PROTOCOL_RETURNFEATURE_CMD) {
        MUST(LICENSES, ex.cmd > 0, "license.decided-by-license-manager");
        MUST(LICENSES, id == ex.cmd, "license.answer");
        if (ex.cmd == MLLE_PROTOCOL_ERROR_CMD) MUST(LICENSES, l.val[0] == ex.num, "license.error-code");
        if (!ex.anytext) MUST(LICENSES, np == ex.len && memcmp(d, ex.text, np) == 0, "license.reason");
        return (int)n;
    }
    if (cur_cmd == MLLE_PROTOCOL_LICENSE_CMD || cur_cmd == MLLE_PROTOCOL_RETURNLICENSE_CMD) { MUST(LICENSES | STATE, id == MLLE_PROTOCOL_NOTSIMPLE_CMD, "license.not-simple"); return (int)n; }
    if (cur_cmd == MLLE_PROTOCOL_TOOLS_CMD) { MUST(STATE, id != MLLE_PROTOCOL_ERROR_CMD, "state.tools"); return (int)n; }
    MUST(STATE | (cur_cmd == MLLE_PROTOCOL_LIB_CMD ? GLOBALLIC : 0), id == ex.cmd && (id != MLLE_PROTOCOL_ERROR_CMD && id != MLLE_PROTOCOL_VERSION_CMD || l.val[0] == ex.num), "state.answer");
    return (int)n;
}
/* dependencies */
struct mlle_license *mlle_license_new(const char *p, struct mlle_error **e)
{
    n_new++;
    MUST(LICENSES, have_lib && strcmp(p, libpath) == 0, "license.for-the-library");
    MUST(LICENSES, !lic_made, "license.manager-created-once");
    if (nd_range(0, 5) == 0) { lic_fail = 1;
#ifdef MLLE_GLOBAL_LICENSE_FEATURE
        if (cur_cmd == MLLE_PROTOCOL_LIB_CMD) { text(rnd_text()); mlle_error_set_literal(e, 42, 1, errtext); want(MLLE_PROTOCOL_ERROR_CMD, 7); approved = 0; lib_bad = 1; return NULL; }
#endif
        text(rnd_text()); mlle_error_set_literal(e, 42, 1, errtext); want_text(MLLE_PROTOCOL_ERROR_CMD, 7, errtext, strlen(errtext)); return NULL; }
    lic_made = 1; lic_fail = 0;
    return (struct mlle_license *)&lic_obj;
}
void mlle_license_free(struct mlle_license *m) {}
static int decide(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e, int refused, long code)
{
    MUST(LICENSES, m == (struct mlle_license *)&lic_obj, "license.manager");
#ifdef MLLE_GLOBAL_LICENSE_FEATURE
    if (cur_cmd == MLLE_PROTOCOL_LIB_CMD) {
        MUST(GLOBALLIC, n == strlen("GLF") && memcmp(f, "GLF", n) == 0, "global.feature-name");
        MUST(GLOBALLIC, approved, "global.only-for-approved");
        if (nd_bool()) return 1;
        text(rnd_text()); mlle_error_set_literal(e, 42, 1, errtext); want(MLLE_PROTOCOL_ERROR_CMD, 7); approved = 0; lib_bad = 1; return 0;
    }
#endif
    MUST(LICENSES, n == npay && memcmp(f, pay, n) == 0 && f[n] == 0, "license.feature-exact");
    if (nd_bool()) { want_text(MLLE_PROTOCOL_YES_CMD, 0, "", 0); return 1; }
    text(rnd_text()); mlle_error_set_literal(e, 42, 1, errtext);
    want_text(refused, code, errtext, strlen(errtext));
    return 0;
}
int mlle_license_checkout_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e) { n_checkout++; return decide(m, n, f, e, MLLE_PROTOCOL_NO_CMD, 0); }
int mlle_license_checkin_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e) { n_checkin++; return decide(m, n, f, e, MLLE_PROTOCOL_ERROR_CMD, 7); }
mlle_cr_context *mlle_cr_create(const char *p)
{
    size_t n = npay;
    n_create++;
    while (n > 1 && (pay[n - 1] == '/' || pay[n - 1] == '\\')) n--;
    memcpy(libpath, pay, n); libpath[n] = 0; nlib = n;
    MUST(FILES | LICENSES, strcmp(p, libpath) == 0, "lib.path-exact");
    if (nd_range(0, 9) == 0) { want(MLLE_PROTOCOL_ERROR_CMD, 8); lib_bad = 1; return NULL; }
    have_lib = 1; S = S_LICENSE; want(MLLE_PROTOCOL_YES_CMD, 0);
    return the_cr;
}
void mlle_cr_free(mlle_cr_context *c) {}
int vp_stat(const char *p, struct stat *s)
{
    if (nd_range(0, 5) == 0) { lib_bad = 1; return -1; }
    memset(s, 0, sizeof *s); s->st_mode = nd_range(0, 5) ? S_IFDIR | 0755 : S_IFREG | 0644; if (!(s->st_mode & S_IFDIR)) lib_bad = 1; return 0;
}
char *vp_io_read_file(const char *p, size_t *size, struct mlle_error **e)
{
    char w[8192]; char *b;
    n_read++;
    snprintf(w, sizeof w, "%s/%s", libpath, rel());
    MUST(FILES, strcmp(p, w) == 0, "file.path-exact");
    MUST(FILES, !parent(rel()), "file.inside-library");
    if (nd_range(0, 4) == 0) { text(rnd_text()); mlle_error_set_literal(e, 1, 1, errtext); want_text(MLLE_PROTOCOL_ERROR_CMD, 6, errtext, strlen(errtext)); return NULL; }
    nfile = nd_range(0, 3) ? nd_range(0, 60) : nd_range(0, 3000); nd_fill(filedata, nfile);
    b = malloc(nfile + 1); memcpy(b, filedata, nfile); b[nfile] = 0; *size = nfile;
    char *x = strrchr(rel(), '.');
    if (x && strcasecmp(x + 1, "moc") == 0) want(-2, 0); else want_text(MLLE_PROTOCOL_FILECONT_CMD, 0, filedata, nfile);
    return b;
}
int mlle_cr_decrypt(mlle_cr_context *c, const char *r, char *in, size_t n, char *out)
{
    n_decrypt++;
    MUST(FILES, ex.cmd == -2, "file.decrypt-only-encrypted");
    MUST(FILES, c == the_cr && strcmp(r, rel()) == 0 && n == nfile && memcmp(in, filedata, n) == 0, "file.decrypt-arguments");
    if (nd_range(0, 4) == 0) { want(MLLE_PROTOCOL_ERROR_CMD, 8); return -1; }
    nplain = (int)nd_range(0, n); nd_fill(plain, nplain); memcpy(out, plain, nplain); if (n) memset(out + nplain, 0xcc, n - nplain); out[n] = 0;
    want_text(MLLE_PROTOCOL_FILECONT_CMD, 0, plain, nplain);
    return nplain;
}
void h_session(void)
{
    struct mlle_lve_ctx ctx; memset(&ctx, 0, sizeof ctx); ctx.ssl = the_ssl;
    vp_alloc_fails = 0;
    vp_tool_num = (int)nd_range(1, VP_TOOL_MAX);
    for (int i = 0; i < VP_TOOL_MAX; i++) { size_t n = nd_range(1, 12); for (size_t j = 0; j < n; j++) keys[i][j] = "ab-\n"[nd_range(0, 3)]; keys[i][n] = 0; }
    static char kb[80]; global_tool_pub_key = kb; strcpy(kb, keys[nd_range(0, vp_tool_num - 1)]);
    switch (nd_range(0, 11)) { case 0: global_tool_pub_key = NULL; break; case 1: kb[strlen(kb) - 1] = 0; break; case 2: strcat(kb, "a"); break; case 3: kb[0] ^= 1; break; case 4: kb[0] = 0; break; case 5: kb[strlen(kb) - 1] ^= 1; break;
        case 6: if (vp_tool_num < VP_TOOL_MAX) strcpy(kb, keys[vp_tool_num]); break; }
    approved = 0; for (int i = 0; i < vp_tool_num; i++) if (global_tool_pub_key && strcmp(kb, keys[i]) == 0) approved = 1;
    S = S_VERSION; replies = delivered = stop = have_lib = lib_bad = lic_made = lic_fail = 0; cur_cmd = -1; left = (int)nd_range(0, 14); nlib = 0; libpath[0] = 0;
    ctx.tool_approved = nd_bool();
    mlle_lve_receive(&ctx);
    MUST(REPLY, stop, "reply.serves-until-the-end");
    free(ctx.libpath);
}

void ssl_get_error_string(int a, char *b, size_t c) {}
void vp_native_harness(void) { VP_ENTRY(); }
