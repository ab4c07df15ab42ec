/* Contracts of mlle_start_executable, mlle_spawn and mlle_connections_free: the tool gets a
 * connection to the executable it named, or a clean failure.  ssl_setup_tool and
 * tool_perform_handshake by contract (unit tls_tool); the system calls by contract. */
#include "vp.h"
#include "libcrypto-compat.h"
#include <openssl/ssl.h>
#include <errno.h>
#include <unistd.h>
#include "mlle_types.h"
#include "mlle_error.h"
#include "mlle_licensing.h"
#ifndef VP_CBMC
#define __CPROVER_assume(c) VP_ASSUME(c)
#endif
enum { NFD = 12 };
enum { END_R = 1, END_W = 2 };
static struct { int open, pipe, end; } fds[NFD];   /* what each descriptor refers to; 0, 1, 2 are the standard ones */
static int n_pipe, g_child, g_forked, g_errset, g_ssl_freed, g_ssl_shut, g_sslset, g_setup, g_hand, g_freed; static char g_sslobj; static const char *g_name; static struct mlle_connections *g_con;
static int is_named(const char *p) { int i; if (p == g_name) return 1; if (!p) return 0; for (i = 0; i < 6 && p[i] == g_name[i] && p[i]; i++); return p[i] == g_name[i]; }
int vp_access(const char *p, int m) { VP_ASSERT(is_named(p), "start.named-executable"); if (nd_range(0, 7) == 0) { errno = 2; return -1; } return 0; }
int vp_pipe(int *p)
{
    int a = (int)nd_range(3, NFD - 1), b = (int)nd_range(3, NFD - 1);
    if (nd_range(0, 7) == 0) return -1;
    VP_ASSUME(a != b && !fds[a].open && !fds[b].open);
    n_pipe++; fds[a].open = fds[b].open = 1; fds[a].pipe = fds[b].pipe = n_pipe; fds[a].end = END_R; fds[b].end = END_W; p[0] = a; p[1] = b; return 0;
}
int vp_close(int d)
{
    VP_ASSERT(d >= 0 && d < NFD && fds[d].open, "start.closes-an-open-descriptor"); if (d < 0 || d >= NFD) return -1;
    if (!g_child) VP_ASSERT(d > 2, "start.parent-keeps-its-standard-streams");
    fds[d].open = 0; return 0;
}
int vp_dup2(int a, int b)
{
    VP_ASSERT(a >= 0 && a < NFD && fds[a].open && b >= 0 && b < NFD, "start.dup2-of-an-open-descriptor"); if (!g_child) VP_ASSERT(b > 2, "start.parent-keeps-its-standard-streams");
    if (nd_range(0, 7) == 0) return -1;
    fds[b] = fds[a]; return b;
}
pid_t vp_fork(void) { switch (nd_range(0, 2)) { case 0: return -1; case 1: g_forked = 1; g_child = 1; return 0; default: g_forked = 1; return (pid_t)nd_range(1, 1 << 20); } }
static int pipe_in, pipe_out;
static void exec_check(const char *p)
{
    VP_ASSERT(g_child, "start.only-the-child-becomes-the-executable"); VP_ASSERT(is_named(p), "start.named-executable");
    VP_ASSERT(fds[0].open && fds[0].pipe && fds[0].end == END_R && fds[1].open && fds[1].pipe && fds[1].end == END_W && fds[0].pipe != fds[1].pipe, "start.executable-talks-over-the-pipes");
    VP_ASSERT(fds[2].open && !fds[2].pipe, "start.executable-keeps-stderr");
    VP_ASSERT(fds[0].pipe == 1 || fds[0].pipe == 2, "start.pipes");
    for (int i = 3; i < NFD; i++) VP_ASSERT(!(fds[i].open && fds[i].pipe == fds[0].pipe && fds[i].end == END_W), "start.executable-sees-the-end-of-the-tool");
    pipe_in = fds[0].pipe; pipe_out = fds[1].pipe;
}
int vp_execl(const char *p, const char *a0, ...) { exec_check(p); VP_COVER("start.exec"); if (nd_bool()) VP_ASSUME(0); errno = 8; return -1; }
int vp_execv(const char *p, char *const a[]) { return vp_execl(p, p); }
int vp_execve(const char *p, char *const a[], char *const e[]) { return vp_execl(p, p); }
/* these look on PATH for a name without a slash */
static int path_search(const char *p) { int i, s = 0; for (i = 0; i < 6 && p[i]; i++) s |= p[i] == '/'; VP_ASSERT(s, "start.named-executable-not-another-on-PATH"); return vp_execl(p, p); }
int vp_execlp(const char *p, const char *a0, ...) { return path_search(p); }
int vp_execvp(const char *p, char *const a[]) { return path_search(p); }
void vp__exit(int s) { VP_ASSERT(g_child && s != 0, "start.failed-child-ends"); VP_COVER("start.child-ends"); VP_ASSUME(0); }
int vp_fflush(FILE *f) { return 0; }
int vp_fprintf(FILE *f, const char *fmt, ...) { return 0; }
char *vp_strerror(int e) { return "text"; }
static struct mlle_error **g_slot;
static void set_error(struct mlle_error **e) { VP_ASSERT(e == g_slot && *e == NULL, "start.error-set-once"); *e = (struct mlle_error *)&g_errset; g_errset++; }
void mlle_error_set(struct mlle_error **e, int d, int c, const char *f, ...) { set_error(e); }
void mlle_error_set_literal(struct mlle_error **e, int d, int c, const char *f) { VP_ASSERT(vp_text(f), "start.error-text"); set_error(e); }
int ssl_setup_tool(struct mlle_connections **l, struct mlle_error **e)
{
    VP_ASSERT(l && *l && fds[(*l)->fd_to_child].open && fds[(*l)->fd_from_child].open && (*l)->ssl == NULL, "start.setup-of-a-connection"); g_con = *l; g_setup = 1;
    if (nd_bool()) { set_error(e); return 0; }
    (*l)->ssl = (SSL *)&g_sslobj; g_sslset = 1; return 1;
}
int tool_perform_handshake(struct mlle_connections **l, struct mlle_error **e)
{
    VP_ASSERT(g_setup && l && *l == g_con && g_con->ssl == (SSL *)&g_sslobj, "start.handshake-after-setup");
    if (nd_bool()) { set_error(e); return 0; }
    g_hand = 1; return 1;
}
int vp_SSL_shutdown(SSL *s) { VP_ASSERT(s == (SSL *)&g_sslobj && !g_ssl_freed, "start.shutdown-of-the-connection"); g_ssl_shut++; return nd_bool(); }
void vp_SSL_free(SSL *s) { VP_ASSERT(s == NULL || s == (SSL *)&g_sslobj, "start.frees-its-connection"); if (s) { VP_ASSERT(!g_ssl_freed, "start.freed-once"); g_ssl_freed++; } }
void vp_free(void *p) { if (p) { if (p == g_con) g_freed++; free(p); } }
static int open_pipes(void) { int n = 0; for (int i = 3; i < NFD; i++) n += fds[i].open; return n; }
void h_start(void)
{
    struct mlle_error *e = NULL; struct mlle_connections *c; int i; static char name[7]; for (i = 0; i < 6; i++) name[i] = nd_range(0, 5) ? nd_range(1, 127) : '/'; name[6] = 0;
    for (i = 0; i < NFD; i++) { fds[i].open = i < 3; fds[i].pipe = fds[i].end = 0; } n_pipe = g_child = g_forked = g_errset = g_ssl_freed = g_ssl_shut = g_setup = g_hand = g_freed = g_sslset = 0; g_con = NULL; g_name = name; g_slot = &e;
    c = mlle_start_executable(name, &e);
    VP_ASSERT(!g_child, "start.child-never-returns"); VP_ASSERT(fds[0].open && fds[1].open && fds[2].open && !fds[0].pipe && !fds[1].pipe, "start.parent-keeps-its-standard-streams");
    if (!c) {
        VP_ASSERT(g_errset > 0, "start.failure-sets-error"); VP_ASSERT(open_pipes() == 0, "start.failure-releases-descriptors"); VP_ASSERT(!g_hand, "start.handshake-means-success");
        VP_ASSERT(!g_con || g_freed == 1 && g_ssl_freed == (g_sslset != 0), "start.failure-releases-the-connection"); VP_COVER("start.failed"); return;
    }
    VP_ASSERT(g_forked && g_hand && g_errset == 0, "start.success-means-connected"); VP_ASSERT(c == g_con && c->ssl == (SSL *)&g_sslobj && !g_ssl_freed, "start.connection");
    VP_ASSERT(open_pipes() == 2, "start.keeps-only-its-ends");
    VP_ASSERT(c->fd_to_child > 2 && c->fd_to_child < NFD && fds[c->fd_to_child].open && fds[c->fd_to_child].end == END_W, "start.writes-to-the-child");
    VP_ASSERT(c->fd_from_child > 2 && c->fd_from_child < NFD && fds[c->fd_from_child].open && fds[c->fd_from_child].end == END_R && fds[c->fd_from_child].pipe != fds[c->fd_to_child].pipe, "start.reads-from-the-child");
    VP_COVER("start.ok");
    mlle_connections_free(&c);
    VP_ASSERT(c == NULL && open_pipes() == 0 && g_ssl_freed == 1 && g_ssl_shut >= 1 && g_freed == 1, "start.everything-released-once");
    mlle_connections_free(&c); mlle_connections_free(NULL);
}
void vp_native_harness(void) { vp_alloc_fails = 1; VP_ENTRY(); }
