/* Bounded replay search over the whole system: the real tool library spawns this
 * same program again, which then runs the real library executable (lve.c); they
 * talk real TLS over real pipes and use a real encrypted library in a scratch
 * directory.  Only the license manager and the embedded keys are stand-ins.
 * CHK selects the obligations of one property. */
#include "vp.h"
#include "libcrypto-compat.h"
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "mlle_types.h"
#include "mlle_licensing.h"
#include "mlle_license_manager.h"
#include "mlle_cr_encrypt.h"
#include "mlle_cr_decrypt.h"
#include "public_key_tool.h"
#include "mlle_spawn.h"
#include <openssl/ssl.h>
enum { GATE = 1, FILES = 2, LICENSES = 4, TOOL = 8, READ = 16, START = 32, LVE = 64, CLI = 128 };
#ifndef CHK
#define CHK 255
#endif
#define MUST(cls, c, id) do { if ((CHK) & (cls)) VP_ASSERT(c, id); } while (0)
#define NKEY 3
static char priv[NKEY + 1][4000], pub[NKEY + 1][1000]; /* the last: the executable's own */
static int is_lve, tool_key, lve_newfail; int vp_tool_num; static int approved_idx[VP_TOOL_MAX];
static char home[200], lib[260];
static const char CRKEY[32] = "0123456789abcdefghijklmnopqrstuv";
void vp_key_init(unsigned char *k, int n) { if (n == 32) memcpy(k, CRKEY, 32); else strcpy((char *)k, priv[is_lve ? NKEY : tool_key]); }
void vp_key_clear(unsigned char *k, int n) { memset(k, 0, n); }
void vp_tool_init(unsigned char k[VP_TOOL_MAX][VP_TOOL_LEN]) { for (int i = 0; i < vp_tool_num; i++) strcpy((char *)k[i], pub[approved_idx[i]]); }
void vp_tool_clear(unsigned char k[VP_TOOL_MAX][VP_TOOL_LEN]) { memset(k, 0, VP_TOOL_MAX * VP_TOOL_LEN); }
/* ---- the license manager, in the executable ---- */
static int lic_obj, lic_new; static void note(const char *t, const char *f) { char p[300]; FILE *o; snprintf(p, sizeof p, "%s/log", home); o = fopen(p, "a"); fprintf(o, "%s %s\n", t, f); fclose(o); }
struct mlle_license *mlle_license_new(const char *p, struct mlle_error **e)
{ note("new", p); if (lve_newfail) { mlle_error_set_literal(e, 42, 1, "no license manager"); return NULL; } lic_new++; return (struct mlle_license *)&lic_obj; }
void mlle_license_free(struct mlle_license *m) {}
static int decide(const char *what, const char *f, size_t n, struct mlle_error **e)
{
    note(what, f); if (!strncmp(f, "die", 3)) { sync(); _exit(9); }
    if (!strncmp(f, "yes", 3)) return 1;
    mlle_error_set(e, 42, 1, "reason %zu for %s", n, f); return 0;
}
int mlle_license_checkout_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e) { return decide("out", f, n, e); }
int mlle_license_checkin_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e) { return decide("in", f, n, e); }
int lve_main(int argc, char **argv);
static void slurp(const char *n, char *b, size_t z) { char p[300]; FILE *f; size_t k; snprintf(p, sizeof p, "%s/%s", home, n); f = fopen(p, "r"); if (!f) _exit(8); k = fread(b, 1, z - 1, f); b[k] = 0; fclose(f); }
int vp_native_alt(int argc, char **argv)
{
    char b[200], *q; int i;
    is_lve = 1; vp_alloc_fails = 0; snprintf(home, sizeof home, "%s", getenv("VP_ALT")); alarm(120);
    for (i = 0; i < NKEY; i++) { char n[20]; sprintf(n, "pub%d", i); slurp(n, pub[i], sizeof pub[i]); } slurp("priv_lve", priv[NKEY], sizeof priv[NKEY]);
    slurp("cfg", b, sizeof b); q = b; lve_newfail = (int)strtol(q, &q, 10); vp_tool_num = (int)strtol(q, &q, 10); for (i = 0; i < vp_tool_num; i++) approved_idx[i] = (int)strtol(q, &q, 10);
    if (lve_newfail == 2) strcpy(priv[NKEY], "no key");
    i = lve_main(argc, argv);
    _exit(i ? i : 0);
}
/* ---- the library ---- */
enum { NF = 11 };
static struct { const char *path; int enc; size_t n; char *b; } F[NF] = { { "a.mo", 0, 100 }, { "empty.mo", 0, 0 }, { "one.mo", 0, 1 }, { "big.mo", 0, 70000 }, { "rec.txt", 0, 16384 }, { "P/plain.txt", 0, 333 }, { "package.mo", 1, 50 }, { "P/package.mo", 1, 700 }, { "P/x.mo", 1, 16 }, { "P/big.mo", 1, 50000 }, { "y.mo", 1, 0 } };
static void put(const char *p, const void *b, size_t n) { char q[400]; FILE *f; snprintf(q, sizeof q, "%s/%s", home, p); f = fopen(q, "wb"); if (!f || (n && fwrite(b, 1, n, f) != n) || fclose(f)) _exit(4); }
static void make_key(int i) { EVP_PKEY *k = EVP_RSA_gen(2048); BIO *b = BIO_new(BIO_s_mem()); RSA *r = EVP_PKEY_get1_RSA(k); PEM_write_bio_RSAPrivateKey(b, r, NULL, NULL, 0, NULL, NULL); priv[i][BIO_read(b, priv[i], 3999)] = 0; BIO_free(b); b = BIO_new(BIO_s_mem()); PEM_write_bio_RSA_PUBKEY(b, r); pub[i][BIO_read(b, pub[i], 999)] = 0; BIO_free(b); }
static int ready;
static void prepare(void)
{
    char p[600], q[600]; int i; mlle_cr_context *c;
    if (ready) return; ready = 1;
    signal(SIGPIPE, SIG_IGN);   /* as a tool has to */
    if (!getcwd(p, sizeof p)) _exit(4);
    snprintf(home, sizeof home, "%s/e2e_%d", p, (int)getpid()); snprintf(lib, sizeof lib, "%s/lib", home);
    mkdir(home, 0755); mkdir(lib, 0755); snprintf(p, sizeof p, "%s/P", lib); mkdir(p, 0755);
    for (i = 0; i <= NKEY; i++) { make_key(i); sprintf(q, "pub%d", i); put(q, pub[i], strlen(pub[i])); } put("priv_lve", priv[NKEY], strlen(priv[NKEY]));
    put("secret.mo", "outside", 7);
    c = mlle_cr_create(lib); if (!c) _exit(4);
    for (i = 0; i < NF; i++) {
        uint64_t s = (uint64_t)i * 77 + 5; F[i].b = malloc(F[i].n + 1); for (size_t k = 0; k < F[i].n; k++) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; F[i].b[k] = (char)(s >> 50); }
        snprintf(p, sizeof p, "lib/%s", F[i].path); put(p, F[i].b, F[i].n);
    }
    for (int pass = 0; pass < 2; pass++) for (i = 0; i < NF; i++) if (F[i].enc && pass == !strstr(F[i].path, "package")) {
        snprintf(p, sizeof p, "%s/%s", lib, F[i].path); snprintf(q, sizeof q, "%s/%sc", lib, F[i].path);
        FILE *in = fopen(p, "rb"), *out = fopen(q, "wb"); if (!mlle_cr_encrypt(c, F[i].path, in, out)) _exit(4); fclose(in); if (fclose(out)) _exit(4); unlink(p);
    }
    /* an altered file */
    snprintf(q, sizeof q, "%s/P/x.moc", lib); { FILE *f = fopen(q, "rb"); char b[400]; size_t n = fread(b, 1, sizeof b, f); fclose(f); b[n / 2] ^= 4; put("lib/P/bad.moc", b, n); put("lib/P/short.moc", b, n > 40 ? 40 : n); b[n / 2] ^= 4; put("lib/moved.moc", b, n); }
    mlle_cr_free(c);
}
static int contains(const char *h, const char *n) { return h && strstr(h, n) != NULL; }
static void count_log(int *nnew, int *nout, int *nin, char *last, size_t z) { char b[9000], *l, *s; *nnew = *nout = *nin = 0; last[0] = 0; { char p[300]; snprintf(p, sizeof p, "%s/log", home); if (access(p, F_OK)) return; } slurp("log", b, sizeof b); for (l = strtok_r(b, "\n", &s); l; l = strtok_r(NULL, "\n", &s)) { *nnew += !strncmp(l, "new ", 4); *nout += !strncmp(l, "out ", 4); *nin += !strncmp(l, "in ", 3); snprintf(last, z, "%s", l); } }
static void unlink_log(void) { char p[300]; snprintf(p, sizeof p, "%s/log", home); unlink(p); }
static int fd_count(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; struct dirent *e; if (!d) return 0; while ((e = readdir(d))) n++; closedir(d); return n; }
static int reap(int must) { int st = 0, i; pid_t p = 0; for (i = 0; i < 60000; i++) { p = waitpid(-1, &st, WNOHANG); if (p != 0) break; struct timespec t = { 0, 1000000 }; nanosleep(&t, NULL); } if (p == 0) return -1; return p < 0 ? -2 : WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); }
static struct mlle_error *err; static int ok_text(void) { int r = err != NULL && mlle_error_get_message(err) != NULL && mlle_error_get_message(err)[0] != 0; return r; }
static void failed(const char *id) { MUST(TOOL, err != NULL && mlle_error_get_message(err) != NULL, id); }
static void read_all(struct mlle_file_contents *fc, int i, const char *got_id)
{
    static char b[80000]; size_t at = 0, mode = nd_range(0, 3), k, r;
    MUST(FILES | READ, mlle_tool_get_file_size(fc) == F[i].n, "file.size");
    for (int t = 0; t < 100000; t++) {
        k = mode == 0 ? sizeof b - at : mode == 1 ? 1000 : mode == 2 ? (F[i].n < 2000 ? 1 : 4096) : nd_range(1, 9000); if (k > sizeof b - at) k = sizeof b - at; if (!k) break;
        r = mlle_tool_read_bytes(fc, b + at, k); if (r == (size_t)-1) break; MUST(READ, r <= k, "fileread.count"); if (r > k) return; at += r;
    }
    MUST(FILES | READ, at == F[i].n && memcmp(b, F[i].b, at) == 0, got_id);
    MUST(READ, mlle_tool_read_bytes(fc, b, 10) == (size_t)-1, "fileread.end");
}
/* a client that presents no certificate (kind 0), one with a key that isn't RSA (1), or speaks no TLS (2): never gets a file */
static void strange_client(int kind)
{
    struct mlle_connections *c; SSL_CTX *x; struct mlle_file_contents *fc; int v, l;
    put("cfg", "0 3 0 1 2", 9); unlink_log(); setenv("VP_ALT", home, 1); c = mlle_spawn("/proc/self/exe", &err); unsetenv("VP_ALT"); if (!c) return;
    if (kind == 2) { char b[500], cmd[400]; int n; snprintf(cmd, sizeof cmd, "VERSION 1 1\nLIB %zu\n%sFILE 4\na.mo", strlen(lib), lib); n = write(c->fd_to_child, cmd, strlen(cmd)); close(c->fd_to_child); c->fd_to_child = -1; while ((n = read(c->fd_from_child, b, sizeof b)) > 0) MUST(GATE, memmem(b, n, F[0].b, 20) == NULL, "gate.no-tls-no-file"); }
    else {
        x = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_verify(x, SSL_VERIFY_NONE, NULL); if (nd_bool()) SSL_CTX_set_max_proto_version(x, TLS1_2_VERSION);
        if (kind == 1) { EVP_PKEY *k = EVP_EC_gen("P-256"); X509 *t = X509_new(); ASN1_INTEGER_set(X509_get_serialNumber(t), 1); X509_gmtime_adj(X509_get_notBefore(t), 0); X509_gmtime_adj(X509_get_notAfter(t), 31536000L); X509_set_pubkey(t, k); X509_sign(t, k, EVP_sha256()); SSL_CTX_use_certificate(x, t); SSL_CTX_use_PrivateKey(x, k); }
        c->ssl = SSL_new(x); SSL_set_bio(c->ssl, BIO_new_fd(c->fd_from_child, BIO_NOCLOSE), BIO_new_fd(c->fd_to_child, BIO_NOCLOSE)); SSL_set_mode(c->ssl, SSL_MODE_AUTO_RETRY);
        if (SSL_connect(c->ssl) > 0) {
            v = mlle_tool_version(c, 1, 1, &err); mlle_error_free(&err); err = NULL; l = v && mlle_tool_libpath(c, lib, &err); mlle_error_free(&err); err = NULL;
            fc = mlle_tool_file(c, nd_bool() ? "a.mo" : "package.moc", &err); MUST(GATE, fc == NULL, "gate.unidentified-tool-gets-no-file"); mlle_error_free(&err); err = NULL;
        }
    }
    mlle_connections_free(&c); int st = reap(1); MUST(GATE | LVE, st >= 0 && st < 1000 && st != 1, "lve.survives-strange-clients");
}
void h_e2e(void)
{
    struct mlle_connections *c; int S = 0, approved = 0, i, died = 0, newfail, nnew = 0, nout = 0, nin = 0, want_new = 0, want_out = 0, want_in = 0; char cfg[200], last[600], wlast[600] = ""; struct mlle_file_contents *fc;
    vp_alloc_fails = 0; prepare(); err = NULL;
    if ((CHK & CLI) && nd_range(0, 2) == 0) {   /* command line checkout */
        char *feat = nd_bool() ? "yesX" : "noX", self[] = "lve"; newfail = nd_range(0, 3) == 0; snprintf(cfg, sizeof cfg, "%d 1 0", newfail); put("cfg", cfg, strlen(cfg)); unlink_log();
        char *a[] = { self, "--checkout-feature", feat, "--libpath", lib, NULL }; int swap = nd_bool(); if (swap) { a[1] = "--libpath"; a[2] = lib; a[3] = "--checkout-feature"; a[4] = feat; }
        pid_t p = fork(); if (p == 0) { int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); dup2(n, 2); setenv("VP_ALT", home, 1); execv("/proc/self/exe", a); _exit(77); }
        int st = reap(1); count_log(&nnew, &nout, &nin, last, sizeof last); snprintf(wlast, sizeof wlast, "out %s", feat);
        MUST(CLI, (st == 0) == (!newfail && feat[0] == 'y'), "cli.status-says-what-the-license-manager-said"); MUST(CLI, st < 128, "cli.no-crash");
        MUST(CLI, nnew == 1 && nin == 0 && (newfail ? nout == 0 : nout == 1 && strcmp(last, wlast) == 0), "cli.asked-once-for-the-feature");
        return;
    }
    if ((CHK & (GATE | LVE)) && nd_range(0, 6) == 0) { strange_client((int)nd_range(0, 2)); return; }
    if ((CHK & (START | LVE)) && nd_range(0, 14) == 0) {   /* an executable without a usable key */
        int before = fd_count(), st; put("cfg", "2 1 0", 5); setenv("VP_ALT", home, 1); c = mlle_start_executable("/proc/self/exe", &err); unsetenv("VP_ALT");
        MUST(START, c == NULL && ok_text() && fd_count() == before, "start.failed-handshake"); st = reap(1); MUST(LVE, st == 0, "lve.ends-normally-without-connection"); mlle_error_free(&err); return;
    }
    if ((CHK & START) && nd_range(0, 14) == 0) {   /* too few descriptors */
        struct rlimit old, lim; int before = fd_count(), st; put("cfg", "0 1 0", 5); getrlimit(RLIMIT_NOFILE, &old); lim = old; lim.rlim_cur = before - 3 + nd_range(0, 3); setrlimit(RLIMIT_NOFILE, &lim);
        setenv("VP_ALT", home, 1); c = mlle_start_executable("/proc/self/exe", &err); unsetenv("VP_ALT"); setrlimit(RLIMIT_NOFILE, &old);
        MUST(START, c == NULL && ok_text() && fd_count() == before, "start.failure-releases-descriptors"); mlle_error_free(&err); return;
    }
    if (nd_range(0, 14) == 0) {   /* an executable that isn't there, isn't executable or ends at once */
        char p[300]; int k = (int)nd_range(0, 2), before = fd_count(), after; snprintf(p, sizeof p, "%s/%s", home, k == 0 ? "nothing" : "pub0");
        c = mlle_start_executable(k == 2 ? "/bin/false" : p, &err); after = fd_count();
        MUST(START, c == NULL, "start.fails"); MUST(START, ok_text(), "start.failure-sets-error"); MUST(START, after == before, "start.failure-releases-descriptors");
        if (k == 2) reap(1);
        mlle_error_free(&err); return;
    }
    tool_key = (int)nd_range(0, NKEY - 1); newfail = nd_range(0, 5) == 0; vp_tool_num = (int)nd_range(1, 3);
    sprintf(cfg, "%d %d", newfail, vp_tool_num); for (i = 0; i < vp_tool_num; i++) { int k = (int)nd_range(0, NKEY - 1); sprintf(cfg + strlen(cfg), " %d", k); approved |= k == tool_key; }
    put("cfg", cfg, strlen(cfg)); unlink_log();
    setenv("VP_ALT", home, 1); c = mlle_start_executable("/proc/self/exe", &err); unsetenv("VP_ALT");
    MUST(START, c != NULL && err == NULL, "start.succeeds"); if (!c) { mlle_error_free(&err); reap(1); return; }
    int n_ops = (int)nd_range(1, 12);
    while (n_ops-- > 0 && !died) {
        int r = 0, op = S == 0 && nd_range(0, 3) ? 0 : S == 1 && nd_range(0, 3) ? 1 : (int)nd_range(0, 8);
        static const char *const feats[] = { "yes", "yes please", "no", "nope nope", "n", "yes/..\n", "no %s %n" };
        const char *f = feats[nd_range(0, 6)]; char longf[3000]; if (nd_range(0, 9) == 0) { size_t k = nd_range(4, 2900); memset(longf, 'q', k); memcpy(longf, nd_bool() ? "yes" : "noo", 3); longf[k] = 0; f = longf; }
        err = NULL;
        if (op == 0) {
            static const int mm[6][2] = { { 1, 1 }, { 1, 3 }, { 0, 1 }, { 2, 3 }, { 0, 0 }, { -1, 7 } }; const int *m = mm[nd_range(0, 5)];
            r = mlle_tool_version(c, m[0], m[1], &err);
            int w = S == 0 && m[0] <= 1 && m[1] >= 1; MUST(TOOL, r == w, "tool.version"); if (S == 0 && m[1] >= 1) S = 1; if (!r) failed("tool.version-error");
        } else if (op == 1) {
            char p[300]; snprintf(p, sizeof p, "%s%s", lib, nd_bool() ? "/" : ""); r = mlle_tool_libpath(c, p, &err); MUST(TOOL, r == (S == 1), "tool.libpath"); if (S == 1) S = 2; if (!r) failed("tool.libpath-error");
        } else if (op == 2 || op == 3) {
            int die = nd_range(0, 19) == 0; if (die) f = "die";
            r = op == 2 ? mlle_tool_feature(c, f, &err) : mlle_tool_returnfeature(c, f, &err);
            if (S == 2) { if (newfail || !lic_new) want_new++; if (!newfail) { lic_new = 1; if (op == 2) want_out++; else want_in++; snprintf(wlast, sizeof wlast, "%s %s", op == 2 ? "out" : "in", f); if (die) died = 1; } else snprintf(wlast, sizeof wlast, "new %s", lib); }
            MUST(LICENSES | TOOL, r == (S == 2 && !newfail && f[0] == 'y'), "license.answer");
            if (!r) { failed("tool.feature-error"); if (err && S == 2 && !newfail && !died) { char w[4000]; snprintf(w, sizeof w, "reason %zu for %s", strlen(f), f);  w[op == 2 ? 2047 : 2000] = 0; if (strlen(f) < 1900) MUST(LICENSES | TOOL, op == 2 ? !strcmp(mlle_error_get_message(err), w) && mlle_error_get_code(err) == MLLE_TOOL_ERROR_NO_LICENSE : contains(mlle_error_get_message(err), w), "license.reason"); } }
        } else if (op == 4 || op == 5) {
            r = op == 4 ? mlle_tool_license(c, "pkg", &err) : mlle_tool_returnlicense(c, "pkg", &err); MUST(LICENSES | TOOL, r == 0, "license.not-simple"); failed("tool.license-error"); if (err && S == 2 && op == 4) MUST(TOOL, mlle_error_get_code(err) == MLLE_TOOL_ERROR_NOT_SIMPLIFIED, "tool.not-simplified-code");
        } else {
            static const char *const bad[] = { "none.mo", "P", "../secret.mo", "P/../../secret.mo", "P/bad.moc", "P/short.moc", "moved.moc", "a.moc", "P\\..\\..\\secret.mo" };
            char p[300]; int k = -1; if (nd_range(0, 3)) { k = (int)nd_range(0, NF - 1); snprintf(p, sizeof p, "%s%s", F[k].path, F[k].enc ? "c" : ""); } else { k = -1; strcpy(p, bad[nd_range(0, 8)]); if (!strcmp(p, "P")) continue; }
            fc = mlle_tool_file(c, p, &err); r = fc != NULL;
            if (!approved) MUST(GATE, !r, "gate.only-approved-tools-get-files");
            else MUST(FILES | TOOL, r == (S == 2 && k >= 0), k >= 0 ? "file.delivered" : "file.refused");
            if (approved && S == 2 && k >= 0) MUST(GATE, r, "gate.approved-tool-gets-files");
            if (!r) failed("tool.file-error"); else if (k >= 0) read_all(fc, k, "file.contents");
            if (!r && err && S == 2 && !approved) MUST(GATE, ok_text(), "gate.refusal-is-an-error");
            mlle_file_contents_free(&fc);
        }
        if (r) MUST(TOOL, err == NULL, "tool.success-without-error");
        mlle_error_free(&err); err = NULL;
    }
    if (died) { int r = mlle_tool_feature(c, "yes", &err); MUST(TOOL, r == 0 && err != NULL, "tool.executable-gone"); mlle_error_free(&err); }
    mlle_connections_free(&c); MUST(START, c == NULL, "start.connection-freed");
    i = reap(1); MUST(LVE, i == (died ? 9 : 0), "lve.ends-normally-after-the-session");
    count_log(&nnew, &nout, &nin, last, sizeof last);
    MUST(LICENSES, nnew == want_new && nout == want_out && nin == want_in, "license.asked-once");
    if (nnew + nout + nin && strlen(wlast) < 550 && !strchr(wlast, '\n')) MUST(LICENSES, strcmp(last, wlast) == 0, "license.feature-exact");
    lic_new = 0;
}
void vp_native_harness(void) { VP_ENTRY(); }
