/* Contracts of ssl_setup_lve, lve_perform_handshake, cert_verify_callback (mlle_ssl_lve.c),
 * ssl_setup_tool, tool_perform_handshake (mlle_ssl_tool.c) and of create_CTX, get_rsa,
 * get_public_key, generate_X509 (mlle_ssl.c), whose real bodies are included.
 * OpenSSL is assumed by the contracts below: each object carries as ghost state what
 * the documentation says the call attached to it. */
#include "vp.h"
#include "libcrypto-compat.h"
#include <openssl/ssl.h>
#include <openssl/bio.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include "mlle_lve.h"
#include "mlle_ssl.h"
#include "mlle_types.h"
#include "mlle_error.h"
int ssl_setup_lve(struct mlle_lve_ctx *c); int lve_perform_handshake(struct mlle_lve_ctx *c);
int ssl_setup_tool(struct mlle_connections **l, struct mlle_error **e); int tool_perform_handshake(struct mlle_connections **l, struct mlle_error **e);
extern char *global_tool_pub_key;
enum { OWN = 1, PEER = 2 };                        /* whose key */
enum { B_TEXT = 1, B_MEM, B_FP, B_FD };
struct m_rsa { int who, has_private; };
struct m_pkey { struct m_rsa *rsa; };
struct m_x509 { struct m_pkey *key; struct m_pkey *signer; };
struct m_bio { int kind; const void *text; FILE *fp; int fd; struct m_rsa *pem; };
struct m_ctx { int server, verify; int (*app)(X509_STORE_CTX *, void *); void *app_arg; struct m_rsa *key; struct m_x509 *cert; };
struct m_ssl { struct m_ctx *ctx; int verify; struct m_x509 *cert; struct m_rsa *key; struct m_bio *rd, *wr; };
static struct m_rsa g_rsa[4], g_peer_rsa; static int n_rsa;
static struct m_pkey g_pkey[3], g_peer_pkey; static int n_pkey;
static struct m_x509 g_x509[3], g_peer_cert; static int n_x509;
static struct m_bio g_bio[8]; static int n_bio;
static struct m_ctx g_ctx[2]; static int n_ctx;
static struct m_ssl g_ssl[4]; static int n_ssl;
#define NEW(arr, n, max) (((n) < (max)) ? (void *)&(arr)[(n)++] : (vp_too_many(), (void *)0))
static void vp_too_many(void) { VP_UNSUPPORTED("more OpenSSL objects than the model holds"); }
/* ---- the embedded private key ---- */
static unsigned char *g_key; static int g_key_live, g_key_n;
void vp_key_init(unsigned char *k, int n) { g_key = k; g_key_live = 1; g_key_n = n; }
void vp_key_clear(unsigned char *k, int n) { if (k == g_key) { VP_ASSERT(n == g_key_n, "wipe.private-key-whole"); g_key_live = 0; } }
/* ---- OpenSSL ---- */
int OPENSSL_init_ssl(uint64_t o, const OPENSSL_INIT_SETTINGS *s) { return 1; }
int OPENSSL_init_crypto(uint64_t o, const OPENSSL_INIT_SETTINGS *s) { return 1; }
const SSL_METHOD *TLS_client_method(void) { return (const SSL_METHOD *)1; }
const SSL_METHOD *TLS_server_method(void) { return (const SSL_METHOD *)2; }
const SSL_METHOD *TLS_method(void) { return (const SSL_METHOD *)3; }
SSL_CTX *SSL_CTX_new(const SSL_METHOD *m) { struct m_ctx *c; if (nd_bool()) return NULL; c = NEW(g_ctx, n_ctx, 2); c->server = (int)(uintptr_t)m; return (SSL_CTX *)c; }
void SSL_CTX_set_verify(SSL_CTX *c, int mode, SSL_verify_cb cb) { ((struct m_ctx *)c)->verify = mode; if (cb) VP_UNSUPPORTED("another verification callback"); }
void SSL_set_verify(SSL *s, int mode, SSL_verify_cb cb) { ((struct m_ssl *)s)->verify = mode; if (cb) VP_UNSUPPORTED("another verification callback"); }
void SSL_CTX_set_cert_verify_callback(SSL_CTX *c, int (*f)(X509_STORE_CTX *, void *), void *a) { ((struct m_ctx *)c)->app = f; ((struct m_ctx *)c)->app_arg = a; }
int SSL_CTX_set_cipher_list(SSL_CTX *c, const char *t) { return nd_bool(); }
int SSL_CTX_use_RSAPrivateKey(SSL_CTX *c, RSA *r) { if (nd_bool()) return 0; ((struct m_ctx *)c)->key = (struct m_rsa *)r; return 1; }
int SSL_use_RSAPrivateKey(SSL *s, RSA *r) { if (nd_bool()) return 0; ((struct m_ssl *)s)->key = (struct m_rsa *)r; return 1; }
int SSL_CTX_use_certificate(SSL_CTX *c, X509 *x) { if (nd_bool()) return 0; ((struct m_ctx *)c)->cert = (struct m_x509 *)x; return 1; }
int SSL_use_certificate(SSL *s, X509 *x) { if (nd_bool()) return 0; ((struct m_ssl *)s)->cert = (struct m_x509 *)x; return 1; }
SSL *SSL_new(SSL_CTX *c) { struct m_ssl *s = NEW(g_ssl, n_ssl, 4); s->ctx = (struct m_ctx *)c; s->verify = s->ctx->verify; s->cert = s->ctx->cert; s->key = s->ctx->key; return (SSL *)s; }
void SSL_set_bio(SSL *s, BIO *r, BIO *w) { ((struct m_ssl *)s)->rd = (struct m_bio *)r; ((struct m_ssl *)s)->wr = (struct m_bio *)w; }
long SSL_ctrl(SSL *s, int c, long l, void *p) { return 1; }
void SSL_set_read_ahead(SSL *s, int y) { }
static struct m_bio *bio(int kind) { struct m_bio *b; if (nd_bool()) return NULL; b = NEW(g_bio, n_bio, 8); b->kind = kind; return b; }
BIO *BIO_new_mem_buf(const void *b, int n) { struct m_bio *x = bio(B_TEXT); if (x) { VP_ASSERT(n == -1 || n > 0, "tls.key-text"); x->text = b; } return (BIO *)x; }
BIO *BIO_new_fp(FILE *f, int close) { struct m_bio *x = bio(B_FP); if (x) x->fp = f; VP_ASSERT(close == BIO_NOCLOSE, "tls.streams-stay-open"); return (BIO *)x; }
BIO *BIO_new_fd(int fd, int close) { struct m_bio *x = bio(B_FD); if (x) x->fd = fd; VP_ASSERT(close == BIO_NOCLOSE, "tls.descriptors-stay-open"); return (BIO *)x; }
const BIO_METHOD *BIO_s_mem(void) { return (const BIO_METHOD *)5; }
BIO *BIO_new(const BIO_METHOD *m) { return (BIO *)bio(B_MEM); }
int BIO_free(BIO *b) { return 1; }
static size_t g_L, g_k; static char *g_pem;        /* the public key of the peer as PEM text */
long BIO_ctrl(BIO *b, int cmd, long l, void *p) { struct m_bio *x = (struct m_bio *)b; if (cmd == BIO_CTRL_PENDING) return x->kind == B_MEM && x->pem ? (long)g_L : 0; return 1; }
int BIO_read(BIO *b, void *p, int n)
{
    struct m_bio *x = (struct m_bio *)b; size_t r;
    VP_ASSERT(n >= 0 && __CPROVER_w_ok(p, (size_t)n), "key.read-within-the-buffer");
    if (x->kind != B_MEM || !x->pem || n <= 0) return -1;
    r = (size_t)n < g_L ? (size_t)n : g_L;
    __CPROVER_havoc_slice(p, r); if (x->pem->who == PEER && g_k < r) ((char *)p)[g_k] = g_pem[g_k];
    x->pem = NULL; return (int)r;
}
int PEM_write_bio_RSA_PUBKEY(BIO *b, const RSA *r) { struct m_bio *x = (struct m_bio *)b; if (nd_bool()) return 0; VP_ASSERT(x->kind == B_MEM, "key.into-memory"); x->pem = (struct m_rsa *)r; return 1; }
RSA *PEM_read_bio_RSAPrivateKey(BIO *b, RSA **r, pem_password_cb *cb, void *u)
{
    struct m_bio *x = (struct m_bio *)b; struct m_rsa *k;
    if (x->kind != B_TEXT || x->text != g_key || !g_key_live || nd_bool()) return NULL;
    k = NEW(g_rsa, n_rsa, 4); k->who = OWN; k->has_private = 1; return (RSA *)k;
}
EVP_PKEY *EVP_PKEY_new(void) { return NEW(g_pkey, n_pkey, 3); }
int EVP_PKEY_assign(EVP_PKEY *p, int t, void *k) { ((struct m_pkey *)p)->rsa = k; return 1; }
int EVP_PKEY_set1_RSA(EVP_PKEY *p, RSA *k) { ((struct m_pkey *)p)->rsa = (struct m_rsa *)k; return 1; }
RSA *EVP_PKEY_get1_RSA(EVP_PKEY *p) { return nd_bool() ? NULL : (RSA *)((struct m_pkey *)p)->rsa; }
const RSA *EVP_PKEY_get0_RSA(const EVP_PKEY *p) { return nd_bool() ? NULL : (RSA *)((struct m_pkey *)p)->rsa; }
void EVP_PKEY_free(EVP_PKEY *p) { } void RSA_free(RSA *r) { } void X509_free(X509 *x) { } void SSL_CTX_free(SSL_CTX *c) { } void SSL_free(SSL *s) { }
X509 *X509_new(void) { return NEW(g_x509, n_x509, 3); }
ASN1_INTEGER *X509_get_serialNumber(X509 *x) { return NULL; } int ASN1_INTEGER_set(ASN1_INTEGER *a, long v) { return 1; }
ASN1_TIME *X509_getm_notBefore(const X509 *x) { return NULL; } ASN1_TIME *X509_getm_notAfter(const X509 *x) { return NULL; } ASN1_TIME *X509_gmtime_adj(ASN1_TIME *t, long a) { return t; }
int X509_set_version(X509 *x, long v) { return 1; }
int X509_set_pubkey(X509 *x, EVP_PKEY *p) { ((struct m_x509 *)x)->key = (struct m_pkey *)p; return 1; }
X509_NAME *X509_get_subject_name(const X509 *x) { return NULL; } int X509_NAME_add_entry_by_txt(X509_NAME *n, const char *f, int t, const unsigned char *b, int len, int loc, int set) { return 1; } int X509_set_issuer_name(X509 *x, const X509_NAME *n) { return 1; }
const EVP_MD *EVP_sha1(void) { return (const EVP_MD *)1; } const EVP_MD *EVP_sha256(void) { return (const EVP_MD *)2; }
int X509_sign(X509 *x, EVP_PKEY *p, const EVP_MD *m) { if (nd_bool()) return 0; VP_ASSERT(m != NULL, "tls.digest"); ((struct m_x509 *)x)->signer = (struct m_pkey *)p; return 256; }
/* the certificate the peer presented, as the verification callback sees it */
static int g_store;
X509 *X509_STORE_CTX_get0_cert(const X509_STORE_CTX *c) { VP_ASSERT((void *)c == &g_store, "gate.own-handshake"); return nd_range(0, 9) == 9 ? NULL : (X509 *)&g_peer_cert; }
EVP_PKEY *X509_get_pubkey(X509 *x) { return nd_bool() ? NULL : (EVP_PKEY *)((struct m_x509 *)x)->key; }
EVP_PKEY *X509_get0_pubkey(const X509 *x) { return nd_bool() ? NULL : (EVP_PKEY *)((struct m_x509 *)x)->key; }
/* the handshake: asks for the peer's certificate exactly in mode SSL_VERIFY_PEER; the peer proves it holds the key of
 * the certificate it presents; the application callback decides whether the handshake goes on */
static int g_last, g_err, g_presented, g_cb;
static int usable(struct m_ssl *s)
{ return s->cert && s->key && s->cert->key && s->cert->signer && s->cert->key->rsa && s->cert->signer->rsa && s->cert->key->rsa->who == OWN && s->cert->signer->rsa->has_private && s->key->who == OWN && s->key->has_private; }
static FILE *g_in, *g_out; static int g_from, g_to;
int SSL_accept(SSL *p)
{
    struct m_ssl *s = (struct m_ssl *)p;
    VP_ASSERT(s->ctx->server != 1, "tls.executable-is-the-server");
    VP_ASSERT(s->rd && s->wr && s->rd->kind == B_FP && s->wr->kind == B_FP && s->rd->fp == g_in && s->wr->fp == g_out, "tls.reads-and-writes-its-streams");
    VP_ASSERT(usable(s), "tls.own-certificate-and-key");
    VP_ASSERT(s->verify & SSL_VERIFY_PEER, "gate.certificate-requested");
    g_presented = (s->verify & SSL_VERIFY_PEER) && nd_bool(); g_cb = 0; g_err = (int)nd_range(1, 9); g_last = -(int)nd_range(0, 1);
    if (g_presented) {
        VP_ASSERT(s->ctx->app != NULL, "gate.callback-installed"); if (!s->ctx->app) return g_last;
        g_cb = s->ctx->app((X509_STORE_CTX *)&g_store, s->ctx->app_arg);
        if (g_cb <= 0) return g_last;
    }
    if (nd_bool()) return g_last;
    return g_last = 1;
}
int SSL_connect(SSL *p)
{
    struct m_ssl *s = (struct m_ssl *)p;
    VP_ASSERT(s->ctx->server != 2, "tls.tool-is-the-client");
    VP_ASSERT(s->rd && s->wr && s->rd->kind == B_FD && s->wr->kind == B_FD && s->rd->fd == g_from && s->wr->fd == g_to, "tls.reads-and-writes-its-pipes");
    VP_ASSERT(usable(s), "tls.tool-presents-its-certificate");
    g_err = (int)nd_range(1, 9); g_last = nd_bool() ? 1 : -(int)nd_range(0, 1); return g_last;
}
int SSL_get_error(const SSL *s, int r) { VP_ASSERT(r == g_last, "tls.error-of-the-last-result"); return g_err; }
void ct_ssl_error(int code, char *e, size_t n) { VP_ASSERT(n > 0 && __CPROVER_w_ok(e, n), "tls.error-buffer"); __CPROVER_havoc_slice(e, n); e[n - 1] = 0; e[0] = 'E'; }
static int g_errset; void mlle_error_set(struct mlle_error **e, int d, int c, const char *f, ...) { VP_ASSERT(vp_text(f), "tls.error-text"); for (int i = 0; f[i] && i < 200; i++) if (f[i] == '%') { if (f[i + 1] == 's') { va_list a; va_start(a, f); VP_ASSERT(vp_text(va_arg(a, const char *)), "tls.error-text"); va_end(a); } break; } VP_ASSERT(!e || !*e, "start.error-set-once"); if (e) *e = (struct mlle_error *)&g_errset; g_errset++; }
void mlle_error_set_literal(struct mlle_error **e, int d, int c, const char *f) { VP_ASSERT(vp_text(f), "tls.error-text"); VP_ASSERT(!e || !*e, "start.error-set-once"); if (e) *e = (struct mlle_error *)&g_errset; g_errset++; }

void h_tls_lve(void)
{
    struct mlle_lve_ctx ctx = { 0 }; int r;
    ctx.in_stream = g_in = (FILE *)nd_buf(1); ctx.out_stream = g_out = (FILE *)nd_buf(1);
    g_L = nd_range(1, VP_MAX(1000, 1UL << 20)); g_pem = nd_buf(g_L + 1); g_k = nd_range(0, g_L - 1);
    g_peer_rsa.who = PEER; g_peer_pkey.rsa = &g_peer_rsa; g_peer_cert.key = &g_peer_pkey; global_tool_pub_key = NULL;
    r = ssl_setup_lve(&ctx);
    VP_ASSERT(!g_key_live, "wipe.private-key-cleared");
    if (!r) { VP_ASSERT(ctx.tool_error_type == MLLE_PROTOCOL_SSL_ERROR && ctx.tool_error_msg != NULL, "tls.failure-recorded"); VP_COVER("tls.setup-failed"); return; }
    VP_ASSERT(ctx.ssl != NULL, "tls.connection-set"); VP_ASSERT(global_tool_pub_key == NULL, "gate.no-key-before-the-handshake");
    r = lve_perform_handshake(&ctx);
    if (!r) { VP_ASSERT(ctx.tool_error_type == MLLE_PROTOCOL_SSL_ERROR && ctx.tool_error_msg != NULL && __CPROVER_r_ok(ctx.tool_error_msg, 1), "tls.handshake-failure-recorded"); VP_COVER("tls.handshake-failed"); return; }
    VP_ASSERT(g_last == 1, "tls.success-only-after-the-handshake");
    if (g_presented) {
        VP_ASSERT(global_tool_pub_key != NULL, "gate.key-kept");
        VP_ASSERT(__CPROVER_r_ok(global_tool_pub_key, g_L + 1) && global_tool_pub_key[g_k] == g_pem[g_k], "gate.key-is-the-one-the-peer-proved");
        VP_ASSERT(global_tool_pub_key[g_L] == 0, "gate.key-terminated"); VP_COVER("tls.identified");
    } else { VP_ASSERT(global_tool_pub_key == NULL, "gate.no-certificate-no-key"); VP_COVER("tls.anonymous"); }
    VP_ASSERT(ctx.tool_approved == 0, "gate.approval-not-given-here");
}
void h_tls_tool(void)
{
    struct mlle_connections con = { 0 }, *pc = &con; struct mlle_error *e = NULL; int r;
    con.fd_to_child = g_to = nd_int(); con.fd_from_child = g_from = nd_int(); VP_ASSUME(g_to != g_from);
    r = ssl_setup_tool(&pc, &e);
    VP_ASSERT(!g_key_live, "wipe.private-key-cleared"); VP_ASSERT(pc == &con && con.fd_to_child == g_to && con.fd_from_child == g_from, "start.connection-kept");
    if (!r) { VP_ASSERT(g_errset > 0, "start.setup-error-set"); VP_COVER("tool.setup-failed"); return; }
    VP_ASSERT(g_errset == 0, "start.setup-without-error"); VP_ASSERT(con.ssl != NULL, "start.connection-set");
    r = tool_perform_handshake(&pc, &e);
    VP_ASSERT((r != 0) == (g_last == 1), "start.success-exactly-after-the-handshake"); VP_ASSERT((g_errset > 0) == !r, "start.handshake-error-set");
    if (r) VP_COVER("tool.connected"); else VP_COVER("tool.handshake-failed");
}
