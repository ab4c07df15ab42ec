/* Contract of mlle_cr_encrypt: success means the whole input was read to its end
 * without an error, and the output is exactly
 *   IV (16 random bytes) | AES-256-CBC(masked key, IV, input [| new mask]) | HMAC-SHA256(masked key, IV | input [| new mask])
 * with every write done in full; a failure of any step is a failure of the whole.
 * Bytes of the streams are followed at one arbitrary position each. */
#include "vp.h"
#include "libcrypto-compat.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include "mlle_cr_decrypt.h"
#include "mlle_cr_encrypt.h"
FILE *mlle_log; int vp_ph_encrypt_data, vp_ph_mask_path;
#define IVL 16
#define MACL 32
static EVP_CIPHER_CTX *const CC = (EVP_CIPHER_CTX *)64; static HMAC_CTX *const HC = (HMAC_CTX *)128;
static const EVP_CIPHER *const AES = (const EVP_CIPHER *)256; static const EVP_MD *const SHA = (const EVP_MD *)512;
static mlle_cr_context *const CTX = (mlle_cr_context *)1024; static FILE *const IN = (FILE *)2048, *const OUT = (FILE *)4096;
static const char *g_rel;
static int g_failed, g_cinit, g_hinit, g_cfinal, g_hfinal, g_masked, g_flag, g_keyinit, g_keyclear, g_eof, g_ioerr, g_ivok, g_ivh, g_ended;
static size_t rpos, epos, hpos, cout, wout, outn, g_k, g_c; static unsigned char g_b, g_cb, K[32], M[32], IV[16], S[32], MAC[32]; static unsigned char *g_ivp, *g_macp, *g_sp;
static int may_fail(void) { if (nd_bool()) { g_failed = 1; return 1; } return 0; }
void vp_key_init(unsigned char *k, int n) { g_keyinit = 1; for (int i = 0; i < 32; i++) k[i] = K[i]; }
void vp_key_clear(unsigned char *k, int n) { g_keyclear = 1; for (int i = 0; i < 32; i++) k[i] = 0; }
static int is_key(const unsigned char *k) { for (int i = 0; i < 32; i++) if (k[i] != M[i]) return 0; return 1; }
EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void) { return CC; }
HMAC_CTX *HMAC_CTX_new(void) { return HC; }
int EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX *c) { return 1; }
int HMAC_CTX_reset(HMAC_CTX *c) { return 1; }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { VP_ASSERT(c == CC, "encrypt.context-freed"); }
void HMAC_CTX_free(HMAC_CTX *c) { VP_ASSERT(c == HC, "encrypt.context-freed"); }
const EVP_CIPHER *EVP_aes_256_cbc(void) { return AES; }
const EVP_MD *EVP_sha256(void) { return SHA; }
int EVP_CIPHER_get_iv_length(const EVP_CIPHER *c) { VP_ASSERT(c == AES, "encrypt.cipher"); return IVL; }
int EVP_MD_get_size(const EVP_MD *m) { VP_ASSERT(m == SHA, "encrypt.hash"); return MACL; }
int RAND_bytes(unsigned char *b, int n)
{
    VP_ASSERT(n == IVL && !g_ivp, "encrypt.fresh-iv");
    if (nd_bool()) { g_failed = 1; return nd_bool() ? 0 : -1; }
    g_ivp = b; for (int i = 0; i < IVL; i++) b[i] = IV[i]; return 1;
}
static int eq(const unsigned char *a, const unsigned char *b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
/* mlle_mask_key (unit mask) */
int ct_mask(mlle_cr_context *c, const char *rel, unsigned char *key, unsigned char *store)
{
    VP_ASSERT(c == CTX && rel == g_rel && !g_masked && !g_cinit && !g_hinit, "encrypt.mask-for-this-path-before-use");
    VP_ASSERT(g_keyinit && eq(key, K, 32), "encrypt.masks-the-embedded-key");
    if (may_fail()) return -1;
    g_masked = 1; for (int i = 0; i < 32; i++) { key[i] = M[i]; }
    g_flag = nd_bool(); if (g_flag) { g_sp = store; for (int i = 0; i < 32; i++) store[i] = S[i]; }
    return g_flag;
}
int EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv)
{
    VP_ASSERT(c == CC && t == AES && !g_cinit, "encrypt.cipher"); VP_ASSERT(g_masked && is_key(k), "encrypt.key"); VP_ASSERT(g_ivp && eq(iv, IV, IVL), "encrypt.iv");
    if (may_fail()) return 0; g_cinit = 1; return 1;
}
/* the plain text is the input followed, for a package.mo, by the new mask */
static int plain(const unsigned char *d, size_t n, size_t pos)
{
    if (g_k >= pos && g_k - pos < n && g_k < rpos && d[g_k - pos] != g_b) return 0;
    if (pos + n <= rpos) return 1;
    return g_flag && g_eof && pos == rpos && n == 32 && d == g_sp && eq(d, S, 32);
}
int EVP_EncryptUpdate(EVP_CIPHER_CTX *c, unsigned char *out, int *outl, const unsigned char *in, int inl)
{
    VP_ASSERT(c == CC && g_cinit && !g_cfinal, "encrypt.cipher-state"); VP_ASSERT(inl >= 0 && __CPROVER_r_ok(in, inl) && plain(in, inl, epos), "encrypt.exactly-the-input");
    if (may_fail()) { *outl = 0; return 0; }
    size_t buffered = epos - cout, left = nd_range(0, 15), k; VP_ASSUME(left <= buffered + inl && (epos + inl - left) % 16 == 0); k = buffered + inl - left;
    VP_ASSERT(__CPROVER_w_ok(out, k), "encrypt.room-for-ciphertext"); VP_ASSERT(cout == wout, "encrypt.ciphertext-written-before-next");
    if (k) __CPROVER_havoc_slice(out, k); if (g_c >= cout && g_c - cout < k) out[g_c - cout] = g_cb;
    epos += inl; cout += k; *outl = (int)k; return 1;
}
int EVP_EncryptFinal_ex(EVP_CIPHER_CTX *c, unsigned char *out, int *outl)
{
    VP_ASSERT(c == CC && g_cinit && !g_cfinal, "encrypt.cipher-state"); VP_ASSERT(g_eof && epos == rpos + (g_flag ? 32 : 0), "encrypt.all-of-the-input"); VP_ASSERT(cout == wout, "encrypt.ciphertext-written-before-next"); VP_ASSERT(__CPROVER_w_ok(out, 16), "encrypt.room-for-ciphertext");
    if (may_fail()) { *outl = 0; return 0; }
    __CPROVER_havoc_slice(out, 16); if (g_c >= cout && g_c - cout < 16) out[g_c - cout] = g_cb;
    cout += 16; *outl = 16; g_cfinal = 1; return 1;
}
int HMAC_Init_ex(HMAC_CTX *h, const void *k, int n, const EVP_MD *m, ENGINE *e)
{ VP_ASSERT(h == HC && m == SHA && n == 32 && !g_hinit, "encrypt.mac"); VP_ASSERT(g_masked && is_key(k), "encrypt.mac-key"); if (may_fail()) return 0; g_hinit = 1; return 1; }
int HMAC_Update(HMAC_CTX *h, const unsigned char *d, size_t n)
{
    VP_ASSERT(h == HC && g_hinit && !g_hfinal, "encrypt.mac-state");
    if (!g_ivh) { VP_ASSERT(n == IVL && eq(d, IV, IVL), "encrypt.mac-begins-with-iv"); if (may_fail()) return 0; g_ivh = 1; return 1; }
    VP_ASSERT(__CPROVER_r_ok(d, n) && plain(d, n, hpos), "encrypt.mac-over-the-input");
    if (may_fail()) return 0; hpos += n; return 1;
}
int HMAC_Final(HMAC_CTX *h, unsigned char *md, unsigned int *len)
{
    VP_ASSERT(h == HC && g_hinit && !g_hfinal && g_ivh && g_eof && hpos == rpos + (g_flag ? 32 : 0), "encrypt.mac-over-everything"); VP_ASSERT(__CPROVER_w_ok(md, MACL), "encrypt.mac-room");
    if (may_fail()) return 0; g_hfinal = 1; g_macp = md; for (int i = 0; i < MACL; i++) md[i] = MAC[i]; if (len) *len = MACL; return 1;
}
int vp_feof(FILE *f) { VP_ASSERT(f == IN, "encrypt.input-stream"); return g_eof; }
int vp_ferror(FILE *f) { if (f == OUT) return 0; VP_ASSERT(f == IN, "encrypt.input-stream"); return g_ioerr; }
size_t vp_fread(void *p, size_t s, size_t n, FILE *f)
{
    VP_ASSERT(f == IN, "encrypt.input-stream"); if (s != 1) VP_UNSUPPORTED("fread item size"); VP_ASSERT(__CPROVER_w_ok(p, n), "encrypt.read-room");
    VP_ASSERT(epos == rpos && hpos == rpos, "encrypt.input-used-before-next-read"); if (g_eof) return 0;
    size_t k = nd_range(0, n);
    if (k < n) { if (nd_bool()) { g_ioerr = 1; g_failed = 1; } else g_eof = 1; }
    if (k) __CPROVER_havoc_slice(p, k); if (g_k >= rpos && g_k - rpos < k) ((unsigned char *)p)[g_k - rpos] = g_b;
    rpos += k; return k;
}
size_t vp_fwrite(const void *p, size_t s, size_t n, FILE *f)
{
    const unsigned char *d = p; size_t t = s * n, w; VP_ASSERT(f == OUT, "encrypt.output-stream"); VP_ASSERT(__CPROVER_r_ok(p, t), "encrypt.write-in-bounds");
    if (t) {
        if (!g_ivok) { VP_ASSERT(t == IVL && g_ivp && eq(d, IV, IVL), "encrypt.output-begins-with-iv"); g_ivok = 1; }
        else if (g_cfinal && wout == cout) { VP_ASSERT(t == MACL && g_hfinal && !g_ended && eq(d, MAC, MACL), "encrypt.output-ends-with-mac"); g_ended = 1; }
        else { VP_ASSERT(t <= cout - wout && (!(g_c >= wout && g_c - wout < t) || d[g_c - wout] == g_cb), "encrypt.writes-the-ciphertext"); wout += t; }
    }
    if (!nd_bool()) return n;
    w = nd_range(0, n); if (w < n) g_failed = 1; return w;
}
int vp_fflush(FILE *f) { return 0; }
int enc_inv(void) { return rpos == epos && epos == hpos && cout == wout && cout <= epos && epos - cout <= 15 && g_cinit && g_hinit && g_ivh && g_ivok && !g_cfinal && !g_hfinal && !g_ended && !g_failed && !g_eof && !g_ioerr && rpos <= 1UL << 60; }
void enc_havoc(void) { rpos = epos = hpos = nd_range(0, 1UL << 59); cout = wout = nd_range(0, 1UL << 59); VP_ASSUME((cout % 16) == 0); }
void h_encrypt(void)
{
    int r; static char rel[2];
    for (int i = 0; i < 32; i++) { K[i] = nd_u8(); M[i] = nd_u8(); S[i] = nd_u8(); MAC[i] = nd_u8(); if (i < IVL) IV[i] = nd_u8(); }
    g_k = nd_range(0, 1UL << 59); g_c = nd_range(0, 1UL << 59); g_b = nd_u8(); g_cb = nd_u8(); g_rel = rel; vp_alloc_failed = 0;
    r = mlle_cr_encrypt(CTX, rel, IN, OUT);
    VP_ASSERT(!g_keyinit || g_keyclear, "wipe.key-cleared");
    if (r) {
        VP_ASSERT(!g_failed && g_eof && !g_ioerr, "encrypt.success-only-after-whole-input");
        VP_ASSERT(g_ivok && g_cfinal && wout == cout && g_ended, "encrypt.success-only-if-all-written");
        if (g_flag) VP_COVER("encrypt.ok-package"); else VP_COVER("encrypt.ok");
    } else { VP_ASSERT(g_failed || vp_alloc_failed, "encrypt.fails-only-on-failure"); VP_COVER("encrypt.failed"); }
}
