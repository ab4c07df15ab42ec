/* Contract of mlle_cr_decrypt: a length >= 0 is returned only if every byte of the
 * input took part: the first 16 as IV, the last 32 compared in full with the
 * HMAC-SHA256 (masked key) of IV and plain text, all between decrypted with
 * AES-256-CBC under the masked key.  OpenSSL by contract. */
#include "vp.h"
#include "libcrypto-compat.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include "mlle_cr_decrypt.h"
FILE *mlle_log;
#define IVL 16
#define MACL 32
static EVP_CIPHER_CTX *const CC = (EVP_CIPHER_CTX *)64; static HMAC_CTX *const HC = (HMAC_CTX *)128;
static const EVP_CIPHER *const AES = (const EVP_CIPHER *)256; static const EVP_MD *const SHA = (const EVP_MD *)512;
static mlle_cr_context *const CTX = (mlle_cr_context *)1024;
static unsigned char *g_in; static size_t g_n; static unsigned char *g_o; static const char *g_rel;
static int g_failed, g_cinit, g_hinit, g_cfinal, g_hfinal, g_equal, g_compared, g_demask, g_flag, g_stored, g_keyinit, g_keyclear, g_maskerr;
static size_t fed, outn, hpos; static unsigned char K[32], M[32]; static unsigned char *g_mac;
static int may_fail(void) { if (nd_bool()) { g_failed = 1; return 1; } return 0; }
void vp_key_init(unsigned char *k, int n) { g_keyinit = 1; for (int i = 0; i < 32; i++) k[i] = K[i]; }
void vp_key_clear(unsigned char *k, int n) { g_keyclear = 1; for (int i = 0; i < 32; i++) k[i] = 0; }
static int is_key(const unsigned char *k) { for (int i = 0; i < 32; i++) if (k[i] != (unsigned char)(g_demask ? M[i] : K[i])) return 0; return 1; }
EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void) { return CC; }
HMAC_CTX *HMAC_CTX_new(void) { return HC; }
int EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX *c) { return 1; }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { VP_ASSERT(c == CC, "decrypt.context-freed"); }
void HMAC_CTX_free(HMAC_CTX *c) { VP_ASSERT(c == HC, "decrypt.context-freed"); }
int HMAC_CTX_reset(HMAC_CTX *c) { return 1; }
const EVP_CIPHER *EVP_aes_256_cbc(void) { return AES; }
const EVP_MD *EVP_sha256(void) { return SHA; }
int EVP_CIPHER_get_iv_length(const EVP_CIPHER *c) { VP_ASSERT(c == AES, "decrypt.cipher"); return IVL; }
int EVP_MD_get_size(const EVP_MD *m) { VP_ASSERT(m == SHA, "decrypt.hash"); return MACL; }
/* mlle_demask_key (unit demask): the key masked for this path */
int ct_demask(mlle_cr_context *c, const char *rel, unsigned char *key)
{
    VP_ASSERT(c == CTX && rel == g_rel && !g_demask && !g_cinit && !g_hinit, "decrypt.mask-for-this-path-before-use");
    VP_ASSERT(g_in == NULL || (g_keyinit && is_key(key)), "decrypt.masks-the-embedded-key");
    if (may_fail()) { g_maskerr = 1; return -1; }
    g_demask = 1; for (int i = 0; i < 32; i++) key[i] = M[i];
    g_flag = nd_bool(); return g_flag;
}
int ct_store(mlle_cr_context *c, const char *rel, const char *mask)
{
    VP_ASSERT(c == CTX && rel == g_rel && g_flag && !g_stored, "decrypt.stores-mask-of-this-file");
    VP_ASSERT(g_equal, "decrypt.stores-only-authentic-mask");
    VP_ASSERT(outn >= 32 && mask == (char *)g_o + outn - 32, "decrypt.mask-is-last-32-bytes");
    g_stored = 1;
    return may_fail() ? -1 : 0;
}
int EVP_DecryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv)
{
    VP_ASSERT(c == CC && t == AES && !g_cinit, "decrypt.cipher"); VP_ASSERT(is_key(k), "decrypt.key"); VP_ASSERT(iv == g_in && g_n >= IVL + MACL, "decrypt.iv");
    if (may_fail()) return 0; g_cinit = 1; return 1;
}
int EVP_DecryptUpdate(EVP_CIPHER_CTX *c, unsigned char *out, int *outl, const unsigned char *in, int inl)
{
    VP_ASSERT(c == CC && g_cinit && !g_cfinal, "decrypt.cipher-state");
    VP_ASSERT(inl >= 0 && in == g_in + IVL + fed && (size_t)inl <= g_n - IVL - MACL - fed, "decrypt.exactly-the-ciphertext");
    VP_ASSERT(out == g_o + outn, "decrypt.output-in-order");
    if (may_fail()) { *outl = 0; return 0; }
    fed += inl; size_t k = nd_range(0, fed - outn); outn += k; *outl = (int)k; return 1;
}
int EVP_DecryptFinal_ex(EVP_CIPHER_CTX *c, unsigned char *out, int *outl)
{
    VP_ASSERT(c == CC && g_cinit && !g_cfinal, "decrypt.cipher-state"); VP_ASSERT(fed == g_n - IVL - MACL, "decrypt.all-ciphertext"); VP_ASSERT(out == g_o + outn, "decrypt.output-in-order");
    if (may_fail()) { *outl = 0; return 0; }   /* padding wrong */
    size_t k = nd_range(0, 15); VP_ASSUME(k <= fed - outn); outn += k; *outl = (int)k; g_cfinal = 1; return 1;
}
int HMAC_Init_ex(HMAC_CTX *h, const void *k, int n, const EVP_MD *m, ENGINE *e)
{ VP_ASSERT(h == HC && m == SHA && n == 32 && !g_hinit, "decrypt.mac"); VP_ASSERT(is_key(k), "decrypt.mac-key"); if (may_fail()) return 0; g_hinit = 1; return 1; }
int HMAC_Update(HMAC_CTX *h, const unsigned char *d, size_t n)
{
    VP_ASSERT(h == HC && g_hinit && !g_hfinal, "decrypt.mac-state");
    VP_ASSERT(n == 0 || hpos < IVL && d == g_in + hpos && n <= IVL - hpos || hpos >= IVL && d == g_o + (hpos - IVL) && n <= outn - (hpos - IVL), "decrypt.mac-over-iv-and-plaintext");
    if (may_fail()) return 0; hpos += n; return 1;
}
int HMAC_Final(HMAC_CTX *h, unsigned char *md, unsigned int *len)
{
    VP_ASSERT(h == HC && g_hinit && !g_hfinal && g_cfinal && hpos == IVL + outn, "decrypt.mac-over-everything");
    VP_ASSERT(__CPROVER_w_ok(md, MACL), "decrypt.mac-room");
    if (may_fail()) return 0; g_hfinal = 1; g_mac = md; if (len) *len = MACL; return 1;
}
int vp_memcmp(const void *a, const void *b, size_t n)
{
    const void *t = g_in + g_n - MACL;
    if (!(g_mac && (a == g_mac && b == t || a == t && b == g_mac))) VP_UNSUPPORTED("memcmp arguments");
    VP_ASSERT(n == MACL && g_hfinal, "decrypt.mac-compared-in-full"); VP_ASSERT(__CPROVER_r_ok(t, n), "decrypt.mac-present");
    g_compared = 1; int r; if (r == 0) g_equal = 1; else g_failed = 1;
    return r;
}
int CRYPTO_memcmp(const void *a, const void *b, size_t n) { return vp_memcmp(a, b, n); }
void h_decrypt(void)
{
    size_t n = nd_range(0, 1UL << 33); int null_in = nd_bool(), ctx = nd_bool(), r; static char rel[2];
    for (int i = 0; i < 32; i++) { K[i] = nd_u8(); M[i] = nd_u8(); }
    unsigned char *in = (unsigned char *)nd_buf(n), *out = (unsigned char *)nd_buf(n);
    g_in = null_in ? NULL : in; g_n = n; g_o = out; g_rel = rel; g_failed = 0; vp_alloc_failed = 0;
    r = mlle_cr_decrypt(ctx ? CTX : NULL, rel, (char *)g_in, n, (char *)out);
    VP_ASSERT(r >= -1 && (r < 0 || (size_t)r <= n), "decrypt.result-range");
    if (null_in) { VP_ASSERT((r < 0) == (g_maskerr != 0) && g_demask + g_maskerr == ctx && !g_cinit && !g_hinit, "decrypt.masks-only"); VP_COVER("decrypt.masks-only"); return; }
    VP_ASSERT(!g_keyinit || g_keyclear, "wipe.key-cleared");
    if (r >= 0) {
        VP_ASSERT(!g_failed && g_cfinal && g_hfinal && g_equal && (!ctx || g_demask), "decrypt.only-authentic-data");
        VP_ASSERT((size_t)r == (g_flag ? outn - 32 : outn) && g_stored == g_flag, "decrypt.length-of-plaintext");
        VP_COVER("decrypt.ok");
    } else {
        VP_ASSERT(g_failed || vp_alloc_failed || n < IVL + MACL || n > INT_MAX || (g_flag && outn < 32), "decrypt.fails-only-on-failure");
        VP_COVER("decrypt.refused");
    }
}
