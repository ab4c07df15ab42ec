/* Bounded stand-in and replay for the crypt side: whole libraries are encrypted and
 * decrypted with the real code, the real OpenSSL and real files (in a scratch
 * directory below the current one), some of them tampered with.  CHK selects. */
#include "vp.h"
#include "libcrypto-compat.h"
#include <openssl/evp.h>
#include <openssl/rand.h>
#include <setjmp.h>
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>
#include "mlle_cr_decrypt.h"
#include "mlle_cr_encrypt.h"
enum { TAMPER = 1, ROUND = 2, BIND = 4, FAULT = 8, WIPE = 16, CLI = 32 };
#ifndef CHK
#define CHK 255
#endif
#define MUST(cls, c, id) do { if ((CHK) & (cls)) VP_ASSERT(c, id); } while (0)
static unsigned char K[32]; static int inits, clears;
void vp_key_init(unsigned char *k, int n) { memcpy(k, K, 32); inits++; }
void vp_key_clear(unsigned char *k, int n) { memset(k, 0, 32); clears++; }
int ssl_write_message(SSL *s, const char *m, size_t n) { return -1; }
extern FILE *mlle_log;
/* random bytes: reproducible from one choice per sample */
static uint64_t rs; int vp_RAND_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; b[i] = (unsigned char)(rs >> 41); } return 1; }
static char scratch[64];
static jmp_buf out_of_main; static int exit_code;
void vp_exit(int c) { exit_code = c ? c : 256; longjmp(out_of_main, 1); }
int encrypt_main(int, char **), decrypt_main(int, char **);

#define ND 7
static const char *const dir[ND] = { "", "A", "A/B", "A/B/C", "D", "D/E", "A/package" };
static const int up[ND] = { -1, 0, 1, 2, 0, 4, 1 };
#define NF 3
static const char *const base[NF] = { "package.mo", "x.mo", "Y.mo" };
struct f { int there; size_t n; unsigned char *p, *enc; size_t en; } F[ND][NF];
static void rel(char *b, int d, int f, const char *x) { sprintf(b, "%s%s%s%s", dir[d], d ? "/" : "", base[f], x); }
/* the directory whose mask binds the key of file f in directory d (-1: no mask) */
static int binder(int d, int f) { if (f == 0) d = up[d]; while (d >= 0 && !F[d][0].there) d = up[d]; return d; }
static void put(const char *p, const void *b, size_t n) { FILE *f = fopen(p, "wb"); if (!f || (n && fwrite(b, 1, n, f) != n) || fclose(f)) _exit(4); }
static unsigned char *get(const char *p, size_t *n) { FILE *f = fopen(p, "rb"); unsigned char *b; if (!f) return NULL; fseek(f, 0, SEEK_END); *n = ftell(f); rewind(f); b = malloc(*n + 1); if (fread(b, 1, *n, f) != *n) _exit(4); fclose(f); return b; }
static void pathof(char *b, int d, int f, const char *x) { char r[64]; rel(r, d, f, x); sprintf(b, "%s/%s", scratch, r); }
/* an input stream that gives short reads and fails or ends where it is told */
struct src { const unsigned char *p; size_t n, at, fail; int failing; };
static ssize_t src_read(void *c, char *b, size_t n)
{ struct src *s = c; if (s->failing && s->at >= s->fail) { errno = EIO; return -1; } size_t k = s->n - s->at; if (k > n) k = n; if (s->failing && s->at + k > s->fail) k = s->fail - s->at; if (k && nd_range(0, 2) == 0) k = nd_range(1, k); memcpy(b, s->p + s->at, k); s->at += k; return (ssize_t)k; }
struct snk { unsigned char *p; size_t n, cap; int failing; size_t fail; };
static ssize_t snk_write(void *c, const char *b, size_t n)
{ struct snk *s = c; if (s->failing && s->n + n > s->fail) { errno = ENOSPC; return 0; } if (s->n + n > s->cap) { s->cap = (s->n + n) * 2; s->p = realloc(s->p, s->cap); } memcpy(s->p + s->n, b, n); s->n += n; return (ssize_t)n; }
static int enc_stream(mlle_cr_context *c, const char *r, const unsigned char *p, size_t n, int rf, size_t rfa, int wf, size_t wfa, unsigned char **e, size_t *en)
{
    struct src s = { p, n, 0, rfa, rf }; struct snk w = { NULL, 0, 0, wf, wfa }; int ok;
    FILE *in = fopencookie(&s, "r", (cookie_io_functions_t){ .read = src_read }), *out = fopencookie(&w, "w", (cookie_io_functions_t){ .write = snk_write });
    if (nd_bool()) setvbuf(in, NULL, _IONBF, 0); if (nd_bool()) setvbuf(out, NULL, _IONBF, 0);
    inits = clears = 0;
    ok = mlle_cr_encrypt(c, r, in, out) != 0;
    MUST(WIPE, inits == 0 || clears, "wipe.key-cleared");
    fclose(in); if (fclose(out)) ok = 0;
    if (e) { *e = w.p; *en = w.n; } else free(w.p);
    if (ok && rf) MUST(FAULT, s.at < rfa, "encrypt.success-only-after-whole-input");   /* the error was never reached */
    if (ok) MUST(FAULT, s.at == n, "encrypt.success-only-after-whole-input");
    return ok;
}
static int dec(mlle_cr_context *c, const char *r, const unsigned char *e, size_t en, unsigned char **o)
{
    char *in = malloc(en + 1); int k; memcpy(in, e, en); *o = malloc(en + 1); inits = clears = 0;
    in = realloc(in, en ? en : 1); *o = realloc(*o, en ? en : 1);
    k = mlle_cr_decrypt(c, r, in, en, (char *)*o); MUST(WIPE, inits == 0 || clears, "wipe.key-cleared"); free(in); return k;
}
static int run_main(int (*m)(int, char **), int n, char **v) { exit_code = 0; if (setjmp(out_of_main)) return exit_code & 255; return m(n, v); }
static size_t rnd_len(void) { switch (nd_range(0, 5)) { case 0: return nd_range(0, 40); case 1: return 256 * nd_range(0, 3); case 2: return 16 * nd_range(0, 40); case 3: return 256 * nd_range(1, 3) - nd_range(0, 17); default: return nd_range(0, 700); } }
static void clean(void) { char b[200]; for (int d = ND - 1; d >= 0; d--) { for (int f = 0; f < NF; f++) { pathof(b, d, f, "c"); unlink(b); pathof(b, d, f, ""); unlink(b); free(F[d][f].p); free(F[d][f].enc); memset(&F[d][f], 0, sizeof F[d][f]); } sprintf(b, "%s/%s", scratch, dir[d]); rmdir(b); } sprintf(b, "%s.out", scratch); unlink(b); }
void vp_native_harness(void)
{
    char b[200], r[100], b2[200]; mlle_cr_context *c; unsigned char *o; int k, cli;
    mlle_log = NULL; vp_alloc_fails = 0; vp_alloc_failed = 0;
    if (!scratch[0]) { sprintf(scratch, "lib%d", (int)getpid()); if (!freopen("/dev/null", "w", stderr)) _exit(4); }
    clean(); rs = nd_range(0, ULONG_MAX);
    nd_fill((char *)K, 32); if (nd_range(0, 7) == 0) K[nd_range(0, 31)] = 0;
    for (int d = 0; d < ND; d++) {
        sprintf(b, "%s/%s", scratch, dir[d]); mkdir(b, 0755);
        for (int f = 0; f < NF; f++) if (nd_range(0, 9) < (f ? 4 : 6)) { F[d][f].there = 1; F[d][f].n = rnd_len(); F[d][f].p = (unsigned char *)malloc(F[d][f].n + 1); memset(F[d][f].p, nd_u8(), F[d][f].n); for (int i = 0; i < 8 && F[d][f].n; i++) F[d][f].p[nd_range(0, F[d][f].n - 1)] = nd_u8(); }
    }
    /* encrypt: directories before what they hold, package.mo first (as the package tool does), or one at a time with the command line tool */
    cli = (CHK & CLI) && nd_range(0, 3) == 0;
    c = mlle_cr_create(scratch); VP_ASSUME(c != NULL);
    for (int d = 0; d < ND; d++) for (int f = 0; f < NF; f++) if (F[d][f].there) {
        struct f *x = &F[d][f]; rel(r, d, f, ""); pathof(b, d, f, "c");
        if (cli) {
            char rc[100]; rel(rc, d, f, "c"); pathof(b2, d, f, ""); put(b2, x->p, x->n);
            char *v[] = { "encrypt_file", b2, rc, scratch, NULL }; k = run_main(encrypt_main, 4, v);
            mlle_log = NULL; MUST(CLI, k == 0, "cli.encrypts"); if (k) { clean(); return; } x->enc = get(b, &x->en); MUST(CLI, x->enc != NULL, "cli.encrypts"); if (!x->enc) return;
        } else {
            k = enc_stream(c, r, x->p, x->n, 0, 0, 0, 0, &x->enc, &x->en); MUST(ROUND, k == 1, "round.encrypts"); if (!k) { clean(); return; }
            put(b, x->enc, x->en);
        }
        size_t pl = x->n + (f ? 0 : 32);
        MUST(ROUND, x->en == 16 + (pl / 16 + 1) * 16 + 32, "round.encrypted-size");
    }
    /* a stream that fails must fail the encryption */
    if ((CHK) & FAULT) {
        size_t n = rnd_len(), at = nd_range(0, n), wat = nd_range(0, n + 47); unsigned char *p = malloc(n + 1); memset(p, 7, n);
        int rf = nd_bool(), wf = !rf; k = enc_stream(c, "Z.mo", p, n, rf, at, wf, wat, NULL, NULL);
        if (wf) VP_ASSERT(!k, "encrypt.success-only-if-all-written"); if (rf && at < n) VP_ASSERT(!k, "encrypt.success-only-after-whole-input"); free(p);
    }
    /* decrypt some, in any order, with contexts that come and go */
    mlle_cr_context *rd = NULL;
    for (int i = 0; i < 8; i++) {
        int d = (int)nd_range(0, ND - 1), f = (int)nd_range(0, NF - 1); struct f *x = &F[d][f]; if (!x->there) continue;
        if (!rd || nd_range(0, 2) == 0) { if (rd) mlle_cr_free(rd); rd = mlle_cr_create(scratch); }
        rel(r, d, f, "c"); inits = clears = 0; k = dec(rd, r, x->enc, x->en, &o);
        MUST(ROUND, k == (int)x->n && !memcmp(o, x->p, x->n), "round.decrypts-to-the-original"); free(o);
        if ((CHK & CLI) && nd_range(0, 3) == 0) {
            sprintf(b2, "%s.out", scratch); char *v[] = { "decrypt_file", scratch, r, b2, NULL }; k = run_main(decrypt_main, 4, v); mlle_log = NULL;
            VP_ASSERT(k == 0, "cli.decrypts"); size_t n; unsigned char *q = get(b2, &n); VP_ASSERT(q && n == x->n && !memcmp(q, x->p, n), "cli.decrypts"); free(q); unlink(b2);
        }
    }
    /* tampered data: never accepted */
    for (int i = 0; i < 4; i++) {
        int d = (int)nd_range(0, ND - 1), f = (int)nd_range(0, NF - 1), cls = TAMPER; struct f *x = &F[d][f]; if (!x->there) continue;
        unsigned char *e = malloc(x->en + 64); size_t en = x->en; memcpy(e, x->enc, en); const char *why = "tamper.detected";
        mlle_cr_context *t = nd_bool() ? NULL : rd; if (!t) t = mlle_cr_create(scratch);
        switch (nd_range(0, 6)) {
        case 0: e[nd_range(0, en - 1)] ^= 1 << nd_range(0, 7); break;
        case 1: { size_t w = nd_range(0, 3), at = w == 0 ? nd_range(0, 15) : w == 1 ? en - 32 + nd_range(0, 31) : w == 2 ? en - 1 : nd_range(16, en - 33); e[at] ^= (unsigned char)nd_range(1, 255); break; }
        case 2: en = nd_bool() ? en - nd_range(1, 48) : nd_range(0, en - 1); break;
        case 3: { size_t a = nd_range(1, 48); for (size_t q = 0; q < a; q++) e[en + q] = nd_u8(); en += a; break; }
        case 4: if (en >= 80) { unsigned char z[16]; size_t bl = (en - 48) / 16, p = 16 * nd_range(1, bl), q = 16 * nd_range(1, bl); if (!memcmp(e + p, e + q, 16)) { free(e); continue; } memcpy(z, e + p, 16); memcpy(e + p, e + q, 16); memcpy(e + q, z, 16); } else e[0] ^= 1; break;
        case 5: { /* another directory's file in this place */
            int d2 = (int)nd_range(0, ND - 1), f2 = (int)nd_range(1, NF - 1); struct f *y = &F[d2][f2]; if (!y->there || f == 0 || binder(d, f) == binder(d2, f2)) { free(e); if (t != rd) mlle_cr_free(t); continue; }
            free(e); e = malloc(y->en + 64); en = y->en; memcpy(e, y->enc, en); cls = BIND; why = "bind.other-directory-refused"; break; }
        default: { /* the package.moc that binds this file is not the one it was encrypted under */
            int bd = binder(d, f); if (bd < 0 || !((CHK) & BIND)) { e[en - 5] ^= 4; break; }
            if (t != rd) mlle_cr_free(t); t = mlle_cr_create(scratch); cls = BIND; why = "bind.other-package-refused"; pathof(b, bd, 0, "c");
            struct f *m = &F[bd][0];
            if (nd_bool()) { unsigned char *e2 = malloc(m->en); memcpy(e2, m->enc, m->en); e2[nd_range(0, m->en - 1)] ^= 16; put(b, e2, m->en); free(e2); }
            else { unsigned char *e2; size_t e2n; mlle_cr_context *c2 = mlle_cr_create(scratch); char rm[100];
                for (int a = 0; a < bd; a++) if (F[a][0].there) { rel(rm, a, 0, "c"); unsigned char *oo; dec(c2, rm, F[a][0].enc, F[a][0].en, &oo); free(oo); }
                rel(rm, bd, 0, ""); if (!enc_stream(c2, rm, m->p, m->n, 0, 0, 0, 0, &e2, &e2n)) { free(e2); mlle_cr_free(c2); put(b, m->enc, m->en); free(e); continue; } put(b, e2, e2n); free(e2); mlle_cr_free(c2); }
            rel(r, d, f, "c"); k = dec(t, r, e, en, &o); put(b, m->enc, m->en); MUST(BIND, k < 0, "bind.other-package-refused"); free(o); free(e); mlle_cr_free(t); continue; }
        }
        rel(r, d, f, "c"); k = dec(t, r, e, en, &o); MUST(cls, k < 0, why); free(o); free(e); if (t != rd) mlle_cr_free(t);
    }
    if (rd) mlle_cr_free(rd); mlle_cr_free(c); clean();
}
