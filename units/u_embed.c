/* Contract of the key embedding (obfuscate_utils.c, obfuscator.c): the generated
 * macros reproduce exactly the key (a PEM text without its carriage returns, the
 * random encryption key byte for byte), its length, and clear all of it; the
 * generator ends with status 0 only if the whole header was written. */
#include "vp.h"
#include <stdio.h>
#include "obfuscate_utils.h"
#include "obfuscator.h"
#ifdef VP_CBMC
int vp_ph_strip_cr, vp_ph_write_key;
size_t g_p1, g_p2, g_q1, g_q2, g_cnt, g_len; char g_b1, g_b2; unsigned char *g_data; int g_type;
static FILE *const the_out = (FILE *)16;
static char g_name[8]; static char *g_fn; static int g_open, g_decl, g_lenl, g_init, g_body, g_term, g_clear, g_exit, g_werr; static size_t g_n2;
int kept(char c) { return g_type == ENCRYPT || c != '\r'; }
FILE *vp_fopen(const char *n, const char *m) { VP_ASSERT(n == g_fn && m[0] == 'w', "embed.writes-the-named-file"); if (nd_bool()) return NULL; g_open = 1; return the_out; }
int vp_fclose(FILE *f) { VP_ASSERT(f == the_out && g_open, "embed.closed-once"); g_open = 0; if (nd_bool()) { g_werr = 1; return -1; } return 0; }
int vp_ferror(FILE *f) { VP_ASSERT(f == the_out && g_open, "embed.stream"); return g_werr; }
void vp_exit(int c) { VP_ASSERT(c != 0, "embed.failure-status"); g_exit = 1; VP_COVER("embed.exit"); VP_ASSUME(0); }
#define CLEAR_LOOP "#define CLEAR_%s() do { int clear_i; for (clear_i = 0; clear_i < %s_LEN; ++clear_i) ((volatile unsigned char *) %s)[clear_i] = 0; } while (0)\n"
static int same(const char *a, const char *b) { int i; for (i = 0; i < 150 && a[i] && a[i] == b[i]; i++); return a[i] == b[i]; }
int vp_fprintf(FILE *f, const char *fmt, ...)
{
    va_list a; if (f != the_out) return 0;   /* a message on stderr */
    VP_ASSERT(g_open, "embed.stream"); va_start(a, fmt);
    if (same(fmt, "#define DECLARE_%s() unsigned char %s[%zu]\n")) { char *x = va_arg(a, char *), *y = va_arg(a, char *); size_t n = va_arg(a, size_t); VP_ASSERT(x == g_name && y == g_name && n >= g_cnt + 1, "embed.declared-room"); g_decl++; }
    else if (same(fmt, "#define %s_LEN (%d)\n")) { char *x = va_arg(a, char *); size_t n = va_arg(a, size_t); VP_ASSERT(x == g_name && n == g_cnt, "embed.length"); g_lenl++; }
    else if (same(fmt, "#define INITIALIZE_%s() do { ")) { VP_ASSERT(va_arg(a, char *) == g_name && !g_body, "embed.initialize"); g_init++; }
    else if (same(fmt, "%s[%d] = '\\0'; } while (0)\n")) { char *x = va_arg(a, char *); size_t n = va_arg(a, size_t); VP_ASSERT(x == g_name && n == g_cnt && g_body, "embed.terminated"); g_term++; }
    else if (same(fmt, "#define CLEAR_%s() memset(%s, 0, %s_LEN)\n") || same(fmt, CLEAR_LOOP)) { char *x = va_arg(a, char *), *y = va_arg(a, char *), *z = va_arg(a, char *); VP_ASSERT(x == g_name && y == g_name && z == g_name, "embed.cleared-whole"); g_clear++; }
    else VP_UNSUPPORTED("another line in the header");
    va_end(a);
    if (nd_bool()) { g_werr = 1; return -1; }
    return 1;
}
void ct_body(FILE *o, key_type t, char *n, unsigned char *d, size_t l)
{
    VP_ASSERT(o == the_out && g_open && g_init == 1 && !g_term && (int)t == g_type && n == g_name && !g_body, "embed.initialize"); g_body = 1;
    if (d != g_data) VP_UNSUPPORTED("the key in another buffer");
    VP_ASSERT(l == g_cnt, "embed.all-kept-bytes");
    if (g_p1 < g_len && kept(g_b1)) VP_ASSERT(g_q1 < l && (char)d[g_q1] == g_b1, "embed.key-bytes");
    if (g_p1 < g_p2 && g_p2 < g_len && kept(g_b1) && kept(g_b2)) VP_ASSERT(g_q1 < g_q2, "embed.key-order");
    VP_COVER("embed.body");
    if (nd_bool()) g_werr = 1;
}
void ct_extra(FILE *o, key_type t) { VP_ASSERT(o == the_out && g_open, "embed.stream"); if (nd_bool()) g_werr = 1; }
void h_embed(void)
{
    g_len = nd_range(0, (1UL << 31) - 2); g_data = (unsigned char *)nd_buf(g_len); g_type = (int)nd_range(ENCRYPT, LVE_PRIVATE); g_fn = nd_buf(2); g_fn[1] = 0;
    g_p1 = nd_u64(); g_p2 = nd_u64(); if (g_p1 < g_len) g_b1 = g_data[g_p1]; if (g_p2 < g_len) g_b2 = g_data[g_p2];
    VP_ASSUME(stderr != the_out);
    g_cnt = 0; g_q1 = g_q2 = 0; g_open = g_decl = g_lenl = g_init = g_body = g_term = g_clear = g_exit = g_werr = 0; vp_ph_strip_cr = 0;
#ifdef VP_UNWOUND
    VP_ASSUME(g_len <= 3); for (int i = 0; i < 3; i++) if ((size_t)i < g_len) { if (i == g_p1) g_q1 = g_cnt; if (i == g_p2) g_q2 = g_cnt; if (kept((char)g_data[i])) g_cnt++; }
#endif
    create_header_file(g_name, (key_type)g_type, g_data, g_len, g_fn);
    VP_ASSERT(!g_open && g_decl == 1 && g_lenl == 1 && g_init == 1 && g_body && g_term == 1 && g_clear == 1, "embed.all-macros");
    VP_ASSERT(!g_werr, "embed.success-only-if-written");
    VP_COVER("embed.done");
}
/* ---- the bytes of the INITIALIZE macro ---- */
size_t g_n, g_total;
int vp_fprintf_body(FILE *f, const char *fmt, ...)
{
    va_list a; va_start(a, fmt);
    VP_ASSERT(f == the_out, "embed.stream");
    if (!same(fmt, "%s[%u] = '\\x%x'; ")) VP_UNSUPPORTED("another form of initializer");
    char *x = va_arg(a, char *); int i = va_arg(a, int); unsigned v = va_arg(a, unsigned); va_end(a);
    VP_ASSERT(g_n < g_total && x == g_name && i >= 0 && (size_t)i == g_n, "embed.each-byte-once");
    VP_ASSERT(v == g_data[g_n], "embed.byte-value"); g_n++;
    VP_COVER("embed.byte");
    return 1;
}
void h_body(void)
{
    g_total = nd_range(0, (1UL << 31) - 2); g_data = (unsigned char *)nd_buf(g_total); g_n = 0; vp_ph_write_key = 0;
    write_initialize_key_macro_body(the_out, (key_type)nd_range(ENCRYPT, LVE_PRIVATE), g_name, g_data, g_total);
    VP_ASSERT(g_n == g_total, "embed.all-bytes");
    VP_COVER("embed.body-done");
}
#else
#include <setjmp.h>
#include <unistd.h>
#include <sys/stat.h>
int obf_main(int, char **), rnd_main(int, char **);
static jmp_buf out_; static volatile int exited;
void vp_exit(int c) { exited = 1; longjmp(out_, 256 + (c & 255)); }
static unsigned char rnd_key[32]; static int rnd_fail, rnd_called;
int vp_RAND_bytes(unsigned char *b, int n) { rnd_called++; VP_ASSERT(n == 32, "embed.random-key-length"); if (rnd_fail) return nd_bool() ? 0 : -1; for (int i = 0; i < n; i++) b[i] = (unsigned char)(nd_range(0, 3) ? nd_u8() : '\r'); memcpy(rnd_key, b, 32); return 1; }
static int run(int (*m)(int, char **), int argc, char **argv) { int r = setjmp(out_); if (r) return r - 256; return m(argc, argv); }
#define NK 8
static char *slurp(const char *p, size_t *n) { FILE *f = fopen(p, "rb"); char *b; if (!f) return NULL; b = malloc(1 << 20); *n = fread(b, 1, 1 << 20, f); fclose(f); return b; }
void h_embed(void)
{
    char dir[] = "/tmp/vp_embed_XXXXXX", p[200], q[200], nm[20], cmd[600]; FILE *t; int i, rc;
    static char *types[] = { "TOOL_PUBLIC", "TOOL_PRIVATE", "LVE_PRIVATE" };
    VP_ASSUME(mkdtemp(dir) != NULL); vp_alloc_fails = 0;
    sprintf(p, "%s/t.c", dir); t = fopen(p, "w"); fprintf(t, "#include <string.h>\n");
    for (i = 0; i < NK; i++) fprintf(t, "#include \"k%d.h\"\n", i);
    for (i = 0; i < NK; i++) {
        unsigned char key[1500]; size_t n = 0, z, k; int kind = (int)nd_range(0, 3);
        char hdr[200]; sprintf(hdr, "%s/k%d.h", dir, i); sprintf(nm, "K%d", i);
        if (kind == 3) {
            char *av[] = { "randomize_key", hdr, nm, NULL }; rnd_fail = 0; rc = run(rnd_main, 3, av); VP_ASSERT(rc == 0, "embed.success"); memcpy(key, rnd_key, n = 32);
        } else {
            unsigned char in[1500]; z = nd_bool() ? nd_range(1, 40) : nd_range(1, 1400); for (k = 0; k < z; k++) in[k] = nd_range(0, 5) ? nd_u8() : "\r\n"[nd_range(0, 1)];
            sprintf(q, "%s/in", dir); FILE *f = fopen(q, "wb"); fwrite(in, 1, z, f); fclose(f);
            char *av[] = { "obfuscate", hdr, q, nm, types[kind], NULL }; rc = run(obf_main, 5, av); VP_ASSERT(rc == 0, "embed.success");
            for (k = 0; k < z; k++) if (in[k] != '\r') key[n++] = in[k];
        }
        fprintf(t, "static int f%d(void) { static const unsigned char e[] = {", i); for (k = 0; k < n; k++) fprintf(t, "%d,", key[k]); fprintf(t, "0}; { struct { unsigned char a[8]; } g; DECLARE_%s(); memset(%s, 0xAA, sizeof %s); INITIALIZE_%s();\n if (%s_LEN != %zu) return 1; if (sizeof %s < %zu) return 2; if (memcmp(%s, e, %zu)) return 3; CLEAR_%s(); for (int i = 0; i < %zu; i++) if (%s[i]) return 4; } return 0; }\n", nm, nm, nm, nm, nm, n, nm, n + 1, nm, n + 1, nm, n, nm);
    }
    /* optimised, as the release build is: the key is gone from the stack when its function has returned */
    fprintf(t, "unsigned char *volatile vp_at; void vp_use(unsigned char *k) __attribute__((noinline)); void vp_use(unsigned char *k) { vp_at = k; __asm__ volatile(\"\" : : \"r\"(k) : \"memory\"); }\n");
    for (i = 0; i < NK; i++) fprintf(t, "static __attribute__((noinline)) int g%d(void) { DECLARE_K%d(); INITIALIZE_K%d(); vp_use(K%d); CLEAR_K%d(); return 0; }\n", i, i, i, i, i);
    fprintf(t, "int main(int c, char **v) { int r; volatile unsigned char *p; int i; if (c > 1) {"); for (i = 0; i < NK; i++) fprintf(t, "g%d(); p = vp_at; for (i = 0; i < K%d_LEN; i++) if (p[i]) return 6;", i, i);
    fprintf(t, " return 0; } "); for (i = 0; i < NK; i++) fprintf(t, "if ((r = f%d())) return r;", i); fprintf(t, " return 0; }\n"); fclose(t);
    sprintf(cmd, "cd %s && gcc -w -O0 -fsanitize=address t.c -o t 2>/dev/null && ASAN_OPTIONS=detect_leaks=0:exitcode=5 ./t 2>/dev/null%s", dir, nd_range(0, 3) ? "" : " && gcc -w -O2 t.c -o t && ./t o"); rc = system(cmd);
    rc = rc < 0 ? 99 : rc >> 8;
    /* failures: the output can't be written, the key file is missing, no random bytes, wrong arguments */
    char *a1[] = { "obfuscate", "/dev/full", q, "K", types[nd_range(0, 2)], NULL }; int have_in = access(q, R_OK) == 0;
    int r1 = have_in ? run(obf_main, 5, a1) : 1;
    char *a2[] = { "randomize_key", "/dev/full", "K", NULL }; rnd_fail = 0; int r2 = run(rnd_main, 3, a2);
    char nofile[200], hdr[200]; sprintf(nofile, "%s/none", dir); sprintf(hdr, "%s/x.h", dir);
    char *a3[] = { "obfuscate", hdr, nofile, "K", types[0], NULL }; int r3 = run(obf_main, 5, a3); int made = access(hdr, F_OK) == 0;
    char *a4[] = { "randomize_key", hdr, "K", NULL }; rnd_fail = 1; int r4 = run(rnd_main, 3, a4); made |= access(hdr, F_OK) == 0;
    char *a5[] = { "obfuscate", hdr, q, "K", "OTHER", NULL }; int r5 = run(obf_main, 5, a5), r6 = run(obf_main, 4, a5), r7 = run(rnd_main, 2, a4); made |= access(hdr, F_OK) == 0;
    sprintf(cmd, "cd %s && for f in k*.h t.c t in x.h; do unlink $f 2>/dev/null; done; cd /tmp && rmdir %s", dir, dir); if (system(cmd)) {}
    VP_ASSERT(rc == 0, rc == 1 ? "embed.length" : rc == 2 ? "embed.declared-room" : rc == 3 ? "embed.key-bytes" : rc == 4 ? "embed.cleared-whole" : rc == 6 ? "embed.cleared-also-when-optimised" : "embed.header-usable");
    VP_ASSERT(r1 != 0 && r2 != 0, "embed.success-only-if-written"); VP_ASSERT(r3 != 0 && r4 != 0 && r5 != 0 && r6 != 0 && r7 != 0 && !made, "embed.failure-status");
}
void vp_native_harness(void) { VP_ENTRY(); }
#endif
