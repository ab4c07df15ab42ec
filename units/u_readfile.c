/* Contract of mlle_io_read_file: the whole file or an error; the file is closed. */
#include "vp.h"
#include "libcrypto-compat.h"
#include <errno.h>
#include <sys/stat.h>
#include "mlle_io.h"
#include "mlle_error.h"
char *mlle_io_read_file(const char *file_path, size_t *file_size, struct mlle_error **error);
static const char *g_path; static char g_fobj, *g_data; static size_t g_size, g_N, g_pos, g_k; static int g_open, g_opened, g_ferr, g_errset, g_bad, g_statted, g_stat_ok, g_resized; static struct mlle_error *g_e;
FILE *vp_fopen(const char *p, const char *m) { VP_ASSERT(p == g_path, "readfile.that-file"); VP_ASSERT(m[0] == 'r' && m[1] == 'b' && m[2] == 0, "readfile.binary"); if (nd_range(0, 5) == 0) { g_bad = 1; errno = 2; return NULL; } g_open++; g_opened = 1; return (FILE *)&g_fobj; }
int vp_fclose(FILE *f) { VP_ASSERT(f == (FILE *)&g_fobj && g_open == 1, "readfile.closed-once"); g_open--; return 0; }
int vp_stat(const char *p, struct stat *s) { VP_ASSERT(p == g_path, "readfile.size-of-that-file"); if (nd_range(0, 5) == 0) { g_bad = 1; return -1; } s->st_size = (off_t)g_N; g_size = g_N; g_stat_ok = 1; if (g_resized) g_N = nd_range(0, VP_MAX(2000, 1UL << 40)); return 0; }
int vp_fstat(int d, struct stat *s) { return vp_stat(g_path, s); }
size_t vp_fread(void *b, size_t z, size_t n, FILE *f)
{
    VP_ASSERT(f == (FILE *)&g_fobj && g_open == 1, "readfile.reads-the-open-file"); if (z != 1) VP_UNSUPPORTED("element size");
    size_t left = g_N - g_pos, r = n < left ? n : left;
#ifdef VP_CBMC
    VP_ASSERT(__CPROVER_w_ok(b, n), "readfile.room");
#endif
    if (r > 0 && nd_range(0, 5) == 0) { r = nd_range(0, r - 1); g_ferr = 1; }
#ifdef VP_CBMC
    if (r) { __CPROVER_havoc_slice(b, r); if (g_k >= g_pos && g_k - g_pos < r) ((char *)b)[g_k - g_pos] = g_data[0]; }
#else
    memset(b, 'x', n); memcpy(b, g_data + g_pos, r);
#endif
    g_pos += r; return r;
}
int vp_ferror(FILE *f) { VP_ASSERT(f == (FILE *)&g_fobj && g_open == 1, "readfile.reads-the-open-file"); return g_ferr; }
int vp_feof(FILE *f) { return g_pos == g_N; }
char *vp_strerror(int e) { return "text"; }
void mlle_error_set(struct mlle_error **e, int d, int c, const char *f, ...) { VP_ASSERT(e == &g_e && g_errset == 0, "readfile.error-slot"); g_errset++; }
void mlle_error_set_literal(struct mlle_error **e, int d, int c, const char *f) { VP_ASSERT(vp_text(f), "readfile.error-text"); VP_ASSERT(e == &g_e && g_errset == 0, "readfile.error-slot"); g_errset++; }
int vp_fileno(FILE *f) { return 3; }
int vp_fseek(FILE *f, long o, int w) { VP_UNSUPPORTED("fseek"); return 0; } long vp_ftell(FILE *f) { VP_UNSUPPORTED("ftell"); return 0; } void vp_rewind(FILE *f) { VP_UNSUPPORTED("rewind"); } int vp_fgetc(FILE *f) { VP_UNSUPPORTED("fgetc"); return 0; }
#ifdef VP_NATIVE
int ssl_write_message(SSL *s, char *m, size_t n) { return -1; }
#endif
void h_readfile(void)
{
    static char path[2] = "p"; size_t size = nd_u64(); char *r;
    g_N = nd_range(0, VP_MAX(2000, 1UL << 40)); g_resized = nd_range(0, 5) == 0; g_k = nd_u64();
    g_path = path; g_pos = 0; g_open = g_opened = g_ferr = g_errset = g_bad = g_stat_ok = 0; vp_alloc_failed = 0; g_e = NULL;
#ifdef VP_CBMC
    g_data = nd_buf(1);
#else
    g_data = nd_buf(2001);
#endif
    r = mlle_io_read_file(path, &size, &g_e);
    VP_ASSERT(g_open == 0, "readfile.closed");
    if (!r) { VP_ASSERT(g_errset > 0, "readfile.failure-sets-error"); VP_ASSERT(g_bad || g_ferr || vp_alloc_failed || g_resized, "readfile.fails-only-with-a-reason"); VP_COVER("readfile.failed"); return; }
    VP_ASSERT(g_opened && !g_bad && g_errset == 0 && (!g_ferr || g_pos == g_size || g_pos == g_N), "readfile.no-contents-after-an-error");
    VP_ASSERT(size == g_pos, "readfile.size"); if (!g_resized) VP_ASSERT(size == g_N, "readfile.whole-file");
#ifdef VP_CBMC
    VP_ASSERT(__CPROVER_r_ok(r, size + 1), "readfile.buffer");
    VP_ASSERT(r[size] == 0, "readfile.terminated"); if (g_k < size) VP_ASSERT(r[g_k] == g_data[0], "readfile.contents");
#else
    VP_ASSERT(r[size] == 0 && memcmp(r, g_data, size) == 0, "readfile.contents");
    free(r); free(g_data);
#endif
    VP_COVER("readfile.ok");
}
void vp_native_harness(void) { vp_alloc_fails = 1; VP_ENTRY(); }
