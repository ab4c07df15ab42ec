/* Bounded replay search for C15: the real send and receive functions, compiled as
 * the release build compiles them (optimised, free() known to the compiler), must
 * really clear what they free.  The proof obligations (wipe.*) are about the source:
 * a compiler may leave out a plain memset of memory that is freed next. */
#include "vp.h"
#include <malloc.h>
#include "libcrypto-compat.h"
#include "mlle_ssl.h"
#include "mlle_io.h"
#include "mlle_parse_command.h"
#include "mlle_utils.h"
#define MARK "\x93\xd1Zq\xe7\xb2\x0fW"
static SSL *const the_ssl = (SSL *)16;
static volatile int on; static unsigned char *in; static size_t in_n, in_pos, rec_end; static int err, last_err;
void __real_free(void *p);
void __wrap_free(void *p)
{
    if (on && p) { size_t n = malloc_usable_size(p), k; volatile unsigned char *q = p; for (k = 0; k + 8 <= n; k++) { int i; for (i = 0; i < 8 && q[k + i] == (unsigned char)MARK[i]; i++); if (i == 8) { on = 0; VP_ASSERT(0, "wipe.remains-after-optimisation"); } } }
    __real_free(p);
}
int vp_SSL_write(SSL *s, const void *b, int n) { return nd_range(0, 5) ? n : (last_err = SSL_ERROR_SYSCALL, -1); }
int vp_SSL_get_error(const SSL *s, int r) { return last_err; }
unsigned long vp_ERR_get_error(void) { return 0; }
int vp_SSL_read(SSL *s, void *b, int n)
{
    size_t k;
    if (in_pos >= in_n || err == (int)in_pos) { last_err = SSL_ERROR_ZERO_RETURN; return 0; }
    if (in_pos >= rec_end) { rec_end = in_pos + nd_range(1, 9000); if (rec_end > in_n) rec_end = in_n; }
    k = nd_range(1, n); if (k > rec_end - in_pos) k = rec_end - in_pos;
    memcpy(b, in + in_pos, k); in_pos += k; return (int)k;
}
int vp_SSL_pending(const SSL *s) { return (int)(rec_end - in_pos); }
int vp_SSL_want(const SSL *s) { return SSL_NOTHING; }
/* what the harness itself marked is cleared too: freed memory is used again */
static void done(void *p, size_t n) { volatile char *q = p; if (p) { while (n--) *q++ = 0; __real_free(p); } }
static char *marked(size_t n) { char *p = malloc(n + 9); for (size_t i = 0; i <= n; i += 8) memcpy(p + i, MARK, 8); p[n] = 0; return p; }
void h_wipe(void)
{
    size_t n = nd_bool() ? nd_range(8, 200) : nd_range(8, 20000); char *m = marked(n); struct mlle_error *e = NULL;
    switch (nd_range(0, 3)) {
    case 0: on = 1; mlle_send_length_form(the_ssl, MLLE_PROTOCOL_FILECONT_CMD, n, m); on = 0; break;
    case 1: on = 1; mlle_send_number_and_length_form(the_ssl, MLLE_PROTOCOL_ERROR_CMD, 7, n, m); on = 0; break;
    case 2: {
        struct mlle_command c; memset(&c, 0, sizeof c); in = malloc(n + 100); in_n = sprintf((char *)in, "FILECONT %zu\n", n); memcpy(in + in_n, m, n); in_n += n; in_pos = rec_end = 0; err = -1;
        on = 1; int ok = mlle_read_command(the_ssl, &c, &e); on = 0;
        if (ok) done(c.data, n); done(in, in_n); break; }
    default: {
        char *o = NULL; int ec; in = (unsigned char *)m; in_n = n; in_pos = 0; rec_end = n; err = (int)nd_range(0, 1) ? (int)nd_range(1, n) : -1;
        on = 1; int r = ssl_read_message(the_ssl, &o, &ec); on = 0; if (r > 0) done(o, r); }
    }
    mlle_error_free(&e); done(m, n + 8);
}
void vp_native_harness(void) { VP_ENTRY(); }
