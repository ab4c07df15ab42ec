/* Contract of extract_data: the payload of a message is the announced number of
 * bytes that follow the command line, no more and no other. */
#include "vp.h"
#include "libcrypto-compat.h"
#include "mlle_io.h"
#include "mlle_utils.h"
#include "skolem_mem.h"
int vp_ph_skip_empty_lines;
size_t g_lead, g_blen; char *g_buf;
#ifdef VP_CBMC
static size_t g_nl; static int g_has_nl;   /* first newline at or after g_lead */
int extract_fact(size_t i) { return i >= g_blen || i > g_lead || (i < g_lead ? g_buf[i] == '\n' : g_buf[i] != '\n'); }
void *memchr(const void *s, int c, size_t n)
{
    if (!(s == (const void *)(g_buf + g_lead) && n == g_blen - g_lead && c == '\n')) VP_UNSUPPORTED("memchr on something else than the command line");
    VP_ASSERT(__CPROVER_r_ok(s, n), "extract.search-within-message");
    return g_has_nl ? g_buf + g_nl : NULL;
}
#endif
/* allocate: arbitrary n bytes; also in native mode exact, so that ASan sees over-reads */
void h_extract(void)
{
    struct mlle_command c = {0}, *pc = &c; size_t n = nd_range(0, VP_MAX(40, 1UL << 30)), k, r;
    char *buf = nd_buf(n);
    size_t lead = 0, nl; int has = 0;
    c.id = (enum mlle_protocol_command_id)nd_range(1, 14); c.number = nd_long();
#ifdef VP_NATIVE
    for (size_t i = 0; i < n; i++) if (nd_range(0, 5) == 0) buf[i] = '\n';
    while (lead < n && buf[lead] == '\n') lead++;
    for (nl = lead; nl < n; nl++) if (buf[nl] == '\n') { has = 1; break; }
    c.length = nd_bool() ? nd_range(0, n + 3) : nd_u64();
#else
    lead = nd_range(0, n); has = nd_bool(); nl = nd_range(0, n);
    VP_ASSUME(!has || (nl > lead && nl < n)); VP_ASSUME(!has || lead < n);
    g_lead = lead; g_blen = n; g_buf = buf; g_nl = nl; g_has_nl = has; vp_ph_skip_empty_lines = 0;
    VP_ASSUME(extract_fact(0) && extract_fact(lead));
    c.length = nd_u64();
#endif
    VP_ASSUME(c.length < SIZE_MAX);
    c.data = nd_bool() ? NULL : malloc(3);
    size_t want = c.length, rest = has ? n - (nl + 1) : 0, take = rest < want ? rest : want;
    k = nd_u64();
#ifdef VP_CBMC
    vp_trk[0] = vp_trk[1] = vp_trk[2] = vp_trk[3] = k;
#endif
    vp_alloc_failed = 0;
    r = extract_data(&pc, buf, n);
    VP_ASSERT(pc == &c && c.length == want, "extract.length-unchanged");
    if (!has || vp_alloc_failed) {
        VP_ASSERT(c.data == NULL && r == 0, "extract.no-payload");
        VP_COVER("extract.none");
    } else {
        VP_ASSERT(c.data != NULL, "extract.payload-present");
        VP_ASSERT(r == take, "extract.bytes-taken");
#ifdef VP_CBMC
        VP_ASSERT(__CPROVER_rw_ok(c.data, want + 1) && __CPROVER_POINTER_OFFSET(c.data) == 0, "extract.room-for-announced-length");
        if (k < take) VP_ASSERT(c.data[k] == buf[nl + 1 + k], "extract.payload-bytes");
#else
        VP_ASSERT(memcmp(c.data, buf + nl + 1, take) == 0, "extract.payload-bytes");
#endif
        VP_ASSERT(c.data[want] == 0, "extract.terminated");
        VP_COVER("extract.some");
    }
#ifdef VP_NATIVE
    free(buf); free(c.data);
#endif
}
#ifdef VP_NATIVE
int ssl_read_message(SSL *s, char **b, int *e) { return -1; }
void ssl_get_error_string(int a, char *b, size_t c) {}
void vp_native_harness(void) { VP_ENTRY(); }
#endif
