/* Contract of the command-line parser: mlle_tokenize + mlle_parse_command
 * against the specification in lib/spec_protocol.h. */
#include "vp.h"
#include "spec_protocol.h"
#include "mlle_parse_command.h"

#define ERRLEN 4096

/* contract of one parse: words w[0..n) with n words on the first line;
 * val[i]/isint[i]: what the decimal text of argument i denotes */
static void ens_parse(enum mlle_grammar_error_t r, const struct mlle_command *c,
                      int nwords, int cmd, const int *isint, const long *val)
{
    enum mlle_grammar_error_t e = LE_VALID_GRAMMAR;
    if (nwords == 0) e = LE_NO_TOKENS;
    else if (cmd < 0) e = LE_UNKNOWN_CMD;
    else {
        int want = spec_ntokens(spec_cmds[cmd].form);
        if (nwords > want) e = LE_TOO_MANY_TOKENS;
        else if (nwords < want) e = LE_TOO_FEW_TOKENS;
        else if (want >= 2 && !isint[0]) e = LE_NOT_AN_INT;
        else if (want >= 3 && !isint[1]) e = LE_NOT_AN_INT;
        else if (spec_cmds[cmd].form == SF_LENGTH && val[0] < 0) e = LE_NEGATIVE_LENGTH;
        else if (spec_cmds[cmd].form == SF_NUMLEN && val[1] < 0) e = LE_NEGATIVE_LENGTH;
    }
    VP_ASSERT((r == LE_VALID_GRAMMAR) == (e == LE_VALID_GRAMMAR), "parse.accepts-exactly-wellformed");
    VP_ASSERT(r == e, "parse.reason");
    if (r == LE_VALID_GRAMMAR && e == LE_VALID_GRAMMAR) {
        enum spec_form f = spec_cmds[cmd].form;
        VP_ASSERT(c->id == spec_cmds[cmd].id, "parse.id");
        VP_ASSERT(c->number == (f == SF_NUMBER || f == SF_NUMLEN ? val[0] : 0), "parse.number");
        VP_ASSERT(c->length == (f == SF_LENGTH ? (size_t)val[0] : f == SF_NUMLEN ? (size_t)val[1] : 0), "parse.length");
        VP_ASSERT(c->data == NULL, "parse.no-data-yet");
        VP_COVER("parse.accepted");
    } else {
        VP_ASSERT(c->id == MLLE_PROTOCOL_UNDEFINED_CMD && c->data == NULL && c->length == 0, "parse.reject-leaves-undefined");
        VP_COVER("parse.rejected");
    }
}

#ifdef VP_PROOF
/* ---- unbounded.  mlle_tokenize is replaced by its contract (proved in
 * u_tokenize): tokens are distinct strings of unbounded length holding the words
 * of the first line.  sscanf is replaced by its contract on a token. ---- */
static char *T[3]; static size_t L[3]; static int nw;
static int g_isint[3]; static long g_val[3]; static int g_eof[3];
static char *g_string;
size_t ct_mlle_tokenize(char *string, char *tokens[MLLE_PROTOCOL_MAX_TOKENS_PER_MSG])
{
    VP_ASSERT(string == g_string, "parse.tokenizes-its-argument");
    for (int i = 0; i < 3; i++) if (i < nw) tokens[i] = T[i];
    return nw == 4 ? (size_t)MLLE_PROTOCOL_TOO_MANY_TOKENS : (size_t)nw;
}
long strtol(const char *s, char **end, int base)
{
    int a = nw >= 2 && s == T[1] ? 0 : nw >= 3 && s == T[2] ? 1 : nw >= 1 && s == T[0] ? 2 : -1; size_t k;
    __CPROVER_assert(a >= 0 && base == 10, "UNSUPPORTED:strtol on something that is not a token");
    __CPROVER_assume(k >= 1 && k <= L[a == 2 ? 0 : a + 1]);
    if (end) *end = (char *)s + (g_isint[a] ? k : 0);
    return g_isint[a] ? g_val[a] : 0;
}
int sscanf(const char *s, const char *fmt, ...)
{
    int a = nw >= 2 && s == T[1] ? 0 : nw >= 3 && s == T[2] ? 1 : nw >= 1 && s == T[0] ? 2 : -1;
    __CPROVER_assert(a >= 0, "UNSUPPORTED:sscanf on something that is not a token");
    __CPROVER_assert(fmt[0] == '%' && fmt[1] == 'l' && fmt[2] == 'd' && fmt[3] == 0, "UNSUPPORTED:sscanf format");
    va_list ap; va_start(ap, fmt); long *n = va_arg(ap, long *); va_end(ap);
    if (!g_isint[a]) return g_eof[a] ? -1 : 0;
    *n = g_val[a];
    return 1;
}
/* contract of snprintf: terminated text inside the destination; its length is at
 * most that of the format (<= 80) plus its string arguments.  When the first
 * word is a command name every string argument but tokens 2,3 is <= 13 bytes. */
static int short_msgs;
int snprintf(char *buf, size_t size, const char *fmt, ...)
{
    size_t n; __CPROVER_assume(n < 1000000000UL && (!short_msgs || n <= 120));
    if (size) {
        size_t last = n < size ? n : size - 1;
        __CPROVER_assert(__CPROVER_w_ok(buf, last + 1), "snprintf: output within destination");
        buf[last] = 0;
    }
    return (int)n;
}
void h_parse(void)
{
    struct mlle_command c; char err[ERRLEN];
    nw = (int)nd_range(0, 4);
    for (int i = 0; i < 3; i++) if (i < nw) {
        L[i] = nd_u64(); VP_ASSUME(L[i] >= 1 && L[i] < (1UL << 40));
        T[i] = nd_buf(L[i] + 1); T[i][L[i]] = 0;
        for (unsigned j = 0; j < SPEC_MAXNAME + 2; j++) if (i == 0 && j < L[i]) VP_ASSUME(T[i][j] != 0);
    }
    for (int i = 0; i < 3; i++) { g_isint[i] = nd_bool(); g_val[i] = nd_long(); g_eof[i] = nd_bool(); }
    g_isint[2] = 0;
    g_string = nd_bool() && nw == 0 ? NULL : nd_buf(1);
    int cmd = nw ? spec_find(T[0], L[0]) : -1;
    short_msgs = cmd >= 0 && nw != spec_ntokens(spec_cmds[cmd].form);
    err[0] = 0;
    enum mlle_grammar_error_t r = mlle_parse_command(g_string, &c, err, ERRLEN);
    ens_parse(r, &c, nw, cmd, g_isint, g_val);
}
#else
/* ---- bounded: arbitrary bytes, executable specification ---- */
#include "spec_parse.h"
#define B_LINE 5000
void h_parse(void)
{
    struct mlle_command c; char err[ERRLEN + 64]; static char s[B_LINE + 1]; size_t n; struct spec_line l; char *x;
    if (nd_range(0, 3) == 0) { n = nd_range(0, 20); nd_fill(s, n); }
    else n = gen_line(s, 900, (int)nd_range(0, SPEC_NCMD) - 1);
    if (nd_range(0, 9) == 0) { unsigned k = (unsigned)nd_range(0, 30); nd_fill(s + n, k); n += k; }
    if (nd_range(0, 400) == 0) { size_t k = nd_range(3800, 4990 - n > 4990 ? 3800 : 4990 - n); memmove(s + k, s, n); memset(s, nd_bool() ? 'a' : ' ', k); n += k; }
    x = malloc(n + 1); memcpy(x, s, n); x[n] = 0;
    spec_parse(s, n, &l);
    memset(err, 0, ERRLEN); memset(err + ERRLEN, 'G', 64);
    memset(&c, 0x5a, sizeof c);
    enum mlle_grammar_error_t r = mlle_parse_command(x, &c, err, ERRLEN);
    ens_parse(r, &c, l.nw, l.cmd, l.isint, l.val);
    if (r != LE_VALID_GRAMMAR) VP_ASSERT(memchr(err, 0, ERRLEN) != NULL && (err[0] != 0 || r == LE_NOT_AN_INT), "parse.error-text");
    for (int i = 0; i < 64; i++) VP_ASSERT(err[ERRLEN + i] == 'G', "parse.error-text-within-buffer");
    free(x);
}
#endif
#ifdef VP_NATIVE
void vp_native_harness(void) { h_parse(); }
#endif
