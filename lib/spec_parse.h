/* Executable reference of the command line grammar (doc/SEMLA.md), native only. */
#ifndef SPEC_PARSE_H
#define SPEC_PARSE_H
#include "spec_protocol.h"
#include "mlle_parse_command.h"
/* leading optional sign + digits, value saturating */
static int spec_int(const char *w, size_t n, long *v)
{
    size_t i = 0; int neg = 0, any = 0, sat = 0; unsigned long x = 0;
    while (i < n && (w[i] >= 9 && w[i] <= 13)) i++;
    if (i < n && (w[i] == '-' || w[i] == '+')) { neg = w[i] == '-'; i++; }
    for (; i < n && w[i] >= '0' && w[i] <= '9'; i++) {
        unsigned d = w[i] - '0'; any = 1;
        if (x > 922337203685477580UL || (x == 922337203685477580UL && d > (unsigned)(7 + neg))) sat = 1; else x = x * 10 + d;
    }
    *v = sat ? (neg ? LONG_MIN : LONG_MAX) : neg ? (long)(0UL - x) : (long)x;
    return any;
}
struct spec_line { int nw, cmd, isint[2]; long val[2]; enum mlle_grammar_error_t e; };
/* the first line of the n bytes at o (ends at NUL); empty lines before it are skipped */
static void spec_parse(const char *o, size_t n, struct spec_line *l)
{
    size_t pos = 0, wa[4], wb[4];
    memset(l, 0, sizeof *l);
    for (size_t i = 0; i < n; i++) if (!o[i]) { n = i; break; }
    while (pos < n && o[pos] == '\n') pos++;
    while (pos < n && o[pos] != '\n') {
        if (o[pos] == ' ') { pos++; continue; }
        size_t a = pos; while (pos < n && o[pos] != ' ' && o[pos] != '\n') pos++;
        if (l->nw < 4) { wa[l->nw] = a; wb[l->nw] = pos; l->nw++; }
    }
    for (int i = 0; i < 2; i++) if (l->nw > i + 1) l->isint[i] = spec_int(o + wa[i + 1], wb[i + 1] - wa[i + 1], &l->val[i]);
    l->cmd = l->nw ? spec_find(o + wa[0], wb[0] - wa[0]) : -1;
    l->e = LE_VALID_GRAMMAR;
    if (l->nw == 0) l->e = LE_NO_TOKENS;
    else if (l->cmd < 0) l->e = LE_UNKNOWN_CMD;
    else {
        int want = spec_ntokens(spec_cmds[l->cmd].form);
        if (l->nw > want) l->e = LE_TOO_MANY_TOKENS;
        else if (l->nw < want) l->e = LE_TOO_FEW_TOKENS;
        else if (want >= 2 && !l->isint[0]) l->e = LE_NOT_AN_INT;
        else if (want >= 3 && !l->isint[1]) l->e = LE_NOT_AN_INT;
        else if (spec_cmds[l->cmd].form == SF_LENGTH && l->val[0] < 0) l->e = LE_NEGATIVE_LENGTH;
        else if (spec_cmds[l->cmd].form == SF_NUMLEN && l->val[1] < 0) l->e = LE_NEGATIVE_LENGTH;
    }
}
/* a structured random line of at most cap bytes without NUL (native generator) */
static size_t gen_put(char *s, size_t p, size_t cap, const char *t) { while (*t && p < cap) s[p++] = *t++; return p; }
static size_t gen_sp(char *s, size_t p, size_t cap) { for (unsigned k = nd_range(0, 9); ; k = 0) { if (p < cap) s[p++] = ' '; if (k < 9) break; } return p; }
static size_t gen_word(char *s, size_t p, size_t cap)
{
    unsigned n = (unsigned)nd_range(1, 6);
    for (unsigned i = 0; i < n && p < cap; i++) { unsigned char c = nd_range(0, 3) ? (unsigned char)nd_range(33, 126) : nd_u8(); s[p++] = c == 0 || c == ' ' || c == '\n' ? 'q' : (char)c; }
    return p;
}
static size_t gen_int(char *s, size_t p, size_t cap)
{
    char b[64]; unsigned long v = nd_u64();
    switch (nd_range(0, 11)) {
    case 0: snprintf(b, sizeof b, "%ld", (long)v); break;
    case 1: snprintf(b, sizeof b, "+%lu", v % 1000); break;
    case 2: snprintf(b, sizeof b, "-%lu", v % 1000); break;
    case 3: snprintf(b, sizeof b, "000%lu", v % 100000); break;
    case 4: snprintf(b, sizeof b, "%lu%lu", v, v); break;
    case 5: snprintf(b, sizeof b, "%luabc", v % 1000); break;
    case 6: { static const char *const t[] = { "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "2147483648", "-2147483649", "4294967296", "-", "+", "0x10", "1e3", "-0", "\t5", "\r", "5\r", "1.5", "--1", "+-2", "18446744073709551616", "65536" };
        snprintf(b, sizeof b, "%s", t[nd_range(0, sizeof t / sizeof *t - 1)]); break; }
    case 7: return gen_word(s, p, cap);
    default: snprintf(b, sizeof b, "%lu", v % 2000);
    }
    return gen_put(s, p, cap, b);
}
static size_t gen_line(char *s, size_t cap, int cmd)
{
    size_t p = 0; int want;
    while (nd_range(0, 19) == 0 && p < cap) s[p++] = '\n';
    while (nd_range(0, 29) == 0 && p < cap) s[p++] = ' ';
    if (cmd < 0) { p = gen_word(s, p, cap); want = (int)nd_range(0, 4); }
    else {
        char w[20]; memcpy(w, spec_cmds[cmd].name, spec_cmds[cmd].len + 1); want = spec_ntokens(spec_cmds[cmd].form) - 1;
        unsigned l = spec_cmds[cmd].len;
        switch (nd_range(0, 39)) { case 0: w[l - 1] = 0; break; case 1: w[l] = 'S'; w[l + 1] = 0; break; case 2: w[0] ^= 32; break; case 3: w[nd_range(0, l - 1)] ^= 1; break; case 4: w[l] = '\t'; w[l + 1] = 0; break; case 5: w[l] = '\r'; w[l + 1] = 0; break; }
        for (unsigned i = 0; w[i]; i++) if (w[i] == ' ' || w[i] == '\n') w[i] = 'q';
        p = gen_put(s, p, cap, w);
    }
    if (nd_range(0, 19) == 0) want = (int)nd_range(0, 6);
    for (int i = 0; i < want; i++) { p = gen_sp(s, p, cap); p = gen_int(s, p, cap); }
    while (nd_range(0, 29) == 0 && p < cap) s[p++] = ' ';
    if (nd_range(0, 19) && p < cap) s[p++] = '\n';
    return p;
}
#endif
